"""Symbolic executor for the parsed Fortran kernels.

The whole procedure is executed once, loops through the loop rule of fv.loops
(no unrolling, sizes symbolic); the result is each output array as a function of
its indices.  Every array access and every divisor is recorded as an obligation.
"""
from __future__ import annotations
from fractions import Fraction

from .terms import *
from . import terms as T
from .prover import Ctx
from .loops import Cell, mkparams, summarise, NOTES


class Val:
    __slots__ = ("ty", "v", "shape")     # shape None: scalar; else list of extents, v: f(idx 1-based)

    def __init__(self, ty, v, shape=None):
        self.ty, self.v, self.shape = ty, v, shape


class State:
    __slots__ = ("c", "alive")

    def __init__(self, c, alive=TRUE):
        self.c, self.alive = c, alive

    def copy(self):
        return State(dict(self.c), self.alive)


class Obl:
    __slots__ = ("kind", "ctx", "cond", "text", "line")

    def __init__(self, kind, ctx, cond, text, line):
        self.kind, self.ctx, self.cond, self.text, self.line = kind, ctx, cond, text, line


INTR = {"sin", "cos", "tan", "exp", "log", "alog", "acos", "asin", "atan", "abs", "sqrt", "float", "real", "dble",
        "int", "nint", "floor", "mod", "modulo", "max", "min", "maxval", "minval", "sum", "merge", "size", "sign",
        "amax1", "amin1", "max0", "min0", "dot_product", "spread", "any", "all", "iabs"}

_k = __import__("itertools").count()


def cite(c, a, b):
    """ite over conditions"""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    return c_or(c_and(c, a), c_and(c_not(c), b))


class Exec:
    def __init__(self, procs, bounds=True, cut=False):
        self.procs = procs
        self.cut = cut
        self.cuts = []          # stages: name -> (symbol cell, defining cell)
        self.obls = []
        self.bounds = bounds
        self.active = []
        self.loopfacts = []
        self.gotos = {}
        self.exitfacts = []
        self.decl = None
        self.snaps = {}

    # ------------------------------------------------------------------
    def run(self, name, ctx, scalars=None, arrays=None, rename=None):
        """scalars: dummy -> Poly/Cond; arrays: dummy -> Cell (default: opaque select).  Returns the
        final State cells of the procedure's dummies and locals."""
        pr = self.procs[name]
        self.proc = pr
        st = State({})
        dims = {}
        self.dims = dims
        self.types = {}
        names = self._names(pr)
        # scalars first (dims depend on them)
        for a in pr.args:
            d = pr.decls.get(a, {})
            if d.get("dims") is None:
                ty = self.ty_of(pr, a)
                self.types[a] = ty
                if d.get("intent") == "out":
                    v = FALSE if ty == "l" else ZERO
                    st.c[a] = Cell((), v, ty == "i", ty == "l")
                    continue
                v = (scalars or {}).get(a)
                if v is None:
                    v = boolvar(a) if ty == "l" else var(a, ty == "i")
                st.c[a] = Cell((), v, ty == "i", ty == "l")
        for n, d in pr.decls.items():
            if d.get("param") and d.get("dims") is None:
                ty = self.ty_of(pr, n)
                self.types[n] = ty
                st.c[n] = Cell((), self.conv(self.ev(d["init"], st, ctx), ty).v, ty == "i", ty == "l")
        for n in names:
            d = pr.decls.get(n, {})
            ty = self.ty_of(pr, n)
            self.types[n] = ty
            if d.get("dims") is not None:
                dl = []
                for lo, hi in d["dims"]:
                    l = self.ev(lo, st, ctx).v
                    if hi is None:
                        raise Unsupported(f"assumed-shape dummy {n}")
                    dl.append((l, self.ev(hi, st, ctx).v))
                dims[n] = dl
                ps = mkparams(len(dl))
                if n in pr.args:
                    if d.get("intent") == "out":
                        c = Cell(ps, FALSE if ty == "l" else ZERO, ty == "i", ty == "l")
                    else:
                        c = (arrays or {}).get(n) or Cell(ps, sel(n, *[P(p) for p in ps], isint=ty == "i"), ty == "i")
                    st.c[n] = c
                else:
                    st.c[n] = Cell(ps, sel("undef:" + n, *[P(p) for p in ps], isint=ty == "i"), ty == "i", ty == "l")
                    if ty == "l":
                        raise Unsupported("logical array")
            elif n not in st.c:
                if ty == "c":
                    continue
                if d.get("init") is not None:
                    st.c[n] = Cell((), self.conv(self.ev(d["init"], st, ctx), ty).v, ty == "i", ty == "l")
                elif ty == "l":
                    st.c[n] = Cell((), boolvar("undef:" + n), islog=True)
                else:
                    st.c[n] = Cell((), var("undef:" + n, ty == "i"), ty == "i")
        self.ret = []
        self.top = pr.body
        self.block(pr.body, st, ctx)
        if self.ret:
            raise Unsupported("return inside the body")
        return st.c

    def cutpoint(self, st, why):
        """ghost names for everything computed so far: later code is verified for arbitrary values of them (their
        definitions stay available to the contract).  Only ever forgets information."""
        n = len(self.cuts)
        defs = {}
        for v, c in list(st.c.items()):
            if c.islog or c.isint or not isinstance(c.term, Poly):
                continue
            names = sel_names(c.term)
            if not names or (len(names) == 1 and len(c.term.atomset) == 1 and len(c.term.t) == 1
                             and next(iter(c.term.atomset)).kind == "sel"):
                continue
            nm = f"cut{n}:{v}"
            new = Cell(c.params, sel(nm, *[P(p) for p in c.params]), False) if c.params else Cell((), var(nm), False)
            defs[v] = (new, c)
            st.c[v] = new
        self.cuts.append((why, defs))

    def ty_of(self, pr, n):
        d = pr.decls.get(n)
        if d and d.get("type"):
            return d["type"]
        return "i" if n[0] in "ijklmn" else "r"

    def _names(self, pr):
        out = list(pr.decls)
        seen = set(out)

        def lhs(e):
            n = e[1]
            if n not in seen:
                seen.add(n)
                out.append(n)

        def walk(b):
            for s in b:
                if s[0] == "assign":
                    lhs(s[1])
                elif s[0] == "do":
                    lhs(("name", s[1]))
                    walk(s[5])
                elif s[0] == "while":
                    walk(s[2])
                elif s[0] == "if":
                    for _, x in s[1]:
                        walk(x)
                    walk(s[2])
                elif s[0] == "where":
                    walk(s[2])
                    walk(s[3])
                elif s[0] == "call":
                    for a in s[2]:
                        if a[0] == "name":
                            lhs(a)
        walk(pr.body)

        def rd(e):
            if isinstance(e, tuple):
                if e and e[0] == "name":
                    lhs(e)
                for x in e:
                    rd(x)
            elif isinstance(e, list):
                for x in e:
                    rd(x)

        def walk2(b):
            for s in b:
                if s[0] == "assign":
                    rd(s[2])
                    rd(s[1][2:] if s[1][0] == "call" else None)
                elif s[0] == "do":
                    rd(s[2]); rd(s[3]); rd(s[4])
                    walk2(s[5])
                elif s[0] == "while":
                    rd(s[1])
                    walk2(s[2])
                elif s[0] == "if":
                    for c, x in s[1]:
                        rd(c)
                        walk2(x)
                    walk2(s[2])
                elif s[0] == "where":
                    rd(s[1])
                    walk2(s[2])
                    walk2(s[3])
        walk2(pr.body)
        return out

    # ------------------------------------------------------------------
    def conv(self, v, ty):
        """convert a value to a variable of type ty on assignment"""
        if v.ty == ty or ty == "l" or v.ty == "l":
            return v
        if ty == "r":
            return Val("r", v.v, v.shape)
        if v.shape is None:
            return Val("i", fn("int", v.v))
        f = v.v
        return Val("i", lambda idx: fn("int", f(idx)), v.shape)

    def assigned(self, stmts, out=None):
        if out is None:
            out = []
        for s in stmts:
            if s[0] == "assign":
                if s[1][1] not in out:
                    out.append(s[1][1])
            elif s[0] == "do":
                if s[1] not in out:
                    out.append(s[1])
                self.assigned(s[5], out)
            elif s[0] == "while":
                self.assigned(s[2], out)
            elif s[0] == "if":
                for _, b in s[1]:
                    self.assigned(b, out)
                self.assigned(s[2], out)
            elif s[0] == "where":
                self.assigned(s[2], out)
                self.assigned(s[3], out)
            elif s[0] == "call":
                for a in s[2]:
                    if a[0] in ("name", "call") and a[1] not in out and a[1] in self.types:
                        out.append(a[1])
                sub = self.procs.get(s[1]) or self.proc.contains.get(s[1])
                if sub is not None and s[1] in self.proc.contains:
                    for n in self.assigned(sub.body):
                        if n in self.types and n not in out:
                            out.append(n)
        return out

    def has_exit(self, stmts, depth=0):
        for s in stmts:
            if s[0] in ("goto", "return"):
                return True
            if s[0] == "exit" and depth == 0:
                return True
            if s[0] == "do" and self.has_exit(s[5], depth + 1):
                return True
            if s[0] == "while" and self.has_exit(s[2], depth + 1):
                return True
            if s[0] == "if":
                if any(self.has_exit(b, depth) for _, b in s[1]) or self.has_exit(s[2], depth):
                    return True
        return False

    # ------------------------------------------------------------------
    def merge(self, c, a, b):
        """state a if c else b"""
        out = {}
        for n in b.c:
            x, y = a.c[n], b.c[n]
            if x.term is y.term and x.params == y.params:
                out[n] = y
            elif x.islog:
                out[n] = Cell((), cite(c, x.term, y.term), islog=True)
            else:
                out[n] = Cell(y.params, ite(c, x.at([P(p) for p in y.params]), y.term), y.isint)
        return State(out, cite(c, a.alive, b.alive))

    def block(self, stmts, st, ctx):
        for k, s in enumerate(stmts):
            if self.cut and stmts is self.top and s[0] == "do" and self.has_exit(s[5]):
                self.cutpoint(st, "loop")
            if self.cut and stmts is self.top and k and stmts[k - 1][0] == "label":
                self.cutpoint(st, "label")
            if st.alive is FALSE:
                # only labels can revive
                if s[0] != "label":
                    continue
            self.stmt(s, st, ctx)
            if st.alive is not TRUE and st.alive is not FALSE and k + 1 < len(stmts):
                if any(x[0] == "label" for x in stmts[k + 1:]):
                    raise Unsupported("partial control flow into a label")
                a = st.alive
                s2 = State(dict(st.c), TRUE)
                ch = ctx.child(a)
                self.block(stmts[k + 1:], s2, ch)
                m = self.merge(a, s2, State(st.c, FALSE))
                st.c, st.alive = m.c, m.alive
                return

    def stmt(self, s, st, ctx):
        k = s[0]
        if k == "assign":
            self.assign(s[1], self.ev(s[2], st, ctx, s[3]), st, ctx, s[3])
        elif k == "do":
            self.do(s, st, ctx)
        elif k == "if":
            self.if_(s[1], s[2], st, ctx, s[3])
        elif k == "write":
            pass
        elif k == "cycle":
            if s[1] and s[1] != self.loopname:
                raise Unsupported("cycle to an outer loop")
            st.alive = FALSE
        elif k in ("goto", "exit"):
            tgt = s[1] if k == "goto" else "exit"
            if k == "exit" and s[1] and s[1] != self.loopname:
                raise Unsupported("exit of an outer loop")
            self.gotos.setdefault(tgt, []).append((ctx, State(dict(st.c))))
            st.alive = FALSE
        elif k == "label":
            for conv, snap in self.pend.pop(s[1], []) if hasattr(self, "pend") else []:
                m = self.merge(conv, snap, st)
                st.c, st.alive = m.c, TRUE
        elif k == "where":
            self.where(s, st, ctx)
        elif k == "call":
            self.call(s[1], s[2], st, ctx, s[3])
        elif k == "return":
            self.ret.append((ctx, State(dict(st.c))))
            st.alive = FALSE
        else:
            raise Unsupported(f"statement {k}")

    def if_(self, branches, els, st, ctx, ln):
        if not branches:
            self.block(els, st, ctx)
            return
        (ce, body), rest = branches[0], branches[1:]
        c = self.ev(ce, st, ctx, ln).v
        c = ctx.simp_cond(c)
        d = ctx.decide(c)
        if d is True:
            self.block(body, st, ctx)
            return
        if d is False:
            self.if_(rest, els, st, ctx, ln)
            return
        a, b = st.copy(), st.copy()
        self.block(body, a, ctx.child(c))
        self.if_(rest, els, b, ctx.child(c_not(c)), ln)
        m = self.merge(c, a, b)
        st.c, st.alive = m.c, m.alive

    def where(self, s, st, ctx):
        _, ce, body, els, ln = s
        m = self.ev(ce, st, ctx, ln)
        if m.shape is None:
            raise Unsupported("scalar where")
        f = m.v
        for blk, sg in ((body, True), (els, False)):
            for a in blk:
                if a[0] != "assign":
                    raise Unsupported("where body")
                self.assign(a[1], self.ev(a[2], st, ctx, ln), st, ctx, ln,
                            mask=(f if sg else (lambda idx: c_not(f(idx)))))

    # ------------------------------------------------------------------
    def do(self, s, st, ctx):
        _, vn, loe, hie, ste, body, ln, cname = s
        lo, hi = self.ev(loe, st, ctx, ln).v, self.ev(hie, st, ctx, ln).v
        lo, hi = ctx.simp(lo), ctx.simp(hi)
        stp = self.ev(ste, st, ctx, ln).v.const
        if stp not in (1, -1):
            raise Unsupported(f"line {ln}: loop step {stp}")
        stp = int(stp)
        iv = fresh(vn)
        wset = [n for n in self.assigned(body) if n in st.c and n != vn]
        oldname = getattr(self, "loopname", None)
        if self.has_exit(body):
            return self.exitloop(s, st, ctx, lo, hi, stp, iv, wset)
        self.loopname = cname

        def run_body(cells, ictx):
            cells = dict(cells)
            cells[vn] = Cell((), iv, True)
            s2 = State(cells)
            self.active.append(iv)
            self.loopname = cname
            try:
                self.block(body, s2, ictx)
            finally:
                self.active.pop()
                self.loopname = oldname
            s2.c[vn] = Cell((), iv, True)
            return s2.c
        init = dict(st.c)
        fin = summarise(ctx, iv, lo, hi, stp, init, run_body, tuple(self.active), wset)
        for n, c in fin.items():
            st.c[n] = c
        end = (hi + 1) if stp > 0 else (hi - 1)
        ne = cmp_le(lo, hi) if stp > 0 else cmp_le(hi, lo)
        st.c[vn] = Cell((), ctx.simp(ite(ne, end, lo)), True)
        self.loopname = oldname

    def exitloop(self, s, st, ctx, lo, hi, stp, iv, wset):
        """a loop left early: the state at the exit is one arbitrary iteration from an arbitrary
        (havocked) state of everything the body assigns; the DO variable is in range there."""
        _, vn, loe, hie, ste, body, ln, cname = s
        if stp != 1:
            raise Unsupported("descending loop with early exit")
        k = next(_k)

        def havoc(tag):
            c = dict(st.c)
            for n in wset:
                x = c[n]
                nm = f"{tag}:{n}#{k}"
                if x.islog:
                    c[n] = Cell((), boolvar(nm), islog=True)
                elif x.params:
                    c[n] = Cell(x.params, sel(nm, *[P(p) for p in x.params], isint=x.isint), x.isint)
                else:
                    c[n] = Cell((), var(nm, x.isint), x.isint)
            return c
        first = State(havoc("it"))
        first.c[vn] = Cell((), iv, True)
        ich = ctx.child(cmp_le(lo, iv), cmp_le(iv, hi))
        saveg, self.gotos = self.gotos, {}
        oldname = getattr(self, "loopname", None)
        self.loopname = cname
        self.active.append(iv)
        self.iter_begin = dict(first.c)
        self.iter_ctx = ich
        self.block(body, first, ich)
        self.iter_end = first
        self.active.pop()
        self.loopname = oldname
        gs, self.gotos = self.gotos, saveg
        if not hasattr(self, "pend"):
            self.pend = {}
        # fall-through state: the last iteration's end state (arbitrary start), or no iteration at all
        fall = State(havoc("fall"))
        end = hi + 1
        fall.c[vn] = Cell((), ite(cmp_le(lo, hi), end, lo), True)
        st.c, st.alive = fall.c, TRUE
        self.convs = getattr(self, "convs", [])
        for tgt, lst in gs.items():
            for gctx, snap in lst:
                conv = boolvar(f"left#{next(_k)}")
                self.convs.append((conv, gctx, snap))
                extra = [f for f in gctx.facts if f not in ctx.facts]
                self.exitfacts.append((conv, extra))
                if tgt == "exit":
                    m = self.merge(conv, snap, st)
                    st.c, st.alive = m.c, TRUE
                else:
                    self.pend.setdefault(tgt, []).append((conv, snap))

    # ------------------------------------------------------------------
    def check_bounds(self, name, pos, e, ctx, ln):
        if not self.bounds:
            return
        lo, hi = self.dims[name][pos]
        c = c_and(cmp_le(lo, e), cmp_le(e, hi))
        if c is TRUE:
            return
        self.obls.append(Obl("bounds", ctx, c, f"index {pos + 1} of {name} = {show(e)} within {show(lo)}:{show(hi)}", ln))

    def lhs_parts(self, e, st, ctx, ln):
        """-> (name, list of per-dimension: ('e', Poly) or ('s', lo, hi))"""
        name = e[1]
        dl = self.dims.get(name)
        if e[0] == "name":
            if dl is None:
                return name, None
            return name, [("s", l, h) for l, h in dl]
        if dl is None:
            raise Unsupported(f"line {ln}: assignment to {name}(...)")
        out = []
        if len(e[2]) != len(dl):
            raise Unsupported(f"line {ln}: rank of {name}")
        for pos, (x, (l, h)) in enumerate(zip(e[2], dl)):
            if x[0] == "sec":
                if x[3] is not None:
                    raise Unsupported("strided section")
                lo = self.ev(x[1], st, ctx, ln).v if x[1] is not None else l
                hi = self.ev(x[2], st, ctx, ln).v if x[2] is not None else h
                if x[1] is not None or x[2] is not None:
                    cc = ctx.child(cmp_le(lo, hi))
                    self.check_bounds(name, pos, lo, cc, ln)
                    self.check_bounds(name, pos, hi, cc, ln)
                out.append(("s", lo, hi))
            else:
                v = self.ev(x, st, ctx, ln)
                if v.shape is not None:
                    raise Unsupported("vector subscript")
                i = ctx.simp(v.v)
                self.check_bounds(name, pos, i, ctx, ln)
                out.append(("e", i))
        return name, out

    def assign(self, lhs, val, st, ctx, ln, mask=None):
        name, parts = self.lhs_parts(lhs, st, ctx, ln)
        ty = self.types[name]
        val = self.conv(val, ty)
        old = st.c[name]
        if parts is None:
            if val.shape is not None:
                raise Unsupported(f"line {ln}: array to scalar")
            v = val.v
            if ty == "l":
                st.c[name] = Cell((), ctx.simp_cond(v), islog=True)
            else:
                st.c[name] = Cell((), ctx.simp(v), ty == "i")
            return
        ps = old.params
        conds, m, k = [], {}, 0
        idx = []
        for p, part in zip(ps, parts):
            if part[0] == "e":
                conds.append(cmp_eq(P(p), part[1]))
            else:
                conds += [cmp_le(part[1], P(p)), cmp_le(P(p), part[2])]
                idx.append(P(p) - part[1] + 1)
        guard = c_and(*conds)
        if mask is not None:
            guard = c_and(guard, mask(idx))
        if val.shape is None:
            v = val.v
        else:
            if len(val.shape) != len(idx):
                raise Unsupported(f"line {ln}: shape mismatch")
            v = val.v(idx)
        # sections covering the whole declared range: the guard is implied for in-range indices
        full = mask is None and all(part[0] == "s" and part[1] is d[0] and part[2] is d[1]
                                    for part, d in zip(parts, self.dims[name]))
        if full:
            st.c[name] = Cell(ps, v, ty == "i")
        else:
            ch = ctx.child(guard)
            st.c[name] = Cell(ps, ite(guard, ch.simp(v) if not ch.dead else v, old.term), ty == "i")

    # ------------------------------------------------------------------
    def lift(self, f, *vs, ty=None):
        """elementwise application"""
        shp = None
        for v in vs:
            if v.shape is not None:
                if shp is not None and len(shp) != len(v.shape):
                    raise Unsupported("non-conformable")
                shp = v.shape
        if shp is None:
            return Val(ty, f(*[v.v for v in vs]))
        return Val(ty, lambda idx: f(*[(v.v(idx) if v.shape is not None else v.v) for v in vs]), shp)

    def ev(self, e, st, ctx, ln=0):
        k = e[0]
        if k == "int":
            return Val("i", P(e[1]))
        if k == "real":
            return Val("r", P(e[1]))
        if k == "log":
            return Val("l", TRUE if e[1] else FALSE)
        if k == "par":
            return self.ev(e[1], st, ctx, ln)
        if k == "name":
            n = e[1]
            if n not in st.c:
                raise Unsupported(f"line {ln}: unknown name {n}")
            c = st.c[n]
            if n in self.dims:
                dl = self.dims[n]
                return Val(self.types[n], lambda idx: ctx.simp(c.at([i + d[0] - 1 for i, d in zip(idx, dl)])),
                           [d[1] - d[0] + 1 for d in dl])
            return Val(self.types[n], c.term)
        if k == "un":
            v = self.ev(e[2], st, ctx, ln)
            if e[1] == "-":
                return self.lift(neg, v, ty=v.ty)
            if e[1] == "+":
                return v
            return self.lift(c_not, v, ty="l")
        if k == "bin":
            return self.binop(e[1], self.ev(e[2], st, ctx, ln), self.ev(e[3], st, ctx, ln), ctx, ln)
        if k == "call":
            return self.ref(e[1], e[2], st, ctx, ln)
        raise Unsupported(f"line {ln}: expression {k}")

    def binop(self, op, a, b, ctx, ln):
        if op in (".and.", "and"):
            return self.lift(c_and, a, b, ty="l")
        if op in (".or.", "or"):
            return self.lift(c_or, a, b, ty="l")
        if op in (".eqv.", "eqv"):
            return self.lift(lambda x, y: cite(x, y, c_not(y)), a, b, ty="l")
        if op in (".neqv.", "neqv"):
            return self.lift(lambda x, y: cite(x, c_not(y), y), a, b, ty="l")
        rel = {"==": cmp_eq, "/=": cmp_ne, "<": cmp_lt, "<=": cmp_le, ">": cmp_gt, ">=": cmp_ge,
               "eq": cmp_eq, "ne": cmp_ne, "lt": cmp_lt, "le": cmp_le, "gt": cmp_gt, "ge": cmp_ge}
        o = op.strip(".")
        if o in rel:
            return self.lift(rel[o], a, b, ty="l")
        ty = "i" if a.ty == "i" and b.ty == "i" else "r"
        if op == "+":
            return self.lift(lambda x, y: x + y, a, b, ty=ty)
        if op == "-":
            return self.lift(lambda x, y: x - y, a, b, ty=ty)
        if op == "*":
            return self.lift(lambda x, y: x * y, a, b, ty=ty)
        if op == "/":
            if ty == "i":
                bc = b.v.const if b.shape is None else None
                if bc is None or bc <= 0 or a.shape is not None:
                    raise Unsupported("integer division")
                # truncation equals floor for a non-negative dividend (recorded as an obligation)
                self.obls.append(Obl("intdiv", ctx, cmp_ge(a.v, 0), f"dividend {show(a.v)} non-negative", ln))
                return Val("i", fn("floordiv", a.v, b.v))
            return self.lift(lambda x, y: x / y, a, b, ty=ty)
        if op == "**":
            c = b.v.const if b.shape is None else None
            if c is not None and c.denominator == 1:
                return self.lift(lambda x: x ** int(c), a, ty=ty)
            if c == Fraction(1, 2):
                return self.lift(lambda x: fn("sqrt", x), a, ty="r")
            return self.lift(lambda x, y: fn("exp", y * fn("log", x)), a, b, ty="r")
        raise Unsupported(f"operator {op}")

    def ref(self, n, args, st, ctx, ln):
        if n in self.dims:
            dl = self.dims[n]
            c = st.c[n]
            parts = []
            if len(args) != len(dl):
                raise Unsupported(f"line {ln}: rank of {n}")
            anysec = False
            for pos, (x, (l, h)) in enumerate(zip(args, dl)):
                if x[0] == "sec":
                    if x[3] is not None:
                        raise Unsupported("strided section")
                    anysec = True
                    lo = self.ev(x[1], st, ctx, ln).v if x[1] is not None else l
                    hi = self.ev(x[2], st, ctx, ln).v if x[2] is not None else h
                    if x[1] is not None or x[2] is not None:
                        cc = ctx.child(cmp_le(lo, hi))
                        self.check_bounds(n, pos, lo, cc, ln)
                        self.check_bounds(n, pos, hi, cc, ln)
                    parts.append(("s", lo, hi))
                else:
                    v = self.ev(x, st, ctx, ln)
                    if v.shape is not None:
                        raise Unsupported("vector subscript")
                    i = ctx.simp(v.v)
                    self.check_bounds(n, pos, i, ctx, ln)
                    parts.append(("e", i))
            if not anysec:
                return Val(self.types[n], ctx.simp(c.at([p[1] for p in parts])))

            def f(idx):
                it = iter(idx)
                return ctx.simp(c.at([p[1] if p[0] == "e" else next(it) + p[1] - 1 for p in parts]))
            return Val(self.types[n], f, [p[2] - p[1] + 1 for p in parts if p[0] == "s"])
        sub = self.proc.contains.get(n) or self.procs.get(n)
        if sub is not None and sub.kind == "function":
            return self.inline_fn(sub, args, st, ctx, ln)
        if n not in INTR:
            raise Unsupported(f"line {ln}: reference to {n}")
        kws = {a[1]: a[2] for a in args if a[0] == "kw"}
        vs = [self.ev(a, st, ctx, ln) for a in args if a[0] != "kw"]
        if n in ("float", "real", "dble"):
            return Val("r", vs[0].v, vs[0].shape)
        if n == "int":
            return self.lift(lambda x: fn("int", x), vs[0], ty="i")
        if n == "nint":
            return self.lift(lambda x: fn("floor", x + P(Fraction(1, 2))), vs[0], ty="i")
        if n == "floor":
            return self.lift(lambda x: fn("floor", x), vs[0], ty="i")
        if n in ("alog",):
            n = "log"
        if n == "iabs":
            n = "abs"
        if n in ("sin", "cos", "tan", "exp", "log", "acos", "asin", "atan", "sqrt"):
            return self.lift(lambda x: fn(n, x), vs[0], ty="r")
        if n == "abs":
            return self.lift(lambda x: fn("abs", x), vs[0], ty=vs[0].ty)
        if n in ("mod", "modulo"):
            return self.lift(lambda x, y: fn("mod", x, y), *vs, ty="i" if all(v.ty == "i" for v in vs) else "r")
        if n in ("max", "min", "amax1", "amin1", "max0", "min0"):
            op = "max" if "max" in n else "min"
            r = vs[0]
            for w in vs[1:]:
                r = self.lift(lambda x, y: fn(op, x, y), r, w, ty="i" if r.ty == "i" and w.ty == "i" else "r")
            return r
        if n == "merge":
            return self.lift(lambda a, b, c: ite(c, a, b), *vs, ty=vs[0].ty)
        if n == "sign":
            return self.lift(lambda a, b: ite(cmp_ge(b, 0), fn("abs", a), neg(fn("abs", a))), *vs, ty=vs[0].ty)
        if n in ("maxval", "minval", "sum"):
            v = vs[0]
            if v.shape is None or len(vs) > 2 or "mask" in kws:
                raise Unsupported(n)
            dim = kws.get("dim")
            if dim is None and len(vs) == 2:
                dim = ("int", int(vs[1].v.const))
            ix = [fresh("r") for _ in v.shape]
            if dim is None:
                t = v.v(ix)
                for x, ext in reversed(list(zip(ix, v.shape))):
                    t = mk_sum(x, P(1), ext, t) if n == "sum" else mk_red(n[:3], x, P(1), ext, t)
                return Val(v.ty, t)
            d = dim[1] - 1

            def g(idx):
                full = list(idx)
                w = fresh("r")
                full.insert(d, w)
                t = v.v(full)
                return mk_sum(w, P(1), v.shape[d], t) if n == "sum" else mk_red(n[:3], w, P(1), v.shape[d], t)
            shp = [x for i, x in enumerate(v.shape) if i != d]
            if not shp:
                return Val(v.ty, g([]))
            return Val(v.ty, g, shp)
        if n == "dot_product":
            a, b = vs
            w = fresh("r")
            return Val("r", mk_sum(w, P(1), a.shape[0], a.v([w]) * b.v([w])))
        if n == "size":
            v = vs[0]
            if len(vs) == 2:
                return Val("i", v.shape[int(vs[1].v.const) - 1])
            r = ONE
            for x in v.shape:
                r = r * x
            return Val("i", r)
        raise Unsupported(f"intrinsic {n}")

    # ------------------------------------------------------------------
    def enter(self, sub, args, st, ctx, ln):
        """bind dummies; returns (child exec state, copy-back list)"""
        if self.has_exit(sub.body):
            raise Unsupported("return/goto in a called procedure")
        host = sub.name in self.proc.contains
        ex = Exec(self.procs, self.bounds)
        ex.obls, ex.active = self.obls, self.active
        ex.proc = sub
        ex.dims, ex.types = {}, {}
        c = {}
        if host:
            ex.dims.update(self.dims)
            ex.types.update(self.types)
            c.update(st.c)
        back = []
        bound = dict(zip(sub.args, args))
        s2 = State(c)
        loc = [n for n in ex._names(sub) if (n in sub.decls) or (n not in c)]
        for n in list(bound) + [x for x in loc if x not in bound]:
            d = sub.decls.get(n, {})
            if n in bound and d.get("dims") is None:
                a = bound[n]
                ty = ex.ty_of(sub, n)
                v = self.ev(a, st, ctx, ln)
                if v.shape is not None:
                    raise Unsupported("array to scalar dummy")
                ex.types[n] = ty
                ex.dims.pop(n, None)
                s2.c[n] = Cell((), v.v, ty == "i", ty == "l")
                if a[0] in ("name", "call") and d.get("intent") != "in":
                    back.append((n, a))
        for n in list(bound) + [x for x in loc if x not in bound]:
            d = sub.decls.get(n, {})
            ty = ex.ty_of(sub, n)
            if d.get("dims") is not None:
                dl = []
                a = bound.get(n)
                v = self.ev(a, st, ctx, ln) if a is not None else None
                for q, (lo, hi) in enumerate(d["dims"]):
                    l = ex.ev(lo, s2, ctx).v
                    if hi is None:
                        if v is None or v.shape is None:
                            raise Unsupported("assumed shape")
                        h = l + v.shape[q] - 1
                    else:
                        h = ex.ev(hi, s2, ctx).v
                    dl.append((l, h))
                ps = mkparams(len(dl))
                ex.types[n] = ty
                if v is not None:
                    if v.shape is None or len(v.shape) != len(dl):
                        raise Unsupported("sequence association")
                    ex.dims[n] = dl
                    s2.c[n] = Cell(ps, v.v([P(p) - l[0] + 1 for p, l in zip(ps, dl)]), ty == "i")
                    if d.get("intent") != "in":
                        back.append((n, a))
                else:
                    ex.dims[n] = dl
                    s2.c[n] = Cell(ps, sel(f"undef:{sub.name}.{n}", *[P(p) for p in ps], isint=ty == "i"), ty == "i")
            elif n not in bound:
                ex.types[n] = ty
                ex.dims.pop(n, None)
                if d.get("init") is not None:
                    s2.c[n] = Cell((), ex.conv(ex.ev(d["init"], s2, ctx), ty).v, ty == "i", ty == "l")
                elif ty == "l":
                    s2.c[n] = Cell((), boolvar(f"undef:{sub.name}.{n}"), islog=True)
                else:
                    s2.c[n] = Cell((), var(f"undef:{sub.name}.{n}", ty == "i"), ty == "i")
        return ex, s2, back, host, loc, bound

    def call(self, name, args, st, ctx, ln):
        sub = self.proc.contains.get(name) or self.procs.get(name)
        if sub is None or sub.kind != "subroutine":
            raise Unsupported(f"line {ln}: call {name}")
        self.depth = getattr(self, "depth", 0)
        if self.depth > 4:
            raise Unsupported("call depth")
        ex, s2, back, host, loc, bound = self.enter(sub, args, st, ctx, ln)
        ex.depth = self.depth + 1
        ex.ret = []
        ex.block(sub.body, s2, ctx)
        if host:
            for n in st.c:
                if n not in loc and n not in bound:
                    st.c[n] = s2.c[n]
        for n, a in back:
            c = s2.c[n]
            if n in ex.dims:
                dl = ex.dims[n]
                v = Val(ex.types[n], lambda idx, c=c, dl=dl: c.at([i + d[0] - 1 for i, d in zip(idx, dl)]),
                        [d[1] - d[0] + 1 for d in dl])
            else:
                v = Val(ex.types[n], c.term)
            if a[0] == "call" and a[1] not in self.dims:
                continue
            self.assign(a, v, st, ctx, ln)

    def inline_fn(self, sub, args, st, ctx, ln):
        ex, s2, back, host, loc, bound = self.enter(sub, args, st, ctx, ln)
        ex.depth = getattr(self, "depth", 0) + 1
        if ex.depth > 4:
            raise Unsupported("call depth")
        res = sub.result
        ty = ex.ty_of(sub, res)
        if res not in s2.c or res not in loc:
            ex.types[res] = ty
            ex.dims.pop(res, None)
            s2.c[res] = Cell((), var("undef:" + res, ty == "i"), ty == "i")
        ex.ret = []
        ex.block(sub.body, s2, ctx)
        return Val(ty, s2.c[res].term)
