"""Parser for the Fortran-90 subset used by /repo/src/falwa/f90_modules (free form, implicit typing)."""
from __future__ import annotations
import re
from fractions import Fraction

from .terms import Unsupported

TOK = re.compile(r"""
  (?P<num>(\d+\.\d*([ed][+-]?\d+)?|\.\d+([ed][+-]?\d+)?|\d+[ed][+-]?\d+|\d+)(_\w+)?)
 |(?P<dot>\.(le|lt|ge|gt|eq|ne|and|or|not|true|false|eqv|neqv)\.)
 |(?P<id>[a-z_]\w*)
 |(?P<str>'[^']*'|"[^"]*")
 |(?P<op>\*\*|==|/=|<=|>=|=>|//|::|[-+*/()<>,:=%])
 |(?P<ws>\s+)
""", re.X)


def tokenize(s):
    out = []
    i = 0
    while i < len(s):
        # 1.and. / 2.le. style ambiguity: number followed by dot operator
        m = re.compile(r"\d+(?=\.(le|lt|ge|gt|eq|ne|and|or|not)\.)").match(s, i)
        if m:
            out.append(("num", m.group()))
            i = m.end()
            continue
        m = TOK.match(s, i)
        if not m:
            raise Unsupported(f"cannot tokenize {s[i:i+20]!r}")
        k = m.lastgroup
        for g in ("num", "dot", "id", "str", "op", "ws"):
            if m.group(g) is not None:
                k = g
                break
        if k != "ws":
            out.append((k, m.group()))
        i = m.end()
    return out


class ExprParser:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, *vals):
        if self.peek()[1] in vals and self.peek()[0] in ("op", "dot"):
            return self.next()[1]
        return None

    def expect(self, v):
        if self.peek()[1] != v:
            raise Unsupported(f"expected {v} got {self.peek()} in {self.t}")
        return self.next()

    def expr(self):
        return self.p_eqv()

    def p_eqv(self):
        a = self.p_or()
        while True:
            o = self.accept(".eqv.", ".neqv.")
            if not o:
                return a
            a = ("bin", o, a, self.p_or())

    def p_or(self):
        a = self.p_and()
        while self.accept(".or."):
            a = ("bin", ".or.", a, self.p_and())
        return a

    def p_and(self):
        a = self.p_not()
        while self.accept(".and."):
            a = ("bin", ".and.", a, self.p_not())
        return a

    def p_not(self):
        if self.accept(".not."):
            return ("un", ".not.", self.p_not())
        return self.p_rel()

    REL = {".le.": "<=", ".lt.": "<", ".ge.": ">=", ".gt.": ">", ".eq.": "==", ".ne.": "/=",
           "<=": "<=", "<": "<", ">=": ">=", ">": ">", "==": "==", "/=": "/="}

    def p_rel(self):
        a = self.p_add()
        if self.peek()[1] in self.REL and self.peek()[0] in ("op", "dot"):
            o = self.REL[self.next()[1]]
            return ("bin", o, a, self.p_add())
        return a

    def p_add(self):
        o = self.accept("+", "-")
        a = self.p_mul()
        if o == "-":
            a = ("un", "-", a)
        while True:
            o = self.accept("+", "-")
            if not o:
                return a
            a = ("bin", o, a, self.p_mul())

    def p_mul(self):
        a = self.p_pow()
        while True:
            o = self.accept("*", "/")
            if not o:
                return a
            a = ("bin", o, a, self.p_pow())

    def p_pow(self):
        a = self.p_atom()
        if self.accept("**"):
            o = self.accept("-", "+")
            b = self.p_pow()
            if o == "-":
                b = ("un", "-", b)
            return ("bin", "**", a, b)
        return a

    def p_atom(self):
        k, v = self.next()
        if k == "num":
            v = v.split("_")[0]
            if re.fullmatch(r"\d+", v):
                return ("int", int(v))
            return ("real", Fraction(v.replace("d", "e")))
        if k == "dot" and v in (".true.", ".false."):
            return ("log", v == ".true.")
        if k == "str":
            return ("str", v[1:-1])
        if k == "op" and v == "(":
            e = self.expr()
            self.expect(")")
            return ("par", e)
        if k == "op" and v in "+-":
            e = self.p_mul()
            return ("un", "-", e) if v == "-" else e
        if k == "id":
            if self.peek() == ("op", "("):
                self.next()
                args = []
                if not self.accept(")"):
                    while True:
                        args.append(self.p_arg())
                        if self.accept(","):
                            continue
                        self.expect(")")
                        break
                return ("call", v, args)
            return ("name", v)
        raise Unsupported(f"unexpected token {v!r}")

    def p_arg(self):
        # section, keyword or expression
        if self.peek()[0] == "id" and self.peek(1) == ("op", "="):
            n = self.next()[1]
            self.next()
            return ("kw", n, self.expr())
        lo = hi = st = None
        if self.peek() not in (("op", ":"),):
            lo = self.expr()
        if self.accept(":"):
            if self.peek()[1] not in (",", ")", ":"):
                hi = self.expr()
            if self.accept(":"):
                st = self.expr()
            return ("sec", lo, hi, st)
        return lo


def parse_expr(s):
    p = ExprParser(tokenize(s))
    e = p.expr()
    if p.i != len(p.t):
        raise Unsupported(f"trailing tokens in expression {s!r}")
    return e


class Proc:
    def __init__(self, kind, name, args, result=None):
        self.kind, self.name, self.args, self.result = kind, name, args, result
        self.decls = {}      # name -> dict(type, dims, intent, init, param)
        self.body = []
        self.implicit_none = False
        self.contains = {}
        self.outer = None


def logical_lines(text):
    out = []
    cont = ""
    lineno = 0
    start = 0
    for raw in text.split("\n"):
        lineno += 1
        # strip comment
        s, q = "", None
        for ch in raw:
            if q:
                s += ch
                if ch == q:
                    q = None
            elif ch in "'\"":
                q = ch
                s += ch
            elif ch == "!":
                break
            else:
                s += ch
        s = s.strip()
        if not s:
            continue
        if s.startswith("#"):
            continue
        if cont:
            if s.startswith("&"):
                s = s[1:].lstrip()
            s = cont + " " + s
            cont = ""
        else:
            start = lineno
        if s.endswith("&"):
            cont = s[:-1].rstrip()
            continue
        # lower-case outside strings
        s = "".join(p if i % 2 else p.lower() for i, p in enumerate(re.split(r"('[^']*'|\"[^\"]*\")", s)))
        for part in split_top(s, ";"):
            if part.strip():
                out.append((start, part.strip()))
    if cont:
        out.append((start, cont))
    return out


def split_top(s, sep):
    out, depth, q, cur = [], 0, None, ""
    for ch in s:
        if q:
            cur += ch
            if ch == q:
                q = None
            continue
        if ch in "'\"":
            q = ch
        elif ch in "([":
            depth += 1
        elif ch in ")]":
            depth -= 1
        if ch == sep and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    out.append(cur)
    return out


TYPE = re.compile(r"^(integer|real|logical|double\s*precision|character)\b\s*(\*\s*\d+|\([^)]*\))?\s*(.*)$")


def parse_file(text):
    lines = logical_lines(text)
    procs = {}
    pos = [0]

    def at():
        return lines[pos[0]] if pos[0] < len(lines) else (None, None)

    def parse_proc(outer=None):
        ln, s = at()
        m = re.match(r"^(?:(?:pure|elemental|recursive|real|integer|logical|double\s*precision)(?:\s*\([^)]*\))?\s+)*(subroutine|function)\s+(\w+)\s*(?:\((.*?)\))?\s*(?:result\s*\(\s*(\w+)\s*\))?\s*$", s)
        if not m:
            raise Unsupported(f"line {ln}: expected a procedure, got {s!r}")
        kind, name = m.group(1), m.group(2)
        args = [a.strip() for a in (m.group(3) or "").split(",") if a.strip()]
        pr = Proc(kind, name, args, m.group(4) or (name if kind == "function" else None))
        pr.outer = outer
        tm = re.match(r"^(?:(?:pure|elemental|recursive)\s+)*(real|integer|logical|double\s*precision)", s)
        if kind == "function" and tm:
            pr.decls.setdefault(pr.result, dict(type=_ty(tm.group(1)), dims=None, intent=None, init=None))
        pos[0] += 1
        # declarations
        while True:
            ln, s = at()
            if s is None:
                raise Unsupported("unexpected end of file")
            if re.match(r"^implicit\s+none", s):
                pr.implicit_none = True
                pos[0] += 1
                continue
            if s.startswith("use ") or s.startswith("implicit "):
                raise Unsupported(s)
            m = TYPE.match(s)
            if m and not re.match(r"^\w+\s*=", s) and not re.match(r"^real\s*\(.*\)\s*=", s):
                parse_decl(pr, m)
                pos[0] += 1
                continue
            m = re.match(r"^parameter\s*\((.*)\)$", s)
            if m:
                for it in split_top(m.group(1), ","):
                    n, e = it.split("=", 1)
                    d = pr.decls.setdefault(n.strip(), dict(type=None, dims=None, intent=None, init=None))
                    d["init"] = parse_expr(e)
                    d["param"] = True
                pos[0] += 1
                continue
            m = re.match(r"^dimension\s*(?:::)?\s*(.*)$", s)
            if m:
                for it in split_top(m.group(1), ","):
                    mm = re.match(r"^\s*(\w+)\s*\((.*)\)\s*$", it)
                    d = pr.decls.setdefault(mm.group(1), dict(type=None, dims=None, intent=None, init=None))
                    d["dims"] = parse_dims(mm.group(2))
                pos[0] += 1
                continue
            if re.match(r"^(external|intrinsic|save)\b", s):
                pos[0] += 1
                continue
            break
        pr.body = parse_block(("end", "contains"))
        ln, s = at()
        if s == "contains":
            pos[0] += 1
            while not re.match(r"^end\b", at()[1]):
                q = parse_proc(pr)
                pr.contains[q.name] = q
        pos[0] += 1  # end
        return pr

    def _ty(s):
        s = s.replace(" ", "")
        return {"integer": "i", "real": "r", "doubleprecision": "r", "logical": "l", "character": "c"}[s]

    def parse_dims(s):
        out = []
        for d in split_top(s, ","):
            d = d.strip()
            ps = split_top(d, ":")
            if len(ps) == 2:
                out.append((parse_expr(ps[0]) if ps[0].strip() else ("int", 1), parse_expr(ps[1]) if ps[1].strip() else None))
            elif d == "*":
                out.append((("int", 1), None))
            else:
                out.append((("int", 1), parse_expr(d)))
        return out

    def parse_decl(pr, m):
        ty = _ty(m.group(1))
        rest = m.group(3).strip()
        attrs = []
        if "::" in rest:
            a, rest = rest.split("::", 1)
            attrs = [x.strip() for x in split_top(a.lstrip(","), ",") if x.strip()]
        dims = None
        intent = None
        param = False
        for a in attrs:
            mm = re.match(r"^dimension\s*\((.*)\)$", a)
            if mm:
                dims = parse_dims(mm.group(1))
            mm = re.match(r"^intent\s*\(\s*(.*?)\s*\)$", a)
            if mm:
                intent = mm.group(1).replace(" ", "")
            if a == "parameter":
                param = True
            if a in ("allocatable", "pointer", "target"):
                raise Unsupported(a)
        for it in split_top(rest, ","):
            it = it.strip()
            init = None
            es = split_top(it, "=")
            if len(es) == 2:
                it, init = es[0].strip(), parse_expr(es[1])
            mm = re.match(r"^(\w+)\s*(?:\((.*)\))?$", it)
            if not mm:
                raise Unsupported(f"declaration {it!r}")
            n = mm.group(1)
            d = pr.decls.setdefault(n, dict(type=None, dims=None, intent=None, init=None))
            d["type"] = ty
            d["dims"] = parse_dims(mm.group(2)) if mm.group(2) is not None else dims
            if intent:
                d["intent"] = intent
            if init is not None:
                d["init"] = init
            d["param"] = param

    def block_end(s, stops):
        t = re.sub(r"\s+", "", s)
        for st in stops:
            if st == "end" and re.match(r"^end(subroutine|function)?\b.*$", s) and not re.match(r"^end\s*(do|if|select|where)\b", s):
                return True
            if st == "contains" and s == "contains":
                return True
            if st == "enddo" and t.startswith("enddo"):
                return True
            if st == "endif" and t.startswith("endif"):
                return True
            if st == "else" and (s == "else" or re.match(r"^else\s*if\b", s)):
                return True
            if st == "endwhere" and (t.startswith("endwhere") or t.startswith("elsewhere")):
                return True
            if st == "case" and (re.match(r"^case\b", s) or t.startswith("endselect")):
                return True
        return False

    def parse_block(stops, label_stop=None):
        out = []
        while True:
            ln, s = at()
            if s is None:
                raise Unsupported("unexpected end of file in block")
            if block_end(s, stops):
                return out
            pos[0] += 1
            m = re.match(r"^(\d+)\s+(.*)$", s)
            if m:
                out.append(("label", int(m.group(1)), ln))
                s = m.group(2)
            m = re.match(r"^(\w+)\s*:\s*(do\b.*)$", s)
            cname = None
            if m:
                cname, s = m.group(1), m.group(2)
            st = parse_stmt(s, ln, cname)
            if st is not None:
                out.append(st)

    def parse_stmt(s, ln, cname=None):
        if s == "continue":
            return None
        if re.match(r"^do\b", s) and not re.match(r"^do\w*\s*(\(.*\))?\s*=\s*[^,]*$", s):
            m = re.match(r"^do\s+while\s*\((.*)\)$", s)
            if m:
                body = parse_block(("enddo",))
                pos[0] += 1
                return ("while", parse_expr(m.group(1)), body, ln, cname)
            if s == "do":
                body = parse_block(("enddo",))
                pos[0] += 1
                return ("while", ("log", True), body, ln, cname)
            m = re.match(r"^do\s+(\w+)\s*=\s*(.*)$", s)
            if not m:
                raise Unsupported(f"line {ln}: {s}")
            parts = split_top(m.group(2), ",")
            body = parse_block(("enddo",))
            pos[0] += 1
            return ("do", m.group(1), parse_expr(parts[0]), parse_expr(parts[1]),
                    parse_expr(parts[2]) if len(parts) > 2 else ("int", 1), body, ln, cname)
        m = re.match(r"^if\s*\(", s)
        if m:
            # find matching paren
            d, i = 0, s.index("(")
            for j in range(i, len(s)):
                if s[j] == "(":
                    d += 1
                elif s[j] == ")":
                    d -= 1
                    if d == 0:
                        break
            cond = parse_expr(s[i + 1:j])
            rest = s[j + 1:].strip()
            if rest == "then":
                branches = []
                els = []
                body = parse_block(("endif", "else"))
                branches.append((cond, body))
                while True:
                    _, t = at()
                    pos[0] += 1
                    tt = re.sub(r"\s+", "", t)
                    if tt.startswith("endif"):
                        break
                    m2 = re.match(r"^else\s*if\s*\((.*)\)\s*then$", t)
                    if m2:
                        b = parse_block(("endif", "else"))
                        branches.append((parse_expr(m2.group(1)), b))
                    else:
                        els = parse_block(("endif",))
                return ("if", branches, els, ln)
            st = parse_stmt(rest, ln)
            return ("if", [(cond, [st] if st else [])], [], ln)
        m = re.match(r"^go\s*to\s*(\d+)$", s)
        if m:
            return ("goto", int(m.group(1)), ln)
        if re.match(r"^(write|print|stop|flush)\b", s) and not re.match(r"^\w+\s*=", s):
            if s.startswith("stop"):
                raise Unsupported("stop")
            return ("write", s, ln)
        m = re.match(r"^(exit|cycle)\b\s*(\w*)$", s)
        if m:
            return (m.group(1), m.group(2) or None, ln)
        if s == "return":
            return ("return", ln)
        m = re.match(r"^call\s+(\w+)\s*(?:\((.*)\))?$", s)
        if m:
            args = [parse_arg(a) for a in split_top(m.group(2) or "", ",") if a.strip()]
            return ("call", m.group(1), args, ln)
        m = re.match(r"^where\s*\(", s)
        if m:
            d, i = 0, s.index("(")
            for j in range(i, len(s)):
                if s[j] == "(":
                    d += 1
                elif s[j] == ")":
                    d -= 1
                    if d == 0:
                        break
            cond = parse_expr(s[i + 1:j])
            rest = s[j + 1:].strip()
            if rest:
                return ("where", cond, [parse_stmt(rest, ln)], [], ln)
            b = parse_block(("endwhere",))
            els = []
            _, t = at()
            pos[0] += 1
            if re.sub(r"\s+", "", t).startswith("elsewhere"):
                els = parse_block(("endwhere",))
                pos[0] += 1
            return ("where", cond, b, els, ln)
        # assignment
        parts = split_assign(s)
        if parts:
            return ("assign", parse_lhs(parts[0]), parse_expr(parts[1]), ln)
        raise Unsupported(f"line {ln}: statement {s!r}")

    def parse_arg(a):
        p = ExprParser(tokenize(a))
        e = p.p_arg()
        if p.i != len(p.t):
            raise Unsupported(a)
        return e

    def parse_lhs(s):
        e = parse_expr(s)
        if e[0] not in ("name", "call"):
            raise Unsupported(f"left-hand side {s!r}")
        return e

    def split_assign(s):
        depth = 0
        q = None
        for i, ch in enumerate(s):
            if q:
                if ch == q:
                    q = None
                continue
            if ch in "'\"":
                q = ch
            elif ch == "(":
                depth += 1
            elif ch == ")":
                depth -= 1
            elif ch == "=" and depth == 0 and s[i:i + 2] != "==" and s[i - 1] not in "<>/=":
                return s[:i].strip(), s[i + 1:].strip()
        return None

    while pos[0] < len(lines):
        _, s = at()
        if re.match(r"^(module|contains|end\s*module|implicit|program)\b", s):
            pos[0] += 1
            continue
        p = parse_proc()
        procs[p.name] = p
    return procs


if __name__ == "__main__":
    import sys
    for f in sys.argv[1:]:
        ps = parse_file(open(f).read())
        for n, p in ps.items():
            print(f, n, p.args, len(p.body))
