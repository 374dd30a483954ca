"""Parser of the contract files (contracts/*.spec)."""
import re

CLAUSES = {"requires", "ensures", "modifies", "inv", "safety", "uses", "ghost", "let", "cases",
           "option", "assume", "hint", "cells", "except", "nonnil", "pick", "newghost"}
TOP = {"func", "extern", "functype", "default", "pure", "logic", "axiom", "lemma", "group", "global", "ghostfield", "ghostvar", "fact"}


class Clause:
    def __init__(self, kw, labels, text, where):
        self.kw, self.labels, self.text, self.where = kw, labels, text, where
        self.expr = None
        self.name = None

    def __repr__(self):
        return "%s%s %s" % (self.kw, self.labels or "", self.text)


class Contract:
    def __init__(self, kind, target, params, results, labels, where):
        self.kind, self.target, self.params, self.results = kind, target, params, results
        self.labels = labels
        self.where = where
        self.clauses = []
        self.default = False

    def get(self, kw, prop=None):
        for c in self.clauses:
            if c.kw == kw and (prop is None or not c.labels or prop in c.labels):
                yield c


TOK = re.compile(r"""
  (?P<ws>\s+) | (?P<com>\#[^\n]*)
 |(?P<num>\d+)
 |(?P<id>[A-Za-z_\$][A-Za-z0-9_\$']*)
 |(?P<str>"(?:[^"\\]|\\.)*") | (?P<chr>'(?:[^'\\]|\\.)+')
 |(?P<op><==>|==>|::|&&|\|\||==|!=|<=|>=|\.\.|[-+*/%!<>()\[\]{},.:?=@])
""", re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out, p = [], 0
    while p < len(s):
        m = TOK.match(s, p)
        if not m:
            raise ParseError("bad token at %r" % s[p:p + 20])
        p = m.end()
        k = m.lastgroup
        if k in ("ws", "com"):
            continue
        out.append((k, m.group()))
    out.append(("eof", ""))
    return out


def unescape(s):
    return bytes(s, "utf-8").decode("unicode_escape").encode("latin-1")


class P:
    def __init__(self, s):
        self.t = tokenize(s)
        self.i = 0
        self.src = s

    def peek(self, n=0):
        return self.t[min(self.i + n, len(self.t) - 1)][1]

    def kind(self, n=0):
        return self.t[min(self.i + n, len(self.t) - 1)][0]

    def eat(self, v=None):
        k, x = self.t[self.i]
        if v is not None and x != v:
            raise ParseError("expected %r, found %r in %r" % (v, x, self.src))
        self.i += 1
        return x

    def accept(self, v):
        if self.peek() == v and self.kind() != "str":
            self.i += 1
            return True
        return False

    # types
    def type(self):
        if self.accept("*"):
            return "*" + self.type()
        if self.accept("["):
            self.eat("]")
            return "[]" + self.type()
        n = self.eat()
        while self.peek() == "." and self.kind(1) == "id":
            self.eat()
            n += "." + self.eat()
        if self.peek() == "[":
            self.eat()
            n += "[" + self.type() + "]"
            self.eat("]")
        return n

    def binders(self, stop):
        vs = []
        while True:
            names = [self.eat()]
            while self.accept(","):
                names.append(self.eat())
            ty = self.type()
            vs += [(n, ty) for n in names]
            if self.accept(stop):
                return vs
            self.eat(",")

    def expr(self):
        if self.peek() in ("forall", "exists") and self.kind() == "id":
            q = self.eat()
            vs = self.binders("::")
            pats = []
            while self.peek() == "{":
                self.eat()
                ps = [self.expr()]
                while self.accept(","):
                    ps.append(self.expr())
                self.eat("}")
                pats.append(ps)
            return (q, vs, pats, self.expr())
        if self.peek() == "let" and self.kind() == "id":
            self.eat()
            n = self.eat()
            self.eat("=")
            e = self.expr()
            self.eat("::")
            return ("let", n, e, self.expr())
        return self.tern()

    def tern(self):
        c = self.iff()
        if self.accept("?"):
            a = self.expr()
            self.eat(":")
            b = self.expr()
            return ("ite", c, a, b)
        return c

    def iff(self):
        a = self.imp()
        while self.accept("<==>"):
            a = ("iff", a, self.imp())
        return a

    def imp(self):
        a = self.or_()
        if self.accept("==>"):
            if self.peek() in ("forall", "exists", "let"):
                return ("imp", a, self.expr())
            return ("imp", a, self.imp())
        return a

    def or_(self):
        a = self.and_()
        while self.accept("||"):
            a = ("or", a, self.quant_or(self.and_))
        return a

    def quant_or(self, f):
        if self.peek() in ("forall", "exists"):
            return self.expr()
        return f()

    def and_(self):
        a = self.quant_or(self.cmp)
        while self.accept("&&"):
            a = ("and", a, self.quant_or(self.cmp))
        return a

    def cmp(self):
        a = self.add()
        ops = []
        while self.kind() in ("op", "id") and self.peek() in ("==", "!=", "<", "<=", ">", ">=", "in"):
            op = self.eat()
            b = self.add()
            ops.append((op, a, b))
            a = b
        if not ops:
            return a
        e = None
        for op, x, y in ops:
            c = ("bin", op, x, y)
            e = c if e is None else ("and", e, c)
        return e

    def add(self):
        a = self.mul()
        while self.kind() == "op" and self.peek() in ("+", "-"):
            op = self.eat()
            a = ("bin", op, a, self.mul())
        return a

    def mul(self):
        a = self.un()
        while self.kind() == "op" and self.peek() in ("*", "/", "%"):
            op = self.eat()
            a = ("bin", op, a, self.un())
        return a

    def un(self):
        if self.accept("!"):
            return ("not", self.un())
        if self.accept("-"):
            return ("neg", self.un())
        if self.accept("*"):
            return ("deref", self.un())
        return self.post()

    def post(self):
        e = self.prim()
        while True:
            if self.accept("."):
                e = ("field", e, self.eat())
            elif self.peek() == "[" and self.kind() == "op":
                self.eat()
                lo = hi = None
                if self.peek() != ":":
                    lo = self.expr()
                if self.accept(":"):
                    if self.peek() != "]":
                        hi = self.expr()
                    self.eat("]")
                    e = ("slice", e, lo, hi)
                else:
                    self.eat("]")
                    e = ("index", e, lo)
            elif self.peek() == "(" and self.kind() == "op":
                self.eat()
                args = []
                if not self.accept(")"):
                    args.append(self.expr())
                    while self.accept(","):
                        args.append(self.expr())
                    self.eat(")")
                e = ("call", e, args)
            else:
                return e

    def prim(self):
        k, x = self.t[self.i]
        if k == "num":
            self.i += 1
            return ("num", int(x))
        if k == "str":
            self.i += 1
            return ("str", unescape(x[1:-1]))
        if k == "chr":
            self.i += 1
            return ("num", unescape(x[1:-1])[0])
        if x == "(":
            self.eat()
            e = self.expr()
            self.eat(")")
            return e
        if k == "id":
            self.i += 1
            return ("id", x)
        raise ParseError("unexpected %r in %r" % (x, self.src))


def parse_expr(s):
    p = P(s)
    e = p.expr()
    if p.kind() != "eof":
        raise ParseError("trailing %r in %r" % (p.peek(), s))
    return e


class Specs:
    def __init__(self):
        self.contracts = {}      # target -> Contract
        self.functypes = {}
        self.defaults = []
        self.pure = {}           # name -> (params, body)
        self.logic = {}          # name -> (ptypes, rtype)
        self.axioms = []         # (name, group, expr, text)
        self.lemmas = []
        self.hints = {}         # lemma -> a term its proof may look at
        self.ghostfields = {}    # (struct, field) -> type
        self.ghostfresh = set()
        self.realfresh = {}
        self.ghostvars = {}
        self.facts = []          # (name, labels, expr, text, where)

    def load(self, path):
        lines = open(path).read().split("\n")
        items = []
        for ln, raw in enumerate(lines, 1):
            s = re.sub(r"(^|\s)//.*$", "", raw).rstrip()
            if not s.strip():
                continue
            m = re.match(r"\s*([a-z]+)\b", s)
            w = m.group(1) if m else None
            ind = len(s) - len(s.lstrip())
            if w in TOP and ind == 0:
                items.append([w, s.strip()[len(w):].strip(), ln, True])
            elif w in CLAUSES and ind == 2:
                items.append([w, s.strip()[len(w):].strip(), ln, False])
            else:
                if not items:
                    raise ParseError("%s:%d" % (path, ln))
                items[-1][1] += "\n" + s.strip()
        cur = None
        group = None
        for w, txt, ln, top in items:
            where = "%s:%d" % (path.split("/")[-1], ln)
            try:
                cur, group = self.item(w, txt, where, top, cur, group)
            except ParseError as e:
                raise ParseError("%s: %s" % (where, e))

    def item(self, w, txt, where, top, cur, group):
        labels = None
        m = re.match(r"\[([A-Z0-9, ]+)\]\s*", txt)
        if m and (not top or w in ("default", "func", "fact", "functype")):
            labels = set(x.strip() for x in m.group(1).split(","))
            txt = txt[m.end():]
        if not top:
            c = Clause(w, labels, txt, where)
            mm = re.match(r"([A-Za-z][\w-]*):\s+(?!:)", txt)
            if mm and w in ("ensures", "requires", "inv"):
                c.name = mm.group(1)
                txt = c.text = txt[mm.end():]
            if w in ("requires", "ensures", "assume", "hint"):
                c.expr = parse_expr(txt)
            elif w == "inv":
                c.metas = []
                mm = re.match(r"for\s+(.*?)\s*::\s*", txt)
                if mm:
                    p = P(mm.group(1) + " ::")
                    c.metas = p.binders("::")
                    txt = txt[mm.end():]
                c.expr = parse_expr(txt)
            elif w == "let":
                n, e = txt.split("=", 1)
                c.name = n.strip()
                c.expr = parse_expr(e)
            elif w in ("ghost", "newghost"):
                l, e = txt.split(":=", 1)
                if l.startswith("forall "):      # a ghost field of every object at once
                    b, l = l[7:].split("::", 1)
                    c.metas = P(b + " ::").binders("::")
                c.lhs = parse_expr(l)
                c.expr = parse_expr(e)
            elif w == "cases":
                n, e = txt.split(" in ", 1)
                c.name = n.strip()
                c.expr = [x.strip() for x in e.split(",")]
            cur.clauses.append(c)
            return cur, group
        if w in ("func", "extern", "functype", "default"):
            m = re.match(r"(.*?)\s*\(([^()]*)\)\s*(?:\(([^()]*)\))?\s*$", txt, re.S) if w != "default" else None
            if w == "default":
                target, ps, rs = txt.strip(), None, None
            else:
                if not m:
                    raise ParseError("bad header %r" % txt)
                target = m.group(1).strip()
                ps = [x.strip() for x in m.group(2).split(",") if x.strip()]
                rs = [x.strip() for x in (m.group(3) or "").split(",") if x.strip()]
            c = Contract(w, target, ps, rs, labels, where)
            if w == "functype":
                self.functypes[target] = c
            elif w == "default":
                c.default = True
                self.defaults.append(c)
            else:
                if target in self.contracts:
                    raise ParseError("duplicate contract " + target)
                self.contracts[target] = c
            return c, group
        if w == "group":
            return None, txt.strip() or None
        if w == "pure":
            m = re.match(r"(\w+)\((.*?)\)\s*=\s*(.*)$", txt, re.S)
            params = []
            if m.group(2).strip():
                p = P(m.group(2) + " ::")
                params = p.binders("::")
            if m.group(1) in self.pure:
                raise ParseError("%s is defined twice" % m.group(1))
            self.pure[m.group(1)] = (params, parse_expr(m.group(3)))
            return None, group
        if w == "logic":
            m = re.match(r"(\w+)\((.*?)\)\s*(\S+)\s*$", txt, re.S)
            ps = [x.strip() for x in m.group(2).split(",") if x.strip()]
            self.logic[m.group(1)] = (ps, m.group(3))
            return None, group
        if w == "axiom":
            n, e = txt.split(":", 1)
            self.axioms.append((n.strip(), group, parse_expr(e), e.strip()))
            return None, group
        if w == "fact":
            n, e = txt.split(":", 1)
            self.facts.append((n.strip(), labels, parse_expr(e), e.strip(), where))
            return None, group
        if w == "lemma":
            m = re.match(r"(\w+)(?:\s+by induction on (\w+|\([^:]*?\))( strong)?)?(?:\s+using ([\w, ]+))?(?:\s+with ([^:]*))?:(.*)$", txt, re.S)
            using = [x.strip() for x in (m.group(4) or "").split(",") if x.strip()]
            self.lemmas.append((m.group(1), group, m.group(2), bool(m.group(3)), parse_expr(m.group(6)), m.group(6).strip(), using))
            self.hints[m.group(1)] = parse_expr(m.group(5)) if m.group(5) else None
            return None, group
        if w == "ghostfield":
            m = re.match(r"(\w+)\.(\w+)\s+(\S+)( fresh)?$", txt)
            if m is None:       # `ghostfield T.f fresh [X]`: what is not allocated yet has a nil field
                m = re.match(r"(\w+)\.(\w+)\s+fresh\s+\[([A-Z0-9, ]+)\]$", txt)
                self.realfresh["%s.%s" % (m.group(1), m.group(2))] = set(x.strip() for x in m.group(3).split(","))
                return None, group
            if m.group(4):
                self.ghostfresh.add((m.group(1), m.group(2)))
            self.ghostfields[(m.group(1), m.group(2))] = m.group(3)
            return None, group
        if w == "ghostvar":
            n, t = txt.split()
            self.ghostvars[n] = t
            return None, group
        raise ParseError("unhandled " + w)
