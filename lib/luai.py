"""Abstract interpreter for the Lua scripts of the editor.

Parses the scripts' source (Lua 5.3 syntax) and evaluates it over concrete and symbolic values.  A branch on a condition
the source does not fix is taken both ways (`explore`).  Objects of the host (`Ext`) record the calls made on them."""
import os, re


class LuaError(Exception):
    pass


class Unsupported(Exception):
    pass


class Cut(Exception):
    """a loop or recursion that does not end within the bound"""


# ---------------------------------------------------------------- lexer
KW = set("and break do else elseif end false for function goto if in local nil not or repeat return then true until while".split())
TOK = re.compile(r"""
 (?P<ws>\s+)
|(?P<com>--\[(?P<ceq>=*)\[.*?\](?P=ceq)\]|--[^\n]*)
|(?P<long>\[(?P<eq>=*)\[.*?\](?P=eq)\])
|(?P<num>0[xX][0-9a-fA-F]+|\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)
|(?P<name>[A-Za-z_]\w*)
|(?P<str>"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*')
|(?P<op>\.\.\.|\.\.|==|~=|<=|>=|<<|>>|//|::|[-+*/%^\#<>=(){}\[\];:,.&|~])
""", re.X | re.S)
ESC = {"n": "\n", "t": "\t", "r": "\r", "\\": "\\", '"': '"', "'": "'", "a": "\a", "b": "\b", "f": "\f", "v": "\v", "\n": "\n"}


def lex(src):
    i, line, out = 0, 1, []
    while i < len(src):
        m = TOK.match(src, i)
        if not m:
            raise Unsupported("line %d: %r" % (line, src[i:i + 10]))
        k, s = m.lastgroup, m.group()
        k = "com" if m.group("com") is not None else "long" if m.group("long") is not None else k
        if k == "name":
            out.append(("kw" if s in KW else "name", s, line))
        elif k == "num":
            out.append(("num", int(s, 16) if s[:2] in ("0x", "0X") else int(s) if s.isdigit() else float(s), line))
        elif k == "str":
            b = re.sub(r"\\z\s*|\\x([0-9a-fA-F]{2})|\\(\d{1,3})|\\u\{([0-9a-fA-F]+)\}|\\(.)",
                       lambda m: chr(int(m.group(1), 16)) if m.group(1) else chr(int(m.group(2))) if m.group(2) else chr(int(m.group(3), 16)) if m.group(3)
                       else ESC.get(m.group(4), "") if m.group(4) else "", s[1:-1], flags=re.S)
            out.append(("str", b, line))
        elif k == "long":
            b = s[s.index("[", 1) + 1:-(len(m.group("eq")) + 2)]
            out.append(("str", b[1:] if b.startswith("\n") else b, line))
        elif k == "op":
            out.append(("op", s, line))
        line += s.count("\n")
        i = m.end()
    out.append(("eof", "", line))
    return out


# ---------------------------------------------------------------- parser
PREC = {"or": (1, 1), "and": (2, 2), "<": (3, 3), ">": (3, 3), "<=": (3, 3), ">=": (3, 3), "~=": (3, 3), "==": (3, 3),
        "|": (4, 4), "~": (5, 5), "&": (6, 6), "<<": (7, 7), ">>": (7, 7), "..": (9, 8), "+": (10, 10), "-": (10, 10),
        "*": (11, 11), "/": (11, 11), "//": (11, 11), "%": (11, 11), "^": (14, 13)}


class Parser:
    def __init__(self, src, file):
        self.t, self.i, self.file = lex(src), 0, file

    def peek(self, *vals):
        k, v, _ = self.t[self.i]
        return k in ("op", "kw") and v in vals

    def take(self, *vals):
        if self.peek(*vals):
            self.i += 1
            return self.t[self.i - 1][1]
        return None

    def need(self, v):
        if not self.take(v):
            raise Unsupported("%s:%d: %s expected, %r found" % (self.file, self.t[self.i][2], v, self.t[self.i][1]))

    def name(self):
        k, v, l = self.t[self.i]
        if k != "name":
            raise Unsupported("%s:%d: name expected, %r found" % (self.file, l, v))
        self.i += 1
        return v

    @property
    def line(self):
        return self.t[self.i][2]

    def chunk(self):
        b = self.block()
        if self.t[self.i][0] != "eof":
            raise Unsupported("%s:%d: unexpected %r" % (self.file, self.line, self.t[self.i][1]))
        return ("function", [], True, b, "main chunk", 0)

    def block(self):
        out = []
        while not self.peek("end", "else", "elseif", "until") and self.t[self.i][0] != "eof":
            if self.peek("return"):
                l = self.line
                self.i += 1
                es = []
                if not self.peek("end", "else", "elseif", "until", ";") and self.t[self.i][0] != "eof":
                    es = self.exprs()
                self.take(";")
                out.append(("return", es, l))
                break
            s = self.stat()
            if s:
                out.append(s)
        return out

    def stat(self):
        l = self.line
        if self.take(";"):
            return None
        if self.take("if"):
            arms = []
            c = self.expr()
            self.need("then")
            arms.append((c, self.block()))
            other = []
            while True:
                if self.take("elseif"):
                    c = self.expr()
                    self.need("then")
                    arms.append((c, self.block()))
                elif self.take("else"):
                    other = self.block()
                    self.need("end")
                    break
                else:
                    self.need("end")
                    break
            return ("if", arms, other, l)
        if self.take("while"):
            c = self.expr()
            self.need("do")
            b = self.block()
            self.need("end")
            return ("while", c, b, l)
        if self.take("do"):
            b = self.block()
            self.need("end")
            return ("do", b, l)
        if self.take("for"):
            n = [self.name()]
            if self.take("="):
                a = self.expr()
                self.need(",")
                z = self.expr()
                st = self.expr() if self.take(",") else None
                self.need("do")
                b = self.block()
                self.need("end")
                return ("fornum", n[0], a, z, st, b, l)
            while self.take(","):
                n.append(self.name())
            self.need("in")
            es = self.exprs()
            self.need("do")
            b = self.block()
            self.need("end")
            return ("forin", n, es, b, l)
        if self.take("repeat"):
            b = self.block()
            self.need("until")
            return ("repeat", b, self.expr(), l)
        if self.take("function"):
            t = ("var", self.name(), l)
            full = t[1]
            meth = False
            while self.peek(".", ":"):
                meth = self.take(".", ":") == ":"
                k = self.name()
                full += (":" if meth else ".") + k
                t = ("index", t, ("const", k), l)
                if meth:
                    break
            f = self.funcbody(meth, full)
            return ("assign", [t], [f], l)
        if self.take("local"):
            if self.take("function"):
                n = self.name()
                return ("localfn", n, self.funcbody(False, n), l)
            ns = [self.attrname()]
            while self.take(","):
                ns.append(self.attrname())
            es = self.exprs() if self.take("=") else []
            return ("local", ns, es, l)
        if self.take("break"):
            return ("break", l)
        if self.peek("goto", "::"):
            raise Unsupported("%s:%d: goto" % (self.file, l))
        e = self.suffixed()
        if self.peek("=", ","):
            ts = [e]
            while self.take(","):
                ts.append(self.suffixed())
            self.need("=")
            return ("assign", ts, self.exprs(), l)
        if e[0] not in ("call", "method"):
            raise Unsupported("%s:%d: statement expected" % (self.file, l))
        return ("expr", e, l)

    def attrname(self):
        n = self.name()
        if self.take("<"):
            self.name()
            self.need(">")
        return n

    def funcbody(self, meth, name):
        l = self.line
        self.need("(")
        ps, va = (["self"] if meth else []), False
        while not self.peek(")"):
            if self.take("..."):
                va = True
            else:
                ps.append(self.name())
            if not self.take(","):
                break
        self.need(")")
        b = self.block()
        self.need("end")
        return ("function", ps, va, b, name, l)

    def exprs(self):
        es = [self.expr()]
        while self.take(","):
            es.append(self.expr())
        return es

    def expr(self, limit=0):
        l = self.line
        u = self.take("not", "-", "#", "~")
        e = ("un", u, self.expr(12), l) if u else self.simple()
        while True:
            k, v, l = self.t[self.i]
            p = PREC.get(v) if k in ("op", "kw") else None
            if not p or p[0] <= limit:
                return e
            self.i += 1
            r = self.expr(p[1])
            e = ("and", e, r, l) if v == "and" else ("or", e, r, l) if v == "or" else ("bin", v, e, r, l)

    def simple(self):
        k, v, l = self.t[self.i]
        if k in ("num", "str"):
            self.i += 1
            return ("const", v)
        if k == "kw" and v in ("nil", "true", "false"):
            self.i += 1
            return ("const", {"nil": None, "true": True, "false": False}[v])
        if self.take("..."):
            return ("varargs", l)
        if self.take("function"):
            return self.funcbody(False, "function")
        if self.peek("{"):
            return self.table()
        return self.suffixed()

    def table(self):
        l = self.line
        self.need("{")
        items = []
        while not self.peek("}"):
            if self.take("["):
                k = self.expr()
                self.need("]")
                self.need("=")
                items.append((k, self.expr()))
            elif self.t[self.i][0] == "name" and self.t[self.i + 1][:2] == ("op", "="):
                k = self.name()
                self.need("=")
                items.append((("const", k), self.expr()))
            else:
                items.append((None, self.expr()))
            if not self.take(",", ";"):
                break
        self.need("}")
        return ("table", items, l)

    def suffixed(self):
        l = self.line
        if self.take("("):
            e = ("paren", self.expr())
            self.need(")")
        else:
            e = ("var", self.name(), l)
        while True:
            l = self.line
            if self.take("."):
                e = ("index", e, ("const", self.name()), l)
            elif self.take("["):
                k = self.expr()
                self.need("]")
                e = ("index", e, k, l)
            elif self.take(":"):
                n = self.name()
                e = ("method", e, n, self.args(), l)
            elif self.peek("(", "{") or self.t[self.i][0] == "str":
                e = ("call", e, self.args(), l)
            else:
                return e

    def args(self):
        if self.peek("{"):
            return [self.table()]
        k, v, _ = self.t[self.i]
        if k == "str":
            self.i += 1
            return [("const", v)]
        self.need("(")
        es = [] if self.peek(")") else self.exprs()
        self.need(")")
        return es


# ---------------------------------------------------------------- values
class Table:
    def __init__(self, d=None, name=None):
        self.d, self.meta, self.name = dict(d or {}), None, name

    def __repr__(self):
        return "{%s}" % ", ".join("%s=%s" % (k, v if not isinstance(v, Table) else "…") for k, v in list(self.d.items())[:6])

    def length(self):
        n = 0
        while self.d.get(n + 1) is not None:
            n += 1
        return n


class Sym:
    """a value the source does not fix; equal only to itself"""
    _all = {}

    def __new__(cls, *a, **kw):
        k = (a, tuple(sorted(kw.items())))
        if k not in cls._all:
            s = object.__new__(cls)
            s.a, s.kw = a, kw
            cls._all[k] = s
        return cls._all[k]

    def __repr__(self):
        return self.a[0] if len(self.a) == 1 else "%s(%s)" % (self.a[0], ", ".join(map(repr, self.a[1:])))


class Func:
    def __init__(self, ast, env, file):
        self.ast, self.env, self.file = ast, env, file

    @property
    def name(self):
        return self.ast[4]

    def __repr__(self):
        return "function %s %s:%d" % (self.ast[4], self.file, self.ast[5])


class Builtin:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return "builtin " + self.name


class Ext:
    """an object of the host"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Env:
    def __init__(self, up=None):
        self.v, self.up = {}, up

    def find(self, n):
        e = self
        while e is not None:
            if n in e.v:
                return e
            e = e.up
        return None


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Call:
    def __init__(self, obj, method, args, res, where):
        self.obj, self.method, self.args, self.res, self.where = obj, method, args, res, where

    def __repr__(self):
        return "%s:%s(%s)" % (self.obj, self.method, ", ".join(map(repr, self.args)))


class Lua:
    def __init__(self, root, decisions=(), exts=(), fails=None):
        self.root, self.decisions, self.taken = root, list(decisions), []
        self.known, self.calls, self.fns = {}, [], set()
        self.modules, self.steps, self.depth = {}, 0, 0
        self.globals = Table()
        self.where = ("?", 0)
        self.serial = 0
        self.fails = fails
        g = self.globals.d
        g["_G"] = self.globals
        for n in exts:
            g[n] = Ext(n)
        for n in ("pairs", "ipairs", "next", "type", "tostring", "tonumber", "setmetatable", "getmetatable", "rawget", "rawset", "rawequal", "rawlen", "error",
                  "assert", "pcall", "select", "require", "print", "unpack"):
            g[n] = Builtin(n, getattr(self, "b_" + n))
        g["package"] = Table({"path": Sym("package.path"), "loaded": Table()})
        g["string"] = Table({n: Builtin("string." + n, getattr(self, "s_" + n)) for n in ("format", "rep", "len", "sub", "upper", "lower", "find", "match", "gsub", "gmatch", "byte", "char", "reverse")})
        g["table"] = Table({n: Builtin("table." + n, getattr(self, "t_" + n)) for n in ("insert", "remove", "concat", "unpack", "sort", "pack")})
        g["math"] = Table({"max": Builtin("math.max", lambda a: [self.minmax(a, max)]), "min": Builtin("math.min", lambda a: [self.minmax(a, min)]), "huge": float("inf"),
                           "floor": Builtin("math.floor", lambda a: [int(a[0] // 1) if isinstance(a[0], (int, float)) else Sym("floor", a[0])])})
        g["utf8"] = Table({"len": Builtin("utf8.len", lambda a: [len(a[0]) if isinstance(a[0], str) else Sym("utf8.len", a[0])])})

    # ------------------------------------------------ running
    _asts = {}

    def load(self, src, name):
        if (src, name) not in self._asts:
            self._asts[src, name] = Parser(src, name).chunk()
        return Func(self._asts[src, name], Env(), name)

    def run(self, src, name="?", args=()):
        return self.call(self.load(src, name), list(args))

    def eval(self, src):
        r = self.run("return " + src, "<host>")
        return r[0] if r else None

    def decide(self, key):
        """truth of a condition the source does not fix"""
        if key in self.known:
            return self.known[key]
        n = len(self.taken)
        v = self.decisions[n] if n < len(self.decisions) else True
        self.taken.append(v)
        self.known[key] = v
        return v

    def truth(self, v):
        if isinstance(v, Sym):
            if v.kw.get("nonnil"):
                return True
            return self.decide(("true", v))
        return v is not None and v is not False

    def call(self, f, args):
        if isinstance(f, Builtin):
            return f.f(args)
        if isinstance(f, Func):
            self.depth += 1
            if self.depth > 60:
                self.depth = 0
                raise Cut("recursion in " + f.name)
            self.fns.add((f.file, f.name, f.ast[5]))
            e = Env(f.env)
            _, ps, va, body, _, _ = f.ast
            for i, p in enumerate(ps):
                e.v[p] = args[i] if i < len(args) else None
            if va:
                e.v["..."] = args[len(ps):]
            was = self.where
            try:
                self.block(body, e, f.file)
                return []
            except Return as r:
                return r.v
            finally:
                self.depth -= 1
                self.where = was
        if isinstance(f, Sym):
            if self.decide(("callable", f)):
                return [Sym("result", f)]
            raise LuaError("attempt to call a value that is no function: %r" % f)
        h = self.metaof(f, "__call")
        if h is not None:
            return self.call(h, [f] + args)
        raise LuaError("%s:%d: attempt to call %s" % (*self.where, self.typename(f)))

    def typename(self, v):
        return {type(None): "nil", bool: "boolean", int: "number", float: "number", str: "string", Table: "table", Func: "function", Builtin: "function", Ext: "userdata"}.get(type(v), "?")

    def metaof(self, v, n):
        if isinstance(v, Table) and v.meta is not None:
            return v.meta.d.get(n)
        return None

    def index(self, o, k):
        if isinstance(o, Table):
            v = o.d.get(self.key(k))
            if v is None and o.meta is not None:
                h = o.meta.d.get("__index")
                if isinstance(h, (Func, Builtin)):
                    return first(self.call(h, [o, k]))
                if h is not None:
                    return self.index(h, k)
            return v
        if isinstance(o, Ext):
            return Builtin("%s:%s" % (o.name, k), lambda a: self.host(o, k, a))
        if isinstance(o, str):
            return self.index(self.globals.d["string"], k)
        if isinstance(o, Sym):
            return Sym("index", o, k)
        raise LuaError("%s:%d: attempt to index %s (%r)" % (*self.where, self.typename(o), k))

    def key(self, k):
        if isinstance(k, float) and k.is_integer():
            return int(k)
        if k is True or k is False:
            return ("bool", k)
        return k

    def host(self, o, k, a):
        if not a or a[0] is not o:
            raise LuaError("%s:%d: method %s of the host called without its object" % (*self.where, k))
        self.serial += 1
        res = Sym("host", self.serial)
        c = Call(o.name, k, [self.snap(x) for x in a[1:]], res, "%s:%d" % self.where)
        self.calls.append(c)
        if self.fails and self.fails(c):
            raise LuaError("host method %s fails" % k)
        return [res]

    def snap(self, v, n=0):
        """deep copy of a value handed to the host"""
        if isinstance(v, Table) and n < 6:
            t = Table({k: self.snap(x, n + 1) for k, x in v.d.items()})
            t.meta = v.meta
            return t
        return v

    def setindex(self, o, k, v):
        if isinstance(o, Table):
            if k is None:
                raise LuaError("%s:%d: index is nil" % self.where)
            k = self.key(k)
            h = self.metaof(o, "__newindex")
            if h is not None and o.d.get(k) is None:
                if isinstance(h, Table):
                    return self.setindex(h, k, v)
                self.call(h, [o, k, v])
                return
            if v is None:
                o.d.pop(k, None)
            else:
                o.d[k] = v
            return
        if isinstance(o, Sym):
            return
        raise LuaError("%s:%d: attempt to index %s (%r)" % (*self.where, self.typename(o), k))

    # ------------------------------------------------ statements
    def block(self, b, env, file):
        e = Env(env)
        for s in b:
            self.stat(s, e, file)
        return e

    def stat(self, s, e, file):
        self.steps += 1
        if self.steps > 200000:
            raise Cut("too many steps")
        self.where = (file, s[-1])
        k = s[0]
        if k == "local":
            vs = self.exprs(s[2], e, file)
            ns = {}
            for i, n in enumerate(s[1]):
                ns[n] = vs[i] if i < len(vs) else None
            e.v = dict(e.v)
            e.v.update(ns)
        elif k == "localfn":
            e.v[s[1]] = None
            e.v[s[1]] = Func(s[2], e, file)
        elif k == "assign":
            ts = [(t, self.expr(t[1], e, file), self.expr(t[2], e, file)) if t[0] == "index" else (t, None, None) for t in s[1]]
            vs = self.exprs(s[2], e, file)
            self.where = (file, s[-1])
            for i, (t, o, kk) in enumerate(ts):
                v = vs[i] if i < len(vs) else None
                if t[0] == "var":
                    x = e.find(t[1])
                    if x is not None:
                        x.v[t[1]] = v
                    else:
                        self.setindex(self.globals, t[1], v)
                elif t[0] == "index":
                    self.setindex(o, kk, v)
                else:
                    raise Unsupported("assignment to " + t[0])
        elif k == "expr":
            self.multi(s[1], e, file)
        elif k == "if":
            for c, b in s[1]:
                if self.truth(self.expr(c, e, file)):
                    self.block(b, e, file)
                    return
            self.block(s[2], e, file)
        elif k == "do":
            self.block(s[1], e, file)
        elif k == "return":
            raise Return(self.exprs(s[1], e, file))
        elif k == "break":
            raise Break()
        elif k in ("while", "repeat"):
            n = 0
            try:
                while True:
                    if k == "while":
                        if not self.truth(self.expr(s[1], e, file)):
                            return
                        self.block(s[2], e, file)
                    else:
                        x = self.block(s[1], e, file)
                        if self.truth(self.expr(s[2], x, file)):
                            return
                    n += 1
                    if n > 500:
                        raise Cut("%s:%d: a loop does not end" % (file, s[-1]))
            except Break:
                pass
        elif k == "fornum":
            a, z, st = self.expr(s[2], e, file), self.expr(s[3], e, file), self.expr(s[4], e, file) if s[4] else 1
            if any(isinstance(x, Sym) for x in (a, z, st)):
                raise Unsupported("%s:%d: loop over an unknown range" % (file, s[-1]))
            i, n = a, 0
            try:
                while (i <= z) if st > 0 else (i >= z):
                    x = Env(e)
                    x.v[s[1]] = i
                    self.block(s[5], x, file)
                    i += st
                    n += 1
                    if n > 500:
                        raise Cut("%s:%d: a long loop" % (file, s[-1]))
            except Break:
                pass
        elif k == "forin":
            vs = (self.exprs(s[2], e, file) + [None] * 3)[:3]
            f, st, c = vs
            n = 0
            try:
                while True:
                    r = self.call(f, [st, c])
                    if not r or r[0] is None:
                        return
                    c = r[0]
                    x = Env(e)
                    for i, nme in enumerate(s[1]):
                        x.v[nme] = r[i] if i < len(r) else None
                    self.block(s[3], x, file)
                    n += 1
                    if n > 500:
                        raise Cut("%s:%d: a loop does not end" % (file, s[-1]))
            except Break:
                pass
        else:
            raise Unsupported(k)

    # ------------------------------------------------ expressions
    def exprs(self, es, e, file):
        out = []
        for i, x in enumerate(es):
            if i == len(es) - 1:
                out += self.multi(x, e, file)
            else:
                out.append(self.expr(x, e, file))
        return out

    def multi(self, x, e, file):
        if x[0] == "call":
            f = self.expr(x[1], e, file)
            a = self.exprs(x[2], e, file)
            self.where = (file, x[3])
            return self.call(f, a)
        if x[0] == "method":
            o = self.expr(x[1], e, file)
            self.where = (file, x[4])
            f = self.index(o, x[2])
            a = self.exprs(x[3], e, file)
            self.where = (file, x[4])
            if f is None:
                raise LuaError("%s:%d: attempt to call a nil value (method '%s')" % (file, x[4], x[2]))
            return self.call(f, [o] + a)
        if x[0] == "varargs":
            v = e.find("...")
            return list(v.v["..."]) if v else []
        return [self.expr(x, e, file)]

    def expr(self, x, e, file):
        k = x[0]
        if k == "const":
            return x[1]
        if k == "var":
            v = e.find(x[1])
            return v.v[x[1]] if v is not None else self.globals.d.get(x[1])
        if k == "index":
            o = self.expr(x[1], e, file)
            kk = self.expr(x[2], e, file)
            self.where = (file, x[3])
            return self.index(o, kk)
        if k == "paren":
            return self.expr(x[1], e, file)
        if k in ("call", "method", "varargs"):
            return first(self.multi(x, e, file))
        if k == "function":
            return Func(x, e, file)
        if k == "and":
            v = self.expr(x[1], e, file)
            return self.expr(x[2], e, file) if self.truth(v) else v
        if k == "or":
            v = self.expr(x[1], e, file)
            return v if self.truth(v) else self.expr(x[2], e, file)
        if k == "table":
            t = Table()
            n = 1
            for i, (kk, v) in enumerate(x[1]):
                if kk is not None:
                    self.setindex(t, self.expr(kk, e, file), self.expr(v, e, file))
                elif i == len(x[1]) - 1:
                    for y in self.multi(v, e, file):
                        if y is not None:
                            t.d[n] = y
                        n += 1
                else:
                    y = self.expr(v, e, file)
                    if y is not None:
                        t.d[n] = y
                    n += 1
            return t
        if k == "un":
            v = self.expr(x[2], e, file)
            self.where = (file, x[3])
            return self.unary(x[1], v)
        if k == "bin":
            a, b = self.expr(x[2], e, file), self.expr(x[3], e, file)
            self.where = (file, x[4])
            return self.binary(x[1], a, b)
        raise Unsupported(k)

    def unary(self, op, v):
        if op == "not":
            if isinstance(v, Sym):
                return not self.truth(v)
            return v is None or v is False
        if op == "#":
            if isinstance(v, str):
                return len(v.encode())
            if isinstance(v, Table):
                return v.length()
            if isinstance(v, Sym):
                return Sym("len", v)
        if op == "-":
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, Sym):
                return Sym("neg", v)
        raise LuaError("%s:%d: bad operand of %s: %s" % (*self.where, op, self.typename(v)))

    def binary(self, op, a, b):
        if op in ("==", "~="):
            if isinstance(a, Sym) or isinstance(b, Sym):
                if a is b:
                    r = True
                elif isinstance(a, Sym) and isinstance(b, Sym) and a.kw.get("id") and b.kw.get("id"):
                    r = False
                elif isinstance(a, (Table, Func, Ext)) or isinstance(b, (Table, Func, Ext)):
                    r = False
                elif a is None and b.kw.get("nonnil") or b is None and a.kw.get("nonnil"):
                    r = False
                else:
                    s, o = (a, b) if isinstance(a, Sym) else (b, a)
                    r = False if o in s.kw.get("differs", ()) else self.decide(("eq", frozenset((repr(a), repr(b)))))
            else:
                r = a is b or (type(a) is type(b) or isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool)) and not isinstance(a, (Table, Func)) and a == b
            return r if op == "==" else not r
        if op == "..":
            if isinstance(a, (str, int, float)) and isinstance(b, (str, int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
                return self.tostr(a) + self.tostr(b)
            if a is None or b is None or isinstance(a, (bool, Table, Func)) or isinstance(b, (bool, Table, Func)):
                raise LuaError("%s:%d: attempt to concatenate %s" % (*self.where, self.typename(b if isinstance(a, (str, Sym, int, float)) and not isinstance(a, bool) else a)))
            parts = []
            for y in (a, b):
                parts += list(y.a[1:]) if isinstance(y, Sym) and y.a[0] == "cat" else [y]
            m = []
            for y in parts:
                if m and isinstance(m[-1], (str, int, float)) and isinstance(y, (str, int, float)):
                    m[-1] = self.tostr(m[-1]) + self.tostr(y)
                else:
                    m.append(y)
            return Sym("cat", *m, nonnil=True)
        num = lambda y: isinstance(y, (int, float)) and not isinstance(y, bool)
        if op in ("<", "<=", ">", ">="):
            if num(a) and num(b) or isinstance(a, str) and isinstance(b, str):
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
            if isinstance(a, Sym) or isinstance(b, Sym):
                if op in (">", ">="):
                    a, b, op = b, a, {">": "<", ">=": "<="}[op]
                return self.decide((op, repr(a), repr(b)))
            raise LuaError("%s:%d: attempt to compare %s with %s" % (*self.where, self.typename(a), self.typename(b)))
        if num(a) and num(b):
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "//": lambda: a // b, "%": lambda: a % b, "^": lambda: float(a) ** b}[op]()
            except KeyError:
                raise Unsupported(op)
            except ZeroDivisionError:
                raise LuaError("division by zero")
        if isinstance(a, Sym) or isinstance(b, Sym):
            if a is None or b is None:
                raise LuaError("%s:%d: arithmetic on nil" % self.where)
            return Sym(op, a, b, nonnil=True)
        raise LuaError("%s:%d: arithmetic on %s and %s" % (*self.where, self.typename(a), self.typename(b)))

    def tostr(self, v):
        if v is None:
            return "nil"
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, (int, str)):
            return str(v)
        if isinstance(v, float):
            return "%.14g" % v
        return Sym("tostring", v, nonnil=True) if isinstance(v, Sym) else self.typename(v) + ": " + repr(v)

    # ------------------------------------------------ library
    def b_pairs(self, a):
        t = a[0]
        if not isinstance(t, Table):
            raise LuaError("%s:%d: bad argument to pairs: %s" % (*self.where, self.typename(t)))
        keys = list(t.d)
        pos = {None: 0}

        def nxt(b):
            i = pos.get(b[1] if len(b) > 1 else None, None)
            while i is not None and i < len(keys):
                k = keys[i]
                i += 1
                if t.d.get(k) is not None:
                    pos[k] = i
                    return [k, t.d[k]]
            return [None]
        return [Builtin("next", nxt), t, None]

    def b_next(self, a):
        ks = [k for k in a[0].d if a[0].d[k] is not None]
        i = ks.index(a[1]) + 1 if len(a) > 1 and a[1] is not None else 0
        return [ks[i], a[0].d[ks[i]]] if i < len(ks) else [None]

    def b_ipairs(self, a):
        t = a[0]
        if t is None:
            raise LuaError("%s:%d: bad argument to ipairs: nil" % self.where)
        if isinstance(t, Sym):
            t = Table({1: Sym("item", a[0], nonnil=True), 2: Sym("item2", a[0], nonnil=True)})

        def nxt(b):
            i = (b[1] or 0) + 1
            v = self.index(t, i)
            return [i, v] if v is not None else [None]
        return [Builtin("inext", nxt), t, 0]

    def b_type(self, a):
        return [Sym("type", a[0], nonnil=True) if isinstance(a[0], Sym) else self.typename(a[0] if a else None)]

    def b_tostring(self, a):
        return [self.tostr(a[0] if a else None)]

    def b_tonumber(self, a):
        v = a[0] if a else None
        if isinstance(v, Sym):
            return [Sym("tonumber", v)]
        try:
            return [int(v) if isinstance(v, str) and re.fullmatch(r"\s*-?\d+\s*", v) else v if isinstance(v, (int, float)) else float(v)]
        except (ValueError, TypeError):
            return [None]

    def b_setmetatable(self, a):
        if isinstance(a[0], Table):
            a[0].meta = a[1]
        return [a[0]]

    def b_getmetatable(self, a):
        return [a[0].meta if isinstance(a[0], Table) else None]

    def b_rawget(self, a):
        return [a[0].d.get(self.key(a[1]))]

    def b_rawset(self, a):
        a[0].d[self.key(a[1])] = a[2]
        return [a[0]]

    def b_rawequal(self, a):
        return [a[0] is a[1] or a[0] == a[1]]

    def b_rawlen(self, a):
        return [self.unary("#", a[0])]

    def b_error(self, a):
        raise LuaError(str(a[0]) if a else "error")

    def b_assert(self, a):
        if not self.truth(a[0] if a else None):
            raise LuaError(str(a[1]) if len(a) > 1 else "assertion failed")
        return a

    def b_pcall(self, a):
        d = self.depth
        try:
            return [True] + self.call(a[0], a[1:])
        except LuaError as e:
            self.depth = d
            return [False, str(e)]

    def b_select(self, a):
        return [len(a) - 1] if a[0] == "#" else a[int(a[0]):]

    def b_print(self, a):
        self.calls.append(Call("stdout", "print", list(a), None, "%s:%d" % self.where))
        return []

    def b_unpack(self, a):
        return self.t_unpack(a)

    def b_require(self, a):
        n = a[0]
        if n not in self.modules:
            p = os.path.join(self.root, str(n).replace(".", "/") + ".lua")
            if not os.path.exists(p):
                raise LuaError("module '%s' not found" % n)
            r = self.run(open(p).read(), os.path.basename(p), [n])
            self.modules[n] = first(r) if first(r) is not None else True
        return [self.modules[n]]

    def sym(self, n, a):
        return [Sym(n, *[x if not isinstance(x, (Table, Func, Builtin)) else repr(type(x)) for x in a], nonnil=True)]

    def s_format(self, a):
        f = a[0]
        if isinstance(f, Sym):
            return self.sym("format", a)
        out, i = [], 1
        for m in re.finditer(r"%%|%[-+ #0]*\d*(?:\.\d+)?([a-zA-Z])|[^%]+", f):
            s = m.group()
            if s == "%%":
                out.append("%")
            elif m.group(1):
                if i >= len(a):
                    raise LuaError("%s:%d: bad argument #%d to format" % (*self.where, i + 1))
                v = a[i]
                i += 1
                if m.group(1) in "dioxXgGeEf" and (v is None or isinstance(v, (bool, Table))):
                    raise LuaError("%s:%d: bad argument #%d to format" % (*self.where, i))
                out.append(v if isinstance(v, Sym) else s % self.tostr(v) if m.group(1) == "s" else '"%s"' % v if m.group(1) == "q" else s % v)
            else:
                out.append(s)
        r = ""
        for o in out:
            r = self.binary("..", r, o)
        return [r]

    def s_rep(self, a):
        if isinstance(a[0], str) and isinstance(a[1], (int, float)):
            return [(a[2] if len(a) > 2 else "").join([a[0]] * max(0, int(a[1])))]
        return self.sym("rep", a)

    def s_len(self, a):
        return [self.unary("#", a[0])]

    def s_sub(self, a):
        if any(isinstance(x, Sym) for x in a):
            return self.sym("sub", a)
        s, i, j = a[0].encode(), a[1] if len(a) > 1 else 1, a[2] if len(a) > 2 else -1
        i = max(1, len(s) + i + 1 if i < 0 else i)
        j = len(s) + j + 1 if j < 0 else j
        return [s[int(i) - 1:max(0, int(j))].decode(errors="replace")]

    def s_upper(self, a):
        return [a[0].upper()] if isinstance(a[0], str) else self.sym("upper", a)

    def s_lower(self, a):
        return [a[0].lower()] if isinstance(a[0], str) else self.sym("lower", a)

    def s_reverse(self, a):
        return [a[0][::-1]] if isinstance(a[0], str) else self.sym("reverse", a)

    def s_byte(self, a):
        return [ord(a[0][0])] if isinstance(a[0], str) and a[0] and len(a) == 1 else self.sym("byte", a)

    def s_char(self, a):
        return ["".join(map(chr, a))] if all(isinstance(x, int) for x in a) else self.sym("char", a)

    def pattern(self, p):
        if not isinstance(p, str) or re.search(r"%[bf]|\(\)", p):
            raise Unsupported("pattern %r" % (p,))
        out = ""
        i = 0
        cl = {"a": "A-Za-z", "d": "0-9", "s": r"\s", "w": "A-Za-z0-9", "l": "a-z", "u": "A-Z", "x": "0-9A-Fa-f", "p": re.escape("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~")}
        inset = False
        while i < len(p):
            c = p[i]
            if c == "%" and i + 1 < len(p):
                d = p[i + 1]
                out += (cl[d.lower()] if inset else ("[^%s]" if d.isupper() else "[%s]") % cl[d.lower()]) if d.lower() in cl else re.escape(d)
                i += 2
                continue
            if c == "[":
                inset = True
            elif c == "]":
                inset = False
            out += "*?" if c == "-" and not inset else c if c in "().[]^$*+?-" or inset else re.escape(c)
            i += 1
        return re.compile(out, re.S)

    def s_find(self, a):
        if any(isinstance(x, Sym) for x in a[:2]):
            return self.sym("find", a)
        if len(a) > 3 and a[3]:
            i = a[0].find(a[1], int(a[2]) - 1)
            return [i + 1, i + len(a[1])] if i >= 0 else [None]
        m = self.pattern(a[1]).search(a[0])
        return [m.start() + 1, m.end(), *m.groups()] if m else [None]

    def s_match(self, a):
        if any(isinstance(x, Sym) for x in a[:2]):
            return [Sym("match", a[0], a[1])]
        m = self.pattern(a[1]).search(a[0])
        return [None] if not m else list(m.groups()) or [m.group()]

    def s_gmatch(self, a):
        if any(isinstance(x, Sym) for x in a[:2]):
            raise Unsupported("gmatch on an unknown string")
        it = self.pattern(a[1]).finditer(a[0])

        def nxt(_):
            m = next(it, None)
            return [None] if m is None else list(m.groups()) or [m.group()]
        return [Builtin("gmatch", nxt)]

    def s_gsub(self, a):
        if any(isinstance(x, Sym) for x in a) or not isinstance(a[2], str):
            return self.sym("gsub", a)
        r, n = self.pattern(a[1]).subn(lambda m: re.sub(r"%(\d)", lambda k: m.group(int(k.group(1))) or "", a[2]), a[0])
        return [r, n]

    def minmax(self, a, f):
        if all(isinstance(x, (int, float)) for x in a):
            return f(a)
        return Sym(f.__name__, *a, nonnil=True)

    def t_insert(self, a):
        t = a[0]
        if not isinstance(t, Table):
            raise LuaError("%s:%d: bad argument to insert: %s" % (*self.where, self.typename(t)))
        n = t.length()
        if len(a) == 2:
            if a[1] is not None:
                t.d[n + 1] = a[1]
        else:
            for i in range(n, int(a[1]) - 1, -1):
                t.d[i + 1] = t.d[i]
            t.d[int(a[1])] = a[2]
        return []

    def t_remove(self, a):
        t = a[0]
        if not isinstance(t, Table):
            raise LuaError("%s:%d: bad argument to remove: %s" % (*self.where, self.typename(t)))
        n = t.length()
        p = int(a[1]) if len(a) > 1 else n
        v = t.d.get(p)
        for i in range(p, n):
            t.d[i] = t.d[i + 1]
        if p >= 1 and n >= 1:
            t.d.pop(n, None)
        return [v]

    def t_concat(self, a):
        t, sep = a[0], a[1] if len(a) > 1 and a[1] is not None else ""
        r = ""
        for i in range(1, t.length() + 1):
            r = self.binary("..", self.binary("..", r, sep) if i > 1 else r, t.d[i])
        return [r]

    def t_unpack(self, a):
        return [a[0].d.get(i) for i in range(1, a[0].length() + 1)]

    def t_pack(self, a):
        t = Table({i + 1: v for i, v in enumerate(a) if v is not None})
        t.d["n"] = len(a)
        return [t]

    def t_sort(self, a):
        t = a[0]
        vs = self.t_unpack([t])
        if all(isinstance(v, str) for v in vs) or all(isinstance(v, (int, float)) for v in vs):
            if len(a) < 2:
                vs.sort()
            else:
                import functools
                vs.sort(key=functools.cmp_to_key(lambda x, y: -1 if self.truth(first(self.call(a[1], [x, y]))) else 1 if self.truth(first(self.call(a[1], [y, x]))) else 0))
        for i, v in enumerate(vs):
            t.d[i + 1] = v
        return []


def first(r):
    return r[0] if r else None


def explore(make, body, limit=2000):
    """run body(lua) for every combination of decisions; yields (lua, result or exception)"""
    todo, n = [()], 0
    while todo:
        d = todo.pop()
        n += 1
        if n > limit:
            raise Cut("too many paths")
        L = make(d)
        try:
            r = body(L)
        except LuaError as e:
            r = e
        yield L, r
        for i in range(len(d), len(L.taken)):
            todo.append(tuple(L.taken[:i]) + (not L.taken[i],))


def freeze(v, seen=None):
    """hashable picture of everything reachable from a value"""
    seen = {} if seen is None else seen
    if isinstance(v, Table):
        if id(v) in seen:
            return ("ref", seen[id(v)])
        seen[id(v)] = len(seen)
        return ("table", tuple(sorted(((repr(k), freeze(x, seen)) for k, x in v.d.items()), key=lambda y: y[0])), freeze(v.meta, seen))
    if isinstance(v, Func):
        if id(v) in seen:
            return ("ref", seen[id(v)])
        seen[id(v)] = len(seen)
        ups = []
        e = v.env
        while e is not None:
            ups.append(tuple((k, freeze(e.v[k], seen)) for k in sorted(e.v) if k != "..."))
            e = e.up
        return ("function", v.file, v.ast[5], tuple(ups))
    if isinstance(v, Builtin):
        return ("builtin", v.name)
    return (type(v).__name__, repr(v))
