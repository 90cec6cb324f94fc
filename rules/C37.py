"""Orders used for sorting, evaluated abstractly.  Every comparison that sorts a list, or that a type of the program declares
as its order, is interpreted on every path with two symbolic values; what it looks at in them (fields, texts, variants) is
compared only, so three values with ranks from 0 to 2 for each thing looked at decide whether it is a total order: equal to
itself, reversed when the values are exchanged, transitive.  For the list of a menu: the comparison puts the higher score
first and among equal ones the smaller label; the score is, on every path that makes a candidate, none without a match, and
otherwise falls when the stretch from the first match to the end of the last grows; the list is sorted after the last
candidate was added, and not reordered before it is shown.  The items of a status line are sorted by their index."""
from common import *
from graph import Graph
import graph
import itertools
import re

SORT = re.compile(r"(?:slice|vec|array|Vec|impl \[T\]>)::(sort\w*|select_nth\w*|binary_search_by|is_sorted_by)$")
REORDER = re.compile(r"(?:^|::|>)(?:sort\w*|reverse|swap|rotate_\w+|swap_remove|shuffle|insert|retain|dedup\w*|truncate|remove|pop|clear|drain|extend|push|append)$")
ORD = {"Less": -1, "Equal": 0, "Greater": 1}


class Unclear(Exception):
    pass


class Order:
    """a comparison given by its interpreted paths"""

    def __init__(self, F, paths, a, b, extra=()):
        self.F = F
        self.a, self.b = a, b
        self.paths = [p for p in paths if p.status == "return"]
        self.broken = [p for p in paths if p.status not in ("return",)]
        self.eqs = {}
        self.names = {}
        self.variants = {}
        self.atoms = set()
        for p in self.paths:
            for t, v in p.facts.items():
                self.scan(t, v)
            self.scan(p.ret, None)
        for t in extra:
            self.scan(t, None)

    def owner(self, t):
        own = {0 if x is self.a else 1 for x in subterms(t) if x is self.a or x is self.b}
        return own.pop() if len(own) == 1 else None

    def key(self, t):
        """what of the value is looked at, whichever of the two it is"""
        def k(x):
            if not isinstance(x, T):
                return x if not isinstance(x, (tuple, list)) else tuple(k(y) for y in x)
            if x is self.a or x is self.b:
                return "@"
            if x.op in ("clone", "ref", "deref", "at"):
                return k(x.a[0])
            if x.op == "pure" and x.a[0] in ("as_str", "as_ref", "deref", "to_owned", "to_string", "borrow", "clone"):
                return k(x.a[1])
            if x.op == "call":
                return (x.a[0],) + tuple(k(y) for y in x.a[1])
            return (x.op,) + tuple(k(y) for y in x.a)
        return k(t)

    def is_order(self, t):
        return t.op in ("call", "pure") and str(t.a[0]).rsplit("::", 1)[-1] in ("cmp", "partial_cmp", "total_cmp")

    def args(self, t):
        return list(t.a[1]) if t.op == "call" else list(t.a[1:])

    def scan(self, t, v):
        if t.op == "not":
            return self.scan(t.a[0], None)
        if t.op == "variant":
            x = t.a[0]
            if self.owner(x) is not None and not self.is_order(x):
                self.variants.setdefault(self.key(x), set()).update(v[1] if isinstance(v, tuple) else [v if v is not None else "?"])
                if isinstance(v, tuple):
                    self.variants[self.key(x)].add("any other")
                return
            return self.scan(x, None)
        if self.is_order(t) or t.op in ("eq", "lt", "le"):
            for x in (self.args(t) if t.op in ("call", "pure") else t.a):
                self.value(x)
            return
        if t.op in ("pure", "call") and str(t.a[0]).rsplit("::", 1)[-1] in ("reverse", "then", "then_with", "unwrap_or", "unwrap", "is_some", "is_none", "is_lt", "is_gt", "is_le", "is_ge", "is_eq"):
            for x in self.args(t):
                if isinstance(x, T):
                    for q in self.lazily(x):
                        for f, w in q.facts.items():
                            self.scan(f, w)
                        self.scan(q.ret, None)
                    self.scan(x, None)
            return
        if t.op in ("vf", "agg", "ref", "clone", "deref") and self.owner(t) is None:
            for x in (dict(t.a[3]).values() if t.op == "agg" else t.a):
                if isinstance(x, T):
                    self.scan(x, None)

    def lazily(self, t):
        """paths of a function value that is only called when it is needed"""
        if not (t.op == "agg" and t.a[0] == "closure"):
            return []
        if t not in self.names:
            self.names[t] = [p for p in Engine(self.F, iters=1).run_value(t, []) if p.status == "return"]
        return self.names[t]

    def value(self, t):
        if t is self.a or t is self.b:
            q = self.equal_impl()
            if q:
                for p in q[0].paths:
                    pass
            return
        if t.op == "agg":
            for x in dict(t.a[3]).values():
                self.value(x)
            return
        if self.owner(t) is not None:
            self.atoms.add(self.key(t))

    def equal_impl(self):
        return self.eqs.get("impl")

    # ---- evaluation
    def val(self, t, env):
        if t.op == "agg" and t.a[0] in ("tuple", "adt", "array"):
            fs = dict(t.a[3])
            vs = [self.val(x, env) for _, x in sorted(fs.items(), key=lambda z: str(z[0]))]
            if str(t.a[1]).endswith("Reverse"):
                return ("rev", vs[0])
            if t.a[2] in ("None", "Some"):
                return (0,) if t.a[2] == "None" else (1, vs[0])
            return tuple(vs)
        o = self.owner(t)
        if o is None:
            if t.op in ("int", "str", "char", "bool"):
                return ("const", t.a[0])
            raise Unclear(show(t, 0)[:120])
        k = self.key(t)
        e = env[o]
        if k in self.variants and self.variants[k] <= {"None", "Some", "?"}:
            v = e["v", k]
            if v == "None":
                return (0,)
            inner = [x for x in self.atoms if isinstance(x, tuple) and len(x) > 2 and x[0] == "vf" and x[1] == k]
            return (1, e[inner[0]] if inner else e.get(k, 0))
        if k in e:
            return e[k]
        raise Unclear(show(t, 0)[:120])

    def cmp(self, x, y):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if x[:1] == ("rev",) and y[:1] == ("rev",):
                return -self.cmp(x[1], y[1])
            for p, q in zip(x, y):
                r = self.cmp(p, q)
                if r:
                    return r
            return (len(x) > len(y)) - (len(x) < len(y))
        if type(x) is not type(y):
            raise Unclear("two different things are compared")
        return (x > y) - (x < y)

    def order(self, t, env):
        """value of a term of type Ordering, or Option of it: -1, 0, 1"""
        if t.op == "agg" and t.a[2] in ORD:
            return ORD[t.a[2]]
        if t.op == "agg" and t.a[2] == "Some":
            return self.order(list(dict(t.a[3]).values())[0], env)
        if t.op in ("ref", "clone", "deref"):
            return self.order(t.a[0], env)
        if t.op == "vf" and t.a[1] == "Some":
            return self.order(t.a[0], env)
        n = str(t.a[0]).rsplit("::", 1)[-1] if t.op in ("call", "pure") else ""
        if self.is_order(t):
            x, y = self.args(t)[:2]
            if {x, y} == {self.a, self.b}:
                raise Unclear("the comparison is defined by itself")
            return self.cmp(self.val(x, env), self.val(y, env))
        if n == "reverse":
            return -self.order(self.args(t)[0], env)
        if n == "then":
            x, y = self.args(t)[:2]
            return self.order(x, env) or self.order(y, env)
        if n == "then_with":
            x, y = self.args(t)[:2]
            r = self.order(x, env)
            if r:
                return r
            for q in self.lazily(y):
                if all(self.holds(f, w, env) for f, w in q.facts.items()):
                    return self.order(q.ret, env)
            raise Unclear(show(t, 0)[:120])
        if n in ("unwrap", "unwrap_or"):
            return self.order(self.args(t)[0], env)
        raise Unclear(show(t, 0)[:120])

    def holds(self, t, v, env):
        if t.op == "not":
            return self.holds(t.a[0], not v if isinstance(v, bool) else v, env)
        if t.op == "eq":
            x, y = t.a
            if {x, y} == {self.a, self.b} and x is not y:
                r = self.same(env)
            elif self.is_order(x) or self.is_order(y):
                r = self.order(x, env) == self.order(y, env)
            else:
                r = self.cmp(self.val(x, env), self.val(y, env)) == 0
            return r is v
        if t.op in ("lt", "le"):
            r = self.cmp(self.val(t.a[0], env), self.val(t.a[1], env))
            return (r < 0 if t.op == "lt" else r <= 0) is v
        if t.op == "variant":
            x = t.a[0]
            if isinstance(v, tuple) and v[0] == "not":
                return not any(self.holds(t, w, env) for w in v[1])
            if self.is_order(x):
                if str(x.a[0]).endswith("partial_cmp") and v in ("Some", "None"):
                    return v == "Some"
                return self.order(x, env) == ORD.get(v)
            if x.op == "vf" and self.is_order(x.a[0]) or x.op in ("call", "pure") and self.owner(x) is None:
                return self.order(x, env) == ORD.get(v)
            o = self.owner(x)
            if o is not None:
                return env[o]["v", self.key(x)] == v
        if isinstance(v, tuple):
            raise Unclear(show(t, 0)[:120])
        if t.op == "pure" and t.a[0] in ("is_some", "is_none") and self.owner(t.a[1]) is not None and ("v", self.key(t.a[1])) in env[0]:
            return (env[self.owner(t.a[1])]["v", self.key(t.a[1])] == "Some") is ((t.a[0] == "is_some") is v)
        raise Unclear(show(t, 0)[:120])

    def same(self, env):
        o = self.eqs.get("impl")
        if o is None:
            raise Unclear("whether two values are equal")
        for p in o.paths:
            if all(o.holds(t, v, env) for t, v in p.facts.items()):
                return o.truth(p.ret, env)
        raise Unclear("whether two values are equal")

    def truth(self, t, env):
        if t.op == "bool":
            return t.a[0]
        return self.holds(t, True, env)

    def __call__(self, x, y):
        env = (x, y)
        got = set()
        for p in self.paths:
            if all(self.holds(t, v, env) for t, v in p.facts.items()):
                got.add(self.order(p.ret, env))
        if len(got) != 1:
            raise Unclear("%d outcomes" % len(got))
        return got.pop()

    def elements(self):
        atoms = sorted(self.atoms | (self.eqs["impl"].atoms if "impl" in self.eqs else set()), key=str)
        vs = dict(self.variants)
        if "impl" in self.eqs:
            for k, x in self.eqs["impl"].variants.items():
                vs[k] = vs.get(k, set()) | x
        vk = sorted(vs, key=str)
        names = [sorted(x for x in vs[k] if x != "?") or ["?"] for k in vk]
        for k, n in zip(vk, names):
            if set(n) <= {"Some", "None"}:
                n[:] = ["None", "Some"]
        if len(atoms) > 4:
            raise Unclear("%d things are compared" % len(atoms))
        ranks = range(3 if len(atoms) <= 3 else 2)
        for vv in itertools.product(*names):
            for rr in itertools.product(ranks, repeat=len(atoms)):
                e = dict(zip(atoms, rr))
                e.update({("v", k): v for k, v in zip(vk, vv)})
                yield e


def total(o):
    """None, or what is wrong with an order"""
    es = list(o.elements())
    n = len(es)
    m = [[o(x, y) for y in es] for x in es]
    for i in range(n):
        if m[i][i] != 0:
            return "a value is not equal to itself"
        for j in range(n):
            if m[i][j] != -m[j][i]:
                return "the first of two values depends on which of them is asked for"
    le = [sum(1 << j for j in range(n) if m[i][j] <= 0) for i in range(n)]
    for i in range(n):
        for j in range(n):
            if m[i][j] <= 0 and le[j] & ~le[i]:
                return "it goes round in circles"
    return None


def equality(ctx, F, o, ty):
    """how == between two values of a type is decided"""
    f = next((f for f in F.real() if f.get("trait") and norm(f["trait"]).split("<")[0].endswith("PartialEq") and f.get("name") == "eq"
              and bare(f.get("impl_self") or "") == bare(ty)), None)
    if f is None:
        return
    E = Engine(F, iters=1)
    q = Order(F, E.run(f), E.argterm(f, 0), E.argterm(f, 1))
    for p in q.paths:
        q.scan(p.ret, None)
    q.a, q.b = E.argterm(f, 0), E.argterm(f, 1)
    o.eqs["impl"] = q


def bare(t):
    return re.sub(r"<.*", "", t.replace("&", "").strip())


def own_order(ctx, F, ty):
    """the order a type declares (Ord::cmp), interpreted"""
    f = next((f for f in F.real() if f.get("trait") and norm(f["trait"]).split("<")[0].endswith("cmp::Ord") and f.get("name") == "cmp"
              and bare(f.get("impl_self") or "") == bare(ty)), None)
    if f is None:
        return None
    E = Engine(F, iters=1)
    o = Order(F, E.run(f), E.argterm(f, 0), E.argterm(f, 1))
    equality(ctx, F, o, ty)
    ctx.saw(*E.fns_seen)
    return o


def sorting(ctx, F, e, extra=()):
    """the order a call of sort uses"""
    n = norm(e.name).rsplit("::", 1)[-1]
    ty = (e.x.get("fn", {}).get("substs") or [""])[0]
    A, B = mk("arg", "x", "order", 0), mk("arg", "y", "order", 1)
    E = Engine(F, iters=1)
    if n in ("sort", "sort_unstable"):
        o = own_order(ctx, F, ty)
        if o is None and not re.search(r"ced", ty):
            return "std"
        return o
    c = e.args[-1]
    if c.op in ("ref", "clone"):
        c = c.a[0]
    if n.endswith("_by"):
        if c.op == "agg" and c.a[0] == "closure":
            o = Order(F, E.run_value(c, [A, B]), A, B)
        else:
            return None
    else:
        if not (c.op == "agg" and c.a[0] == "closure"):
            return None
        ks = [p for p in E.run_value(c, [A]) if p.status == "return"]
        kt = [p for p in E.run_value(c, [B]) if p.status == "return"]
        if len(ks) != 1 or len(kt) != 1:
            return None
        p = ks[0]
        p.ret = mk("call", "cmp::Ord::cmp", (ks[0].ret, kt[0].ret), "order", 0)
        o = Order(F, [p], A, B)
    equality(ctx, F, o, ty)
    ctx.saw(*E.fns_seen)
    return o


def check(ctx):
    F = ctx.F
    orders(ctx, F)
    menu(ctx, F)
    status(ctx, F)


def decide(ctx, o, key, what, where):
    if o is None:
        ctx.violation(key + ":how", "cannot be shown: how %s is ordered" % what, where, [])
        return False
    if o == "std":
        return True
    try:
        w = total(o)
    except Unclear as x:
        ctx.violation(key + ":unclear", "cannot be shown: how %s is ordered (%s)" % (what, x), where, [])
        return False
    ctx.count("orders")
    if w:
        ctx.violation(key, "the order of %s is none: %s" % (what, w), where, [])
        return False
    return True


def orders(ctx, F):
    for f in F.real():
        if not f["path"].startswith(("ced::", "ced_remote::", "ced_ffi::")) or "::tests" in f["path"]:
            continue
        if f.get("trait") and norm(f["trait"]).split("<")[0].endswith("cmp::Ord") and f.get("name") == "cmp" and not str(f["span"][2]).endswith("!"):
            decide(ctx, own_order(ctx, F, f["impl_self"]), "order:" + f["path"], bare(f["impl_self"]).rsplit("::", 1)[-1], "%s:%s" % tuple(f["span"][:2]))
        for b in f["blocks"]:
            t = b["t"]
            k = graph.callee(t) if t and t.get("t") == "call" else None
            if k and SORT.search(norm(k["path"])) and not b.get("c"):
                site(ctx, F, f, k)


def site(ctx, F, f, k):
    """a call of sort: its order, wherever it is reached from its function"""
    ctx.count("sorts")
    E = Engine(F, iters=1, opaque=lambda p: p.startswith(("ced::", "ced_remote::")) and p not in (f["path"],) and not p.startswith(f["path"]))
    seen = 0
    done = set()
    for p in E.run(f) + E.cuts:
        for e in p.events:
            if e.kind == "call" and norm(e.name) == norm(k["path"]) and e.args[-1] not in done:
                seen = 1
                done.add(e.args[-1])
                decide(ctx, sorting(ctx, F, e), "sort:" + f["path"], "what %s sorts" % f["path"], e.where())
    if not seen:
        ctx.violation("sort:%s:how" % f["path"], "cannot be shown: what %s sorts" % f["path"], f["path"], [])


# ---- the list of a menu
def menu(ctx, F):
    f = next((f for f in F.real() if f["path"] == "ced::editor::menu::Menu::to_notification_params"), None)
    if not ctx.need(f, "menu", "menus are shown"):
        return
    E = Engine(F, iters=2, maxpaths=60000, rounds=lambda t: 2 if "entries" in show(t) and "capture" not in show(t) else 1)
    me = E.argterm(f, 0)
    judged = {}
    for p in E.run(f):
        if p.status != "return":
            continue
        kind = p.facts.get(mk("variant", absint.field(me, "source")))
        sorts = [e for e in p.events if e.kind == "call" and SORT.search(norm(e.name))]
        if kind != "Provider":
            continue
        ctx.count("menus_shown")
        if len(sorts) != 1:
            ctx.violation("menu:sorted", "the entries of a menu are not sorted once", f["path"], trail(p))
            continue
        s = sorts[0]
        turned = [e for e in p.events if e.kind == "call" and e.seq > s.seq and re.search(r"(slice|impl \[T\]>)::reverse$", norm(e.name))]
        flip = -1 if len(turned) % 2 else 1
        if (s.args[-1], flip) not in judged:
            judged[s.args[-1], flip] = best_first(ctx, F, s, flip)
        for e in p.events:
            if e.kind == "call" and e.seq > s.seq and e not in turned and e.args and REORDER.search(norm(e.name)) and e.args[0] is s.args[0] and \
                    any(x.op == "elem" for x in subterms(e.args[0])):
                ctx.violation("menu:reordered", "the entries of a menu are changed after they were sorted (%s)" % norm(e.name), e.where(), trail(p))
            if e.kind == "call" and e.seq > s.seq and e not in turned and re.search(r"::(reverse|swap|rotate_left|rotate_right|insert|push_front|sort\w*)$", norm(e.name)):
                ctx.violation("menu:reordered", "the entries of a menu are put in another order after they were sorted (%s)" % norm(e.name), e.where(), trail(p))
        shown = [e for e in p.events if e.kind in ("iter", "exhausted") and e.seq > s.seq]
        for e in shown:
            if any(x.op == "pure" and x.a[0] == "rev" for x in subterms(e.args[0])) and any(x is s.args[0] for x in subterms(e.args[0])):
                ctx.violation("menu:reversed", "the entries of a menu are shown in the reverse of their order", e.where(), trail(p))
        # the score of every candidate
        for x in subterms(s.args[0]):
            if x.op == "agg" and x.a[0] == "adt" and "score" in dict(x.a[3]):
                scored(ctx, p, x, judged[s.args[-1], flip], s)
        later = [e for e in p.events if e.kind == "call" and e.seq > s.seq and norm(e.name).endswith("captures_read")]
        for e in later:
            ctx.violation("menu:late", "entries are searched after the list was sorted", e.where(), trail(p))
    ctx.need(ctx.counts.get("menus_shown"), "menu:shown", "lists are shown")
    ctx.need(ctx.counts.get("scores"), "scores", "candidates are given scores")
    ctx.saw(*E.fns_seen)


def best_first(ctx, F, e, flip=1):
    """direction in which the score is sorted, when ties go by the label; 0 when it is not known"""
    o = sorting(ctx, F, e)
    if not isinstance(o, Order):
        ctx.violation("menu:order", "cannot be shown: how the entries of a menu are ordered", e.where(), [])
        return 0
    try:
        es = list(o.elements())
        score = {k for x in es for k in x if names(k, "score")}
        label = {k for x in es for k in x if k[0] != "v" and (names(k, "Searchable::field") or names(k, "label"))}
        others = {k for x in es for k in x if k[0] != "v"} - score - label
        if others:
            ctx.violation("menu:order", "the entries of a menu are ordered by something else than score and label", e.where(), [])
            return 0
        if not score or not label:
            ctx.violation("menu:order", "the entries of a menu are not ordered by score and label", e.where(), [])
            return 0
        dirs = set()
        for x in es:
            for y in es:
                if any(x[k] == "None" or y[k] == "None" for k in x if k[0] == "v" and names(k, "score")):
                    continue            # entries that do not match are not shown
                sx, sy = [[v[k] for k in sorted(score, key=str) if k[0] != "v"] for v in (x, y)]
                lx, ly = [[v[k] for k in sorted(label, key=str)] for v in (x, y)]
                r = flip * o(x, y)
                if sx != sy and len(sx) == 1:
                    dirs.add(r * (1 if sx > sy else -1))
                elif sx == sy and r != (lx > ly) - (lx < ly):
                    ctx.violation("menu:ties", "entries that match equally well are not ordered by their text", e.where(), [])
                    return 0
        if len(dirs) != 1 or 0 in dirs:
            ctx.violation("menu:order", "the entries of a menu are not ordered by their score first", e.where(), [])
            return 0
        ctx.count("menu_orders")
        return dirs.pop()
    except Unclear as x:
        ctx.violation("menu:order", "cannot be shown: how the entries of a menu are ordered (%s)" % x, e.where(), [])
        return 0


def names(k, n):
    """the thing looked at is that field itself, not something computed from it"""
    def plain(x):
        if not isinstance(x, tuple):
            return True
        return (x[0] in ("field", "vf") or str(x[0]).endswith("Searchable::field") or x[0] == "v") and all(plain(y) for y in x[1:] if isinstance(y, tuple))
    return n in str(k) and plain(k)


def scored(ctx, p, c, direction, s):
    """the score of a candidate: a falling function of the stretch matched, in the direction sorted"""
    t = dict(c.a[3])["score"]
    while t.op in ("clone", "ref"):
        t = t.a[0]
    if t.op == "agg" and t.a[2] == "None":
        return
    ctx.count("scores")
    if t.op == "agg" and t.a[2] == "Some":
        t = list(dict(t.a[3]).values())[0]
    if t.op == "const" or t.op in ("int",):
        # only where nothing was captured at all
        if not any(f.op == "lt" and v is False and f.a[0].op == "int" and f.a[0].a[0] == 0 and "CaptureLocations::len" in show(f.a[1]) or
                   f.op == "eq" and v is True and "CaptureLocations::len" in show(f) for f, v in p.facts.items()):
            ctx.violation("score:constant", "an entry that matches is given a score that does not depend on the match", s.where(), trail(p))
        return
    d = slope(t)
    if d is None:
        ctx.violation("score:form", "cannot be shown: how the score of a match depends on its length (%s)" % show(t, 0)[:150], s.where(), trail(p))
    elif direction and d != direction:
        ctx.violation("score:direction", "a longer match is listed before a shorter one", s.where(), trail(p))


def slope(t):
    """-1: falls as the stretch matched grows; 1: grows with it; None: unknown.  (direction: +1 when a higher score is later.)"""
    if t.op == "cast":
        return slope(t.a[0])
    if t.op == "bin":
        op, x, y = t.a
        if op.startswith("Div") and number(x) and number(x) > 0:
            d = slope(y)
            return -d if d and grows_above_zero(y) else None
        if op.startswith("Mul") and (number(x) or number(y)):
            k, z = (number(x), y) if number(x) is not None else (number(y), x)
            d = slope(z)
            return d if d and k > 0 else -d if d and k < 0 else None
        if op.startswith("Sub") and number(x) is not None and slope(y):
            return -slope(y)
    if t.op == "call" and str(t.a[0]).endswith("Neg::neg") or t.op == "neg":
        d = slope(t.a[1][0] if t.op == "call" else t.a[0])
        return -d if d else None
    l = linear(t)
    if l is None:
        return None
    k, ends, starts = l
    if len(ends) == 1 and len(starts) == 1 and ends[0] == -starts[0]:
        return 1 if ends[0] > 0 else -1
    return None


def grows_above_zero(t):
    while t.op == "cast":
        t = t.a[0]
    l = linear(t)
    return l is not None and l[0] > 0


def number(t):
    if t.op == "int":
        return t.a[0]
    if t.op == "const":
        m = re.search(r'"float": "(\d+)"', str(t.a[0]))
        ty = re.search(r'"ty": "(f\d+)"', str(t.a[0]))
        if m:
            import struct
            b = int(m.group(1))
            return struct.unpack("<f", struct.pack("<I", b))[0] if ty and ty.group(1) == "f32" else struct.unpack("<d", struct.pack("<Q", b))[0]
    if t.op == "cast":
        return number(t.a[0])
    return None


def linear(t, c=1):
    """constant, coefficients of ends of the last group, and of the start of the whole match"""
    if t.op == "cast":
        return linear(t.a[0], c)
    if t.op == "int":
        return (c * t.a[0], [], [])
    if number(t) is not None:
        return (c * number(t), [], [])
    if t.op == "bin" and t.a[0].startswith(("Add", "Sub")):
        x = linear(t.a[1], c)
        y = linear(t.a[2], c if t.a[0].startswith("Add") else -c)
        return None if x is None or y is None else (x[0] + y[0], x[1] + y[1], x[2] + y[2])
    m = bound(t)
    if m == "end":
        return (0, [c], [])
    if m == "start":
        return (0, [], [c])
    return None


def bound(t):
    """start or end of the stretch matched: of the whole match, or up to the last group"""
    s = show(t, 0)
    if t.op == "field" and str(t.a[1]) in ("0", "1"):
        g = t.a[0]
        while g.op in ("vf", "ref", "clone"):
            g = g.a[0]
        if g.op in ("call", "pure") and str(g.a[0]).endswith("CaptureLocations::get"):
            i = (list(g.a[1]) if g.op == "call" else list(g.a[1:]))[1]
            whole = i.op == "int" and i.a[0] == 0
            last = i.op == "bin" and i.a[0].startswith("Sub") and "CaptureLocations::len" in show(i.a[1], 0) and i.a[2].op == "int" and i.a[2].a[0] == 1
            first = i.op == "int" and i.a[0] == 1
            if str(t.a[1]) == "0" and whole:
                return "start"
            if str(t.a[1]) == "1" and (whole or last):
                return "end"
    return None


def status(ctx, F):
    """the items of a status line are in the order of their index"""
    G = Graph(F)
    callers = {}
    for a, bs in G.edges.items():
        for b in bs:
            callers.setdefault(b, set()).add(a)
    todo = []
    for f in F.real():
        if f["path"].startswith("ced::") and "::tests" not in f["path"]:
            for b in f["blocks"]:
                k = graph.callee(b["t"]) if b["t"] and b["t"].get("t") == "call" else None
                if k and norm(k["path"]).endswith("Notification::new") and (k.get("substs") or [""])[0].endswith("::Status"):
                    todo.append(f)
    n, done = 0, set()
    while todo:
        f = todo.pop()
        if f["id"] in done:
            continue
        done.add(f["id"])
        E = Engine(F, iters=1, maxpaths=4000, opaque=["ced::editor::piece_table*"])
        up = False
        for p in E.run(f):
            for e in p.events:
                if not (e.kind == "call" and norm(e.name).endswith("Sender::send") and any(x.op == "str" and x.a[0] == "status" for a in e.args for x in subterms(a))):
                    continue
                n += 1
                items = [x for a in e.args for x in subterms(a) if x.op == "call" and str(x.a[0]).endswith("to_value")]
                items = items[0].a[1][0] if items else e.args[-1]
                sorts = [s for s in p.events if s.kind == "call" and s.seq < e.seq and SORT.search(norm(s.name))]
                if not sorts:
                    if any(x.op == "arg" for x in subterms(items)) and not any(x.op in ("elem", "iter") for x in subterms(items)):
                        up = True
                    else:
                        ctx.violation("status:sorted", "the items of a status line are not sorted", e.where(), trail(p))
                    continue
                late = [x for x in p.events if x.kind == "call" and sorts[-1].seq < x.seq < e.seq and REORDER.search(norm(x.name))]
                if late:
                    ctx.violation("status:reordered", "the items of a status line are changed after they were sorted", late[0].where(), trail(p))
                o = sorting(ctx, F, sorts[-1])
                if not isinstance(o, Order):
                    ctx.violation("status:order", "cannot be shown: how the items of a status line are ordered", e.where(), trail(p))
                    continue
                try:
                    es = list(o.elements())
                    ks = [k for k in es[0] if names(k, "index")]
                    if len(ks) != 1 or any(o(x, y) != (x[ks[0]] > y[ks[0]]) - (x[ks[0]] < y[ks[0]]) for x in es for y in es if x[ks[0]] != y[ks[0]]):
                        ctx.violation("status:order", "the items of a status line are not in the order of their index", sorts[-1].where(), trail(p))
                except Unclear as x:
                    ctx.violation("status:order", "cannot be shown: how the items of a status line are ordered (%s)" % x, e.where(), trail(p))
        ctx.saw(*E.fns_seen)
        if up:
            out = [G.local[c] for c in callers.get(f["id"], ())]
            if not out:
                ctx.violation("status:sorted", "the items of a status line are not sorted", f["path"], [])
            todo += out
    ctx.count("status_lines", n)
    ctx.need(n, "status", "the editor sends status lines")
