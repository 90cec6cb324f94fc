"""The shared state of the editor core as the rules see it: its registers of views, buffers and clients (found by the
types of their entries), the operations on it, and queries over interpreted paths of these operations."""
import re
from common import *
from absint import Engine, T, mk, norm, subterms, show, field
import graph

MUT = ("insert", "remove", "entry", "clear", "retain", "drain", "extend", "append", "remove_entry")


class Model:
    pass


def strip(t):
    """the value a copy, a version or a reference stands for"""
    while isinstance(t, T) and t.op in ("clone", "at", "removed"):
        t = t.a[0]
    return t


_same = {}


def canon(t):
    """the term without copies and versions, everywhere"""
    if not isinstance(t, T):
        return t
    r = _same.get(t)
    if r is None:
        if t.op in ("clone", "at", "removed"):
            r = canon(t.a[0])
        elif t.op in ("agg",):
            r = T(t.op, (t.a[0], t.a[1], t.a[2], tuple((n, canon(x)) for n, x in t.a[3]))) if False else mk("agg", t.a[0], t.a[1], t.a[2], tuple((n, canon(x)) for n, x in t.a[3]))
        else:
            r = mk(t.op, *[canon(x) if isinstance(x, T) else x for x in t.a])
        _same[t] = r
    return r


def same(a, b):
    return canon(a) is canon(b)


def model(ctx):
    """names of the registers, by the types of what they hold"""
    F = ctx.F
    m = Model()
    m.F = F
    m.ctx = m.state = None
    structs = {a["path"]: a for a in F.adts.values() if a["kind"] == "Struct" and a["path"].startswith("ced::") and "::tests" not in a["path"]}
    views = [p for p in structs if p == "ced::editor::view::View"]
    m.view_ty = views[0] if views else None
    for p, a in structs.items():
        fs = a["variants"][0]["fields"]
        v = [f for f in fs if m.view_ty and re.match(r".*Rc<.*RefCell<%s\b" % re.escape(m.view_ty), f[1]) and "Map<" not in f[1]]
        s = [f for f in fs if re.match(r".*Map<.*Map<.*::Selection\b", f[1])]
        if v and s:
            m.ctx, m.cview, m.csels = p, v[0][0], s[0][0]
    for p, a in structs.items():
        fs = a["variants"][0]["fields"]
        mp = [(f[0], f[1]) for f in fs if "Map<" in f[1]]
        c = [n for n, t in mp if m.ctx and m.ctx in t]
        b = [n for n, t in mp if re.search(r"::Buffer\b", t)]
        v = [n for n, t in mp if m.view_ty and m.view_ty in t and (not m.ctx or m.ctx not in t)]
        if c and b and v:
            m.state, m.C, m.B, m.V = p, c[0], b[0], v[0]
    if not ctx.need(m.ctx and m.state, "state", "the core keeps registers of its clients, buffers and views"):
        return None
    m.core = next((a for a, x in structs.items() if any("Mutex<%s>" % m.state in f[1] for f in x["variants"][0]["fields"])), None)
    if not ctx.need(m.core, "core", "a type shares the registers"):
        return None
    m.G = graph.Graph(F)
    classify(m)
    return m


def mut_calls(f):
    for b in f["blocks"]:
        if b.get("c"):
            continue
        t = b["t"]
        if t["t"] == "call":
            c = graph.callee(t)
            if c and t.get("atys"):
                yield c, t["atys"][0], t


def classify(m):
    """kinds of structural change each function makes itself: V, C, S (selections of a client), B+ and B-, W (view of a client)"""
    F, G = m.F, m.G
    own = {}
    for f in G.local.values():
        k = set()
        for c, ty, t in mut_calls(f):
            n = c.get("name")
            if not re.search(r"(Map|Entry|OccupiedEntry|VacantEntry)<", ty) or ("&mut" not in ty and "Entry<" not in ty):
                continue
            if n in MUT or n in ("or_insert", "or_insert_with", "or_default"):
                if m.ctx in ty:
                    k.add("C")
                elif re.search(r"::Buffer\b", ty):
                    k.add("B-" if n in ("remove", "clear", "retain", "drain", "remove_entry") else "B+")
                elif m.view_ty in ty:
                    k.add("V")
                elif "::Selection" in ty:
                    k.add("S")
        for b in f["blocks"]:
            for s in b["s"]:
                p = s.get("p") or []
                for x in p[1:]:
                    if isinstance(x, list) and x and x[0] == "f" and len(x) > 3 and x[3] == m.ctx and x[2] == m.cview and x is p[-1]:
                        k.add("W")
        own[f["id"]] = k
    m.own = own
    m.notifier = {f["id"] for f in G.local.values() if sends(f)}
    m.kinds = {}
    m.outputs = set()
    for i, f in G.local.items():
        r, _ = G.reach([i])
        k = set()
        for x in r:
            k |= own[x]
        m.kinds[i] = k
        if r & m.notifier:
            m.outputs.add(i)


def sends(f):
    """sends on the channel of notifications"""
    for b in f["blocks"]:
        t = b["t"]
        if t["t"] == "call":
            c = graph.callee(t)
            if c and norm(c["path"]).startswith("async_channel::Sender::") and "BroadcastMessage" in " ".join(t.get("atys") or []):
                return True
    return False


def is_core(m, f):
    return f.get("impl_self") == m.core


def passive(m, f):
    """core function that leaves the registers alone (it may create a buffer to print to)"""
    return is_core(m, f) and not f.get("trait") and (m.kinds.get(f["id"], set()) <= set() or
                                                   (m.kinds[f["id"]] <= {"B+"} and f["id"] in m.outputs))


def view_pure(m, f):
    """functions of views that only compute a value from their arguments"""
    if f.get("impl_self", "") and "stackmap::StackMap" in f["impl_self"] and f["name"] in ("latest", "latest_value"):
        return True
    if f.get("impl_self") != m.view_ty or f.get("trait") or f["kind"] != "AssocFn":
        return False
    tys = [l[0] for l in f["locals"][1:f["args"] + 1]]
    return bool(tys) and not any("&mut" in t or "Map<" in t for t in tys)


def alias(f):
    if f.get("impl_self", "") and "stackmap::StackMap" in f["impl_self"]:
        return {"insert": "std::collections::HashMap::insert", "remove": "std::collections::HashMap::remove",
                "deref": "std::ops::Deref::deref", "deref_mut": "std::ops::DerefMut::deref_mut"}.get(f["name"])
    return None


def engine(m, opaque=(), keep_inline=(), **kw):
    F = m.F
    opq = set(opaque)
    inl = set(keep_inline)
    by = {}
    for f in m.G.local.values():
        by.setdefault(f["path"], f)

    def op(path):
        if path in inl:
            return False
        if path in opq:
            return True
        f = by.get(path)
        if f is None:
            return False
        if f["kind"] == "Closure":
            return False
        if path.startswith("ced::editor::buffer::") or path.startswith("ced::editor::diff::") or path.startswith("ced::editor::piece_table::"):
            return True
        if path.startswith("ced::<"):
            return False
        if f.get("impl_self") == m.view_ty or path.startswith("ced::editor::view::"):
            return True
        if f["id"] in m.notifier or (f["id"] in m.outputs and not is_core(m, f) and (f.get("impl_self") or "").startswith("ced::editor::core::")):
            return True
        return passive(m, f) and (f["id"] in m.outputs or f["locals"][0][0] == "()")
    kw.setdefault("iters", 1)
    return Engine(F, opaque=op, stores=True, keep_elems=True, purefns=lambda f: view_pure(m, f), alias=alias, **kw)


def entries(m):
    """operations others may call: public functions of the core, and what scripts may call"""
    out = []
    for f in m.F.real():
        if is_core(m, f) and f["kind"] in ("AssocFn",) and not f.get("trait") and "Restricted" not in str(f.get("vis")) and f["args"] > 0 \
                and m.core in f["locals"][1][0]:
            out.append(f)
    for f in m.F.real():
        if f["kind"] == "Closure" and f.get("parent"):
            p = m.F.fns.get(f["parent"]) or {}
            if p.get("name") == "add_methods" and (p.get("impl_self") == m.core):
                out.append(f)
    return out


# ------------------------------------------------------------------ queries over paths
def reg(m, t):
    """which register a term is: V, B, C"""
    t = strip(t)
    if isinstance(t, T) and t.op == "field":
        n = t.a[1]
        for r in ("V", "B", "C"):
            if n == getattr(m, r):
                return r
    return None


def coll(m, t):
    """register a loop runs over"""
    t = strip(t)
    if isinstance(t, T) and t.op in ("values", "keys", "pure") and t.op != "pure":
        t = strip(t.a[0])
    return reg(m, t)


def mapev(e, m, kind, *names):
    """event that changes a register"""
    return e.kind == "call" and e.name.startswith("HashMap::") and e.name.split("::")[1] in names and reg(m, e.args[0]) == kind


def structural(e, m, kind):
    return mapev(e, m, kind, *MUT)


def has(E, p, mp, k):
    """what the path (or the state at an event) knows of a key of a map"""
    mp = E.strip(mp, p) if True else mp
    v = E.version(p, mp)
    return p.facts.get(mk("pure", "has", mk("at", mp, v) if v else mp, E.strip(k)))


def has_canon(E, p, mp, k):
    r = has(E, p, mp, k)
    if r is not None:
        return r
    mp2 = E.strip(mp, p)
    v = E.version(p, mp2)
    w = mk("at", mp2, v) if v else mp2
    ck = canon(k)
    for f, val in p.facts.items():
        if f.op == "pure" and f.a[0] == "has" and f.a[1] is w and canon(f.a[2]) is ck:
            return val
    return None


def after(p, i):
    """the state right after an event"""
    return p.events[i + 1] if i + 1 < len(p.events) else p


def empty(E, p, t):
    t = E.strip(t, p)
    v = E.version(p, t)
    return p.facts.get(mk("pure", "is_empty", mk("at", t, v) if v else t))


class Loop:
    """one complete run over a collection on a path"""

    def __init__(self, over, items, lo, hi, start):
        self.over, self.items, self.lo, self.hi, self.start = over, items, lo, hi, start


def loops(p, lo=0, hi=None):
    """completed loops of the path: (collection term, element terms, indices)"""
    out = []
    evs = p.events
    hi = len(evs) if hi is None else hi
    open_ = {}
    for i, e in enumerate(evs[:hi]):
        if e.kind == "iter":
            k = (e.args[0], e.chain, e.sp and tuple(e.sp[:2]) if e.sp else None)
            o = open_.setdefault(k, [i, []])
            o[1].append((i, e.args[1] if len(e.args) > 1 else None))
        elif e.kind == "exhausted":
            k = (e.args[0], e.chain, e.sp and tuple(e.sp[:2]) if e.sp else None)
            o = open_.pop(k, [i, []])
            if o[0] >= lo:
                out.append(Loop(e.args[0], [x for _, x in o[1]], o[0], i, o[0]))
    return out


def outputs(m, e):
    """the event tells clients something"""
    if e.kind != "call":
        return False
    f = next((x for x in m.F.by_path.get(e.name, [])), None) if hasattr(m.F, "by_path") else None
    if f is None:
        return False
    i = f if isinstance(f, str) else f.get("id")
    return i in m.outputs
