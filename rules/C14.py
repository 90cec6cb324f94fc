"""What changes is shown.  Every operation that requests or scripts can start is interpreted with everything it calls in the
core, except the refresh of views itself, taken as: the clients it is given are sent their views (see C06).  After a
change of the content of a buffer, every client whose view shows it is among those refreshed; after a client is given
another view, it is; after its selections in its view change, it is.  A reload that reports no change makes none."""
from coremodel import *
import C12

LIMIT = 100


def check(ctx):
    m = model(ctx)
    if m is None:
        return
    F, G = m.F, m.G
    _fields[:] = [f[0] for a in F.adts.values() if a["path"].endswith("::Selection") for f in a["variants"][0]["fields"]]
    m.refresh = {f["id"] for f in G.local.values() if is_core(m, f) and f["kind"] == "AssocFn" and f["id"] in m.outputs
                 and any("usize" in l[0] and ("Vec<" in l[0] or "[usize]" in l[0] or "Set<" in l[0]) for l in f["locals"][1:f["args"] + 1])}
    if not ctx.need(m.refresh, "refresh", "the core refreshes the views of a list of clients"):
        return
    m.refresh_paths = {G.local[i]["path"] for i in m.refresh}
    # functions that print to a buffer of their own are looked at alone; helpers around the refresh are followed everywhere
    prints = [f for f in G.local.values() if is_core(m, f) and f["kind"] == "AssocFn" and not f.get("trait") and f["id"] in m.outputs
              and m.kinds[f["id"]] == {"B+"}]
    m.prints = {f["path"] for f in prints}
    inl = {f["path"] for f in G.local.values() if is_core(m, f) and f["id"] in m.outputs and f["id"] not in m.refresh and not m.kinds[f["id"]]}
    todo = [f for f in entries(m) if used(m, f) or "B-" in m.kinds[f["id"]]]
    todo = [f for f in todo if (f["id"] in m.outputs or m.kinds[f["id"]] - {"B+"}) and f not in prints]
    if not ctx.need(todo, "operations", "some operation changes what is shown"):
        return
    todo.sort(key=lambda f: (len(G.reach([f["id"]])[0]), f["path"]))
    todo = prints + todo
    m.reloads = reloads(ctx, m)
    closed = set()
    for f in todo:
        ps = run(m, f, closed, inl | {f["path"]} | (m.prints if f["path"] in m.prints else set()), ctx)
        n = 0
        for p in ps:
            if p.status == "return":
                n += 1
                path(ctx, m, f, p)
        ctx.count("operations")
        ctx.count("paths", n)
        if n > LIMIT and "B-" in m.kinds[f["id"]]:
            closed.add(f["path"])
    for k in ("content_changes", "switches", "selection_changes", "refreshes"):
        ctx.need(ctx.counts.get(k), k, "the operations change what is shown (%s)" % k.replace("_", " "))


def used(m, f):
    """started by a request or a script, not only while the editor is made"""
    if f["kind"] == "Closure":
        return True
    for g in m.G.local.values():
        if is_core(m, g) and g["kind"] != "Closure" or (g.get("parent") and is_core(m, m.F.fns.get(g["parent"]) or {}) and (m.F.fns.get(g["parent"]) or {}).get("name") != "add_methods"):
            continue
        if g["locals"][0][0] == g.get("impl_self"):
            continue
        if "::tests::" in g["path"]:
            continue
        if g["kind"] == "Closure" and (m.F.fns.get(g.get("parent")) or {}).get("name") == "add_methods" and is_core(m, m.F.fns.get(g["parent"])):
            continue
        for b in g["blocks"]:
            t = b["t"]
            if t["t"] == "call":
                c = graph.callee(t)
                if c and (c.get("rid") or c.get("id")) == f["id"]:
                    return True
    return False


def run(m, f, closed, inl, ctx):
    def go(iters, opq, cap, **kw):
        E = engine(m, opaque=opq - {f["path"]}, keep_inline=inl - opq, iters=iters, maxpaths=cap, **kw)
        ps = E.run(f)
        ctx.saw(*E.fns_seen)
        return ps
    try:
        if not m.kinds[f["id"]] & {"V", "B-"}:
            return go(2, closed, 3000)
        return go(2, closed, 15000, rounds=lambda c: 2 if coll(m, c) == "C" else 1)
    except TooBig:
        pass
    try:
        return go(1, closed, 6000)
    except TooBig:
        return go(1, closed | {g["path"] for g in entries(m) if g is not f and g["kind"] != "Closure"}, 6000)


def reloads(ctx, m):
    """functions of buffers that report whether they changed the content: when they report none they made none"""
    out = {}
    for f in m.G.local.values():
        if f["path"].startswith("ced::editor::buffer::") and f["kind"] == "AssocFn" and f["args"] and "&mut" in f["locals"][1][0] and "bool" in f["locals"][0][0]:
            E = Engine(m.F, iters=1, stores=True, opaque=lambda p: p.startswith("ced::editor::piece_table::") or p.startswith("ced::editor::diff::"))
            ok = True
            for p in E.run(f):
                if p.status != "return":
                    continue
                ctx.count("reload_paths")
                changes = [e for e in p.events if e.kind == "call" and e.x.get("atys") and e.name.startswith("ced::editor::piece_table::") and "&mut" in e.x["atys"][0]]
                v = dict(p.ret.a[3]).get("0", p.ret) if p.ret.op == "agg" and p.ret.a[3] else p.ret
                v = TRUE if truth(p, v) is True else v
                quiet = p.ret.op == "agg" and p.ret.a[2] in ("Err", "None") or v is not TRUE
                if quiet and changes:
                    ok = False
                    ctx.violation("silent:%s" % f["name"], "the content of a buffer may change although no change is reported", changes[0].where(), trail(p))
            out[f["path"]] = ok
            ctx.saw(*E.fns_seen)
    return out


def path(ctx, m, f, p):
    op = f.get("name") or f["path"].rsplit("::", 1)[-1]
    evs = p.events
    E = Engine
    for i, e in enumerate(evs):
        if e.kind == "call" and e.name in m.refresh_paths:
            ctx.count("refreshes")
        b = content_change(m, p, i, e)
        if b is not None:
            ctx.count("content_changes")
            if not viewers(m, p, i, b):
                ctx.violation("content:%s" % op, "a buffer changes and not every client that shows it is sent its view anew", e.where(), trail(p))
        elif e.kind == "store" and C12.is_cview(m, e.args[0]):
            ctx.count("switches")
            c = client_of(m, e.args[0])
            if c is None or not told(m, p, i, c):
                ctx.violation("switch:%s" % op, "a client is given another view and not sent it", e.where(), trail(p))
        elif mapev(e, m, "C", "insert"):
            ctx.count("newcomers")
            if not told(m, p, i, canon(e.args[1])):
                ctx.violation("newcomer:%s" % op, "a client is registered with a view and not sent it", e.where(), trail(p))
        elif e.kind == "call" and e.name == "HashMap::insert" and C12.is_csels(m, e.args[0]) and moves(p, i):
            ctx.count("selection_changes")
            c = client_of(m, e.args[0])
            if c is None or not told(m, p, i, c):
                if any(moved(p, s) for s in moves(p, i)):
                    ctx.violation("selection:%s" % op, "the selections of a client change and it is not sent its view anew", e.where(), trail(p))


def buffer_of(m, t):
    """name of the registered buffer a term lies in"""
    while isinstance(t, T):
        t = strip(t)
        if t.op == "idx" and reg(m, t.a[0]) == "B":
            return t.a[1]
        if t.op == "vf" and isinstance(t.a[0], T) and t.a[0].op in ("mapget", "get"):
            return t.a[0].a[1] if len(t.a[0].a) > 1 else None
        if t.op in ("field", "down", "vf", "pure") and t.a and isinstance(t.a[0], T):
            t = t.a[0]
            continue
        return None
    return None


def content_change(m, p, i, e):
    if e.kind != "call":
        return None
    if e.name.startswith(("ced::editor::buffer::", "ced::editor::piece_table::", "ced::<editor::buffer::")) and e.x.get("atys") and "&mut" in e.x["atys"][0]:
        b = buffer_of(m, e.args[0])
        if b is None:
            return None
        if e.name in m.reloads and m.reloads[e.name]:
            for q, v in p.facts.items():
                if q.op == "variant" and q.a[0] is e.res and v == "Err":
                    return None
                if v is False and q.op == "vf" and q.a[0] is e.res:
                    return None
                if v is False and same(q, mk("vf", e.res, "Ok", "0")):
                    return None
        # a buffer that is empty before anything was deleted from it: buffers are never empty
        if any(v is True and q.op == "call" and str(q.a[0]).endswith("::is_empty") for q, v in ()):
            return None
        if impossible(m, p, i, b):
            return None
        return b
    if mapev(e, m, "B", "insert"):
        b = e.args[1]
        for q, v in list(e.facts.items()):
            if q.op == "pure" and q.a[0] == "has" and reg(m, strip(q.a[1])) == "B" and same(q.a[2], b) and v is False:
                return None         # a new buffer: nobody shows it
        if missing_later(m, p, e, b):
            return None
        return b
    return None


def impossible(m, p, i, b):
    """the path takes the buffer for empty, although nothing was deleted from it, or for missing"""
    for e in p.events[:i]:
        if e.kind == "call" and e.name.startswith("ced::editor::") and e.name.endswith("::is_empty") and buffer_of(m, e.args[0]) is not None and same(buffer_of(m, e.args[0]), b):
            if any(v is True and q is e.res for q, v in p.facts.items()):
                if not any(x.kind == "call" and x.name.startswith("ced::editor::piece_table::") and x.x.get("atys") and "&mut" in x.x["atys"][0]
                           and same(buffer_of(m, x.args[0]) or NONE, b) for x in p.events[:p.events.index(e)]):
                    return True
    for q, v in p.facts.items():
        if v is False and q.op == "pure" and q.a[0] == "has" and reg(m, strip(q.a[1])) == "B" and same(q.a[2], b) \
                and not any(mapev(x, m, "B", "remove") for x in p.events):
            return True
    return False


def missing_later(m, p, e, b):
    """the path takes the buffer for missing after it was registered, although none was removed"""
    if any(mapev(x, m, "B", "remove", "clear", "retain") or x.kind == "call" and C12.may_remove(m, x) for x in p.events):
        return False
    return any(v is False and q not in e.facts and q.op == "pure" and q.a[0] == "has" and reg(m, strip(q.a[1])) == "B" and same(q.a[2], b)
               for q, v in p.facts.items())


def client_of(m, loc):
    """id of the client a location belongs to"""
    for x in subterms(loc):
        y = strip(x)
        if y.op == "idx" and reg(m, y.a[0]) == "C":
            return canon(y.a[1])
        if y.op == "elem" and coll(m, y.a[0]) == "C":
            return mk("client", y)
    return None


def is_id(c, t):
    """a term is the id of the client"""
    t = canon(t)
    if c.op != "client":
        return t is c
    it = canon(c.a[0])
    return t.op == "field" and t.a[1] == "0" and canon(t.a[0]) is it or t.op == "key" and t.a[0] is it or t is it


def ids(t):
    """terms in a list of clients, None if it is not known"""
    t = strip(t)
    if t.op == "agg" and t.a[0] in ("array", "tuple"):
        return [x for _, x in t.a[3]]
    return None


def refreshes(m, p, i):
    for j in range(i + 1, len(p.events)):
        e = p.events[j]
        if e.kind == "call" and e.name in m.refresh_paths:
            for a in e.args[1:]:
                l = ids(a)
                if l is not None:
                    yield j, e, l


def told(m, p, i, c):
    return any(is_id(c, x) for j, e, l in refreshes(m, p, i) for x in l)


def viewers(m, p, i, b):
    """every client whose view shows the buffer is refreshed after the change"""
    out = list(refreshes(m, p, i))
    listed = [x for j, e, l in out for x in l]
    last = max([j for j, e, l in out], default=len(p.events))
    cb = canon(b)
    if p.events and any(q.op == "pure" and q.a[0] == "is_empty" and reg(m, strip(q.a[1])) == "C" and v is True for q, v in p.facts.items()):
        return True
    for l in loops(p):
        if coll(m, l.over) != "C":
            continue
        if l.lo < i and any(x.kind == "store" and C12.is_cview(m, x.args[0]) or structural(x, m, "C") for x in p.events[l.lo:i]):
            continue
        if not l.items:
            return True
        good = True
        for it in l.items:
            c = mk("client", it)
            if any(is_id(c, x) for x in listed):
                continue
            shows = None
            for q, v in p.facts.items():
                if q.op == "pure" and q.a[0] == "contains_buffer" and C12.in_elem(q, it) and canon(q.a[2]) is cb:
                    shows = v
                if q.op == "eq" and v is True and any(is_id(c, x) for x in q.a):
                    o = [x for x in q.a if not is_id(c, x)]
                    if o and any(same(o[0], x) for x in listed):
                        shows = False       # it is told on its own
            if shows is not False:
                good = False
        if good and any(j > l.lo for j, e, _ in out) or good and all(True for _ in l.items) and shows_none(m, p, l, cb):
            return True
    return False


def shows_none(m, p, l, cb):
    return all(any(v is False and q.op == "pure" and q.a[0] == "contains_buffer" and C12.in_elem(q, it) and canon(q.a[2]) is cb for q, v in p.facts.items())
               for it in l.items)


_fields = []


def m_fields(p):
    return _fields


def moves(p, i):
    """selections whose fields are assigned before the event"""
    out = []
    for e in p.events[:i]:
        if e.kind == "store" and e.args[0].op == "field" and e.args[0].a[0].op == "elem" and e.args[0].a[1] in m_fields(p):
            if e.args[0].a[0] not in out:
                out.append(e.args[0].a[0])
    return out


def moved(p, s):
    return not any(v is True and q.op == "eq" and any(x is s for x in q.a) for q, v in p.facts.items())
