"""Consistency of the registers of views, buffers and clients, on every path of every operation a request or a script can
start (each interpreted with everything it calls inside the core; the content of buffers and the output functions are
opaque).  A view is registered under its own key and only when its buffers exist; afterwards every client is given
selections for it.  A removed view loses its selections, its clients are switched to a registered one, and at the end
some view is registered.  A buffer is removed only after a run over all registered views which found it in none, and no
client is told anything before the clients of the removed view were switched.  A client is only ever given a registered
view; a new client starts with one and with selections for all of them, or as a copy of a connected client."""
from coremodel import *

LIMIT = 150


def check(ctx):
    m = model(ctx)
    if m is None:
        return
    todo = [f for f in entries(m) if m.kinds[f["id"]] - {"B+"}]
    ctx.need(todo, "operations", "some operation changes the registers")
    # smallest call graphs first: operations with many paths are not followed again from the others
    todo.sort(key=lambda f: (len(m.G.reach([f["id"]])[0]), f["path"]))
    closed = set()
    seen = {}
    for f in todo:
        E = engine(m, opaque=closed)
        try:
            ps = E.run(f)
        except TooBig:
            E = engine(m, opaque=closed | {g["path"] for g in todo if g is not f and g["kind"] != "Closure"})
            ps = E.run(f)
        ctx.saw(*E.fns_seen)
        ctx.count("operations")
        n = 0
        for p in ps:
            if p.status == "return":
                n += 1
                path(ctx, m, E, f, p, closed)
        ctx.count("paths", n)
        if n > LIMIT:
            closed.add(f["path"])
        seen[f["path"]] = n
    first(ctx, m)
    never_empty(ctx, m)
    ctx.sample("operations followed: " + ", ".join("%s (%d paths)" % (k.rsplit("::", 1)[-1], v) for k, v in seen.items()))
    for k in ("views_registered", "views_removed", "buffers_removed", "switches", "clients_registered"):
        ctx.need(ctx.counts.get(k), k, "the operations change the registers (%s)" % k.replace("_", " "))


def first(ctx, m):
    """a new editor has a view whose buffers exist"""
    makers = [f for f in m.G.local.values() if f.get("impl_self") and not is_core(m, f) and f["kind"] == "AssocFn" and not f.get("trait")
              and f["locals"][0][0] == f["impl_self"] and any(m.core in l[0] for l in f["locals"]) and "V" in m.kinds[f["id"]]]
    if not ctx.need(makers, "editor", "a function makes a new editor with a view"):
        return
    for f in makers:
        E = engine(m)
        ps = E.run(f)
        ctx.saw(*E.fns_seen)
        ok = [p for p in ps if p.status == "return"]
        ctx.need(ok, "editor:new", "the function that makes a new editor ends")
        for p in ok:
            ins = [(i, e) for i, e in enumerate(p.events) if mapev(e, m, "V", "insert")]
            if not ins:
                ctx.violation("new:view", "a new editor has no view", f["path"], trail(p))
            for i, e in ins:
                ctx.count("first_views")
                view_buffers(ctx, m, E, f, p, i, e)


EMPTY = ("Vec::new", "Vec::with_capacity", "Default::default", "mem::take")
LESSEN = ("Vec::clear", "Vec::pop", "Vec::remove", "Vec::swap_remove", "Vec::drain", "Vec::truncate", "Vec::retain", "Vec::retain_mut",
          "Vec::split_off")
FILL = ("Vec::push", "Vec::insert", "Vec::extend", "Extend::extend", "Vec::append", "Vec::extend_from_slice", "Vec::resize")
LIST = re.compile(r"^(alloc|std)::vec::Vec<[\w:]*::Selection(, [\w:]+)?>$")


def never_empty(ctx, m):
    """no list of selections is made empty, or made shorter, without being filled by the same function"""
    for f in m.G.local.values():
        if not f["path"].lstrip("<").startswith("ced::") and "editor::" not in f["path"]:
            continue
        made, filled = [], False
        for b in f["blocks"]:
            t = b["t"]
            if t.get("t") != "call" or b.get("c"):
                continue
            c = graph.callee(t)
            if not c:
                continue
            name = norm(c["path"])
            su = c.get("substs") or []
            whose = [x for x in su if isinstance(x, str)]
            dest = f["locals"][t["dest"][0]][0] if t.get("dest") and len(t["dest"]) == 1 else ""
            one = any(re.match(r"^[\w:]*::Selection$", x) for x in whose)
            if LIST.match(dest):
                ctx.count("selection_lists")
            if any(name.endswith(x) for x in EMPTY) and LIST.match(dest):
                made.append((name, t))
            elif any(name.endswith(x) for x in LESSEN) and one:
                made.append((name, t))
            elif any(name.endswith(x) for x in ("or_default", "unwrap_or_default")) and any(LIST.match(x) for x in whose):
                made.append((name, t))
            # the empty list is made by a function which is handed on
            for a in t.get("args") or []:
                g = a.get("fn") if isinstance(a, dict) else None
                if g and (any(norm(g["path"]).endswith(x) for x in EMPTY[:2]) and any(re.match(r"^[\w:]*::Selection$", str(x)) for x in g.get("substs") or [])
                          or norm(g["path"]).endswith("Default::default") and any(LIST.match(str(x)) for x in g.get("substs") or [])):
                    made.append((norm(g["path"]), t))
            if any(name.endswith(x) for x in FILL) and (one or any(LIST.match(x) for x in whose)):
                filled = True
        if made and not filled:
            for name, t in made:
                ctx.violation("selections:empty", "a list of selections is left empty or cut (%s): a client would have a buffer without a selection"
                              % name, "%s %s" % (f["path"], t.get("sp") or ""))


_creates = {}


def creates(m, x, b):
    """the call of a function of the core, not followed on the path, always leaves a buffer of this name"""
    g = next((g for g in m.F.by_path.get(x.name, []) if "B+" in m.kinds.get(g["id"], ()) and "B-" not in m.kinds[g["id"]]), None)
    if g is None:
        return False
    flags = tuple(v for v in (dict(x.args[0].a[3]).values() if x.args and x.args[0].op == "agg" else ()) if v.op in ("true", "false") or v in (TRUE, FALSE))
    key = (g["id"], flags, b)
    if key not in _creates:
        _creates[key] = False
        E = engine(m, keep_inline={h["path"] for h in m.G.local.values() if is_core(m, h) and "B+" in m.kinds[h["id"]]})
        try:
            ps = [p for p in E.run(g, list(x.args)) if p.status == "return"]
        except TooBig:
            ps = []
        _creates[key] = bool(ps) and all(any(mapev(e, m, "B", "insert") and same(e.args[1], b) for e in p.events)
                                         or any(v is True and q.op == "pure" and q.a[0] == "has" and reg(m, strip(q.a[1])) == "B" and same(q.a[2], b)
                                                for q, v in p.facts.items()) for p in ps)
    return _creates[key]


def path(ctx, m, E, f, p, closed):
    op = f.get("name") or f["path"].rsplit("::", 2)[-2] + "/" + f["path"].rsplit("::", 1)[-1]
    evs = p.events
    for i, e in enumerate(evs):
        if structural(e, m, "V"):
            nm = e.name.split("::")[1]
            if nm == "insert":
                ctx.count("views_registered")
                registered_view(ctx, m, E, f, op, p, i, e)
            elif nm == "remove":
                if e.x.get("present") is False:
                    continue
                ctx.count("views_removed")
                removed_view(ctx, m, E, f, op, p, i, e)
            else:
                ctx.violation("views:%s:%s" % (op, nm), "cannot be shown: views change in a way the analysis does not follow", e.where(), trail(p))
        elif structural(e, m, "B"):
            nm = e.name.split("::")[1]
            if nm == "remove":
                if e.x.get("present") is False:
                    continue
                ctx.count("buffers_removed")
                removed_buffer(ctx, m, E, f, op, p, i, e)
            elif nm not in ("insert", "entry"):
                ctx.violation("buffers:%s:%s" % (op, nm), "cannot be shown: buffers are removed in a way the analysis does not follow", e.where(), trail(p))
        elif structural(e, m, "C"):
            nm = e.name.split("::")[1]
            if nm == "insert":
                ctx.count("clients_registered")
                new_client(ctx, m, E, f, op, p, i, e)
            elif nm not in ("remove",):
                ctx.violation("clients:%s:%s" % (op, nm), "cannot be shown: clients change in a way the analysis does not follow", e.where(), trail(p))
        elif e.kind == "store" and is_cview(m, e.args[0]):
            ctx.count("switches")
            if not is_registered(m, E, p, i, e, e.args[1]):
                ctx.violation("client-view:%s" % op, "a client is given a view which is not known to be registered (%s)" % show(e.args[1])[:120],
                              e.where(), trail(p))
        elif e.kind == "call" and e.name == "HashMap::insert" and is_csels(m, e.args[0]):
            moved_selections(ctx, m, E, f, op, p, i, e)


def is_cview(m, t):
    return t.op == "field" and t.a[1] == m.cview and base_of(t).op != "agg"


def is_csels(m, t):
    t = strip(t)
    return t.op == "field" and t.a[1] == m.csels


def client_loops(m, p, lo):
    return [l for l in loops(p, lo) if coll(m, l.over) == "C"]


def in_elem(t, item):
    return any(x is item for x in subterms(t))


def sels_of(m, p, l, item):
    """terms of the selections of the client a loop is at"""
    out = set()
    for e in p.events[l.lo:l.hi + 1]:
        for a in e.args:
            if isinstance(a, T):
                for x in subterms(a):
                    if x.op == "field" and x.a[1] == m.csels and in_elem(x, item):
                        out.add(x)
    for fct in p.facts:
        for x in subterms(fct):
            if x.op == "field" and x.a[1] == m.csels and in_elem(x, item):
                out.add(x)
    return out


def view_term(t):
    """the view inside what is registered"""
    t = strip(t)
    while t.op == "agg" and len(t.a[3]) == 1:
        t = strip(t.a[3][0][1])
    return t


def registered_view(ctx, m, E, f, op, p, i, e):
    k, v = e.args[1], e.args[2]
    w = view_term(v)
    ck = canon(k)
    if not (ck.op == "pure" and ck.a[0] == "key" and ck.a[1] is canon(w)):
        ctx.violation("view-key:%s" % op, "a view is registered under a key which is not its own", e.where(), trail(p))
    view_buffers(ctx, m, E, f, p, i, e, op)
    # every client has selections for every buffer of the view
    done = False
    why = "no run over the connected clients follows"
    # selections put in later replace those given
    j = max([x for x, y in enumerate(p.events) if y.kind == "call" and y.name == "HashMap::insert" and is_csels(m, y.args[0]) and same(y.args[1], k)]
            + [i])
    for l in client_loops(m, p, 0):
        if l.hi < j:
            continue
        if not l.items:
            done = done or empty(E, after(p, l.hi), l.over) is True
            continue
        ok = all(given(m, E, p, l, it, k, w, i) for it in l.items)
        done = done or ok
        why = "a run over the connected clients leaves one without selections for a buffer of the view"
    if not done:
        ctx.violation("view-selections:%s" % op, "a view is registered and the clients are not given selections for it: " + why, e.where(), trail(p))


def given(m, E, p, l, item, k, w, i):
    st = after(p, l.hi)
    for S in sels_of(m, p, l, item):
        if has_canon(E, st, S, k) is not True:
            continue
        maps = []
        for x in p.events[l.lo:l.hi + 1]:
            if x.kind == "call" and x.name == "HashMap::insert" and same(x.args[0], S) and same(x.args[1], k):
                maps.append(x.args[2])
        for q in p.facts:
            for x in subterms(q):
                if x.op == "idx" and same(x.a[0], S) and same(x.a[1], k):
                    maps.append(x)
        for b in loops(p, l.lo, l.hi + 1):
            o = canon(b.over)
            if not (o.op == "pure" and o.a[0] == "buffers" and o.a[1] is canon(w)):
                continue
            if not b.items:
                return True         # a view without buffers
            for M in maps:
                if all(has_canon(E, st, M, x) is True for x in b.items):
                    return True
    return False


def view_buffers(ctx, m, E, f, p, i, e, op=None):
    op = op or f.get("name") or f["path"]
    w = view_term(e.args[2])
    src = strip(w)
    # lenses added to a copy or to an empty view
    for x in p.events[:i]:
        if x.kind == "call" and x.name.startswith("ced::editor::view::") and x.args and same(x.args[0], w):
            for a in x.args[1:]:
                for y in subterms(a):
                    if y.op == "agg" and y.a[1].endswith("::Lens"):
                        b = dict(y.a[3]).get("buffer")
                        if b is not None:
                            need_buffer(ctx, m, E, f, p, i, e, op, b)
    c = canon(w)
    if c.op == "pure" and c.a[0] == "for_buffer":
        need_buffer(ctx, m, E, f, p, i, e, op, c.a[1])
    elif c.op in ("arg", "param", "local", "sym") or c.op == "idx" or c.op == "default" or is_call(c, "Default::default"):
        pass        # given by the caller, or made from a registered view, or filled above
    ctx.count("view_buffers")


def need_buffer(ctx, m, E, f, p, i, e, op, b):
    B = buffers_term(m, p)
    for j in range(i, -1, -1):
        x = p.events[j]
        if j < i and (mapev(x, m, "B", "remove", "clear", "retain", "drain") and x.x.get("present") is not False or x.kind == "call" and may_remove(m, x)):
            break
        if B is not None and has_canon(E, x, B, b) is True or j < i and mapev(x, m, "B", "insert") and same(x.args[1], b):
            return
        if j < i and x.kind == "call" and creates(m, x, b):
            return
    ctx.violation("view-buffer:%s" % op, "a view is registered for a buffer which is not known to exist (%s)" % show(b)[:80], e.where(), trail(p))


def may_remove(m, x):
    return any("B-" in m.kinds.get(g["id"], ()) for g in m.F.by_path.get(x.name, []))


def buffers_term(m, p):
    for q in p.facts:
        for x in subterms(q):
            if x.op == "field" and reg(m, x) == "B":
                return x
    for e in p.events:
        for a in e.args:
            if isinstance(a, T):
                for x in subterms(a):
                    if x.op == "field" and reg(m, x) == "B":
                        return x
    return None


def removed_view(ctx, m, E, f, op, p, i, e):
    k = e.args[1]
    V = e.args[0]
    rest = client_loops(m, p, 0)
    # selections
    ok = False
    for l in rest:
        if not l.items:
            ok = ok or empty(E, after(p, l.hi), l.over) is True
        elif all(any(has_canon(E, after(p, l.hi), S, k) is False for S in sels_of(m, p, l, it)) for it in l.items):
            ok = True
    if not ok:
        ctx.violation("selections-kept:%s" % op, "the selections of a removed view are kept by some client", e.where(), trail(p))
    # clients
    ok = None
    at = None
    for l in rest:
        if l.hi < i:
            continue
        if not l.items:
            if ok is None:
                ok, at = True, l.hi
            continue
        if all(switched(m, p, l, it, k) for it in l.items):
            ok, at = True, l.hi
    if ok is None:
        ctx.violation("clients-left:%s" % op, "a client may still show a view which is removed", e.where(), trail(p))
    else:
        # the run that switches the clients may be another one than the last without clients
        for j in range(i + 1, at):
            if outputs(m, p.events[j]) and any(mapev(x, m, "B", "remove") and x.x.get("present") is not False for x in p.events[i:j]):
                ctx.violation("told-early:%s" % op, "clients are told something while one may still show a view with a removed buffer",
                              p.events[j].where(), trail(p))
    # some view stays
    later = [x for x in p.events[i + 1:] if mapev(x, m, "V", "insert")]
    if not later and not any(empty(E, x, V) is False for x in p.events[i + 1:] + [p]):
        ctx.violation("no-view:%s" % op, "the last view may be removed and none registered", e.where(), trail(p))
    # buffers no view shows are dropped
    w = canon(e.res) if e.res is not None else None
    bl = [l for l in loops(p, i) if canon(l.over).op == "pure" and canon(l.over).a[0] == "buffers" and canon(l.over).a[1] is w]
    if not bl:
        ctx.violation("buffers-kept:%s" % op, "the buffers of a removed view are not looked at", e.where(), trail(p))
    elif not any(all(dropped(m, p, l, it) for it in l.items) for l in bl):
        ctx.violation("buffers-kept:%s" % op, "a buffer which no view shows is kept although its view is removed", e.where(), trail(p))


def dropped(m, p, l, b):
    if any(mapev(x, m, "B", "remove") and same(x.args[1], b) for x in p.events[l.lo:]):
        return True
    cb = canon(b)
    for q, v in p.facts.items():        # some registered view shows it
        if v is True and q.op in ("eq", "pure") and (q.op == "eq" or q.a[0] in ("contains", "contains_buffer", "has")):
            c = canon(q)
            if any(x is cb for x in subterms(c)) and any(x.op == "elem" and coll(m, x.a[0]) == "V" for x in subterms(c)):
                return True
    return False


def switched(m, p, l, item, k):
    for x in p.events[l.lo:l.hi + 1]:
        if x.kind == "store" and is_cview(m, x.args[0]) and in_elem(x.args[0], item):
            return True
    ck = canon(k)
    for q, v in p.facts.items():
        if v is False and q.op in ("eq",) and in_elem(q, item):
            cq = canon(q)
            if any(y.op == "field" and y.a[1] == m.cview for y in subterms(cq)):
                if any(s is ck for s in subterms(cq)) or any(y.op == "idx" and reg(m, y.a[0]) == "V" for y in subterms(cq)):
                    return True
        if v is False and q.op == "pure" and in_elem(q, item) and "ptr_eq" in str(q.a[0]):
            return True
    return False


def removed_buffer(ctx, m, E, f, op, p, i, e):
    b = canon(e.args[1])
    j = max([x for x in range(i) if structural(p.events[x], m, "V")], default=-1)
    for l in loops(p, 0, i):
        if l.lo > j and coll(m, l.over) == "V" and all(lacks(m, p, l, it, b) for it in l.items):
            return
    ctx.violation("buffer-shown:%s" % op, "a buffer is removed although a registered view may show it", e.where(), trail(p))


def lacks(m, p, l, item, b):
    """the view of this round does not show the buffer"""
    for q, v in p.facts.items():
        if v is False and q.op == "pure" and q.a[0] in ("contains", "contains_buffer") and in_elem(q, item):
            if canon(q.a[2]) is b:
                return True
    for r in loops(p, l.lo, l.hi + 1):
        c = canon(r.over)
        if c.op == "pure" and c.a[0] == "buffers" and in_elem(r.over, item):
            if all(any(v is False and q.op == "eq" and any(canon(z) is canon(x) for z in q.a) and any(canon(z) is b for z in q.a)
                       for q, v in p.facts.items()) for x in r.items):
                return True
    return False


def is_registered(m, E, p, i, e, v):
    v0 = v
    while v.op == "clone":
        v = v.a[0]
    # V[k]
    if v.op == "idx" and reg(m, v.a[0]) == "V":
        return has_canon(E, e, strip_at(v.a[0]), v.a[1]) is True or index_ok(m, p, i, v)
    if v.op == "vf":
        g = v.a[0]
        vers = 0
        if g.op == "pure" and g.a[0] == "latest_value":
            t = g.a[1]
            if t.op == "at":
                vers, t = t.a[1], t.a[0]
            return reg(m, t) == "V" and vers == E.version(e, t)
        if g.op in ("mapget", "get"):
            return True
    # registered on this path
    for x in p.events[:i]:
        if mapev(x, m, "V", "insert") and len(x.args) > 2 and canon(x.args[2]) is canon(v0) and canon(v0).op not in ("pure",):
            return True
    # the view of a client of the register
    c = canon(v)
    if c.op == "field" and c.a[1] == m.cview:
        return True
    return False


def index_ok(m, p, i, v):
    """the register was indexed by this key after its last removal: it would have stopped otherwise"""
    for j in range(i - 1, -1, -1):
        x = p.events[j]
        if mapev(x, m, "V", "remove"):
            return False
        if x.kind == "index" and reg(m, x.args[0]) == "V" and same(x.args[1], v.a[1]):
            return True
    return False


def new_client(ctx, m, E, f, op, p, i, e):
    v = e.args[2]
    c = canon(v)
    if c.op == "idx" and reg(m, c.a[0]) == "C":
        return                      # a copy of a connected client
    if v.op != "agg" or v.a[1] != m.ctx:
        ctx.violation("client-new:%s" % op, "cannot be shown: a client starts as something else than a copy of another one or a new state", e.where(), trail(p))
        return
    d = dict(v.a[3])
    if not is_registered(m, E, p, i, e, d[m.cview]):
        ctx.violation("client-new-view:%s" % op, "a new client starts on a view which is not known to be registered", e.where(), trail(p))
    M = d[m.csels]
    if canon(M).op == "field" and canon(M).a[1] == m.csels:
        return
    for l in loops(p, 0, i):
        if coll(m, l.over) != "V":
            continue
        if not l.items:
            return
        ok = True
        for it in l.items:
            ins = [x for x in p.events[l.lo:l.hi] if x.kind == "call" and x.name == "HashMap::insert" and same(x.args[0], M)
                   and in_elem(x.args[1], it)]
            if not ins:
                ok = False
                continue
            inner = ins[-1].args[2]
            bl = [b for b in loops(p, l.lo, l.hi + 1) if canon(b.over).op == "pure" and canon(b.over).a[0] == "buffers" and in_elem(b.over, it)]
            if not any(all(has_canon(E, after(p, b.hi), inner, x) is True for x in b.items) for b in bl):
                ok = False
        if ok:
            return
    ctx.violation("client-new-selections:%s" % op, "a new client lacks selections for a buffer of a registered view", e.where(), trail(p))


def moved_selections(ctx, m, E, f, op, p, i, e):
    """selections moved from one view to another only keep the buffers of the new one"""
    val = e.args[2]
    c = canon(val)
    if not (c.op == "idx" and is_csels(m, c.a[0])):
        return
    if canon(e.args[1]) is canon(c.a[1]) and e.args[1] is val.a[1] if val.op == "idx" else False:
        return
    ctx.count("selections_moved")
    for x in p.events[:i]:
        if x.kind == "call" and x.name == "HashMap::retain" and same(x.args[0], val):
            if keeps_only(m, E, p, x, e.args[1]):
                return
    ctx.violation("selections-foreign:%s" % op, "selections of buffers the new view does not show are kept for it", e.where(), trail(p))


def keeps_only(m, E, p, x, key):
    """the filter accepts a buffer only if the view of the key shows it"""
    k = mk("sym", "kept buffer")
    fn = x.args[1]
    if fn.op != "agg" or fn.a[0] != "closure" or not (key.op == "pure" and key.a[0] == "key"):
        return False
    w = key.a[1]
    try:
        ps = engine(m).run_value(fn, [k, mk("sym", "kept selections")])
    except TooBig:
        return False
    good = 0
    for q in ps:
        if q.status != "return" or q.ret is FALSE:
            continue
        if is_contains(E, x, q.ret, w, k) or q.ret is TRUE and any(v is True and is_contains(E, x, z, w, k) for z, v in q.facts.items()):
            good += 1
            continue
        return False
    return good > 0


def is_contains(E, x, t, w, k):
    if not (isinstance(t, T) and t.op == "pure" and t.a[0] in ("contains", "contains_buffer") and any(y is k for y in subterms(t))):
        return False
    for y in subterms(t):
        if y is w:
            return True
        if w.op == "at" and y is w.a[0] and E.version(x, y) == w.a[1] or w.op != "at" and y is w:
            return True
    return False
