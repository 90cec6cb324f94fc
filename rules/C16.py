"""What the view operations do to the views clients show, on every path of each.  edit and view leave the client that
asked on the view they name; view-add and view-remove change a copy of the view the client shows by exactly one buffer,
register it and delete the old one, and do nothing for a buffer that does not exist; view-delete deletes the view the
client shows.  The view of another client is only set where it is known to show the view that is deleted.  The
functions of views they use are interpreted themselves."""
from coremodel import *
import C04

OPS = {k: v[0] for k, v in C04.OPS.items() if v[0]}


def check(ctx):
    m = model(ctx)
    if m is None:
        return
    views(ctx, m)
    fs = {f["name"]: f for f in m.G.local.values() if is_core(m, f) and f["kind"] == "AssocFn" and not f.get("trait")}
    for meth in ("edit", "view", "view-add", "view-remove", "view-delete"):
        f = fs.get(OPS[meth])
        if not ctx.need(f, "operation:" + meth, "the core has an operation for %s" % meth):
            continue
        E = engine(m, keep_inline={f["path"]}, rounds=lambda c: 1, maxpaths=20000)
        ps = [p for p in E.run(f) if p.status == "return"]
        ctx.saw(*E.fns_seen)
        me = [mk("arg", f["locals"][i + 1][1], f["id"], i) for i in range(f["args"])]
        n = {}
        for p in ps:
            v = variant_of(p.ret)[0] if isinstance(p.ret, T) and p.ret.op == "agg" else "Ok"
            n[v] = n.get(v, 0) + 1
            ctx.count("paths")
            others(ctx, m, E, f, p, me[1], meth)
            {"edit": shows, "view": shows, "view-add": changes, "view-remove": changes, "view-delete": deletes}[meth](ctx, m, E, f, p, me, meth, v)
        ctx.need(n.get("Ok"), "ok:" + meth, "%s can succeed" % meth)
        if meth != "view-delete":
            ctx.need(n.get("Err"), "err:" + meth, "%s can fail" % meth)
        ctx.count("operations")
    # the same for whatever else sets the view of a client
    for f in entries(m):
        if f.get("name") in set(OPS.values()) or not (m.kinds[f["id"]] & {"W"}):
            continue
        E = engine(m, keep_inline={f["path"]}, rounds=lambda c: 1, maxpaths=20000)
        for p in E.run(f):
            if p.status == "return":
                ctx.count("paths")
                others(ctx, m, E, f, p, None, f.get("name") or "script")
        ctx.count("operations")


def stores(m, p):
    return [(i, e) for i, e in enumerate(p.events) if e.kind == "store" and is_cview(m, e.args[0])]


def is_cview(m, t):
    return t.op == "field" and t.a[1] == m.cview and base_of(t).op != "agg"


def of_client(m, t, client):
    """the state of this client"""
    c = canon(t)
    return c.op == "field" and c.a[1] == m.cview and c.a[0].op == "idx" and reg(m, c.a[0].a[0]) == "C" and client is not None and same(c.a[0].a[1], client)


def key_of(v):
    return v.a[1] if v.op == "pure" and v.a[0] == "key" else None


def others(ctx, m, E, f, p, client, meth):
    """views of other clients are set only where they show a view that was removed"""
    for i, e in stores(m, p):
        if client is not None and of_client(m, e.args[0], client):
            continue
        c = canon(e.args[0])
        if client is None and c.a[0].op == "idx" and reg(m, c.a[0].a[0]) == "C" and not any(x.op == "elem" for x in subterms(c.a[0].a[1])):
            continue        # a script names the client
        gone = [canon(x.args[1]) for x in p.events if mapev(x, m, "V", "remove")]
        ok = False
        for q, v in e.facts.items():
            if v is not True or q.op != "eq":
                continue
            cq = canon(q)
            for a, b in ((cq.a[0], cq.a[1]), (cq.a[1], cq.a[0])):
                if key_of(a) is c and b in gone:
                    ok = True
            if any(x is c for x in subterms(cq)) and any(g in (key_of(z) for z in cq.a) for g in gone):
                ok = True
        for q, v in e.facts.items():
            if v is True and q.op == "pure" and "ptr_eq" in str(q.a[0]) and any(x is c for x in subterms(canon(q))):
                ok = True
        ctx.count("switches")
        if not ok:
            ctx.violation("other:%s" % meth, "%s sets the view of a client which is not known to show the removed view" % meth, e.where(), trail(p))


def last_view(m, p, client):
    s = [(i, e) for i, e in stores(m, p) if of_client(m, e.args[0], client)]
    return s[-1] if s else None


def quiet(ctx, m, p, meth):
    """a refused operation changes nothing"""
    for e in p.events:
        if structural(e, m, "V") or structural(e, m, "C") or structural(e, m, "B") and e.name.split("::")[1] != "entry" \
                or e.kind == "store" and is_cview(m, e.args[0]):
            if e.x.get("present") is False:
                continue
            ctx.violation("refused:%s" % meth, "%s is refused but changes something" % meth, e.where(), trail(p))


def registered_at(m, p, i, v, want):
    """the view is the one registered under a key which satisfies want"""
    c = canon(v)
    if c.op == "idx" and reg(m, c.a[0]) == "V" and want(c.a[1]):
        return True
    if c.op == "vf":
        g = c.a[0]
        if g.op in ("mapget", "get") and len(g.a) > 1 and reg(m, g.a[0]) == "V" and want(canon(g.a[1])):
            return True
    for x in p.events[:i]:
        if mapev(x, m, "V", "insert") and canon(x.args[2]) is c and want(canon(x.args[1])):
            return True
    return False


def whole_of(k, b):
    """key of the view of the whole buffer"""
    k = canon(k)
    w = key_of(k)
    return w is not None and w.op == "pure" and w.a[0] == "for_buffer" and w.a[1] is canon(b)


def shows(ctx, m, E, f, p, me, meth, v):
    client, name = me[1], me[2]
    if v == "Err":
        return quiet(ctx, m, p, meth)
    s = last_view(m, p, client)
    if s is None:
        ctx.violation("not-shown:%s" % meth, "%s succeeds and leaves the client on the view it showed" % meth, f["path"], trail(p))
        return
    i, e = s
    ctx.count("shown")
    V = next((x for q in p.facts for x in subterms(q) if x.op == "field" and reg(m, x) == "V"), None)
    if meth == "view":
        known = known_view(m, p, name)
        if known is True:
            ok = registered_at(m, p, i, e.args[1], lambda k: k is canon(name))
        elif known is False:
            ok = registered_at(m, p, i, e.args[1], lambda k: whole_of(k, name))
        else:
            ok = False
    else:
        ok = registered_at(m, p, i, e.args[1], lambda k: whole_of(k, name))
    if not ok:
        ctx.violation("shown:%s" % meth, "%s leaves the client on %s, not on what it named" % (meth, show(e.args[1])[:100]), e.where(), trail(p))


def known_view(m, p, name):
    r = None
    for q, v in p.facts.items():
        if q.op == "pure" and q.a[0] == "has" and reg(m, q.a[1]) == "V" and same(q.a[2], name) and (q.a[1].op != "at"):
            r = v
    return r


def current_key(m, t, client):
    c = canon(t)
    w = key_of(c)
    return w is not None and w.op == "field" and of_client(m, w, client) or w is not None and w.op == "idx" and reg(m, w.a[0]) == "V" and current_key(m, w.a[1], client)


def deletes(ctx, m, E, f, p, me, meth, v):
    rm = [e for e in p.events if mapev(e, m, "V", "remove") and e.x.get("present") is not False]
    if v == "Err":
        return quiet(ctx, m, p, meth)
    ctx.count("deleted")
    if not rm:
        ctx.violation("deleted:%s" % meth, "%s leaves the view the client shows" % meth, f["path"], trail(p))
    for e in rm:
        if not current_key(m, e.args[1], me[1]):
            ctx.violation("deleted:%s" % meth, "%s deletes a view which is not the one the client shows" % meth, e.where(), trail(p))


def has_buffer(m, p, b, evs=None):
    r = None
    for q, v in p.facts.items():
        if q.op == "pure" and q.a[0] == "has" and reg(m, q.a[1]) == "B" and same(q.a[2], b):
            r = v if r is None or q.a[1].op != "at" else r
    return r


def changes(ctx, m, E, f, p, me, meth, v):
    client, b = me[1], me[2]
    if v == "Err":
        if has_buffer(m, p, b) is not False:
            ctx.violation("refused-why:%s" % meth, "%s can be refused although the buffer exists" % meth, f["path"], trail(p))
        return quiet(ctx, m, p, meth)
    if has_buffer(m, p, b) is not True:
        ctx.violation("unknown-buffer:%s" % meth, "%s accepts a buffer which is not known to exist" % meth, f["path"], trail(p))
    edits = []
    for i, e in enumerate(p.events):
        g = next((g for g in m.F.by_path.get(e.name, [])), None) if e.kind == "call" else None
        if g and g.get("impl_self") == m.view_ty and g["args"] and "&mut" in g["locals"][1][0]:
            edits.append((i, e, g))
    if meth == "view-remove" and not edits:
        # nothing to remove
        if not any(v2 is False and q.op == "pure" and q.a[0] == "contains_buffer" and same(q.a[2], b) for q, v2 in p.facts.items()):
            ctx.violation("changed:%s" % meth, "%s leaves the view as it is although it may show the buffer" % meth, f["path"], trail(p))
        if any(mapev(e, m, "V", "insert", "remove") for e in p.events) and not unchanged_key(m, p):
            pass
        return
    if len(edits) != 1:
        ctx.violation("changed:%s" % meth, "%s changes the view of the client %d times" % (meth, len(edits)), f["path"], trail(p))
        return
    i, e, g = edits[0]
    ctx.count("changed")
    w = canon(e.args[0])
    if not (of_client(m, w, client) or w.op == "idx" and reg(m, w.a[0]) == "V" and current_key(m, w.a[1], client)):
        ctx.violation("changed-view:%s" % meth, "%s changes a view which is not the one the client shows" % meth, e.where(), trail(p))
        return
    if e.args[0].op != "clone" and strip_at(e.args[0]).op != "clone":
        ctx.violation("changed-place:%s" % meth, "%s changes a registered view in place" % meth, e.where(), trail(p))
    what = [x for x in e.args[1:]]
    if meth == "view-add":
        ok = any(y.op == "agg" and y.a[1].endswith("::Lens") and same(dict(y.a[3])["buffer"], b) and variant_of(dict(y.a[3])["focus"])[0] == "Whole"
                 for x in what for y in subterms(x)) and adds(m, g)
    else:
        ok = any(same(x, b) for x in what) and removes(m, g)
    if not ok:
        ctx.violation("changed-by:%s" % meth, "%s changes the view in another way (%s)" % (meth, show(e.args[1] if len(e.args) > 1 else e.args[0])[:100]), e.where(), trail(p))
    new = canon(mk("pure", "key", e.args[0]))

    def mine(k):        # key of the changed copy: it is versioned after the change
        return canon(k) is new and any(x.op == "at" for x in subterms(k))
    ins = [x for x in p.events[i:] if mapev(x, m, "V", "insert") and mine(x.args[1]) and same(x.args[2].a[3][0][1] if x.args[2].op == "agg" else x.args[2], e.args[0])
           or mapev(x, m, "V", "insert") and mine(x.args[1]) and view_in(x.args[2], e.args[0])]
    rm = [x for x in p.events[i:] if mapev(x, m, "V", "remove") and x.x.get("present") is not False]
    eqk = any(v2 is True and q.op == "eq" and all(key_of(canon(z)) is w for z in q.a) for q, v2 in p.facts.items())
    none = any(v2 is True and q.op == "pure" and q.a[0] in ("is_empty",) and canon(q.a[1]) is w for q, v2 in p.facts.items())
    if eqk:
        return
    if not any(current_key(m, x.args[1], client) or is_old(x.args[1], w) for x in rm):
        ctx.violation("old-view:%s" % meth, "%s leaves the old view of the client" % meth, e.where(), trail(p))
    if not ins and not none:
        ctx.violation("new-view:%s" % meth, "%s does not register the changed view" % meth, e.where(), trail(p))
    if ins and none:
        ctx.violation("empty-view:%s" % meth, "%s registers a view that shows nothing" % meth, e.where(), trail(p))


def view_in(t, v):
    return any(canon(x) is canon(v) for x in subterms(t))


def is_old(k, w):
    """key of the copy before it was changed"""
    return key_of(canon(k)) is w and not any(x.op == "at" and canon(x) is w for x in subterms(k))


def unchanged_key(m, p):
    return True


# ------------------------------------------------------------------ functions of views
def vfn(m, name):
    return next((f for f in m.G.local.values() if f.get("impl_self") == m.view_ty and f["kind"] == "AssocFn" and not f.get("trait") and f.get("name") == name), None)


def run(m, f, **kw):
    return Engine(m.F, iters=1, stores=True, keep_elems=True, **kw).run(f)


def added(p, lens=None):
    """(buffer, lens) put into the view"""
    out = []
    for e in p.events:
        if e.kind != "call":
            continue
        if re.search(r"(^|::)Vec::(push|insert)$", e.name):
            ks = [x.a[1] for x in subterms(e.args[0]) if x.op == "idx"]
            if ks:
                out.append((ks[0], e.args[-1]))
        elif e.name == "HashMap::insert" and len(e.args) > 2 and not e.x.get("ensure"):
            out += [(e.args[1], x) for x in subterms(e.args[2]) if x.op == "agg" and x.a[1].endswith("::Lens") or lens is not None and canon(x) is canon(lens)]
    return out


def adds(m, g):
    """adds exactly the lens it is given to the lenses of its buffer, in every case"""
    me, lens = [mk("arg", g["locals"][i + 1][1], g["id"], i) for i in (0, 1)]
    good = 0
    for p in run(m, g):
        if p.status != "return":
            continue
        ad = added(p, lens)
        if len(ad) != 1 or not same(ad[0][1], lens) or ad[0][0] is None or not same(ad[0][0], absint.field(lens, "buffer")):
            return False
        for e in p.events:
            if e.kind == "call" and e.name.startswith("HashMap::") and e.name.split("::")[1] in MUT:
                if e.name != "HashMap::insert" or not same(e.args[1], absint.field(lens, "buffer")):
                    return False
                if not any(v is False and q.op == "pure" and q.a[0] == "has" and same(q.a[2], e.args[1]) for q, v in p.facts.items()):
                    return False
            if e.kind == "call" and re.search(r"(^|::)Vec::(clear|remove|pop|truncate|retain|drain|dedup\w*|swap_remove)$", e.name):
                return False
        good += 1
    return good > 0


def removes(m, g):
    me, b = [mk("arg", g["locals"][i + 1][1], g["id"], i) for i in (0, 1)]
    ps = [p for p in run(m, g) if p.status == "return"]
    for p in ps:
        ch = [e for e in p.events if e.kind == "call" and e.name.startswith("HashMap::") and e.name.split("::")[1] in MUT]
        if [e.name for e in ch] != ["HashMap::remove"] or not same(ch[0].args[1], b):
            return False
    return bool(ps)


def views(ctx, m):
    # a view of the whole buffer
    f = vfn(m, "for_buffer")
    if ctx.need(f, "for_buffer", "views of whole buffers are made by a function of views"):
        b = mk("arg", f["locals"][1][1], f["id"], 0)
        for p in run(m, f):
            if p.status != "return":
                continue
            ctx.count("view_functions")
            ad = added(p)
            ok = len(ad) == 1 and ad[0][0] is not None and same(ad[0][0], b) and ad[0][1].op == "agg" \
                and same(dict(ad[0][1].a[3]).get("buffer", TRUE), b) and variant_of(dict(ad[0][1].a[3])["focus"])[0] == "Whole"
            ok = ok and not any(e.kind == "call" and e.name.startswith("HashMap::") and e.name.split("::")[1] in MUT and not same(e.args[1], b) for e in p.events)
            if not ok:
                ctx.violation("for_buffer", "the view made for a buffer is not the view of just this whole buffer", f["path"], trail(p))
    # contains_buffer, is_empty
    for name, want in (("contains_buffer", ("has", "contains")), ("is_empty", ("is_empty",))):
        f = vfn(m, name)
        if f is None:
            continue
        args = [mk("arg", f["locals"][i + 1][1], f["id"], i) for i in range(f["args"])]
        for p in run(m, f):
            if p.status != "return":
                continue
            ctx.count("view_functions")
            r = p.ret
            val = None
            if r in (TRUE, FALSE):
                fs = [(q, v) for q, v in p.facts.items() if asks(q, want, args)]
                ok = bool(fs) and all(v is (r is TRUE) for q, v in fs) or name == "contains_buffer" and searched(p, r is TRUE, args)
            else:
                ok = asks(r, want, args)
            if not ok:
                ctx.violation(name, "the answer of %s does not follow from the buffers of the view" % name, f["path"], trail(p))
    # buffers
    f = vfn(m, "buffers")
    if f is not None:
        me = mk("arg", f["locals"][1][1], f["id"], 0)
        for p in run(m, f):
            if p.status == "return":
                ctx.count("view_functions")
                c = canon(p.ret)
                if not (c.op == "keys" and base_of(c.a[0]) is canon(me)):
                    els = [e for e in p.events if e.kind == "iter"]
                    done = [e for e in p.events if e.kind == "exhausted"]
                    pushed = [canon(e.args[-1]) for e in p.events if e.kind == "call" and e.name.endswith("Vec::push")]
                    if not (done and len(pushed) == len(els) and all(any(y.op == "elem" and base_of(y.a[0]) is canon(me) for y in subterms(x)) for x in pushed)):
                        ctx.violation("buffers", "the list of buffers of a view is not the list of all of its buffers", f["path"], trail(p))
    key(ctx, m)


def searched(p, found, args):
    """a run over the buffers of the view compares each with the one asked for"""
    eqs = {}
    for q, v in p.facts.items():
        if q.op == "eq" and any(same(z, args[1]) for z in q.a):
            for z in q.a:
                if any(y.op == "elem" and any(w is canon(args[0]) for w in subterms(canon(y))) for y in subterms(z)):
                    eqs[canon(z)] = v
    if found:
        return True in eqs.values()
    its = [e for e in p.events if e.kind == "iter"]
    return any(e.kind == "exhausted" for e in p.events) and len(eqs) >= len(its) and not any(eqs.values()) \
        or not its and any(v is True and q.op == "pure" and q.a[0] == "is_empty" for q, v in p.facts.items())


def entire(t):
    """a run over a whole collection"""
    while t.op in ("field", "vf", "at", "clone", "keys", "values", "ref"):
        t = t.a[0]
    return t.op in ("arg", "elem", "idx", "sym")


def asks(t, want, args):
    if not (isinstance(t, T) and t.op == "pure" and t.a[0] in want):
        return False
    if base_of(canon(t.a[1])) is not canon(args[0]) and not any(x is canon(args[0]) for x in subterms(canon(t.a[1]))):
        return False
    return len(args) == 1 or same(t.a[2], args[1])


def key(ctx, m):
    """the key names every buffer of the view and every part of it shown"""
    f = vfn(m, "key")
    if not ctx.need(f, "key", "views have keys"):
        return
    for p in Engine(m.F, iters=3, keep_elems=True, rounds=lambda c: 2).run(f):
        if p.status != "return":
            continue
        ctx.count("view_functions")
        its = [e for e in p.events if e.kind == "iter"]
        subs = set(subterms(p.ret))
        miss = []
        for e in its:
            el = e.args[1]
            if not any(y is el for x in subs for y in subterms(x)):
                miss.append(el)
        over = [canon(e.args[0]) for e in p.events if e.kind == "exhausted" and entire(e.args[0])]
        for el in [None] + [e.args[1] for e in its]:
            if el is None and not any(not any(y.op == "elem" for y in subterms(o)) for o in over):
                miss.append(el)
            if el is not None and not any(y.op == "elem" for y in subterms(el.a[0])) and not any(any(y is canon(el) for y in subterms(o)) for o in over):
                miss.append(el)
        if miss:
            ctx.violation("key", "the key of a view does not name everything it shows", f["path"], trail(p))
