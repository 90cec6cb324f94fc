"""What the client library makes of each line of the server.  The notifications the server can send are collected by
interpreting the functions that send them (method name and type encoded); the function applied to every received event
is interpreted on every path: the method it compares equal decides the type decoded, which must be the type the server
encodes for it, the event reported and the fields of the client's state that are set, to the decoded parameters and to
nothing else.  Whatever cannot be decoded sets nothing."""
from coremodel import *

# method -> (event, stores: state field -> value from the decoded parameters)
D = lambda d: d
SPEC = {
    "echo": ("Echo", {"echo": lambda d: some(d)}, lambda d: [d]),
    "hint": ("Hint", {}, lambda d: [d]),
    "info": ("Info", {"client": lambda d: absint.field(d, "client"), "session": lambda d: absint.field(d, "session")},
             lambda d: [absint.field(d, "client"), absint.field(d, "session")]),
    "menu": ("Menu", {"menu": None, "echo": lambda d: NONE}, None),
    "status": ("Status", {"status": D}, lambda d: [d]),
    "view": ("View", {"view": D}, lambda d: [d]),
}


def some(d):
    return ("Some", d)


def short(t):
    return re.sub(r"\b(?:\w+::)+", "", t).replace(", Global", "")


def check(ctx):
    F = ctx.F
    m = model(ctx)
    if m is None:
        return
    sent = server_side(ctx, m)
    roots = [f for f in F.real() if f["kind"] == "Closure" and "Result<ced_remote::jsonrpc::ClientEvent" in " ".join(l[0] for l in f["locals"][1:f["args"] + 1])
             and f["locals"][0][0].endswith("ConnectionEvent")]
    if not roots:
        roots = [f for f in F.real() if "ClientEvent" in " ".join(l[0] for l in f["locals"][1:f["args"] + 1]) and f["locals"][0][0].endswith("connection::ConnectionEvent")]
    if not ctx.need(roots, "client", "the client library turns received messages into events"):
        return
    got = {}
    for f in roots:
        E = Engine(F, iters=1, stores=True, keep_elems=True)
        ps = [p for p in E.run(f) if p.status == "return"]
        ctx.saw(*E.fns_seen)
        for p in ps:
            ctx.count("event_paths")
            path(ctx, f, p, sent, got)
    for meth, ty in sorted(sent.items()):
        if meth not in got:
            ctx.violation("ignored:" + meth, "the client library never reports the notification %s" % meth)
        ctx.count("methods")
    state(ctx, F)


def server_side(ctx, m):
    """method -> type of the parameters, as sent"""
    F = ctx.F
    out = {}
    makers = set()
    for f in m.G.local.values():
        for b in f["blocks"]:
            t = b["t"]
            c = graph.callee(t) if t["t"] == "call" else None
            if c and re.search(r"\bNotification::new(_noarg)?$", norm(c.get("path") or "")):
                makers.add(f["id"])
    for i in sorted(makers):
        f = m.G.local[i]
        if "::protocol::" in f["path"]:
            continue
        E = Engine(F, iters=1, rounds=lambda c: 1, opaque=lambda path: path.startswith("ced::") and "Notif" not in path)
        ctx.saw(f["path"])
        for p in E.run(f):
            enc = {}
            for e in p.events:
                if e.kind == "call" and e.name.endswith("serde_json::to_value") and e.res is not None:
                    enc[canon(e.res)] = resolved(F, (e.x.get("fn") or {}).get("substs", ["?"])[0])
            for x in {x for e in p.events for y in e.args if isinstance(y, T) for x in subterms(y)} | (set(subterms(p.ret)) if isinstance(p.ret, T) else set()):
                if x.op == "agg" and x.a[1].endswith("jsonrpc::Notification"):
                    d = dict(x.a[3])
                    if d["method"].op != "str":
                        continue
                    tys = {enc[y] for y in map(canon, subterms(d["params"])) if y in enc}
                    meth = d["method"].a[0]
                    for t in tys:
                        ctx.count("notifications_sent")
                        if out.setdefault(meth, t) != t:
                            ctx.violation("sent:" + meth, "%s is sent with parameters of two types" % meth, f["path"])
    ctx.need(len(out) >= 6, "sent", "the server sends six notifications (%s found)" % sorted(out))
    return out


def resolved(F, ty):
    """types of traits' associated items, by their implementation"""
    for _ in range(4):
        g = re.match(r"^<(.+) as ([\w:]+)>::(\w+)$", ty)
        if not g:
            return ty
        for im in F.impls:
            if im.get("trait") and im["self"] == g.group(1) and (im["trait"] == g.group(2) or im["trait"].split("::")[-1] == g.group(2).split("::")[-1]):
                for it in im["items"]:
                    if it["name"] == g.group(3) and "type" in it:
                        ty = it["type"]
    return ty


def method_eq(p):
    """the method of the notification on this path"""
    for q, v in p.facts.items():
        if v is True and q.op == "eq":
            s = [x.a[0] for x in q.a if x.op == "str"]
            o = [x for x in q.a if x.op != "str"]
            if s and o and any(y.op == "field" and y.a[1] == "method" for y in subterms(o[0])):
                return s[0]
    return None


def path(ctx, f, p, sent, got):
    meth = method_eq(p)
    ev = variant_of(p.ret)[0]
    arg = None
    st = [e for e in p.events if e.kind == "store" and state_field(e.args[0])]
    dec = [e for e in p.events if e.kind == "call" and e.name.endswith("serde_json::from_value")]
    good = None
    for e in dec:
        d = canon(e.res)
        ok = any(v == "Ok" and q.op == "variant" and canon(q.a[0]) is d for q, v in p.facts.items())
        so = any(v == "Some" and q.op == "variant" and canon(q.a[0]) is canon(mk("vf", e.res, "Ok", "0")) for q, v in p.facts.items())
        if ok and so:
            good = e
    if meth is None or good is None:
        if st:
            ctx.violation("undecoded:%s" % (meth or "other"), "a message which is not a decoded notification changes the client's state (%s)"
                          % state_field(st[0].args[0]), st[0].where(), trail(p))
        isok = all(not (q.op == "variant" and v == "Err" and base_of(q).op == "arg") for q, v in p.facts.items())
        err = any(q.op == "variant" and v == "Err" and q.a[0].op == "arg" for q, v in p.facts.items())
        if err and ev != "ConnErr":
            ctx.violation("connerr", "a connection error is not reported as such", f["path"], trail(p))
        if not err and ev not in ("Noop", "None"):
            ctx.violation("phantom:%s" % (meth or "other"), "the event %s is reported for a message without decoded parameters" % ev, f["path"], trail(p))
        return
    if meth not in SPEC:
        if st or ev != "Noop":
            ctx.violation("method:" + meth, "the notification %s is not part of the vocabulary" % meth, good.where())
        return
    name, stores, payload = SPEC[meth]
    ty = (good.x.get("fn") or {}).get("substs", ["?"])[0]
    want = sent.get(meth)
    inner = re.sub(r"^core::option::Option<(.*)>$", r"\1", ty)
    if want is not None and inner != want:
        ctx.violation("type:" + meth, "%s is decoded as %s but encoded as %s" % (meth, short(inner), short(want)), good.where())
    if not any(x.op == "field" and x.a[1] == "params" for x in subterms(good.args[0])):
        ctx.violation("params:" + meth, "%s decodes something else than the parameters" % meth, good.where())
    d = canon(mk("vf", mk("vf", good.res, "Ok", "0"), "Some", "0"))
    if ev != name:
        ctx.violation("event:" + meth, "%s is reported as %s, not %s" % (meth, ev, name), f["path"], trail(p))
        return
    got[meth] = True
    last = {}
    for e in st:
        last[state_field(e.args[0])] = (e, e.args[1])
    for k in last:
        if k not in stores:
            ctx.violation("state:%s:%s" % (meth, k), "%s sets %s of the client's state" % (meth, k), last[k][0].where(), trail(p))
    for k, fn in stores.items():
        if k not in last:
            ctx.violation("state:%s:%s" % (meth, k), "%s does not set %s of the client's state" % (meth, k), good.where(), trail(p))
            continue
        v = last[k][1]
        if fn is None:
            menu(ctx, meth, d, v, last[k][0], p)
        elif not equal(v, fn(d)):
            ctx.violation("state:%s:%s" % (meth, k), "%s sets %s to %s, not to what was received" % (meth, k, show(v)[:80]), last[k][0].where(), trail(p))
    if name == "Menu":
        v = list(variant_of(p.ret)[1].values())[0]
        if not (resolves(v, last, "menu") or v.op == "agg"):
            ctx.violation("payload:menu", "the menu reported is not the one received", f["path"], trail(p))
        elif v.op == "agg":
            menu(ctx, meth, d, ("Some", v), good, p)
        return
    vs = [x for _, x in sorted(variant_of(p.ret)[1].items())]
    ws = payload(d)
    for i, (v, w) in enumerate(zip(vs, ws)):
        c = canon(v)
        if c is canon(w):
            continue
        if c.op == "field" and c.a[1] in last and equal(last[c.a[1]][1], w):
            continue
        ctx.violation("payload:%s" % meth, "the event of %s does not carry what was received (%s)" % (meth, show(v)[:80]), f["path"], trail(p))


def equal(v, w):
    if isinstance(w, tuple):
        vn, fs = variant_of(v)
        return vn == w[0] and equal(list(fs.values())[0], w[1])
    if w is NONE:
        return v is NONE or variant_of(v)[0] == "None"
    return canon(v) is canon(w)


def resolves(v, last, k):
    c = canon(v)
    while c.op == "vf":
        c = c.a[0]
    return c.op == "field" and c.a[1] == k and k in last


def menu(ctx, meth, d, v, e, p):
    if isinstance(v, tuple):
        w = v[1]
    else:
        vn, fs = variant_of(v)
        w = list(fs.values())[0] if vn == "Some" else None
    if w is None or w.op != "agg" or not w.a[1].endswith("connection::Menu"):
        ctx.violation("state:menu:menu", "menu does not open the menu received (%s)" % show(v)[:80], e.where(), trail(p))
        return
    for n, x in w.a[3]:
        if n == "selected":
            if show(x) != "0" and not (x.op == "field" and is_call(x.a[0], "Default::default")):
                ctx.violation("menu:selected", "a new menu does not have its first entry selected (%s)" % show(x)[:100], e.where(), trail(p))
        elif not same(x, absint.field(d, n)):
            ctx.violation("menu:" + n, "the %s of a menu is not what was received" % n, e.where(), trail(p))


def state_field(t):
    """name of the field of the client's state a store goes to"""
    if t.op == "field" and t.a[1] in ("client", "session", "echo", "status", "view", "menu") and base_of(t).op != "agg":
        return t.a[1]
    c = t
    while c.op in ("field", "vf", "at"):
        n = c.a[1] if c.op == "field" else None
        if n in ("client", "session", "echo", "status", "view", "menu") and base_of(c).op != "agg":
            return n
        c = c.a[0]
    return None


def state(ctx, F):
    """what the state shows is what is kept: it is given out as a copy of the one updated"""
    for f in F.real():
        if f["kind"] == "AssocFn" and (f.get("impl_self") or "").endswith("connection::Connection") and f["locals"][0][0].endswith("ConnectionState"):
            for p in Engine(F, iters=1).run(f):
                if p.status == "return":
                    ctx.count("state_reads")
                    c = canon(p.ret)
                    if not any(x.op == "arg" for x in subterms(c)) or c.op not in ("field", "vf", "call", "pure"):
                        ctx.violation("state-read", "the state given out is not the one kept", f["path"], trail(p))
