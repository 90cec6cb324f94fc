"""Every function of the client library that sends requests, on every path: one request is sent for one call, numbered
with a counter which is changed by nothing else and grows before the function returns; its method is one the server
serves, the parameters are encoded from the type the server decodes for the method and carry the arguments of the call.
menu-select is built from the menu that is open, and closes it; without an open menu nothing is sent."""
from coremodel import *
from C05 import resolved, short

PARAMS = {"edit": ("name", "scratch"), "menu": ("command", "search"), "menu-select": ("command", "choice")}
PLAIN = {"exec": "String", "view": "String", "view-add": "String", "view-remove": "String", "keys": "KeyEvent"}
NONE_ = ("quit", "view-delete")


def check(ctx):
    F = ctx.F
    served = server(ctx)
    conn = next((a for a in F.adts.values() if a["path"].endswith("connection::Connection") and a["path"].startswith("ced_remote")), None)
    if not ctx.need(conn, "connection", "the client library has a connection"):
        return
    fs = [f for f in F.real() if f.get("impl_self") == conn["path"] and f["kind"] == "AssocFn" and not f.get("trait") and f["args"] > 0
          and "Restricted" not in str(f.get("vis"))]
    seen = set()
    counters = set()
    for f in fs:
        E = Engine(F, iters=1, stores=True, keep_elems=True)
        ps = [p for p in E.run(f) if p.status == "return"]
        snd = [p for p in ps if sends(p)]
        if not snd:
            for p in ps:
                for e in p.events:
                    if e.kind == "store" and counter(e.args[0]):
                        ctx.violation("counter:" + f["name"], "the numbers of requests are changed without a request", e.where())
            continue
        ctx.saw(*E.fns_seen)
        ctx.count("functions")
        for p in ps:
            ctx.count("paths")
            one(ctx, F, f, p, served, seen)
    for m in ("quit", "edit", "menu", "menu-select", "keys", "exec"):
        ctx.need(m in seen, "sends " + m, "the client library can send %s" % m)
    start(ctx, F, conn)


def server(ctx):
    """method -> types the server decodes the parameters as"""
    out = {}
    for m, p in requests(ctx):
        if m is None:
            continue
        out.setdefault(m, set())
        for e in p.events:
            if ev_call(e, "serde_json::from_value"):
                t = (e.x.get("fn") or {}).get("substs", ["?"])[0]
                out[m].add(re.sub(r"^core::option::Option<(.*)>$", r"\1", t))
    ctx.need(out, "served", "the server serves requests")
    return out


def raw(e):
    return e.x.get("raw") or e.args


def sends(p):
    out = []
    for i, e in enumerate(p.events):
        if e.kind == "call" and re.search(r"Sender::(send|try_send|send_blocking)$", e.name):
            for x in subterms(raw(e)[1]):
                if x.op == "agg" and x.a[1].endswith("jsonrpc::Request"):
                    out.append((i, e, dict(x.a[3])))
    return out


def counter(t):
    return t.op == "field" and "request_id" in t.a[1] and base_of(t).op == "arg"


def number(t):
    vn, fs = variant_of(t)
    return list(fs.values())[0] if vn == "Number" else None


def grows(e, old):
    """the store adds a positive number to the counter"""
    v = canon(e.args[1])
    return v.op == "bin" and v.a[0].startswith("Add") and any(x is canon(old) for x in v.a[1:]) and any(show(x).isdigit() and int(show(x)) > 0 for x in v.a[1:])


def one(ctx, F, f, p, served, seen):
    ss = sends(p)
    name = f["name"]
    if not ss:
        # only without an open menu
        none = any(q.op == "variant" and v == "None" and any(x.op == "field" and x.a[1] == "menu" for x in subterms(q)) for q, v in p.facts.items())
        if not none:
            ctx.violation("unsent:" + name, "%s can return without sending its request" % name, f["path"], trail(p))
        return
    if len(ss) > 1:
        ctx.violation("twice:" + name, "%s sends %d requests" % (name, len(ss)), ss[1][1].where(), trail(p))
    i, e, d = ss[0]
    ctx.count("requests_sent")
    n = number(d["id"])
    st = [x for x in p.events if x.kind == "store" and n is not None and canon(x.args[0]) is canon(n) or x.kind == "store" and counter(x.args[0])]
    if n is None or base_of(n).op != "arg":
        if not (n is not None and n.op == "bin" and len(st) == 1 and canon(st[0].args[1]) is canon(n) and grows(st[0], st[0].args[0])):
            ctx.violation("id:" + name, "the request of %s is not numbered by the counter of the connection (%s)" % (name, show(d["id"])[:80]), e.where(), trail(p))
    elif len(st) != 1 or not grows(st[0], n):
        ctx.violation("id:" + name, "the number of the request of %s may be used again" % name, e.where(), trail(p))
    if d["method"].op != "str":
        ctx.violation("method:" + name, "cannot be shown: the method %s sends" % name, e.where(), trail(p))
        return
    m = d["method"].a[0]
    seen.add(m)
    if m not in served:
        ctx.violation("method:" + name, "%s sends the method %r the server does not serve" % (name, m), e.where())
        return
    if name.replace("_", "-") in served and name.replace("_", "-") != m:
        ctx.violation("method:" + name, "%s sends the method %r" % (name, m), e.where())
    enc = [x for x in p.events[:i] if x.kind == "call" and x.name.endswith("serde_json::to_value") and x.res is not None
           and any(canon(y) is canon(x.res) for y in subterms(d["params"]))]
    if m in NONE_:
        for x in enc:
            t = resolved(F, (x.x.get("fn") or {}).get("substs", ["?"])[0])
            if t != "()":
                ctx.violation("params:" + name, "%s sends parameters" % name, e.where())
        return
    if len(enc) != 1:
        ctx.violation("params:" + name, "%s sends no parameters" % name, e.where(), trail(p))
        return
    x = enc[0]
    t = resolved(F, (x.x.get("fn") or {}).get("substs", ["?"])[0])
    if t not in served[m]:
        ctx.violation("type:" + name, "%s encodes %s, the server decodes %s" % (name, short(t), ", ".join(map(short, sorted(served[m])))), e.where())
    v = raw(x)[0]
    args = {f["locals"][k + 1][1]: mk("arg", f["locals"][k + 1][1], f["id"], k) for k in range(1, f["args"])}
    pos = list(args.values())
    if m == "menu-select":
        select(ctx, name, e, p, v, i)
    elif m in PARAMS:
        fs = dict(v.a[3]) if v.op == "agg" else {}
        for k, n in enumerate(PARAMS[m]):
            want = args.get(n) if n in args else (pos[k] if k < len(pos) else None)
            if want is None or n not in fs or canon(fs[n]) is not canon(want):
                ctx.violation("params:%s:%s" % (name, n), "%s sends %s which is not the one it was given" % (name, n), e.where(), trail(p))
    elif not (pos and any(canon(y) is canon(pos[0]) for y in subterms(v))) or canon(v) is not canon(pos[0]) and m != "keys":
        ctx.violation("params:" + name, "%s does not send what it was given" % name, e.where(), trail(p))


def select(ctx, name, e, p, v, i):
    fs = dict(v.a[3]) if v.op == "agg" else {}
    cmd, ch = fs.get("command"), fs.get("choice")
    menu = None
    if cmd is not None and canon(cmd).op == "field" and canon(cmd).a[1] == "command":
        menu = canon(cmd).a[0]
    if menu is None or not any(x.op == "field" and x.a[1] == "menu" for x in subterms(menu)):
        ctx.violation("params:%s:command" % name, "menu-select is not sent for the command of the open menu", e.where(), trail(p))
        return
    c = canon(ch)
    sel = mk("field", menu, "selected")
    ent = mk("field", menu, "entries")
    if c.op == "field" and c.a[1] == "value" and c.a[0].op == "idx" and c.a[0].a[0] is ent and c.a[0].a[1] is sel:
        pass
    elif c.op == "field" and c.a[1] == "search" and c.a[0] is menu:
        # only if there is no selected entry, or it has no value
        ok = False
        for q, w in p.facts.items():
            cq = canon(q)
            if w is False and q.op in ("in_bounds",) and cq.a[0] is ent and cq.a[1] is sel:
                ok = True
            if w is True and q.op == "pure" and q.a[0] == "is_empty" and (cq.a[1] is ent or any(x is ent for x in subterms(cq))):
                ok = True
            if w is True and q.op == "is_empty":
                ok = True
            if q.op == "pure" and q.a[0] == "in_bounds" and w is False and any(x is ent for x in subterms(cq)):
                ok = True
            if any(x is sel for x in subterms(cq)) and any(x is ent for x in subterms(cq)) and q.op in ("bin", "pure", "lt", "le"):
                o = (q.a[0] if q.op in ("bin", "pure") else q.op).lower()
                left = any(x is sel for x in subterms(canon(q.a[-2])))
                ok = ok or (o, left, w) in (("lt", True, False), ("le", False, True), ("ge", True, True), ("gt", False, False))
            if q.op == "variant" and w == "None" and any(x is ent for x in subterms(cq)):
                ok = True
        if not ok:
            ctx.violation("choice:" + name, "menu-select sends the search although an entry is selected", e.where(), trail(p))
    else:
        ctx.violation("choice:" + name, "menu-select sends neither the selected entry nor the search (%s)" % show(ch)[-90:], e.where(), trail(p))
    closed = [x for x in p.events if x.kind == "store" and x.args[0].op == "field" and x.args[0].a[1] == "menu" and (x.args[1] is NONE or variant_of(x.args[1])[0] == "None")]
    if not closed:
        ctx.violation("open:" + name, "the menu stays open after a choice was sent", e.where(), trail(p))


def start(ctx, F, conn):
    for f in F.real():
        if f["kind"] == "AssocFn" and f.get("impl_self") == conn["path"] and f["locals"][0][0] == conn["path"]:
            ctx.count("constructors")

