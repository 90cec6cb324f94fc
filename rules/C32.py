"""The client library, the JSON client, the terminal client and the C library, from their entry points.  Every place in a
function they reach where a failure of the environment or of decoding ends the program is reported, unless what fails is
the terminal itself, or cannot fail.  The functions that decode a line, and that turn what was decoded into an event, are
interpreted on every path: nothing missing is taken for present, no index goes outside.  The tasks are interpreted too:
each takes one item after another until its source is exhausted, whatever the item is; the terminal client stops before
only after a key.  Nobody relies on a channel being open that another task closes."""
from coremodel import *
from common import Tasks
from graph import Graph, callee, head
import C07
import C29
import C30

OWNERS = ("ced_remote::connection::Connection", "ced_remote::client::Client")


def check(ctx):
    F = ctx.F
    G = Graph(F)
    users = roots(F, G)
    if not ctx.need(len(users) >= 10, "clients", "the clients are found"):
        return
    places(ctx, F, G, users)
    decoding(ctx, F)
    starts = pumps(F, G)
    ctx.need(len(starts) >= 2, "starts", "the clients run tasks")
    for f in starts:
        run(ctx, F, G, f)


def roots(F, G):
    out = []
    for f in G.local.values():
        s = head(f.get("impl_self") or "")
        if f["path"].startswith("ced::clients::") and s or s in OWNERS or f["path"].startswith("ced::tui::") and s:
            if f.get("vis") == "Public" and f["blocks"]:
                out.append(f["id"])
    return out


# ---- failures that end the program ----------------------------------------------------------------------------------
def places(ctx, F, G, users):
    seen, parent = G.reach(users)
    ctx.saw(*seen)
    for fid in sorted(seen):
        f = G.local[fid]
        if not f["blocks"] or C07.is_test(f) or fid.startswith("ced::editor") or f["path"].startswith("ced::editor"):
            continue
        ctx.count("functions")
        for kind, bi, t, what in C07.sites(G, f):
            ctx.count("sites")
            if kind != "exit" and (terminal_only(G, f, t) or opening(f, t) or C07.excused(ctx, G, f, bi, t, kind)):
                ctx.count("sites_excused")
                continue
            sp = t.get("sp") or f["span"]
            ctx.violation("%s:%s" % (C07.short(f), kind), "%s can end the client: %s" % (C07.short(f), what),
                          "%s:%s" % (sp[0], sp[1]), [" -> ".join(G.chain(parent, fid))])


def terminal_only(G, f, t):
    """what fails here is the terminal: the call is one of the terminal library, or a function in which nothing else fails"""
    pr = C07.producer(f, t["args"][0]) if t.get("args") else None
    c = callee(pr) if pr else None
    if not c or re.search(r"::Result::", norm(c["path"])):
        # the steps of setting up the terminal, one after another
        cs = [callee(b["t"]) for b in f["blocks"] if b["t"]["t"] == "call" and not b.get("c")
              and "io::error::Error" in str((C07.split2(b["t"].get("dty", "")) or ["", ""])[1])]
        return bool(cs) and all(k and (terminal(norm(k["path"]), k) or re.search(r"Result::|ops::|from_residual|branch", norm(k["path"]))) for k in cs)
    if terminal(norm(c["path"]), c):
        return True
    starts = [x for x in G.resolve(c) if x in G.local]
    if not starts:
        return False
    seen, _ = G.reach(starts)
    some_ = False
    for x in seen:
        g = G.local[x]
        for b in g["blocks"]:
            u = b["t"]
            if u["t"] != "call" or b.get("c"):
                continue
            s2 = C07.split2(u.get("dty", ""))
            k = callee(u)
            if not s2 or not k or k.get("rid", k.get("id")) in G.local or "io::error::Error" not in s2[1] and "io::Error" not in s2[1]:
                continue
            n = norm(k["path"])
            if terminal(n, k):
                some_ = True
            elif not swallowed(g, u) and not re.search(r"ops::(Try|FromResidual)|Result::|fmt::|from_residual|branch", n):
                return False
    return some_


def terminal(n, c):
    return n.startswith("crossterm::") or re.search(r"io::(stdio::)?Write::\w+$|^std::io::Write", n) and "Stdout" in str(c.get("substs")) + str(c.get("path"))


def swallowed(g, u):
    """the function does not hand errors of the environment on"""
    s2 = C07.split2(g["locals"][0][0])
    return not s2


def opening(f, t):
    """the server cannot be reached in the first place"""
    c = callee(t)
    sub = (c.get("substs") or [""]) if c else [""]
    return bool(re.search(r"\bLines<", sub[0]))


# ---- decoding ---------------------------------------------------------------------------------------------------------
def decoding(ctx, F):
    fs = []
    for f in F.real():
        if f["path"].startswith("ced::") or not f["args"]:
            continue
        args = " ".join(l[0] for l in f["locals"][1:f["args"] + 1])
        ret = f["locals"][0][0]
        if "Result<ced_remote::jsonrpc::ClientEvent" in ret and "Result<alloc::string::String" in args \
                or ret.endswith("connection::ConnectionEvent") and "Result<ced_remote::jsonrpc::ClientEvent" in args:
            fs.append(f)
    if not ctx.need(len(fs) >= 2, "decoding", "the client library decodes lines and turns them into events"):
        return
    done = set()
    for f in fs:
        E = Engine(F, iters=1, keep_elems=True, stores=True, asserts=True)
        ps = E.run(f)
        ctx.saw(*E.fns_seen)
        for p in list(ps) + list(E.cuts):
            ctx.count("decoding_paths")
            C30.judge(ctx, F, f, p, done)


# ---- tasks ------------------------------------------------------------------------------------------------------------
def pumps(F, G):
    out = {}
    for f in G.local.values():
        if f["path"].startswith(("ced::editor", "ced::server")) or f["kind"] not in ("Fn", "AssocFn") or f.get("vis") != "Public":
            continue
        s = f["path"]
        if not (s.startswith(("ced::tui::", "ced::clients::")) and f.get("impl_self") or "ffi" in s):
            continue
        seen, _ = G.reach([f["id"]])
        if not any(head(G.local[x].get("impl_self") or "") in OWNERS for x in seen):
            continue
        own = [f["id"]] + [x for x in seen if G.local[x].get("parent") == f["id"] or x.startswith(f["id"] + "::{")]
        if any(re.search(r"(::spawn|LocalExecutor::spawn|Executor::run|block_on)$", norm((callee(b["t"]) or {}).get("path", "")))
               for x in own for b in G.local[x]["blocks"] if b["t"]["t"] == "call" and not b.get("c")) and \
                any(re.search(r"spawn$", norm((callee(b["t"]) or {}).get("path", "")))
                    for x in own for b in G.local[x]["blocks"] if b["t"]["t"] == "call" and not b.get("c")):
            out[f["id"]] = f
    return [out[k] for k in sorted(out)]


def run(ctx, F, G, f):
    hidden = [g["path"] for g in F.real() if g["path"].startswith("ced::tui::") and f["path"].startswith("ced::tui::")
              and g["path"] != f["path"] and not g["path"].startswith(f["path"] + "::") and g["kind"] != "Closure"
              and not g["path"].endswith("::from") and g["locals"][0][0] != "bool" and (g["kind"] == "Fn" or g.get("impl_self") == f.get("impl_self"))]
    # starting a server and finding its address is not part of it
    hidden += [g["path"] for g in F.real() if g["path"].startswith("ced_remote::") and g["kind"] in ("Fn", "AssocFn")
               and head(g.get("impl_self") or "") not in OWNERS and g["args"]
               and re.search(r"session::(Session|ConnectionMode)$", g["locals"][1][0]) and "transport" not in g["path"]]
    t = Tasks(F, 2, opaque=hidden, root=f)
    ctx.saw(*t.fns)
    nm = f.get("name") or f["path"].rsplit("::", 1)[-1]
    closers = {}
    for n in t.order:
        for p in t.all(n):
            for e in p.events:
                if ev_call(e, "Sender::close", "Receiver::close"):
                    c = C29.channel(e.args[0])[0]
                    if c is not None:
                        closers.setdefault(c, set()).add(n)
    takers = {}
    for n in t.order:
        for p in t.all(n):
            for r in C29.taken(p):
                c = C29.channel(r.src)[0]
                if c is not None:
                    takers.setdefault(c, set()).add(n)
    done = set()
    goes_on = {}
    left = {}
    for n in t.order:
        for p in t.all(n):
            ctx.count("task_paths")
            if p.status == "panic":
                sending(ctx, nm, n, p, closers, takers, done)
                e = p.events[-1] if p.events else None
                bad = C30.ended(ctx, p, e) if e is not None and e.kind == "panic" and any(True for r in C29.taken(p)) else None
                if bad and bad[0] + nm not in done:
                    done.add(bad[0] + nm)
                    ctx.violation("%s:%s" % (bad[0], nm), bad[1], e.where(), trail(p))
                continue
            rs = list(C29.taken(p))
            for r in rs:
                if not r.none and not (r.last and p.status == "return"):
                    goes_on.setdefault((n, norm(show(r.src))[:0]), set()).add(kind(p, r))
            if p.status != "return" or not rs or rs[-1].none:
                continue
            r = rs[-1]
            ctx.count("ends")
            if output_lost(p, r):
                continue
            left.setdefault((n, kind(p, r)), []).append((p, r))
    for (n, k), prs in sorted(left.items(), key=lambda x: str(x[0])):
        # stopping before the source is exhausted: only where the client itself decides so, and never for one kind of item
        for p, r in prs:
            q = wish(p, r)
            if q is None:
                key = "stops:%s:%s" % (nm, k)
                if key not in done:
                    done.add(key)
                    ctx.violation(key, "%s stops although there may be more to come (after %s)" % (nm, k or "an item"), r.start.where(), trail(p))
                break
        else:
            if k not in {x for s in goes_on.values() for x in s}:
                ctx.violation("stops:%s:%s" % (nm, k), "%s always stops after %s" % (nm, k or "an item"), prs[0][1].start.where(), trail(prs[0][0]))
            wishes(ctx, F, G, f, t, n, prs, done)


def kind(p, r):
    v = p.facts.get(mk("variant", r.item)) if r.item is not None else None
    return str(v) if v else ""


def output_lost(p, r):
    """a write or a send failed after the item was taken"""
    for q, v in p.facts.items():
        if q.op == "variant" and v in ("Err", "Break") and any(
                x.op == "call" and re.search(r"(Sender::send|Write(Ext)?::(write|write_all|write_fmt|flush)|io::_print)$", x.a[0]) for x in subterms(q)):
            return True
    return False


def wish(p, r):
    """the field of the client whose value, looked at after the item was handled, makes it stop"""
    out = None
    for q, v in p.facts.items():
        if isinstance(v, bool) and v and q.op != "eq":
            for x in subterms(q):
                if x.op == "field" and base_of(x).op == "arg":
                    out = x.a[1]
    return out


def wishes(ctx, F, G, f, t, n, prs, done):
    """only what handles a key sets the field"""
    names = {wish(p, r) for p, r in prs}
    T = f.get("impl_self")
    handlers = {}
    for p in t.all(n):
        for r in C29.taken(p):
            for e in r.evs:
                if e.kind == "call" and r.item is not None:
                    for g in F.by_path.get(e.name, []) if isinstance(F.by_path.get(e.name), list) else [F.by_path.get(e.name)]:
                        if g and g.get("impl_self") == T:
                            handlers.setdefault(g["id"], (g, set()))[1].update(carried(F, p, r))
    for g, tys in handlers.values():
        if any("crossterm::" in x and x.endswith("Event") for x in tys):
            continue
        seen, _ = G.reach([g["id"]])
        for x in seen:
            h = G.local[x]
            if head(h.get("impl_self") or "") != head(T):
                continue
            fields = F.adts.get(head(T), {}).get("variants", [{}])[0].get("fields", [])
            idx = {str(i): a[0] for i, a in enumerate(fields)}
            for b in h["blocks"]:
                for s in b["s"]:
                    if s["s"] == "=" and len(s["p"]) > 1 and any(isinstance(y, (list, tuple)) and (str(y[1]) in names or idx.get(str(y[1])) in names) and y[0] in ("f", "field")
                                                                 for y in s["p"][1:]) and h["id"] != f["id"]:
                        key = "leaves:%s" % (h.get("name") or h["path"])
                        if key not in done:
                            done.add(key)
                            ctx.violation(key, "the client leaves without a key (%s)" % C07.short(h), "%s:%s" % tuple((s.get("sp") or h["span"])[:2]))
    ctx.count("handlers", len(handlers))


def carried(F, p, r):
    """types of what the item carries"""
    k = kind(p, r)
    out = []
    for a in F.adts.values():
        vs = a.get("variants") or []
        if len(vs) > 1 and any(v["name"] == k for v in vs) and any("crossterm::" in x[1] for v in vs for x in v["fields"]):
            out += [x[1] for v in vs if v["name"] == k for x in v["fields"]]
    return out


def sending(ctx, nm, n, p, closers, takers, done):
    e = p.events[-1] if p.events else None
    if e is None or e.kind != "panic" or not e.args:
        return
    for x in subterms(e.args[0]):
        if x.op == "call" and re.search(r"Sender::(send|try_send|send_blocking)$", x.a[0]):
            c = C29.channel(x.a[1][0])[0]
            ctx.count("sends")
            others = (closers.get(c, set()) - {n}) | (takers.get(c, set()) - {n, "main"})
            if c is not None and others:
                key = "closed:%s" % nm
                if key not in done:
                    done.add(key)
                    ctx.violation(key, "%s relies on a channel that another of its tasks closes" % nm, e.where(), trail(p))
