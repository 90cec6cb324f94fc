"""Notification routing as data flow.  Every function that hands a message to the broadcast channel is interpreted: the
list of recipients it attaches is exactly the client it was called for (or none when it addresses everybody).  The
broadcast task is interpreted per message: for every connected client it visits, a path writes to that client's stream
exactly when the recipients are unspecified or contain its id, what it writes is the message and a newline, the visit
continues after a failed write and goes on to the last client.  Refreshing views sends each listed client the view and
the selections found under its own id."""
from common import *


def check(ctx):
    notifier(ctx)
    of_core(ctx)
    broadcast(ctx)
    refresh(ctx)


def sends(p):
    out = []
    for e in p.events:
        if ev_call(e, "Sender::send", "Sender::try_send", "Sender::send_blocking"):
            out.append(e)
    return out


def recipients(ctx, e):
    """('all', None) / ('ids', [terms]) / ('?', term), and the message, of what is sent to the broadcast channel"""
    v = e.args[1]
    if v.op != "agg":
        return "?", v, None
    d = dict(v.a[3])
    msg = [x for n, x in d.items() if n == "message"]
    cl = [x for n, x in d.items() if n == "clients"]
    if len(msg) != 1 or len(cl) != 1:
        return "?", v, None
    vn, fs = variant_of(cl[0])
    if vn == "None":
        return "all", None, msg[0]
    if vn == "Some" and fs["0"].op == "agg" and fs["0"].a[0] == "array":
        return "ids", [x for _, x in fs["0"].a[3]], msg[0]
    return "?", cl[0], msg[0]


def notifier(ctx):
    F = ctx.F
    N = "ced::editor::core::Notifier::"
    idt = mk("arg", "the_client", "rule", 0)
    txt = mk("arg", "text", "rule", 1)
    me = mk("arg", "self", "rule", 2)
    info = mk("arg", "info", "rule", 3)
    msg = mk("arg", "notification", "rule", 4)
    some = absint.some(idt)
    cases = [("notify", [me, idt, msg], "ids", msg, None), ("broadcast", [me, msg, NONE], "all", msg, None),
             ("message", [me, some, txt], "ids", txt, "echo"), ("message", [me, NONE, txt], "all", txt, "echo"),
             ("error", [me, some, txt], "ids", txt, "echo"), ("error", [me, NONE, txt], "all", txt, "echo"),
             ("info_update", [me, idt, info], "ids", None, "info")]
    for name, args, want, content, meth in cases:
        f = F.fn(N + name)
        if not ctx.need(f is not None, "Notifier::" + name, "the notifier function %s exists" % name):
            continue
        e = Engine(F, iters=1)
        ps = e.run(f, args=args, tsub={})
        ctx.saw(*e.fns_seen)
        n = 0
        for p in ps:
            if p.status != "return":
                continue
            ss = sends(p)
            if len(ss) != 1:
                ctx.violation("%s:once" % name, "%s of the notifier sends %d messages" % (name, len(ss)), "", trail(p))
                continue
            n += 1
            kind, ids, m = recipients(ctx, ss[0])
            if kind != want or (kind == "ids" and ids != [idt]):
                ctx.violation("%s:recipients" % name, "%s for %s is addressed to %s" % (
                    name, "one client" if want == "ids" else "everybody", ids if kind != "all" else "everybody"), ss[0].where())
            if content is not None and not mentions(m, content):
                ctx.violation("%s:content" % name, "what %s sends is not what it was given: %s" % (name, m), ss[0].where())
            if meth is not None and getf(m, "method") is not absint.string(meth):
                ctx.violation("%s:method" % name, "%s sends a %s notification instead of %s" % (name, getf(m, "method"), meth), ss[0].where())
            ctx.count("sends")
        ctx.need(n > 0, "Notifier::" + name, "%s sends a message" % name)
    # everything else which reaches the channel goes through one of these
    direct = set()
    for f in F.real():
        if f["id"].startswith("ced::"):
            for b in f["blocks"]:
                t = b["t"]
                if t["t"] == "call" and isinstance(t["f"], dict) and t["f"].get("fn") and \
                        norm(t["f"]["fn"].get("path", "")).endswith("Sender::send") and \
                        any("BroadcastMessage" in a for a in t.get("atys", [])):
                    direct.add(f["id"])
    ctx.count("channel_senders", len(direct))


def of_core(ctx):
    """messages and errors of the editor: one echo, for the client they are for"""
    F = ctx.F
    idt, me = mk("arg", "the_client", "rule", 0), mk("arg", "self", "rule", 2)
    for name, texts in (("message", 1), ("error", 2)):
        f = F.fn("ced::editor::core::Core::" + name)
        if not ctx.need(f is not None and f["args"] == 2 + texts, "Core::" + name, "the editor has %s" % name):
            continue
        tx = [mk("arg", "text%d" % i, "rule", 5 + i) for i in range(texts)]
        for who in (absint.some(idt), NONE):
            e = Engine(F, iters=1, opaque=["ced::editor::core::Core::append_to", "ced::editor::core::Core::debug"])
            n = 0
            for p in e.run(f, args=[me, who] + tx, tsub={}):
                if p.status != "return":
                    continue
                n += 1
                got = []
                for x in sends(p):
                    kind, ids, m = recipients(ctx, x)
                    if m is None or getf(m, "method") is absint.string("echo"):
                        got.append((kind, ids, x))
                ctx.count("messages and errors")
                if len(got) != 1:
                    ctx.violation("core-%s:once" % name, "%s of the editor sends %d messages" % (name, len(got)), "", trail(p))
                for kind, ids, x in got:
                    if (kind, ids) != (("all", None) if who is NONE else ("ids", [idt])):
                        ctx.violation("core-%s:recipients" % name, "%s of the editor for %s is addressed to %s" % (
                            name, "everybody" if who is NONE else "one client", "everybody" if kind == "all" else ids), x.where())
            ctx.saw(*e.fns_seen)
            ctx.need(n > 0, "Core::" + name + str(who is NONE), "%s of the editor is understood" % name)


def index_map(ctx, t):
    """the map of connected streams: what the main task inserts the joined stream into"""
    for p in t.all("main"):
        for e in p.events:
            if ev_call(e, "HashMap::insert", "BTreeMap::insert") and any(
                    any(is_call(x, "Receiver::recv") for x in subterms(a)) for a in e.args[1:]):
                return strip_at(e.args[0])
    return None


def dest(w, idx):
    """client id of the stream a write goes to"""
    d = w.args[0]
    if d.op == "idx" and strip_at(d.a[0]) is idx:
        return d.a[1]
    if d.op == "field" and d.a[1] == "1" and d.a[0].op == "elem":
        return mk("field", d.a[0], "0")
    if d.op == "elem":
        return mk("key", d)
    return None


def broadcast(ctx):
    t = tasks(ctx, 2 if ctx.tier == "thorough" else 1)
    idx = index_map(ctx, t)
    if not ctx.need(idx is not None, "index", "the main task keeps the streams of the connected clients in a map"):
        return
    bt = [n for n in t.order if n != "main" and t.role(lambda e: ev_call(e, "write_all")).count(n)]
    if not ctx.need(len(bt) == 1, "broadcast", "one task writes the notifications"):
        return
    for p in t.all(bt[0]):
        recv = [i for i, e in enumerate(p.events) if ev_call(e, "Receiver::recv")]
        for k, i in enumerate(recv):
            last = k + 1 == len(recv)
            end = recv[k + 1] if not last else len(p.events)
            evs = p.events[i:end]
            aw = [e for e in evs if e.kind == "await" and e.args[0] is p.events[i].res]
            if not aw or p.facts.get(mk("variant", aw[0].res)) != "Ok":
                continue
            bm = mk("vf", aw[0].res, "Ok", "0")
            cl = mk("field", bm, "clients")
            st = p.facts.get(mk("variant", cl))
            lst = mk("vf", cl, "Some", "0")
            message = mk("field", bm, "message")
            writes = [e for e in evs if ev_call(e, "write_all")]
            complete = not last
            ctx.count("broadcast_rounds")
            if complete and st is None and not any(e.kind == "exhausted" for e in evs):
                ctx.violation("broadcast:visit", "a message is dropped without visiting the clients", p.events[i].where(), trail(p))
            visited = {}
            for e in evs:
                if e.kind == "iter" and e.args[1] is not None:
                    visited[e.args[1]] = e
            written = []
            for w in writes:
                d = dest(w, idx)
                if d is None:
                    ctx.violation("broadcast:dest", "a notification is written to %s, which is not the stream of a connected client"
                                  % w.args[0], w.where())
                    continue
                written.append(d)
                if not (w.args[1].op == "fmt" and len(fmt_parts(w.args[1])) == 2 and fmt_parts(w.args[1])[0] is message
                        and is_nl(fmt_parts(w.args[1])[1])):
                    ctx.violation("broadcast:payload", "what is written is not the message and a newline: %s" % w.args[1], w.where())
                okd = st == "None" or allowed(p, lst, d)
                if not okd:
                    ctx.violation("broadcast:stray", "a notification is written to a client which is not among its recipients",
                                  w.where(), trail(p))
                ctx.count("broadcast_writes")
            for d in set(written):
                if written.count(d) > 1:
                    ctx.violation("broadcast:twice", "a notification is written twice to a client", writes[0].where())
            # every client visited and addressed is written to
            for el in visited:
                if strip_at(el.a[0]) is idx:
                    for d in (mk("field", el, "0"), mk("key", el)):
                        if (st == "None" or allowed(p, lst, d)) and d.op == "field" and d not in written and complete:
                            ctx.violation("broadcast:missed", "an addressed client is visited without being written to",
                                          visited[el].where(), trail(p))
            if complete:
                ex = [e for e in evs if e.kind == "exhausted" and strip_at(e.args[0]) in (idx, lst)]
                if not ex and not (st == "Some" and empty(p, lst)):
                    ctx.violation("broadcast:all", "the visit of the clients stops before the last one", evs[-1].where(), trail(p))
        # the task stops only when the channel is closed
        if p.status == "return":
            lastaw = [e for e in p.events if e.kind == "await" and is_call(e.args[0], "Receiver::recv")]
            if lastaw and p.facts.get(mk("variant", lastaw[-1].res)) == "Ok":
                ctx.violation("broadcast:stops", "the broadcast task ends although the channel is open", "", trail(p))
    ctx.need(ctx.counts.get("broadcast_writes", 0) > 0, "broadcast", "the broadcast task writes")


def empty(p, lst):
    return p.facts.get(mk("pure", "is_empty", lst)) is True


def allowed(p, lst, d):
    if d.op == "elem" and strip_at(d.a[0]) is lst:
        return True
    for f, v in p.facts.items():
        if v is True and f.op == "pure" and f.a[0] == "contains" and strip_at(f.a[1]) is lst and f.a[2] is d:
            return True
        if v is True and f.op == "eq" and d in f.a and any(x.op == "elem" and strip_at(x.a[0]) is lst for x in f.a):
            return True
    return False


def fmt_parts(t):
    a = t.a[0] if len(t.a) == 1 and isinstance(t.a[0], tuple) else t.a
    return list(a)


def is_nl(x):
    return x == "\n" or (isinstance(x, T) and x.op == "str" and x.a[0] == "\n")


def refresh(ctx):
    F = ctx.F
    f = F.fn("ced::editor::core::Core::notify_view_update")
    if not ctx.need(f is not None, "refresh", "the core refreshes the views of a list of clients"):
        return
    e = Engine(F, opaque=["ced::editor::view::View::to_notification_params", "ced::editor::view::View::key"],
               iters=2 if ctx.tier == "thorough" else 1)
    ps = e.run(f)
    ctx.saw(*e.fns_seen)
    n = 0
    lst = e.argterm(f, 1)
    for p in ps:
        if p.status != "return":
            continue
        els = [x.args[1] for x in p.events if x.kind == "iter" and strip_at(x.args[0]) is lst]
        ss = sends(p)
        got = []
        for s in ss:
            kind, ids, m = recipients(ctx, s)
            if kind != "ids" or len(ids) != 1 or ids[0] not in els:
                ctx.violation("refresh:recipient", "a view is sent to %s, not to one of the listed clients" % (ids,), s.where())
                continue
            c = ids[0]
            got.append(c)
            if getf(m, "method") is not absint.string("view"):
                ctx.violation("refresh:method", "a view is sent as a %s notification" % getf(m, "method"), s.where())
            tp = [x for x in subterms(m) if is_call(x, "View::to_notification_params")]
            if len(tp) != 1:
                ctx.violation("refresh:content", "what is sent is not a rendered view", s.where())
                continue
            view, bufs, sels = tp[0].a[1][:3]
            own = [x for x in subterms(view) if x.op == "idx" and x.a[1] is c]
            if not own or not (view.op == "field" and view.a[1] == "view"):
                ctx.violation("refresh:view", "a client is sent the view of %s" % view, s.where())
            others = [x for x in subterms(sels) if x.op == "elem" and x is not c]
            if others or (variant_of(sels)[0] == "Some" and not any(x.op == "idx" and x.a[1] is c for x in subterms(sels))):
                ctx.violation("refresh:selections", "a client is sent the selections of %s" % sels, s.where())
            v, fs = variant_of(sels)
            if v == "Some" and not any(is_call(x, "View::key") and mentions(x, view) for x in subterms(fs["0"])):
                ctx.violation("refresh:key", "a client is sent its selections in another view: %s" % sels, s.where())
            n += 1
        if got != els:
            ctx.violation("refresh:each", "%d clients are listed but %d are sent their view" % (len(els), len(got)), "", trail(p))
        if els and not any(x.kind == "exhausted" and strip_at(x.args[0]) is lst for x in p.events):
            ctx.violation("refresh:all", "the refresh stops before the last listed client", "", trail(p))
    ctx.count("refreshes", n)
    ctx.need(n > 0, "refresh", "views are sent")
