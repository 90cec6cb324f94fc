"""The text clients, interpreted with the tasks they spawn.

Each of them is a set of pumps: a loop that takes one item after another from a source (standard input, the stream of
the server, the channel of requests, the channel of notifications) and hands each of them on.  For every item taken, on
every path, until the next one is taken: json mode sends the request decoded from a line, and prints a message of the
server as one line of its own, flushed; the stand-alone mode has the editor handle a line for its client and prints the
response; a notification is printed if it is addressed to the client.  Nothing else is printed or sent."""
from coremodel import *
from common import Tasks
from C06 import allowed

PRINT = ("io::_print",)
WRITE = r"(^|::)(AsyncWriteExt|Write)::(write|write_all|write_fmt)$"


def check(ctx):
    F = ctx.F
    js = alone = None
    for f in readers(F):
        t = interpret(ctx, F, f)
        if any(is_handle(e) for n in t.order for p in t.all(n) for e in p.events):
            alone = f
            standalone(ctx, t)
        elif any(ev_call(e, "AsyncBufReadExt::lines") for n in t.order for p in t.all(n) for e in p.events):
            js = f
            json(ctx, t)
    ctx.need(js, "json mode", "a client reads requests from standard input and sends them to a server")
    ctx.need(alone, "stand-alone mode", "an editor handles requests read from standard input")


def readers(F):
    """functions that read standard input, themselves or in a closure"""
    out = {}
    for f in F.real():
        for b in f["blocks"]:
            t = b["t"]
            c = t.get("call")
            c = t if t.get("k") == "call" or "f" in t else c
            if c and "std::io::stdin" in str(c.get("f")):
                g = f
                while g.get("parent") and F.fns.get(g["parent"]) is not None:
                    g = F.fns[g["parent"]]
                if F.fn_unit(g) == "ced" if hasattr(F, "fn_unit") else g["path"].startswith("ced::"):
                    out[g["id"]] = g
    return list(out.values())


def interpret(ctx, F, f):
    args = None
    if f.get("impl_self"):
        for c in F.real():
            if c.get("impl_self") == f["impl_self"] and c["kind"] == "AssocFn" and c["locals"][0][0] == f["impl_self"]:
                rs = [p.ret for p in Engine(F, iters=1).run(c) if p.status == "return"]
                if rs and len(rs) == 1:
                    E = Engine(F)
                    args = [rs[0]] + [E.argterm(f, i) for i in range(1, f["args"])]
    t = Tasks(F, 2, opaque=["ced::editor::*"], root=f, args=args)
    ctx.saw(*t.fns)
    return t


def is_handle(e):
    return ev_call(e, "Editor::handle")


# ---- receipts ---------------------------------------------------------------------------------------------------------
class Taken:
    """an item taken from a source, and what happens until the next one is"""
    __slots__ = ("src", "item", "none", "evs", "last", "p", "start")


def taken(p):
    at = []
    for i, e in enumerate(p.events):
        if e.kind in ("iter", "exhausted") and "lines" in show(e.args[0]):
            at.append((i, e.args[0], e.args[1] if e.kind == "iter" else None))
        elif e.kind == "await" and e.args[0].op == "call" and re.search(r"(StreamExt::(next|try_next)|Receiver::recv)$", e.args[0].a[0]):
            v = p.facts.get(mk("variant", e.res))
            x = mk("vf", e.res, v, "0") if v in ("Some", "Ok") else None
            if v == "Ok" and e.args[0].a[0].endswith("try_next"):
                x = None
            at.append((i, e.args[0].a[1][0], x))
        elif ev_call(e, "Receiver::recv_blocking", "mpsc::Receiver::recv"):
            v = p.facts.get(mk("variant", e.res))
            at.append((i, e.args[0], mk("vf", e.res, "Ok", "0") if v == "Ok" else None))
    for k, (i, s, x) in enumerate(at):
        r = Taken()
        r.p, r.src, r.item, r.none, r.start = p, s, x, x is None, p.events[i]
        r.last = k + 1 == len(at)
        r.evs = p.events[i + 1:at[k + 1][0] if not r.last else len(p.events)]
        yield r


def outs(evs):
    """what is handed on: (event, kind, target, payload)"""
    out = []
    for e in evs:
        if e.kind != "call":
            continue
        if ev_call(e, *PRINT):
            out.append((e, "print", None, e.args[0]))
        elif re.search(WRITE, e.name):
            out.append((e, "print" if "stdout" in show(e.args[0]) else "write", e.args[0], e.args[1]))
        elif re.search(r"(^|::)Sender::(send|try_send|send_blocking)$", e.name):
            out.append((e, "send", e.args[0], e.args[1]))
    return out


def line_of(t, item):
    """t is the text of item and a line break"""
    return t.op == "fmt" and len(t.a[0]) == 2 and canon(t.a[0][0]) is canon(item) and t.a[0][1].op == "str" and t.a[0][1].a[0] == "\n"


def source(t):
    s = show(t)
    if "io::stdin" in s:
        return "stdin"
    if re.search(r"(unbounded|bounded)\(", s):
        return "channel"
    if "::connect(" in s:
        return "server"
    return None


def channel(t):
    """(the call that made the channel, end)"""
    for x in subterms(canon(t)):
        if x.op == "field" and x.a[1] in ("0", "1") and x.a[0].op == "call" and re.search(r"(un)?bounded$", x.a[0].a[0]):
            return x.a[0], x.a[1]
    return None, None


def okv(p, t, names=("Ok",)):
    """the value in t when it is a success on the path; None when it is not; False when the path does not say"""
    v = p.facts.get(mk("variant", t))
    if v in names:
        return mk("vf", t, v, "0")
    return None if v is not None else False


def open_end(t, name, r):
    """the path was cut within this item"""
    return r.last and r.p not in t.tasks[name][0]


# ---- json mode --------------------------------------------------------------------------------------------------------
def json(ctx, t):
    seen = set()
    sends, recvs = set(), set()
    for name in t.order:
        for p in t.all(name):
            ctx.count("json_paths")
            rs = list(taken(p))
            first = next((i for i, e in enumerate(p.events) if rs and e is rs[0].start), len(p.events))
            for e, k, tgt, v in outs(p.events[:first]):
                ctx.violation("json:before:%s" % k, "json mode hands something on that it did not receive", e.where(), trail(p))
            for r in rs:
                src = source(r.src)
                o = outs(r.evs)
                ctx.count("items")
                if r.none:
                    if o:
                        ctx.violation("json:after", "json mode hands something on after the end of its source", o[0][0].where(), trail(p))
                    continue
                if src == "stdin":
                    line = okv(p, r.item)
                    if line is False:
                        ctx.violation("json:line", "cannot be shown: whether a line was read", r.start.where(), trail(p))
                        continue
                    msg = None
                    if line is not None:
                        parses = [e for e in r.evs if e.kind == "call" and re.search(r"(<impl str>|str|FromStr)(>)?::(parse|from_str)$", e.name) and canon(e.args[0]) is canon(line)]
                        if len(parses) != 1 and not open_end(t, name, r):
                            ctx.violation("json:parse", "a line read from standard input is not decoded once", r.start.where(), trail(p))
                            continue
                        ty = ((parses[0].x.get("fn") or {}).get("substs") or [""])[0] if parses else ""
                        if parses and not ty.endswith("jsonrpc::Request"):
                            ctx.violation("json:parse", "a line read from standard input is decoded as %s" % ty, parses[0].where(), trail(p))
                        msg = okv(p, parses[0].res) if parses else None
                    good = [x for x in o if x[1] == "send" and msg and canon(x[3]) is canon(msg)]
                    if msg:
                        seen.add("stdin")
                        if len(o) != 1 or len(good) != 1:
                            if not (open_end(t, name, r) and not o):
                                ctx.violation("json:send", "a request read from standard input is not sent exactly once, as it was read", r.start.where(), trail(p))
                        else:
                            sends.add(channel(good[0][2]))
                    elif o:
                        ctx.violation("json:send", "something is sent for a line that is not a request", o[0][0].where(), trail(p))
                    if r.last and p.status == "return" and not open_end(t, name, r):
                        ctx.violation("json:stop", "json mode stops reading requests before the end of its input", r.start.where(), trail(p))
                elif src == "channel":
                    seen.add("channel")
                    recvs.add(channel(r.src))
                    if len(o) != 1 or o[0][1] != "write" or not line_of(o[0][3], r.item) or source(o[0][2]) != "server":
                        if not (open_end(t, name, r) and not o):
                            ctx.violation("json:request", "a request is not written to the server exactly once, as one line", (o[0][0] if o else r.start).where(), trail(p))
                    failed = any(p.facts.get(mk("variant", e.res)) == "Err" for e in r.evs if e.kind == "await")
                    if r.last and p.status == "return" and not open_end(t, name, r) and not failed:
                        ctx.violation("json:request-stop", "requests are no longer written while there are some", r.start.where(), trail(p))
                elif src == "server":
                    msg = okv(p, r.item)
                    if msg is False:
                        ctx.violation("json:event", "cannot be shown: whether a message was decoded", r.start.where(), trail(p))
                        continue
                    if msg is None:
                        if o:
                            ctx.violation("json:event", "something is printed for a message that cannot be decoded", o[0][0].where(), trail(p))
                        if r.last and p.status == "return" and not open_end(t, name, r):
                            ctx.violation("json:event-stop", "json mode ends although the server is still there", r.start.where(), trail(p))
                        continue
                    seen.add("server")
                    ctx.count("messages")
                    if len(o) != 1 or o[0][1] != "print" or not line_of(o[0][3], msg):
                        if not (open_end(t, name, r) and not o):
                            ctx.violation("json:print", "a message of the server is not printed exactly once, as one line", (o[0][0] if o else r.start).where(), trail(p))
                        continue
                    fl = [e for e in r.evs if ev_call(e, "::flush") and canon(e.args[0]) is canon(o[0][2])] if o[0][2] is not None else [1]
                    if not r.last and not fl:
                        ctx.violation("json:flush", "a message is not flushed before the next one is awaited", o[0][0].where(), trail(p))
                    if r.last and p.status == "return" and not open_end(t, name, r):
                        v, _ = variant_of(p.ret)
                        if v != "Err":
                            ctx.violation("json:event-stop", "json mode ends although the server is still there", r.start.where(), trail(p))
                else:
                    ctx.violation("json:source", "json mode reads something else than its input and the server", r.start.where(), trail(p))
    for k in ("stdin", "channel", "server"):
        ctx.need(k in seen, "json " + k, "json mode takes items from: " + k)
    if len(sends) != 1 or len(recvs) != 1 or None in {c for c, _ in sends | recvs} or {c for c, _ in sends} != {c for c, _ in recvs} or {n for _, n in sends} != {"0"} or {n for _, n in recvs} != {"1"}:
        ctx.violation("json:channel", "the requests read are not the requests written to the server", "")


# ---- stand-alone mode -------------------------------------------------------------------------------------------------
def standalone(ctx, t):
    ids, rx, tx = set(), set(), set()
    seen = set()
    for name in t.order:
        for p in t.all(name):
            ctx.count("standalone_paths")
            for e in p.events:
                if ev_call(e, "Editor::add_client", "Editor::remove_client"):
                    ids.add(show(e.args[1]))
                if ev_call(e, "Editor::new"):
                    tx.add(channel(e.args[-1])[0])
            rs = list(taken(p))
            first = next((i for i, e in enumerate(p.events) if rs and e is rs[0].start), len(p.events))
            for e, k, tgt, v in outs(p.events[:first]):
                ctx.violation("alone:before", "something is printed before the first line is read", e.where(), trail(p))
            if any(source(r.src) == "stdin" for r in rs):
                begin(ctx, p, first)
                if p.status == "return" and p in t.tasks[name][0]:
                    rem = [i for i, e in enumerate(p.events) if ev_call(e, "Editor::remove_client")]
                    if len(rem) != 1 or any(is_handle(e) for e in p.events[rem[0]:]):
                        ctx.violation("alone:end", "the client is not removed, once, at the end", p.fn if hasattr(p, "fn") else "", trail(p))
            for r in rs:
                src = source(r.src)
                o = outs(r.evs)
                ctx.count("items")
                if src == "stdin":
                    hs = [e for e in r.evs if is_handle(e)]
                    if r.none:
                        if o or hs:
                            ctx.violation("alone:after", "something is printed or handled after the end of the input", r.start.where(), trail(p))
                        continue
                    line = okv(p, r.item)
                    if not line:
                        if o or hs or (r.last and p.status == "return" and not open_end(t, name, r)):
                            ctx.violation("alone:unread", "a line that cannot be read is handled, or ends the editor", r.start.where(), trail(p))
                        continue
                    seen.add("stdin")
                    if len(hs) != 1 or canon(hs[0].args[2]) is not canon(line):
                        if not (open_end(t, name, r) and not hs):
                            ctx.violation("alone:handle", "a line is not handled exactly once, as it was read", r.start.where(), trail(p))
                        continue
                    ids.add(show(hs[0].args[1]))
                    res = okv(p, hs[0].res)
                    if res:
                        ctx.count("responses")
                        if len(o) != 1 or o[0][1] != "print" or not line_of(o[0][3], res):
                            if not (open_end(t, name, r) and not o):
                                ctx.violation("alone:response", "a response is not printed exactly once, as one line", (o[0][0] if o else r.start).where(), trail(p))
                    elif o:
                        ctx.violation("alone:response", "something is printed for a line that has no response", o[0][0].where(), trail(p))
                    # the end: exactly when the client quit
                    q = [e for e in r.evs if ev_call(e, "Editor::removed_clients")]
                    gone = any(v is False and is_empty_of(k, q) for k, v in p.facts.items())
                    stay = any(v is True and is_empty_of(k, q) for k, v in p.facts.items())
                    if r.last and p.status == "return" and not open_end(t, name, r) and not gone:
                        ctx.violation("alone:stop", "the editor ends although the client did not quit and the input goes on", r.start.where(), trail(p))
                    if not r.last and not stay:
                        ctx.violation("alone:quit", "the editor may go on after the client quit", r.start.where(), trail(p))
                elif src == "channel":
                    rx.add(channel(r.src)[0])
                    if r.none:
                        if o:
                            ctx.violation("alone:notification", "something is printed that is not a notification", o[0][0].where(), trail(p))
                        continue
                    seen.add("channel")
                    cl = mk("field", r.item, "clients")
                    st = p.facts.get(mk("variant", cl))
                    lst = mk("vf", cl, "Some", "0")
                    known = st == "None" or any(any(x is lst for x in subterms(k)) for k in p.facts)
                    mine = st == "None" or any(allowed(p, lst, mk("int", int(i))) for i in ids if i.isdigit())
                    if not known and not open_end(t, name, r):
                        ctx.violation("alone:recipient", "a notification is handled without its recipients being looked at", r.start.where(), trail(p))
                    if mine:
                        ctx.count("notifications")
                        if len(o) != 1 or o[0][1] != "print" or not message_line(o[0][3], r.item):
                            if not (open_end(t, name, r) and not o):
                                ctx.violation("alone:notification", "a notification is not printed exactly once, as one line", (o[0][0] if o else r.start).where(), trail(p))
                    elif o:
                        ctx.violation("alone:notification", "a notification for somebody else is printed", o[0][0].where(), trail(p))
                    if r.last and p.status == "return" and not open_end(t, name, r):
                        ctx.violation("alone:deaf", "notifications are no longer printed", r.start.where(), trail(p))
                else:
                    ctx.violation("alone:source", "something else than the input and the notifications is read", r.start.where(), trail(p))
    for k in ("stdin", "channel"):
        ctx.need(k in seen, "alone " + k, "the stand-alone mode takes items from: " + k)
    if len(ids) != 1:
        ctx.violation("alone:client", "the stand-alone editor has not exactly one client: %s" % ", ".join(sorted(ids)), "")
    if rx != tx or len(rx) != 1 or None in rx:
        ctx.violation("alone:channel", "what is printed is not what the editor notifies", "")


def is_empty_of(k, q):
    return k.op in ("is_empty", "pure") and any(canon(x) is canon(e.res) for e in q for x in subterms(k))


def message_line(t, item):
    return t.op == "fmt" and len(t.a[0]) == 2 and canon(t.a[0][0]) is canon(mk("field", item, "message")) and t.a[0][1].op == "str" and t.a[0][1].a[0] == "\n"


def file_of(name, item):
    """the name is the one taken from the list, itself or by its index"""
    n = canon(name)
    return n is canon(item) or n.op == "idx" and canon(n.a[1]) is canon(item) and canon(n.a[0]).op == "arg"


def begin(ctx, p, first):
    """the client is there and the files are open before the first line is read"""
    evs = p.events[:first]
    add = [i for i, e in enumerate(evs) if ev_call(e, "Editor::add_client")]
    if len(add) != 1:
        ctx.violation("alone:begin", "the client of the stand-alone editor is not added once before the first line is read", "", trail(p))
        return
    files = [(i, e) for i, e in enumerate(evs) if e.kind == "iter"]
    eds = [(i, e) for i, e in enumerate(evs) if ev_call(e, "Editor::command_edit")]
    if len(files) != len(eds):
        ctx.violation("alone:files", "a file given is not opened once", "", trail(p))
        return
    for (i, f), (j, e) in zip(files, eds):
        ctx.count("files_opened")
        v = e.args[2]
        d = dict(v.a[3]) if v.op == "agg" else {}
        if not (add[0] < i < j) or "name" not in d or not file_of(d["name"], f.args[1]) or d.get("scratch") is not absint.FALSE:
            ctx.violation("alone:files", "a file given is not opened as a file, by its name", e.where(), trail(p))
