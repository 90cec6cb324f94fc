"""Server tasks (main loop, accept, reader, broadcast) are discovered from Server::run by following every spawn; on every
path of every task: a line read is forwarded once, unchanged, with the reader's client id; a forwarded line is handled
once and its response, the term returned by the handler, is written once, followed by a newline, to the stream stored
under the id the line came with, before the next event is received; the main task writes nothing else; client ids
given to two connections differ; and every response the handler builds carries the id of the request it parsed, or null
when the line could not be parsed."""
from common import *


def check(ctx):
    t = tasks(ctx)
    readers = t.role(lambda e: ev_call(e, "AsyncBufReadExt::lines", "AsyncBufReadExt::read_line"))
    ctx.need(len(readers) == 1, "reader", "one task reads lines from a client stream (found %d)" % len(readers))
    mains = t.role(lambda e: ev_call(e, "Editor::handle"))
    ctx.need(mains == ["main"], "main", "the main task of the server handles requests")
    acc = t.role(lambda e: e.kind == "spawn" and e.args[0].a[1] in readers)
    ctx.need(len(acc) == 1, "accept", "one task spawns the readers")
    msgv = set()
    for r in readers:
        reader(ctx, t, r, msgv)
    for a in acc:
        accept(ctx, t, a, readers)
    ctx.need(len(msgv) == 1, "event", "lines are forwarded as one kind of event")
    if msgv:
        mainloop(ctx, t, next(iter(msgv)))
    handler(ctx)


def line_of(p, seq):
    """(line result term) of the stream item awaited at event seq, '' if the stream ended"""


def reader(ctx, t, r, msgv):
    for p in t.all(r):
        items = [i for i, e in enumerate(p.events) if ev_call(e, "StreamExt::next", "AsyncBufReadExt::read_line")]
        for k, i in enumerate(items):
            end = items[k + 1] if k + 1 < len(items) else len(p.events)
            aw = [e for e in p.events[i:end] if e.kind == "await" and e.args[0] is p.events[i].res]
            if not aw:
                continue
            it = aw[0].res
            fin = p.facts
            if fin.get(mk("variant", it)) != "Some":
                continue
            item = absint.mk("vf", it, "Some", "0")
            st = fin.get(mk("variant", item))
            if st is None:
                ctx.violation("reader:unchecked", "the result of reading a line is not examined", aw[0].where())
                continue
            sends = [e for e in p.events[i:end] if ev_call(e, "Sender::send")]
            if st == "Err":
                continue
            line = mk("vf", item, "Ok", "0")
            if k + 1 == len(items) and p not in t.tasks[r][0] and not sends:
                continue        # the path was cut before the end of this round
            mine = [e for e in sends if mentions(e.args[1], line) or mentions(e.args[1], item)]
            ctx.count("line_reads")
            if len(mine) != 1:
                ctx.violation("reader:once", "a line read from a client is forwarded %d times" % len(mine),
                              p.events[i].where(), trail(p))
                continue
            v, fs = variant_of(mine[0].args[1])
            vals = tuple_vals(fs)
            if line not in vals:
                ctx.violation("reader:line", "the forwarded event does not carry the line as it was read: %s"
                              % mine[0].args[1], mine[0].where())
            ids = [x for x in vals if x is not line]
            if len(ids) != 1 or ids[0].op not in ("arg", "field", "int"):
                ctx.violation("reader:id", "the forwarded event does not carry the reader's client id: %s"
                              % mine[0].args[1], mine[0].where())
            msgv.add((v, tuple(vals.index(x) for x in ([line] + ids) if x in vals)))


def tuple_vals(fs):
    vals = []
    for x in fs.values():
        if x.op == "agg" and x.a[0] == "tuple":
            vals += [y for _, y in x.a[3]]
        else:
            vals.append(x)
    return vals


def accept(ctx, t, a, readers):
    for p in t.all(a):
        used = []
        for e in p.events:
            if e.kind == "spawn" and e.args[0].a[1] in readers:
                caps = dict(e.args[0].a[3])
                ids = [v for v in caps.values() if v.op == "int" or (v.op == "bin")]
                ctx.count("connections")
                if len(ids) != 1:
                    ctx.violation("accept:id", "the reader is not given one client id", e.where())
                    continue
                streams = [v for v in caps.values() if any(is_call(x, "StreamExt::next", "::accept") for x in subterms(v))]
                joins = [s for s in p.events[:e.seq] if ev_call(s, "Sender::send") and mentions(s.args[1], ids[0])]
                if len(joins) != 1:
                    ctx.violation("accept:join", "the connection is not announced exactly once with the id of its reader",
                                  e.where(), trail(p))
                elif not streams or not any(same_stream(streams[0], v)
                                            for v in tuple_vals(variant_of(joins[0].args[1])[1])):
                    ctx.violation("accept:stream", "the announced stream is not the one the reader reads", e.where(),
                                  trail(p))
                if ids[0] in used:
                    ctx.violation("accept:unique", "two connections get the same client id", e.where(), trail(p))
                used.append(ids[0])
    ctx.need(ctx.counts.get("connections", 0) >= 2, "accept", "the accept loop is understood for two rounds")


def same_stream(a, b):
    return a is b or uncl(a) is uncl(b)


def uncl(t):
    """the term without clone markers"""
    if not isinstance(t, T):
        return tuple(uncl(x) for x in t) if isinstance(t, tuple) else t
    if t.op == "clone":
        return uncl(t.a[0])
    return mk(t.op, *[uncl(x) for x in t.a])


def mainloop(ctx, t, msg):
    var, pos = msg
    for p in t.all("main"):
        recv = [i for i, e in enumerate(p.events) if ev_call(e, "Receiver::recv")]
        for k, i in enumerate(recv):
            last = k + 1 == len(recv)
            end = recv[k + 1] if not last else len(p.events)
            evs = p.events[i:end]
            aw = [e for e in evs if e.kind == "await" and e.args[0] is p.events[i].res]
            if not aw or p.facts.get(mk("variant", aw[0].res)) != "Ok":
                continue
            event = mk("vf", aw[0].res, "Ok", "0")
            v = p.facts.get(mk("variant", event))
            writes = [e for e in evs if ev_call(e, "write_all", "AsyncWriteExt::write_all")]
            handles = [e for e in evs if ev_call(e, "Editor::handle")]
            if v != var:
                for e in writes:
                    ctx.violation("main:stray", "a stream is written although no request was received", e.where(), trail(p))
                for e in handles:
                    ctx.violation("main:stray-handle", "a request is handled although none was received", e.where(), trail(p))
                continue
            pl = mk("vf", event, var, "0")
            raw, cid = field2(pl, pos[0]), field2(pl, pos[1]) if len(pos) > 1 else None
            ctx.count("events_handled")
            if p.status == "panic" and last:
                continue
            complete = not last or p in t.tasks["main"][0]
            known = [f for f, val in p.facts.items() if f.op == "pure" and f.a[0] == "has" and f.a[2] is cid and val is False]
            if not handles:
                if not known and complete:
                    ctx.violation("main:unhandled", "a request of a connected client is not handled", p.events[i].where(), trail(p))
                for e in writes:
                    ctx.violation("main:stray", "a stream is written without a handled request", e.where(), trail(p))
                continue
            if len(handles) != 1:
                ctx.violation("main:twice", "a request is handled more than once", handles[1].where(), trail(p))
                continue
            h = handles[0]
            if h.args[1] is not cid or h.args[2] is not raw:
                ctx.violation("main:handle-args", "the handler is given (%s, %s), not the client id and the line received"
                              % (h.args[1], h.args[2]), h.where())
            st = p.facts.get(mk("variant", h.res))
            if st == "Err":
                for e in writes:
                    ctx.violation("main:err-write", "a response is written although none was built", e.where(), trail(p))
                continue
            resp = mk("vf", h.res, "Ok", "0")
            if len(writes) != 1:
                if len(writes) > 1 or complete:
                    ctx.violation("main:responses", "%d responses are written for one request" % len(writes), h.where(), trail(p))
                continue
            w = writes[0]
            ctx.count("responses_written")
            if not writes_line(w.args[1], resp):
                ctx.violation("main:payload", "what is written is not the response and a newline: %s" % w.args[1], w.where())
            dst = w.args[0]
            if not (dst.op == "idx" and dst.a[1] is cid):
                ctx.violation("main:dest", "the response is not written to the stream of the requester: %s" % dst, w.where())
    ctx.need(ctx.counts.get("responses_written", 0) > 0, "main", "the main task writes responses")


def field2(t, i):
    return absint.field(t, str(i))


def writes_line(t, resp):
    return t.op == "fmt" and len(fmt_parts(t)) == 2 and fmt_parts(t)[0] is resp and is_nl(fmt_parts(t)[1])


def fmt_parts(t):
    a = t.a[0] if len(t.a) == 1 and isinstance(t.a[0], tuple) else t.a
    return list(a)


def is_nl(x):
    return x == "\n" or (isinstance(x, T) and x.op == "str" and x.a[0] == "\n")


def handler(ctx):
    e = Engine(ctx.F, opaque=[CORE, "ced::editor::Editor::command_*"], iters=1)
    ps = e.run("ced::editor::Editor::handle")
    ctx.saw(*e.fns_seen)
    n = 0
    for p in ps:
        if p.status != "return":
            continue
        v, fs = variant_of(p.ret)
        if v is None:
            ctx.violation("handle:unknown", "what the handler returns is not understood: %s" % p.ret)
            continue
        parsed = [f for f in p.facts if f.op == "variant" and is_call(f.a[0], "::parse", "::from_str")
                  and mentions(f.a[0], line_arg(ctx))]
        if len(parsed) != 1:
            ctx.violation("handle:parse", "the handler does not parse the line once")
            continue
        call = parsed[0].a[0]
        okp = p.facts[parsed[0]] == "Ok"
        if v == "Err":
            src = fs["0"]
            if not any(is_call(x, "to_value") for x in subterms(src)):
                ctx.violation("handle:no-response", "a request gets no response although its result can be encoded: %s" % src)
            continue
        r = fs["0"]
        rid = getf(r, "id")
        n += 1
        if okp:
            want = mk("field", mk("vf", call, "Ok", "0"), "id")
            if rid is not want:
                ctx.violation("handle:id", "a response carries the id %s instead of the id of its request" % rid)
        else:
            if variant_of(rid)[0] != "Null":
                ctx.violation("handle:null-id", "the response to an unreadable request carries the id %s" % rid)
    ctx.count("handler_results", n)
    ctx.need(n >= 10, "handler", "the handler builds responses")


def line_arg(ctx):
    f = ctx.F.fn("ced::editor::Editor::handle")
    return mk("arg", f["locals"][3][1], f["id"], 2)
