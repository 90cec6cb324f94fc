"""Life of a client over the interpreted server tasks.  Accept: every accepted connection is announced once, with a number
no other connection of the path has, before its reader is started with the same number.  Reader: the last thing a reader
does, on every path, is one farewell with its own number, and it gives up only when the stream ended or failed.  Main:
for an arrival, the stream is registered and the editor told, both with the announced number; for a farewell, the editor
and the register forget exactly that number; a request reaches the editor only if its sender is registered; after every
event the clients that asked to quit, and no others, are forgotten; nothing else removes or adds a registration.
Editor: quitting removes the requester and records only it, and the recorded set is handed over and emptied."""
from common import *
import re


def check(ctx):
    t = tasks(ctx)
    roles = server_roles(ctx, t)
    if not roles:
        return
    reader, accept, join, msg, leave = roles
    do_reader(ctx, t, reader, leave)
    do_accept(ctx, t, accept, reader)
    do_main(ctx, t, join, msg, leave)
    numbers(ctx, join)
    editor(ctx)


def numbers(ctx, join):
    """the number in an arrival only ever grows: a backward slice from it meets nothing but additions"""
    import graph
    F = ctx.F
    done = set()

    def places(o):
        return [o["p"]] if isinstance(o, dict) and o.get("k") in ("move", "copy") else []

    def slice_(f, l):
        if (f["id"], l) in done:
            return
        done.add((f["id"], l))
        ctx.count("values of client numbers")
        ty = f["locals"][l][0] if l < len(f["locals"]) else ""
        if ty in ("u8", "u16", "i8", "i16"):
            ctx.violation("number:narrow", "client numbers are counted in a %s" % ty, f["path"])
        for b in f["blocks"]:
            for st in b["s"]:
                if st.get("s") != "=" or st["p"][0] != l:
                    continue
                rv = st["rv"]
                if rv["r"] in ("bin", "un") and not str(rv.get("op", "")).startswith("Add"):
                    ctx.violation("number:comes-back", "client numbers are computed with %s: they may come back" % rv.get("op"), "%s:%s" % tuple(st["sp"][:2]))
                ops = [rv.get(k) for k in ("o", "a", "b")] + list(rv.get("ops") or [])
                pl = [x for o in ops for x in places(o)] + ([rv["p"]] if rv.get("p") else [])
                for x in pl:
                    if number(f["locals"][x[0]][0]):
                        slice_(f, x[0])
            t = b["t"]
            if t.get("t") == "call" and t.get("dest") and t["dest"][0] == l:
                c = graph.callee(t)
                nm = c["path"].rsplit("::", 1)[-1] if c else ""
                if re.search(r"rem_euclid|_rem$|_sub$|^sub|saturating|_shr$|^min$|^clamp$|random|hash|_div$|fetch_(and|or|xor|sub|min)|_neg$|wrapping_mul", nm):
                    ctx.violation("number:comes-back", "client numbers are computed with %s: they may come back" % nm, f["path"])
                g = F.fns.get(c.get("rid") or c["id"]) if c else None
                if g is not None and number(g["ret"]):
                    slice_(g, 0)
                for o in t["args"]:
                    for x in places(o):
                        if number(f["locals"][x[0]][0]):
                            slice_(f, x[0])

    def number(ty):
        return bool(re.search(r"(?<!\w)([ui](8|16|32|64|128|size)|Atomic[UI]\w+)(?!\w)", ty or "")) and "Event" not in ty
    for f in list(F.fns.values()):
        if not f["path"].startswith("ced::"):
            continue
        for b in f["blocks"]:
            for st in b["s"]:
                rv = st.get("rv") if st.get("s") == "=" else None
                if rv and rv.get("r") == "agg" and rv.get("adt") == "ced::server::Event" and rv.get("variant") == join:
                    for o in rv["ops"]:
                        for x in places(o):
                            slice_(f, x[0])
    ctx.need(bool(done), "numbers", "arrivals are announced with a number")


def do_reader(ctx, t, r, leave):
    own = None
    for p in t.tasks[r][0]:
        if p.status == "panic":
            continue
        snds = [e for e in p.events if ev_call(e, "Sender::send", "Sender::try_send", "Sender::send_blocking")]
        kinds = [variant_of(e.args[1])[0] for e in snds]
        ctx.count("reader_paths")
        if kinds.count(leave) != 1:
            ctx.violation("reader:farewell", "a reader which ends says farewell %d times" % kinds.count(leave), "", trail(p))
            continue
        if kinds[-1] != leave:
            ctx.violation("reader:after-farewell", "a reader forwards a line after its farewell", snds[-1].where(), trail(p))
        ids = tuple_vals(variant_of(snds[kinds.index(leave)].args[1])[1])
        if len(ids) != 1 or ids[0].op not in ("int", "arg", "field"):
            ctx.violation("reader:farewell-id", "a farewell carries %s" % ids, snds[-1].where())
            continue
        own = ids[0]
        for e, k in zip(snds, kinds):
            if k != leave and own not in tuple_vals(variant_of(e.args[1])[1]):
                ctx.violation("reader:two-ids", "a reader uses two client numbers", e.where())
        items = [e for e in p.events if e.kind == "await" and is_call(e.args[0], "StreamExt::next", "AsyncBufReadExt::read_line")]
        if items:
            it = items[-1].res
            st = p.facts.get(mk("variant", it))
            if st == "Some" and p.facts.get(mk("variant", mk("vf", it, "Some", "0"))) == "Ok":
                ctx.violation("reader:early", "a reader gives up a connection which still delivers lines", items[-1].where(), trail(p))
        else:
            ctx.violation("reader:early", "a reader ends without reading", "", trail(p))
    ctx.need(own is not None, "reader", "readers end with a farewell")


def do_accept(ctx, t, a, reader):
    for p in t.all(a):
        used, joined = [], []
        for e in p.events:
            if ev_call(e, "Sender::send", "Sender::try_send", "Sender::send_blocking"):
                joined.append(tuple_vals(variant_of(e.args[1])[1]))
            if e.kind == "spawn" and e.args[0].a[1] == reader:
                caps = list(dict(e.args[0].a[3]).values())
                ids = [v for v in caps if v.op in ("int", "bin")]
                ctx.count("connections")
                if len(ids) != 1:
                    ctx.violation("accept:number", "a reader is not given one client number", e.where())
                    continue
                if sum(ids[0] in j for j in joined) != 1 or ids[0] not in joined[-1]:
                    ctx.violation("accept:announce", "a reader starts for a connection which was not announced with its number",
                                  e.where(), trail(p))
                if ids[0] in used:
                    ctx.violation("accept:unique", "two connections get the same client number", e.where(), trail(p))
                used.append(ids[0])
        for j in joined:
            if sum(x in used for x in j if x.op in ("int", "bin")) != 1 and p in t.tasks[a][0] and p.status == "return":
                ctx.violation("accept:reader", "a connection is announced but no reader is started for it", "", trail(p))
        # every accepted stream is announced
        items = [e for e in p.events if e.kind == "await" and is_call(e.args[0], "StreamExt::next", "::accept")]
        for k, it in enumerate(items):
            more = k + 1 < len(items)
            s = mk("vf", it.res, "Some", "0")
            if p.facts.get(mk("variant", it.res)) == "Some" and p.facts.get(mk("variant", s)) == "Ok" and more:
                st = mk("vf", s, "Ok", "0")
                if sum(any(mentions(x, st) for x in j) for j in joined) != 1:
                    ctx.violation("accept:missed", "an accepted connection is not announced", it.where(), trail(p))
    ctx.need(ctx.counts.get("connections", 0) >= 2, "accept", "the accept loop is understood for two connections")


def is_index(x, idx):
    return strip_at(x) is idx


def do_main(ctx, t, join, msg, leave):
    idx = index_of(t)
    if not ctx.need(idx is not None, "index", "the main task registers the stream of each client"):
        return
    for p in t.all("main"):
        for r in rounds(t, "main", p):
            ch = [e for e in r.evs if e.kind == "call" and e.args and is_index(e.args[0], idx)
                  and mapcalls(e, "insert", "remove", "clear", "retain", "drain", "remove_entry", "entry", "extend")]
            ed = {n: [e for e in r.evs if ev_call(e, "Editor::" + n)] for n in ("add_client", "remove_client", "handle", "removed_clients")}
            if r.state != "Ok" or r.variant is None:
                for e in ch + ed["add_client"] + ed["remove_client"]:
                    ctx.violation("main:stray", "a client is registered or forgotten without an event", e.where(), trail(p))
                continue
            ctx.count("events_" + str(r.variant))
            done = r.complete and not (p.status == "panic" and r.last)
            quits = [e.args[1] for e in r.evs if e.kind == "iter" and any(strip_at(e.args[0]) is q.res for q in ed["removed_clients"])]
            okrem = list(quits)
            if r.variant == join:
                cid, stream = join_parts(t, r)
                ins = [e for e in ch if mapcalls(e, "insert")]
                if done and (len(ins) != 1 or ins[0].args[1] is not cid or ins[0].args[2] is not stream):
                    ctx.violation("main:register", "an arriving client is not registered once with its number and stream",
                                  r.start.where(), trail(p))
                if done and [e.args[1] for e in ed["add_client"]] != [cid]:
                    ctx.violation("main:add", "the editor is not told once of an arriving client, with its number", r.start.where(), trail(p))
                for e in ed["remove_client"] + ed["handle"]:
                    ctx.violation("main:join-other", "an arrival is treated as something else", e.where(), trail(p))
            elif r.variant == leave:
                cid = mk("vf", r.event, leave, "0")
                okrem.append(cid)
                if done and [e.args[1] for e in ed["remove_client"]] != [cid]:
                    ctx.violation("main:remove", "the editor is not told once of a departed client, with its number", r.start.where(), trail(p))
                if done and not any(e.args[1] is cid for e in ch if mapcalls(e, "remove", "remove_entry")):
                    ctx.violation("main:forget", "a departed client stays registered", r.start.where(), trail(p))
                for e in ed["add_client"] + ed["handle"]:
                    ctx.violation("main:leave-other", "a farewell is treated as something else", e.where(), trail(p))
            else:
                for e in ed["add_client"] + ed["remove_client"]:
                    ctx.violation("main:message-other", "a request adds or removes a client behind the editor's back", e.where(), trail(p))
            for e in ed["handle"]:
                who = e.args[1]
                reg = [f for f, v in e.facts.items() if v is True and f.op == "pure" and f.a[0] == "has" and f.a[2] is who
                       and is_index(f.a[1], idx)]
                if not reg:
                    ctx.violation("main:unregistered", "a request is handled without knowing that its sender is still registered",
                                  e.where(), trail(p))
            for e in ch:
                if mapcalls(e, "insert"):
                    if r.variant != join:
                        ctx.violation("main:stray-register", "a stream is registered without an arrival", e.where(), trail(p))
                elif mapcalls(e, "remove", "remove_entry"):
                    if e.args[1] not in okrem:
                        ctx.violation("main:stray-forget", "a client which did not leave is forgotten", e.where(), trail(p))
                else:
                    ctx.violation("main:bulk", "registrations are changed in bulk", e.where(), trail(p))
            for q in quits:
                if done and not any(mapcalls(e, "remove", "remove_entry") and e.args[1] is q for e in ch):
                    ctx.violation("main:quit", "a client which asked to quit stays registered", r.start.where(), trail(p))
            if done and ed["handle"]:
                after = [e for e in ed["removed_clients"] if e.seq > ed["handle"][-1].seq]
                if not after:
                    ctx.violation("main:quit-unseen", "clients which asked to quit are not looked for after a request", r.start.where(), trail(p))
                for q in after:
                    if not any(e.kind == "exhausted" and strip_at(e.args[0]) is q.res for e in r.evs) and \
                            p.facts.get(mk("pure", "is_empty", q.res)) is not True:
                        ctx.violation("main:quit-all", "not every client which asked to quit is forgotten", q.where(), trail(p))
    for v in (join, msg, leave):
        ctx.need(ctx.counts.get("events_" + str(v), 0) > 0, "main:" + str(v), "the main task receives every kind of event")


def join_parts(t, r):
    """(client number, stream) carried by an arrival: by the types of what the accept task sends"""
    for n in t.order:
        for p in t.all(n):
            for e in p.events:
                if ev_call(e, "Sender::send") and variant_of(e.args[1])[0] == r.variant:
                    vals = tuple_vals(variant_of(e.args[1])[1])
                    i = [k for k, v in enumerate(vals) if v.op in ("int", "bin")][0]
                    return payload(r, i), payload(r, 1 - i)
    return None, None


def editor(ctx):
    who = None
    n = 0
    for m, p in requests(ctx):
        quitset = [e for e in p.events if e.kind == "call" and norm(e.name).endswith("HashSet::insert")]
        rem = [e for nme, e in core_calls(p) if nme == "remove_client"]
        if m == "quit" and p.status == "return":
            n += 1
            f = ctx.F.fn("ced::editor::Editor::handle")
            who = mk("arg", f["locals"][2][1], f["id"], 1)
            if [e.args[1] for e in rem] != [who]:
                ctx.violation("quit:remove", "quitting does not remove exactly the requester from the editor", "", trail(p))
            if not any(e.args[1] is who for e in quitset) and not any(w.kind == "write" and mentions(w.args[-1], who) for w in p.events):
                ctx.violation("quit:record", "quitting does not record the requester for the server", "", trail(p))
            for e in quitset:
                if e.args[1] is not who:
                    ctx.violation("quit:other", "quitting records another client", e.where())
        elif m != "quit":
            for e in rem:
                ctx.violation("request:remove", "a %s request removes a client" % m, e.where())
    ctx.need(n > 0, "quit", "quit requests are handled")
    F = ctx.F
    for name in ("add_client", "remove_client"):
        f = F.fn("ced::editor::Editor::" + name)
        if not ctx.need(f is not None, name, "the editor has %s" % name):
            continue
        e = Engine(F, opaque=[CORE], iters=1)
        ps = e.run(f)
        ctx.saw(*e.fns_seen)
        cid = e.argterm(f, 1)
        for p in ps:
            if p.status != "return":
                continue
            cs = [x for nme, x in core_calls(p) if nme in ("add_client", "remove_client")]
            if [(norm(x.name).rsplit("::", 1)[1], x.args[1]) for x in cs] != [(name, cid)]:
                ctx.violation("editor:" + name, "%s of the editor does %s" % (name, cs), "", trail(p))
            # and what the scripts are told
            told = [x for x in p.events if x.kind == "call" and "rlua" in x.name and any(mentions(a, cid) for a in x.args[1:])]
            texts = [x for x in told if x.name.endswith("load") and "_client(" in str(x.args[1])]
            for x in texts:
                ctx.count("scripts told")
                parts = x.args[1].a[0] if x.args[1].op == "fmt" else ()
                flat = "".join(y if isinstance(y, str) else y.a[0] if y.op in ("str", "char") else "\0" if uncl(y) is cid else "\1" for y in parts)
                if not re.fullmatch(r"\s*editor:%s\(\s*\0\s*\)\s*;?\s*" % name, flat):
                    ctx.violation("scripts:" + name, "%s of the editor runs the script %s" % (name, x.args[1]), x.where(), trail(p))
            failed = any(k.op == "variant" and v == "Err" for k, v in p.facts.items())
            if not failed and not [x for x in told if x in texts or not x.name.endswith("load")]:
                ctx.violation("scripts:untold-" + name, "%s of the editor does not tell the scripts" % name, "", trail(p))
    f = F.fn("ced::editor::Editor::removed_clients")
    if ctx.need(f is not None, "removed", "the editor hands over the clients that asked to quit"):
        e = Engine(F, opaque=[CORE], iters=2)
        ps = e.run(f)
        for p in ps:
            if p.status != "return":
                continue
            ctx.count("handovers")
            ctx.saw(*e.fns_seen)
            handover(ctx, p)


def handover(ctx, p):
    srcs = {strip_at(x.args[0]) for x in p.events if x.kind in ("iter", "exhausted")}
    els = [x.args[1] for x in p.events if x.kind == "iter"]
    r = p.ret
    if r.op == "agg" and r.a[0] == "array":
        vals = [v for _, v in r.a[3]]
        if [uncl(v) for v in vals] != els:
            ctx.violation("handover:all", "not every client which asked to quit is handed over", "", trail(p))
    elif not (r.op in ("field", "values", "keys", "pure", "clone", "call") or srcs):
        ctx.violation("handover:unknown", "what is handed over is not understood: %s" % r)
    if not any(norm(e.name).rsplit("::", 1)[-1] in ("clear", "drain", "take") for e in p.events if e.kind == "call") and \
            not any(e.kind == "write" for e in p.events):
        ctx.violation("handover:cleared", "clients which asked to quit are handed over again and again", "", trail(p))


def uncl(t):
    while t.op == "clone" or t.op == "ref":
        t = t.a[0]
    return t
