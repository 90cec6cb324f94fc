"""End of the server and its session device, over the interpreted main and accept tasks.  The main loop ends only after a
farewell, in a state where the register of connected clients is known to be empty, and in that state it always ends.
The session device of the server is removed, on every such end of a server listening on one, after this server bound it
itself; no other file is removed; a directory is removed only when it holds the device and no session is listed any more.
The readiness line is printed once, by a task which holds the bound device, before the first connection is awaited;
nothing is printed before, and when binding fails the server ends with that error."""
from common import *

PRINT = ("io::_print", "Write::write_all", "Write::write_fmt", "Write::write", "stdio::_print")


def check(ctx):
    t = tasks(ctx)
    roles = server_roles(ctx, t)
    if not roles:
        return
    reader, accept, join, msg, leave = roles
    idx = index_of(t)
    if not ctx.need(idx is not None, "index", "the main task registers the stream of each client"):
        return
    ends = 0
    for p in t.tasks["main"][0]:
        rs = list(rounds(t, "main", p))
        bound = bind_of(p)
        if p.status == "return":
            if bound is not None and p.facts.get(mk("variant", bound)) == "Err":
                ctx.count("failed_binds")
                for e in p.events:
                    if removes(e):
                        ctx.violation("bind:cleanup", "the device is removed although it could not be bound", e.where(), trail(p))
                    if ev_call(e, *PRINT):
                        ctx.violation("bind:ready", "the server reports something although it could not bind its device", e.where(), trail(p))
                if variant_of(p.ret)[0] != "Err":
                    ctx.violation("bind:error", "the server does not fail when its device cannot be bound", "", trail(p))
                continue
            if rs and rs[-1].state == "Ok":
                ends += 1
                r = rs[-1]
                if r.variant != leave:
                    ctx.violation("end:event", "the server ends after an event which is not a farewell (%s)" % r.variant,
                                  r.start.where(), trail(p))
                elif not knows_empty(p, r, idx):
                    ctx.violation("end:clients", "the server ends although clients may still be connected", r.start.where(), trail(p))
            cleanup(ctx, p, bound, bool(rs) and rs[-1].state == "Ok")
    for p in t.all("main"):
        for r in rounds(t, "main", p):
            if not r.last and r.variant == leave and knows_empty(p, r, idx):
                ctx.violation("end:stays", "the server goes on although its last client left", r.start.where(), trail(p))
            if r.variant == leave and r.complete and not decided(p, r, idx):
                ctx.violation("end:undecided", "the server does not look whether the last client left", r.start.where(), trail(p))
        for i, e in enumerate(p.events):
            if ev_call(e, *PRINT) and not ev_call(e, "AsyncWriteExt::write_all"):
                ctx.count("prints_main")
                if not printed_ready(p, e):
                    ctx.violation("ready:main", "the server prints something which is not its readiness line", e.where(), trail(p))
    ctx.count("server_ends", ends)
    ctx.need(ends > 0, "end", "the server ends at some point")
    ready(ctx, t, accept)


def bind_of(p):
    """result of binding the listener, if the path does it"""
    for e in p.events:
        if e.kind == "call" and norm(e.name).endswith(("UnixListener::bind", "TcpListener::bind", "SocketListener::bind", "ServerListener::bind")):
            aw = [a for a in p.events if a.kind == "await" and a.args[0] is e.res]
            return aw[0].res if aw else e.res
    return None


def knows_empty(p, r, idx):
    """the register is known to be empty at the end of the round, after its last change"""
    facts = r.facts
    for f, v in list(facts.items()):
        if f.op == "pure" and f.a[0] == "is_empty" and strip_at(f.a[1]) is idx and v is True and current(r, f.a[1], idx):
            return True
        if f.op == "eq" and v is True:
            for a, b in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                if a.op == "pure" and a.a[0] == "len" and strip_at(a.a[1]) is idx and b.op == "int" and b.a[0] == 0 and \
                        current(r, a.a[1], idx):
                    return True
    return False


def current(r, t, idx):
    """t names the version of the register at the end of the round"""
    v = r.ver.get(idx)
    return (t.a[1] if t.op == "at" else None) == v or (t.op != "at" and v in (None, 0))


def decided(p, r, idx):
    facts = r.facts
    for f, v in facts.items():
        g = f.a[0] if f.op == "eq" else f
        for g in ([f] if f.op != "eq" else [f.a[0], f.a[1]]):
            if g.op == "pure" and g.a[0] in ("is_empty", "len") and strip_at(g.a[1]) is idx and current(r, g.a[1], idx):
                return True
        if f.op == "pure" and f.a[0] == "has" and v is True and strip_at(f.a[1]) is idx and current(r, f.a[1], idx):
            return True     # some client is known to be registered
    return False


def removes(e):
    return e.kind == "call" and norm(e.name) in ("std::fs::remove_file", "std::fs::remove_dir", "std::fs::remove_dir_all",
                                                 "fs::remove_file", "fs::remove_dir", "fs::remove_dir_all") or \
        (e.kind == "call" and norm(e.name).rsplit("::", 1)[-1] in ("remove_file", "remove_dir", "remove_dir_all", "unlink"))


def cleanup(ctx, p, bound, ended):
    rem = [e for e in p.events if removes(e)]
    mode = None
    for f, v in p.facts.items():
        if f.op == "variant" and f.a[0].op == "field" and f.a[0].a[1] == "mode" and v in ("Socket", "Tcp"):
            mode = (f.a[0], v)
    if mode is None:
        if ended:
            ctx.violation("cleanup:mode", "the server ends without looking whether it listens on a device", "", trail(p))
        return
    if bound is None or p.facts.get(mk("variant", bound)) != "Ok":
        for e in rem:
            ctx.violation("cleanup:foreign", "a device is removed which this server did not bind", e.where(), trail(p))
        if rem:
            return
    path = mk("vf", mode[0], "Socket", "0")
    files = [e for e in rem if norm(e.name).endswith("remove_file")]
    dirs = [e for e in rem if not norm(e.name).endswith("remove_file")]
    if mode[1] == "Socket":
        if ended:
            ctx.count("cleanups")
            if len(files) != 1:
                ctx.violation("cleanup:once", "the session device is removed %d times when the server ends" % len(files), "", trail(p))
        for e in files:
            if deref(e.args[0]) is not path:
                ctx.violation("cleanup:file", "the server removes %s, which is not its session device" % e.args[0], e.where())
    else:
        for e in files:
            ctx.violation("cleanup:tcp", "a server without session device removes %s" % e.args[0], e.where())
    for e in dirs:
        a = e.args[0]
        if not (norm(e.name).endswith("remove_dir") and mentions(a, path) and any(
                x.op in ("call", "pure", "vf") for x in subterms(a)) and "parent" in show(a, 0)):
            ctx.violation("cleanup:dir", "the server removes the directory %s" % a, e.where())
        if not any(v is True and f.op == "pure" and f.a[0] == "is_empty" and any(is_call(x, "Session::list") for x in subterms(f))
                   for f, v in e.facts.items()):
            ctx.violation("cleanup:listed", "the session directory is removed although sessions may be listed", e.where())


def deref(t):
    while t.op in ("clone", "ref") or (t.op == "pure" and t.a[0] in ("as_ref", "as_path", "deref")):
        t = t.a[0] if t.op != "pure" else t.a[1]
    return t


def printed_ready(p, e):
    """an empty line, printed by a task which holds the bound listener"""
    if not (norm(e.name).endswith("_print") and e.args and e.args[0].op == "fmt"):
        return False
    parts = e.args[0].a[0] if len(e.args[0].a) == 1 and isinstance(e.args[0].a[0], tuple) else e.args[0].a
    s = "".join(x if isinstance(x, str) else (x.a[0] if x.op == "str" else "?") for x in parts)
    if s != "\n":
        return False
    b = bind_of(p)
    if b is not None:
        bi = [x.seq for x in p.events if x.kind == "call" and x.res is b or x.kind == "await" and x.res is b]
        return e.facts.get(mk("variant", b)) == "Ok" and bi and bi[0] < e.seq
    return None


def ready(ctx, t, accept):
    n = 0
    for p in t.all(accept):
        prints = [e for e in p.events if ev_call(e, *PRINT)]
        acc = [e for e in p.events if ev_call(e, "StreamExt::next", "::accept")]
        for e in prints:
            k = printed_ready(p, e)
            if k is False:
                ctx.violation("ready:line", "the accept task prints something else than the readiness line after binding",
                              e.where(), trail(p))
            if k is None:       # bound by the task which started this one: the listener it awaits must come from there
                if not acc and p.status == "return":
                    ctx.violation("ready:unbound", "readiness is reported without accepting connections", e.where(), trail(p))
                for a in acc:
                    if not any(isinstance(x, T) and x.op == "vf" and x.a[1] == "Ok" and
                               any(is_call(y, "UnixListener::bind", "TcpListener::bind") for y in subterms(x)) for x in subterms(a.args[0])):
                        if not any(x.op == "mut" for x in subterms(a.args[0])):
                            ctx.violation("ready:unbound", "connections are awaited on something which was not bound", a.where(), trail(p))
        if acc:
            n += 1
            before = [e for e in prints if e.seq < acc[0].seq]
            if len(prints) != 1 or len(before) != 1:
                ctx.violation("ready:once", "readiness is reported %d times (%d before the first connection is awaited)"
                              % (len(prints), len(before)), acc[0].where(), trail(p))
    ctx.count("accept_paths", n)
    ctx.need(n > 0, "ready", "connections are accepted")
