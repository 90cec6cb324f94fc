"""The functions a C program may call, interpreted on every path.  The next event: exactly one event is taken from the
connection's queue; the pointer is null exactly without one or for a kind which C does not know; otherwise the C event is of
the same kind, and each of its fields leads back, through nothing but the conversions to C (texts with NUL replaced, numbers
cast, lists copied whole), to the field of the same name of what was received; likewise every conversion of an item of a list.
The iterator: gives the item at its position and advances by one, or nothing at the end.  No path of these functions can
panic: an expect on a C string is excused only when its NULs were replaced.  The error functions: return values by path
conditions, and every write is inside the length given.  A destroy function gives exactly its pointer back, or nothing for null."""
from common import *
import re

CRATE = "ced_ffi::"
# what the fields of an event are made from: (position in the variant, field or None)
EVENT = {("Echo", "message"): (0, None), ("Info", "client"): (0, None), ("Info", "session"): (1, None),
         ("Menu", "items"): (0, "entries"), ("Status", "items"): (0, None), ("View", "items"): (0, None)}
SAME = ("as_str", "as_ref", "to_owned", "to_string", "borrow", "clone", "deref", "into", "from", "as_bytes", "into_bytes")


def last(n):
    return re.sub(r"::<.*?>", "", str(n)).rsplit("::", 1)[-1]


def norm(t):
    """without what does not change a value"""
    while isinstance(t, T):
        if t.op in ("at", "clone", "ref", "deref") or t.op == "cast" and str(t.a[1]) not in ("u8", "i8", "u16", "i16", "bool"):
            t = t.a[0]
        elif t.op == "pure" and t.a[0] in SAME:
            t = t.a[1]
        elif t.op == "call" and last(t.a[0]) in SAME and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == "fmt" and len(t.a[0]) == 1 and isinstance(t.a[0][0], T):
            t = t.a[0][0]
        elif t.op == "call" and last(t.a[0]) in ("iter", "into_iter") and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            break
    return t


def way(t, root):
    """the fields from root to the value, or None"""
    out = []
    while True:
        t = norm(t)
        if t is root:
            return tuple(reversed(out))
        if t.op == "field":
            out.append(str(t.a[1]))
        elif t.op == "vf":
            out.append((t.a[1], str(t.a[2])))
        else:
            return None
        t = t.a[0]


def lit(t):
    t = norm(t)
    return t.a[0] if t.op in ("str", "char") else None


def nul_replaced(t):
    """(the text before, True) if every NUL in it was replaced by U+FFFD"""
    t = norm(t)
    if t.op in ("pure", "call") and last(t.a[0]) == "replace":
        a = t.a[1] if t.op == "call" else t.a[1:]
        if len(a) == 3 and lit(a[1]) == "\0" and lit(a[2]) == "\ufffd":
            return a[0]
    return None


def cannot_fail(x):
    if x.op == "call" and last(x.a[0]) == "new" and "CString" in x.a[0]:
        s = x.a[1][0]
        if nul_replaced(s) is not None:
            return True
        l = lit(s)
        return l is not None and "\0" not in l
    return False


def excused(p):
    for t, v in p.facts.items():
        if t.op == "variant" and v == "Err" and cannot_fail(t.a[0]):
            return True
    return False


def boxed(t):
    return t.a[1][0] if t.op == "call" and last(t.a[0]) == "into_raw" and "Box" in t.a[0] else None


def null(t):
    return t.op == "call" and last(t.a[0]) in ("null", "null_mut")


def text(t):
    """the text whose C string this is"""
    if t.op == "call" and last(t.a[0]) == "into_raw" and "CString" in t.a[0]:
        c = norm(t.a[1][0])
        if c.op == "vf" and c.a[1] == "Ok":
            c = norm(c.a[0])
        if c.op == "call" and last(c.a[0]) == "new" and "CString" in c.a[0]:
            s = c.a[1][0]
            r = nul_replaced(s)
            return r if r is not None else s
    return None


class Bad(Exception):
    pass


def items(p, t):
    """the collection all of whose items, in order, a list has"""
    n = norm(t)
    if n.op == "agg" and n.a[0] == "array":
        coll = None
        els = [norm(x) for _, x in fields(n)]
        for x in els:
            if x.op != "elem":
                raise Bad("an item of the list is %s" % show(x, 0)[:80])
            coll = coll or x.a[0]
            if norm(coll) is not norm(x.a[0]):
                raise Bad("the list mixes items of two lists")
        given = [e for e in p.events if e.kind == "iter" and (coll is None or norm(e.args[0]) is norm(coll))]
        over = [e for e in p.events if e.kind == "exhausted" and (coll is None or norm(e.args[0]) is norm(coll))]
        if coll is None:
            if len(over) < 1:
                raise Bad("the list is empty whatever was received")
            return [e.args[0] for e in over]
        if not over or [norm(e.res if e.res is not None else e.args[1]) for e in given] != els:
            raise Bad("the list does not have each item of %s once and in order" % show(coll, 0)[:80])
        return [coll]
    return [n]


def check_value(p, name, t, root, want):
    """t, the value of a field for C, is made from root.want"""
    n = norm(t)
    if null(n):
        for f, v in p.facts.items():
            if f.op == "variant" and v == "None" and way(f.a[0], root) == want:
                return
        raise Bad("%s is null although there is a value" % name)
    s = text(n)
    alts = (want, want + (("Some", "0"),))
    if s is not None:
        if way(s, root) not in alts:
            raise Bad("%s is made from %s" % (name, show(norm(s), 0)[:100]))
        return
    b = boxed(n)
    if b is not None:
        b = norm(b)
        if b.op == "agg" and b.a[0] == "adt" and "items" in [str(f) for f, _ in fields(b)]:
            fs = dict((str(f), v) for f, v in fields(b))
            pos = [v for f, v in fs.items() if norm(v).op == "int"]
            if any(v.a[0] != 0 for v in (norm(x) for x in pos)) or not pos:
                raise Bad("%s does not begin with the first item" % name)
            cs = items(p, fs["items"])
            if not any(way(c, root) == want for c in cs):
                raise Bad("%s lists %s" % (name, show(cs[0], 0)[:100]))
            return
        raise Bad("%s is %s" % (name, show(b, 0)[:100]))
    if way(n, root) == want:
        return
    raise Bad("%s is %s" % (name, show(n, 0)[:100]))


def fields(t):
    f = t.a[3]
    if f and isinstance(f[0], tuple):
        return list(f)
    return list(enumerate(f))


def check(ctx):
    F = ctx.F
    E = lambda **kw: Engine(F, iters=2, stores=True, keep_elems=True, opaque=[], **kw)
    api = [f for f in F.real() if f["path"].startswith(CRATE) and f["kind"] in ("Fn", "AssocFn")
           and f.get("name", "").startswith("ced_") and str(f.get("vis")) == "Public"]
    ctx.need(len(api) > 10, "api", "cannot be shown: the functions of the C library are not found")
    cnames = {v["name"] for v in F.adts[CRATE + "event::CedEvent"]["variants"]}
    seen = set()

    def where(f):
        return "%s:%s" % tuple(f["span"][:2])

    def paths(f, eng=None):
        e = eng or E()
        ps = e.run(f["id"])
        ctx.saw(f["path"])
        ctx.count("paths", len(ps))
        for p in ps:
            if p.status in ("stuck", "cut"):
                ctx.violation("cut:" + f["name"], "cannot be shown: %s is too complex to be followed" % f["path"], where(f))
            if p.status == "panic" and not excused(p):
                ev = p.events[-1] if p.events else None
                ctx.violation("abort:" + (f.get("name") or "?"), "%s can panic, which ends the C program" % f["path"],
                              ev.where() if ev else where(f), trail(p))
        return [p for p in ps if p.status == "return" and not excused(p)]

    kinds = {"next_event": 0, "next_item": 0, "destroy": 0}
    for f in api:
        n = f["name"]
        if n.endswith("_create"):
            create(ctx, F, E(), f, where(f))
            continue
        if n.endswith("next_event"):
            kinds["next_event"] += 1
            for p in paths(f):
                next_event(ctx, F, p, cnames, where(f), seen)
            gone = cnames - seen
            if gone:
                ctx.violation("event-gone", "no event of the kind %s reaches the C program" % ", ".join(sorted(gone)), where(f))
            continue
        if n.endswith("next_item"):
            kinds["next_item"] += 1
            for p in paths(f):
                next_item(ctx, F, p, n, where(f))
            continue
        if n.endswith("_destroy"):
            kinds["destroy"] += 1
            for p in paths(f):
                destroy(ctx, p, n, where(f))
            continue
        if "error" in n:
            e = E()
            e.dedupe = False
            error(ctx, paths(f, e), n, where(f))
            continue
        if n.endswith("_version"):
            for p in paths(f):
                version(ctx, p, where(f))
            continue
        paths(f)
    for k, v in kinds.items():
        ctx.need(v, "api:" + k, "cannot be shown: there is no function %s of the C library" % k)
    ctx.count("functions_for_c", len(api))

    convs = its = 0
    for f in F.real():
        if not f["path"].startswith(CRATE) or f["kind"] != "AssocFn" or not f.get("impl_trait"):
            continue
        tr = str(f["impl_trait"])
        own = str(f.get("impl_self") or "")
        if f["name"] == "from" and " as std::convert::From<" in tr:
            e = E()
            ps = paths(f, e)
            root = e.argterm(f, 0)
            convs += 1
            for p in ps:
                try:
                    r = norm(p.ret)
                    fs = [(str(a), b) for a, b in fields(r)] if r.op == "agg" and r.a[0] == "adt" else []
                    if r.op == "agg" and r.a[1] == CRATE + "event::CedEvent":
                        event_fields(ctx, p, r, root)
                        continue
                    if "items" in [a for a, _ in fs]:
                        pos = [norm(v) for a, v in fs if norm(v).op == "int"]
                        if not pos or any(v.a[0] != 0 for v in pos):
                            raise Bad("the list does not begin with the first item")
                        if not any(way(c, root) == () for c in items(p, dict(fs)["items"])):
                            raise Bad("the list is not that of what is converted")
                        continue
                    if not fs:
                        raise Bad("the result is %s" % show(r, 0)[:80])
                    for a, b in fs:
                        ctx.count("fields")
                        check_value(p, "the field '%s'" % a, b, root, (a,))
                except Bad as ex:
                    ctx.violation("conv:" + own.rsplit("::", 1)[-1][:40], "a conversion to C does not carry what was received: %s" % ex,
                                  where(f), trail(p))
        elif f["name"] == "next" and " as std::iter::Iterator>" in tr:
            its += 1
            e = E()
            iterator(ctx, paths(f, e), e.argterm(f, 0), f, where(f))
    ctx.need(convs > 4 and its, "conversions", "cannot be shown: the conversions to C and their iterator are not found")
    ctx.count("conversions", convs)


def next_event(ctx, F, p, cnames, where, seen):
    recv = [e for e in p.events if e.kind in ("call", "await") and last(e.name) in ("recv", "recv_timeout", "try_recv", "recv_deadline")]
    if len(recv) != 1:
        return ctx.violation("one-event", "a call takes %d events from the queue instead of one" % len(recv), where, trail(p))
    r = recv[0].res
    got = variant_fact(p, r)
    ev = None
    for t in subterms(p.ret):
        if isinstance(t, T) and t.op == "vf" and t.a[1] == "Ok" and norm(t.a[0]) is norm(r):
            ev = t
    kind = None
    for t, v in p.facts.items():
        if t.op == "variant":
            x = norm(t.a[0])
            if x.op == "vf" and x.a[1] == "Ok" and norm(x.a[0]) is norm(r):
                kind, ev = v, x
    if null(norm(p.ret)):
        if got != "Err" and (kind is None or (kind in cnames if isinstance(kind, str) else not cnames <= set(kind[1]))):
            ctx.violation("event-lost", "an event which has a C counterpart (%s) is taken and not given to the C program" % (kind if isinstance(kind, str) else "any"), where, trail(p))
        return
    b = boxed(norm(p.ret))
    b = norm(b) if b is not None else None
    if b is None or b.op != "agg" or ev is None or not isinstance(kind, str):
        return ctx.violation("event", "cannot be shown: what is given as the next event is %s" % show(p.ret, 0)[:100], where, trail(p))
    seen.add(b.a[2])
    if b.a[2] != kind:
        return ctx.violation("event-kind", "an event of the kind %s is given as %s" % (kind, b.a[2]), where, trail(p))
    try:
        event_fields(ctx, p, b, ev)
    except Bad as ex:
        ctx.violation("event-field", "an event does not carry what was received: %s" % ex, where, trail(p))


def event_fields(ctx, p, b, ev):
    kind = b.a[2]
    for a, v in fields(b):
        ctx.count("fields")
        pos, sub = EVENT.get((kind, str(a)), (0, str(a)))
        check_value(p, "'%s' of %s" % (a, kind), v, ev, ((kind, str(pos)),) + ((sub,) if sub else ()))


def next_item(ctx, F, p, n, where):
    its = [e for e in p.events if e.kind in ("iter", "exhausted")]
    a = norm(its[0].args[0]) if len(its) == 1 else None
    if a is None or a.op != "arg":
        return ctx.violation("item:" + n, "a call takes %d items from the list instead of one" % len(its), where, trail(p))
    if its[0].kind == "exhausted":
        if not null(norm(p.ret)):
            ctx.violation("item:" + n, "the end of a list is not given as null", where, trail(p))
        return
    b = boxed(norm(p.ret))
    if b is None or norm(b) is not norm(its[0].res if its[0].res is not None else its[0].args[1]):
        ctx.violation("item:" + n, "an item is taken from the list and not given to the C program", where, trail(p))


def destroy(ctx, p, n, where):
    nullp = None
    for t, v in p.facts.items():
        if t.op == "call" and last(t.a[0]) == "is_null" and norm(t.a[1][0]).op == "arg":
            nullp = v
        if t.op == "eq" and any(null(norm(x)) for x in t.a) and any(norm(x).op == "arg" for x in t.a):
            nullp = v
    fr = [e for e in p.events if e.kind == "call" and last(e.name) in ("from_raw", "drop_in_place", "dealloc", "read", "free")]
    keep = [e for e in p.events if e.kind == "call" and last(e.name) in ("forget", "into_raw", "leak")]
    if nullp is True:
        if fr:
            ctx.violation("destroy-null:" + n, "a null pointer is freed", where, trail(p))
        return
    if nullp is None and fr:
        return ctx.violation("destroy-null:" + n, "a pointer is freed without looking whether it is null", where, trail(p))
    if len(fr) != 1 or norm(fr[0].args[0]).op != "arg" or keep:
        ctx.violation("destroy:" + n, "what is given to be destroyed is freed %d times" % (0 if keep else len(fr)), where, trail(p))


def stored_error(t):
    return any(isinstance(x, T) and "LAST_ERROR" in str(x.a)[:4000] for x in subterms(t))


def error(ctx, ps, n, where):
    copies = 0
    for p in ps:
        some = None
        isnull = None
        for t, v in p.facts.items():
            if t.op == "variant" and v in ("Some", "None"):
                some = v
            if t.op == "call" and last(t.a[0]) == "is_null":
                isnull = v
        ret = p.ret
        writes = [e for e in p.events if (e.kind == "call" and last(e.name) in ("copy_nonoverlapping", "copy", "copy_from_slice", "write", "write_bytes", "copy_from", "clone_from_slice", "strcpy", "strncpy", "memcpy"))]
        taken = [e for e in p.events if e.kind == "write" and last(e.name) in ("take", "replace")]
        if n.endswith("length"):
            if taken or writes:
                ctx.violation("length-takes", "asking for the length of the error forgets the error", where, trail(p))
            if some == "None" and value(ret) != -1 or some == "Some" and not is_len(norm(ret)) or some is None:
                ctx.violation("length", "the length of the error is given as %s" % show(ret, 0)[:80], where, trail(p))
            continue
        if isnull is True:
            if value(ret) != -1 or writes or taken:
                ctx.violation("message-null", "without a buffer the result is %s" % show(ret, 0)[:60], where, trail(p))
            continue
        if some == "None":
            if value(ret) != 0:
                ctx.violation("message-none", "without an error the result is %s" % show(ret, 0)[:60], where, trail(p))
            if not writes:
                continue
        if isnull is None and writes:
            ctx.violation("message-null", "a buffer is written without looking whether it is null", where, trail(p))
        msg = None
        for e in writes:
            for a in e.args:
                if is_len(norm(a)):
                    msg = norm(a)
        room = room_of(p, msg)
        if not writes:
            if value(ret) != -2:
                ctx.violation("message-short", "without a copy the result is %s" % show(ret, 0)[:60], where, trail(p))
            elif not short(p):
                ctx.violation("message-short", "the buffer is called too small although it is not known to be", where, trail(p))
            continue
        copies += 1
        if len(writes) != 1 or msg is None or not room:
            ctx.violation("message-room", "the message is copied although the buffer is not known to have room for it and a NUL", where, trail(p))
            continue
        if norm(ret) is not msg:
            ctx.violation("message-length", "the result is not the length of the message but %s" % show(ret, 0)[:60], where, trail(p))
        nul = [e for e in p.events if e.kind == "store" and any(value(norm(a)) == 0 for a in e.args[1:] if isinstance(a, T))]
        ends = [e for e in p.events if e.kind == "index" and any(norm(a) is msg for a in e.args if isinstance(a, T))]
        if not nul and not ends:
            ctx.violation("message-nul", "the copied message is not ended with a NUL", where, trail(p))
    if n.endswith("message") and not copies:
        ctx.violation("message-copy", "the message is never copied", where)


def value(t):
    t = norm(t)
    return t.a[0] if t.op == "int" else None


def is_len(t):
    return t.op == "pure" and t.a[0] == "len"


def is_len_arg(t):
    t = norm(t)
    return t.op == "arg" and t.a[2] == 1


def room_of(p, msg):
    """the length given is not negative and greater than the message's"""
    nonneg = roomy = False
    for t, v in p.facts.items():
        if t.op not in ("lt", "le"):
            continue
        x, y = norm(t.a[0]), norm(t.a[1])
        if is_len_arg(x) and value(y) == 0 and t.op == "lt" and v is False:
            nonneg = True
        if value(x) is not None and is_len_arg(y) and v is True and (value(x) >= 0 or (t.op == "lt" and value(x) >= -1)):
            nonneg = True
        if x is msg and is_len_arg(y) and t.op == "lt" and v is True:
            roomy = True
            nonneg = nonneg or t.a[1].op != "cast"      # compared as a signed number
        if is_len_arg(x) and y is msg and t.op == "le" and v is False:
            roomy = True
            nonneg = nonneg or t.a[0].op != "cast"
    return nonneg and roomy


def short(p):
    """the length given is negative, or not greater than the message's"""
    for t, v in p.facts.items():
        if t.op not in ("lt", "le"):
            continue
        x, y = norm(t.a[0]), norm(t.a[1])
        if is_len_arg(x) and value(y) == 0 and t.op == "lt" and v is True:
            return True
        if is_len_arg(x) and is_len(y) and t.op == "le" and v is True:
            return True
        if is_len(x) and is_len_arg(y) and t.op == "lt" and v is False:
            return True
    return False


def create(ctx, F, E, f, where):
    """null exactly when there is no server, and the reason is kept"""
    E.maxpaths = max(getattr(E, "maxpaths", 0), 4000)
    try:
        ps = E.run(f["id"])
    except RuntimeError:
        return
    ctx.saw(f["path"])
    for p in ps:
        if p.status != "return":
            continue
        kept = any(e.kind in ("enter", "write", "store") and "LocalKey" in e.name for e in p.events)
        if null(norm(p.ret)) and not kept:
            ctx.violation("create-error", "a connection is refused and the error is not kept for the C program", where, trail(p))


def version(ctx, p, where):
    import os, facts
    b = boxed(norm(p.ret))
    b = norm(b) if b is not None else None
    if b is None or b.op != "agg":
        return ctx.violation("version", "cannot be shown: the version is %s" % show(p.ret, 0)[:80], where)
    m = re.search(r'^version\s*=\s*"([^"]*)"', open(os.path.join(facts.REPO, "remote-ffi/Cargo.toml")).read(), re.M)
    num, _, pre = m.group(1).partition("-")
    want = dict(zip(("major", "minor", "patch"), num.split(".")), pre=pre)
    for a, v in fields(b):
        s = text(norm(v))
        ctx.count("fields")
        if s is None or lit(s) != want.get(str(a)):
            ctx.violation("version", "the field '%s' of the version is %s" % (a, show(s if s is not None else v, 0)[:60]), where)


def iterator(ctx, ps, me, f, where):
    for p in ps:
        r = norm(p.ret)
        st = [e for e in p.events if e.kind == "store"]
        v = r.a[2] if r.op == "agg" else None
        inb = None
        for t, val in p.facts.items():
            if t.op == "pure" and t.a[0] == "in_bounds":
                inb = val
                pos = t.a[2]
            if t.op in ("lt", "le"):
                a, b = norm(t.a[0]), norm(t.a[1])
                if t.op == "lt" and is_len(b):
                    inb, pos = val, a
                if t.op == "le" and is_len(a):
                    inb, pos = not val, b
        if v == "None":
            if inb is not False or st:
                ctx.violation("iterator-end", "a list ends although it has another item", where, trail(p))
            continue
        x = norm(fields(r)[0][1]) if r.op == "agg" and v == "Some" else None
        if v != "Some" or x is None or x.op != "idx" or way(x.a[0], me) is None or inb is not True or norm(pos) is not norm(x.a[1]):
            ctx.violation("iterator", "the next item of a list is %s" % show(r, 0)[:80], where, trail(p))
            continue
        i = norm(x.a[1])
        w = way(i, me)
        good = False
        for e in st:
            nv = norm(e.args[1]) if isinstance(e.args[1], T) else None
            good = nv is not None and nv.op == "bin" and nv.a[0].startswith("Add") and norm(nv.a[1]) is i and value(nv.a[2]) == 1
        if w is None or len(st) != 1 or not good:
            ctx.violation("iterator-step", "after an item of a list its position is not advanced by one", where, trail(p))
