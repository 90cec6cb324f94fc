"""Buffers never run empty, and files become buffers whole.  All text given to a new buffer or compared with at a reload is
followed back to where it comes from: read completely from the file the buffer names, with a line break at its end, or
known not to be empty.  After a deletion a path must know the buffer to have content left, or append some.  A reload is left
out only when the file is known to be older than the last synchronisation."""
from coremodel import *
import C14, C15

PT = "ced::editor::piece_table::PieceTable::"


def check(ctx):
    m = model(ctx)
    if m is None:
        return
    G, F = m.G, m.F
    bufs = [a["path"] for a in F.adts.values() if a["path"].startswith("ced::editor::buffer::") and a["kind"] == "Struct" and any("PieceTable" in f[1] for f in a["variants"][0]["fields"])]
    if not ctx.need(bufs, "buffers", "buffers hold their content"):
        return
    makers = [f for f in G.local.values() if f["kind"] == "AssocFn" and f.get("impl_self") in bufs and not f.get("trait") and "::tests" not in f["path"]
              and (re.search(r"\b%s\b" % re.escape(bufs[0]), f["locals"][0][0]) or any("&mut" in l[0] for l in f["locals"][1:f["args"] + 1]))]
    outside(ctx, m)
    for f in makers:
        E = Engine(F, iters=1, stores=True, opaque=lambda p: p.startswith("ced::editor::piece_table::") or p.startswith("ced::editor::diff::"))
        for p in E.run(f):
            if p.status == "return":
                maker(ctx, m, f, p)
        ctx.saw(*E.fns_seen)
        ctx.count("buffer_functions")
    for k in ("created", "reloaded"):
        ctx.need(ctx.counts.get(k), k, "buffers are %s" % k)
    deletions(ctx, m)


def outside(ctx, m):
    """contents are made by buffers only, never empty"""
    for f in m.F.real():
        if "::tests" in f["path"] or not f["path"].startswith("ced::") or f["path"].startswith("ced::editor::piece_table::"):
            continue
        for b in f["blocks"]:
            t = b["t"]
            if t["t"] != "call":
                continue
            c = graph.callee(t)
            if f.get("trait") and f.get("impl_self", "").startswith("ced::editor::piece_table::"):
                continue
            if c and norm(c["path"]).startswith("ced::editor::piece_table::") and "PieceTable" in (t.get("dty") or ""):
                n = c["name"]
                if n in ("new", "default") or n == "with_text" and not f["path"].startswith("ced::editor::buffer::"):
                    ctx.violation("made:%s" % f["path"], "a content is made outside of buffers, or empty", f["path"], [])


def ending(E, p, t, e=None):
    """a text is known to end with a line break"""
    t = strip(t)
    if t.op == "fmt":
        last = t.a[0][-1] if t.a[0] else ""
        return ending(E, p, last) if isinstance(last, T) else str(last).endswith("\n")
    if t.op in ("str", "char"):
        return str(t.a[0]).endswith("\n")
    for q, v in p.facts.items():
        if v is True and q.op == "pure" and q.a[0] == "ends_with" and q.a[1] is t and q.a[2].op in ("char", "str") and q.a[2].a[0] in ("\n", "\\n"):
            return True
    return False


def filled(E, p, t):
    t = strip(t)
    if ending(E, p, t):
        return True
    if t.op == "fmt":
        return any(filled(E, p, x) if isinstance(x, T) else str(x) for x in t.a[0])
    for q, v in p.facts.items():
        if q.op == "pure" and q.a[0] == "is_empty" and strip(q.a[1]) is t and v is False:
            return True
    return False


def parts(t):
    """a text without what was added to its end"""
    t = strip(t)
    while t.op == "fmt":
        x = list(t.a[0])
        if not isinstance(x[0], T) or any((y.a[0] if isinstance(y, T) and y.op in ("str", "char") else y) not in ("\n", "\\n") for y in x[1:]):
            return None
        t = strip(x[0])
    return t


def source(t):
    """the opened file a reader reads, directly"""
    while isinstance(t, T):
        t = strip(t)
        if t.op in ("vf", "ref", "deref"):
            t = t.a[0]
        elif t.op == "call" and str(t.a[0]).endswith("BufReader::new"):
            t = t.a[1][0]
        elif t.op == "call" and str(t.a[0]).endswith("File::open"):
            return t
        else:
            return None
    return None


def maker(ctx, m, f, p):
    E = Engine
    op = f["name"]
    reads = {}
    for i, e in enumerate(p.events):
        if e.kind == "call" and e.name in ("io::Read::read_to_string", "std::io::Read::read_to_string", "fs::read_to_string", "std::fs::read_to_string") or e.kind == "call" and e.name.endswith("::read_to_string"):
            src = e.args[0]
            x = source(src)
            if x is not None:
                reads[i] = (e, x.a[1][0])
            elif len(e.args) > 1:
                reads[i] = (e, None)
            if i not in reads and len(e.args) == 1:
                reads[i] = (e, e.args[0])
    for e in p.events:
        if e.kind != "call" or not e.name.startswith(PT):
            continue
        n = e.name[len(PT):]
        if n in ("with_text", "apply_diff") or "&mut" in (e.x.get("atys") or [""])[0] and n not in ("append",):
            t = e.args[-1] if n in ("with_text", "apply_diff", "insert") else None
            if t is None:
                ctx.violation("cut:%s" % op, "a buffer changes its content in a way that may leave it empty", e.where(), trail(p))
                continue
            ctx.count("created" if n == "with_text" else "reloaded")
            if not filled(E, p, t):
                ctx.violation("empty:%s" % op, "a buffer may be given an empty content", e.where(), trail(p))
            if reads:
                if not ending(E, p, t):
                    ctx.violation("open-ended:%s" % op, "the content of a file may be taken without a line break at its end", e.where(), trail(p))
                r, path = list(reads.values())[-1]
                whole(ctx, m, f, p, e, t, r, path)
    quiet(ctx, f, p)


def whole(ctx, m, f, p, e, t, r, path):
    """the content is the text read, nothing else, from the file the buffer names"""
    b = parts(t)
    into = strip(r.args[1]) if len(r.args) > 1 else None
    ok = b is not None and (b.op == "mut" or b is strip(r.res) or any(x is r.res for x in subterms(b)))
    if ok and b.op == "mut" and into is not None and b.a[0] is not into and show(b.a[0]) != show(into):
        ok = False
    if not ok:
        ctx.violation("whole:%s" % f["name"], "the content of the buffer is not the text read from the file", e.where(), trail(p))
    ctx.count("files_read")
    path = strip(path) if path is not None else None
    src = None
    for x in subterms(p.ret):
        if x.op == "agg" and str(x.a[1]).endswith("BufferSource") and x.a[2] == "File":
            src = strip(x.a[3][0][1])
    if src is None:
        ok = path is not None and any(y.op in ("field", "down", "vf") and "source" in show(y) for y in subterms(path)) and show(path).startswith("self.source")
    else:
        ok = path is not None and (same(path, src))
    if not ok:
        ctx.violation("file:%s" % f["name"], "the text of a buffer is read from another file than the one it stands for", e.where(), trail(p))


def quiet(ctx, f, p):
    """no reload is needed only when the file is older than the last synchronisation"""
    r = strip(p.ret)
    if not (r.op == "agg" and r.a[2] == "Ok" and any(x is FALSE for _, x in r.a[3])) or "Result<bool" not in f["locals"][0][0]:
        return
    ctx.count("left_out")
    for q, v in p.facts.items():
        if q.op in ("lt", "le") and len(q.a) == 2:
            a, b = show(q.a[0]), show(q.a[1])
            if "modified(" in a and "modified(" not in b and "self." in b and v is True and q.op == "lt" or "modified(" in b and "modified(" not in a and "self." in a and v is False and q.op == "le":
                return
    ctx.violation("stale:%s" % f["name"], "a reload may be left out although the file is not known to be older than the last synchronisation", f["path"], trail(p))


def deletions(ctx, m):
    G = m.G
    todo = [f for f in G.local.values() if f["kind"] != "Closure" and "::tests" not in f["path"] and not f["path"].startswith(("ced::editor::piece_table::", "ced::editor::buffer::"))
            and any(c["name"] != "append" and norm(c["path"]).startswith(PT) and "&mut" in ty for c, ty, t in mut_calls(f))]
    ctx.need(todo, "deletions", "the core deletes text")
    for f in todo:
        try:
            ps = engine_paths(m, f, 3)
        except TooBig:
            ps = engine_paths(m, f, 1)
        bad = [x for p in ps if p.status == "return" for x in [left(ctx, m, p)] if x]
        if bad and not private(m, f):
            e, t = bad[0]
            ctx.violation("deleted:%s" % f["name"], "a buffer may be left without any content", e.where(), t)
        elif bad:
            for g in callers(m, f):
                for p in engine_paths(m, g, 2, {f["path"]}):
                    x = left(ctx, m, p) if p.status == "return" else None
                    if x:
                        ctx.violation("deleted:%s" % g["name"], "a buffer may be left without any content", x[0].where(), x[1])


def engine_paths(m, f, iters, more=()):
    E = engine(m, keep_inline={f["path"]} | set(more), iters=iters, maxpaths=6000, rounds=lambda c: 1 if coll(m, c) or show(c).count("elem(") > 1 else 2)
    return E.run(f)


def private(m, f):
    return "Restricted" in str(f.get("vis"))


def callers(m, f):
    return [g for g in m.G.local.values() if g["kind"] == "AssocFn" and g is not f and any(
        b["t"]["t"] == "call" and (graph.callee(b["t"]) or {}).get("id") == f["id"] for b in g["blocks"])]


def left(ctx, m, p):
    for i, e in enumerate(p.events):
        if e.kind != "call" or not e.name.startswith(PT) or not e.x.get("atys") or "&mut" not in e.x["atys"][0] or e.name == PT + "append":
            continue
        if e.name == PT + "insert":
            continue
        b = C14.buffer_of(m, e.args[0])
        ctx.count("deletions")
        if b is None:
            return e, trail(p)
        ok = False
        for x in p.events[i + 1:]:
            if x.kind != "call" or not x.name.startswith(PT) or not same(C14.buffer_of(m, x.args[0]) or NONE, b):
                continue
            if x.name == PT + "append" and filled(None, p, x.args[1]):
                ok = True
            elif x.name == PT + "is_empty" and any(q is x.res and v is False for q, v in p.facts.items()):
                ok = True
            elif x.name == PT + "len" and any(x.res in q.a and q.op == "eq" and v is False and any(show(y) == "0" for y in q.a) for q, v in p.facts.items()):
                ok = True
            elif "&mut" in (x.x.get("atys") or [""])[0]:
                ok = False
        if not ok:
            return e, trail(p)
    return None
