"""Selections stay inside their buffers.  Every operation that may leave a buffer with less content (a deletion, a reload, a
buffer put in the place of another) must go through all selections all clients have in that buffer, in all their views, and
cut both ends of each to the last offset of the new content, before any client is told anything."""
from coremodel import *
import C12, C14


def check(ctx):
    m = model(ctx)
    if m is None:
        return
    G = m.G
    m.reloads = C14.reloads(ctx, m)
    C14._fields[:] = [f[0] for a in m.F.adts.values() if a["path"].endswith("::Selection") for f in a["variants"][0]["fields"]]
    m.ends = [f[0] for a in m.F.adts.values() if a["path"].endswith("editor::selection::Selection") for f in a["variants"][0]["fields"] if f[2] == "Public" or "Public" in str(f[2])]
    if not ctx.need(len(m.ends) == 2, "selection", "a selection has two ends"):
        return
    last_offset(ctx, m)
    m.clampers = {}
    for f in sorted(G.local.values(), key=lambda f: f["path"]):
        if is_core(m, f) and f["kind"] == "AssocFn" and not m.kinds[f["id"]] and f["id"] not in m.outputs and f["args"] and mutates(m, f):
            k = clamper(ctx, m, f)
            if k is not None:
                m.clampers[f["path"]] = k
    todo = [f for f in G.local.values() if f["id"] in reached(m) and f["kind"] == "AssocFn" and is_core(m, f) and not f.get("trait") and f["args"] and m.core in f["locals"][1][0]]
    open_ = {f["id"] for f in entries(m) if f["id"] in reached(m) and C14.used(m, f)}
    todo += [m.F.fns[i] for i in open_ if m.F.fns[i] not in todo]
    if not ctx.need(open_, "operations", "some operation makes a buffer shorter"):
        return
    done, inl = set(), set()
    for f in sorted(todo, key=lambda f: (f["kind"] == "Closure", len(G.reach([f["id"]])[0]), f["path"])):
        try:
            E = engine(m, opaque=set(m.clampers) | done, keep_inline={f["path"]} | inl, iters=3, maxpaths=6000, rounds=lambda c: 1 if coll(m, c) or show(c).count("elem(") > 1 else 2)
            ps = E.run(f)
        except TooBig:
            if f["id"] not in open_:
                inl.add(f["path"])
                continue
            E = engine(m, opaque=set(m.clampers) | done | inl, keep_inline={f["path"]}, iters=1, maxpaths=8000)
            ps = E.run(f)
        bad = [x for p in ps if p.status in ("return", "panic") for x in [path(ctx, m, f, p)] if x]
        ctx.count("paths", len(ps))
        ctx.saw(*E.fns_seen)
        if f["id"] in open_:
            ctx.count("operations")
            op = f.get("name") or f["path"].rsplit("::", 1)[-1]
            for e, t in bad:
                ctx.violation("shorter:%s" % op, "a buffer may get shorter while selections of clients in it stay beyond its end", e.where(), t)
        if bad and f["id"] not in open_:
            inl.add(f["path"])
        else:
            done.add(f["path"])
    ctx.need(ctx.counts.get("shrinking"), "shrinking", "some path makes a buffer shorter")


_reached = {}


def reached(m):
    """functions that reach a change of content that may make it shorter"""
    if m not in _reached:
        G = m.G
        base = set()
        for f in G.local.values():
            for c, ty, t in mut_calls(f):
                if "&mut" in ty and (c.get("path") or "").startswith(("ced::editor::piece_table::", "ced::editor::buffer::")) and c.get("name") not in ("append",) \
                        and not f["path"].startswith(("ced::editor::piece_table::", "ced::editor::buffer::")):
                    base.add(f["id"])
            if "B+" in m.own[f["id"]]:
                base.add(f["id"])
        _reached[m] = {i for i in G.local if G.reach([i])[0] & base}
    return _reached[m]


def mutates(m, f):
    for x in m.G.reach([f["id"]])[0]:
        for b in m.G.local[x]["blocks"] if x in m.G.local else []:
            for s in b["s"]:
                for q in (s.get("p") or [])[1:]:
                    if isinstance(q, list) and q and q[0] == "f" and len(q) > 3 and q[2] in m.ends and "Selection" in str(q[3]):
                        return True
    return False


def last_offset(ctx, m):
    """the last offset of a content: one less than its length, 0 if it is empty"""
    for f in m.G.local.values():
        if f["path"].startswith("ced::editor::piece_table::") and f.get("name") == "max_offset":
            E = Engine(m.F, opaque=lambda p: p.startswith("ced::editor::piece_table::") and p != f["path"])
            for p in E.run(f):
                if p.status != "return":
                    continue
                ctx.count("last_offset_paths")
                r = strip(p.ret)
                ok = below(r) or r is mk("int", 0) or str(show(r)) == "0"
                if str(show(r)) == "0":
                    ok = any(v is True and "is_empty" in show(q) for q, v in p.facts.items()) or any(q.op == "eq" and v is True or v == 0 for q, v in p.facts.items())
                if not ok:
                    ctx.violation("last-offset", "the last offset of a content is not one less than its length", f["path"], trail(p))
            ctx.saw(*E.fns_seen)


def below(r):
    """a length less one or more"""
    s = show(r)
    r = strip(r)
    if r.op == "bin" and r.a[0] != "Sub":
        return False
    if r.op in ("bin", "sub", "saturating_sub", "checked_sub") or r.op == "pure" and "sub" in str(r.a[0]).lower():
        a = [x for x in r.a if isinstance(x, T)]
        return len(a) == 2 and a[0].op == "call" and str(a[0].a[0]).endswith("::len") and show(a[1]) not in ("0",)
    if r.op in ("vf", "down", "field"):
        return bool(r.a) and isinstance(r.a[0], T) and below(r.a[0])
    return False


def clamper(ctx, m, f):
    """number of the argument that names the buffer whose selections the function cuts, on every path"""
    for k in range(1, f["args"] + 1):
        if not re.search(r"\bstr\b|String", f["locals"][k][0]):
            continue
        try:
            E = engine(m, keep_inline={f["path"]}, iters=1, maxpaths=4000)
            ps = E.run(f)
        except TooBig:
            return None
        b = E.argterm(f, k - 1) if False else argument(f, k)
        rs = [p for p in ps if p.status == "return"]
        if rs and all(clamped(m, p, -1, b, len(p.events)) for p in rs) and any(cuts(m, p) for p in rs):
            ctx.saw(*E.fns_seen)
            ctx.count("clampers")
            return k - 1
    return None


def argument(f, k):
    return mk("var", f["locals"][k][1]) if False else ("arg", f["locals"][k][1])


def is_name(b, t):
    if isinstance(b, tuple):
        return show(canon(t)) == b[1]
    return same(b, t)


def cuts(m, p):
    return any(e.kind == "store" and e.args[0].op == "field" and e.args[0].a[1] in m.ends for e in p.events)


def clamped(m, p, i, b, hi):
    """after event i all selections in buffer b are cut, by event hi"""
    for j in range(i + 1, hi):
        e = p.events[j]
        if e.kind == "call" and e.name in m.clampers and len(e.args) > m.clampers[e.name] and is_name(b, e.args[m.clampers[e.name]]):
            return True
    if any(q.op == "pure" and q.a[0] == "is_empty" and reg(m, strip(q.a[1])) == "C" and v is True for q, v in p.facts.items()):
        return True
    for l in loops(p, i + 1, hi):
        if coll(m, l.over) == "C" and all(client_cut(m, p, i, b, it, l.lo, l.hi) for it in l.items):
            return True
    return False


def of(t, it):
    return any(x is it or strip(x) is strip(it) for x in subterms(t))


def client_cut(m, p, i, b, it, lo, hi):
    for l in loops(p, lo, hi):
        o = strip(l.over)
        if o.op in ("values", "keys"):
            o = strip(o.a[0])
        if o.op == "field" and o.a[1] == m.csels and of(o, it):
            if all(view_cut(m, p, i, b, v, l.lo, l.hi) for v in l.items):
                return True
    return False


def view_cut(m, p, i, b, v, lo, hi):
    """selections in the buffer in one view of one client"""
    for q, val in p.facts.items():
        if val is False and q.op == "pure" and q.a[0] == "has" and is_name(b, q.a[2]) and (of(q.a[1], v) or same_view(q.a[1], v)):
            return True
    for l in loops(p, lo, hi):
        o = canon(l.over)
        if o.op == "idx" and is_name(b, o.a[1]) and (of(l.over, v) or same_view(l.over, v)):
            if all(sel_cut(m, p, i, b, s, l.lo, l.hi) for s in l.items):
                return True
        if o.op in ("field", "idx", "down", "vf", "elem") and (of(l.over, v) or same_view(l.over, v)):
            # run over all buffers of the view: those of other names aside
            good = bool(l.items)
            for x in l.items:
                if any(val is False and q.op == "eq" and any(of(y, x) for y in q.a) and any(is_name(b, y) for y in q.a) for q, val in p.facts.items()):
                    continue
                if not any(all(sel_cut(m, p, i, b, s, k.lo, k.hi) for s in k.items) and of(k.over, x) for k in loops(p, l.lo, l.hi)):
                    good = False
            if good and not (o.op == "idx" and is_name(b, o.a[1])):
                return True
    return False


def same_view(t, v):
    cv = canon(v)
    return any(canon(x) is cv for x in subterms(t)) or (cv.op == "agg" and any(isinstance(y, T) and any(canon(x) is canon(y) for x in subterms(t)) for _, y in cv.a[3]))


def sel_cut(m, p, i, b, s, lo, hi):
    for n in m.ends:
        st = [e for e in p.events[lo:hi] if e.kind == "store" and e.args[0].op == "field" and e.args[0].a[1] == n and same(e.args[0].a[0], s)]
        whole = [e for e in p.events[lo:hi] if e.kind == "store" and same(e.args[0], s)]
        old = mk("field", canon(s), n)
        if st:
            v = st[-1].args[1]
        elif whole and strip(whole[-1].args[1]).op == "agg":
            v = dict(strip(whole[-1].args[1]).a[3]).get(n)
        else:
            v = old
        if v is None or not bounded(m, p, i, b, v):
            return False
    return True


def limit(m, p, i, b, t):
    """the last offset of the content of the buffer, looked at after the change"""
    t = strip(t)
    for x in subterms(t):
        y = strip(x)
        if y.op == "call" and str(y.a[0]).startswith("ced::editor::piece_table::"):
            for j, e in enumerate(p.events):
                if e.kind == "call" and e.res is y:
                    nb = C14.buffer_of(m, e.args[0])
                    if j > i and nb is not None and is_name(b, nb) and (y is t and e.name.endswith("::max_offset") or below(t)):
                        return True
    return False


def bounded(m, p, i, b, v):
    if limit(m, p, i, b, v) or show(strip(v)) == "0":
        return True
    if v.op == "pure" and "min" in str(v.a[0]):
        return any(limit(m, p, i, b, x) for x in v.a[1:] if isinstance(x, T))
    for q, val in p.facts.items():
        if q.op in ("lt", "le") and len(q.a) == 2:
            a, c = q.a
            if same(c, v) and limit(m, p, i, b, a) and val is False:
                return True         # not (n < v), not (n <= v)
            if same(a, v) and limit(m, p, i, b, c) and val is True:
                return True
    return False


def shrinks(m, p, i, e):
    b = C14.content_change(m, p, i, e)
    if b is None:
        return None
    if e.name.startswith(("ced::editor::buffer::", "ced::editor::piece_table::")) and e.name.endswith("::append"):
        return None
    return b


def path(ctx, m, f, p):
    for i, e in enumerate(p.events):
        b = shrinks(m, p, i, e)
        if b is None:
            continue
        ctx.count("shrinking")
        hi = len(p.events)
        for j in range(i + 1, len(p.events)):
            if outputs(m, p.events[j]):
                hi = j
                break
        if p.status == "panic" and hi == len(p.events):
            continue
        if not clamped(m, p, i, b, hi):
            return e, trail(p)
    return None
