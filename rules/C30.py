"""Every function with which the terminal client handles an event (a view, a menu, a hint, a status, a key, a new size) is
interpreted on every path, from any state of the client and any size of the screen, with the functions it calls; those it
hands to other libraries are interpreted by themselves.  Each subtraction must be shown not to go below zero, each index
and slice to stay inside, by what was tested before on the path (linear inequalities between lengths, sizes and positions
in loops); text must not be cut at a byte offset; nothing missing may be taken for present."""
from coremodel import *
from graph import Graph, callee

UNSIGNED = ("len", "count", "ssub", "text_len")


def check(ctx):
    F = ctx.F
    G = Graph(F)
    terms = sorted({f["impl_self"] for f in F.real() if f.get("impl_self") and f["path"].startswith("ced::tui::") and f["args"] > 0
                    and f["kind"] == "AssocFn" and not f.get("trait") and f["path"].endswith("::start")})
    if not ctx.need(len(terms) == 1, "terminal", "the terminal client is found"):
        return
    T = terms[0]
    ents = entries(F, G, T)
    ctx.need(len(ents) >= 4, "handlers", "the terminal client draws what it is sent")
    seen = set()
    done = set()
    for f in ents:
        others = [g["path"] for g in ents if g is not f]
        E = Engine(F, iters=1, keep_elems=True, stores=True, asserts=True, opaque=others, maxpaths=20000, maxsteps=3000000)
        ps = E.run(f)
        seen |= set(E.fns_seen)
        ctx.saw(*E.fns_seen)
        ctx.count("handlers")
        for p in list(ps) + list(E.cuts):
            ctx.count("paths")
            judge(ctx, F, f, p, done)
    # what is only called by other libraries
    rest, _ = G.reach([f["id"] for f in ents])
    for x in sorted(rest):
        f = G.local[x]
        if x in seen or not f["path"].startswith("ced::tui::") or not f["blocks"] or f.get("trait") and "Debug" in f["trait"]:
            continue
        E = Engine(F, iters=1, keep_elems=True, stores=True, asserts=True)
        ps = E.run(f)
        ctx.saw(*E.fns_seen)
        for p in list(ps) + list(E.cuts):
            ctx.count("paths")
            judge(ctx, F, f, p, done)


def entries(F, G, T):
    """methods of the terminal the loop over its events calls"""
    out = {}
    for f in G.local.values():
        if not f["path"].startswith("ced::tui::") or not (f.get("impl_self") == T and f.get("name") == "start" or f["id"].find("::start::") > 0):
            continue
        for b in f["blocks"]:
            c = callee(b["t"]) if b["t"]["t"] == "call" and not b.get("c") else None
            for x in (G.resolve(c) if c else []):
                g = G.local.get(x)
                if g and g.get("impl_self") == T and not g.get("trait") and g["args"] > 0:
                    out[x] = g
    return [out[k] for k in sorted(out)]


# ---- linear inequalities ------------------------------------------------------------------------------------------------
def lin(t, n=0):
    """a term as ({atom: coefficient}, constant)"""
    t = canon(t)
    if t.op == "int":
        return {}, int(t.a[0])
    if t.op == "bin" and n < 12:
        op = t.a[0]
        a, b = t.a[1], t.a[2]
        if op.startswith("Add") or op.startswith("Sub"):
            s = 1 if op.startswith("Add") else -1
            (x, c), (y, d) = lin(a, n + 1), lin(b, n + 1)
            r = dict(x)
            for k, v in y.items():
                r[k] = r.get(k, 0) + s * v
            return {k: v for k, v in r.items() if v}, c + s * d
    if t.op == "cast" and str(t.a[-1]) in ("usize", "u64", "isize", "i64"):
        return lin(t.a[0], n + 1)
    if t.op == "call" and t.a[0].startswith("ornament::"):
        # the library of styled texts: its functions of a shared text only look at it
        t = mk("pure", t.a[0], *[canon(x) for x in t.a[1]])
    return {t: 1}, 0


def sub(a, b):
    r = dict(a[0])
    for k, v in b[0].items():
        r[k] = r.get(k, 0) - v
    return {k: v for k, v in r.items() if v}, a[1] - b[1]


def known(e):
    """inequalities (each >= 0) the facts of an event give"""
    out = []
    for q, v in e.facts.items():
        if q.op in ("lt", "le", "eq") and isinstance(v, bool):
            a, b = lin(q.a[0]), lin(q.a[1])
            if q.op == "lt":
                out.append(minus1(sub(b, a)) if v else sub(a, b))
            elif q.op == "le":
                out.append(sub(b, a) if v else minus1(sub(a, b)))
            elif v:
                out += [sub(a, b), sub(b, a)]
            elif not b[0] and b[1] == 0:
                out.append(minus1(a))
            elif not a[0] and a[1] == 0:
                out.append(minus1(b))
    return out


def minus1(x):
    return x[0], x[1] - 1


def atoms(ls):
    out = set()
    todo = [k for l in ls for k in l[0]]
    while todo:
        k = todo.pop()
        if k not in out:
            out.add(k)
            todo += [x for l in about(k) for x in l[0]]
    return out


def about(t):
    """what is known of an atom itself"""
    out = []
    if t.op == "pure" and t.a[0] == "ssub":
        out += [sub(lin(t.a[1]), lin(t)), sub(lin(t), sub(lin(t.a[1]), lin(t.a[2])))]
    if t.op == "pure" and t.a[0] in ("min", "max"):
        for x in t.a[1:]:
            out.append(sub(lin(x), lin(t)) if t.a[0] == "min" else sub(lin(t), lin(x)))
    if t.op == "elem":
        r = t.a[0]
        if r.op == "agg" and r.a[1].endswith("Range"):
            d = dict(r.a[3])
            out += [minus1(sub(lin(d["end"]), lin(t))), sub(lin(t), lin(d["start"]))]
    return out


def proves(goal, facts):
    """goal >= 0 follows from facts and from atoms being numbers without sign"""
    fs = list(facts)
    for k in atoms([goal] + fs):
        fs += about(k)

    def plain(g):
        return g[1] >= 0 and all(v >= 0 for v in g[0].values())
    todo = [(goal, 0)]
    while todo:
        g, n = todo.pop()
        if plain(g):
            return True
        if n >= 3:
            continue
        neg = {k for k, v in g[0].items() if v < 0}
        for f in fs:
            # a fact that speaks of something in the way
            if (neg & {k for k, v in f[0].items() if v < 0}) or not neg and f[1] < 0:
                todo.append((sub(g, f), n + 1))
    return False


def judge(ctx, F, f, p, done):
    for e in p.events:
        if e.kind == "assert":
            bad = checked(ctx, e)
        elif e.kind == "index":
            bad = indexed(ctx, e)
        elif e.kind == "panic":
            bad = ended(ctx, p, e)
        elif e.kind == "call":
            bad = cut(ctx, F, e)
        else:
            continue
        if bad:
            key = "%s:%s:%s" % (bad[0], f.get("name") or f["path"].rsplit("::", 1)[-1], e.chain[-1] if e.chain else "")
            if key not in done:
                done.add(key)
                ctx.violation(key, bad[1], e.where(), trail(p))


def checked(ctx, e):
    k = str(e.name)
    if k == "overflow:Sub":
        ctx.count("subtractions")
        g = sub(lin(e.args[0]), lin(e.args[1]))
        if signed(e.args[0]) or proves(g, known(e)):
            return None
        return "below-zero", "the client can subtract more than there is: %s - %s" % (show(e.args[0])[:70], show(e.args[1])[:60])
    if k == "bounds":
        ctx.count("indexes")
        if proves(minus1(sub(lin(e.args[0]), lin(e.args[1]))), known(e)):
            return None
        return "outside", "the client can index outside (%s of %s)" % (show(e.args[1])[:60], show(e.args[0])[:60])
    if k in ("div0", "rem0"):
        d = e.args[0]
        g = lin(d)
        if proves(minus1(g), known(e)):
            return None
        return "by-zero", "the client can divide by zero (%s)" % show(d)[:60]
    return None


def signed(t):
    return False


def length(t):
    return lin(mk("pure", "len", t)) if t.op != "agg" or t.a[0] != "array" else ({}, len(t.a[3]))


def textual(e):
    s = e.x.get("aty", "") if isinstance(e.x, dict) else ""
    return re.fullmatch(r"(&('\w+ )?(mut )?)*(str|alloc::string::String)", s)


def indexed(ctx, e):
    ctx.count("indexes")
    coll, i = e.args[0], e.args[1]
    ln = length(coll)
    fs = known(e)
    if i.op == "agg" and re.search(r"Range(To|From|Full|Inclusive|ToInclusive)?$", i.a[1]):
        d = dict(i.a[3])
        if textual(e) and not all(edge(x, coll) for x in d.values()):
            return "cut", "the client cuts a text at a byte offset (%s)" % show(i)[:80]
        st = lin(d["start"]) if "start" in d else ({}, 0)
        en = lin(d["end"]) if "end" in d else ln
        if proves(sub(ln, en), fs) and proves(sub(en, st), fs):
            return None
        return "outside", "the client can take a part beyond the end (%s)" % show(i)[:80]
    if proves(minus1(sub(ln, lin(i))), fs):
        return None
    return "outside", "the client can index outside (%s of %s)" % (show(i)[:60], show(coll)[:60])


def edge(x, coll):
    x = canon(x)
    return x.op == "int" and x.a[0] == 0 or x.op == "pure" and x.a[0] == "len" and canon(x.a[1]) is canon(coll)


def ended(ctx, p, e):
    n = str(e.name)
    if n.endswith("begin_panic") or "panicking::panic" in n:
        # a request of plain data cannot fail to be encoded; a panic asked for by a key is none of drawing
        if any(q.op == "variant" and v == "Err" and is_call(q.a[0], "serde_json::to_value") for q, v in p.facts.items()):
            return None
        if "begin_panic" in n or any(x.op == "str" for a in e.args for x in subterms(a)) and any("Char" == v for q, v in p.facts.items() if q.op == "variant"):
            return None
        return "panics", "the client can end the client"
    t = e.args[0] if e.args else None
    if n.endswith(("Option::unwrap", "Option::expect")):
        ctx.count("missing")
        if t is not None and just_set(p, e, t):
            return None
        return "missing", "the client takes something for present that may be missing (%s)" % (show(t)[:80] if t is not None else "")
    if n.endswith(("Result::unwrap", "Result::expect")):
        # the queue to the task that writes; the terminal itself
        if t is not None and contains_call(t, "async_channel::Sender::send"):
            return None
        if t is not None and any(x.op == "call" and ("crossterm" in x.a[0] or "io::" in x.a[0] or x.a[0].startswith("ced::")) for x in subterms(t)):
            return None
        return "fails", "the client fails with %s" % (show(t)[:80] if t is not None else "an error")
    return None


def just_set(p, e, t):
    """the place was given a value before on this path"""
    x = canon(t)
    while x.op == "clone" or x.op == "pure" and x.a[0] in ("clone", "as_ref", "as_mut"):
        x = canon(x.a[0] if x.op == "clone" else x.a[1])
    v = None
    for s in p.events:
        if s is e:
            break
        if s.kind == "store" and canon(s.args[0]) is x:
            v = s.args[1]
    return v is not None and variant_of(v)[0] == "Some"


CUTS = re.compile(r"::(split_at|split_at_mut|split_off|truncate|drain|remove|swap_remove|insert|insert_str|replace_range|get_unchecked|swap|copy_from_slice|windows|chunks|step_by)$")


def cut(ctx, F, e):
    m = CUTS.search(e.name)
    if not m or e.name in F.by_path or re.search(r"(Hash|BTree)(Map|Set)", e.name):
        return None
    n = m.group(1)
    a = e.args
    fs = known(e)
    if "str" in e.name.lower() and n in ("split_at", "split_off", "truncate", "remove", "insert", "insert_str", "drain", "replace_range"):
        if len(a) > 1 and edge(a[1], a[0]) and n != "remove":
            return None
        return "cut", "the client cuts a text at a byte offset (%s)" % (show(a[1])[:80] if len(a) > 1 else "")
    if n in ("truncate",):
        return None
    if n in ("windows", "chunks", "step_by"):
        return None if proves(minus1(lin(a[1])), fs) else ("by-zero", "the client takes steps of a size that may be zero")
    if n in ("insert", "split_at", "split_off") and len(a) > 1:
        return None if proves(sub(length(a[0]), lin(a[1])), fs) else ("outside", "the client can go beyond the end (%s)" % show(a[1])[:60])
    if n in ("remove", "swap_remove") and len(a) > 1:
        return None if proves(minus1(sub(length(a[0]), lin(a[1]))), fs) else ("outside", "the client can go beyond the end (%s)" % show(a[1])[:60])
    return None
