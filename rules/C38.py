"""What the terminal client draws.  The task that takes the events of the connection and the loop that takes the queue's are
interpreted: for each kind of event, which handler is called, with what.  That handler is interpreted on every path: where
it prints what, as terms over what was received.  Of a view the name of each buffer and then the lines of its parts, of a
menu its title and search and then its entries, of a hint its lines, of status and echo their texts must be printed, in
order and on the rows meant for them; what is left out must be shown, by what the path tested, not to fit on the screen.
The entry a path found selected is printed differently from those it did not.  Everything printed is flushed at the end."""
from coremodel import *
from common import Tasks
from graph import Graph, head
import C29
import C30

KINDS = ("View", "Menu", "Hint", "Status", "Echo")


class Facts:
    def __init__(self, facts):
        self.facts = facts


def check(ctx):
    F = ctx.F
    G = Graph(F)
    terms = [f for f in F.real() if f.get("impl_self") and f["path"].startswith("ced::tui::") and f["kind"] == "AssocFn"
             and f["args"] > 0 and not f.get("trait") and f.get("name") == "start"]
    if not ctx.need(len(terms) == 1, "terminal", "the terminal client is found"):
        return
    f = terms[0]
    t = Tasks(F, 1, opaque=hidden(F, f), root=f)
    ctx.saw(*t.fns)
    relayed, handled, methods = dispatch(ctx, F, f, t)
    runs = {}
    for k in KINDS:
        got = relayed.get(k)
        if not got:
            ctx.violation("relay:" + k, "%s are not handed to the terminal" % k, f["path"])
            continue
        for v, pay, p, e in got:
            if v is None:
                ctx.violation("relay:" + k, "%s are not handed to the terminal" % k, e.where(), trail(p))
                continue
            hs = handled.get(v)
            if not hs:
                ctx.violation("handle:" + k, "%s are not drawn" % k, e.where(), trail(p))
                continue
            if any(not h for h in hs):
                ctx.violation("handle:" + k, "%s are not drawn on every path" % k, e.where(), trail(p))
                continue
            for h in hs:
                shows(ctx, F, k, h, methods, runs, pay)
    resizing(ctx, F, handled, methods, t)
    rendering(ctx, F)


def rendering(ctx, F):
    """a part of a text is printed as what it is, and a selection is told from what is around it"""
    marks = set()
    n = 0
    for f in F.real():
        if not f["path"].startswith("ced::tui::") or f["locals"][0][0] != "alloc::string::String":
            continue
        at = [i for i in range(1, f["args"] + 1) if re.search(r"TextFragment|Fragment<", f["locals"][i][0])]
        if len(at) != 1:
            continue
        n += 1
        E = Engine(F, iters=1)
        arg = E.argterm(f, at[0] - 1)
        ps = [p for p in E.run(f) if p.status == "return"]
        ctx.saw(*E.fns_seen)
        for p in ps:
            ctx.count("faces")
            if not any(y.op == "field" and y.a[1] == "text" for y in pieces(p.ret)):
                ctx.violation("text", "a part of a text is drawn as something else (%s)" % show(p.ret)[:80], "%s:%s" % tuple(f["span"][:2]), trail(p))
            for q, v in p.facts.items():
                if q.op == "variant" and v == "Selection" and any(y.op == "call" and y.a[0].startswith("crossterm::") and not y.a[0].endswith(("::style", "::new"))
                                                                  for y in subterms(canon(p.ret))):
                    marks.add(f["id"])
    ctx.need(n >= 1, "render", "how texts are drawn is found")
    if not marks:
        ctx.violation("selection", "selections are drawn like the text around them", "core/src/tui.rs")


def hidden(F, f):
    return [g["path"] for g in F.real() if g["path"].startswith("ced::tui::") and g["path"] != f["path"]
            and not g["path"].startswith(f["path"] + "::") and g["kind"] != "Closure" and not g["path"].endswith("::from")
            and g["locals"][0][0] != "bool" and (g["kind"] == "Fn" or g.get("impl_self") == f.get("impl_self"))]


# ---- which handler is called for what -----------------------------------------------------------------------------------
def dispatch(ctx, F, f, t):
    T = f["impl_self"]
    relayed, handled, methods = {}, {}, {}
    for n in t.order:
        for p in t.all(n):
            if p.status == "panic":
                continue
            for r in C29.taken(p):
                if r.none or r.item is None or r.last and p.status == "cut":
                    continue
                k = p.facts.get(mk("variant", r.item))
                s = C29.source(r.src)
                sends = [(e, x) for e, kk, tg, x in C29.outs(r.evs) if kk == "send"]
                calls = []
                for e in r.evs:
                    if e.kind == "call":
                        g = F.by_path.get(e.name)
                        g = g[0] if isinstance(g, list) else g
                        if g and g.get("impl_self") == T:
                            methods[g["id"]] = g
                            calls.append((g["id"], e))
                if s == "channel" or calls:
                    if k is not None:
                        ctx.count("handled")
                        handled.setdefault(k, []).append([(g, tuple(e.args), e) for g, e in calls])
                elif k is not None:
                    ctx.count("relayed")
                    if not sends:
                        relayed.setdefault(k, []).append((None, None, p, r.start))
                    for e, x in sends:
                        v, fs = variant_of(x)
                        pay = [canon(y) for y in fs.values()]
                        mine = canon(mk("vf", r.item, k, "0"))
                        if k in ("Menu", "Hint") and not any(y is mine for y in pay):
                            ctx.violation("payload:" + k, "what is handed to the terminal for %s is not what was received" % k, e.where(), trail(p))
                        relayed.setdefault(k, []).append((v, pay, p, e))
    # one per variant is enough
    for k in relayed:
        one = {}
        for x in relayed[k]:
            one.setdefault(x[0], x)
        relayed[k] = list(one.values())
    for k in handled:
        one = {}
        for h in handled[k]:
            one.setdefault(tuple(g for g, a, e in h), h)
        handled[k] = list(one.values())
    ctx.need(len(handled) >= 4 and len(relayed) >= 5, "dispatch", "the events of the connection and of the queue are told apart (%s, %s)" % (sorted(handled), sorted(relayed)))
    return relayed, handled, methods


# ---- what a handler prints ---------------------------------------------------------------------------------------------
def paths(ctx, F, g, args, runs):
    key = (g["id"], tuple(args))
    if key not in runs:
        E = Engine(F, iters=2, keep_elems=True, stores=True, maxpaths=40000, maxsteps=6000000)
        ps = E.run(g, list(args))
        ctx.saw(*E.fns_seen)
        runs[key] = [p for p in ps if p.status == "return" and not failed(p)]
    return runs[key]


def failed(p):
    return p.ret is not None and variant_of(p.ret)[0] == "Err"


class Print:
    __slots__ = ("row", "text", "attrs", "i", "part")


def screen(ctx, p):
    """[what is printed where], and whether all of it is flushed"""
    row = None
    out = []
    flushed = True
    for i, e in enumerate(p.events):
        if e.kind != "call":
            continue
        if re.search(r"Write::flush$", e.name):
            flushed = True
            continue
        if not re.search(r"(QueueableCommand::queue|ExecutableCommand::execute)$", e.name):
            continue
        flushed = e.name.endswith("execute")
        c = e.args[1]
        n = c.a[1].rsplit("::", 1)[-1] if c.op == "agg" else show(c)[:20]
        d = dict(c.a[3]) if c.op == "agg" else {}
        if n == "MoveTo":
            row = d["1"]
            k = 0
        elif n in ("Print", "PrintStyledContent"):
            t, attrs = styled(d["0"])
            for j, piece in enumerate(lines(t)):
                x = Print()
                x.row, x.text, x.attrs, x.i, x.part = row, piece, attrs, i, j
                out.append(x)
        elif n.startswith("Move") or n.startswith("Scroll"):
            ctx.violation("command:" + n, "cannot be shown: where the terminal prints after %s is not understood" % n, e.where())
    return out, flushed


def styled(t):
    attrs = []
    while t.op == "call" and t.a[0].startswith("crossterm::"):
        n = t.a[0].rsplit("::", 1)[-1]
        if n not in ("style", "new"):
            attrs.append(n)
        if not t.a[1]:
            break
        t = t.a[1][0]
    return t, tuple(attrs)


def lines(t):
    """the rows a text printed takes"""
    c = canon(t)
    if c.op == "pure" and c.a[0] == "join" and len(c.a) > 2 and "\\n" in show(c.a[2]) and c.a[1].op == "agg" and c.a[1].a[0] in ("array", "vec", "list"):
        return [v for _, v in c.a[1].a[3]]
    if c.op == "pure" and c.a[0] == "join" and c.a[1].op == "agg" and "\\n" in "".join(show(x) for x in c.a[2:]):
        return [v for _, v in c.a[1].a[3]]
    return [t]


def holds(text, x, field=None):
    """the text printed is made of x, as it is or rendered"""
    x = canon(x)
    return any(y is x for y in pieces(text))


TEXTS = ("take", "chars", "skip", "join", "clone", "trim_end", "trim", "collect", "iter", "fmt", "lines", "plain", "render")


def pieces(t, n=0):
    """what a text is made of, in order"""
    t = canon(t)
    yield t
    if n > 30:
        return
    if t.op == "fmt":
        for x in t.a[0]:
            yield from pieces(x, n + 1)
    elif t.op == "pure" and t.a[0] in TEXTS:
        yield from pieces(t.a[1], n + 1)
    elif t.op == "call" and (t.a[0].startswith(("ornament::", "crossterm::")) or re.search(r"(to_string|to_owned|into|from|clone|format|Display::fmt)$", t.a[0])) and t.a[1]:
        if not t.a[0].endswith("text_len"):
            yield from pieces(t.a[1][0], n + 1)
    elif t.op == "agg" and t.a[0] in ("array", "vec", "list", "tuple"):
        for _, x in t.a[3]:
            yield from pieces(x, n + 1)
    elif t.op == "clone":
        yield from pieces(t.a[0], n + 1)
    elif t.op == "tuple_":
        for x in t.a:
            yield from pieces(x, n + 1)
    elif t.op == "bin" and t.a[0].startswith("Add"):
        yield from pieces(t.a[1], n + 1)
        yield from pieces(t.a[2], n + 1)


def pos(t):
    """a row or index as an inequality's side, whatever its width"""
    t = canon(t)
    while t.op == "cast":
        t = canon(t.a[0])
    if t.op == "bin" and (t.a[0].startswith("Add") or t.a[0].startswith("Sub")):
        s = 1 if t.a[0].startswith("Add") else -1
        (x, c), (y, d) = pos(t.a[1]), pos(t.a[2])
        r = dict(x)
        for k, v in y.items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v}, c + s * d
    if t.op == "pure" and t.a[0] in ("ssub", "min", "max"):
        return {mk("pure", t.a[0], *[uncast(x) for x in t.a[1:]]): 1}, 0
    return C30.lin(t)


def uncast(t):
    t = canon(t)
    while t.op == "cast":
        t = canon(t.a[0])
    return t


def known(facts):
    out = []
    for q, v in facts.items():
        if q.op in ("lt", "le", "eq") and isinstance(v, bool):
            a, b = pos(q.a[0]), pos(q.a[1])
            if q.op == "lt":
                out.append(C30.minus1(C30.sub(b, a)) if v else C30.sub(a, b))
            elif q.op == "le":
                out.append(C30.sub(b, a) if v else C30.minus1(C30.sub(a, b)))
            elif v:
                out += [C30.sub(a, b), C30.sub(b, a)]
    return out


def size(p, i):
    """the width (0) or height (1) of the screen"""
    for q in list(p.facts) + [x for e in p.events for x in e.args if isinstance(x, T)]:
        for x in subterms(q):
            if x.op == "field" and x.a[1] == str(i) and x.a[0].op == "field" and base_of(x).op == "arg" and "size" in x.a[0].a[1]:
                return canon(x)
    return None


def height_of(screen_rows, p, T):
    return size(p, 1)


def full(p, rows, h):
    """the path shows that `rows` rows are all there is room for above the last one"""
    if h is None:
        return False
    goal = C30.sub(rows, C30.minus1(pos(h)))
    return C30.proves(goal, known(p.facts))


def num(n):
    return {}, n


def plus(a, n):
    return dict(a[0]), a[1] + n


def its(ctx, p, name):
    """iterations over the field of that name: [(event, list, (element, index or None))], and the ends: [(event, list, bounds)]"""
    out = []
    ends = []
    for e in p.events:
        if e.kind in ("iter", "exhausted") and e.args:
            c = coll(p, e)
            if c is not None and c.op == "field" and c.a[1] == name:
                straight(ctx, p, e)
                if e.kind == "iter":
                    out.append((e, c, element(e.args[0], e.args[1], c)))
                else:
                    ends.append((e, c, limit(e.args[0])))
            elif c is None and e.kind == "exhausted" and name == "entries" and limit(e.args[0]):
                ends.append((e, None, limit(e.args[0])))
    return out, ends


def straight(ctx, p, e):
    """gone through from the first to the last"""
    for n, t in adaptors(e.args[0]):
        if n in ("rev", "step_by") or n == "skip" and show(canon(t.a[2])) != "0" or n == "Range" and pos(dict(t.a[3])["start"]) != ({}, 0):
            ctx.violation("order:%s" % n, "what is drawn is not gone through from its first element on (%s)" % show(t)[:80], e.where(), trail(p))


def adaptors(t):
    t = canon(t)
    for _ in range(8):
        if t.op == "agg" and t.a[1].endswith(("Range", "RangeInclusive")):
            yield "Range", t
            return
        if t.op == "agg" and t.a[0] == "adt" and "it" in dict(t.a[3]):
            yield t.a[1].rsplit("::", 1)[-1], t
            t = canon(dict(t.a[3])["it"])
        elif t.op == "pure" and t.a[0] in ("take", "iter", "skip", "zip", "rev", "step_by", "clone"):
            yield t.a[0], t
            t = canon(t.a[1])
        else:
            yield "", t
            return


def coll(p, e):
    """the list gone through: itself, its indexes, or a part of it"""
    n, t = list(adaptors(e.args[0]))[-1]
    if n == "Range":
        ls = [x.a[1] for x in subterms(dict(t.a[3])["end"]) if x.op == "pure" and x.a[0] == "len"]
        if len(ls) == 1:
            return canon(ls[0])
        # a bound found before: the list it is an index into
        src = canon(e.args[0])
        for f in p.events:
            for y in f.args:
                if isinstance(y, T):
                    for x in subterms(y):
                        if x.op == "idx" and canon(x.a[1]).op == "elem" and canon(canon(x.a[1]).a[0]) is src:
                            return canon(x.a[0])
        return None
    return t if n == "" else None


def limit(t):
    """bounds on how many are gone through besides the length"""
    out = []
    for n, t in adaptors(t):
        if n == "Range":
            e = canon(dict(t.a[3])["end"])
            if e.op == "pure" and e.a[0] == "min":
                out += [x for x in e.a[1:] if not (uncast(x).op == "pure" and uncast(x).a[0] == "len")]
            elif not (e.op == "pure" and e.a[0] == "len"):
                out.append(e)
        elif n == "take":
            out.append(t.a[2])
    return out


def element(src, x, c):
    """(the element, its index or None)"""
    ns = [n for n, _ in adaptors(src)]
    if ns[-1] == "Range":
        return mk("idx", c, canon(x)), canon(x)
    if "Enumerate" in ns:
        if x.op == "agg" and x.a[0] == "tuple":
            d = dict(x.a[3])
            return canon(d["1"]), canon(d["0"])
        return canon(absint.field(x, "1")), canon(absint.field(x, "0"))
    if x.op == "agg" and x.a[0] == "tuple" and len(x.a[3]) == 2:
        d = dict(x.a[3])
        return canon(d["1"]), canon(d["0"])
    return canon(x), None


def shows(ctx, F, kind, h, methods, runs, pay):
    last = None
    ok_ = False
    for g, args, e in h:
        m = methods[g]
        a = [Engine(F).argterm(m, 0)]
        E = Engine(F)
        for i in range(1, m["args"]):
            x = args[i] if i < len(args) else E.argterm(m, i)
            a.append(x if x.op in ("bool", "int") else E.argterm(m, i))
        ps = paths(ctx, F, m, a, runs)
        if not ps:
            continue
        if kind in ("Menu", "Hint") and not any(x.op in ("vf", "field") and contains_item(x) for x in args[1:]):
            ctx.violation("payload:" + kind, "what is drawn for %s is not what was received" % kind, e.where())
        ok_ = True
        for p in ps:
            ctx.count("paths_" + kind.lower())
            out, flushed = screen(ctx, p)
            if out and not flushed:
                ctx.violation("flush:" + kind, "what is drawn for %s is not flushed" % kind, m["path"], trail(p))
            {"View": view, "Menu": menu, "Hint": hint, "Status": status, "Echo": status}[kind](ctx, p, out, m, kind)
    if not ok_:
        ctx.violation("handle:" + kind, "%s is not drawn" % kind, "core/src/tui.rs")


def contains_item(x):
    return any(y.op in ("await", "call", "elem") for y in subterms(x))


def where(m):
    return "%s:%s" % tuple(m["span"][:2])


def in_order(out, want):
    """indexes in out of the pieces wanted, in order; None for those missing"""
    i = 0
    res = []
    for w in want:
        j = i
        while j < len(out) and not holds(out[j].text, w):
            j += 1
        if j < len(out):
            res.append(j)
            i = j + 1
        else:
            res.append(None)
    return res


def view(ctx, p, out, m, kind):
    h = size(p, 1)
    want = []
    done = set()
    ends = set()
    opened = []
    for e in p.events:
        if e.kind not in ("iter", "exhausted"):
            continue
        c = coll(p, e)
        if c is None or c.op != "field" or c.a[1] not in ("view", "lenses", "lines"):
            continue
        straight(ctx, p, e)
        if e.kind == "exhausted":
            if not limit(e.args[0]):
                ends.add(c)
            continue
        x = element(e.args[0], e.args[1], c)[0]
        if c.a[1] == "view":
            want.append(("header", field_(x, "buffer")))
            opened.append(field_(x, "lenses"))
        elif c.a[1] == "lenses":
            opened.append(field_(x, "lines"))
        else:
            want.append(("line", x))
        opened.append(c)
    if not want and not any(c.a[1] == "view" for c in ends):
        ctx.violation("view:none", "the view is not gone through", where(m), trail(p))
        return
    at = in_order(out, [w for _, w in want])
    shown = [j for j in at if j is not None]
    complete = all(c in ends for c in opened) and all(j is not None for j in at)
    rows = num(len([x for x in out if shown and x.i == out[shown[0]].i])) if shown else num(0)
    if not complete and not full(p, num(len(shown)), h):
        miss = [w for w, j in zip(want, at) if j is None]
        what = "%s of a view" % ("a line" if not miss or miss[0][0] == "line" else "the name of a buffer")
        ctx.violation("view:" + (miss[0][0] if miss else "rest"), "%s is not shown although there is room" % what, where(m), trail(p))
    # nothing missing between what is shown
    if None in at and any(j is not None for j in at[at.index(None):]):
        ctx.violation("view:gap", "a line of a view is left out between others", where(m), trail(p))
    if shown:
        f = out[shown[0]]
        if f.row is not None and f.part == 0 and not (pos(f.row) == ({}, 0) and shown[0] == min(j for j, x in enumerate(out) if x.i == f.i)):
            ctx.violation("view:row", "the view does not begin in the first row", where(m), trail(p))
        rs = [place(out[j]) for j in shown]
        if any(C30.sub(b, a)[0] or C30.sub(b, a)[1] < 1 for a, b in zip(rs, rs[1:])):
            ctx.violation("view:rows", "two lines of a view are drawn in the same row, or out of order", where(m), trail(p))


def place(x):
    return plus(pos(x.row), x.part)


def field_(x, n):
    return canon(absint.field(x, n))


def menu(ctx, p, out, m, kind):
    h = size(p, 1)
    it, ends = its(ctx, p, "entries")
    head_ = [x for x in out if any(y.op == "field" and y.a[1] == "title" for y in pieces(x.text))
             and any(y.op == "field" and y.a[1] == "search" for y in pieces(x.text))]
    if not head_:
        ctx.violation("menu:title", "a menu is shown without its title and search", where(m), trail(p))
        return
    if pos(head_[0].row) != ({}, 0):
        ctx.violation("menu:title-row", "the title of a menu is not in the first row", where(m), trail(p))
    texts = [field_(x, "text") for _, _, (x, i) in it]
    at = in_order(out, texts)
    for n, ((e, c, (x, i)), j) in enumerate(zip(it, at)):
        ix = pos(i) if i is not None else num(n)
        if j is None:
            if not full(p, ix, h):
                ctx.violation("menu:entry", "an entry of a menu is not shown although there is room", e.where(), trail(p))
            continue
        ctx.count("entries")
        if C30.sub(pos(out[j].row), plus(ix, 1)) != ({}, 0):
            ctx.violation("menu:row", "an entry of a menu is not drawn in the row of its place (%s)" % show(out[j].row)[:80], e.where(), trail(p))
        # which one is selected
        sel = None
        for q, v in p.facts.items():
            if q.op == "eq" and isinstance(v, bool):
                a, b = uncast(q.a[0]), uncast(q.a[1])
                for y, z in ((a, b), (b, a)):
                    if y.op == "field" and y.a[1] == "selected" and pos(z) == ix:
                        sel = v
        if sel is None:
            ctx.violation("menu:selected", "which entry of a menu is drawn as the selected one does not depend on the selection", e.where(), trail(p))
            continue
        attrs(ctx, m, sel, out[j], p)
    if not ends and not any(j is None for j in at):
        # stopped before the end
        n = len(it)
        if not full(p, num(n), h):
            ctx.violation("menu:rest", "entries of a menu are not shown although there is room", where(m), trail(p))
    for e, c, ls in ends:
        for l in ls:
            if not C30.proves(C30.sub(pos(l), C30.minus1(pos(h))), known(p.facts)) and \
                    not (c is not None and C30.proves(C30.sub(pos(l), pos(mk("pure", "len", c))), known(p.facts))):
                ctx.violation("menu:limit", "entries of a menu are not shown although there is room", e.where(), trail(p))


def attrs(ctx, m, sel, x, p):
    k = (id(ctx), m["id"])
    seen = _attrs.setdefault(k, {True: set(), False: set()})
    seen[sel].add(x.attrs)
    if seen[True] & seen[False]:
        ctx.violation("menu:marked", "the selected entry of a menu is drawn like the others", where(m), trail(p))


_attrs = {}


def hint(ctx, p, out, m, kind):
    h = size(p, 1)
    it, ends = its(ctx, p, "text")
    it = [x for x in it]
    ls = [x for _, _, (x, i) in it]
    at = in_order(out, ls)
    shown = [out[j] for j in at if j is not None]
    if shown:
        y = uncast(shown[0].row)
        n = mk("pure", "len", it[0][1])
        top = pos(y) == ({}, 0) or y.op == "pure" and y.a[0] == "ssub" and pos(y.a[1]) == pos(h) and uncast(y.a[2]) is canon(n)
        if not top and not C30.proves(C30.sub(C30.sub(pos(h), pos(n)), pos(y)), known(p.facts)):
            ctx.violation("hint:row", "a hint is not drawn as high as it needs (%s)" % show(shown[0].row)[:80], where(m), trail(p))
        rs = [place(x) for x in shown]
        if any(C30.sub(b, a) != ({}, 1) for a, b in zip(rs, rs[1:])):
            ctx.violation("hint:rows", "the lines of a hint are not drawn one below the other", where(m), trail(p))
    if None in at or not ends:
        last = plus(place(shown[-1]), 1) if shown else None
        if last is None or not C30.proves(C30.sub(last, pos(h)), known(p.facts)):
            ctx.violation("hint:line", "a line of a hint is not shown although there is room", where(m), trail(p))


def status(ctx, p, out, m, kind):
    h, w = size(p, 1), size(p, 0)
    it, ends = its(ctx, p, "status")
    rows = [x for x in out if x.row is not None and h is not None and C30.proves(C30.sub(pos(x.row), C30.minus1(pos(h))), known(p.facts))]
    if not rows:
        ctx.violation("status:row", "echo and status are not drawn in the last row", where(m), trail(p))
        return
    text = mk("tuple_", *[canon(x.text) for x in rows])
    echo = None
    for q, v in p.facts.items():
        if q.op == "variant" and v == "Some" and canon(q.a[0]).op == "field" and canon(q.a[0]).a[1] == "echo":
            echo = canon(mk("vf", q.a[0], "Some", "0"))
    none = any(q.op == "variant" and v == "None" and canon(q.a[0]).op == "field" and canon(q.a[0]).a[1] == "echo" for q, v in p.facts.items())
    if echo is not None and not any(x is echo for x in pieces(text)):
        ctx.violation("status:echo", "the echo is not shown", where(m), trail(p))
    if echo is None and not none:
        ctx.violation("status:echo", "what is drawn does not depend on the echo", where(m), trail(p))
    items = [field_(x, "text") for _, _, (x, i) in it]
    at = 0
    order = list(pieces(text))
    missing = [x for x in items if x not in order]
    wide = known(p.facts)
    noroom = False
    if missing or (it and not ends):
        # the echo fills the row
        for q, v in p.facts.items():
            if isinstance(v, bool) and q.op in ("lt", "le"):
                for y in subterms(q):
                    if y.op in ("call", "pure") and str(y.a[0]).endswith("text_len") or y.op == "pure" and y.a[0] in ("len", "count"):
                        if any(canon(z) is echo for z in subterms(y)) or echo is None:
                            if w is not None and C30.proves(C30.sub(C30.lin(y), pos(w)), wide):
                                noroom = True
        if not noroom:
            ctx.violation("status:item", "an item of the status is not shown although there is room", where(m), trail(p))
        return
    ix = [order.index(x) for x in items]
    if ix != sorted(ix):
        ctx.violation("status:order", "the items of the status are not shown in order", where(m), trail(p))
    if not it and not ends:
        # the status was not even looked at: only where the echo fills the row
        ctx.violation("status:item", "the status is not shown", where(m), trail(p))
    # a part of the status is cut off only where both do not fit
    for y in subterms(text):
        if y.op == "pure" and y.a[0] in ("skip", "take") and items and any(canon(z) in items for z in subterms(y)):
            if not any(isinstance(v, bool) and q.op in ("lt", "le") and any(canon(z) in items for z in subterms(q)) for q, v in p.facts.items()):
                ctx.violation("status:cut", "a part of the status is cut off although there is room", where(m), trail(p))


# ---- another size ---------------------------------------------------------------------------------------------------------
def resizing(ctx, F, handled, methods, t):
    for k, hs in handled.items():
        for h in hs:
            for g, args, e in h:
                m = methods[g]
                if len(args) >= 3 and [l[0] for l in m["locals"][1:m["args"] + 1]][1:] == ["u16", "u16"] or \
                        len(args) == 2 and m["locals"][2][0] == "(u16, u16)":
                    one(ctx, F, m)


def one(ctx, F, m):
    E = Engine(F, iters=1, keep_elems=True, stores=True, maxpaths=20000, maxsteps=3000000)
    for p in E.run(m):
        if p.status != "return" or failed(p):
            continue
        ctx.count("resized")
        out, _ = screen(ctx, p)
        st = [e for e in p.events if e.kind == "store" and any(x.op == "field" and "size" in str(x.a[1]) for x in subterms(e.args[0]))]
        unchanged = any(q.op == "eq" and v is True and any(x.op == "field" and "size" in str(x.a[1]) for x in subterms(q)) for q, v in p.facts.items())
        if unchanged:
            continue
        draws = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name.endswith("QueueableCommand::queue")]
        if not draws:
            ctx.violation("resize:draw", "nothing is drawn anew when the size of the terminal changes", where(m), trail(p))
        elif not st or p.events.index(st[0]) > draws[0]:
            ctx.violation("resize:size", "what is drawn when the size of the terminal changes is drawn for the old size", where(m), trail(p))
