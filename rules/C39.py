"""The view that is sent, as a value.  The function that renders a view is interpreted three times: without selections, to see
that what it returns has one item per buffer of the view in order, with the buffer's name, 1 and its number of lines, and for
each of its lenses every line of that buffer once and in order, with one space added and no mark; with a selection, to see
which columns of which lines are noted for it; with what was noted for a line, to see what is marked.  Positions are compared
as terms: the line and the byte offset from its beginning, of the selection's begin and of the end of the range that the
selection's functions give.  The callers are interpreted to see that each client gets its own view, with its own selections
for that view.  That lenses show whole buffers is a rule about every construction of a lens."""
from common import *
from C26 import norm, way, last
import re

PIECES = "ced::editor::piece_table*"
BUFFER = "ced::editor::buffer::Buffer"


def need(ctx, cond, key, msg, where="", path=()):
    if not cond:
        ctx.violation(key, msg, where, path)
    return bool(cond)


def args_of(t):
    return list(t.a[1]) if t.op == "call" else list(t.a[1:])


def named(t, *names):
    t = norm(t)
    return t if t.op in ("call", "pure") and last(t.a[0]) in names else None


def items(t):
    t = norm(t)
    return [v for _, v in t.a[3]] if t.op == "agg" and t.a[0] == "array" else None


def num(t):
    t = norm(t)
    return t.a[0] if t.op == "int" else None


def some(t):
    """the value in a Some, None when it is a None, False when neither"""
    t = norm(t)
    if t.op == "agg" and t.a[2] == "Some":
        return norm(t.a[3][0][1])
    if t.op == "agg" and t.a[2] == "None" or t.op == "const" and "None" in str(t.a[0]):
        return None
    return False


def ranged(p):
    """a lens of the view is said not to be whole"""
    return any(k.op == "variant" and v == "Range" for k, v in p.facts.items())


def renderers(ctx, F):
    fs = [f for f in F.real() if f["path"].startswith("ced::") and f.get("kind") in ("Fn", "AssocFn") and f["args"] >= 1 and
          "ViewParamsItem" in (f.get("ret") or "") and (f.get("ret") or "").startswith("alloc::vec::Vec<")]
    import graph
    G = graph.Graph(F)
    called = {i for f in fs for i in G.reach([f["id"]])[0] if i != f["id"]}
    fs = [f for f in fs if f["id"] not in called]
    need(ctx, len(fs) == 1, "renderer", f"{len(fs)} functions make the view of a client")
    return fs


def position(F, f, what):
    for i in range(f["args"]):
        if what in (f["locals"][1 + i][0] or ""):
            return i
    return None


class View:
    """the terms of one run"""
    def __init__(self, F, f, rounds, facts):
        ib, is_ = position(F, f, "editor::buffer::Buffer"), position(F, f, "selection::Selection")
        self.E = Engine(F, iters=9, opaque=[PIECES, "ced::editor::buffer*"], maxpaths=100000, maxsteps=3000000, rounds=lambda t: rounds(t, self),
                        known=lambda t: "Whole" if norm(t).op == "field" and norm(t).a[1] == "focus" else None)
        self.me = self.E.argterm(f, 0)
        self.buffers = self.E.argterm(f, ib)
        self.sels = self.E.argterm(f, is_)
        self.ps = self.E.run(f, facts=facts(self))

    def buffer(self, t):
        """the name of the buffer t is"""
        t = norm(t)
        if t.op == "field" and t.a[1] == "content":
            t = norm(t.a[0])
        if t.op == "idx" and norm(t.a[0]) is self.buffers:
            return norm(t.a[1])
        if t.op == "vf" and t.a[1] == "Some":
            g = named(t.a[0], "get")
            if g and norm(args_of(g)[0]) is self.buffers:
                return norm(args_of(g)[1])
        return None

    def groups(self, p):
        """[(buffer of the view, its lenses)] as far as the path looks at them"""
        out, seen = [], set()
        for e in p.events:
            if e.kind == "iter" and way(e.args[0], self.me) is not None and e.args[1] not in seen:
                seen.add(e.args[1])
                g = norm(e.args[1])
                out.append((g, []))
            elif e.kind == "iter":
                for g, ls in out:
                    w = way(e.args[0], g)
                    if w and e.args[1] not in seen:
                        seen.add(e.args[1])
                        ls.append(norm(e.args[1]))
        return out

    def lens_lines(self, p):
        """[(lens's buffer, line, text of the line)] in order"""
        out = []
        for e in p.events:
            if e.kind == "iter":
                c = named(e.args[0], "lines")
                if c and self.buffer(args_of(c)[0]) is not None:
                    out.append((norm(args_of(c)[0]), c, norm(e.args[1])))
        return out


def text_with_space(t, line):
    t = norm(t)
    if t.op == "fmt":
        x = list(t.a[0])
        flat = []
        for y in x:
            flat += list(y.a[0]) if isinstance(y, T) and y.op == "fmt" else [y]
        flat = [norm(y).a[0] if isinstance(y, T) and norm(y).op in ("str", "char") else y for y in flat]
        return len(flat) == 2 and isinstance(flat[0], T) and norm(flat[0]) is line and flat[1] == " "
    return False


def check_structure(ctx, F, f):
    shapes = set()
    for ng, nl, nt in ((2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 0)) if ctx.tier == "quick" else ((2, 2, 1), (3, 1, 1), (1, 3, 1), (1, 1, 3), (2, 2, 0)):
        def rounds(t, V):
            if way(t, V.me) is not None:
                return ng
            if named(t, "lines"):
                return nt
            if norm(t).op == "field" and norm(norm(t).a[0]).op == "elem":
                return nl
            return 0
        structure(ctx, F, f, rounds, shapes)
    need(ctx, any(a == 2 for a, _, _ in shapes) and any(b == 2 for _, b, _ in shapes) and any(c == 2 for _, _, c in shapes) or ctx.tier != "quick", "shapes",
         "no path renders a view of several buffers, lenses and lines")


def structure(ctx, F, f, rounds, shapes):
    V = View(F, f, rounds, lambda V: {mk("variant", V.sels): "None"})
    need(ctx, not any(p.status == "stuck" for p in V.ps), "stuck", "the rendering of a view is not understood")
    for p in V.ps:
        if p.status != "return" or ranged(p):
            continue
        gs = V.groups(p)
        got = items(p.ret)
        ctx.count("views")
        if not need(ctx, got is not None and len(got) == len(gs), "buffers", f"a view with {len(gs)} buffers is sent with "
                    f"{len(got) if got is not None else 'an unknown number of'} items", f["path"], trail(p)[:8]):
            continue
        for (g, ls), it in zip(gs, got):
            name, start, end, lenses = (getf(norm(it), n) for n in ("buffer", "start", "end", "lenses"))
            w = way(name, g)
            need(ctx, w == ("0",), "name", "an item of the view is not named after its buffer: " + show(name, 0)[:80], f["path"])
            need(ctx, num(start) == 1, "start", "a buffer that is shown whole does not start at 1: " + show(start, 0)[:60], f["path"])
            lc = named(end, "line_count")
            b = V.buffer(args_of(lc)[0]) if lc else None
            need(ctx, b is not None and (way(b, g) == ("0",) or any(way(b, l) == ("buffer",) for l in ls)), "end",
                 "a buffer that is shown whole does not end at its number of lines: " + show(end, 0)[:80], f["path"])
            lenses = items(lenses)
            if not need(ctx, lenses is not None and len(lenses) == len(ls), "lenses", f"a buffer shown {len(ls)} times is sent "
                        f"{len(lenses) if lenses is not None else '?'} times", f["path"]):
                continue
            for l, x in zip(ls, lenses):
                lines, first = items(getf(norm(x), "lines")), getf(norm(x), "first_line_num")
                need(ctx, num(first) == 1, "first", "a buffer that is shown whole does not begin with line 1: " + show(first, 0)[:60], f["path"])
                mine = [t for b, c, t in V.lens_lines(p) if (lambda n: n is not None and (way(n, l) == ("buffer",) or way(n, g) == ("0",)))(V.buffer(b)) and
                        way(args_of(c)[1], l) == ("focus",)]
                # the same buffer may be rendered once for both
                if not need(ctx, lines is not None and len(lines) == len(mine), "lines", f"{len(mine)} lines of the buffer of a lens are "
                            f"{len(lines) if lines is not None else '?'} lines of the view", f["path"]):
                    continue
                shapes.add((len(gs), len(ls), len(lines)))
                for t, got_ in zip(mine, lines):
                    ctx.count("lines")
                    d = named(got_, "build")
                    d = named(args_of(d)[0], "with_text") if d else None
                    need(ctx, d is not None and text_with_space(args_of(d)[0], t), "text",
                         "a line of the view is not the line of the buffer with a space: " + show(got_, 0)[:120], f["path"])


# ---- what is noted for a selection -------------------------------------------------------------------------------------
def eq(p, a, b):
    for k in (mk("eq", a, b), mk("eq", b, a)):
        if k in p.facts:
            return p.facts[k]
    a, b = norm(a), norm(b)
    if a is b:
        return True
    for k, v in p.facts.items():
        if k.op == "eq" and v in (True, False):
            x, y = norm(k.a[0]), norm(k.a[1])
            if x is a and y is b or x is b and y is a:
                return v
    return None


def lt(p, a, b):
    for k, v in p.facts.items():
        if k.op in ("lt", "le") and v in (True, False):
            x, y = norm(k.a[0]), norm(k.a[1])
            if k.op == "lt":
                if x is a and y is b:
                    return v
            elif x is b and y is a:      # b <= a
                return not v
    return None


def end_of(p, s, t):
    """'begin' or 'end' when t is that offset of the selection s"""
    t = norm(t)
    m = named(t, "min", "max")
    if m:
        w = {way(a, s) for a in args_of(m)}
        if w == {("anchor",), ("cursor",)}:
            return "begin" if last(m.a[0]) == "min" else "end"
    w = way(t, s)
    if w not in (("anchor",), ("cursor",)):
        return None
    base = norm(t.a[0])
    other = next((x for k in p.facts if k.op in ("lt", "le") for x in (norm(k.a[0]), norm(k.a[1])) if way(x, s) in (("anchor",), ("cursor",)) and way(x, s) != w), None)
    if other is None:
        return None
    less, more = lt(p, t, other), lt(p, other, t)
    if less is True:
        return "begin"
    if more is True:
        return "end"
    if less is False and more is False:
        return "both"
    if more is False:
        return "begin"
    if less is False:
        return "end"
    return None


class Pos:
    def __init__(self, V, p, s):
        self.V, self.p, self.s = V, p, s

    def offset(self, t):
        """('begin',), ('end',), ('both',) for an offset of the selection, ('after',) for the end of its range"""
        t = norm(t)
        k = end_of(self.p, self.s, t)
        if k:
            return {k} if k != "both" else {"begin", "end"}
        if t.op == "field" and t.a[1] in ("end", "start"):
            r = named(t.a[0], "selection_range")
            if r and self.V.buffer(args_of(r)[0]) is not None and norm(args_of(r)[1]) is self.s:
                return {"after"} if t.a[1] == "end" else {"begin"}
        return set()

    def line(self, t):
        """the offset whose line t is"""
        t = norm(t)
        if t.op == "field" and t.a[1] == "l":
            x = norm(t.a[0])
            if x.op == "vf" and x.a[1] == "Some":
                c = named(x.a[0], "offset_to_coord")
                if c and self.V.buffer(args_of(c)[0]) is not None:
                    return norm(args_of(c)[1])
        return None

    def byte(self, t):
        """(offset, added) when t is the offset's distance from the beginning of its line"""
        t, add = norm(t), 0
        if t.op == "bin" and t.a[0] == "Add" and num(t.a[2]) is not None:
            add, t = num(t.a[2]), norm(t.a[1])
        if t.op == "bin" and t.a[0] == "Sub":
            off, x = norm(t.a[1]), norm(t.a[2])
            if off.op == "bin" and off.a[0] == "Add" and num(off.a[2]) is not None:
                add, off = add + num(off.a[2]), norm(off.a[1])
            if x.op == "vf" and x.a[1] == "Some":
                c = named(x.a[0], "coord_to_offset")
                if c and self.V.buffer(args_of(c)[0]) is not None:
                    co = norm(args_of(c)[1])
                    l, col = getf(co, "l"), getf(co, "c")
                    if l is not None and num(col) == 1 and self.line(l) is off:
                        return off, add
        return None, None

    def is_begin_line(self, t):
        o = self.line(t)
        return o is not None and "begin" in self.offset(o)

    def is_end_line(self, t):
        o = self.line(t)
        if o is None:
            return False
        k = self.offset(o)
        return "after" in k or "end" in k and self.at_max(o)

    def at_max(self, o):
        """the offset is the last one: there is no character after it to take the position of"""
        for k, v in self.p.facts.items():
            if k.op == "eq" and v is True:
                for a, b in ((k.a[0], k.a[1]), (k.a[1], k.a[0])):
                    m = named(b, "max_offset")
                    if norm(a) is o and m and self.V.buffer(args_of(m)[0]) is not None:
                        return True
        return False

    def is_begin_byte(self, t):
        o, n = self.byte(t)
        return o is not None and n == 0 and "begin" in self.offset(o)

    def is_end_byte(self, t):
        o, n = self.byte(t)
        if o is None:
            return False
        k = self.offset(o)
        return "after" in k and n == 0 or "end" in k and n == 1 and self.at_max(o)


def fresh_map(t):
    t = norm(t)
    return t.op in ("call", "pure") and last(t.a[0]) in ("new", "default", "with_capacity") and "Map" in t.a[0]


def noted(V, p, events):
    """[(key, from, to, event)]"""
    out = []
    for e in events:
        vals = key = None
        if e.kind == "call" and last(e.name) == "push" and norm(e.args[0]).op == "idx" and fresh_map(norm(e.args[0]).a[0]):
            key, vals = norm(e.args[0]).a[1], [e.args[1]]
        elif e.kind == "call" and e.name.endswith("Map::insert") and fresh_map(e.args[0]):
            key = e.args[1]
            vals = items(e.args[2])
            if vals is None and e.x.get("closure") is not None:
                try:
                    rs = [q.ret for q in V.E.run_value(e.x["closure"], []) if q.status == "return"]
                except (KeyError, AttributeError, TypeError):
                    rs = []          # a function of the library
                    if re.search(r"::(new|default)\b", show(e.x["closure"], 0)):
                        continue
                vals = items(rs[0]) if len(rs) == 1 and rs[0] is not None else None
            if vals is None:
                vals = [] if e.x.get("ensure") and e.x.get("closure") is None else [None]
        if vals is None:
            continue
        for v in vals:
            v = norm(v) if v is not None else None
            if v is not None and v.op == "agg" and v.a[0] == "tuple" and len(v.a[3]) == 2:
                out.append((norm(key), v.a[3][0][1], v.a[3][1][1], e))
            else:
                out.append((norm(key), None, None, e))
    return out


def check_noted(ctx, F, f):
    def rounds(t, V):
        if named(t, "lines"):
            return 0
        return 2 if show(t, 0).startswith("range") else 1
    V = View(F, f, rounds, lambda V: {mk("variant", V.sels): "Some"})
    kinds = set()
    for p in V.ps:
        if p.status != "return" or ranged(p):
            continue
        ev = p.events
        starts = [i for i, e in enumerate(ev) if e.kind == "iter" and from_selections(V, e.args[0])]
        marks_before = noted(V, p, ev[:starts[0]] if starts else ev)
        need(ctx, not marks_before, "noted-nothing", "columns are noted without a selection", f["path"])
        for n, i in enumerate(starts):
            part = ev[i:starts[n + 1]] if n + 1 < len(starts) else ev[i:]
            stop = [j for j, e in enumerate(part) if e.kind == "exhausted" and norm(e.args[0]) is norm(ev[i].args[0])]
            part = part[:stop[0]] if stop else part
            s = norm(ev[i].args[1])
            c = norm(ev[i].args[0])
            key = norm(c.a[1]) if c.op == "idx" else norm(args_of(named(c.a[0], "get"))[1]) if c.op == "vf" and named(c.a[0], "get") else None
            need(ctx, key is not None and any(way(key, g) == ("0",) or any(way(key, l) == ("buffer",) for l in ls) for g, ls in V.groups(p)),
                 "other-buffer", "a buffer is marked with the selections of another: " + show(c, 0)[:100], f["path"])
            P = Pos(V, p, s)
            ctx.count("selections")
            if same_offsets(p, s) and apart(p, P):
                continue             # cannot be: begin and end are one offset
            mine = noted(V, p, part)
            loops = [e for e in part if e.kind == "iter" and norm(e.args[0]).op in ("rangeincl", "range") or
                     e.kind == "iter" and named(e.args[0], "rangeincl", "range")]
            if loops and all(loop_range(P, e.args[0]) for e in loops) and cannot(P, p, loops):
                continue
            bad = lambda key, msg: need(ctx, False, key, msg, f["path"], [show(k, 0)[:100] + f" {v}" for k, v in list(p.facts.items())[-8:]])
            if loops:
                okr = all(loop_range(P, e.args[0]) for e in loops)
                if not okr:
                    bad("noted-lines", "the lines noted for a selection do not go from its first to its last: " + show(loops[0].args[0], 0)[:150])
                    continue
                if len(mine) != len(loops):
                    bad("noted-count", f"{len(mine)} ranges are noted on {len(loops)} lines")
                    continue
            elif len(mine) != 1:
                if any(e.kind == "exhausted" and loop_range(P, e.args[0]) for e in part):
                    continue         # no line between the first and the last: cannot be, the first is not after the last
                bad("noted-count", f"{len(mine)} ranges are noted for a selection")
                continue
            for j, (k, a, b, e) in enumerate(mine):
                if a is None:
                    bad("noted-unknown", "what is noted for a selection is not understood")
                    continue
                x = norm(k.a[1]) if k.op == "bin" and k.a[0] == "Sub" and num(k.a[2]) == 1 else None
                if x is None:
                    bad("noted-key", "a range is not noted under its line: " + show(k, 0)[:100])
                    continue
                elem = loops and x is norm(loops[j].args[1])
                first = True if P.is_begin_line(x) else rel(P, p, x, P.is_begin_line)
                end = True if P.is_end_line(x) else rel(P, p, x, P.is_end_line)
                if first and end is None and apart(p, P):
                    end = False
                if end and first is None and apart(p, P):
                    first = False
                if not (elem or first):
                    bad("noted-line", "a range is noted for a line the selection does not have: " + show(x, 0)[:100])
                    continue
                fa, tb = some(a), some(b)
                if first is None or end is None:
                    if not loops and first and before_end(P, p, x) and tb is None:
                        end = False
                    else:
                        bad("noted-which", "it is not known whether a line is the first or the last of the selection")
                        continue
                if not loops and not end and not before_end(P, p, x):
                    bad("noted-one", "only the first line of a selection of several lines is noted")
                ok_a = fa is not None and fa is not False and P.is_begin_byte(fa) if first else fa is None or fa is not False and num(fa) == 0
                ok_b = tb is not None and tb is not False and P.is_end_byte(tb) if end else tb is None
                kinds.add((bool(first), bool(end)))
                ctx.count("ranges noted")
                if not ok_a:
                    bad("noted-from", "a line's mark does not begin where the selection does: " + show(a, 0)[:120])
                if not ok_b:
                    bad("noted-to", "a line's mark does not end where the selection does: " + show(b, 0)[:120])
    for k in ((True, True), (True, False), (False, True), (False, False)):
        need(ctx, k in kinds, f"never-{k[0]}-{k[1]}", f"no selection has a line that is its {'first' if k[0] else 'later'} and {'last' if k[1] else 'not its last'}")


def from_selections(V, t):
    while True:
        t = norm(t)
        if t.op in ("vf", "field", "idx", "elem"):
            t = t.a[0]
        elif named(t, "get", "values", "iter", "into_iter", "next") or t.op in ("values",):
            t = args_of(t)[0] if t.op in ("call", "pure") else t.a[0]
        else:
            return t is V.sels


def loop_range(P, t):
    t = norm(t)
    a = args_of(t) if t.op in ("call", "pure") else list(t.a)
    nm = last(t.a[0]) if t.op in ("call", "pure") else t.op
    if nm == "rangeincl" and len(a) >= 2:
        return P.is_begin_line(a[0]) and P.is_end_line(a[1])
    if nm == "range" and len(a) >= 2:
        hi = norm(a[1])
        return P.is_begin_line(a[0]) and hi.op == "bin" and hi.a[0] == "Add" and num(hi.a[2]) == 1 and P.is_end_line(hi.a[1])
    return False


def apart(p, P):
    """the first line is known not to be the last"""
    return any(k.op == "eq" and v is False and (P.is_begin_line(k.a[0]) and P.is_end_line(k.a[1]) or P.is_begin_line(k.a[1]) and
                                                P.is_end_line(k.a[0])) for k, v in p.facts.items())


def same_offsets(p, s):
    ks = [(way(k.a[0], s), way(k.a[1], s)) for k, v in p.facts.items() if k.op == "lt" and v is False]
    return (("anchor",), ("cursor",)) in ks and (("cursor",), ("anchor",)) in ks


def cannot(P, p, loops):
    """the path's conditions about lines contradict each other"""
    up = {}

    def find(x):
        while up.get(x, x) is not x:
            x = up[x]
        return x
    elems = [norm(e.args[1]) for e in loops]

    def nodes(t):
        t = norm(t)
        out = [n for n, is_ in (("B", P.is_begin_line), ("E", P.is_end_line)) if is_(t)]
        return out or ([t] if t in elems else [])
    differ = [(x, y) for i, x in enumerate(elems) for y in elems[:i]] + [("B", x) for x in elems[1:]]
    same = [("B", elems[0])] if elems else []
    for k, v in p.facts.items():
        if k.op == "eq" and v in (True, False):
            a, b = nodes(k.a[0]), nodes(k.a[1])
            if a and b:
                (same if v else differ).append((a[0], b[0]))
            for n in (a, b):
                if len(n) == 2:
                    same.append(tuple(n))
    for x, y in same:
        up[find(x)] = find(y)
    return any(find(x) is find(y) for x, y in differ)


def rel(P, p, x, is_line):
    """is the line x the one is_line tells, by the path's conditions"""
    for k, v in p.facts.items():
        if k.op == "eq" and v in (True, False):
            for a, b in ((k.a[0], k.a[1]), (k.a[1], k.a[0])):
                if norm(a) is x and is_line(b):
                    return v
    return None


def before_end(P, p, x):
    """x is the line before the last, of which nothing is selected"""
    near = empty = False
    for k, v in p.facts.items():
        if k.op == "eq" and v is True:
            for a, b in ((k.a[0], k.a[1]), (k.a[1], k.a[0])):
                b_, a_ = norm(b), norm(a)
                if a_ is x and b_.op == "bin" and b_.a[0] == "Sub" and num(b_.a[2]) == 1 and P.is_end_line(b_.a[1]):
                    near = True
                if a_.op == "bin" and a_.a[0] == "Add" and num(a_.a[2]) == 1 and norm(a_.a[1]) is x and P.is_end_line(b_):
                    near = True
                if num(b_) == 0 and P.is_end_byte(a_):
                    empty = True
    return near and empty


# ---- what is marked ----------------------------------------------------------------------------------------------------
def check_marked(ctx, F, f):
    V = View(F, f, lambda t, V: 1, lambda V: {mk("variant", V.sels): "None"})
    done = set()
    for p in V.ps:
        if p.status != "return" or ranged(p):
            continue
        lines = V.lens_lines(p)
        if not lines:
            continue
        line = lines[0][2]
        text = deco = None
        ranges, sets = [], []
        for e in p.events:
            if e.kind == "call" and last(e.name) == "with_text" and text_with_space(e.args[0], line):
                text, deco = norm(e.args[0]), norm(e.res)
            elif e.kind == "iter" and norm(e.args[0]).op == "idx" and fresh_map(norm(e.args[0]).a[0]):
                need(ctx, num(norm(e.args[0]).a[1]) == 0, "marked-line", "a line is marked with what was noted for another: " +
                     show(norm(e.args[0]).a[1], 0)[:60], e.where())
                ranges.append(norm(e.args[1]))
            elif e.kind == "call" and last(e.name) == "set" and "Decorator" in e.name:
                sets.append(e)
        if any(e.kind == "exhausted" and show(e.args[0], 0).startswith("rev(rangeincl(0,") for e in p.events):
            continue             # the beginning of a text is found at the latest
        if any(named(k, "is_char_boundary") and v is False and always(args_of(named(k, "is_char_boundary"))) for k, v in p.facts.items()):
            continue
        if text is None or any(k.op == "pure" and k.a[0] == "is_empty" and v is True and norm(k.a[1]) is text for k, v in p.facts.items()):
            continue             # the text of a line has at least its space
        ctx.count("lines marked or not")
        if not ranges:
            need(ctx, not sets, "marked-nothing", "a line without a selection is marked", f["path"])
            continue
        r = ranges[0]
        opts = []
        for k, whole in (("0", mk("int", 0)), ("1", None)):
            v = next((x for t, x in p.facts.items() if t.op == "variant" and way(t.a[0], r) == (k,)), None)
            opts.append(v)
        need(ctx, len(sets) <= 1, "marked-often", "a range is marked more than once", f["path"])
        small = [(norm(k.a[0]), norm(k.a[1]), v) for k, v in p.facts.items() if k.op == "lt" and v in (True, False)]

        def bound(x, which):
            """x is where the range begins or ends in the text"""
            x = norm(x)
            if opts[which] == "None":
                return num(x) == 0 if which == 0 else bool(named(x, "len")) and norm(args_of(named(x, "len"))[0]) is text
            pos = [norm(t) for e in p.events for a in e.args for t in walk(a) if way(t, r) == (str(which), ("Some", "0"))] + \
                  [norm(t) for k in p.facts for t in walk(k) if way(t, r) == (str(which), ("Some", "0"))]
            if not pos:
                return False
            pos = pos[0]
            return floor(p, x, pos, text)
        if sets:
            e = sets[0]
            rg = norm(e.args[2]) if len(e.args) > 2 else None
            a, b = (getf(rg, "start"), getf(rg, "end")) if rg is not None and rg.op == "agg" else (None, None)
            need(ctx, norm(e.args[0]) is deco, "marked-other", "another line is marked", e.where())
            face = norm(e.args[1])
            need(ctx, "Selection" in show(face, 0), "marked-face", "a selection is not marked as one: " + show(face, 0)[:60], e.where())
            if a is None:
                need(ctx, False, "marked-range", "what is marked is not understood: " + show(e.args[-1], 0)[:80], e.where())
                continue
            need(ctx, bound(a, 0), "marked-from", "the mark does not begin where the selection does: " + show(a, 0)[:100], e.where())
            need(ctx, bound(b, 1), "marked-to", "the mark does not end where the selection does: " + show(b, 0)[:100], e.where())
            done.add((opts[0], opts[1]))
        else:
            # only an empty range is left out
            ok = any(v is False and bound(x, 0) and bound(y, 1) or v is True and False for x, y, v in small) or \
                any(k.op == "le" and v is True and bound(k.a[1], 0) and bound(k.a[0], 1) for k, v in p.facts.items()) or \
                any(num(y) == 0 and bound(y, 1) for x, y, v in small) or \
                all(bound(mk("pure", "len", text), i) for i in (0, 1))
            need(ctx, ok, "marked-not", "a range that is not empty is not marked", f["path"],
                 [show(k, 0)[:90] + f" {v}" for k, v in list(p.facts.items())[-6:]])
    need(ctx, len(done) >= 3, "marked-kinds", "a selection's range is not marked in all of its forms")


def walk(t):
    if isinstance(t, T):
        yield t
        for a in t.a:
            yield from walk(a)
    elif isinstance(t, (tuple, list)):
        for a in t:
            yield from walk(a)


def always(a):
    """an offset that is always a character's beginning: the text's own beginning and end"""
    text, pos = norm(a[0]), norm(a[1])
    ln = named(pos, "len")
    return num(pos) == 0 or bool(ln) and norm(args_of(ln)[0]) is text


def floor(p, x, pos, text):
    """x is pos, at most the length, moved back to a character's beginning"""
    def top(u):
        u = norm(u)
        if u is pos:
            return True
        m = named(u, "min")
        if m and any(norm(a) is pos for a in args_of(m)):
            return True
        ln = named(u, "len")
        if ln and norm(args_of(ln)[0]) is text:
            return lt(p, u, pos) is True or lt(p, pos, u) is False
        return False

    def boundary(y):
        for k, v in p.facts.items():
            c = named(k, "is_char_boundary")
            if c and norm(args_of(c)[0]) is text and norm(args_of(c)[1]) is y:
                return v
        return None
    if top(x):
        return True
    if x.op == "elem":
        c = norm(x.a[0])
        if c.op == "rev" or named(c, "rev"):
            c = norm(c.a[0] if c.op == "rev" else args_of(c)[0])
            a = args_of(c) if c.op in ("call", "pure") else list(c.a)
            nm = last(c.a[0]) if c.op in ("call", "pure") else c.op
            return nm == "rangeincl" and num(a[0]) == 0 and top(a[1]) and boundary(x) is True
    if x.op == "bin" and x.a[0] == "Sub" and num(x.a[2]) is not None:
        # one step back for each offset that is no boundary
        y = norm(x.a[1])
        return (top(y) or floor(p, y, pos, text)) and boundary(y) is False
    return False


# ---- whose view --------------------------------------------------------------------------------------------------------
def check_callers(ctx, F, f):
    import graph
    callers = []
    for g in F.real():
        if any(b["t"]["t"] == "call" and (graph.callee(b["t"]) or {}).get("id") == f["id"] for b in g["blocks"]):
            while g.get("kind") == "Closure" and g.get("parent"):
                g = F.fns[g["parent"]] if g["parent"] in F.fns else g
                if g.get("kind") != "Closure":
                    break
            callers.append(g)
    need(ctx, bool(callers), "no-caller", "no view is rendered for a client")
    for g in {g["id"]: g for g in callers}.values():
        E = Engine(F, iters=1, opaque=[f["path"], "ced::editor::view::View::key"])
        ctx.saw(g["path"])
        n = 0
        for p in E.run(g["id"]):
            for e in p.events:
                if e.kind != "call" or e.name != f["path"]:
                    continue
                n += 1
                ctx.count("views rendered")
                v = norm(e.args[0])
                own = norm(v.a[0]) if v.op == "field" and v.a[1] == "view" else None
                if not need(ctx, own is not None and own.op in ("idx", "vf"), "whose", "a view is rendered that is no client's: " + show(v, 0)[:80], e.where()):
                    continue
                s = some(e.args[2])
                if s is None:
                    # without selections only where the client has none for this view
                    has = [k for k, q in p.facts.items() if q in (False, "None") and any(
                        x.op == "field" and x.a[1] == "selections" and norm(x.a[0]) is own for x in walk(k))]
                    need(ctx, bool(has), "unselected", "a client's view is rendered without its selections", e.where())
                else:
                    t = s if s is not False else norm(e.args[2])
                    good = False
                    for x in walk(t):
                        if x.op == "idx" and norm(x.a[0]).op == "field" and norm(x.a[0]).a[1] == "selections" and norm(norm(x.a[0]).a[0]) is own:
                            k = named(x.a[1], "key")
                            good = k is not None and norm(args_of(k)[0]) is v
                    need(ctx, good, "selections", "a client's view is rendered with selections that are not its own for this view: " + show(t, 0)[:100], e.where())
                # who gets it
                who = norm(own.a[1]) if own.op == "idx" else norm(args_of(norm(own.a[0]))[1])
                for q in p.events:
                    if q.kind == "call" and last(q.name) in ("send", "try_send", "send_blocking") and any(x is e.res for a in q.args for x in walk(a)):
                        m = [y for a in q.args for y in walk(a) if y.op == "agg" and y.a[0] == "adt" and any(
                            n_ == "message" and any(z is e.res for z in walk(v_)) for n_, v_ in y.a[3])]
                        ctx.count("views sent")
                        for y in m:
                            rest = [v_ for n_, v_ in y.a[3] if n_ != "message"]
                            need(ctx, any(z is who or norm(z) is who for v_ in rest for z in walk(v_)), "sent-to",
                                 "a client's view is sent to another: " + ", ".join(show(v_, 0)[:50] for v_ in rest), q.where())
        need(ctx, n > 0, "no-view", f"{g['path']} renders no view")


def check_lenses(ctx, F):
    """a lens is made for a whole buffer"""
    n = 0
    for f in F.real():
        if not f["path"].startswith("ced::") or f.get("trait"):
            continue
        lens = part = False
        for b in f["blocks"]:
            for st in b["s"]:
                txt = str(st)
                if "'editor::view::Lens'" in txt or "view::Lens'" in txt:
                    lens = lens or "agg" in txt
                if "view::Focus'" in txt and "agg" in txt and "Range" in txt:
                    part = True
        if lens:
            n += 1
            ctx.count("lenses made")
            need(ctx, not part, "part", f"{f['path']} makes a lens that shows a part of a buffer; marks are kept for whole buffers", f["path"])
    need(ctx, n > 0, "no-lens", "no lens is made")


def check_buffer(ctx, F):
    """what the rendering takes from a buffer"""
    for name, want in (("lines", "lines"), ("line_count", "line_count")):
        f = F.fn(f"{BUFFER}::{name}") if f"{BUFFER}::{name}" in F.by_path else None
        if f is None:
            continue
        E = Engine(F, iters=1, opaque=[PIECES])
        me = E.argterm(f, 0)
        ctx.saw(f["path"])
        for p in E.run(f["id"]):
            if p.status != "return" or ranged(p):
                continue
            c = named(p.ret, want)
            need(ctx, c is not None and way(args_of(c)[0], me) == ("content",), "buffer-" + name,
                 f"{f['path']} does not give the {name} of the text: " + show(p.ret, 0)[:80], f["path"])
    f = F.fn(f"{BUFFER}::selection_range") if f"{BUFFER}::selection_range" in F.by_path else None
    if f is not None:
        E = Engine(F, iters=1, opaque=[PIECES])
        me, s = E.argterm(f, 0), E.argterm(f, 1)
        ctx.saw(f["path"])
        for p in E.run(f["id"]):
            if p.status != "return":
                continue
            r = norm(p.ret)
            a, b = (getf(r, "start"), getf(r, "end")) if r.op == "agg" else (None, None)
            ctx.count("ranges of selections")
            ok_a = a is not None and end_of(p, s, a) in ("begin", "both")
            need(ctx, ok_a, "range-start", "the range of a selection does not start at its beginning: " + (show(a, 0)[:80] if a is not None else show(r, 0)[:80]), f["path"])
            b = norm(b) if b is not None else None
            ok_b = False
            if b is not None and b.op == "bin" and b.a[0] == "Add" and num(b.a[2]) == 1:
                ok_b = end_of(p, s, b.a[1]) in ("end", "both") and any(
                    k.op == "eq" and v is True and (named(k.a[0], "max_offset") or named(k.a[1], "max_offset")) for k, v in p.facts.items())
            elif b is not None:
                offs = [norm(args_of(x)[1]) for x in walk(b) if x.op in ("call", "pure") and last(x.a[0]) == "offset_to_coord"]
                nav = [last(x.a[0]) for x in walk(b) if x.op in ("call", "pure") and "piece_table" in str(x.a[0])]
                ok_b = len(set(offs)) == 1 and end_of(p, s, offs[0]) in ("end", "both") and nav.count("next") == 1 and \
                    not [x for x in nav if x.startswith(("previous", "prev"))] and b.op == "field" and b.a[1] == "offset"
            need(ctx, ok_b, "range-end", "the range of a selection does not end after its last character: " + (show(b, 0)[:100] if b is not None else "?"), f["path"])


def check(ctx):
    F = ctx.F
    for f in renderers(ctx, F):
        ctx.saw(f["path"])
        check_structure(ctx, F, f)
        check_noted(ctx, F, f)
        check_marked(ctx, F, f)
        check_callers(ctx, F, f)
    check_lenses(ctx, F)
    check_buffer(ctx, F)
