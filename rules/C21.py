"""Motions move the cursors of the client's selections where they say.  Each motion the scripts can call is interpreted
abstractly from the script's call down to the new offset of a selection's cursor (piece table functions stay opaque); every
path gives a condition and the new cursor, anchor and wanted column as expressions over the position.  They are looked up for
every class of position (first, only, inner, last line; first, inner, last column, newline; lines that are empty, shorter,
longer, without a newline at the end) and compared with the documented motion."""
import itertools
from scripts import *

MOTIONS = ("move_left", "move_right", "move_up", "move_down", "move_to_line_begin", "move_to_line_end", "move_to_begin", "move_to_end")
PT = "ced::editor::piece_table::"
PIECES = PT + "PieceTable"
WIDTH = 2       # bytes of a character: columns are not offsets


class Unknown(Exception):
    pass


class Outside(Exception):
    """a position the buffer does not have"""


class Buf:
    """a class of buffers: columns of each line, whether the last one ends with a newline"""

    def __init__(self, cols, end):
        self.cols, self.end = cols, end
        self.starts, o = [], 0
        for i, c in enumerate(cols):
            self.starts.append(o)
            o += c * WIDTH + (1 if i < len(cols) - 1 or end else 0)
        self.len = o
        self.nls = len(cols) - 1 + (1 if end else 0)

    def cap(self, l):
        return self.cols[l - 1] + 1 if l < len(self.cols) or self.end else max(self.cols[l - 1], 1)

    def max(self):
        return (len(self.cols), self.cap(len(self.cols)))

    def offset(self, l, c):
        if l == 0:
            return 0
        if l > len(self.cols) or l < 0 or c < 1 or c > self.cols[l - 1] + 1:
            return None
        return self.starts[l - 1] + (c - 1) * WIDTH

    def coord(self, o):
        if o > self.len - 1:
            return None
        l = max(i for i, s in enumerate(self.starts) if s <= o) + 1
        return (l, (o - self.starts[l - 1]) // WIDTH + 1)

    def __str__(self):
        return "a buffer with lines of %s columns%s" % (",".join(map(str, self.cols)), "" if self.end else ", the last without newline")


def buffers():
    for n in (1, 2, 3):
        for cols in itertools.product((0, 1, 3), repeat=n):
            yield Buf(cols, True)
            if cols[-1]:
                yield Buf(cols, False)


def expected(op, b, l, c, t):
    """new line, column, wanted column (None: any)"""
    n = len(b.cols)
    if op == "move_left":
        r = (l, c) if (l, c) == (1, 1) else (l - 1, b.cols[l - 2] + 1) if c == 1 else (l, c - 1)
    elif op == "move_right":
        r = (l, c) if (l, c) == b.max() else (l + 1, 1) if c == b.cols[l - 1] + 1 else (l, c + 1)
    elif op == "move_up" or op == "move_down":
        k = max(l - 1, 1) if op == "move_up" else min(l + 1, n)
        return (k, min(t, b.cap(k)), t) if k != l else (k, None, t)
    elif op == "move_to_line_begin":
        r = (l, 1)
    elif op == "move_to_line_end":
        r = (l, max(b.cols[l - 1], 1))
    elif op == "move_to_begin":
        r = (1, 1)
    else:
        r = b.max()
    return r + (r[1],)


def check(ctx):
    m = model(ctx)
    if m is None:
        return
    hosts = userdata(ctx, m).get(m.core) or {}
    sel = next((a for a in m.F.adts.values() if a["path"].endswith("editor::selection::Selection")), None)
    if not ctx.need(sel, "selection", "there are selections"):
        return
    fs = [f[0] for f in sel["variants"][0]["fields"]]
    if not ctx.need({"cursor", "anchor"} <= set(fs) and len(fs) == 3, "ends", "a selection has an anchor, a cursor and a wanted column"):
        return
    m.col = next(f for f in fs if f not in ("cursor", "anchor"))
    todo = []
    for op in MOTIONS:
        if ctx.need(hosts.get(op) in m.F.fns, "motion:" + op, "scripts can call %s" % op):
            todo.append(op)
    for op, viol, counts, seen in parallel(lambda op: job(m, hosts, op), todo):
        for v in viol:
            ctx.violation(*v)
        for k, n in counts.items():
            ctx.count(k, n)
        ctx.saw(*seen)


class Log:
    def __init__(self):
        self.v, self.c, self.seen = [], {}, set()

    def violation(self, key, message, where="", path=()):
        if not any(x[0] == key for x in self.v):
            self.v.append((key, message, where, list(path)))

    def count(self, k, n=1):
        self.c[k] = self.c.get(k, 0) + n

    def saw(self, *x):
        self.seen |= set(x)


def job(m, hosts, op):
    log = Log()
    try:
        motion(log, m, op, m.F.fns[hosts[op]])
    except RuntimeError as x:
        log.violation("unknown:" + op, "cannot be shown: the paths of %s could not be enumerated: %s" % (op, x), op)
    return op, log.v, log.c, sorted(log.seen)


def motion(ctx, m, op, f):
    inl = {f["path"]} | {g["path"] for g in m.G.local.values() if g["path"].startswith(PT) and
                         (not (g.get("impl_self") or PIECES).startswith(PIECES) or g.get("name") == "navigate" or "Navigator" in g["locals"][0][0])}
    E = engine(m, keep_inline=inl, iters=1, maxpaths=6000,
               known=lambda v: "Some" if v.op == "call" and str(v.a[0]).startswith(PIECES) else None)
    ps = E.run(f)
    ctx.saw(*E.fns_seen)
    arg = E.argterm(f, f["args"] - 1)
    client, extend = mk("field", arg, "0"), mk("field", arg, "1")
    cases, got = 0, {}
    for p in ps:
        if p.status not in ("return", "panic"):
            continue
        ctx.count("paths")
        structure(ctx, m, op, p, client)
        for s, x in elements(p):
            ctx.count("selections")
            for b in buffers():
                for l in range(1, len(b.cols) + 1):
                    for c in range(1, b.cap(l) + 1):
                        for t in (1, 2, 4):
                            for ext in (False, True):
                                M = Model(m, b, l, c, t, ext, s, x, extend)
                                if not M.applies(p):
                                    continue
                                got.setdefault((b, l, c, t, ext), 0)
                                if p.status == "panic":
                                    ctx.violation("panics:" + op, "%s panics at line %d, column %d of %s" % (op, l, c, b), p.events[-1].where(), trail(p))
                                    continue
                                if judge(ctx, m, op, p, M):
                                    got[(b, l, c, t, ext)] += 1
    total = sum(1 for b in buffers() for l in range(1, len(b.cols) + 1) for c in range(1, b.cap(l) + 1)) * 6
    ctx.count("positions", len(got))
    if len(got) < total or not all(got.values()):
        miss = next((k for k, n in got.items() if not n), None)
        if not ctx.v:
            ctx.violation("covers:" + op, "no path of %s moves the cursor%s" % (op, " at line %d, column %d of %s" % (miss[1], miss[2], miss[0]) if miss else ""), f["path"])


def elements(p):
    """the selection a path goes through, and the entry of the buffer it is in"""
    its = [e for e in p.events if e.kind == "iter"]
    for e in its:
        s = e.args[1]
        outer = [x for x in its if x is not e and any(y is x.args[1] or same(y, x.args[1]) for y in subterms(e.args[0]))]
        if outer:
            yield s, outer[-1].args[1]
    for e in its:
        x = e.args[1]
        sels = mk("field", x, "1")
        if any(o is not e and any(y is x or same(y, x) for y in subterms(o.args[0])) for o in its) or \
                any(y is x or same(y, x) for d in p.events if d.kind == "exhausted" for y in subterms(d.args[0])) or \
                any(same(x, y) for o in its if o is not e for y in [o.args[1]] if any(z is o.args[0] for z in subterms(x))):
            continue
        if not any(o is not e and any(y is o.args[1] or same(y, o.args[1]) for y in subterms(e.args[0])) for o in its):
            yield mk("elem", sels, "none"), x       # its selections are passed over


def structure(ctx, m, op, p, client):
    """the motion goes through all selections of the client's current view, and leaves all else alone"""
    its = [e for e in p.events if e.kind == "iter"]
    for e in p.events:
        if e.kind in ("index", "mapget") and reg(m, e.args[0]) == "C" and not same(e.args[1], client):
            ctx.violation("client:" + op, "%s looks at another client than the one it is for" % op, e.where(), trail(p))
        if e.kind == "iter" and reg(m, e.args[0]) == "C":
            ctx.violation("client:" + op, "%s goes through all clients" % op, e.where(), trail(p))
    if p.status != "return" or not its:
        return
    done = [e.args[0] for e in p.events if e.kind == "exhausted"]
    for e in its:
        if not any(same(e.args[0], d) for d in done):
            ctx.violation("all:" + op, "%s stops before the last of the selections" % op, e.where(), trail(p))
    for e in its:
        t = strip(e.args[0])
        if t.op in ("pure", "call") and norm(str(t.a[0])).rsplit("::", 1)[-1] in ("take", "skip", "step_by", "take_while", "skip_while", "chunks", "windows", "get", "split_at"):
            ctx.violation("all:" + op, "%s goes through only some of the selections" % op, e.where(), trail(p))
    outer = its[0].args[0]
    src = strip(outer)
    key = src.a[1] if src.op == "idx" else None
    stores = [e for e in p.events if e.kind == "store"]
    els = [s for s, x in elements(p)]
    copy = any(y.op == "call" and str(y.a[0]).endswith("clone") or y.op == "pure" and y.a[0] == "clone" for y in subterms(outer))
    puts = [e for e in p.events if e.kind == "call" and e.name.endswith("Map::insert") and getattr(m, "csels", "selections") in show(e.args[0])]
    if els and stores and copy:
        ok = [e for e in puts if len(e.args) > 2 and same(strip(e.args[2]), src) and key is not None and same(e.args[1], key)]
        if not ok:
            ctx.violation("kept:" + op, "%s moves selections that are not the client's own, and does not put them back" % op, its[0].where(), trail(p))
    for e in stores:
        t = strip(e.args[0])
        own = [s for s in els if t.op == "field" and same(t.a[0], s)]
        if not own and any(y.op == "field" and y.a[1] in ("clients", "views", "buffers") for y in subterms(t)) and reg(m, t) is None and \
                any(y.op == "elem" for y in subterms(t)):
            if t.op == "field" and t.a[1] in ("cursor", "anchor", m.col):
                ctx.violation("other:" + op, "%s changes a selection it does not go through" % op, e.where(), trail(p))


class Model:
    def __init__(self, m, b, l, c, t, ext, s, x, extend):
        self.m, self.b, self.l, self.c, self.t, self.ext = m, b, l, c, t, ext
        self.s, self.x, self.extend = canon(s), canon(x), canon(extend)
        self.memo = {}

    def applies(self, p):
        for f, v in p.facts.items():
            try:
                got = self.value(f if f.op != "variant" else f.a[0])
            except Unknown:
                continue
            except Outside:
                return False
            if f.op == "variant":
                got = "None" if got is None else "Some"
                if isinstance(v, tuple):
                    if got in v[1]:
                        return False
                    continue
            if isinstance(v, (bool, str, int)) and got != v:
                return False
        return True

    def value(self, t):
        k = self.memo.get(t)
        if k is None:
            try:
                k = ("v", self.compute(t))
            except (Unknown, Outside) as x:
                k = ("x", x)
            self.memo[t] = k
        if k[0] == "x":
            raise k[1]
        return k[1]

    def compute(self, t):
        t = strip(t)
        b = self.b
        if t.op == "agg" and t.a[0] == "adt" and not t.a[3] and "Option" not in str(t.a[1]):
            raise Unknown(show(t))
        if t.op in ("int", "bool", "str"):
            return t.a[0]
        if canon(t) is self.extend:
            return self.ext
        if t.op == "field":
            if canon(t.a[0]) is self.s:
                if t.a[1] == "cursor":
                    return b.offset(self.l, self.c)
                if t.a[1] == self.m.col:
                    return self.t
                raise Unknown(show(t))
            v = self.value(t.a[0])
            if isinstance(v, tuple) and t.a[1] in ("l", "c"):
                return v[0 if t.a[1] == "l" else 1]
            raise Unknown(show(t))
        if t.op == "vf":
            v = self.value(t.a[0])
            if v is None:
                raise Outside()
            return v
        if t.op == "agg":
            fs = dict(t.a[3])
            if set(fs) == {"l", "c"}:
                return (self.value(fs["l"]), self.value(fs["c"]))
            if str(t.a[2]) == "Some":
                return self.value(next(iter(fs.values())))
            if str(t.a[2]) == "None":
                return None
            raise Unknown(show(t))
        if t.op == "bin":
            x, y = self.value(t.a[1]), self.value(t.a[2])
            if isinstance(x, bool) or isinstance(y, bool):
                x, y = int(x), int(y)
            if not isinstance(x, int) or not isinstance(y, int):
                raise Unknown(show(t))
            r = {"Add": x + y, "Sub": x - y, "Mul": x * y}.get(str(t.a[0]).replace("WithOverflow", "").replace("Unchecked", ""))
            if r is None:
                raise Unknown(show(t))
            if r < 0:
                raise Outside()
            return r
        if t.op == "cast":
            return int(self.value(t.a[0]))
        if t.op == "not":
            return not self.value(t.a[0])
        if t.op in ("lt", "le", "eq"):
            x, y = self.value(t.a[0]), self.value(t.a[1])
            if t.op == "eq":
                return x == y
            if x is None or y is None:
                raise Unknown(show(t))
            return x < y if t.op == "lt" else x <= y
        if t.op == "pure":
            n = str(t.a[0])
            if n in ("min", "max", "saturating_sub"):
                x, y = self.value(t.a[1]), self.value(t.a[2])
                return {"min": min, "max": max, "saturating_sub": lambda p, q: max(p - q, 0)}[n](x, y)
            if n == "is_empty":
                return self.length(t.a[1]) == 0
            if n == "len":
                return self.length(t.a[1])
            raise Unknown(show(t))
        if t.op == "call":
            n = norm(str(t.a[0]))
            args = t.a[1]
            last = n.rsplit("::", 1)[-1]
            if n.startswith(PIECES):
                self.content(args[0])
                if last == "offset_to_coord":
                    return b.coord(self.value(args[1]))
                if last == "coord_to_offset":
                    l, c = self.value(args[1])
                    return b.offset(l, c)
                if last == "line_columns":
                    l = self.value(args[1])
                    return b.cols[l - 1] if 1 <= l <= len(b.cols) else 0
                if last == "line_length":
                    l = self.value(args[1])
                    return b.cols[l - 1] * WIDTH if 1 <= l <= len(b.cols) else 0
                if last == "max_coord":
                    return b.coord(b.len - 1)
                if last == "max_offset":
                    return b.len - 1
                if last == "len":
                    return b.len
                if last == "is_empty":
                    return False
                if last == "line_count":
                    return len(b.cols)
                if last == "char_at":
                    l, c = self.value(args[1])
                    if b.offset(l, c) is None:
                        return None
                    return "\n" if c == b.cols[l - 1] + 1 else "x"
                if last == "char_at_offset":
                    l, c = b.coord(self.value(args[1])) or (0, 0)
                    return None if l == 0 else "\n" if c == b.cols[l - 1] + 1 else "x"
                raise Unknown(show(t))
            if last in ("min", "max") and len(args) == 2:
                return (min if last == "min" else max)(self.value(args[0]), self.value(args[1]))
            if last in ("len", "is_empty") and len(args) == 1:
                k = self.length(args[0])
                return k if last == "len" else k == 0
        raise Unknown(show(t))

    def length(self, t):
        t = strip(t)
        if t.op == "at":
            t = strip(t.a[0])
        if t.op == "field" and "newline" in str(t.a[1]):
            self.content(t.a[0])
            return self.b.nls
        if t.op == "field" and t.a[1] == "content":
            self.content(t)
            return self.b.len
        raise Unknown(show(t))

    def content(self, t):
        """the content of the buffer the selection is in, and no other"""
        t = strip(t)
        key = next((y.a[1] for y in subterms(t) if y.op == "idx" and reg(self.m, y.a[0]) == "B"), None)
        if key is None:
            v = next((y for y in subterms(t) if y.op == "vf" and any(reg(self.m, z) == "B" for z in subterms(y))), None)
            raise Unknown(show(v or t))
        k = canon(key)
        if k is not canon(mk("field", self.x, "0")):
            raise Unknown("another buffer: " + show(t))


def judge(ctx, m, op, p, M):
    """the new ends of the selection on a path, at one position"""
    b, l, c, t, ext = M.b, M.l, M.c, M.t, M.ext
    new = {}
    for e in p.events:
        if e.kind == "store":
            x = strip(e.args[0])
            if x.op == "field" and canon(x.a[0]) is M.s:
                new[x.a[1]] = (e.args[1], e)
            elif canon(x) is M.s and strip(e.args[1]).op == "agg":
                for n, v in strip(e.args[1]).a[3]:
                    new[n] = (v, e)
    where = next(iter(new.values()))[1].where() if new else op
    at = "at line %d, column %d of %s%s" % (l, c, b, " (wanted column %d)" % t if op in ("move_up", "move_down") else "")
    try:
        # stored values name the old ends
        o = M.value(new["cursor"][0]) if "cursor" in new else b.offset(l, c)
        tc = M.value(new[m.col][0]) if m.col in new else t
    except Unknown as x:
        ctx.violation("unknown:" + op, "cannot be shown: %s puts the cursor at %s" % (op, x), where, trail(p))
        return False
    except Outside:
        o = None
    if o is None:
        ctx.violation("outside:" + op, "%s leaves the buffer %s" % (op, at), where, trail(p))
        return False
    el, ec, et = expected(op, b, l, c, t)
    pos = b.coord(o)
    ok = True
    if pos is None or o >= b.len:
        ctx.violation("outside:" + op, "%s leaves the buffer %s" % (op, at), where, trail(p))
        return False
    if pos[0] != el or ec is not None and pos[1] != ec or (o - b.starts[pos[0] - 1]) % WIDTH and pos[1] <= b.cols[pos[0] - 1]:
        ctx.violation("moves:" + op, "%s leads to line %d, column %d instead of line %d, column %s %s" % (op, pos[0], pos[1], el, ec, at), where, trail(p))
        ok = False
    # the wanted column: vertical motions keep it, all others want the one they lead to
    if tc != et and ok and pos != (l, c):
        ctx.violation("column:" + op, "%s makes %s the wanted column instead of %s %s" % (op, tc, et, at), where, trail(p))
        ok = False
    if ext and "anchor" in new and not same(strip(new["anchor"][0]), mk("field", M.s, "anchor")):
        ctx.violation("extends:" + op, "%s moves the anchor although it is to extend the selection" % op, where, trail(p))
        ok = False
    if not ext and b.len > 1:
        a = None
        if "anchor" in new:
            try:
                a = M.value(new["anchor"][0])
            except (Unknown, Outside):
                pass
        if a != o:
            ctx.violation("anchor:" + op, "%s leaves the anchor behind although it is not to extend the selection" % op, where, trail(p))
            ok = False
    return ok
