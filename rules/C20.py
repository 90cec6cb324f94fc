"""Keys do what the mode of the client says.  The scripts are interpreted abstractly from their source, entered the way the
editor enters them (found in its MIR): two clients join, then one of them types.  All states of the key handler that any
sequence of keys leads to are enumerated together with the mode the documented keys lead to; in each of them every key is
handled, on every path, and the calls made on the editor, the mode afterwards, the status line sent and the state of the
other client are compared with what that mode prescribes."""
from scripts import *
from luai import explore, freeze, first

MOVE = {"h": "move_left", "j": "move_down", "k": "move_up", "l": "move_right"}
NORMAL = {}
for _k, _op in MOVE.items():
    NORMAL[_k] = ("normal", [(_op, False)])
    NORMAL["s-" + _k] = ("normal", [(_op, True)])
NORMAL.update({"d": ("normal", [("delete_selection",)]), "i": ("insertion", []), "g": ("goto", []), "s-g": ("extend", [])})
SPEC = {"normal": NORMAL, "insertion": {"esc": ("normal", [])},
        "goto": {"h": ("normal", [("move_to_line_begin", False)]), "l": ("normal", [("move_to_line_end", False)])},
        "extend": {"h": ("normal", [("move_to_line_begin", True)]), "l": ("normal", [("move_to_line_end", True)])}}
OTHERS = {"normal": "normal", "insertion": "insertion", "goto": "normal", "extend": "normal"}
SPECIAL = ("esc", "ret", "bkspc", "up", "down", "left", "right")
MOTIONS = ("move_left", "move_right", "move_up", "move_down", "move_to_line_begin", "move_to_line_end", "move_to_begin", "move_to_end", "delete_selection",
           "edit", "scratch", "append_to")
A, B = Sym("A", id=True, nonnil=True), Sym("B", id=True, nonnil=True)
TELL = ("message", "error")
MODED = {}


def check(ctx):
    MODED.clear()
    m = model(ctx)
    if m is None:
        return
    S = script(ctx, m)
    if S is None:
        return
    core = next((n for n, h in S.names.items() if h == m.core), None)
    if not ctx.need(core, "core", "the scripts have an object for the editor core"):
        return
    S.core = core
    S.handler, S.method, S.fields = entered(ctx, S)
    if S.handler is None:
        return
    ops = {o[0] for d in SPEC.values() for _, calls in d.values() for o in calls}
    for o in sorted(ops):
        ctx.need(o in S.methods[m.core], "method:" + o, "the editor core offers %s to the scripts" % o)
    walk(ctx, S)
    again(ctx, S)


def entered(ctx, S):
    """how the key handler is found and called for one key: its source, its method and the fields of the key it is given"""
    f, client, ps = S.keys
    handler = method = fields = None
    n = 0
    for p in ps:
        its = [e for e in p.events if e.kind == "iter"]
        for i, e in enumerate(p.events):
            if not ev_call(e, "Function::call"):
                continue
            # building the key's table can only fail for lack of memory
            if any(ev_call(x, "Table::set", "create_table") and x.res is not None and p.facts.get(mk("variant", x.res)) == "Err" for x in p.events[:i]):
                continue
            n += 1
            cur = [x for x in p.events[:i] if x.kind == "iter"]
            elem = cur[-1].args[1] if cur and len(cur[-1].args) > 1 else None
            get = [x for x in p.events[:i] if ev_call(x, "Table::get") and any(y is x.res for y in subterms(e.args[0]))]
            arg = strip(e.args[1])
            vals = [v for _, v in arg.a[3]] if arg.op == "agg" else list(e.args[1:])
            srcs = [source(x.args[1], client) for x in p.events[:i] if ev_call(x, "Context::load") and get and any(y is x.res for y in subterms(get[-1].args[0]))]
            if elem is None or not get or len(vals) != 2 or not srcs or srcs[-1] is None:
                ctx.violation("call", "a key is not given to the key handler of the client that typed it", e.where(), trail(p))
                continue
            table = vals[1]
            fs = {}
            for x in p.events[:i]:
                if ev_call(x, "Table::set") and strip(x.args[1]).op == "str" and any(y is x.args[0] or same(y, strip(x.args[0])) for y in subterms(table)) and base(x.args[0]) is base(table):
                    fs[strip(x.args[1]).a[0]] = part(x.args[2], elem)
            d = (srcs[-1], strip(get[-1].args[1]).a[0], tuple(sorted(fs.items())))
            if "display" not in [v for v in fs.values()]:
                ctx.violation("key", "the key handler is not given the key", e.where(), trail(p))
                continue
            if handler is None:
                handler, method, fields = d
            elif d != (handler, method, fields):
                ctx.violation("calls", "keys are given to the key handler in different ways", e.where(), trail(p))
    ctx.count("calls_of_the_handler", n)
    if not ctx.need(handler is not None, "handler", "each key is given to a key handler of the scripts"):
        return None, None, None
    return handler, method, dict(fields)


def base(t):
    for x in subterms(t):
        y = strip(x)
        if y.op == "call" and str(y.a[0]).endswith("create_table"):
            return y
    return None


def part(t, elem):
    """what a value tells about the key"""
    t = strip(t)
    parts = [x for x in t.a[0]] if t.op == "fmt" else []
    if len(parts) == 1 and isinstance(parts[0], T):
        if same(parts[0], elem):
            return "display"
        if parts[0].op == "field" and same(parts[0].a[0], elem) and parts[0].a[1] == "key":
            return "name"
    if t.op == "field" and same(t.a[0], elem) and t.a[1] in ("ctrl", "alt", "shift"):
        return t.a[1]
    return "other"


def alphabet(S):
    """all keys that some script mentions, those of the documentation, and others"""
    ks = set(SPECIAL) | {"x", "s-x", "c-x", "a-h", "c-h", "c-s-g", "s-d", "s-l", "a-s-l", "0", "$", "s-esc"}
    for d in SPEC.values():
        ks |= set(d)
    L = machine(S)
    for n in sorted(os.listdir(S.root)):
        if n.endswith(".lua"):
            for k, v, _ in luai.lex(open(os.path.join(S.root, n)).read()):
                if k in ("str", "name") and re.fullmatch(r"(c-)?(a-)?(s-)?([^\s]|%s)" % "|".join(SPECIAL), str(v)):
                    ks.add(v)
    return sorted(ks)


def key_table(S, k):
    mods, name = re.fullmatch(r"((?:[cas]-)*)(.+)", k, re.S).groups()
    val = {"display": k, "name": name, "ctrl": "c-" in mods, "alt": "a-" in mods, "shift": "s-" in mods}
    return Table({n: val.get(w, Sym("key." + n, nonnil=True)) for n, w in S.fields.items()})


def type_key(L, S, c, k):
    L.globals.d["ID"] = c
    h = L.eval(S.handler)
    if h is None:
        raise LuaError("there is no key handler")
    f = L.index(h, S.method)
    L.call(f, [h, key_table(S, k)])


def start(S, d=()):
    L = machine(S, d)
    client(L, S, A, S.add)
    client(L, S, B, S.add)
    return L


def probe(L, S):
    """what the other client's next keys do, whatever its mode is"""
    n = len(L.calls)
    for k in ("h", "esc", "l"):
        type_key(L, S, B, k)
    return [(c.obj, c.method, freeze(list(c.args))) for c in L.calls[n:]]


def walk(ctx, S):
    keys = alphabet(S)
    ctx.count("keys", len(keys))
    L = start(S)
    for c in L.calls:
        if c.method in MOTIONS:
            ctx.violation("join:%s" % c.method, "a client that joins changes something by %s" % c.method, c.where)
    runs = 0
    for pre in ((), ("i",), ("g",)):
        def before(L):
            client(L, S, A, S.add)
            client(L, S, B, S.add)
            for q in pre:
                type_key(L, S, B, q)
        L = machine(S)
        try:
            before(L)
            base = probe(L, S)
        except LuaError as x:
            ctx.violation("fails:start", "a client that joins cannot type: %s" % x, "core/scripts")
            return
        todo, seen = [((), "normal")], set()
        while todo:
            seq, mode = todo.pop(0)
            for k in keys:
                def body(L):
                    before(L)
                    for q in seq:
                        type_key(L, S, A, q)
                    n = len(L.calls)
                    type_key(L, S, A, k)
                    calls, st = L.calls[n:], freeze(L.globals)
                    ok = True
                    if (st, "quiet") not in seen:
                        ok = probe(L, S) == base
                        seen.add((st, "quiet")) if ok and not L.taken else None
                    return calls, ok, st
                try:
                    for L, r in explore(lambda d: machine(S, d), body, 64):
                        runs += 1
                        nxt = judge(ctx, S, seq, mode, k, r)
                        ctx.saw(*["%s:%s" % (f, n) for f, n, _ in L.fns])
                        if nxt is None or (r[2], nxt) in seen or L.taken:
                            continue
                        seen.add((r[2], nxt))
                        if len(seq) < 3:
                            todo.append((seq + (k,), nxt))
                except (luai.Cut, luai.Unsupported) as x:
                    ctx.violation("unknown:%s:%s" % (mode, k), "cannot be shown: the scripts handle %s in a way the analysis does not follow: %s" % (k, x), "core/scripts")
                if runs > 20000:
                    break
        ctx.count("handler_states", len([1 for x in seen if x[1] != "quiet"]))
    ctx.count("handler_runs", runs)
    ctx.need(runs > 200, "runs", "the key handler is entered")


def judge(ctx, S, seq, mode, k, r):
    """one key in one mode: the mode it leads to"""
    name = "%s in %s mode" % (k, mode)
    path = ["keys before: " + (" ".join(seq) or "none")]
    if isinstance(r, LuaError):
        ctx.violation("fails:%s:%s" % (mode, k), "%s fails: %s" % (name, r), "core/scripts", path)
        return None
    calls, quiet, _ = r
    if not quiet:
        ctx.violation("isolation:%s:%s" % (mode, k), "%s changes what the keys of another client do" % name, "core/scripts", path)
    want = SPEC[mode].get(k)
    nxt, ops = want if want else (OTHERS[mode], [])
    did = []
    for c in calls:
        path.append("%s  %s" % (c.where, c))
        if c.obj == S.core and c.method in MOTIONS:
            did.append(c)
        if c.method in ("debug", "append_to", "print"):
            continue
        if not c.args or c.args[0] is not A:
            ctx.violation("client:%s:%s" % (mode, k), "%s reaches %s of %s, not of the client that typed it" % (name, c.method, c.args[:1]), c.where, path)
    got = [(c.method,) + tuple(False if x is None else x for x in c.args[1:]) for c in did]   # nil is false to the core
    got = [g + (False,) if len(g) == 1 and g[0].startswith("move_") else g for g in got]
    if got != [tuple(o) for o in ops]:
        ctx.violation("effect:%s:%s" % (mode, k), "%s does %s, not %s" % (name, [g[0] + ("" if len(g) < 2 else "(extend=%s)" % (g[1],)) for g in got] or "nothing",
                                                                        [o[0] + ("" if len(o) < 2 else "(extend=%s)" % (o[1],)) for o in ops] or "nothing"),
                      did[0].where if did else "core/scripts", path)
    told = [c for c in calls if c.method == "set_status_line"]
    if want or nxt != mode:
        ctx.count("mapped_keys")
        if not told:
            ctx.violation("status:%s:%s" % (mode, k), "%s is a key of that mode or leaves it and the client is sent no status line" % name, "core/scripts", path)
        else:
            status(ctx, told[-1], name, nxt, k, path)
    if nxt != mode and nxt in ("goto", "extend"):
        hints = [c for c in calls if c.method == "show_hint"]
        lines = [v for c in hints for v in (c.args[1].d.values() if isinstance(c.args[1], Table) else [])]
        for q in SPEC[nxt]:
            if not any(re.search(r"(?<![\w-])%s(?![\w-])" % re.escape(q), str(v)) for v in lines):
                ctx.violation("hint:%s:%s" % (nxt, q), "entering %s mode does not show that %s is a key of it" % (nxt, q), hints[0].where if hints else "core/scripts", path)
    return nxt


def status(ctx, c, name, mode, k, path):
    conf = c.args[1] if len(c.args) > 1 else None
    texts, bad = [], False
    for v in conf.d.values() if isinstance(conf, Table) else []:
        if not isinstance(v, Table) or not isinstance(v.d.get("index"), (int, float)) or not isinstance(v.d.get("text"), (str, Sym)):
            bad = True
        else:
            texts.append(v.d["text"])
    if bad or not texts:
        ctx.violation("status-items:%s" % mode, "after %s the status line has items without a place or a text" % name, c.where, path)
    if k not in texts:
        ctx.violation("status-key:%s:%s" % (mode, k), "after %s the status line does not show the key" % name, c.where, path)
        return
    rest = list(texts)
    rest.remove(k)
    sig = tuple(sorted(map(repr, rest)))
    was = MODED.setdefault(mode, sig)
    if was != sig:
        ctx.violation("status-mode:%s" % mode, "the status line shows %s mode as %s and as %s" % (mode, was, sig), c.where, path)
    for q, s in MODED.items():
        if q != mode and s == sig:
            ctx.violation("status-mode:%s:%s" % tuple(sorted((mode, q))), "the status line is the same in %s and in %s mode" % (mode, q), c.where, path)


def again(ctx, S):
    """a client that leaves is forgotten: one that joins starts in normal mode, and the other is not touched"""
    L = start(S)
    base = probe(L, S)
    for k in ("i", "g", "s-g"):
        def body(L):
            client(L, S, A, S.add)
            client(L, S, B, S.add)
            type_key(L, S, A, k)
            client(L, S, A, S.remove)
            n = len(L.calls)
            client(L, S, A, S.add)
            ok = {c.method for c in L.calls[n:] if c.args and c.args[0] is not A} <= {"debug"}
            n = len(L.calls)
            type_key(L, S, A, "h")
            calls = L.calls[n:]
            return calls, ok and probe(L, S) == base
        for L, r in explore(lambda d: machine(S, d), body, 64):
            ctx.count("rejoins")
            if isinstance(r, LuaError):
                ctx.violation("rejoin", "a client that leaves and joins again cannot type: %s" % r, "core/scripts")
                continue
            calls, ok = r
            if not ok:
                ctx.violation("leave", "a client that leaves or joins changes what the keys of another do", "core/scripts")
            if [c.method for c in calls if c.method in MOTIONS] != ["move_left"]:
                ctx.violation("rejoin", "a client that joins anew does not start in normal mode", "core/scripts", [str(c) for c in calls])
