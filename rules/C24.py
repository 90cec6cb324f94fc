"""The menu of a client and the keys of the terminal, on every path of the functions of the client library that change
the selection of a menu, of the function that turns a terminal event into a key and of the one that handles a key."""
from coremodel import *
from graph import operands

KEYS = {"Char": "Char", "Backspace": "Backspace", "Enter": "Enter", "Esc": "Escape", "Up": "Up", "Down": "Down", "Left": "Left", "Right": "Right"}
MODS = {"ctrl": "CONTROL", "alt": "ALT", "shift": "SHIFT"}
CONN = "ced_remote::connection::Connection"


def check(ctx):
    selection(ctx)
    keys(ctx)
    handler(ctx)


# ---- the selection ------------------------------------------------------------------------------------------------------
def is_selected(t):
    return t.op == "field" and t.a[1] == "selected"


def selection(ctx):
    F = ctx.F
    moved = {}
    for f in F.real():
        if not f["path"].startswith("ced_remote::") or f["kind"] == "Closure" or f.get("impl_trait"):
            continue
        if not (f.get("impl_self") or "").endswith(("connection::Connection", "connection::Menu", "ConnectionState")):
            continue
        if (f.get("impl_self") or "").endswith("connection::Menu") and "Restricted" in str(f.get("vis")):
            continue            # interpreted where it is called
        if f["args"] == 0 or f.get("coroutine"):
            continue
        E = Engine(F, iters=1, stores=True, keep_elems=True)
        try:
            ps = E.run(f)
        except absint.TooBig:
            continue
        ctx.saw(*E.fns_seen)
        for p in ps:
            st = [e for e in p.events if e.kind == "store" and is_selected(e.args[0])]
            for e in st:
                ctx.count("selection_changes")
                one(ctx, f, p, e, moved)
            if f["name"] in moved and not st:
                pass
    want = {"action_menu_select_next": "next", "action_menu_select_previous": "previous"}
    for n, w in want.items():
        f = next((f for f in F.real() if f["path"] == CONN + "::" + n), None)
        if not ctx.need(f, n, "a client can choose the %s entry" % w):
            continue
        for p in Engine(F, iters=1, stores=True, keep_elems=True).run(f):
            st = [e for e in p.events if e.kind == "store" and is_selected(e.args[0])]
            if p.status == "panic":
                ctx.violation("panic:" + n, "choosing the %s entry can panic" % w, f["path"], trail(p))
            if len(st) > 1 or any(moved.get(id(e.args[1])) not in (None, w) for e in st):
                ctx.violation("move:" + n, "choosing the %s entry moves otherwise" % w, f["path"], trail(p))
            if not st and not stuck(p, w):
                ctx.violation("stay:" + n, "the %s entry is not chosen although there is one" % w, f["path"], trail(p))
            if any(e.kind == "store" and not is_selected(e.args[0]) for e in p.events):
                ctx.violation("else:" + n, "choosing the %s entry changes something else" % w, f["path"], trail(p))


def add(t, o):
    return t.op == "bin" and t.a[0].startswith(o) and show(t.a[2]) == "1"


def comparisons(p):
    """a < b holds on the path (True), or does not (False)"""
    for q, v in p.facts.items():
        if q.op in ("lt", "le") and v in (True, False):
            a, b = q.a
            yield (canon(a), canon(b), v) if q.op == "lt" else (canon(b), canon(a), not v)


def one(ctx, f, p, e, moved):
    sel = canon(e.args[0])
    menu = sel.a[0]
    v = canon(e.args[1])
    ent = mk("len", mk("field", menu, "entries"))
    def length(t):
        return t.op in ("len", "pure") and any(x.op == "field" and x.a[1] == "entries" and x.a[0] is menu for x in subterms(t))
    if add(v, "Add") and v.a[1] is sel:
        ok = any(c and a is v and length(b) for a, b, c in comparisons(p)) or \
            any(c and a is sel and add(b, "Sub") and length(b.a[1]) for a, b, c in comparisons(p)) and any(True for q, x in p.facts.items() if "is_empty" in q.op and x is False)
        if not ok:
            ctx.violation("beyond:" + f["name"], "the selection of a menu can leave its entries", e.where(), trail(p))
        moved[id(e.args[1])] = "next"
    elif add(v, "Sub") and v.a[1] is sel:
        ok = any(c and b is sel and show(a) == "0" for a, b, c in comparisons(p)) or any(q.op == "eq" and x is False and any(canon(y) is sel for y in q.a) and any(show(y) == "0" for y in q.a) for q, x in p.facts.items())
        if not ok:
            ctx.violation("below:" + f["name"], "the selection of a menu can become negative", e.where(), trail(p))
        moved[id(e.args[1])] = "previous"
    elif v.op == "pure" and v.a[0] in ("ssub", "min"):
        a = v.a[1:]
        if v.a[0] == "ssub" and canon(a[0]) is sel and show(a[1]) == "1":
            moved[id(e.args[1])] = "previous"
        elif v.a[0] == "min" and add(canon(a[0]), "Add") and canon(a[0]).a[1] is sel and a[1].op == "pure" and a[1].a[0] == "ssub" and any(length(x) for x in subterms(canon(a[1]))) and show(a[1].a[2]) == "1":
            moved[id(e.args[1])] = "next"
        else:
            ctx.violation("odd:" + f["name"], "the selection of a menu becomes %s" % show(v)[-80:], e.where(), trail(p))
    elif show(v) == "0":
        moved[id(e.args[1])] = "first"
    else:
        ctx.violation("odd:" + f["name"], "the selection of a menu becomes %s" % show(v)[-80:], e.where(), trail(p))


def stuck(p, w):
    """there is no menu, or no entry in that direction"""
    for q, v in p.facts.items():
        if q.op == "variant" and v == "None" and any(x.op == "field" and x.a[1] == "menu" for x in subterms(q)):
            return True
        if q.op == "eq" and v is True and w == "previous" and any(is_selected(canon(y)) for y in q.a) and any(show(y) == "0" for y in q.a):
            return True
        if "is_empty" in q.op and v is True and w == "next":
            return True
    for a, b, c in comparisons(p):
        if c is False and w == "next" and add(a, "Add") and is_selected(a.a[1]) and any(x.op == "field" and x.a[1] == "entries" for x in subterms(b)):
            return True
        if c is False and w == "previous" and show(a) == "0" and is_selected(b):
            return True
    return False


# ---- keys -----------------------------------------------------------------------------------------------------------------
def find_key(t):
    for x in subterms(t):
        if x.op == "agg" and x.a[1].endswith("keys::KeyEvent"):
            return dict(x.a[3])
    return None


def keys(ctx):
    F = ctx.F
    fs = [f for f in F.real() if "crossterm" in (f.get("impl_trait") or "") and "From<" in (f.get("impl_trait") or "") and f["name"] == "from"]
    if not ctx.need(len(fs) == 1, "key conversion", "one function turns terminal events into keys"):
        return
    f = fs[0]
    seen = set()
    for p in Engine(F, iters=1).run(f):
        ctx.count("key_paths")
        code = kind = None
        for q, v in p.facts.items():
            if q.op == "variant":
                c = canon(q.a[0])
                if c.op == "arg":
                    kind = v
                elif c.op == "field" and c.a[1] == "code":
                    code = v
        d = find_key(p.ret) if p.ret is not None else None
        if p.status != "return":
            ctx.violation("key:panic", "a terminal event can panic", f["path"], trail(p))
        elif kind != "Key" or code not in KEYS:
            if d is not None:
                ctx.violation("key:other", "something that is no key of the editor is taken for %s" % show(d["key"])[:60], f["path"], trail(p))
        else:
            seen.add(code)
            if d is None:
                ctx.violation("key:" + code, "the key %s is ignored" % code, f["path"], trail(p))
                continue
            vn, fs_ = variant_of(d["key"])
            if vn != KEYS[code]:
                ctx.violation("key:" + code, "the key %s is taken for %s" % (code, vn), f["path"], trail(p))
            if code == "Char":
                c = canon(list(fs_.values())[0])
                if not (c.op == "vf" and c.a[1] == "Char" and c.a[0].op == "field" and c.a[0].a[1] == "code"):
                    ctx.violation("key:Char", "a character key is taken for another character", f["path"], trail(p))
            for m, w in MODS.items():
                t = d[m]
                if not (is_call(t, "::contains") and any(x.op == "constitem" and x.a[0].endswith("KeyModifiers::" + w) for x in subterms(t))) and \
                   not ("KeyModifiers::" + w in show(t) and "contains" in show(t)):
                    if not (t.op == "bool" and any("KeyModifiers::" + w in show(q) and v is t.a[0] for q, v in p.facts.items())):
                        ctx.violation("key:" + m, "the modifier %s of a key is lost" % m, f["path"], trail(p))
    for k in KEYS:
        ctx.need(k in seen, "key " + k, "the terminal's key %s is handled" % k)


# ---- the handler ----------------------------------------------------------------------------------------------------------
def handler(ctx):
    F = ctx.F
    m = Engine(F, opaque=[CONN + "::*"])
    cands = lowest(F, "Connection::keys", "Connection::menu_select")
    if not ctx.need(len(cands) == 1, "handler", "one function of the terminal handles keys"):
        return
    f = cands[0]
    E = Engine(F, iters=1, stores=True, keep_elems=True, opaque=lambda p: p.startswith(CONN + "::") or draws(F, p))
    ps = E.run(f)
    ctx.saw(*E.fns_seen)
    seen = set()
    for p in ps:
        ctx.count("handler_paths")
        acts = [e for e in p.events if e.kind == "call" and CONN + "::" in e.name and not e.name.endswith("::state")]
        kt = key = None
        for q, v in p.facts.items():
            if q.op == "variant":
                c = canon(q.a[0])
                if c.op == "field" and c.a[1] == "key":
                    kt, key = c.a[0], v
        menus = [(q, v) for q, v in p.facts.items() if q.op == "variant" and canon(q.a[0]).op == "field" and canon(q.a[0]).a[1] == "menu"]
        names = [norm(e.name).rsplit("::", 1)[1] for e in acts]
        if key is None:
            if acts:
                ctx.violation("input:none", "the terminal does %s for an event that is no key" % names, acts[0].where(), trail(p))
            continue
        if not menus:
            ctx.violation("input:menu", "a key is handled without looking whether a menu is open", f["path"], trail(p))
            continue
        mt, open_ = menus[0][0], menus[0][1] == "Some"
        menu = mk("vf", menus[0][0].a[0], "Some", "0")
        if p.status == "panic" and len(menus) > 1:
            continue                # the state read again
        if open_:
            want = {"Escape": ["action_menu_cancel"], "Enter": ["menu_select"], "Up": ["action_menu_select_previous"], "Down": ["action_menu_select_next"],
                    "Char": ["menu"], "Backspace": ["menu"]}.get(key, [])
            seen.add(("open", key if isinstance(key, str) else None))
            if names != want:
                ctx.violation("menu:%s" % (key if isinstance(key, str) else "other"), "with an open menu the key %s does %s" % (key if isinstance(key, str) else "(any other)", names or "nothing"), f["path"], trail(p))
                continue
            if want == ["menu"]:
                e = acts[0]
                cmd, s = canon(e.args[1]), canon(e.args[2])
                old = canon(mk("field", menu, "search"))
                if cmd is not canon(mk("field", menu, "command")):
                    ctx.violation("menu:command", "typing in a menu asks for another menu", e.where(), trail(p))
                parts = list(s.a[0]) if s.op == "fmt" else [s]
                if key == "Char":
                    if not (len(parts) == 2 and canon(parts[0]) is old and canon(parts[1]) is canon(mk("vf", mk("field", kt, "key"), "Char", "0"))):
                        ctx.violation("menu:search", "a character typed in a menu is not added at the end of the search", e.where(), trail(p))
                else:
                    cuts = [x for x in p.events if x.kind == "call" and re.search(r"String::(pop|truncate|remove)$", norm(x.name))]
                    if not any(x is old for x in subterms(s)) or (len(cuts) != 1 and s is old):
                        ctx.violation("menu:backspace", "the search of a menu is not shortened by its last character", e.where(), trail(p))
                    if any(not norm(x.name).endswith("String::pop") for x in cuts):
                        ctx.violation("menu:backspace", "cannot be shown: the search of a menu is shortened by its last character", e.where(), trail(p))
            continue
        seen.add(("closed", key if isinstance(key, str) else None))
        mods = {n: p.facts.get(mk("field", kt, n)) for n in ("ctrl", "alt")}
        # modifiers may be tested through equal terms
        for q, v in p.facts.items():
            c = canon(q)
            if c.op == "field" and c.a[0] is canon(kt) and c.a[1] in mods:
                mods[c.a[1]] = v
        special = mods["ctrl"] is True or mods["alt"] is True
        quits = [e for e in p.events if e.kind == "store" and e.args[1] is absint.TRUE]
        if key == "Escape" or key == "Char":
            if names == ["keys"]:
                k = canon((acts[0].x.get("raw") or acts[0].args)[1])
                if k is not canon(kt) and not any(x is canon(kt) for x in subterms(k)):
                    ctx.violation("keys:value", "the key sent is not the one typed", acts[0].where(), trail(p))
            elif not (key == "Char" and special):
                ctx.violation("keys:%s" % key, "without a menu the key %s does %s" % (key, names or "nothing"), f["path"], trail(p))
            if quits and not special:
                ctx.violation("keys:quit", "typing a character ends the terminal", quits[0].where(), trail(p))
        elif names:
            ctx.violation("keys:other", "without a menu the key %s does %s" % (key if isinstance(key, str) else "(any other)", names), f["path"], trail(p))
    for k in ("Escape", "Enter", "Up", "Down", "Char", "Backspace"):
        ctx.need(("open", k) in seen, "open " + k, "the terminal handles the key %s in a menu" % k)
    for k in ("Escape", "Char"):
        ctx.need(("closed", k) in seen, "closed " + k, "the terminal handles the key %s" % k)


def lowest(F, *names):
    """functions of the terminal that reach all of the names, and call no other that does"""
    fs = {f["id"]: f for f in F.real() if f["path"].startswith("ced::tui::") or "tui::" in (f.get("impl_self") or "")}

    def top(f):
        while f["kind"] == "Closure" and f.get("parent") in F.fns:
            f = F.fns[f["parent"]]
        return f["id"]
    out, has = {}, {}
    for f in fs.values():
        o = out.setdefault(top(f), set())
        h = has.setdefault(top(f), set())
        for b in f["blocks"]:
            for x in operands(b):
                c = x.get("fn") if isinstance(x, dict) else None
                if not isinstance(c, dict):
                    continue
                for i in (c.get("rid"), c.get("id")):
                    if i in fs:
                        o.add(top(fs[i]))
                for n in names:
                    if norm(c.get("path") or "").endswith(n):
                        h.add(n)
    reach = {k: set(v) for k, v in has.items()}
    for _ in range(len(out)):
        for k in out:
            for j in out[k]:
                reach[k] |= reach.get(j, set())
    good = {k for k, v in reach.items() if v >= set(names)}
    return [F.fns[k] for k in sorted(good) if not any(j in good and j != k for j in out[k])]


_draw = {}


def draws(F, p):
    """functions of the terminal that only draw: they write to the terminal and read, but do not call, the connection"""
    if (id(F), p) not in _draw:
        f = F.fn(p) if p.startswith("ced::tui::") else None
        s = " ".join(str(b["t"]) for b in f["blocks"]) if f else ""
        _draw[(id(F), p)] = bool(f) and "stdout" in s and not re.search(r"Connection::(?!state)\w+", s)
    return _draw[(id(F), p)]
