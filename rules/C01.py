"""Locks, borrows and blocking waits of every function, on the compiler's MIR.

A guard is a local whose type owns a mutex guard, a read or write guard, or a borrow of a cell.  A forward dataflow
analysis finds where guards may be live (from the call that makes them to their move or drop).  Every call made while a
guard is live is followed through the call graph (closures, trait implementations and the methods scripts can call
included): what it may acquire must not conflict with the guard, and adds to the order of locks.  Guards must not be live
where a task is suspended.  A channel into which somebody sends while blocking the thread is unbounded, or its receiver
is given to another thread."""
from coremodel import *
from graph import Graph, callee, targets, norm as gnorm

GUARD = re.compile(r"(?:^|[<( ,])(?:std::sync::[\w:]*::)(MutexGuard|RwLockReadGuard|RwLockWriteGuard)<|(?:^|[<( ,])core::cell::(RefMut|Ref)<")
ACQ = {"std::sync::Mutex::lock": "lock", "std::sync::RwLock::read": "read", "std::sync::RwLock::write": "write",
       "std::cell::RefCell::borrow": "borrow", "std::cell::RefCell::borrow_mut": "borrow_mut", "std::cell::RefCell::replace": "borrow_mut",
       "std::cell::RefCell::take": "borrow_mut", "std::cell::RefCell::swap": "borrow_mut"}
KIND = {"MutexGuard": "lock", "RwLockReadGuard": "read", "RwLockWriteGuard": "write", "Ref": "borrow", "RefMut": "borrow_mut"}
SCRIPT = re.compile(r"rlua::")


def args_of(ty, i):
    """the text between the brackets that open at i"""
    d, j = 0, i
    while j < len(ty):
        d += {"<": 1, ">": -1}.get(ty[j], 0)
        if d == 0:
            return ty[i + 1:j]
        j += 1
    return ty[i + 1:]


def guards(ty):
    """{(kind, guarded type)} owned by a value of the type"""
    if ty.startswith(("&", "*", "closure:", "fn:")):
        return set()
    out = set()
    for m in GUARD.finditer(ty):
        if "&" in ty[max(0, m.start() - 6):m.start() + 1]:
            continue
        out.add((KIND[m.group(1) or m.group(2)], args_of(ty, m.end() - 1)))
    return out


def conflict(a, b):
    if a[1] != b[1]:
        return False
    x, y = a[0], b[0]
    if {x, y} <= {"borrow"}:
        return False
    fam = {"lock": 0, "read": 1, "write": 1, "borrow": 2, "borrow_mut": 2}
    return fam[x] == fam[y]


class A:
    def __init__(self, ctx):
        F = self.F = ctx.F
        self.G = Graph(F)
        self.own = {}        # fn -> {(kind, type): span} acquired by its own calls
        self.scripts = set()
        self.call_out = {}
        methods = self.script_methods()
        for f in F.real():
            own, outs = {}, set()
            for b in f["blocks"]:
                if b.get("c"):
                    continue
                t = b["t"]
                if t["t"] != "call":
                    continue
                for a in self.acquires(t):
                    own.setdefault(a, t.get("sp"))
                outs |= self.callees(t, methods)
            for b in f["blocks"]:
                if b["t"]["t"] == "drop" and not b.get("c"):
                    from graph import head
                    for tr, i in self.G.ext_impl.get(head(b["t"].get("ty", "")), []):
                        if norm(tr).endswith("Drop"):
                            outs.add(i)
            self.own[f["id"]] = own
            self.call_out[f["id"]] = {i for i in outs if i in self.G.local}
        # coroutines: a function that makes one does not run it, whoever polls it does; made and awaited in one place here
        self.may = {i: set(o) for i, o in self.own.items()}
        ch = True
        while ch:
            ch = False
            for i, outs in self.call_out.items():
                n = len(self.may[i])
                for o in outs:
                    self.may[i] |= self.may.get(o, set())
                ch |= len(self.may[i]) > n

    def script_methods(self):
        """functions scripts can call: closures registered as methods of user data"""
        out = set()
        for f in self.F.real():
            for b in f["blocks"]:
                t = b["t"]
                if t["t"] == "call":
                    c = callee(t)
                    if c and re.search(r"rlua::(UserDataMethods|Context)\S*::(add_\w+|create_function\w*)", norm(c.get("path", ""))):
                        out |= self.closures(t)
        return out

    def closures(self, t):
        c = callee(t) or {}
        s = " ".join((c.get("substs") or []) + (c.get("rsubsts") or []) + t.get("atys", []))
        return {m for m in re.findall(r"(?:closure|coroutine|fn):([\w:#{}<> ]*?[\w}])(?=[>,\s)]|$)", s)}

    def acquires(self, t):
        c = callee(t)
        if not c:
            return set()
        n = norm(c.get("path", ""))
        n = re.sub(r"<.*?>", "", n).replace("::::", "::")
        if n in ACQ:
            s = c.get("substs") or c.get("rsubsts") or ["?"]
            return {(ACQ[n], s[0])}
        return set()

    def callees(self, t, methods):
        c = callee(t)
        if not c:
            return set()
        n = norm(c.get("path", ""))
        out = set(self.G.resolve(c))
        local = c.get("rid") in self.G.local or c.get("id") in self.G.local
        if not re.search(r"(LocalExecutor|Executor|thread)::spawn$|add_(method|function|meta)\w*$", n):
            out |= {x for x in self.closures(t) if x in self.G.local}
        if SCRIPT.search(c.get("path", "")) and re.search(r"::(exec|eval|call|context|pcall)$", n):
            out |= methods
        return out


def check(ctx):
    a = A(ctx)
    methods = a.script_methods()
    F = ctx.F
    order = {}
    for f in F.real():
        ctx.saw(f["id"])
        flow(ctx, a, f, methods, order)
    locks = {x for o in a.own.values() for x in o}
    ctx.counts["locks"] = len({t for _, t in locks})
    ctx.need(any(k == "lock" and "CoreState" in t for k, t in locks) or any(k in ("lock", "write") for k, t in locks), "locks", "the editor's state is locked")
    cycles(ctx, order)
    channels(ctx, F)


def flow(ctx, a, f, methods, order):
    bl = f["blocks"]
    gl = {i: guards(l[0]) for i, l in enumerate(f["locals"])}
    gl = {i: g for i, g in gl.items() if g and i > f["args"]}
    par = {i: guards(f["locals"][i][0]) for i in range(1, f["args"] + 1)}
    par = {i: g for i, g in par.items() if g}
    if not gl and not par:
        return
    ctx.count("functions_with_guards")

    def moved(o, live):
        if isinstance(o, dict) and o.get("k") == "move" and o.get("p"):
            p = o["p"]
            if len(p) == 1 or not any(e and e[1:] and e[0] == "d" and e[1] == "ref" or e == "deref" for e in p[1:]):
                live.discard(p[0])

    def rvops(rv):
        if isinstance(rv, dict):
            if rv.get("k") in ("move", "copy", "const"):
                yield rv
            else:
                for v in rv.values():
                    yield from rvops(v)
        elif isinstance(rv, list):
            for v in rv:
                yield from rvops(v)

    ins = {0: set(par)}
    todo = [0]
    seen_calls = {}
    while todo:
        i = todo.pop()
        live = set(ins[i])
        for s in bl[i]["s"]:
            if s["s"] == "=":
                for o in rvops(s.get("rv")):
                    moved(o, live)
                if s["p"][0] in gl and len(s["p"]) == 1:
                    rv = s.get("rv") or {}
                    live.add(s["p"][0])
            elif s["s"] == "dead":
                live.discard(s["l"])
        t = bl[i]["t"]
        if t["t"] == "call":
            seen_calls[i] = (t, frozenset(live))
            before = set(live)
            for o in t.get("args", []):
                moved(o, live)
            seen_calls[i] = (t, frozenset(live), frozenset(before - live))
            if t.get("dest") and t["dest"][0] in gl and len(t["dest"]) == 1:
                live.add(t["dest"][0])
        elif t["t"] == "drop":
            if len(t["p"]) == 1:
                live.discard(t["p"][0])
        elif t["t"] == "yield":
            seen_calls[i] = (t, frozenset(live), frozenset())
        for j in targets(t):
            if bl[j].get("c"):
                continue
            n = ins.get(j, set()) | live
            if j not in ins or n != ins[j]:
                ins[j] = n
                todo.append(j)
    names = {i: l[1] for i, l in enumerate(f["locals"])}
    for i, (t, live, mv) in sorted(seen_calls.items()):
        held = {g for l in live for g in gl.get(l, par.get(l, set()))}
        if not held:
            continue
        sp = t.get("sp") or ["", 0]
        where = "%s:%s" % (sp[0], sp[1])
        if t["t"] == "yield":
            bad = {g for g in held if g[0] in ("lock", "read", "write")}
            ctx.count("suspensions_checked")
            for g in sorted(bad):
                ctx.violation("suspend:%s:%s" % (f["path"], short(g[1])), "the lock of %s is held while the task is suspended" % short(g[1]), where)
            continue
        ctx.count("calls_under_guard")
        acq = set(a.acquires(t))
        via = {}
        for x in acq:
            via[x] = None
        for o in a.callees(t, methods):
            for x in a.may.get(o, set()):
                acq.add(x)
                via.setdefault(x, o)
        for h in sorted(held):
            for x in sorted(acq):
                if conflict(h, x):
                    ctx.violation("again:%s:%s" % (f["path"], short(h[1])), "%s is %s while %s%s" % (
                        short(h[1]), WORD[x[0]], WORD[h[0]], " (through %s)" % via[x] if via[x] else ""), where, chain(a, via[x], x))
                elif x[0] in ("lock", "read", "write") and h[0] in ("lock", "read", "write"):
                    order.setdefault((h[1], x[1]), (where, f["path"]))


WORD = {"lock": "locked", "read": "locked for reading", "write": "locked for writing", "borrow": "borrowed", "borrow_mut": "borrowed mutably"}


def short(t):
    return re.sub(r"[\w]+::", "", t)[:60]


def chain(a, i, x):
    out = []
    seen = set()
    while i and i not in seen:
        seen.add(i)
        out.append(i)
        if x in a.own.get(i, {}):
            sp = a.own[i][x]
            out.append("%s:%s" % (sp[0], sp[1]) if sp else "")
            break
        i = next((o for o in a.call_out.get(i, ()) if x in a.may.get(o, ()) and o not in seen), None)
    return out


def cycles(ctx, order):
    ctx.counts["lock_orders"] = len(order)
    adj = {}
    for (h, x), w in order.items():
        adj.setdefault(h, {})[x] = w
    for h in sorted(adj):
        seen, todo = {}, [(x, None) for x in adj[h]]
        while todo:
            x, fr = todo.pop()
            if x in seen:
                continue
            seen[x] = fr
            if x == h:
                (w, p) = next(iter(adj[h].values()))
                ctx.violation("order:" + short(h), "the lock of %s is taken before and after another one" % short(h), w, ["%s before %s at %s" % (short(a_), short(b_), w_[0]) for (a_, b_), w_ in sorted(order.items())])
                break
            todo += [(y, x) for y in adj.get(x, {})]


# ---- channels -----------------------------------------------------------------------------------------------------------
def channels(ctx, F):
    blocking, cons = {}, {}
    for f in F.real():
        for b in f["blocks"]:
            t = b["t"]
            if t["t"] != "call" or b.get("c"):
                continue
            c = callee(t) or {}
            n = norm(c.get("path", ""))
            sp = t.get("sp") or ["", 0]
            w = "%s:%s" % (sp[0], sp[1])
            if n.endswith("::block_on"):
                for m in re.finditer(r"async_channel::Send<", " ".join(t.get("atys", []))):
                    s = " ".join(t["atys"])
                    blocking.setdefault(args_of(s, m.end() - 1), []).append(w)
            elif re.search(r"Sender\S*::send_blocking$", n) or n.endswith("SyncSender::send"):
                blocking.setdefault((c.get("substs") or ["?"])[0], []).append(w)
            m = re.search(r"async_channel::(bounded|unbounded)$", n)
            if m or n.endswith("mpsc::sync_channel"):
                k = m.group(1) if m else "bounded"
                cons.setdefault((c.get("substs") or ["?"])[0], []).append((k, f, w))
    ctx.counts["blocking_sends"] = sum(map(len, blocking.values()))
    ctx.counts["channels"] = sum(map(len, cons.values()))
    ctx.need(blocking, "blocking", "messages are sent while the thread is blocked")
    for ty, ws in sorted(blocking.items()):
        if not ctx.need(cons.get(ty), "channel " + short(ty), "the channel of %s is made somewhere" % short(ty)):
            continue
        for k, f, w in cons[ty]:
            ctx.count("channels_checked")
            if k == "unbounded" or elsewhere(F, f, ty):
                continue
            ctx.violation("full:" + short(ty), "the thread can block for ever sending a %s (at %s) into a channel of limited size which is not emptied by another thread" % (short(ty), ", ".join(ws)), w)


def elsewhere(F, f, ty):
    """the receiver is moved to another thread"""
    for b in f["blocks"]:
        t = b["t"]
        if t["t"] == "call" and norm((callee(t) or {}).get("path", "")).endswith("thread::spawn"):
            for m in re.findall(r"closure:([\w:#{}]+)", " ".join(t.get("atys", []))):
                g = F.fns.get(m)
                if g and any("async_channel::Receiver<%s>" % ty in l[0] or "async_channel::Recv<%s>" % ty in l[0] for h in [g] + [F.fns[c] for c in F.children.get(m, []) if c in F.fns] for l in h["locals"]):
                    return True
    return False
