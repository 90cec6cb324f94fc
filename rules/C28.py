"""The terminal is put back.  Every command of the terminal library that changes the terminal's state, anywhere in the program,
is found by its type; each has one that takes it back.  A change is made only where a value exists whose destructor is
interpreted to take it back on every path: the function has a reference to one, or holds one that was made on every path
to the change (dominators of the MIR).  Rust drops that value on every way out, so what remains is what could prevent it: ending
the process, forgetting the value, or a panic that aborts; none of it may be reachable while the value exists."""
from common import *
from C26 import norm, last
import graph, json, re

UNDO = {"enable_raw_mode": "disable_raw_mode", "EnterAlternateScreen": "LeaveAlternateScreen", "Hide": "Show",
        "EnableMouseCapture": "DisableMouseCapture", "DisableLineWrap": "EnableLineWrap", "DisableBlinking": "EnableBlinking",
        "EnableBracketedPaste": "DisableBracketedPaste", "EnableFocusChange": "DisableFocusChange",
        "PushKeyboardEnhancementFlags": "PopKeyboardEnhancementFlags", "BeginSynchronizedUpdate": "EndSynchronizedUpdate",
        "SetForegroundColor": "ResetColor", "SetBackgroundColor": "ResetColor", "SetColors": "ResetColor", "SetAttribute": "ResetColor",
        "SetAttributes": "ResetColor", "SetStyle": "ResetColor", "SetCursorShape": "SetCursorShape", "SetCursorStyle": "SetCursorStyle"}
LASTING = ("SetTitle", "SetSize")
MODULES = r"crossterm::(?:terminal|cursor|event|style)::(?:[a-z_]+::)*"
ENDS = ("std::process::exit", "std::process::abort", "core::intrinsics::abort", "libc::_exit", "libc::exit", "libc::abort", "clap::Error::exit")
KEEPS = ("forget", "leak", "into_raw")


def need(ctx, cond, key, msg, where="", path=()):
    if not cond:
        ctx.violation(key, msg, where, path)
    return bool(cond)


def top(F, f):
    while f.get("kind") == "Closure" and f.get("parent") in F.fns:
        f = F.fns[f["parent"]]
    return f


def mentions(f):
    """[(block, name of what changes or restores the terminal)]"""
    out = []
    for i, b in enumerate(f["blocks"]):
        txt = json.dumps([st for st in b["s"] if st.get("s") == "="]) + json.dumps(b["t"].get("f", "")) + json.dumps(b["t"].get("args", ""))
        for n in sorted(set(re.findall(MODULES + r"(\w+)", txt))):
            out.append((i, n))
    return out


# ---- the control flow of a function ------------------------------------------------------------------------------------
def succ(b):
    t = b["t"]
    return [x for x in [t.get("to"), t.get("else")] + [y[1] for y in t.get("ts") or []] if isinstance(x, int)]


def reachable(f, start, without=()):
    seen, todo = set(), [start]
    while todo:
        i = todo.pop()
        if i in seen or i in without or i >= len(f["blocks"]):
            continue
        seen.add(i)
        todo += succ(f["blocks"][i])
    return seen


def holders(F, ty):
    """the types a value of which holds one of ty"""
    out = {ty}
    while True:
        more = {n for n, a in F.adts.items() if n not in out and any(re.search(r"(?<![\w:])" + re.escape(o) + r"(?![\w:])", fl[1])
                                                                     for v in a["variants"] for fl in v["fields"] for o in out)}
        if not more:
            return out
        out |= more


def names(ty, tys):
    return any(re.search(r"(?<![\w:])" + re.escape(t) + r"(?![\w:])", ty) for t in tys)


# ---- what a destructor takes back --------------------------------------------------------------------------------------
def destructor(ctx, F, ty):
    for f in F.real():
        if f.get("trait") == "std::ops::Drop" and f["path"].endswith("::drop") and (f.get("impl_self") or "").split("<")[0] == ty:
            return f
    return None


def restores(ctx, F, d):
    """what is taken back on every path that the terminal accepts"""
    E = Engine(F, iters=1)
    ctx.saw(d["path"])
    everywhere = None
    for p in E.run(d["id"]):
        done, failed = [], False
        for e in p.events:
            if e.kind != "call":
                continue
            if e.name.startswith("crossterm::terminal::") or "crossterm" in e.name:
                done.append(last(e.name))
            for a in e.args:
                for t in walk(a):
                    if t.op == "agg" and t.a[0] == "adt" and str(t.a[1]).startswith("crossterm::"):
                        done.append(str(t.a[1]).split("::")[-1])
        errs = [k for k, v in p.facts.items() if k.op == "variant" and v == "Err"]
        failed = any("crossterm" in show(k, 0) or "stdout" in show(k, 0) for k in errs)
        if failed or p.status == "panic" and any("crossterm" in show(a, 0) for a in p.events[-1].args):
            continue                 # the terminal is gone
        if p.status != "return":
            need(ctx, False, "destructor-ends", f"the destructor of {d.get('impl_self')} does not return ({p.status})", d["path"], trail(p)[:6])
        ctx.count("ways through a destructor")
        undone = set()
        for n in done:
            if n in UNDO.values():
                undone.add(n)
            if n in UNDO and UNDO[n] != n:
                undone.discard(UNDO[n])
        everywhere = undone if everywhere is None else everywhere & undone
    return everywhere or set()


def walk(t):
    if isinstance(t, T):
        yield t
        for a in t.a:
            yield from walk(a)
    elif isinstance(t, (tuple, list)):
        for a in t:
            yield from walk(a)


# ---- where the terminal is changed -------------------------------------------------------------------------------------
def owners_block(F, f, block, ty):
    """a value of ty exists in f whenever block is entered"""
    for ty_, _, _ in f["locals"][1:1 + f["args"]]:
        if re.sub(r"^&(mut )?", "", ty_).split("<")[0] == ty:
            return True
    made = set()
    loc = {i for i, l in enumerate(f["locals"]) if l[0].split("<")[0] == ty}
    for i, b in enumerate(f["blocks"]):
        if any(st.get("s") == "=" and len(st["p"]) == 1 and st["p"][0] in loc for st in b["s"]):
            made.add(i)
        t = b["t"]
        if t.get("t") == "call" and t.get("dest") and len(t["dest"]) == 1 and t["dest"][0] in loc:
            made.add(i)
    # no way to the block but through the making of one, and none of them is dropped before
    if not made:
        return False
    if block in reachable(f, 0, made):
        # or one is made right after it, with nothing in between that fails as long as there is a terminal
        for i in reachable(f, block, made):
            b = f["blocks"][i]
            t = b["t"]
            if b.get("c"):
                continue
            if t.get("t") == "return":
                return False
            c = graph.callee(t) if t.get("t") == "call" else None
            if t.get("t") == "call" and not (c and re.match(r"crossterm::|<T as crossterm|std::(io|result|option|convert|ops::function)::|core::(result|option)::", c["path"])):
                return False
    for i, b in enumerate(f["blocks"]):
        t = b["t"]
        if t.get("t") == "drop" and t.get("p") and t["p"][0] in loc and not b.get("c") and block in reachable(f, i):
            return False
    return True


def closure_block(F, f, g):
    """the blocks of g's outermost function where the closure f is made"""
    while f.get("kind") == "Closure":
        parent = F.fns.get(f.get("parent"))
        if parent is None:
            return None, []
        blocks = [i for i, b in enumerate(parent["blocks"]) if f["id"] in json.dumps(b["s"])]
        if parent.get("kind") != "Closure":
            return parent, blocks
        f = parent
    return f, []


def check(ctx):
    F = ctx.F
    G = graph.Graph(F)
    drops = {}
    for f in F.real():
        if f.get("trait") == "std::ops::Drop" and f["path"].endswith("::drop") and f["path"].startswith("ced"):
            ty = (f.get("impl_self") or "").split("<")[0]
            drops[ty] = (f, None)
    state = {}
    for f in F.real():
        if not f["path"].startswith(("ced::", "bin:", "ced_")):
            continue
        for b in f["blocks"]:
            for s in re.findall(r'"str": "((?:[^"\\]|\\.)*)"', json.dumps(b)):
                need(ctx, not re.search(r"\\u001b|\\u009b", s), f"sequence-{f['path']}",
                     f"{f['path']} writes to the terminal by a sequence of its own: {s[:40]}", f["path"])
            t = b["t"]
            c = graph.callee(t) if t.get("t") == "call" else None
            if c and last(c["path"]) in ("tcsetattr", "cfmakeraw", "set_raw_mode", "into_raw_mode"):
                need(ctx, False, f"raw-{f['path']}", f"{f['path']} changes the terminal with {c['path']}", f["path"])
        for i, n in mentions(f):
            if n in LASTING:
                need(ctx, False, f"lasting-{n}", f"{f['path']} makes a change of the terminal that cannot be taken back: {n}", f["path"])
            if n in UNDO:
                state.setdefault(n, []).append((f, i))
    # only what is changed outside of destructors counts as a change
    for n in list(state):
        state[n] = [(f, i) for f, i in state[n] if top(F, f).get("trait") != "std::ops::Drop"]
    state = {n: v for n, v in state.items() if v}
    need(ctx, "enable_raw_mode" in state, "no-change", "the terminal is never prepared")
    guards = set()
    memo = {}
    for n, sites in sorted(state.items()):
        for f, i in sites:
            g, blocks = (f, [i]) if f.get("kind") != "Closure" else closure_block(F, f, None)
            ctx.count("changes of the terminal")
            ctx.saw(f["path"])
            ok = None
            for ty, (d, _) in drops.items():
                if g is None or not blocks or not all(owners_block(F, g, b, ty) for b in blocks):
                    continue
                if ty not in memo:
                    memo[ty] = restores(ctx, F, d)
                if UNDO[n] in memo[ty]:
                    ok = ty
            if ok:
                guards.add(ok)
            need(ctx, ok, f"not-taken-back-{n}", f"{f['path']} makes a change of the terminal, {n}, which nothing takes back in every case", f["path"])
    # what keeps a value from being dropped
    tys = set()
    for g in guards:
        tys |= holders(F, g)
    while_alive = set()
    for f in F.real():
        if not f["path"].startswith(("ced", "bin:", "remote_ffi")):
            continue
        made = [i for i, b in enumerate(f["blocks"]) if b["t"].get("t") == "call" and any(
            f["locals"][b["t"]["dest"][0]][0].split("<")[0] in tys for _ in [0] if b["t"].get("dest") and len(b["t"]["dest"]) == 1)]
        made += [i for i, b in enumerate(f["blocks"]) for st in b["s"] if st.get("s") == "=" and isinstance(st.get("rv"), dict) and
                 st["rv"].get("r") == "agg" and st["rv"].get("adt") in tys]
        if any(names(l[0], tys) for l in f["locals"][1:1 + f["args"]]):
            while_alive.add((f["id"], None))
        for i in made:
            ctx.count("values that put the terminal back")
            need(ctx, f.get("kind") not in ("Static", "Const"), "static", f"{f['path']}: a value that is never dropped", f["path"])
            gone = {j for j, b in enumerate(f["blocks"]) if b["t"].get("t") == "drop" and len(b["t"]["p"]) == 1 and f["locals"][b["t"]["p"][0]][0].split("<")[0] in tys or
                    b["t"].get("t") == "call" and ((graph.callee(b["t"]) or {}).get("path") or "").endswith("mem::drop")}
            for j in reachable(f, i, gone - {i}):
                if j == i:
                    continue
                t = f["blocks"][j]["t"]
                if t.get("t") == "call" and not f["blocks"][j].get("c"):
                    c = graph.callee(t)
                    if c:
                        check_end(ctx, f, c)
                        r = c.get("rid") or c["id"]
                        if r in F.fns:
                            while_alive.add((r, None))
                for st in f["blocks"][j]["s"]:
                    for m in re.findall(r'"def": "([^"]+)"', json.dumps(st)):
                        if m in F.fns:
                            while_alive.add((m, None))
        for b in f["blocks"]:
            t = b["t"]
            c = graph.callee(t) if t.get("t") == "call" else None
            if c and names(" ".join(str(x) for x in c.get("substs") or []), tys):
                p = c["path"]
                keeps = last(p) in KEEPS or "ManuallyDrop" in p or re.search(r"\b(OnceCell|OnceLock)\b.*::(new|set|from)", p) or last(p) == "spawn"
                need(ctx, not keeps, "kept", f"{f['path']} keeps a value that puts the terminal back from being dropped: {p}", f["path"])
    need(ctx, bool(guards), "no-guard", "no value puts the terminal back")
    seen = G.reach([i for i, _ in while_alive])[0]
    ctx.count("functions that run while the terminal is changed", len(seen))
    for i in seen:
        f = F.fns.get(i)
        if f is None:
            continue
        for b in f["blocks"]:
            t = b["t"]
            if t.get("t") == "call":
                c = graph.callee(t)
                if c:
                    check_end(ctx, f, c)
    manifests(ctx)


def check_end(ctx, f, c):
    p = c["path"]
    need(ctx, not (p in ENDS or p.startswith(("std::process::exit", "std::process::abort")) or last(p) == "exit" and "process" in p or
                   last(p) in ("_exit", "abort") or p.startswith("clap::") and last(p) in ("exit", "value_t_or_exit")), "ends",
         f"{f['path']} ends the process while the terminal is changed: {p}", f["path"])


def manifests(ctx):
    """a panic unwinds"""
    import os, facts
    try:
        import tomllib
    except ImportError:
        tomllib = None
    for rel in ("Cargo.toml", "core/Cargo.toml", ".cargo/config.toml", ".cargo/config"):
        p = os.path.join(facts.REPO, rel)
        if not os.path.exists(p):
            continue
        d = tomllib.loads(open(p).read()) if tomllib else {}
        for name, prof in (d.get("profile") or {}).items():
            need(ctx, prof.get("panic") != "abort", "abort", f"{rel}: in the profile {name} a panic ends the process at once", rel)
