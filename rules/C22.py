"""What scripts do through the editor's objects.  Every method of the script's editor object that the core has too is
interpreted (Lua source): it makes exactly one call on the core, of the same name and with the same arguments in order, and
returns its result.  Every method the core registers for scripts is interpreted (MIR): where the client it is given is not
connected it fails before anything is changed or anybody is told anything; what is sent for a client is sent to that client."""
from scripts import *
from luai import explore, freeze

# what a missing argument stands for
DEFAULTS = {"scratch": {2: ""}, "edit": {2: False}}
ANYBODY = ("message", "error")      # may name a client that has left: they only log then


def check(ctx):
    m = model(ctx)
    if m is None:
        return
    S = script(ctx, m)
    if S is None:
        return
    core = next((n for n, h in S.names.items() if h == m.core), None)
    if not ctx.need(core, "core", "the scripts have an object for the editor core"):
        return
    for host, methods in sorted(S.methods.items()):
        for name, cl in sorted(methods.items()):
            f = m.F.fns.get(cl)
            if not ctx.need(f, "method:" + name, "the function behind the method %s of the scripts is known" % name):
                continue
            ctx.count("methods")
            types = kinds(f)
            if types and types[0] == "usize":
                refuses(ctx, m, host, name, f, len(types))
            if host == m.core:
                forwards(ctx, m, S, core, name, f, types)
    ctx.need(ctx.counts.get("messages"), "messages", "methods of the scripts send something to clients")
    ctx.need(ctx.counts.get("refusals"), "refusals", "methods of the scripts name clients")


def kinds(f):
    t = f["locals"][f["args"]][0]
    if t.startswith("("):
        return split(t[1:-1])
    return [t]


def split(s):
    out, d, cur = [], 0, ""
    for ch in s:
        d += ch in "<([{"
        d -= ch in ">)]}"
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


def unit(f):
    """the method gives the script nothing back"""
    m = re.search(r"Result<(\(\)),", f["locals"][0][0])
    return bool(m)


def refuses(ctx, m, host, name, f, n):
    E = engine(m, keep_inline={f["path"]}, iters=1)
    ps = E.run(f)
    ctx.saw(*E.fns_seen)
    arg = E.argterm(f, f["args"] - 1)
    client = mk("field", arg, "0") if n > 1 else arg
    unknown = 0
    for p in ps:
        if p.status not in ("return", "panic"):
            continue
        ctx.count("paths")
        addressed(ctx, m, name, p, client)
        if host != m.core or name in ANYBODY:
            continue
        st = [v for q, v in p.facts.items() if q.op == "pure" and q.a[0] == "has" and reg(m, strip_at(q.a[1])) == "C" and same(q.a[2], client)]
        if st and st[0] is False:
            unknown += 1
            if p.status == "return" and (strip(p.ret).op != "agg" or strip(p.ret).a[2] != "Err"):
                ctx.violation("accepts:" + name, "%s for a client that is not connected succeeds" % name, f["path"], trail(p))
            if p.status == "panic":
                ctx.violation("panics:" + name, "%s for a client that is not connected ends the editor" % name, p.events[-1].where(), trail(p))
        if not st or st[0] is False:
            for e in p.events:
                if changing(m, e):
                    ctx.violation("early:" + name, "%s changes or tells something although its client is not connected" % name, e.where(), trail(p))
    if host == m.core and name not in ANYBODY:
        ctx.count("refusals")
        if not unknown:
            ctx.violation("unchecked:" + name, "%s does not tell whether its client is connected" % name, f["path"])


def changing(m, e):
    if e.kind == "store":
        return any(y.op == "field" and y.a[1] in ("state",) for y in subterms(e.args[0])) or reg(m, e.args[0]) is not None
    if e.kind != "call":
        return False
    if e.name.rsplit("::", 1)[-1] in ("insert", "remove", "retain", "clear", "get_mut", "entry") and e.args and reg(m, e.args[0]) is not None:
        return True
    fs = m.F.by_path.get(e.name) or []
    return any(f["id"] in m.outputs or m.own.get(f["id"]) or m.kinds.get(f["id"]) or f["id"] in m.notifier for f in fs)


def addressed(ctx, m, name, p, client):
    """messages for a client are for the client the script names"""
    for e in p.events:
        if e.kind == "call" and any(f["id"] in m.notifier or f["id"] in m.outputs or is_core(m, f) for f in m.F.by_path.get(e.name) or []):
            ids = [a for a, ty in zip(e.args, e.x.get("atys") or []) if re.match(r"&?(usize|(std|core)::option::Option<usize>)$", ty)]
            ctx.count("messages")
            for a in ids:
                a = strip(a)
                if a.op == "agg" and a.a[2] == "Some":
                    a = a.a[3][0][1]
                if not same(a, client):
                    ctx.violation("addressed:" + name, "%s is sent to another client than the one it names" % name, e.where(), trail(p))


def forwards(ctx, m, S, core, name, f, types):
    args = [Sym("arg%d" % i, nonnil=True, id=(i == 0 and types[0] == "usize")) for i in range(len(types))]
    calls_ = [(args, args)]
    for i, v in DEFAULTS.get(name, {}).items():
        calls_.append((args[:i] + [None] + args[i + 1:], args[:i] + [v] + args[i + 1:]))
        calls_.append((args[:i], args[:i] + [v] + args[i + 1:]))
    for given, want in calls_:
        def body(L):
            n = len(L.calls)
            ed = L.globals.d.get("editor")
            fn = L.index(ed, name)
            if fn is None:
                raise LuaError("the editor object has no method %s" % name)
            return L.calls[n:], L.call(fn, [ed] + list(given)), n
        try:
            for L, r in explore(lambda d: machine(S, d), body, 64):
                ctx.count("forwarded")
                ctx.saw(*["%s:%s" % (a, b) for a, b, _ in L.fns])
                if isinstance(r, LuaError):
                    ctx.violation("fails:" + name, "editor:%s fails: %s" % (name, r), "core/scripts")
                    continue
                _, ret, n = r
                made = L.calls[n:]
                w = made[0].where if made else "core/scripts"
                if [(c.obj, c.method) for c in made] != [(core, name)]:
                    ctx.violation("calls:" + name, "editor:%s calls %s instead of %s of the core" % (name, ", ".join(c.method for c in made) or "nothing", name), w, [str(c) for c in made])
                    continue
                got = list(made[0].args)
                while len(got) < len(want):
                    got.append(None)
                if len(got) != len(want) or any(not (a is b or type(a) == type(b) and a == b) for a, b in zip(got, want)):
                    ctx.violation("arguments:" + name, "editor:%s hands on %s instead of %s" % (name, got, want), w, [str(c) for c in made])
                if not unit(f):
                    v = ret[0] if isinstance(ret, (list, tuple)) and ret else ret if not isinstance(ret, (list, tuple)) else None
                    if v is None or v is not made[0].res and not (isinstance(v, Sym) and isinstance(getattr(made[0], "res", None), Sym) and v.name == made[0].res.name):
                        ctx.violation("result:" + name, "editor:%s does not return what the core returns" % name, w, [str(c) for c in made])
        except (luai.Cut, luai.Unsupported) as x:
            ctx.violation("unknown:" + name, "cannot be shown: editor:%s: %s" % (name, x), "core/scripts")
