"""Order of recency.  The registers of clients and views keep their keys newest first: each operation of the register type
is interpreted over a symbolic list of keys and must leave list and map with the same keys, each once, a new or renewed
key in front and the others in place; what it calls newest must be the front.  Nobody changes the map behind the list.
A removed view is replaced by the newest; a new client copies the newest client, or starts on the newest view."""
from coremodel import *
import C12

MUTATORS = set(MUT) | {"split_off", "retain_mut", "extract_if", "try_insert"}


def check(ctx):
    m = model(ctx)
    if m is None:
        return
    F = ctx.F
    structs = [a for a in F.adts.values() if a["path"] == m.state]
    ftys = {f[0]: f[1] for f in structs[0]["variants"][0]["fields"]}
    tys = {norm(ftys[m.V].split("<")[0]), norm(ftys[m.C].split("<")[0])}
    regs = [a for a in F.adts.values() if norm(a["path"]) in tys and a["kind"] == "Struct"]
    if not ctx.need(regs, "register", "the registers of views and clients are kept in order of recency"):
        return
    for a in regs:
        fs = a["variants"][0]["fields"]
        lst = [f[0] for f in fs if re.search(r"(Vec|VecDeque)<", f[1])]
        mp = [f[0] for f in fs if "Map<" in f[1]]
        if not ctx.need(len(lst) == 1 and len(mp) == 1, "register", "a register is a list of keys and a map"):
            continue
        register(ctx, m, a["path"], lst[0], mp[0])
        behind(ctx, m, a["path"])
    uses(ctx, m)


# ------------------------------------------------------------------ the register type
def register(ctx, m, path, L, M):
    ops = []
    for f in m.F.real():
        if not (f.get("impl_self") or "").startswith(path + "<") or f["kind"] != "AssocFn" or f["args"] == 0:
            continue
        if f.get("impl_trait") and re.search(r"\bDeref(Mut)?>?$", f["impl_trait"]):
            continue
        if "StackMap" not in f["locals"][1][0] and path.rsplit("::", 1)[-1] not in f["locals"][1][0]:
            continue
        mut = f["locals"][1][0].startswith("&mut")
        E = Engine(m.F, iters=2, stores=True)
        ps = E.run(f)
        ctx.saw(*E.fns_seen)
        ctx.count("register_operations")
        ops += [(f, mut, p) for p in ps if p.status == "return"]
    # which end is the newest: the one given out
    ends = {x.a[0] if x.op == "pure" else x.op for f, mut, p in ops if not mut and f["args"] == 1 for x in subterms(p.ret) if is_first(x, L)}
    if not ctx.need(ends, "newest", "the register gives out its newest entry"):
        return
    front = bool(ends & {"first", "front"})
    if len(ends) > 1:
        ctx.violation("newest", "different ends of the order are given out as the newest", path, [])
    for f, mut, p in ops:
        ctx.count("register_paths")
        if mut:
            mutator(ctx, m, f, p, L, M, front)
        elif f["args"] == 1:
            getter(ctx, m, f, p, L, M)


def is_f(t, name):
    t = strip(t)
    return isinstance(t, T) and t.op == "field" and t.a[1] == name and strip(t.a[0]).op == "arg"


def position(p, L, k):
    """where the key is in the list on this path: an index, None if it is nowhere, -1 if the path does not look"""
    n = 0
    seen = -1
    for e in p.events:
        if e.kind == "iter" and is_f(e.args[0], L):
            for q, v in p.facts.items():
                if q.op == "eq" and any(x is e.args[1] for x in q.a) and any(same(x, k) for x in q.a if x is not e.args[1]):
                    if v is True:
                        return n
            n += 1
        elif e.kind == "exhausted" and is_f(e.args[0], L):
            seen = None
    return seen


def mutator(ctx, m, f, p, L, M, front):
    name = f["name"]
    key = lambda s: "%s:%s" % (s, name)
    kt = [mk("arg", f["locals"][i + 1][1] or "_%d" % (i + 1), f["id"], i) for i in range(1, f["args"])]
    keys = [e.args[1] for e in p.events if e.kind == "call" and e.name.startswith("HashMap::") and len(e.args) > 1 and is_f(e.args[0], M)]
    k = canon(keys[0]) if keys else (canon(kt[0]) if kt else None)
    if k is None:
        # a run over everything: only emptying both is followed
        both = {x for e in p.events if e.kind == "call" and e.name.endswith("::clear") for x in (L, M) if is_f(e.args[0], x)}
        if both and both != {L, M}:
            ctx.violation(key("step"), "keys and their order get out of step", f["path"], trail(p))
        return
    pos = position(p, L, k)
    had = None
    for q, v in p.facts.items():
        if q.op == "pure" and q.a[0] == "has" and q.a[1].op != "at" and is_f(q.a[1], M) and canon(q.a[2]) is k:
            had = v
    if isinstance(pos, int) and pos >= 0:
        if had is False:
            return                  # cannot be: the list holds the keys of the map
        had = True
    elif pos is None:
        if had is True:
            return
        had = False
    toks = ["e%d" % i for i in range(max(pos, 0) if isinstance(pos, int) else 0)]
    if isinstance(pos, int) and pos >= 0:
        toks.append("K")
    elif pos == -1 and had is not False:
        toks.append("K?")
    toks.append("*")
    inmap = {True: 1, False: 0, None: "?"}[had]
    for e in p.events:
        if e.kind != "call" or not e.args:
            continue
        t = e.args[0]
        if isinstance(t, T) and is_f(t, M) and e.name.startswith("HashMap::"):
            n = e.name.split("::")[1]
            if n == "insert" and canon(e.args[1]) is k:
                inmap = 1
            elif n in ("remove", "remove_entry") and canon(e.args[1]) is k:
                inmap = 0
            elif n in MUTATORS:
                ctx.violation(key("map"), "cannot be shown: the map changes in a way the analysis does not follow (%s)" % n, e.where(), trail(p))
                return
        elif isinstance(t, T) and is_f(t, L):
            n = e.name.rsplit("::", 1)[-1]
            ix = e.args[1] if len(e.args) > 1 else None
            c = const_int(ix)
            if n == "remove" and c is not None and c < len(toks) and toks[c] != "*":
                toks.pop(c)
            elif n == "insert" and c is not None and c < len(toks) and canon(e.args[2]) is k:
                toks.insert(c, "K")
            elif n in ("push", "push_back") and canon(e.args[1]) is k:
                toks.append("K")
            elif n == "push_front" and canon(e.args[1]) is k:
                toks.insert(0, "K")
            elif n == "retain" and drops(m, e, k):
                toks = [x for x in toks if x not in ("K", "K?")]
            elif n in ("iter", "first", "len", "is_empty", "contains", "position", "get"):
                pass
            else:
                ctx.violation(key("list"), "cannot be shown: the order of keys changes in a way the analysis does not follow (%s)" % n, e.where(), trail(p))
                return
    ctx.count("register_changes")
    others = [x for x in toks if x not in ("K", "K?")]
    if others != sorted([x for x in others if x != "*"]) + ["*"] or others[:-1] != ["e%d" % i for i in range(max(pos, 0) if isinstance(pos, int) else 0)]:
        ctx.violation(key("others"), "the order of the other keys is not kept", f["path"], trail(p))
    n = toks.count("K")
    if "K?" in toks:
        if n or inmap == 0:
            ctx.violation(key("step"), "a key may be in the order twice, or without being registered", f["path"], trail(p))
            return
    if inmap in (0, 1) and "K?" not in toks and n != inmap:
        ctx.violation(key("step"), "keys and their order get out of step (%d times in the order, %d registered)" % (n, inmap), f["path"], trail(p))
    if "K" in toks and toks[0 if front else -1] != "K" and any(e.kind == "call" and (e.name == "HashMap::insert" and is_f(e.args[0], M)
                                                                  or is_f(e.args[0], L) and re.search("::(insert|push\\w*)$", e.name)) for e in p.events if e.args and isinstance(e.args[0], T)):
        ctx.violation(key("front"), "a key which is registered anew does not become the newest", f["path"], trail(p))
    if any(e.kind == "call" and e.name == "HashMap::insert" and is_f(e.args[0], M) for e in p.events if e.args and isinstance(e.args[0], T)) and "K" not in toks:
        ctx.violation(key("front"), "a key which is registered does not become the newest", f["path"], trail(p))


def drops(m, e, k):
    """retain keeps all but the key"""
    s = mk("sym", "a key")
    fn = e.args[1]
    if fn.op != "agg" or fn.a[0] != "closure":
        return False
    for q in Engine(m.F).run_value(fn, [s]):
        r = q.ret
        if q.status != "return":
            return False
        eq = None
        for z, v in list(q.facts.items()) + ([(r.a[0], False)] if r.op == "not" else []):
            if z.op == "eq" and any(x is s for x in z.a) and any(canon(x) is canon(k) for x in z.a):
                eq = v
        if r.op == "not":
            if eq is None:
                return False
        elif not (r is TRUE and eq is False or r is FALSE and eq is True):
            return False
    return True


def const_int(t):
    if isinstance(t, T) and t.op == "int":
        return t.a[0]
    if isinstance(t, T) and t.op == "const" and isinstance(t.a[0], int):
        return t.a[0]
    s = show(t) if t is not None else ""
    return int(s) if s.isdigit() else None


def getter(ctx, m, f, p, L, M):
    """what the register gives out as one of its entries is the newest"""
    ty = f["locals"][0][0]
    if not re.match(r"(std|core)::option::Option<&'?\w* ?[A-Z]\w*>|.*Option<.*&.*>", ty):
        return
    ctx.count("newest")
    r = p.ret
    first = None
    for q in p.facts:
        for x in subterms(q):
            if is_first(x, L):
                first = x
    for x in subterms(r):
        if is_first(x, L):
            first = x
    ok = False
    if is_first(r, L):
        ok = True
    elif r.op == "agg" and r.a[2] == "None":
        ok = first is not None
    elif r.op == "agg" and r.a[2] == "Some":
        v = strip(r.a[3][0][1])
        ok = v.op == "idx" and is_f(v.a[0], M) and v.a[1].op == "vf" and is_first(v.a[1].a[0], L) or v.op == "vf" and is_first(v.a[0], L)
    elif r.op in ("pure", "mapget", "get") and any(is_first(x, L) for x in subterms(r)) and any(is_f(x, M) for x in subterms(r)):
        ok = True
    if not ok:
        ctx.violation("newest:%s" % f["name"], "the entry given out is not the newest (%s)" % show(r)[:100], f["path"], trail(p))


def is_first(x, L):
    if not isinstance(x, T):
        return False
    if x.op == "pure" and x.a[0] in ("first", "front", "last", "back") and is_f(x.a[1], L):
        return True
    if x.op in ("first", "front", "last", "back") and is_f(x.a[0], L):
        return True
    return False


# ------------------------------------------------------------------ nobody changes the map behind the list
def behind(ctx, m, path):
    for f in m.G.local.values():
        if (f.get("impl_self") or "").startswith(path):
            continue
        for b in f["blocks"]:
            t = b["t"]
            if t["t"] != "call":
                continue
            c = graph.callee(t)
            if not c or not t.get("atys"):
                continue
            ty = t["atys"][0]
            if c.get("name") in MUTATORS and re.match(r"&(\S+ )?mut .*HashMap<", ty) and re.search(r"HashMap<[^<>]*, (%s|[^<>]*(Rc|Arc)<[^<>]*RefCell<%s>)" % (re.escape(m.ctx), re.escape(m.view_ty)), ty):
                ctx.violation("behind:%s" % (f.get("name") or f["path"]), "a register is changed behind its order of recency", f["path"], [])
            ctx.count("calls_scanned")


# ------------------------------------------------------------------ uses
def uses(ctx, m):
    todo = [f for f in entries(m) if m.kinds[f["id"]] & {"V", "C"}]
    todo.sort(key=lambda f: (len(m.G.reach([f["id"]])[0]), f["path"]))
    closed = set()
    for f in todo:
        E = engine(m, opaque=closed)
        try:
            ps = E.run(f)
        except TooBig:
            E = engine(m, opaque=closed | {g["path"] for g in todo if g is not f and g["kind"] != "Closure"})
            ps = E.run(f)
        ctx.saw(*E.fns_seen)
        n = 0
        for p in ps:
            if p.status == "return":
                n += 1
                path(ctx, m, E, f, p)
        if n > C12.LIMIT:
            closed.add(f["path"])
    ctx.need(ctx.counts.get("replacements"), "replaced", "a removed view is replaced")
    ctx.need(ctx.counts.get("arrivals"), "arrival", "a new client copies another or starts on a view")


def path(ctx, m, E, f, p):
    op = f.get("name") or f["path"]
    removed = False
    for i, e in enumerate(p.events):
        if mapev(e, m, "V", "remove") and e.x.get("present") is not False:
            removed = True
        elif e.kind == "store" and C12.is_cview(m, e.args[0]) and removed and any(x.op == "elem" for x in subterms(e.args[0])):
            ctx.count("replacements")
            if not newest(m, E, e, e.args[1], "V"):
                ctx.violation("replaced:%s" % op, "the view which replaces a removed one is not the newest (%s)" % show(e.args[1])[:120], e.where(), trail(p))
        elif mapev(e, m, "C", "insert"):
            ctx.count("arrivals")
            v = e.args[2]
            c = strip(v)
            if c.op == "idx" and reg(m, c.a[0]) == "C":
                k = strip(c.a[1])
                if not (k.op == "vf" and k.a[0].op == "pure" and k.a[0].a[0] == "latest" and reg(m, strip(k.a[0].a[1])) == "C"):
                    ctx.violation("arrival:%s" % op, "a new client does not copy the one that connected last (%s)" % show(c)[:100], e.where(), trail(p))
            elif c.op == "vf" and c.a[0].op == "pure" and c.a[0].a[0] == "latest_value" and reg(m, strip(c.a[0].a[1])) == "C":
                pass
            elif v.op == "agg" and v.a[1] == m.ctx:
                if not any(q.op == "variant" and val == "None" and q.a[0].op == "pure" and q.a[0].a[0] in ("latest", "latest_value")
                           and reg(m, strip(q.a[0].a[1])) == "C" or q.op == "pure" and q.a[0] == "is_empty" and reg(m, strip(q.a[1])) == "C" and val is True
                           for q, val in e.facts.items()):
                    ctx.violation("arrival-alone:%s" % op, "a new client starts afresh although others are connected", e.where(), trail(p))
                if not newest(m, E, e, dict(v.a[3])[m.cview], "V"):
                    ctx.violation("arrival-view:%s" % op, "the first client does not start on the newest view", e.where(), trail(p))
            else:
                ctx.violation("arrival:%s" % op, "a new client does not copy the one that connected last (%s)" % show(c)[:100], e.where(), trail(p))


def newest(m, E, e, v, kind):
    v = strip(v)
    while v.op == "clone":
        v = v.a[0]
    if v.op == "vf" and v.a[0].op == "pure" and v.a[0].a[0] == "latest_value":
        t = v.a[0].a[1]
        vers = 0
        if t.op == "at":
            vers, t = t.a[1], t.a[0]
        return reg(m, t) == kind and vers == E.version(e, t)
    if v.op == "idx" and reg(m, v.a[0]) == kind:
        k = strip(v.a[1])
        if k.op == "vf" and k.a[0].op == "pure" and k.a[0].a[0] == "latest":
            t = k.a[0].a[1]
            vers = 0
            if t.op == "at":
                vers, t = t.a[1], t.a[0]
            return reg(m, t) == kind and vers == E.version(e, t)
    return False
