"""Names of keys.  The functions that print a key and a key event, and those that read them, are interpreted on every path:
every key has one name, no two the same, which reads back as that key; every combination of modifiers prints marks that read
back as the same modifiers, followed by the key; a character typed is its small letter, with shift where it was a capital.
What the key handler of the scripts is given tells the same."""
import itertools
from scripts import *
import C20

KEY = "keys::Key"
EV = "keys::KeyEvent"


class Unknown(Exception):
    pass


def impl(ctx, ty, trait, name):
    fs = [f for f in ctx.F.real() if f.get("name") == name and (f.get("impl_self") or "").endswith(ty) and re.search(trait, str(f.get("trait")))]
    return fs


def shown(p):
    """what a printing path writes: a list of strings and terms"""
    out = []
    for e in p.events:
        if ev_call(e, "Formatter::write_str", "Formatter::write_char"):
            out.append(e.args[1])
        elif ev_call(e, "Formatter::write_fmt"):
            t = strip(e.args[1])
            out += list(t.a[0]) if t.op == "fmt" else [t]
        elif e.kind == "call" and e.name.endswith("::fmt") and len(e.args) == 2:
            out.append(e.args[0])
    res = []
    for x in out:
        if isinstance(x, T):
            y = strip(x)
            x = y.a[0] if y.op in ("str", "char") else y
        if isinstance(x, str) and res and isinstance(res[-1], str):
            res[-1] += x
        else:
            res.append(x)
    return res


def run(ctx, f, opaque=(), iters=1):
    E = Engine(ctx.F, iters=iters, opaque=opaque)
    ps = E.run(f)
    ctx.saw(*E.fns_seen)
    return E, [p for p in ps if p.status in ("return", "panic") and not cut_short(p)]


def cut_short(p):
    """did writing fail?  What was written until then is of no use to anybody"""
    return any(q.op == "variant" and v == "Err" and strip(q.a[0]).op == "call" and (re.search(r"Formatter::write_\w+$|::fmt$", norm(str(strip(q.a[0]).a[0]))))
               for q, v in p.facts.items())


def check(ctx):
    adt = next((a for a in ctx.F.adts.values() if a["path"].endswith("::keys::Key")), None)
    show_key, read_key = impl(ctx, KEY, r"fmt::Display", "fmt"), impl(ctx, KEY, r"str::FromStr", "from_str")
    show_ev = impl(ctx, EV, r"fmt::Display", "fmt")
    if not ctx.need(adt and len(show_key) == 1 and len(read_key) == 1 and len(show_ev) == 1, "functions", "keys are printed and read"):
        return
    names = printed(ctx, adt, show_key[0])
    readback(ctx, adt, read_key[0], names)
    marks = modifiers(ctx, show_ev[0], show_key[0])
    froms(ctx, marks)
    given(ctx)


def printed(ctx, adt, f):
    E, ps = run(ctx, f)
    names = {}
    plain = [v["name"] for v in adt["variants"] if not v["fields"]]
    for p in ps:
        v = variant_fact(p, E.argterm(f, 0))
        out = shown(p)
        ctx.count("names")
        if v in plain:
            if len(out) != 1 or not isinstance(out[0], str):
                ctx.violation("name:%s" % v, "the name of the key %s is not fixed" % v, f["path"], trail(p))
                continue
            if names.get(v, out[0]) != out[0]:
                ctx.violation("name:%s" % v, "the key %s has two names" % v, f["path"], trail(p))
            names[v] = out[0]
        elif v is not None:
            t = out[0] if len(out) == 1 else None
            ok = isinstance(t, T) and (is_char(t) or t.op in ("call", "pure") and norm(str(t.a[0])).endswith("to_ascii_lowercase") and is_char(t.a[1][0] if t.op == "call" else t.a[1]))
            if not ok:
                ctx.violation("char", "a character key is not named by its character", f["path"], trail(p))
    for v in plain:
        if v not in names:
            ctx.violation("name:%s" % v, "the key %s has no name" % v, f["path"])
        elif not re.fullmatch(r"[a-z0-9]{2,}", names[v]):
            ctx.violation("name:%s" % v, "the name %r of the key %s reads as something else" % (names[v], v), f["path"])
    for a, b in itertools.combinations(sorted(names), 2):
        if names[a] == names[b]:
            ctx.violation("same:%s:%s" % (a, b), "the keys %s and %s have the same name" % (a, b), f["path"])
    return names


def is_char(t):
    t = strip(t)
    return t.op in ("vf", "deref") or t.op == "field" and t.a[1] == "0"


def readback(ctx, adt, f, names):
    E, ps = run(ctx, f, iters=2)
    s = E.argterm(f, 0)
    read = {}
    chars = False
    for p in ps:
        eqs = [strip(q.a[1] if same(q.a[0], s) else q.a[0]) for q, v in p.facts.items() if q.op == "eq" and v is True and (same(q.a[0], s) or same(q.a[1], s))]
        name = next((x.a[0] for x in eqs if x.op == "str"), None)
        one = single(p, s)
        if p.status == "panic":
            if one and any(v is True for q, v in p.facts.items() if q.op == "pure" and q.a[0] == "is_empty"):
                continue    # a string of one character is not empty
            ctx.violation("panic", "reading the name of a key can end the program", p.events[-1].where() if p.events else f["path"], trail(p))
            continue
        r = strip(p.ret)
        ctx.count("read_paths")
        if r.op != "agg" or r.a[2] != "Ok":
            if name is not None and name in names.values():
                ctx.violation("refused:" + name, "the name %s of a key is not understood" % name, f["path"], trail(p))
            if one:
                ctx.violation("refused", "a single character is not understood as a key", f["path"], trail(p))
            continue
        k = strip(r.a[3][0][1])
        if k.op == "agg" and k.a[2] in names:
            if name is None:
                ctx.violation("any:%s" % k.a[2], "the key %s is understood where its name was not given" % k.a[2], f["path"], trail(p))
            elif names[k.a[2]] != name and name in names.values():
                ctx.violation("name:%s" % name, "the name %s is understood as the key %s" % (name, k.a[2]), f["path"], trail(p))
            else:
                read[k.a[2]] = read.get(k.a[2], set()) | {name}
        elif k.op == "agg" and k.a[3]:
            chars = chars or one
            c = strip(k.a[3][0][1])
            if not one or not any(same(y, s) for y in subterms(c)):
                ctx.violation("char", "a name is understood as a character that is not all of it", f["path"], trail(p))
        else:
            ctx.violation("unknown", "cannot be shown: what key a name is understood as", f["path"], trail(p))
    for v, n in names.items():
        if n not in read.get(v, ()):
            ctx.violation("lost:%s" % v, "the name %s of the key %s is not understood" % (n, v), f["path"])
    if not chars:
        ctx.violation("chars", "single characters are not understood as keys", f["path"])


def single(p, s):
    its = [e for e in p.events if e.kind in ("iter", "exhausted") and e.args and "chars" in show(e.args[0]) and any(same(z, s) for z in subterms(e.args[0]))]
    if [e.kind for e in its if e.kind == "iter"] == ["iter"] and its[-1].kind == "exhausted":
        return True
    for q, v in p.facts.items():
        if q.op == "eq" and v is True:
            a, b = strip(q.a[0]), strip(q.a[1])
            for x, y in ((a, b), (b, a)):
                if y.op == "int" and y.a[0] == 1 and any(z.op == "pure" and z.a[0] in ("count", "chars") or z.op == "call" and norm(str(z.a[0])).endswith("count") for z in subterms(x)) \
                        and any(same(z, s) for z in subterms(x)):
                    return True
        if q.op == "variant" and v == "None" and "chars" in show(q) and any(same(z, s) for z in subterms(q)):
            return True
    return False


def modifiers(ctx, f, key):
    E, ps = run(ctx, f, opaque=[key["path"]])
    me = E.argterm(f, 0)
    marks = {}
    for p in ps:
        st = tuple(truth(p, mk("field", me, n)) for n in ("ctrl", "alt", "shift"))
        out = shown(p)
        ctx.count("combinations")
        if None in st:
            ctx.violation("marks", "a modifier has no part in the name of a key", f["path"], trail(p))
            continue
        pre = out[0] if out and isinstance(out[0], str) else ""
        rest = [x for x in out if x != pre] if pre else [x for x in out if x != ""]
        if len(rest) != 1 or not same(rest[0], mk("field", me, "key")):
            ctx.violation("key:%s%s%s" % st, "the name of a key with modifiers does not end with the key", f["path"], trail(p))
        marks[st] = pre
    ctx.need(len(marks) == 8, "marks", "all combinations of modifiers are printed")
    for a, b in itertools.combinations(sorted(marks), 2):
        if marks[a] == marks[b]:
            ctx.violation("marks:%s:%s" % (a, b), "different modifiers have the same marks %r" % marks[a], f["path"])
    return marks


def froms(ctx, marks):
    for f in impl(ctx, EV, r"convert::From", "from"):
        ty = f["locals"][1][0]
        E, ps = run(ctx, f)
        a = E.argterm(f, 0)
        good = [p for p in ps if p.status == "return"]
        if ty == "char":
            ctx.count("conversions")
            for p in good:
                r = dict(strip(p.ret).a[3])
                k = strip(r["key"])
                c = strip(k.a[3][0][1]) if k.op == "agg" and k.a[3] else None
                up = truth(p, r["shift"]) if strip(r["shift"]).op != "bool" else strip(r["shift"]).a[0]
                caps = [v for q, v in p.facts.items() if "is_ascii_uppercase" in show(q) or "is_uppercase" in show(q)]
                tests = [x for x in re.findall(r"is_(\w*)uppercase", " ".join(show(q) for q in p.facts) + " " + show(r["shift"]))]
                makes = re.findall(r"to_(\w*)lowercase", show(c)) if c is not None else []
                if makes and tests and set(makes) != set(tests):
                    ctx.violation("letters", "the letters that are made small are not those that are told to be capitals", f["path"], trail(p))
                shift = strip(r["shift"])
                tells = shift.op in ("call", "pure") and "uppercase" in str(shift.a[0])
                if not (tells or caps and up == caps[0]):
                    ctx.violation("shift", "a capital letter typed is not a key with shift", f["path"], trail(p))
                if c is None or not (strip(c).op in ("call", "pure") and "lowercase" in str(strip(c).a[0]) or caps and caps[0] is False and same(c, a)):
                    ctx.violation("small", "a letter typed is not the key of its small letter", f["path"], trail(p))
                if any(strip(r[n]).op != "bool" or strip(r[n]).a[0] for n in ("ctrl", "alt")):
                    ctx.violation("plain", "a character typed has modifiers of its own", f["path"], trail(p))
        elif ty.endswith("keys::Key"):
            ctx.count("conversions")
            for p in good:
                r = dict(strip(p.ret).a[3])
                if not same(r["key"], a) or any(strip(r[n]).op != "bool" or strip(r[n]).a[0] for n in ("ctrl", "alt", "shift")):
                    ctx.violation("plain", "a key alone is not that key without modifiers", f["path"], trail(p))
        elif "str" in ty:
            ctx.count("conversions")
            text(ctx, f, good, a, marks)


def text(ctx, f, ps, s, marks):
    """reading the marks of each combination"""
    for st, pre in sorted(marks.items()):
        got = 0
        for p in ps:
            try:
                if not all(holds(q, v, s, pre) for q, v in p.facts.items()):
                    continue
                r = dict(strip(p.ret).a[3])
                flags = tuple(flag(r[n], s, pre) for n in ("ctrl", "alt", "shift"))
                parsed = [e for e in p.events if ev_call(e, "::parse", "::from_str")]
                off = place(parsed[0].args[0], s, pre) if parsed else None
                key = strip(r["key"])
            except Unknown as x:
                ctx.violation("unknown:%s%s%s" % st, "cannot be shown: how %r is read: %s" % (pre, x), f["path"], trail(p))
                continue
            got += 1
            ctx.count("read_marks")
            if flags != st:
                ctx.violation("reads:%s" % pre, "the marks %r are read as ctrl=%s alt=%s shift=%s" % ((pre,) + flags), f["path"], trail(p))
            if off != len(pre) or not any(y is parsed[0].res for y in subterms(key)):
                ctx.violation("rest:%s" % pre, "what follows the marks %r is not read as the key" % pre, f["path"], trail(p))
        if not got:
            ctx.violation("unread:%s" % pre, "a name with the marks %r is not understood" % pre, f["path"])


def flag(t, s, pre):
    t = strip(t)
    if t.op == "bool":
        return t.a[0]
    if t.op == "pure":
        return asks(t, s, pre)
    raise Unknown(show(t))


def asks(t, s, pre):
    """does what is left at a place start with a mark?"""
    name = str(t.a[0])
    mark = strip(t.a[2] if t.op == "pure" else t.a[1][1])
    if name.rsplit("::", 1)[-1] not in ("starts_with", "strip_prefix") or mark.op not in ("str", "char"):
        raise Unknown(show(t))
    rest = pre[place(t.a[1] if t.op == "pure" else t.a[1][0], s, pre):]
    return rest.startswith(mark.a[0])


def holds(q, v, s, pre):
    if q.op == "variant":
        t = strip(q.a[0])
        n = str(t.a[0]) if t.op in ("pure", "call") else ""
        if n.endswith("strip_prefix"):
            return asks(t, s, pre) == (v == "Some")
        return True
    if q.op == "pure" and str(q.a[0]).endswith("starts_with"):
        return asks(q, s, pre) == v
    return True


def place(t, s, pre):
    """offset of a rest of the string"""
    t = strip(t)
    if same(t, s):
        return 0
    if t.op == "idx" and strip(t.a[1]).op == "agg":
        n = strip(dict(strip(t.a[1]).a[3]).get("start", t))
        if n.op == "int":
            return place(t.a[0], s, pre) + n.a[0]
    if t.op == "vf" and strip(t.a[0]).op in ("pure", "call") and str(strip(t.a[0]).a[0]).endswith("strip_prefix"):
        c = strip(t.a[0])
        x, mark = (c.a[1], c.a[2]) if c.op == "pure" else c.a[1][:2]
        return place(x, s, pre) + len(strip(mark).a[0])
    if t.op == "pure" and t.a[0] == "skip" and strip(t.a[2]).op == "int":
        return place(t.a[1], s, pre) + strip(t.a[2]).a[0]
    if t.op == "pure" and t.a[0] in ("chars", "collect", "clone", "as_str", "trim_start_matches"):
        return place(t.a[1], s, pre)
    if t.op == "call" and norm(str(t.a[0])).rsplit("::", 1)[-1] in ("chars", "collect", "clone"):
        return place(t.a[1][0], s, pre)
    if t.op == "clone":
        return place(t.a[0], s, pre)
    raise Unknown(show(t))


def given(ctx):
    """what the key handler of the scripts is told"""
    m = model(ctx)
    S = script(ctx, m) if m else None
    if S is None:
        return
    handler, method, fields = C20.entered(ctx, S)
    if fields is None:
        return
    for n, w in sorted(fields.items()):
        ctx.count("fields")
        if n in ("ctrl", "alt", "shift") and w != n or w in ("ctrl", "alt", "shift") and w != n:
            ctx.violation("field:" + n, "the key handler is told %s as %s" % (w, n), "core/src/editor/mod.rs")
        if n == "value" and w != "name" or n == "display" and w != "display":
            ctx.violation("field:" + n, "the key handler is told %s as %s" % (w, n), "core/src/editor/mod.rs")
    for n in ("ctrl", "alt", "shift", "value", "display"):
        ctx.need(n in fields, "field:" + n, "the key handler is told the %s of the key" % n)
