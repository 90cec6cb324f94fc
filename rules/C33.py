"""What is written on the wire against what is read from it.  For every type of the library that is written as JSON and
read back, the code that writes it and the code that reads it (generated by the compiler, or written by hand) is
interpreted on every path: the member written for each field must be the one it is read from, with the same type, a
member that is left out must be one whose absence is read as the value it stands for, the variants of an enumeration
must keep their names, and those of an enumeration without names be told apart by what is written.  Then the four kinds
of message: what their constructors put in is what their accessors read, null results included; every message is
written whole and read whole."""
from coremodel import *

W = "serde::Serialize"
R = "serde::Deserialize"
MESSAGES = {"Request": ("jsonrpc", "id", "method", "params"), "Notification": ("jsonrpc", "method", "params"),
            "Response": ("jsonrpc", "id", "result", "error"), "Error": ("code", "message", "data")}
OPTION = "core::option::Option<"
SCALAR = {"alloc::string::String": "string", "i32": "number", "u32": "number", "i64": "number", "u64": "number", "usize": "number",
          "isize": "number", "bool": "boolean", "()": "null", "char": "string", "f64": "number"}


def check(ctx):
    F = ctx.F
    wr = {f["impl_self"]: f for f in F.fns.values() if f.get("trait") == W and f.get("name") == "serialize" and f.get("impl_self") in F.adts}
    rd = {f["impl_self"]: f for f in F.fns.values() if f.get("trait") == R and f.get("name") == "deserialize" and f.get("impl_self") in F.adts
          and "deserialize::__Field" not in f["impl_self"]}
    if not ctx.need(wr and rd, "types", "there are types written and read as JSON"):
        return
    shapes = {}
    for t in sorted(set(wr) & set(rd)):
        ctx.count("types")
        a = F.adts[t]
        w = written(ctx, F, a, wr[t])
        if w is None:
            continue
        shapes[t] = w
        if w[0] == "struct":
            struct(ctx, F, a, w, rd[t])
        elif w[0] == "enum":
            enum(ctx, F, a, w, rd[t])
    for t, w in sorted(shapes.items()):
        if w[0] == "untagged":
            untagged(ctx, F, F.adts[t], w, rd[t], shapes)
    messages(ctx, F, shapes)


def nm(t):
    return t.rsplit("::", 1)[-1]


def ok_paths(ps):
    """the paths on which every call succeeded"""
    out = []
    for p in ps:
        if p.status != "return" or any(q.op == "variant" and v == "Err" for q, v in p.facts.items()):
            continue
        out.append(p)
    return out


def run(ctx, F, f, **kw):
    others = [g["path"] for g in F.fns.values() if g is not f and g.get("trait") in (W, R) and g.get("name") in ("serialize", "deserialize")]
    E = Engine(F, iters=1, keep_elems=True, opaque=others, **kw)
    ps = E.run(f)
    ctx.saw(*E.fns_seen)
    ctx.count("paths", len(ps))
    return ps


def sub(e, i):
    s = (e.x.get("fn") or {}).get("substs") or []
    return s[i] if len(s) > i else "?"


def target(F, e, trait, meth):
    """the type an event writes or reads by its own implementation"""
    if e.kind != "call":
        return None
    if e.name == "%s::%s" % (trait, meth):
        return sub(e, 0)
    g = F.by_path.get(e.name)
    g = g[0] if isinstance(g, list) else g
    if g and g.get("trait") == trait and g.get("name") == meth:
        return g["impl_self"]
    return None


def own(t):
    return base_of(t).op == "arg"


def fieldtype(a, vname, fname):
    for v in a["variants"]:
        if vname in (None, v["name"]):
            for f in v["fields"]:
                if f[0] == fname:
                    return f[1]
    return "?"


def fields(a):
    return [(f[0], f[1]) for f in a["variants"][0]["fields"]]


def written(ctx, F, a, f):
    """("struct", {field: (key, may be left out)}) | ("enum", {variant: (name, kind, payload types)}) | ("untagged", {variant: payload type})"""
    ps = ok_paths(run(ctx, F, f))
    t = nm(a["path"])
    kinds = set()
    st, en, un = {}, {}, {}
    n = 0
    for p in ps:
        calls = [e for e in p.events if e.kind == "call"]
        names = [e.name.rsplit("::", 1)[-1] for e in calls]
        if "serialize_struct" in names:
            kinds.add("struct")
            n += 1
            put = {}
            for e in calls:
                last = e.name.rsplit("::", 1)[-1]
                if last == "serialize_field":
                    k, v = e.args[1], strip_at(e.args[2])
                    fld = v.a[1] if v.op == "field" and own(v) else None
                    if k.op != "str" or fld is None:
                        ctx.violation("write:%s" % t, "cannot be shown: what %s writes (%s as %s)" % (t, show(v)[:60], show(k)[:40]), e.where(), trail(p))
                        return None
                    if fld in put:
                        ctx.violation("write:%s.%s" % (t, fld), "%s.%s is written twice" % (t, fld), e.where(), trail(p))
                    if sub(e, 1) != fieldtype(a, None, fld):
                        ctx.violation("write:%s.%s" % (t, fld), "cannot be shown: %s.%s is written in a form of its own" % (t, fld), e.where())
                    put[fld] = k.a[0]
            for fld, ty in fields(a):
                if fld in put:
                    if st.setdefault(fld, [put[fld], False])[0] not in (put[fld], None):
                        ctx.violation("write:%s.%s" % (t, fld), "%s.%s is written under two names" % (t, fld), f["path"])
                    st[fld][0] = put[fld]
                else:
                    vf = [v_ for q, v_ in p.facts.items() if q.op == "variant" and strip_at(q.a[0]).op == "field" and strip_at(q.a[0]).a[1] == fld and own(q.a[0])]
                    if not ty.startswith(OPTION) or vf != ["None"]:
                        ctx.violation("left-out:%s.%s" % (t, fld), "%s can be written without its %s although it has one" % (t, fld), f["path"], trail(p))
                    st.setdefault(fld, [None, True])[1] = True
            if len(set(put.values())) != len(put):
                ctx.violation("write:%s" % t, "%s writes two fields under one name" % t, f["path"], trail(p))
            continue
        self_v = [v for q, v in p.facts.items() if q.op == "variant" and q.a[0].op == "arg"]
        one = [e for e in calls if re.search(r"serialize_(unit|newtype|tuple|struct)_variant$", e.name)]
        if one:
            kinds.add("enum")
            e = one[0]
            if len(one) != 1 or e.args[3].op != "str" or len(self_v) != 1:
                ctx.violation("write:%s" % t, "cannot be shown: how %s is written" % t, e.where(), trail(p))
                return None
            k = e.name.rsplit("_", 2)[-2]
            if k in ("tuple", "struct"):
                ctx.violation("write:%s" % t, "cannot be shown: how %s is written" % t, e.where(), trail(p))
                return None
            if k == "newtype" and not (own(e.args[4]) and strip_at(e.args[4]).op == "vf" and strip_at(e.args[4]).a[1] == self_v[0]):
                ctx.violation("write:%s::%s" % (t, self_v[0]), "%s::%s is not written with its content" % (t, self_v[0]), e.where(), trail(p))
            en[self_v[0]] = (e.args[3].a[0], k)
            continue
        inner = [e for e in calls if target(F, e, W, "serialize")]
        unit = [e for e in calls if e.name.endswith("serialize_unit") or e.name.endswith("serialize_none")]
        if len(self_v) == 1 and len(inner) == 1 and own(inner[0].args[0]) and not unit:
            kinds.add("untagged")
            un[self_v[0]] = target(F, inner[0], W, "serialize")
        elif len(self_v) == 1 and len(unit) == 1 and not inner:
            kinds.add("untagged")
            un[self_v[0]] = "()"
        else:
            ctx.violation("write:%s" % t, "cannot be shown: how %s is written" % t, f["path"], trail(p))
            return None
    if len(kinds) != 1:
        ctx.violation("write:%s" % t, "cannot be shown: how %s is written" % t, f["path"])
        return None
    k = kinds.pop()
    if k != "struct":
        for v in a["variants"]:
            if v["name"] not in (en or un):
                ctx.violation("write:%s::%s" % (t, v["name"]), "%s::%s is not written" % (t, v["name"]), f["path"])
    return (k, st if k == "struct" else en if k == "enum" else un)


def visitors(F, f):
    pre = f["id"] + "::"
    out = {}
    for g in F.fns.values():
        if g["id"].startswith(pre) and g.get("name"):
            out.setdefault((nm(g.get("impl_self") or ""), g["name"]), g)
    return out


def keys_read(ctx, F, f, vs):
    """name -> variant of the generated enumeration of fields"""
    g = vs.get(("__FieldVisitor", "visit_str"))
    if g is None:
        return None
    out = {}
    for p in run(ctx, F, g):
        if p.status != "return":
            continue
        vn, fs = variant_of(p.ret)
        if vn != "Ok":
            continue
        fv, _ = variant_of(list(fs.values())[0])
        yes = [x.a[0] for q, v in p.facts.items() if q.op == "eq" and v is True for x in q.a if x.op == "str"]
        if yes:
            for k in yes:
                out[k] = fv
    return out


def struct(ctx, F, a, w, f):
    t = nm(a["path"])
    st = w[1]
    vs = visitors(F, f)
    keys = keys_read(ctx, F, f, vs)
    g = vs.get(("__Visitor", "visit_map"))
    if keys is None or g is None:
        ctx.violation("read:%s" % t, "cannot be shown: how %s is read" % t, f["path"])
        return
    took = {}       # generated field -> field of the structure
    absent = {}     # field -> what stands for an absent member
    for p in ok_paths(run(ctx, F, g)):
        vn, fs = variant_of(p.ret)
        if vn != "Ok":
            continue
        s = list(fs.values())[0]
        if s.op != "agg" or s.a[1] != a["path"]:
            ctx.violation("read:%s" % t, "cannot be shown: what %s is read as (%s)" % (t, show(s)[:80]), g["path"], trail(p))
            return
        nk = [e for e in p.events if e.kind == "call" and e.name.endswith("next_key")]
        which = None
        for q, v in p.facts.items():
            if q.op == "variant" and str(v).startswith("__field"):
                which = v
        src = {}
        for fld, x in s.a[3]:
            x = strip_at(x)
            c = [y for y in subterms(x) if y.op == "call" and y.a[0].endswith(("next_value", "missing_field"))]
            ev = [e for e in p.events if e.kind == "call" and c and e.res is c[0]]
            if x.op == "vf" and ev and c[0] is strip_at(x.a[0]) and ev[0].name.endswith("next_value"):
                src[fld] = ev[0]
                if sub(ev[0], 1) != fieldtype(a, None, fld):
                    ctx.violation("read:%s.%s" % (t, fld), "cannot be shown: %s.%s is read in a form of its own" % (t, fld), ev[0].where())
            elif x.op == "vf" and ev and ev[0].name.endswith("missing_field"):
                absent[fld] = "None" if fieldtype(a, None, fld).startswith(OPTION) else "error"
            elif variant_of(x)[0] == "None":
                absent[fld] = "None"
            else:
                absent[fld] = show(x)[:60]
        if which is not None:
            if len(src) != 1:
                ctx.violation("read:%s" % t, "cannot be shown: where %s keeps the member it reads" % t, g["path"], trail(p))
                return
            took[which] = list(src)[0]
    ctx.count("members", len(st))
    for fld, (key, leftout) in sorted(st.items()):
        r = took.get(keys.get(key))
        if key is None or r != fld:
            ctx.violation("member:%s.%s" % (t, fld), "%s.%s is written as %r, which is read as %s" % (t, fld, key, r or "nothing"), f["path"])
        if leftout and absent.get(fld) != "None":
            ctx.violation("absent:%s.%s" % (t, fld), "%s.%s is left out when it is none, and its absence read as %s" % (t, fld, absent.get(fld)), f["path"])
    for fld, _ in fields(a):
        if fld not in st:
            ctx.violation("member:%s.%s" % (t, fld), "%s.%s is not written" % (t, fld), f["path"])


def enum(ctx, F, a, w, f):
    t = nm(a["path"])
    vs = visitors(F, f)
    keys = keys_read(ctx, F, f, vs)
    g = vs.get(("__Visitor", "visit_enum"))
    if keys is None or g is None:
        ctx.violation("read:%s" % t, "cannot be shown: how %s is read" % t, f["path"])
        return
    got = {}
    for p in ok_paths(run(ctx, F, g)):
        which = next((v for q, v in p.facts.items() if q.op == "variant" and str(v).startswith("__field")), None)
        r = p.ret
        kind = None
        if r.op == "pure" or r.op == "call" and r.a[0].endswith("::map"):
            # a content mapped into the variant
            kind = "newtype"
        for e in p.events:
            if e.kind == "call" and e.name.endswith("unit_variant"):
                kind = "unit"
            elif e.kind == "call" and e.name.endswith("newtype_variant"):
                kind = "newtype"
        vn, fs = variant_of(r)
        vv = variant_of(list(fs.values())[0])[0] if vn == "Ok" else None
        if vv is None:
            # the constructor of the variant given to Result::map
            vv = next((v["name"] for v in a["variants"] if any(x.op in ("fnref", "fn") and str(x.a[0]).endswith("%s::%s" % (t, v["name"])) for x in subterms(r))), None)
        if which:
            got[which] = (vv, kind)
    ctx.count("variants", len(w[1]))
    for v, (name, kind) in sorted(w[1].items()):
        r = got.get(keys.get(name))
        if r != (v, kind):
            ctx.violation("variant:%s::%s" % (t, v), "%s::%s is written as %r, which is read as %s" % (t, v, name, r and r[0] or "nothing"), f["path"])
    if len({n for n, _ in w[1].values()}) != len(w[1]):
        ctx.violation("variant:" + t, "two variants of %s are written alike" % t, f["path"])


def kind_of(ty, shapes):
    if ty in SCALAR:
        return SCALAR[ty]
    if ty in shapes and shapes[ty][0] == "struct":
        return "object"
    return None


def untagged(ctx, F, a, w, f, shapes):
    """the variants are tried in order: what is written for one must not be taken for one tried before it"""
    t = nm(a["path"])
    order = []
    types = w[1]
    for p in run(ctx, F, f):
        if p.status != "return":
            continue
        vn, fs = variant_of(p.ret)
        if vn != "Ok":
            continue
        x = list(fs.values())[0]
        vv, inner = variant_of(x)
        tries = []
        for e in p.events:
            if target(F, e, R, "deserialize"):
                tries.append(target(F, e, R, "deserialize"))
            elif e.kind == "call" and e.name.endswith("deserialize_any"):
                tries.append("()")
        tries = [y for y in tries if y in types.values()]
        order.append((vv, tries, inner))
    ctx.count("variants", len(types))
    by = {ty: v for v, ty in types.items()}
    for v, ty in sorted(types.items()):
        mine = [o for o in order if o[0] == v]
        if not mine:
            ctx.violation("variant:%s::%s" % (t, v), "%s::%s is written but never read" % (t, v), f["path"])
            continue
        for _, tries, inner in mine:
            if not tries or tries[-1] != ty:
                ctx.violation("variant:%s::%s" % (t, v), "%s::%s is written as %s and read as %s" % (t, v, nm(ty), tries and nm(tries[-1]) or "nothing"), f["path"])
            for before in tries[:-1]:
                if not apart(F, ty, before, shapes):
                    ctx.violation("alike:%s::%s" % (t, v), "what %s::%s is written as can be read as %s::%s" % (t, v, t, by.get(before)), f["path"])


def apart(F, ty, before, shapes):
    k1, k2 = kind_of(ty, shapes), kind_of(before, shapes)
    if k1 is None or k2 is None:
        return False
    if k1 != k2:
        return True
    if k1 != "object":
        return False
    have = {k for k, _ in shapes[ty][1].values()}
    need = {k for fld, (k, _) in shapes[before][1].items() if not fieldtype(F.adts[before], None, fld).startswith(OPTION)}
    return bool(need - have)


def messages(ctx, F, shapes):
    for name, members in MESSAGES.items():
        t = next((x for x in shapes if nm(x) == name and "jsonrpc" in x), None)
        if not ctx.need(t is not None and shapes[t][0] == "struct", "message " + name, "the library writes and reads %s messages" % name):
            continue
        have = {k for k, _ in shapes[t][1].values()}
        for k in members:
            if k not in have:
                ctx.violation("jsonrpc:%s.%s" % (name, k), "a %s is written without the member %r" % (name.lower(), k), t)
        for k in have - set(members):
            ctx.violation("jsonrpc:%s.%s" % (name, k), "a %s is written with the member %r" % (name.lower(), k), t)
        key2f = {k: fld for fld, (k, _) in shapes[t][1].items()}
        made(ctx, F, t, name, key2f)
        text(ctx, F, t, name)
    for name, get, fld in (("Request", "params", "params"), ("Notification", "params", "params"), ("Error", "data", "data")):
        accessor(ctx, F, shapes, name, get, fld)
    result(ctx, F, shapes)


def fns_of(F, t):
    return [f for f in F.real() if f.get("impl_self") == t and f["kind"] == "AssocFn"]


def made(ctx, F, t, name, key2f):
    """whatever makes such a message: the version, the content given, and never both result and error"""
    k = 0
    for f in fns_of(F, t):
        if f.get("trait") or t not in f["locals"][0][0] or f["args"] < 1 or f["locals"][1][0].lstrip("&").startswith(t):
            continue
        tys = [l[0] for l in f["locals"][1:f["args"] + 1]]
        for p in run(ctx, F, f):
            if p.status != "return":
                continue
            ag = next((x for x in subterms(p.ret) if x.op == "agg" and x.a[1] == t), None)
            if ag is None:
                continue
            k += 1
            ctx.count("constructed")
            d = dict(ag.a[3])
            g = lambda key: d.get(key2f.get(key))
            v = g("jsonrpc")
            if v is not None and not (v.op == "str" and v.a[0] == "2.0"):
                ctx.violation("version:%s:%s" % (name, f["name"]), "%s::%s makes a message of version %s" % (name, f["name"], show(v)[:40]), f["path"], trail(p))
            for key in ("id", "method", "code", "message"):
                v = g(key)
                if v is None or v.op in ("str", "int"):
                    continue
                b = strip_at(v)
                if b.op == "bin" or b.op == "un":
                    continue
                if base_of(v).op != "arg":
                    ctx.violation("given:%s:%s" % (name, f["name"]), "%s::%s makes a message whose %s is not the one given (%s)" % (name, f["name"], key, show(v)[:60]), f["path"], trail(p))
            for key in ("params", "result", "data"):
                v = g(key)
                if v is None:
                    continue
                vn, fs = variant_of(v)
                if vn == "Some":
                    c = list(fs.values())[0]
                    cs = [x for x in subterms(c) if x.op == "call" and x.a[0].endswith("serde_json::to_value")]
                    good = len(cs) == 1 and base_of(cs[0].a[1][0]).op in ("arg", "str") if cs else base_of(c).op == "arg"
                    if not good and not any(x.op == "str" for x in subterms(c)):
                        ctx.violation("given:%s:%s" % (name, f["name"]), "%s::%s makes a message whose %s is not the one given (%s)" % (name, f["name"], key, show(c)[:60]), f["path"], trail(p))
                elif vn == "None":
                    # nothing was given
                    lost = [i for i, ty in enumerate(tys) if ty.startswith(OPTION) and opt_of(p, f, i) != "None"]
                    if lost and key != "result":
                        ctx.violation("given:%s:%s" % (name, f["name"]), "%s::%s drops the %s given" % (name, f["name"], key), f["path"], trail(p))
                else:
                    ctx.violation("given:%s:%s" % (name, f["name"]), "cannot be shown: the %s of the message of %s::%s" % (key, name, f["name"]), f["path"], trail(p))
            if name == "Response":
                r, e = variant_of(g("result"))[0], variant_of(g("error"))[0]
                for i, ty in enumerate(tys):
                    if not ty.startswith("core::result::Result<"):
                        continue
                    want = next((v for q, v in p.facts.items() if q.op == "variant" and q.a[0].op == "arg" and q.a[0].a[0] == argname(f, i)), None)
                    if (r, e) != {"Ok": ("Some", "None"), "Err": ("None", "Some")}.get(want):
                        ctx.violation("outcome:" + f["name"], "%s::%s makes a response with result %s and error %s from %s" % (name, f["name"], r, e, want), f["path"], trail(p))
                    else:
                        c = list(variant_of(g("result" if want == "Ok" else "error"))[1].values())[0]
                        vf = [x for x in subterms(c) if x.op == "vf" and x.a[1] == want and x.a[0].op == "arg" and x.a[0].a[0] == argname(f, i)]
                        c = strip_at(c)
                        while c.op == "clone":
                            c = strip_at(c.a[0])
                        if not vf or want == "Err" and c is not vf[0]:
                            ctx.violation("outcome:" + f["name"], "%s::%s makes a response that does not carry what it is given" % (name, f["name"]), f["path"], trail(p))
                if r == "Some" and e == "Some":
                    ctx.violation("outcome:" + f["name"], "%s::%s makes a response with both result and error" % (name, f["name"]), f["path"], trail(p))
    ctx.need(k, "made " + name, "messages of kind %s are constructed" % name)


def argname(f, i):
    return Engine.argname(f, i) if hasattr(Engine, "argname") else f["locals"][i + 1][1]


def opt_of(p, f, i):
    return next((v for q, v in p.facts.items() if q.op == "variant" and q.a[0].op == "arg" and q.a[0].a[0] == argname(f, i)), None)


def text(ctx, F, t, name):
    """Display writes the message whole, FromStr reads it whole"""
    if name == "Error":
        return
    n = 0
    for f in fns_of(F, t):
        if f.get("trait") == "core::str::traits::FromStr" or (f.get("name") == "from_str" and f.get("trait")):
            n += 1
            for p in run(ctx, F, f):
                if p.status != "return":
                    ctx.violation("text:%s:read" % name, "reading a %s can panic" % name.lower(), f["path"], trail(p))
                    continue
                r = strip_at(p.ret)
                cs = [e for e in p.events if e.kind == "call" and "serde_json::" in e.name and e.name.endswith(("from_str", "from_slice"))]
                if len(cs) != 1 or trimmed(cs[0].args[0]).op != "arg" or not any(x is cs[0].res for x in subterms(r)):
                    ctx.violation("text:%s:read" % name, "a %s is not read from the whole text given (%s)" % (name.lower(), show(r)[:80]), f["path"], trail(p))
        if f.get("name") == "fmt" and "Display" in str(f.get("trait")):
            n += 1
            good = 0
            for p in run(ctx, F, f):
                if p.status != "return":
                    ctx.violation("text:%s:write" % name, "writing a %s can panic" % name.lower(), f["path"], trail(p))
                    continue
                if any(q.op == "variant" and v == "Err" and any(x.op == "call" and x.a[0].endswith("to_string") for x in subterms(q)) for q, v in p.facts.items()):
                    continue
                out = [e for e in p.events if e.kind == "call" and re.search(r"::(write_str|write_fmt|pad|fmt)$", e.name)]
                enc = [e for e in p.events if e.kind == "call" and "serde_json::" in e.name and e.name.endswith("to_string")]
                ok = len(out) == 1 and len(enc) == 1 and strip_at(enc[0].args[0]).op == "arg"
                if ok:
                    x = strip_at(out[0].args[1])
                    while x.op == "fmt" and len(x.a[0]) == 1 and not isinstance(x.a[0][0], str):
                        x = strip_at(x.a[0][0])
                    ok = x.op == "vf" and strip_at(x.a[0]) is enc[0].res
                if not ok:
                    ctx.violation("text:%s:write" % name, "a %s is not written as its JSON alone" % name.lower(), f["path"], trail(p))
                good += 1
            ctx.need(good, "written " + name, "a %s can be written" % name.lower())
    ctx.need(n == 2, "text " + name, "%ss are written to and read from text" % name.lower())


def trimmed(t):
    """white space around JSON means nothing"""
    t = strip_at(t)
    while t.op in ("call", "pure") and re.search(r"(^|::)trim(_start|_end)?$", str(t.a[0])):
        t = strip_at(t.a[1][0] if t.op == "call" else t.a[1])
    return t


def accessor(ctx, F, shapes, name, get, fld):
    t = next((x for x in shapes if nm(x) == name and "jsonrpc" in x), None)
    f = next((g for g in fns_of(F, t) if g.get("name") == get and not g.get("trait")), None) if t else None
    if not ctx.need(f is not None, "accessor %s.%s" % (name, get), "the %s of a %s can be read" % (get, name.lower())):
        return
    key = "read:%s.%s()" % (name, get)
    for p in run(ctx, F, f):
        ctx.count("accessor_paths")
        have = [v for q, v in p.facts.items() if q.op == "variant" and strip_at(q.a[0]).op == "field" and strip_at(q.a[0]).a[1] == fld and own(q.a[0])]
        if p.status != "return":
            ctx.violation(key, "reading the %s of a %s can panic" % (get, name.lower()), f["path"], trail(p))
            continue
        vn, fs = variant_of(p.ret)
        if have == ["None"]:
            if not (vn == "Ok" and variant_of(list(fs.values())[0])[0] == "None"):
                ctx.violation(key, "missing %s are read as %s" % (get, show(p.ret)[:60]), f["path"], trail(p))
            continue
        whole(ctx, p, f, key, "the %s of a %s" % (get, name.lower()), fld, "Some")


def whole(ctx, p, f, key, what, fld, want):
    cs = [e for e in p.events if e.kind == "call" and e.name.endswith("serde_json::from_value")]
    x = strip_at(cs[0].args[0]) if len(cs) == 1 else None
    good = x is not None and x.op == "vf" and x.a[1] == "Some" and strip_at(x.a[0]).op == "field" and strip_at(x.a[0]).a[1] == fld and own(x)
    if not good or not any(y is cs[0].res for y in subterms(p.ret)):
        ctx.violation(key, "%s is read as something else (%s)" % (what, show(p.ret)[:80]), f["path"], trail(p))


def result(ctx, F, shapes):
    t = next((x for x in shapes if nm(x) == "Response" and "jsonrpc" in x), None)
    f = next((g for g in fns_of(F, t) if g.get("name") == "result" and not g.get("trait")), None) if t else None
    if not ctx.need(f is not None, "accessor Response.result", "the result of a response can be read"):
        return
    key = "read:Response.result()"

    def known(p, fld):
        return next((v for q, v in p.facts.items() if q.op == "variant" and strip_at(q.a[0]).op == "field" and strip_at(q.a[0]).a[1] == fld and own(q.a[0])), None)
    for p in run(ctx, F, f):
        ctx.count("accessor_paths")
        r, e = known(p, "result"), known(p, "error")
        if p.status != "return":
            ctx.violation(key, "reading the result of a response can panic", f["path"], trail(p))
            continue
        failed = variant_of(p.ret)[0] == "Err"
        inner = list(variant_of(p.ret)[1].values())[0] if variant_of(p.ret)[0] == "Ok" else None
        iv = variant_of(inner)[0] if inner is not None else None
        cs = [x for x in p.events if x.kind == "call" and x.name.endswith("serde_json::from_value")]
        if r == "Some" and e != "Some":
            if iv == "Err" or not (failed or iv == "Ok"):
                ctx.violation(key, "a result is read as an error", f["path"], trail(p))
            whole(ctx, p, f, key, "the result of a response", "result", "Some")
        elif r == "None" and e == "Some" or r is None and e == "Some":
            x = strip_at(list(variant_of(inner)[1].values())[0]) if iv == "Err" else None
            while x is not None and x.op == "clone":
                x = strip_at(x.a[0])
            if x is None or not (x.op == "vf" and x.a[1] == "Some" and strip_at(x.a[0]).op == "field" and strip_at(x.a[0]).a[1] == "error"):
                ctx.violation(key, "the error of a response is read as %s" % show(p.ret)[:60], f["path"], trail(p))
        elif r == "None" and e == "None":
            # what is written for a null result is read as a missing one
            null = len(cs) == 1 and variant_of(strip_at(cs[0].args[0]))[0] == "Null"
            if not null or not (failed or iv == "Ok") or not any(y is cs[0].res for y in subterms(p.ret)):
                ctx.violation(key, "a null result, which is written as null and read as missing, is read as %s" % show(p.ret)[:60], f["path"], trail(p))
        elif r is None and e is None:
            ctx.violation(key, "the result of a response is read without looking at it", f["path"], trail(p))
