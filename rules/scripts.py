"""The scripts as the editor runs them: where they are, what the editor evaluates for a client that joins, leaves or types
(found in the MIR of the editor), and an abstract machine (lib/luai.py) to evaluate them with."""
import os
from coremodel import *
import luai
from luai import Lua, Sym, Table, LuaError, Func, Ext


class Script:
    """what the editor has its script engine do for a client"""


def host_functions(ctx, m):
    """functions of the type that owns the script engine, with the interpreted paths of those that take a client"""
    own = [a["path"] for a in m.F.adts.values() if a["kind"] == "Struct" and a["path"].startswith("ced::") and any(re.match(r"rlua::(\w+::)*Lua$", f[1]) for f in a["variants"][0]["fields"])]
    if not ctx.need(own, "engine", "the editor has a script engine"):
        return {}
    ops = {f["path"] for f in m.G.local.values() if is_core(m, f)}
    out = {}
    for f in m.F.real():
        if f["kind"] != "AssocFn" or f.get("impl_self") not in own or f.get("trait") or "::tests" in f["path"] or f["args"] < 2:
            continue
        k = [i for i in range(2, f["args"] + 1) if f["locals"][i][0] == "usize"]
        if len(k) != 1 or not loads(m, f):
            continue
        E = Engine(m.F, iters=1, stores=True, keep_elems=True, opaque=lambda p: p in ops or p.startswith(("ced::editor::core::", "ced::editor::buffer::", "ced::editor::menu::")))
        try:
            ps = E.run(f)
        except RuntimeError:
            continue
        ctx.saw(*E.fns_seen)
        out[f["path"]] = (f, E.argterm(f, k[0] - 1), ps)
    return out


def loads(m, f):
    for i in [f["id"]] + [x for x in m.G.reach([f["id"]])[0]]:
        g = m.G.local.get(i)
        for b in g["blocks"] if g else []:
            t = b["t"]
            if t["t"] == "call":
                c = graph.callee(t)
                if c and norm(c["path"]).startswith("rlua::") and c["name"] == "load":
                    return True
    return False


def source(t, client):
    """Lua source a load is given, with ID for the client; None if anything else is unknown in it"""
    t = strip(t)
    if t.op == "str":
        return t.a[0]
    if t.op == "fmt":
        out = ""
        for x in t.a[0]:
            if isinstance(x, T) and x.op in ("str", "char"):
                out += x.a[0]
            elif isinstance(x, T):
                if not same(x, client):
                    return None
                out += "ID"
            else:
                out += x
        return out
    return None


def has_change(m, f, names):
    for i in m.G.reach([f["id"]])[0] | {f["id"]}:
        g = m.G.local.get(i)
        for c, ty, t in mut_calls(g) if g else []:
            if re.search(r"Map<", ty) and m.ctx in ty and c.get("name") in names:
                return True
    return False


def script(ctx, m):
    S = Script()
    S.root = os.path.join(os.environ.get("CED_REPO", "/repo"), "core", "scripts")
    S.add = S.remove = S.keys = S.prelude = None
    S.hosts = host_functions(ctx, m)
    for f, client, ps in S.hosts.values():
        good = [p for p in ps if p.status == "return"]
        srcs = []
        for p in good:
            ls = [e for e in p.events if ev_call(e, "Context::load")]
            srcs += [(p, e, source(e.args[1], client)) for e in ls]
        texts = {s for _, _, s in srcs if s is not None and "ID" in s}
        calls = any(ev_call(e, "Function::call") for p in good for e in p.events)
        if calls:
            S.keys = (f, client, good)
        elif texts and has_change(m, f, ("insert", "entry")):
            S.add = (f, texts)
        elif texts and has_change(m, f, ("remove", "retain")):
            S.remove = (f, texts)
    ctx.need(S.add and len(S.add[1]) == 1, "join", "the editor has a script run when a client joins")
    ctx.need(S.remove and len(S.remove[1]) == 1, "leave", "the editor has a script run when a client leaves")
    ctx.need(S.keys, "keys", "the editor has a script called for each key")
    if not (S.add and S.remove and S.keys):
        return None
    S.add, S.remove = next(iter(S.add[1])), next(iter(S.remove[1]))
    hosts = userdata(ctx, m)
    # the globals of the host
    S.exts = {}
    for f in m.F.real():
        if f["kind"] != "AssocFn" or "::tests" in f["path"] or not f["path"].startswith("ced::") or not gives(m, f, hosts):
            continue
        E = Engine(m.F, iters=1, opaque=lambda p: p.startswith("ced::editor::core::") or p.startswith("ced::editor::menu::") or p.startswith("ced::editor::view::"))
        for p in E.run(f):
            for e in p.events:
                if ev_call(e, "Table::set") and len(e.args) == 3 and strip(e.args[1]).op == "str":
                    ty = " ".join(e.x.get("atys") or [])
                    for h in hosts:
                        if re.search(r"\b%s\b" % re.escape(h), ty):
                            S.exts.setdefault(h, set()).add(strip(e.args[1]).a[0])
        ctx.saw(*E.fns_seen)
    S.names = {n: h for h, ns in S.exts.items() for n in ns if n}
    S.methods = hosts
    ctx.need(S.names, "host", "the editor gives the scripts its objects")
    return S


def gives(m, f, hosts):
    for i in {f["id"]} | {g["id"] if isinstance(g, dict) else g for g in m.F.children.get(f["id"], ())}:
        for b in m.F.fns[i]["blocks"]:
            t = b["t"]
            if t["t"] == "call":
                c = graph.callee(t)
                if c and norm(c["path"]).startswith("rlua::") and c["name"] == "set" and any(h in " ".join(t.get("atys") or []) for h in hosts):
                    return True
    return False


def userdata(ctx, m):
    """methods the host's objects offer to the scripts: {type: {name: closure}}"""
    out = {}
    for f in m.F.real():
        if (f.get("trait") or "").endswith("UserData") and f.get("name") == "add_methods":
            d = out.setdefault(f["impl_self"], {})
            E = Engine(m.F, iters=1)
            for p in E.run(f):
                for e in p.events:
                    if e.kind == "call" and re.search(r"::add_method\w*$", norm(e.name)) and strip(e.args[1]).op == "str":
                        cl = re.findall(r"closure:([^\s,>]+)", " ".join(e.x.get("atys") or []))
                        d[strip(e.args[1]).a[0]] = cl[0] if cl else None
    return out


def machine(S, d=(), fails=None):
    L = Lua(S.root, d, sorted(S.names), fails)
    L.globals.d["env"] = Table({"client": Sym("env.client", nonnil=True), "session": Sym("env.session", nonnil=True)})
    L.run("require 'prelude'", "host")
    return L


def client(L, S, c, src):
    L.globals.d["ID"] = c
    L.run(src, "host")
