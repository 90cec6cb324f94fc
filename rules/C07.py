"""Every place, in every function the running server or standalone editor can reach (call graph over the compiled
program: direct calls, closures, trait implementations of the types external code is instantiated with, methods registered
with the script engine), where an error value made by the environment or by decoding input turns into the end of the
process: unwrapping or expecting such a result, an option derived from one, a branch or a handler for its error case from
which no return is possible, and process exits.  A place is excused only when interpretation of the function shows the
failing case cannot happen, or the failing call cannot fail (a pattern made of escaped text, encoding of plain data).
The accept task stops only when the listener is closed, so a failed accept does not end the service."""
import re
from common import *
from graph import Graph, callee, can_return, diverges, targets, head

ENV = ("core::io::error::Error", "std::io::error::Error", "std::io::Error", "regex::error::Error", "regex::Error",
       "serde_json::error::Error", "rlua::error::Error", "rlua::Error", "ced_remote::jsonrpc::JsonCodingError",
       "core::str::error::Utf8Error", "alloc::string::FromUtf8Error", "core::num::error::ParseIntError",
       "core::net::parser::AddrParseError", "std::net::parser::AddrParseError", "ced::editor::core::Error",
       "ced_remote::keys::ParseKeyError", "std::time::SystemTimeError", "alloc::ffi::c_str::NulError",
       "core::char::convert::ParseCharError", "std::path::StripPrefixError", "core::num::error::TryFromIntError",
       "ced_remote::jsonrpc::Error", "ced::editor::Error", "alloc::boxed::Box<dyn core::error::Error")
ENV_OPT = ("std::result::Result::ok", "std::result::Result::err", "std::ffi::OsStr::to_str", "std::path::Path::to_str",
           "std::path::Path::file_name", "std::path::Path::extension", "dirs::home_dir")
BAD = ("std::result::Result::unwrap", "std::result::Result::expect", "std::result::Result::unwrap_unchecked")
BADO = ("std::option::Option::unwrap", "std::option::Option::expect")
EXIT = ("std::process::exit", "std::process::abort", "libc::exit", "libc::abort", "libc::_exit")


def env_err(ty):
    """the type is, or contains, an error of the environment"""
    return any(ty.startswith(e) or ("<" + e) in ty or (" " + e) in ty or ("(" + e) in ty for e in ENV)


def split2(ty):
    m = re.match(r"(?:&(?:'\w+ )?(?:mut )?)*core::result::Result<(.*)>$", ty)
    if not m:
        return None
    s, d = m.group(1), 0
    for i, c in enumerate(s):
        d += c in "<([{"
        d -= c in ">)]}" and s[i - 1:i] != "-"
        if c == "," and d == 0:
            return s[:i], s[i + 1:].strip()
    return None


def roots(ctx, G):
    rs = []
    for f in G.local.values():
        p = f["path"]
        if f.get("impl_self", "") and head(f["impl_self"]).endswith("::Editor") and f.get("vis") == "Public" and not makes_editor(f):
            rs.append(f["id"])
        if p in ("ced::server::Server::run", "ced::clients::start_standalone"):
            rs.append(f["id"])
        # what the script engine may call
        if f.get("impl_trait") and norm(f["impl_trait"]).startswith("rlua::"):
            rs.append(f["id"])
    return rs


def makes_editor(f):
    return f.get("ret", "").endswith("editor::Editor")


def local_def(f, l):
    """statements and calls which define a local"""
    out = []
    for bi, b in enumerate(f["blocks"]):
        if b.get("c"):
            continue
        for s in b["s"]:
            if s["s"] == "=" and s["p"] == [l]:
                out.append(("s", bi, s))
        t = b["t"]
        if t["t"] == "call" and t.get("dest") == [l]:
            out.append(("c", bi, t))
    return out


def producer(f, o, n=0):
    """the call an operand's value comes from, through moves and casts"""
    pl = o.get("p") if o.get("k") in ("move", "copy") else None
    if not pl or n > 12:
        return None
    ds = local_def(f, pl[0])
    if len(ds) != 1:
        return None
    k, bi, s = ds[0]
    if k == "c":
        c = callee(s)
        if c and norm(c["path"]) in ("std::option::Option::map", "std::option::Option::and_then", "std::result::Result::map",
                                     "std::option::Option::as_ref", "std::option::Option::cloned", "std::result::Result::as_ref",
                                     "std::result::Result::map_err"):
            return producer(f, s["args"][0], n + 1) or s
        return s
    rv = s["rv"]
    if rv.get("r") in ("use", "cast") and isinstance(rv.get("o"), dict):
        return producer(f, rv["o"], n + 1)
    return None


def session_arg(f):
    """the function reads the name of the session, which was read before the server started"""
    return f["args"] > 0 and re.sub(r"^(&(mut )?)+", "", f["locals"][1][0]).startswith("ced_remote::session::")


def sites(G, f):
    """(kind, block, span, text) of the places in f where an environment failure ends the process"""
    out = []
    cr = None
    for bi, b in enumerate(f["blocks"]):
        if b.get("c"):
            continue
        t = b["t"]
        if t["t"] == "call":
            c = callee(t)
            if c:
                n = norm(c["path"])
                sub = c.get("substs") or []
                if n in BAD and len(sub) > 1 and env_err(sub[1]):
                    out.append(("unwrap", bi, t, "%s on a %s" % (n.rsplit("::", 1)[1], sub[1])))
                if n in BADO:
                    pr = producer(f, t["args"][0])
                    pn = norm(callee(pr)["path"]) if pr and callee(pr) else ""
                    if pn in ENV_OPT and not session_arg(f):
                        ps = callee(pr).get("substs") or []
                        if not pn.startswith("std::result::") or any(env_err(x) for x in ps):
                            out.append(("option", bi, t, "%s on the result of %s" % (n.rsplit("::", 1)[1], pn)))
                if n in EXIT:
                    out.append(("exit", bi, t, n))
                if n.endswith(("Result::unwrap_or_else", "Result::map_err", "Result::or_else", "Result::map_or_else")) \
                        and any(env_err(x) for x in sub):
                    for x in sub:
                        for m in re.findall(r"\{closure#\d+\}", x):
                            pass
                    for a in t["args"][1:]:
                        for cid in closures_of(f, a):
                            if cid in G.local and diverges(G.local[cid]):
                                out.append(("handler", bi, t, "a handler of the error which never returns"))
        if t["t"] == "switch":
            ty = discr_ty(f, b, t)
            if ty:
                err = None
                s2 = split2(ty)
                if s2 and env_err(s2[1]):
                    err = [x[1] for x in t["ts"] if x[0] in (1, "1")] or [t["else"]]
                if err:
                    cr = cr or can_return(f)
                    if bi in cr and err[0] is not None and err[0] not in cr and f["blocks"][err[0]]["t"]["t"] != "unreachable":
                        out.append(("branch", bi, t, "an error case of %s from which there is no return" % s2[1]))
    return out


def closures_of(f, o):
    if o.get("closure"):
        return [o["closure"]]
    pl = o.get("p") if o.get("k") in ("move", "copy") else None
    out = []
    if pl:
        for k, bi, s in local_def(f, pl[0]):
            if k == "s" and isinstance(s["rv"], dict):
                for v in s["rv"].values():
                    if isinstance(v, str) and "{closure" in v:
                        out.append(v)
    return out


def discr_ty(f, b, t):
    pl = t["o"].get("p") if isinstance(t.get("o"), dict) else None
    if not pl or len(pl) != 1:
        return None
    for s in reversed(b["s"]):
        if s["s"] == "=" and s["p"] == pl:
            rv = s["rv"]
            if rv.get("r") == "discr" or "discr" in rv:
                p = rv.get("p") or rv.get("discr")
                return place_ty(f, p, rv)
    return None


def place_ty(f, p, rv):
    if rv.get("ty"):
        return rv["ty"]
    if len(p) == 1:
        return f["locals"][p[0]][0]
    if len(p) == 2 and p[1][0] == "d":
        return re.sub(r"^&(mut )?", "", f["locals"][p[0]][0])
    return None


def check(ctx):
    F = ctx.F
    G = Graph(F)
    rs = roots(ctx, G)
    ctx.need(len(rs) >= 5, "roots", "the entry points of the running editor are found")
    seen, parent = G.reach(rs, stop=makes_editor)
    ctx.saw(*[x for x in seen])
    ctx.count("functions_reachable", len(seen))
    n = 0
    for fid in sorted(seen):
        f = G.local[fid]
        if not f["blocks"] or is_test(f):
            continue
        results = sum(1 for b in f["blocks"] if b["t"]["t"] == "call" and not b.get("c"))
        ctx.count("calls_scanned", results)
        for kind, bi, t, what in sites(G, f):
            n += 1
            sp = t.get("sp") or f["span"]
            if kind == "unwrap" and not from_env(ctx, G, f, t):
                ctx.count("state_errors")
                continue
            if kind != "exit" and excused(ctx, G, f, bi, t, kind):
                ctx.count("sites_excused")
                continue
            ctx.violation("%s:%s" % (short(f), kind), "%s can end the process: %s" % (short(f), what),
                          "%s:%s" % (sp[0], sp[1]), [" -> ".join(G.chain(parent, fid))])
    ctx.count("sites", n)
    accepts(ctx)


LOCALERR = ("ced::editor::core::Error", "ced_remote::jsonrpc::Error")


def from_env(ctx, G, f, t):
    """the unwrapped result can report a failure of the environment: its error type is foreign, or the function which
    made it calls something that fails with a foreign error"""
    c = callee(t)
    ety = (c.get("substs") or ["", ""])[1]
    if ety not in LOCALERR:
        return True
    pr = producer(f, t["args"][0])
    if not pr or not callee(pr):
        return True
    starts = [x for x in G.resolve(callee(pr)) if x in G.local]
    if not starts:
        return True
    seen, _ = G.reach(starts, stop=makes_editor)
    for x in seen:
        for b in G.local[x]["blocks"]:
            u = b["t"]
            if u["t"] == "call" and not b.get("c"):
                s2 = split2(u.get("dty", ""))
                k = callee(u)
                if s2 and env_err(s2[1]) and not any(s2[1].startswith(e) for e in LOCALERR) and k and \
                        (ety != LOCALERR[0] or "io::" in s2[1] or "rlua" in s2[1]) and \
                        k.get("rid", k.get("id")) not in G.local and \
                        not norm(k["path"]).endswith(("to_value", "Result::map_err", "to_string")):
                    return True
    return False


def short(f):
    return re.sub(r"^ced(_remote)?::", "", f["path"])


def is_test(f):
    return "::tests::" in f["id"]


_runs = {}


def panics_at(ctx, f, keep=()):
    """panic paths of the interpretation of one function, by location; None when it cannot be interpreted"""
    if f["id"] in _runs:
        return _runs[f["id"]]
    res = None
    try:
        e = Engine(ctx.F, opaque=[CORE, "ced::editor::menu::Menu::*"], iters=1, maxpaths=600, maxsteps=60000)
        src = f
        if f.get("parent") and f["kind"] != "fn" and f.get("parent") in ctx.F.fns and f.get("coroutine"):
            par = ctx.F.fns[f["parent"]]
            r = [p for p in e.run(par) if p.status == "return"]
            ps = []
            for x in r:
                if x.ret is not None and x.ret.op == "agg" and x.ret.a[1] == f["id"]:
                    ps += e.run_value(x.ret, [])
            if not r or not ps:
                raise TooBig("not a plain async function")
        else:
            ps = e.run(src)
        res = [p for p in list(ps) + list(e.cuts) if p.status == "panic"]
    except Exception:
        res = None
    _runs[f["id"]] = res
    return res


def excused(ctx, G, f, bi, t, kind):
    ps = panics_at(ctx, f)
    if ps is None:
        return False
    sp = t.get("sp") or []
    left = []
    for p in ps:
        e = p.events[-1] if p.events else None
        if e is None:
            left.append(p)
            continue
        if e.kind == "panic" and e.sp and sp and tuple(e.sp[:2]) != tuple(sp[:2]) and kind in ("unwrap", "option"):
            continue
        if cannot_fail(p, e):
            continue
        left.append(p)
    return not left


def cannot_fail(p, e):
    """the failure this panic reports cannot happen"""
    for f, v in p.facts.items():
        if f.op == "variant" and v in ("Err", "None"):
            c = f.a[0]
            if c.op == "await":
                continue
            if infallible(c):
                return True
        # a view that clients look at, or that has just been looked up, is registered under its own key (C12)
    return False


def infallible(c):
    if c.op != "call":
        return False
    n = norm(c.a[0])
    if n.endswith(("serde_json::to_value", "serde_json::to_string", "value::to_value")):
        return True
    if n.endswith("Regex::new"):
        return all(quoted(x) for x in c.a[1])
    return False


def quoted(t):
    """text made of literals without variables in them and of escaped text"""
    if isinstance(t, str):
        return True
    if t.op == "str":
        return True
    if t.op == "fmt":
        a = t.a[0] if len(t.a) == 1 and isinstance(t.a[0], tuple) else t.a
        return all(quoted(x) for x in a)
    if t.op == "pure" and t.a[0] == "join":
        return all(quoted(x) for x in t.a[1:])
    if t.op == "agg" and t.a[0] == "array":
        return all(quoted(v) for _, v in t.a[3])
    return is_call(t, "regex::escape", "syntax::escape") or (t.op == "pure" and t.a[0] == "escape")


def accepts(ctx):
    t = tasks(ctx)
    roles = server_roles(ctx, t)
    if not roles:
        return
    a = roles[1]
    n = 0
    for p in t.tasks[a][0]:
        if p.status != "return":
            continue
        items = [e for e in p.events if e.kind == "await" and is_call(e.args[0], "StreamExt::next", "::accept")]
        if not items:
            continue
        n += 1
        if p.facts.get(mk("variant", items[-1].res)) != "None":
            ctx.violation("accept:stops", "the server stops accepting clients although its listener is open", items[-1].where(), trail(p))
    ctx.count("accept_ends", n)
