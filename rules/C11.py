"""What the programs do to the file system, over every call of every function.  Each call of the standard library, or of the
libraries in use, that can create, change, rename or remove a file, or start a program, is found in the compiled functions;
one that is not known to be harmless counts as one that does.  What remains must be one of these: binding the session socket
and creating its folder, removing that socket, and that folder when empty (remove_dir), appending to log.txt, starting the
server.  The path of each is followed back through the callers until it is that of the session.  The scripts the editor
loads, and the sources it gives to the script engine, call none of the functions that write, remove or run."""
from common import *
from graph import Graph
import graph
import os
import re
import luai

READS = {"File::open", "metadata", "symlink_metadata", "read_dir", "read_to_string", "read", "canonicalize", "read_link",
         "exists", "OpenOptions::new", "OpenOptions::read", "File::metadata", "File::try_clone", "File::options", "File::sync_all",
         "File::sync_data", "OpenOptions::write", "OpenOptions::append", "OpenOptions::create", "OpenOptions::create_new",
         "OpenOptions::truncate", "OpenOptions::clone", "OpenOptions::custom_flags", "OpenOptions::mode"}
HARMLESS = ("DirEntry::", "FileType::", "Metadata::", "ReadDir::", "Permissions::readonly", "FileTimes::new")
PROCESS = {"Command::arg", "Command::args", "Command::env", "Command::stdin", "Command::stdout", "Command::stderr", "Command::env_remove",
           "Stdio::null", "Stdio::piped", "Stdio::inherit", "id", "Child::id", "Child::wait", "Child::try_wait", "exit", "abort",
           "Command::get_program", "Command::get_args", "ExitStatus::success", "ExitStatus::code", "Child::stdout", "Command::env_clear"}
LUA = {"io": {"open", "popen", "output", "tmpfile", "lines", "input"}, "os": {"execute", "remove", "rename", "tmpname", "exit"}}
# Rust 1.x re-exports: crates which act on files by themselves
FOREIGN = ("libc::", "nix::", "rustix::", "tempfile::", "async_fs::", "tokio::fs::", "smol::fs::", "memmap", "winapi::")


def effect(n):
    """the change an external function makes, or None"""
    n = norm(n)
    m = re.match(r"(?:std::)?(?:fs|os::\w+::fs)::(.*)", n) if n.startswith(("std::fs::", "fs::", "std::os::")) else None
    if m and "::net::" not in n:
        r = m.group(1).split("<")[0].rstrip(":")
        if r in READS or r.startswith(HARMLESS) or "Ext::" in r and not r.endswith("write_at") and not r.endswith("write_all_at"):
            return None
        return r
    if n.startswith(("std::process::", "process::")):
        r = n.split("process::", 1)[1]
        return None if r in PROCESS or r.startswith(("Child", "Exit", "Output", "Stdio")) and r != "Child::kill" else "run:" + r
    if n.endswith(("UnixListener::bind", "UnixDatagram::bind")):
        return "bind"
    if n.startswith(FOREIGN):
        return "foreign:" + n
    return None


def check(ctx):
    F = ctx.F
    G = Graph(F)
    callers = {}
    for a, bs in G.edges.items():
        for b in bs:
            callers.setdefault(b, set()).add(a)
    sites = {}
    for f in F.real():
        if not f["path"].startswith(("ced::", "ced_remote::", "ced_ffi::")) or "::tests" in f["path"]:
            continue
        ctx.saw(f["path"])
        ctx.count("functions")
        for b in f["blocks"]:
            t = b["t"]
            if not t or t.get("t") != "call" or b.get("c"):
                continue
            ctx.count("calls")
            for k in [graph.callee(t)] + [o["fn"] for o in graph.operands(b) if isinstance(o.get("fn"), dict)]:
                if k and effect(k["path"]):
                    sites.setdefault(f["id"], set()).add(norm(k["path"]))
        for b in f["blocks"]:
            for o in graph.operands(b):
                if isinstance(o.get("fn"), dict) and effect(o["fn"]["path"]):
                    sites.setdefault(f["id"], set()).add(norm(o["fn"]["path"]))
                if isinstance(o.get("str"), str):
                    for w in lua_words(o["str"], True):
                        ctx.violation("lua:%s:%s" % (f["path"], w), "%s gives the script engine a source that calls %s" % (f["path"], w), f["path"], [])
    ctx.need(len(sites) >= 3, "sites", "the session socket is bound and removed, and the server started")
    for i, names in sorted(sites.items()):
        judge(ctx, F, G, callers, G.local[i], names)
    scripts(ctx)


def judge(ctx, F, G, callers, f, names):
    """follow the paths of the changes a function makes back to the session"""
    todo, done, open_ = [(outer(G, f), frozenset([outer(G, f)]))], set(), []
    local = {g["path"] for g in F.real()}
    seen_any = False
    while todo:
        root, inner = todo.pop()
        if (root, inner) in done or len(done) > 40:
            continue
        done.add((root, inner))
        inside = set()
        for x in inner:
            inside |= family(G, x)
        paths = {G.local[x]["path"] for x in inside}
        E = Engine(F, iters=1, opaque=lambda p: p in local and p not in paths, maxpaths=4000)
        hit = up = False
        for p in E.run(G.local[root]):
            for s in [p] + list(spawned(E, p)):
                for e in s.events:
                    if e.kind == "open_":
                        continue
                    if e.kind == "call" and (effect(e.name) or is_open(e)) and (norm(e.name) in names or is_open(e)):
                        v = verdict(e, s)
                        hit = True
                        if v is None:
                            ctx.count("changes_judged")
                        elif v == "caller":
                            up = True
                        else:
                            ctx.violation("%s:%s" % (f["path"], norm(e.name)), "%s: %s" % (f["path"], v), e.where(), trail(s))
        ctx.saw(*E.fns_seen)
        seen_any |= hit
        if up or not hit:
            out = {outer(G, G.local[c]) for x in family(G, root) for c in callers.get(x, ()) if c not in family(G, root)}
            if not out and up:
                ctx.violation("%s:who" % f["path"], "%s changes a file its caller names, whatever it is (%s)" % (f["path"], ", ".join(sorted(names))), f["path"], [])
            for o in out:
                todo.append((o, inner | {o}))
    if not seen_any:
        ctx.violation("%s:how" % f["path"], "%s changes something on disk in a way that cannot be followed (%s)" % (f["path"], ", ".join(sorted(names))), f["path"], [])


def spawned(E, p):
    return [s for s in (p.spawned or []) if hasattr(s, "events")]


def outer(G, f):
    while f.get("kind") == "Closure" or "{closure" in f["path"].rsplit("::", 1)[-1]:
        q = f.get("parent")
        g = G.local.get(q) or next((x for x in G.local.values() if x["path"] == f["path"].rsplit("::", 1)[0]), None)
        if g is None:
            break
        f = g
    return f["id"]


def family(G, i):
    out, todo = set(), [i]
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo += [c for c in G.F.children.get(x, []) if c in G.local]
    return out


def is_open(e):
    return e.kind == "call" and norm(e.name).endswith("OpenOptions::open")


def leaves(t):
    return [x for x in subterms(t) if x.op == "arg"]


def session_path(t):
    """the path of the session socket itself"""
    t = plain(t)
    return t.op == "vf" and t.a[1] == "Socket" and (t.a[0].op == "field" and t.a[0].a[1] == "mode" or t.a[0].op == "arg")


def plain(t):
    while True:
        if t.op in ("clone", "ref", "deref", "at"):
            t = t.a[0]
        elif t.op == "pure" and t.a[0] in ("as_ref", "as_path", "deref", "to_path_buf", "to_owned", "borrow"):
            t = t.a[1]
        elif t.op == "call" and str(t.a[0]).rsplit("::", 1)[-1] in ("as_ref", "as_path", "deref", "to_path_buf", "to_owned", "borrow") and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            return t


def parent_of(t):
    t = plain(t)
    if t.op == "vf" and t.a[1] == "Some":
        t = plain(t.a[0])
        n = t.a[0] if t.op in ("pure", "call") else ""
        a = t.a[1] if t.op == "pure" else t.a[1][0] if t.op == "call" and t.a[1] else None
        if str(n).rsplit("::", 1)[-1] == "parent" and a is not None:
            return a
    return None


def judge_path(t, ok, what):
    if t is not None and ok(t):
        return None
    if t is not None and leaves(t) and not any(x.op == "fmt" or x.op == "str" for x in subterms(t)):
        return "caller"
    return what % (t if t is not None else "something")


def verdict(e, p):
    n = norm(e.name)
    r = "open" if is_open(e) else effect(n)
    a = e.args
    if r == "bind":
        return judge_path(a[0], session_path, "a socket is bound at %s, which is not that of the session")
    if r == "remove_file":
        return judge_path(a[0], session_path, "the file %s is removed, which is not the session socket")
    if r in ("remove_dir", "create_dir_all", "create_dir"):
        t = parent_of(a[0])
        if t is None and leaves(a[0]):
            return "caller" if "parent" not in show(a[0], 0) else judge_path(None, session_path, "a directory is made or removed: %s")
        return judge_path(t, session_path, "a directory is made or removed which is not that of the session: " + show(a[0], 0).replace("%", "%%") + " %s")
    if r == "open":
        o = options(a[0], p, e)
        if o is None:
            return "a file is opened in a way that cannot be followed"
        if not any(o.get(k) for k in ("write", "append", "create", "create_new", "truncate")):
            return None
        if a[1].op == "str" and a[1].a[0] == "log.txt" and o.get("append") and not o.get("truncate"):
            return None
        return "the file %s is opened for writing (%s)" % (show(a[1], 0), ", ".join(sorted(k for k in o if o[k])))
    if r.startswith("run:"):
        if r in ("run:Command::new",):
            t = a[0]
            s = show(t, 0)
            if "current_exe" in s or "CED_BIN" in s or t.op == "str" and t.a[0] in ("ced", "ced.exe"):
                return None
            x = [y for y in subterms(t) if y.op == "call" and y.a[0] and "find_bin" in str(y.a[0])]
            return None if x else "caller" if leaves(t) else "a program is started which is not the editor: %s" % s
        if r in ("run:Command::spawn", "run:Command::output", "run:Command::status"):
            return None
        return "%s is called" % n
    return "%s changes the file system" % n


def options(t, p, e):
    """the options a builder was given before the file is opened"""
    out, seen = {}, 0
    base = None
    for x in p.events:
        if x.seq >= e.seq:
            break
        m = re.search(r"OpenOptions::(\w+)$", norm(x.name)) if x.kind == "call" else None
        if not m:
            continue
        if m.group(1) == "new" or m.group(1) == "options":
            out, seen = {}, 1
            continue
        if m.group(1) in ("write", "append", "create", "create_new", "truncate", "read"):
            v = x.args[1]
            out[m.group(1)] = not (v.op == "bool" and v.a[0] is False)
    return out if seen else None


def lua_words(src, loose=False):
    try:
        toks = [t for t in luai.lex(src)]
    except Exception:
        if loose:
            return
        raise
    vals = [(t[0], t[1]) if isinstance(t, tuple) else (None, t) for t in toks]
    for i, (k, v) in enumerate(vals):
        if v in LUA and (i == 0 or vals[i - 1][1] not in (".", ":")):
            nxt = vals[i + 1][1] if i + 1 < len(vals) else None
            if nxt in (".", "[") and i + 2 < len(vals) and vals[i + 2][1] in LUA[v]:
                yield "%s.%s" % (v, vals[i + 2][1])


def scripts(ctx):
    root = os.path.join(os.environ.get("CED_REPO", "/repo"), "core", "scripts")
    for d, _, names in sorted(os.walk(root)):
        for n in sorted(names):
            if n.endswith(".lua"):
                ctx.count("scripts")
                src = open(os.path.join(d, n), encoding="utf-8", errors="replace").read()
                for w in lua_words(src):
                    ctx.violation("script:%s:%s" % (n, w), "the script %s calls %s" % (n, w), os.path.join("core/scripts", n), [])
    ctx.need(ctx.counts.get("scripts"), "scripts", "the editor has scripts")
