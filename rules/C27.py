"""What a session's name means, and who uses it, on every path.  The pattern an address has to match is read from the source
and compared as an automaton: it must accept every IPv4 address (or none) with every port, and its groups must be exactly the
address and the port.  The function that turns a name into a session (interpreted, with the text's conversions inlined): a
TCP session's address is the parsed text `address:port` of that match, 127.0.0.1 when there is no address; a path that makes
it a socket has to know that the name does not match or that the text is no address; the socket's path is the user's folder
with the name added; nothing else than the environment may stop it.  How a session is written, what the daemon is started
with, when it is started, where the server binds, what it removes and where a client connects are values and path conditions;
every function of the programs that is given a session must be given the one made from the name on the command line."""
from common import *
from C26 import norm, last
import re
try:
    from re import _parser as sre
except ImportError:                      # Python before 3.11
    import sre_parse as sre

ALL = {}
SESSION = "ced_remote::session::Session"


def need(ctx, cond, key, msg, where="", path=()):
    if not cond:
        ctx.violation(key, msg, where, path)
    return bool(cond)


LIB = lambda p: p.startswith("regex::") or p.endswith("str>::parse")

# ---- the pattern -------------------------------------------------------------------------------------------------------
IPV4 = r"(?:[0-9]|[1-9][0-9]|1[0-9][0-9]|2[0-4][0-9]|25[0-5])"
ADDRESS = IPV4 + r"(?:\." + IPV4 + "){3}"
PORT = ("(?:[0-9]|[1-9][0-9]|[1-9][0-9][0-9]|[1-9][0-9][0-9][0-9]|[1-5][0-9][0-9][0-9][0-9]|6[0-4][0-9][0-9][0-9]"
        "|65[0-4][0-9][0-9]|655[0-2][0-9]|6553[0-5])")
ALPHABET = "0123456789.:@/-_ax "


def chars(item):
    op, v = str(item[0]), item[1]
    if op == "LITERAL":
        return {chr(v)}
    if op == "NOT_LITERAL":
        return set(ALPHABET) - {chr(v)}
    if op == "ANY":
        return set(ALPHABET)
    if op == "RANGE":
        return {c for c in ALPHABET if v[0] <= ord(c) <= v[1]}
    if op == "CATEGORY":
        k = str(v)
        base = {"DIGIT": lambda c: c.isdigit(), "WORD": lambda c: c.isalnum() or c == "_", "SPACE": lambda c: c.isspace()}
        for n, f in base.items():
            if k.endswith("NOT_" + n):
                return {c for c in ALPHABET if not f(c)}
            if k.endswith(n):
                return {c for c in ALPHABET if f(c)}
    if op == "IN":
        neg, out = False, set()
        for i in v:
            if str(i[0]) == "NEGATE":
                neg = True
            else:
                out |= chars(i)
        return set(ALPHABET) - out if neg else out
    raise ValueError(op)


class Nfa:
    def __init__(self, items):
        self.n, self.eps, self.step = 0, {}, {}
        self.start, self.end = self.seq(items)

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, []).append(b)

    def seq(self, items):
        s = cur = self.new()
        for it in items:
            a, b = self.one(it)
            self.e(cur, a)
            cur = b
        return s, cur

    def one(self, it):
        op, v = str(it[0]), it[1]
        if op == "SUBPATTERN":
            return self.seq(v[-1])
        if op == "BRANCH":
            s, t = self.new(), self.new()
            for alt in v[1]:
                a, b = self.seq(alt)
                self.e(s, a)
                self.e(b, t)
            return s, t
        if op in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, body = v
            s = cur = self.new()
            for _ in range(lo):
                a, b = self.seq(body)
                self.e(cur, a)
                cur = b
            if str(hi) == "MAXREPEAT" or hi > 100:
                a, b = self.seq(body)
                self.e(cur, a)
                self.e(b, cur)
            else:
                t = self.new()
                for _ in range(hi - lo):
                    self.e(cur, t)
                    a, b = self.seq(body)
                    self.e(cur, a)
                    cur = b
                self.e(cur, t)
                cur = t
            return s, cur
        if op == "AT":
            s = self.new()
            return s, s
        s, t = self.new(), self.new()
        for c in chars(it):
            self.step.setdefault((s, c), []).append(t)
        return s, t

    def close(self, S):
        S = set(S)
        w = list(S)
        while w:
            for b in self.eps.get(w.pop(), []):
                if b not in S:
                    S.add(b)
                    w.append(b)
        return frozenset(S)

    def go(self, S, c):
        return self.close(b for a in S for b in self.step.get((a, c), []))


def missing(small, big):
    """a text of `small` which is not in `big`, or None"""
    A, B = Nfa(small), Nfa(big)
    w, seen = [(A.close([A.start]), B.close([B.start]), "")], set()
    while w:
        a, b, s = w.pop(0)
        if (a, b) in seen:
            continue
        seen.add((a, b))
        if A.end in a and B.end not in b:
            return s
        for c in ALPHABET:
            x = A.go(a, c)
            if x:
                w.append((x, B.go(b, c), s + c))
    return None


def uses(items, c):
    N = Nfa(items)
    return any(k[1] == c for k in N.step)


def flatten(items):
    """without groups that are neither named nor repeated"""
    out = []
    for it in items:
        if str(it[0]) == "SUBPATTERN" and it[1][0] is None:
            out += flatten(it[1][-1])
        else:
            out.append(it)
    return out


def pattern(ctx, F, statics):
    """the group numbers of address and port after the shape of the pattern was checked"""
    need(ctx, len(statics) == 1, "one-pattern", f"addresses are told from other names with {len(statics)} patterns")
    if len(statics) != 1:
        return None
    static = list(statics)[0]
    texts = set()
    short = static.split("::", 1)[1]
    for f in F.fns.values():
        if (short in f["path"] or short in f["id"]) and str(f.get("kind")) in ("Fn", "AssocFn", "Closure"):
            try:
                ps = Engine(F, iters=1, opaque=[]).run(f["id"])
            except RuntimeError:
                continue
            for p in ps:
                for e in p.events:
                    if e.kind == "call" and e.name.endswith("Regex::new") and norm(e.args[0]).op == "str":
                        texts.add(norm(e.args[0]).a[0])
    need(ctx, len(texts) == 1, "pattern-source", f"the pattern {static} is compiled from {len(texts)} texts, not one")
    if len(texts) != 1:
        return None
    text = texts.pop()
    try:
        tree = sre.parse(text)
    except Exception as e:
        need(ctx, False, "pattern", f"the pattern {text!r} of addresses cannot be read: {e}")
        return None
    names = {n: s for s, n in tree.state.groupdict.items()}
    items = flatten(list(tree))
    shape = [str(i[0]) for i in items]
    ok = (shape == ["AT", "LITERAL", "MAX_REPEAT", "LITERAL", "SUBPATTERN", "AT"] and chr(items[1][1]) == "@"
          and chr(items[3][1]) == ":" and items[2][1][0] == 0 and items[2][1][1] == 1 and
          str(items[0][1]) in ("AT_BEGINNING", "AT_BEGINNING_STRING") and str(items[5][1]) in ("AT_END", "AT_END_STRING"))
    group = flatten(list(items[2][1][2])) if ok else []
    ok = ok and len(group) == 1 and str(group[0][0]) == "SUBPATTERN"
    need(ctx, ok, "pattern-shape", f"the pattern {text!r} is not @, an address or none, :, a port, from the beginning to the end")
    if not ok:
        return None
    address, port = group[0][1], items[4][1]
    for what, part, all_ in (("address", address[-1], ADDRESS), ("port", port[-1], PORT)):
        m = missing(sre.parse(all_), part)
        ctx.count("languages compared")
        need(ctx, m is None, f"pattern-{what}", f"the pattern {text!r} does not accept {m!r} for the {what}")
    N = Nfa(address[-1])
    need(ctx, N.end not in N.close([N.start]), "empty-address", f"the pattern {text!r} takes an empty address for an address")
    need(ctx, not uses(port[-1], ":"), "colon-in-port", f"the pattern {text!r} accepts ':' in the port")
    return {"address": {address[0], names.get(address[0])}, "port": {port[0], names.get(port[0])}}


# ---- the session of a name ---------------------------------------------------------------------------------------------
def unopt(t):
    while True:
        t = norm(t)
        if t.op == "vf" and t.a[1] in ("Some", "Ok") and str(t.a[2]) == "0" and norm(t.a[0]).op in ("pure", "call") and \
                last(norm(t.a[0]).a[0]) in ("to_str", "to_string_lossy", "into_string", "from_str", "try_into"):
            t = t.a[0]
        elif t.op in ("pure", "call") and last(t.a[0]) in ("to_str", "to_string_lossy", "into_string", "into_os_string", "as_path",
                                                          "to_path_buf", "as_os_str", "from", "new", "into_boxed_path"):
            a = t.a[1] if t.op == "call" else t.a[1:]
            if len(a) != 1:
                return t
            t = a[0]
        else:
            return t


def parts(t, p):
    """the components of a path that was put together"""
    t = unopt(t)
    if t.op in ("pure", "call") and last(t.a[0]) == "join":
        a = t.a[1] if t.op == "call" else t.a[1:]
        out = parts(a[0], p) + [norm(a[1])]
    elif t.op == "agg" and t.a[0] == "array":
        out = [norm(v) for _, v in t.a[3]]
    else:
        out = [t]
    for e in p.events:
        if e.kind == "call" and last(e.name) == "push" and "PathBuf" in e.name and unopt(e.args[0]) is t:
            out.append(norm(e.args[1]))
    return out


def cargs(t):
    return list(t.a[1]) if t.op == "call" else list(t.a[1:])


def group_of(t, groups, n):
    """the match a text is the group n of"""
    t = norm(t)
    if t.op == "pure" and last(t.a[0]) == "as_str":
        t = norm(t.a[1])
    if t.op == "vf" and t.a[1] == "Some":
        t = norm(t.a[0])
    if t.op in ("pure", "call") and last(t.a[0]) in ("name", "get", "index"):
        a = cargs(t)
        k = norm(a[1])
        if k.op in ("str", "int") and k.a[0] in groups[n]:
            return t, norm(a[0])
    return None, None


def texts_of(t):
    """the pieces of a formatted text, with adjacent literals joined"""
    t = norm(t)
    if t.op != "fmt":
        return [t]
    out = []
    for x in t.a[0]:
        for y in (texts_of(x) if isinstance(x, T) else [x]):
            if isinstance(y, T) and y.op in ("str", "char"):
                y = y.a[0]
            if isinstance(y, str) and out and isinstance(out[-1], str):
                out[-1] += y
            else:
                out.append(y)
    return out


def address_text(t, groups, name, facts):
    """is t the text of the address and port in name: the match it comes from, or None"""
    x = texts_of(t)
    if len(x) == 2 and x[0] == "127.0.0.1:":
        g, caps = group_of(x[1], groups, "port")
        if not g:
            return None
        dflt = [k for k, v in facts.items() if k.op == "variant" and v == "None" and
                (lambda a: a.op in ("pure", "call") and last(a.a[0]) in ("name", "get") and norm(cargs(a)[0]) is caps and
                 norm(cargs(a)[1]).a[0] in groups["address"])(norm(k.a[0]))]
        return caps if dflt else None
    if len(x) == 3 and x[1] == ":" and isinstance(x[0], T) and isinstance(x[2], T):
        g1, c1 = group_of(x[0], groups, "address")
        g2, c2 = group_of(x[2], groups, "port")
        if g1 and g2 and c1 is c2:
            return c1
    return None


def captured(caps):
    """what a match was made of"""
    c = norm(caps)
    if c.op == "vf" and c.a[1] == "Some":
        c = norm(c.a[0])
    if c.op in ("pure", "call") and last(c.a[0]) == "captures":
        return norm(cargs(c)[1])
    return None


def regexes(t, out):
    for k in [t] + [x for x in walk(t)]:
        if isinstance(k, T) and k.op == "const":
            m = re.search(r'"ty": "&?((?:\w+::)+\w+)"', str(k.a[0]))
            if m and not m.group(1).startswith(("core::", "std::", "alloc::")):
                out.add(m.group(1))


def walk(t):
    if isinstance(t, T):
        yield t
        for a in t.a:
            yield from walk(a)
    elif isinstance(t, (tuple, list)):
        for a in t:
            yield from walk(a)


def of_name(ctx, F, fn, name_arg, key):
    """the paths of the function that makes a session from a name"""
    E = Engine(F, iters=1, opaque=[])
    E.inline_parse, E.pureext = True, LIB
    ps = E.run(fn["id"])
    ctx.saw(fn["path"])
    name = name_arg(E)
    statics = set()
    for p in ps:
        for k in p.facts:
            if k.op == "variant":
                for c in walk(k):
                    if c.op in ("pure", "call") and last(c.a[0]) in ("captures", "is_match"):
                        regexes(cargs(c)[0], statics)
    return E, ps, name, statics


def check_names(ctx, F):
    fns = [f for f in F.real() if (f.get("impl_self") or "").startswith(SESSION) and f.get("kind") == "AssocFn" and
           (f.get("ret") or "").startswith(SESSION) and f.get("impl_trait") is None and f.get("args") == 1]
    need(ctx, bool(fns), "no-constructor", "no function makes a session from a name")
    folder = None
    for fn in fns:
        E, ps, name, statics = of_name(ctx, F, fn, lambda E: E.argterm(fn, 0), "name")
        groups = pattern(ctx, F, statics)
        if not groups:
            continue
        kinds = set()
        for p in ps:
            w = f"{fn['path']}"
            if p.status == "cut":
                continue
            if p.status != "return":
                e = p.events[-1] if p.events else None
                t = norm(e.args[0]) if e is not None and e.kind == "panic" and e.args else None
                good = t is not None and t.op in ("pure", "call") and (last(t.a[0]) == "var" or (
                    last(t.a[0]) == "to_str" and len(parts(t, p)) > 1)) or t is not None and t.op in ("var",)
                ctx.count("panics excused" if good else "panics")
                if not good and feasible(p, groups, name):
                    need(ctx, False, "stops", "a session name can stop the program: " + (show(t, 0)[:90] if t is not None else "panic"),
                             e.where() if e is not None else w)
                continue
            ctx.count("paths of a name")
            mode = getf(norm(p.ret), "mode") if norm(p.ret).op == "agg" else None
            mode = norm(mode) if mode is not None else None
            if mode is None or mode.op != "agg" or mode.a[2] not in ("Tcp", "Socket"):
                need(ctx, False, "unknown-mode", "what a session is cannot be told: " + show(p.ret, 0)[:120], w)
                continue
            v = norm(mode.a[3][0][1])
            if mode.a[2] == "Tcp":
                x = v.a[0] if v.op == "vf" and v.a[1] == "Ok" else None
                x = norm(x) if x is not None else None
                caps = None
                if x is not None and x.op == "pure" and x.a[0].endswith("parse"):
                    caps = address_text(x.a[1], groups, name, p.facts)
                src = captured(caps) if caps is not None else None
                if src is not None and src is not name and len(parts(src, p)) > 1:
                    continue        # cannot be: the text of a path holds a separator, an address does not
                ok = src is name
                if ok:
                    kinds.add("default" if len(texts_of(x.a[1])) == 2 else "given")
                need(ctx, ok, "tcp", "a session is TCP at an address which is not the one its name gives: " + show(v, 0)[:150], w)
                continue
            if not feasible(p, groups, name):
                continue
            need(ctx, not_address(p, groups, name), "socket-reason",
                     "a session becomes a socket although its name may be @ADDRESS:PORT", w)
            pp = parts(v, p)
            ok = len(pp) > 1 and pp[-1] is name and not any(contains(x, name) for x in pp[:-1])
            need(ctx, ok, "socket-path", "the socket of a session is not the file of that name in the folder of sessions: " + show(v, 0)[:100], w)
            if ok:
                need(ctx, any(contains_env(x) for x in pp[:-1]), "own-folder", "the folder of sessions is not the user's own", w)
                if folder is None:
                    folder = pp[:-1]
                need(ctx, [show(x, 0) for x in folder] == [show(x, 0) for x in pp[:-1]], "one-folder", "sessions are put in different folders", w)
                kinds.add("socket")
        for k, msg in (("default", "no name of the form @:PORT gives a TCP session"), ("given", "no name of the form @ADDRESS:PORT gives a TCP session"),
                       ("socket", "no name gives a socket")):
            need(ctx, k in kinds, "never-" + k, msg)
    return folder


def contains(t, x):
    return any(y is x for y in walk(t))


def contains_env(t):
    return any(y.op in ("pure", "call", "var") and "var" in str(last(y.a[0]) if y.op != "var" else "var") and "USER" in show(y, 0) for y in walk(t))


def feasible(p, groups, name):
    """false: a group that is in every match was not there"""
    for k, v in p.facts.items():
        if k.op == "variant" and v == "None":
            a = norm(k.a[0])
            if a.op in ("pure", "call") and last(a.a[0]) in ("name", "get") and LIB(a.a[0]) and \
                    norm(cargs(a)[1]).op in ("str", "int") and norm(cargs(a)[1]).a[0] in groups["port"]:
                return False
    return True


def not_address(p, groups, name):
    for k, v in p.facts.items():
        if k.op == "variant":
            a = norm(k.a[0])
            if v == "None" and a.op in ("pure", "call") and last(a.a[0]) == "captures" and norm(cargs(a)[1]) is name:
                return True
            if v == "Err" and a.op == "pure" and a.a[0].endswith("str>::parse"):
                caps = address_text(a.a[1], groups, name, p.facts)
                if caps is not None and captured(caps) is name:
                    return True
        elif v is False:
            a = norm(k)
            if a.op in ("pure", "call") and last(a.a[0]) == "is_match" and norm(cargs(a)[1]) is name:
                return True
    return False


# ---- writing it, starting it, listening, connecting --------------------------------------------------------------------
def mode_of(t):
    """(the session, variant) when t is what its mode holds"""
    t = norm(t)
    if t.op == "vf" and t.a[1] in ("Tcp", "Socket") and str(t.a[2]) == "0":
        return norm(t.a[0]), t.a[1]
    return None, None


def check_display(ctx, F):
    fs = [f for f in F.real() if f.get("name") == "fmt" and (f.get("trait") or "").endswith("fmt::Display") and
          (f.get("impl_self") or "").startswith("ced_remote::session::")]
    need(ctx, len(fs) >= 2, "no-display", "sessions and their modes are not written")
    for f in fs:
        E = Engine(F, iters=1, opaque=[])
        E.inline_parse = True
        me = E.argterm(f, 0)
        ctx.saw(f["path"])
        for p in E.run(f["id"]):
            if p.status != "return":
                continue
            out = []
            for e in p.events:
                if e.kind == "call" and last(e.name) in ("write_fmt", "write_str", "write_char", "pad"):
                    out += texts_of(e.args[1])
                elif e.kind == "call" and last(e.name) == "fmt" and len(e.args) == 2:
                    out.append(norm(e.args[0]))
            ctx.count("ways of writing")
            if f["impl_self"].startswith(SESSION):
                ok = len(out) == 1 and isinstance(out[0], T) and way_mode(out[0], me)
                # a session written by writing its mode's parts is compared below as the mode itself
                if ok:
                    continue
            subject = me if not f["impl_self"].startswith(SESSION) else None
            v = [x for k, x in p.facts.items() if k.op == "variant" and x in ("Tcp", "Socket")]
            if len(out) == 2 and out[0] == "@":
                s, k = mode_of(out[1])
                ok = k == "Tcp"
            elif len(out) == 1 and isinstance(out[0], T):
                t = out[0]
                while True:
                    t = unopt(t)
                    if t.op == "vf" and t.a[1] == "Some":
                        t = t.a[0]
                    elif t.op in ("pure", "call") and last(t.a[0]) in ("file_name", "display"):
                        fnm = True
                        t = cargs(t)[0]
                    else:
                        break
                s, k = mode_of(t)
                ok = k == "Socket" and any(y.op in ("pure", "call") and last(y.a[0]) == "file_name" for y in walk(out[0]))
            else:
                ok = False
            need(ctx, ok, "written", "a session is written as something that is not its name: " +
                     ", ".join(x if isinstance(x, str) else show(x, 0)[:60] for x in out), f["path"])


def way_mode(t, me):
    t = norm(t)
    return t.op == "field" and t.a[1] == "mode" and norm(t.a[0]) is me


def session_text(t):
    """the session a text is the name of"""
    t = norm(t)
    if t.op in ("pure", "call") and last(t.a[0]) in ("to_string", "fmt") and len(cargs(t)) >= 1:
        t = norm(cargs(t)[0])
    if t.op == "field" and t.a[1] == "mode":
        t = norm(t.a[0])
    return t


def check_daemon(ctx, F):
    """every started process of this program gets the session; and when it is started"""
    starts = set()
    for f in F.real():
        if f.get("kind") == "Closure" or not f["path"].startswith("ced_remote::"):
            continue
        if not any("Session" in (l[0] or "") for l in f["locals"][1:1 + f["args"]]):
            continue
        if not any(t["t"]["t"] == "call" and "Command::spawn" in callee_path(t["t"]) for t in f["blocks"]):
            continue
        E = Engine(F, iters=1, opaque=[g["path"] for g in F.real() if not g.get("args")])
        s = E.argterm(f, 0)
        ctx.saw(f["path"])
        starts.add(f["path"])
        n = 0
        for p in E.run(f["id"]):
            given = []
            for e in p.events:
                if e.kind == "call" and e.name.endswith(("Command::args", "Command::arg")):
                    a = norm(e.args[1])
                    given += [x for _, x in a.a[3]] if a.op == "agg" else [a]
                if e.kind == "call" and e.name.endswith("Command::spawn"):
                    n += 1
                    ctx.count("servers started")
                    txt = [texts_of(x) for x in given]
                    sess = [x for x in txt if x[0] == "--session=" or isinstance(x[0], str) and x[0].startswith("--session")]
                    ok = len(sess) == 1 and len(sess[0]) == 2 and sess[0][0] == "--session=" and session_text(sess[0][1]) is s
                    need(ctx, ok, "daemon-session", "a server is started for another session than the one asked for: " +
                             str([[y if isinstance(y, str) else show(y, 0)[:40] for y in x] for x in txt])[:150], e.where())
                    need(ctx, ["--mode=server"] in [[("" .join(y if isinstance(y, str) else lit1(y) for y in x))] for x in txt], "daemon-mode",
                             "the process started for a session is not told to be its server", e.where())
        need(ctx, n > 0, "daemon-never", f"{f['path']} starts nothing")
    need(ctx, bool(starts), "no-daemon", "nothing starts a server")
    return starts


def lit1(t):
    t = norm(t)
    return t.a[0] if t.op == "str" else "?"


def callee_path(t):
    import graph
    c = graph.callee(t) or {}
    f = ALL.get(c.get("rid") or c.get("id")) or ALL.get(c.get("id"))
    return f["path"] if f else c.get("path") or ""


def check_ensure(ctx, F, starts):
    n = 0
    for f in F.real():
        if f.get("kind") == "Closure" or not f["path"].startswith("ced_remote::") or f["path"] in starts:
            continue
        if f["args"] != 1 or f["locals"][1][0] not in (f"&{SESSION}", SESSION):
            continue
        if not any(t["t"]["t"] == "call" and callee_path(t["t"]) in starts for t in f["blocks"]):
            continue
        n += 1
        E = Engine(F, iters=1, opaque=list(starts))
        s = E.argterm(f, 0)
        ctx.saw(f["path"])
        for p in E.run(f["id"]):
            if p.status == "cut":
                continue
            started = [e for e in p.events if e.kind == "call" and e.name in starts]
            socket = [v for k, v in p.facts.items() if k.op == "variant" and norm(k.a[0]).op == "field" and norm(k.a[0]).a[1] == "mode"]
            exists = [v for k, v in p.facts.items() if norm(k).op in ("pure", "call") and last(norm(k).a[0]) == "exists" and
                      mode_of(cargs(norm(k))[0])[1] == "Socket"]
            # a test that failed to answer counts as missing
            ctx.count("ways of finding a session")
            want = "Socket" in socket and exists == [False]
            need(ctx, p.status == "return", "ensure-stops", f"{f['path']} can stop the program", f["path"])
            need(ctx, bool(started) == want, "ensure", ("a server is started although the session is not a missing socket" if started else
                     "no server is started for a socket that is missing"), f["path"], trail(p)[:6])
            for e in started:
                need(ctx, norm(e.args[0]) is s, "ensure-other", "a server is started for another session", e.where())
    need(ctx, n > 0, "no-ensure", "nothing starts a server when a session is missing")


def check_transport(ctx, F):
    from C26 import way
    jobs = []
    for f in F.real():
        if f.get("kind") == "Closure" or not f["path"].startswith("ced_remote::") or not f.get("ret"):
            continue
        tys = [l[0] for l in f["locals"][1:1 + f["args"]]]
        if any(x and ("session::Session" in x or "session::ConnectionMode" in x) for x in tys) and F.children.get(f["id"]):
            jobs.append((f, tys))
    kinds = set()
    for f, tys in jobs:
        E = Engine(F, iters=1)
        try:
            rs = E.run(f["id"])
        except RuntimeError:
            continue
        clo = [p.ret for p in rs if p.status == "return" and p.ret is not None and p.ret.op == "agg" and p.ret.a[0] in ("closure", "coroutine")]
        if not clo:
            continue
        i = next(k for k, x in enumerate(tys) if x and "session::" in x)
        s = E.argterm(f, i)
        ctx.saw(f["path"])
        for p in E.run_value(clo[0], []):
            where = [e for e in p.events if e.kind == "call" and last(e.name) in ("bind", "connect") and "async_net" in e.name or
                     e.kind == "call" and e.name.endswith(("UnixListener::bind", "TcpListener::bind", "UnixStream::connect", "TcpStream::connect"))]
            if p.status != "return":
                continue
            if p.ret is not None and norm(p.ret).op == "agg" and norm(p.ret).a[2] == "Ok":
                need(ctx, len(where) == 1, "places", f"{f['path']} succeeds after using {len(where)} addresses", f["path"])
            for e in where:
                src, k = mode_of(e.args[0])
                if src is not None and src.op == "field" and src.a[1] == "mode":
                    src = norm(src.a[0])
                unix = "Unix" in e.name
                ok = src is s and k == ("Socket" if unix else "Tcp")
                kinds.add((last(e.name), k))
                ctx.count("places bound or connected")
                need(ctx, ok, "place", f"{last(e.name)} is not given the session's own address: " + show(e.args[0], 0)[:80], e.where())
    for k in (("bind", "Socket"), ("bind", "Tcp"), ("connect", "Socket"), ("connect", "Tcp")):
        need(ctx, k in kinds, "never-" + "-".join(k), f"nothing does {k[0]} for a {k[1]} session")


def holds(t, x):
    """the sessions stored in a value"""
    out = []
    for y in walk(t):
        if y.op == "agg" and y.a[0] == "adt":
            for n, v in y.a[3]:
                if n == "session":
                    out.append(norm(v))
    return out


def check_programs(ctx, F):
    """main and the C library: one session, made from the name given, goes everywhere"""
    made = {f["path"] for f in F.real() if (f.get("impl_self") or "").startswith(SESSION) and (f.get("ret") or "").startswith(SESSION)
            and f.get("impl_trait") is None}
    takers = {}
    for f in F.real():
        if f.get("kind") in ("Fn", "AssocFn"):
            tys = [l[0] for l in f["locals"][1:1 + f["args"]]]
            for i, x in enumerate(tys):
                if x in (SESSION, "&" + SESSION):
                    takers[f["path"]] = (f, i)
    takers = {k: v for k, v in takers.items() if not k.startswith(("ced_remote::session::", "bin:"))}
    roots = [f for f in F.real() if f["id"] == "bin:ced::main"] + [
        f for f in F.real() if f["path"].startswith("ced_ffi::") and f.get("vis") == "Public" and f.get("kind") == "Fn" and
        Graph_reaches(f, made)]
    need(ctx, len(roots) >= 2, "no-programs", "the program or the C library does not make a session")
    ctors, runs = set(), set()
    for r in roots:
        main = r["id"].startswith("bin:")
        mine = {f["path"] for f in F.real() if f["id"].startswith("bin:") and f["span"][0] == r["span"][0]} if main else {r["path"]}
        home = "ced_ffi::"
        E = Engine(F, iters=1, opaque=lambda p: p.startswith(("ced::", "ced_remote::")) and p not in mine)
        ctx.saw(r["path"])
        name = None if main else E.argterm(r, 0)
        seen = set()
        for p in E.run(r["id"]):
            for e in p.events:
                if e.kind == "call" and e.args and norm(e.args[0]).op == "call" and norm(e.args[0]).a[0] in takers and e.name in F.by_path:
                    runs.add(e.name)
                if e.kind != "call" or e.name not in takers:
                    continue
                f, i = takers[e.name]
                x = norm(e.args[i])
                seen.add(e.name)
                ctx.count("sessions handed over")
                ok, why = from_the_name(x, e, made, main, name)
                need(ctx, ok, "handed", f"{e.name} is given a session that is not the one named: {why}", e.where())
                if re.search(r"\bced(_remote)?::", f["ret"] or ""):
                    ctors.add(e.name)
                    if not main or "Server" not in e.name:
                        before = [x2 for x2 in p.events[:p.events.index(e)] if x2.kind == "call" and x2.name in takers and
                                  x2.name.startswith("ced_remote::") and norm(x2.args[takers[x2.name][1]]) is x and
                                  okay(e.facts, x2.res)]
                        need(ctx, bool(before), "unsure", f"{e.name} connects to a session without making sure that it runs", e.where())
        need(ctx, len(seen) >= (4 if main else 2), "handed-few", f"{r['path']} gives its session to {len(seen)} functions only")
    for c in sorted(ctors):
        f, i = takers[c]
        E = Engine(F, iters=1, opaque=lambda p: p.startswith(("ced::script", "ced::editor")), asserts=False)
        s = E.argterm(f, i)
        ctx.saw(c)
        for p in E.run(f["id"]):
            if p.status == "return":
                got = holds(p.ret, s)
                ctx.count("sessions kept")
                need(ctx, bool(got) and all(g is s for g in got), "kept", f"{c} does not keep the session it is given", c)
    return runs


def okay(facts, res):
    return any(k.op == "variant" and v in ("Ok", "Continue") and contains(k, res) for k, v in facts.items()) if res is not None else False


def Graph_reaches(f, made):
    return any(b["t"]["t"] == "call" and callee_path(b["t"]) in made for b in f["blocks"])


def from_the_name(x, e, made, main, name):
    if x.op != "call" or x.a[0] not in made:
        return False, show(x, 0)[:100]
    if not x.a[1]:
        # no name: only where none was given
        none = [k for k, v in e.facts.items() if k.op == "variant" and v in ("None", "Err") and
                any(last(str(y.a[0])) in ("value_of", "to_str", "value_of_lossy") for y in walk(k) if y.op in ("call", "pure"))]
        return bool(none), "one made without a name where a name was given"
    t = norm(x.a[1][0])
    if t.op == "vf" and t.a[1] in ("Some", "Ok"):
        c = norm(t.a[0])
        if main and c.op in ("call", "pure") and last(c.a[0]) in ("value_of", "value_of_lossy"):
            k = norm(cargs(c)[1])
            if k.op == "str":
                opts = [y for y in walk(c) if y.op == "call" and last(y.a[0]) == "long" and norm(y.a[1][1]).op == "str" and
                        norm(y.a[1][1]).a[0] == "session" and any(
                            z.op == "call" and last(z.a[0]) == "with_name" and norm(z.a[1][0]) is k for z in walk(y))]
                return bool(opts), "the option read is not --session"
        if not main and c.op in ("call", "pure") and last(c.a[0]) == "to_str":
            return contains(c, name), "not the text given"
    return False, show(t, 0)[:100]


def check_server(ctx, F, runs):
    """what the server binds, and what it removes"""
    import graph
    G = graph.Graph(F)
    binds = {f["path"] for f in F.real() if last(f["path"]) == "bind" and f["path"].startswith("ced_remote::")}

    def to(f, what):
        return any(what(F.fns[i]["path"]) for i in G.reach([f["id"]])[0] if i in F.fns)
    runs = [f for f in (F.fn(r) for r in sorted(runs)) if to(f, lambda q: q in binds)]
    need(ctx, bool(runs), "no-server", "no server binds its session")
    big = [g["path"] for g in F.real() if g["path"].startswith("ced::") and g.get("kind") in ("Fn", "AssocFn") and
           g["path"] not in [f["path"] for f in runs] and not to(g, lambda q: q in binds) and
           to(g, lambda q: q.startswith("ced::editor::"))]
    for f in runs:
        E = Engine(F, iters=1, opaque=big)
        me = E.argterm(f, 0)
        ctx.saw(f["path"])
        removed = 0
        for p in E.run(f["id"]):
            bound = False
            for e in p.events:
                if e.kind != "call":
                    continue
                if e.name.endswith(("UnixListener::bind", "TcpListener::bind")):
                    src, k = mode_of(e.args[0])
                    ok = src is not None and own(src, me) and k == ("Socket" if "Unix" in e.name else "Tcp")
                    ctx.count("places a server listens at")
                    need(ctx, ok, "server-place", "the server does not listen where its session is: " + show(e.args[0], 0)[:80], e.where())
                    bound = e
                elif e.name.startswith("std::fs::remove"):
                    removed += 1
                    ctx.count("files removed")
                    t = norm(e.args[0])
                    src, k = mode_of(t)
                    own_ = src is not None and own(src, me) and k == "Socket"
                    got = bound and any(q.op == "variant" and v in ("Ok", "Continue") and contains(q, bound.res) for q, v in e.facts.items())
                    if last(e.name) == "remove_file":
                        need(ctx, own_, "removes-other", "the server removes a file that is not its own socket: " + show(t, 0)[:80], e.where())
                    else:
                        need(ctx, last(e.name) == "remove_dir", "removes-tree", "the server removes a folder with what is in it", e.where())
                    need(ctx, bool(got), "removes-unbound", "the server removes a session's socket which it did not bind", e.where())
            if p.status == "return" and p.ret is not None and norm(p.ret).op == "agg" and norm(p.ret).a[2] == "Ok":
                sock = any(k.op == "variant" and v == "Socket" for k, v in p.facts.items())
                if sock:
                    need(ctx, any(e.kind == "call" and e.name == "std::fs::remove_file" for e in p.events), "leaves-socket",
                             "the server ends without removing its socket", f["path"])


def own(src, me):
    t = norm(src)
    if t.op == "field" and t.a[1] == "mode":
        t = norm(t.a[0])
    if t.op == "field" and t.a[1] == "session":
        t = norm(t.a[0])
    return t is me


def check_list(ctx, F, folder):
    fs = [f for f in F.real() if (f.get("impl_self") or "").startswith(SESSION) and "Vec<" in (f.get("ret") or "") and f["args"] == 0]
    need(ctx, bool(fs), "no-list", "running sessions cannot be listed")
    for f in fs:
        E = Engine(F, iters=1, opaque=[])
        ctx.saw(f["path"])
        dirs = 0
        for p in E.run(f["id"]):
            for e in p.events:
                if e.kind == "call" and last(e.name) == "read_dir":
                    dirs += 1
                    pp = parts(e.args[0], p)
                    need(ctx, folder is not None and [show(x, 0) for x in pp] == [show(x, 0) for x in folder], "list-folder",
                             "sessions are listed from another folder than the one they are put in", e.where())
            if p.status == "return":
                items = [norm(v) for _, v in p.ret.a[3]] if p.ret.op == "agg" and p.ret.a[0] == "array" else None
                elems = [e for e in p.events if e.kind == "iter"]
                known = []
                for e in elems:
                    el = e.args[1]
                    c = norm(e.args[0])
                    c = norm(c.a[0]) if c.op == "vf" else c
                    need(ctx, c.op == "call" and last(c.a[0]) == "read_dir", "list-part",
                         "not everything in the folder is looked at: " + show(c, 0)[:80], e.where())
                    bad = [k for k, v in p.facts.items() if k.op == "variant" and v in ("Err", "None") and contains(k, el)]
                    if not bad:
                        known.append(el)
                ctx.count("lists of sessions")
                if items is None:
                    need(ctx, False, "list-unknown", "the list of sessions cannot be read: " + show(p.ret, 0)[:100], f["path"])
                    continue
                good = len(items) == len(known) and all(contains(i, el) and any(
                    y.op in ("pure", "call") and last(y.a[0]) == "file_name" for y in walk(i)) for i, el in zip(items, known))
                need(ctx, good, "list", f"{len(known)} sessions are found and {len(items)} listed, or not by their names", f["path"])
        need(ctx, dirs > 0, "list-nothing", "no folder is read for the list of sessions")


def check(ctx):
    F = ctx.F
    ALL.update(F.fns)
    folder = check_names(ctx, F)
    check_display(ctx, F)
    starts = check_daemon(ctx, F)
    check_ensure(ctx, F, starts)
    check_transport(ctx, F)
    runs = check_programs(ctx, F)
    check_server(ctx, F, runs)
    check_list(ctx, F, folder)
