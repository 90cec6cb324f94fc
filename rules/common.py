"""Shared helpers of the rules: roots, tasks of the server, term queries."""
import absint
from absint import Engine, T, mk, norm, subterms, mentions, show, TooBig, UNIT, NONE, TRUE, FALSE

CORE = "ced::editor::core::*"
EDITOR = "ced::editor::Editor::*"


def is_call(t, *suffixes):
    return isinstance(t, T) and t.op == "call" and any(norm(t.a[0]).endswith(s) for s in suffixes)


def variant_of(t):
    """(variant, payload fields) of a known enum value"""
    if t.op == "agg" and t.a[0] == "adt":
        return t.a[2], dict(t.a[3])
    return None, {}


def getf(t, name):
    """field of an aggregate or symbolic value"""
    if t.op == "agg":
        return dict(t.a[3]).get(name)
    return absint.field(t, name)


def fact(p, t):
    """value of a fact of a path or event (facts is a dict term -> value)"""
    return p.facts.get(t)


def truth(p, t):
    """True or False when the path knows a condition, else None"""
    if t.op == "bool":
        return t.a[0]
    if t.op == "not":
        v = truth(p, t.a[0])
        return None if v is None else not v
    v = p.facts.get(t)
    return v if isinstance(v, bool) else None


def variant_fact(p, t):
    return p.facts.get(mk("variant", t))


def base_of(t):
    """the value a projection was made from: x.field, x@Variant.0, at(x, n), ref -> x"""
    while t.op in ("field", "vf", "down") or (t.op == "at"):
        t = t.a[0]
    return t


def strip_at(t):
    while t.op == "at":
        t = t.a[0]
    return t


def ops(t):
    return [x for x in subterms(t) if isinstance(x, T)]


def contains_call(t, *suffixes):
    return any(is_call(x, *suffixes) for x in subterms(t))


class Tasks:
    """The server as a set of cooperating tasks: the main one and everything it spawns."""

    def __init__(self, F, iters=1, opaque=(), root="ced::server::Server::run", args=None):
        self.F = F
        self.iters = iters
        self.opq = [CORE, EDITOR, "ced_remote::session::Session::list"] + list(opaque)
        self.tasks = {}     # name -> (paths, cuts)
        self.fns = set()
        self.order = []
        e = self.engine()
        ps = e.run(root, args)
        self.add("main", e, ps)

    def engine(self):
        return Engine(self.F, opaque=self.opq, iters=self.iters)

    def add(self, name, e, ps):
        self.tasks[name] = (ps, e.cuts)
        self.order.append(name)
        self.fns |= set(e.fns_seen)
        sp = {}
        for p in list(ps) + list(e.cuts):
            for s in p.spawned:
                if s.op == "agg":
                    sp.setdefault(s.a[1], s)
        for nm, s in sorted(sp.items()):
            if nm not in self.tasks:
                e2 = self.engine()
                if s.a[0] in ("closure", "coroutine"):
                    self.add(nm, e2, e2.run_value(s, []))

    def all(self, name):
        ps, cuts = self.tasks[name]
        return list(ps) + list(cuts)

    def role(self, pred):
        """names of the tasks with an event for which pred holds"""
        return [n for n in self.order if any(pred(e) for p in self.all(n) for e in p.events)]


_tasks = {}


def tasks(ctx, iters=1):
    k = (id(ctx.F), iters)
    if k not in _tasks:
        _tasks[k] = Tasks(ctx.F, iters)
    t = _tasks[k]
    ctx.saw(*t.fns)
    return t


def ev_call(e, *suffixes):
    return e.kind == "call" and any(norm(e.name).endswith(s) for s in suffixes)


def trail(p, n=10, upto=None):
    evs = p.events if upto is None else p.events[:upto + 1]
    return ["%s  %s" % (e.where(), str(e)[:200]) for e in evs[-n:]]


# ---- requests handled by the server --------------------------------------------------------------------------------
_requests = {}


def requests(ctx, iters=1):
    """[(method or None, path)] of Editor::handle with everything but the core and the menus interpreted."""
    k = (id(ctx.F), iters)
    if k not in _requests:
        e = Engine(ctx.F, opaque=[CORE, "ced::editor::menu::*"], iters=iters)
        ps = e.run("ced::editor::Editor::handle")
        out = []
        for p in ps + e.cuts:
            out.append((method_of(p), p))
        _requests[k] = (out, set(e.fns_seen), {id(p) for p in e.cuts})
    out, fns, cuts = _requests[k]
    ctx.saw(*fns)
    return out


def method_of(p):
    for f, v in p.facts.items():
        if f.op == "eq" and v is True:
            for a, b in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                if a.op == "field" and a.a[1] == "method" and b.op == "str":
                    return b.a[0]
    return None


def parse_result(p):
    """(call term, 'Ok'|'Err'|None) of parsing the request line"""
    for e in p.events:
        if ev_call(e, "::parse", "FromStr::from_str", "serde_json::from_str"):
            return e.res, p.facts.get(mk("variant", e.res))
    return None, None


def params_of(p):
    """(state, term): 'missing', 'undecodable', 'ok' and the decoded parameters"""
    for e in p.events:
        if ev_call(e, "serde_json::from_value"):
            v = p.facts.get(mk("variant", e.res))
            if v == "Err":
                return "undecodable", None
            o = mk("vf", e.res, "Ok", "0")
            v = p.facts.get(mk("variant", o))
            if v == "Some":
                return "ok", mk("vf", o, "Some", "0")
            if v == "None":
                return "missing", None
            return "ok", o
    return "missing", None


def response_of(p):
    """(id, result, error) terms of the response a path returns, or None"""
    if p.status != "return" or p.ret is None:
        return None
    v, fs = variant_of(p.ret)
    if v != "Ok":
        return None
    r = fs["0"]
    if r.op != "agg":
        return None
    d = dict(r.a[3])
    return d.get("id"), d.get("result"), d.get("error")


def opt(t):
    """payload of Some, None for None, the term itself when unknown"""
    v, fs = variant_of(t)
    if v == "Some":
        return fs["0"]
    if v == "None":
        return None
    return t


def code_of(err):
    """error code of an error term: an int, or None when symbolic"""
    if err is not None and err.op == "agg":
        c = dict(err.a[3]).get("code")
        if c is not None and c.op == "int":
            return c.a[0]
    return None


CORE_READ = ("get_notifier", "cwd", "buffers", "views", "buffer_exists", "view_exists", "check_client",
             "clients_with_buffer", "get_selected_text", "get_coord")
CORE_REPORT = ("debug", "message", "error")


def core_calls(p, pred=None):
    """calls of state-changing core functions"""
    out = []
    for e in p.events:
        if e.kind == "call" and norm(e.name).startswith("ced::editor::core::Core::"):
            n = norm(e.name).rsplit("::", 1)[1]
            if n not in CORE_READ and n not in CORE_REPORT:
                out.append((n, e))
    return out


# ---- rounds of the server's main loop ------------------------------------------------------------------------------
class Round:
    """One event received by a task: the events of the path up to the next receive."""
    __slots__ = ("p", "start", "evs", "event", "variant", "complete", "last", "state", "facts", "ver")


def rounds(t, name, p):
    recv = [i for i, e in enumerate(p.events) if ev_call(e, "Receiver::recv", "Receiver::recv_blocking", "Receiver::try_recv")]
    for k, i in enumerate(recv):
        r = Round()
        r.p = p
        r.last = k + 1 == len(recv)
        end = recv[k + 1] if not r.last else len(p.events)
        r.start = p.events[i]
        r.evs = p.events[i:end]
        nxt = p if r.last else p.events[end]
        r.facts, r.ver = nxt.facts, nxt.ver      # at the end of the round
        aw = [e for e in r.evs if e.kind == "await" and e.args[0] is r.start.res]
        r.state = p.facts.get(mk("variant", aw[0].res)) if aw else None
        r.event = mk("vf", aw[0].res, "Ok", "0") if aw else None
        r.variant = p.facts.get(mk("variant", r.event)) if aw else None
        r.complete = not r.last or (p.status == "return" and p in t.tasks[name][0])
        yield r


def payload(r, i):
    """i-th value carried by the event of a round (events carry one value or a tuple)"""
    return absint.field(mk("vf", r.event, r.variant, "0"), str(i))


def sent_variants(t, name):
    """{variant: [send events]} of the events a task sends"""
    out = {}
    for p in t.all(name):
        for e in p.events:
            if ev_call(e, "Sender::send", "Sender::send_blocking", "Sender::try_send"):
                v, _ = variant_of(e.args[1])
                out.setdefault(v, []).append((p, e))
    return out


def tuple_vals(fs):
    vals = []
    for x in fs.values():
        if x.op == "agg" and x.a[0] == "tuple":
            vals += [y for _, y in x.a[3]]
        else:
            vals.append(x)
    return vals


def server_roles(ctx, t):
    """(reader task, accept task, variants: join, message, leave) of the server"""
    readers = t.role(lambda e: ev_call(e, "AsyncBufReadExt::lines", "AsyncBufReadExt::read_line"))
    if not ctx.need(len(readers) == 1, "reader", "one task reads lines from a client stream (found %d)" % len(readers)):
        return None
    acc = t.role(lambda e: e.kind == "spawn" and e.args[0].a[1] == readers[0])
    if not ctx.need(len(acc) == 1, "accept", "one task spawns the readers"):
        return None
    sv = sent_variants(t, readers[0])
    jv = sent_variants(t, acc[0])
    if not ctx.need(len(jv) == 1, "join", "the accept task sends one kind of event"):
        return None
    msg = [v for v in sv if any(any(is_call(x, "StreamExt::next", "read_line") for x in subterms(
        mk("tuple", *tuple_vals(variant_of(e.args[1])[1])))) and len(tuple_vals(variant_of(e.args[1])[1])) > 1 for _, e in sv[v])]
    leave = [v for v in sv if v not in msg]
    if not ctx.need(len(msg) == 1 and len(leave) == 1, "kinds", "a reader sends lines and one kind of farewell (%s)" % sorted(map(str, sv))):
        return None
    return readers[0], acc[0], next(iter(jv)), msg[0], leave[0]


def mapcalls(e, *names):
    """call of a map method: HashMap / BTreeMap"""
    return e.kind == "call" and any(norm(e.name).endswith(m + "::" + n) for m in ("HashMap", "BTreeMap") for n in names)


def index_of(t):
    """the map of connected streams: what the main task inserts a joined stream into"""
    for p in t.all("main"):
        for e in p.events:
            if mapcalls(e, "insert") and any(any(is_call(x, "Receiver::recv") for x in subterms(a)) for a in e.args[1:]):
                return strip_at(e.args[0])
    return None


def parallel(fn, items):
    """[fn(x) for x in items], each in a process of its own (results are pickled)"""
    import os
    import pickle
    kids = []
    for x in items:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    out = (True, fn(x))
                except BaseException as e:
                    out = (False, "%s: %s" % (type(e).__name__, e))
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(out))
            finally:
                os._exit(0)
        os.close(w)
        kids.append((pid, r))
    res = []
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        ok, v = pickle.loads(data) if data else (False, "a worker ended without a result")
        if not ok:
            raise RuntimeError(v)
        res.append(v)
    return res
