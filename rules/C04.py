"""Every path of the request handler, with commands, script execution and response construction interpreted and only the
core left opaque: the method string each path compares equal decides which operation it performs, with the requester's
id and the decoded parameters, and which error code each failure carries: unreadable request -32600 with a null id,
unknown method -32601, absent parameters -32600, parameters that do not decode -32602, an operation the core refuses
-32600, an unknown menu or choice -32602, a failing key handler -32603, a failing script 1.  A request whose parameters
are absent or do not decode performs no operation."""
from common import *

# method -> (core operation, arguments after the core object as functions of (client, params)), None: no core operation
OPS = {
    "edit": ("edit", lambda c, P: [c, absint.field(P, "name"), absint.field(P, "scratch")]),
    "view": ("view", lambda c, P: [c, P]),
    "view-delete": ("delete_current_view", lambda c, P: [c]),
    "view-add": ("add_to_current_view", lambda c, P: [c, P]),
    "view-remove": ("remove_from_current_view", lambda c, P: [c, P]),
    "quit": ("remove_client", lambda c, P: [c]),
    "menu": (None, None), "menu-select": (None, None), "keys": (None, None), "exec": (None, None),
}
NO_PARAMS = {"quit", "view-delete"}
SEEN = {}


def check(ctx):
    f = ctx.F.fn("ced::editor::Editor::handle")
    me, client = [mk("arg", f["locals"][i + 1][1], f["id"], i) for i in (0, 1)]
    rs = requests(ctx, iters=2)
    found = {}
    for m, p in rs:
        if p.status == "panic":
            continue
        if p.status != "return":
            continue
        call, st = parse_result(p)
        r = response_of(p)
        if m is None:
            if r is None:
                continue
            code = code_of(opt(r[2])) if opt(r[2]) is not None else None
            ops_ = core_calls(p)
            if ops_:
                ctx.violation("none:effect", "a request which is not understood performs %s" % ops_[0][0], ops_[0][1].where())
            if st == "Err":
                found.setdefault("!parse", 0)
                found["!parse"] += 1
                if code != -32600:
                    ctx.violation("parse:code", "an unreadable request is answered with code %s, not -32600" % code)
                if variant_of(r[0])[0] != "Null":
                    ctx.violation("parse:id", "an unreadable request is answered with the id %s, not null" % r[0])
            else:
                found["!unknown"] = found.get("!unknown", 0) + 1
                if code != -32601:
                    ctx.violation("unknown:code", "an unknown method is answered with code %s, not -32601" % code)
                if opt(r[1]) is not None:
                    ctx.violation("unknown:result", "an unknown method gets a result")
            continue
        ctx.count("handler_paths")
        found[m] = found.get(m, 0) + 1
        if m not in OPS:
            ctx.violation("method:" + m, "the method %r is not part of the vocabulary" % m)
            continue
        method(ctx, m, p, r, me, client)
    for m in list(OPS) + ["!parse", "!unknown"]:
        ctx.need(found.get(m), "method " + m, "a path for %s exists" % m)
    for m, need in (("edit", ("ok", "fail", "missing", "undecodable")), ("view", ("ok", "fail", "missing", "undecodable")),
                    ("view-add", ("ok", "fail", "missing", "undecodable")), ("view-delete", ("ok",)), ("quit", ("ok",)),
                    ("view-remove", ("ok", "fail", "missing", "undecodable")), ("exec", ("ok", "fail", "missing", "undecodable")),
                    ("menu", ("ok", "fail", "missing", "undecodable")), ("keys", ("ok", "fail", "missing", "undecodable")),
                    ("menu-select", ("ok", "fail", "missing", "undecodable"))):
        for k in need:
            if (m, k) not in SEEN:
                ctx.violation("case:%s:%s" % (m, k), "no path of %s has the outcome '%s'" % (m, k))
    ctx.count("methods", len([m for m in found if m in OPS]))


def same(a, b):
    return strip_at(a) is strip_at(b)


def method(ctx, m, p, r, me, client):
    if r is None:
        return      # the response could not be encoded (C03)
    _, res, err = r
    res, err = opt(res), opt(err)
    code = code_of(err)
    st, P = params_of(p) if m not in NO_PARAMS else ("none", None)
    ops_ = core_calls(p)
    where = ops_[0][1].where() if ops_ else ""
    if (res is None) == (err is None):
        ctx.violation(m + ":both", "the response to %s does not have exactly one of a result and an error" % m, where)
    if st in ("missing", "undecodable"):
        SEEN[(m, st)] = 1
        want = -32600 if st == "missing" else -32602
        if code != want:
            ctx.violation("%s:%s" % (m, st), "%s with %s parameters is answered with code %s, not %d" % (m, st, code, want))
        for n, e in ops_:
            ctx.violation("%s:%s-effect" % (m, st), "%s with %s parameters performs %s" % (m, st, n), e.where(), trail(p))
        for e in p.events:
            if ev_call(e, "callptr") or ev_call(e, "Chunk::exec", "Chunk::eval") or ev_call(e, "Notifier::notify"):
                ctx.violation("%s:%s-effect" % (m, st), "%s with %s parameters performs %s" % (m, st, e.name), e.where())
        return
    op, mkargs = OPS[m]
    if op:
        if [n for n, _ in ops_] != [op]:
            ctx.violation(m + ":op", "%s performs %s instead of %s" % (m, [n for n, _ in ops_] or "nothing", op), where, trail(p))
            return
        e = ops_[0][1]
        want = mkargs(client, P)
        got = list(e.args[1:])
        if len(want) != len(got) or not all(same(a, b) for a, b in zip(want, got)):
            ctx.violation(m + ":args", "%s is performed with (%s), not (%s)" % (op, ", ".join(map(str, got)), ", ".join(map(str, want))),
                          e.where())
        st2 = p.facts.get(mk("variant", e.res)) if e.res is not None else None
        if st2 == "Err":
            SEEN[(m, "fail")] = 1
            if err is None or code != -32600:
                ctx.violation(m + ":refused", "%s which the core refuses is answered with %s, not an error of code -32600"
                              % (m, "a result" if err is None else "code %s" % code), e.where())
        else:
            SEEN[(m, "ok")] = 1
            if err is not None:
                ctx.violation(m + ":ok", "%s which the core performed is answered with an error" % m, e.where(), trail(p))
        if m == "quit":
            ins = [x for x in p.events if ev_call(x, "::insert") and client in x.args]
            if len(ins) != 1:
                ctx.violation("quit:stop", "quit does not mark the client as stopped", e.where())
        return
    for n, e in ops_:
        ctx.violation(m + ":op", "%s performs %s" % (m, n), e.where())
    {"menu": menu, "menu-select": select, "keys": keys, "exec": exec_}[m](ctx, m, p, res, err, code, client, P, me)


def the_menu(p, t, P):
    """t is the menu registered under the command of the parameters"""
    return t.op == "idx" and t.a[1] is absint.field(P, "command")


def has_menu(p, P):
    for f, v in p.facts.items():
        if f.op == "pure" and f.a[0] == "has" and f.a[2] is absint.field(P, "command"):
            return v
    return None


def menu(ctx, m, p, res, err, code, client, P, me):
    notes = [e for e in p.events if ev_call(e, "Notifier::notify", "Notifier::broadcast")]
    if has_menu(p, P) is False:
        SEEN[(m, "fail")] = 1
        if code != -32602:
            ctx.violation("menu:unknown", "an unknown menu is answered with code %s, not -32602" % code)
        for e in notes:
            ctx.violation("menu:unknown-note", "an unknown menu is shown", e.where())
        return
    SEEN[(m, "ok")] = 1
    if err is not None:
        ctx.violation("menu:ok", "a known menu is answered with an error")
    if len(notes) != 1:
        ctx.violation("menu:notify", "a known menu is shown %d times" % len(notes))
        return
    e = notes[0]
    tp = [x for x in subterms(e.args[2]) if is_call(x, "Menu::to_notification_params")]
    if e.args[1] is not client:
        ctx.violation("menu:client", "the menu is shown to %s, not to the requester" % e.args[1], e.where())
    if len(tp) != 1 or not the_menu(p, strip_at(tp[0].a[1][0]), P) or not same(tp[0].a[1][1], absint.field(P, "search")):
        ctx.violation("menu:content", "what is shown is not the requested menu for the requested search: %s" % e.args[2], e.where())
    empty = p.facts.get(mk("pure", "is_empty", absint.field(P, "search")))
    pop = [x for x in p.events if ev_call(x, "Menu::populate")]
    if empty is True and not [x for x in pop if the_menu(p, strip_at(x.args[0]), P) and x.seq < e.seq]:
        ctx.violation("menu:populate", "a menu opened without a search is not filled anew", e.where(), trail(p))


def select(ctx, m, p, res, err, code, client, P, me):
    acts = [e for e in p.events if ev_call(e, "callptr")]
    gets = [e for e in p.events if ev_call(e, "Menu::get")]
    for g in gets:
        if not the_menu(p, strip_at(g.args[0]), P):
            ctx.violation("menu-select:menu", "an entry is looked up in another menu", g.where())
    if not acts:
        if code != -32602:
            ctx.violation("menu-select:unknown", "a menu or choice which is not known is answered with %s, not code -32602"
                          % ("a result" if err is None else "code %s" % code))
        SEEN[(m, "fail")] = 1
        for g in gets:
            if p.facts.get(mk("variant", g.res)) == "Some":
                ctx.violation("menu-select:ignored", "an existing choice is refused", g.where(), trail(p))
        return
    if len(acts) > 1:
        ctx.violation("menu-select:twice", "a choice runs more than one action", acts[1].where())
    a = acts[0]
    fp = a.args[0]
    src = [x for x in subterms(fp) if is_call(x, "Menu::get")]
    choice = absint.field(P, "choice")
    if len(src) != 1 or not any(g.res is src[0] for g in gets):
        ctx.violation("menu-select:action", "the action run is not the one of the chosen entry: %s" % fp, a.where())
        return
    g = [g for g in gets if g.res is src[0]][0]
    if not same(g.args[1], choice):
        first = [x for x in gets if same(x.args[1], choice)]
        prompt = [e for e in p.events if ev_call(e, "Menu::is_prompt") and p.facts.get(e.res) is True]
        if not (g.args[1].op == "str" and g.args[1].a[0] == "" and prompt and first
                and p.facts.get(mk("variant", first[0].res)) == "None"):
            ctx.violation("menu-select:other", "the action of the entry %s is run for the choice" % g.args[1], a.where(), trail(p))
    if not (same(a.args[1], choice) and a.args[3] is client):
        ctx.violation("menu-select:args", "the action is run with (%s, %s), not the choice and the requester" % (a.args[1], a.args[3]),
                      a.where())
    st2 = p.facts.get(mk("variant", a.res))
    if st2 == "Err" and (err is None or not mentions(err, a.res)):
        ctx.violation("menu-select:err", "the failure of an action is not what is answered", a.where())
    if st2 == "Ok":
        SEEN[(m, "ok")] = 1
        if err is not None:
            ctx.violation("menu-select:ok", "an action which succeeded is answered with an error", a.where())


def lua_events(p):
    return [e for e in p.events if e.kind == "call" and norm(e.name).startswith("rlua::")]


def keys(ctx, m, p, res, err, code, client, P, me):
    its = [e for e in p.events if e.kind == "iter" and same(strip_at(e.args[0]), P)]
    calls = [e for e in p.events if ev_call(e, "Function::call")]
    failed = failed_lua(p)
    if failed is not None:
        SEEN[(m, "fail")] = 1
        if code != -32603:
            ctx.violation("keys:fail", "a failing key handler is answered with %s, not code -32603"
                          % ("a result" if err is None else "code %s" % code), failed.where())
        return
    if err is not None:
        ctx.violation("keys:ok", "keys which were handled are answered with an error")
        return
    SEEN[(m, "ok")] = 1
    done = [e for e in p.events if e.kind == "exhausted" and same(strip_at(e.args[0]), P)]
    if not done:
        ctx.violation("keys:all", "the keys are not handled to the last", "", trail(p))
    if len(calls) != len(its):
        ctx.violation("keys:each", "%d keys are given to the key handler %d times" % (len(its), len(calls)), "", trail(p))


def failed_lua(p):
    # building the key's table can only fail for lack of memory; the handler is then given nil
    for e in lua_events(p):
        if ev_call(e, "Chunk::exec", "Chunk::eval", "Table::get", "Function::call") and e.res is not None and p.facts.get(mk("variant", e.res)) == "Err":
            return e
    return None


def exec_(ctx, m, p, res, err, code, client, P, me):
    loads = [e for e in p.events if ev_call(e, "Context::load") and same(strip_at(e.args[1]), P)]
    runs = [e for e in p.events if ev_call(e, "Chunk::exec") and loads and e.args[0] is loads[0].res]
    failed = failed_lua(p)
    if failed is not None:
        SEEN[(m, "fail")] = 1
        if code != 1:
            ctx.violation("exec:fail", "a failing script is answered with %s, not code 1"
                          % ("a result" if err is None else "code %s" % code), failed.where())
        return
    SEEN[(m, "ok")] = 1
    if err is not None:
        ctx.violation("exec:ok", "a script which succeeded is answered with an error")
    if len(loads) != 1 or len(runs) != 1:
        ctx.violation("exec:run", "the script of an exec request is run %d times" % len(runs), "", trail(p))
