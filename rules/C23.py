"""Menus.  The registry of menus, the lists they offer, the actions of their entries, and what is shown of them are interpreted
on every path.  Every menu is registered under its own name; every entry of the first menu opens a menu that is registered,
filled anew, for its client, or performs its operation; the entries of the other menus perform theirs, with the choice, for the
client.  The lists hold what they should, each entry choosable by what it shows; what is shown of a menu are the entries that
match the search, and their texts in full."""
from common import *
from coremodel import model, same, strip
import re

OPS = {
    "open": ("edit", lambda c, k: [c, k, mk("bool", False)]),
    "scratch": ("edit", lambda c, k: [c, k, mk("bool", True)]),
    "view_select": ("view", lambda c, k: [c, k]),
    "view_add": ("add_to_current_view", lambda c, k: [c, k]),
    "view_remove": ("remove_from_current_view", lambda c, k: [c, k]),
    "exec": ("exec", None),
    "quit": ("remove_client", lambda c, k: [c]),
    "view_delete": ("delete_current_view", lambda c, k: [c]),
}
FIRST = ("open", "scratch", "view_select", "view_add", "view_remove", "exec", "quit", "view_delete")
MENU = "ced::editor::menu::"


def check(ctx):
    reg = registry(ctx)
    if reg is None:
        return
    for k, (menu, where) in sorted(reg.items()):
        ctx.count("menus")
        if text(getf(menu, "command")) != k:
            ctx.violation("command:" + k, "the menu %r is shown under the name %s" % (k, getf(menu, "command")), where)
        src = next((strip(x) for x in subterms(menu) if x.op == "agg" and x.a[2] in ("Provider", "Prompt")), None)
        if src is None:
            ctx.violation("source:" + k, "cannot be shown: what the menu %r offers" % k, where)
            continue
        if src.a[2] == "Prompt":
            fns = [x for _, x in src.a[3] if callable_(ctx, x)]
            action(ctx, k, k, fns[0], reg, prompt=True)
        else:
            offers(ctx, k, next(x for _, x in src.a[3] if callable_(ctx, x)), reg)
    for k in FIRST:
        if OPS[k][0] not in ("remove_client", "delete_current_view"):
            ctx.need(k in reg, "menu:" + k, "the menu %s exists" % k)
    ctx.need("" in reg, "menu:", "the first menu exists")
    find(ctx)
    filled(ctx)
    shown(ctx)


def text(t):
    t = strip(t) if isinstance(t, T) else t
    return t.a[0] if isinstance(t, T) and t.op == "str" else None


def callable_(ctx, t):
    t = strip(t)
    return t.op in ("closure", "fn") or t.op == "agg" and t.a[0] == "closure"


def registry(ctx):
    fs = [f for f in ctx.F.real() if re.match(r".*HashMap<[^<]*String, [^<]*::Menu, ", f["locals"][0][0])]
    fs = [f for f in fs if not any(f["id"] != g["id"] and f["path"].startswith(g["path"] + "::") for g in fs)]
    out = {}
    for f in fs:
        E = Engine(ctx.F, iters=12)
        ps = [p for p in E.run(f) if p.status == "return"]
        ctx.saw(*E.fns_seen)
        for p in ps:
            for e in p.events:
                if ev_call(e, "HashMap::insert") and len(e.args) == 3 and strip(e.args[2]).op == "agg":
                    k = text(e.args[1])
                    if k is None:
                        ctx.violation("registry", "cannot be shown: under which name a menu is registered", e.where())
                        return None
                    out[k] = (strip(e.args[2]), e.where())
            for t in subterms(p.ret):
                if t.op == "agg" and t.a[0] == "tuple" and len(t.a[3]) == 2 and text(t.a[3][0][1]) is not None and strip(t.a[3][1][1]).op == "agg":
                    out[text(t.a[3][0][1])] = (strip(t.a[3][1][1]), f["path"])
    return out if ctx.need(len(out) >= 7, "registry", "the menus are registered (%d of 7)" % len(out)) else None


def engine(ctx, **kw):
    E = Engine(ctx.F, **kw)
    return E


def offers(ctx, name, provider, reg):
    """the entries of a menu"""
    f = fn_of(ctx, provider)
    E = Engine(ctx.F, iters=2, maxpaths=60000, keep_elems=True, rounds=lambda t: 2 if "Walk" in show(t)[:40] else 1,
               purefns=lambda g: (g.get("impl_self") or "").endswith("::View"))
    ps = [p for p in E.run(f)]
    ctx.saw(*E.fns_seen)
    info = next(E.argterm(f, i) for i in range(f["args"]) if "EditorInfo" in f["locals"][i + 1][0])
    for p in ps:
        if p.status != "return":
            continue
        es = listed(p.ret)
        if es is None:
            ctx.violation("entries:" + name, "cannot be shown: the entries of the menu %r" % name, f["path"], trail(p))
            return
        ctx.count("lists")
        if name == "":
            keys = [text(getf(x, "key")) for x in es]
            for k in FIRST:
                if keys.count(k) != 1:
                    ctx.violation("first:" + k, "the first menu has %d entries %r" % (keys.count(k), k), f["path"])
            for x in es:
                ctx.count("first_entries")
                k = text(getf(x, "key"))
                if k is None:
                    ctx.violation("first", "cannot be shown: what an entry of the first menu is", f["path"])
                    continue
                action(ctx, "", k, getf(x, "action"), reg)
            continue
        for x in es:
            k, l = strip(getf(x, "key")), strip(getf(x, "label"))
            if not same(k, l):
                ctx.violation("label:" + name, "an entry of the menu %r is shown as %s but chosen as %s" % (name, l, k), f["path"], trail(p))
            action(ctx, name, name, getf(x, "action"), reg, key=k)
        content(ctx, name, p, es, info, f)


_done = set()


def action(ctx, menu, entry, t, reg, prompt=False, key=None):
    f = fn_of(ctx, t)
    if f is None:
        ctx.violation("action:%s:%s" % (menu, entry), "cannot be shown: what the entry does", "core/src/editor/command.rs")
        return
    if (menu, entry, f["id"]) in _done:
        return
    _done.add((menu, entry, f["id"]))
    ctx.count("actions")
    E = Engine(ctx.F, opaque=[CORE, MENU + "*"], iters=1)
    ps = [p for p in E.run(f) if p.status in ("return", "panic")]
    ctx.saw(*E.fns_seen)
    off = f["args"] - 3
    key, editor, client = [E.argterm(f, off + i) for i in range(3)]
    op, want = OPS.get(entry, (None, None))
    sub = menu == "" and op not in ("remove_client", "delete_current_view")
    tag = "%s:%s" % (menu, entry)
    what = "the entry %r of the first menu" % entry if menu == "" else "a choice of the menu %r" % menu
    did = 0
    for p in ps:
        calls = core_calls(p)
        notes = [e for e in p.events if ev_call(e, "Notifier::notify", "Notifier::broadcast")]
        if p.status == "panic":
            if sub and entry in reg and not_there(p, key):
                continue        # the menu is registered
            continue            # (C07)
        if sub:
            if entry not in reg:
                ctx.violation("unknown:" + tag, "%s opens a menu that does not exist" % what, f["path"])
                return
            if calls:
                ctx.violation("op:" + tag, "%s performs %s" % (what, calls[0][0]), calls[0][1].where())
            if len(notes) != 1 or not same(notes[0].args[1], client):
                ctx.violation("shown:" + tag, "%s does not show its menu once, to its client" % what, f["path"], trail(p))
                continue
            tp = [x for x in subterms(notes[0].args[2]) if is_call(x, "Menu::to_notification_params")]
            if len(tp) != 1 or not the_menu(tp[0].a[1][0], key) or text(tp[0].a[1][1]) != "":
                ctx.violation("content:" + tag, "%s does not show the menu of that name, with an empty search" % what, notes[0].where())
            pop = [x for x in p.events if ev_call(x, "Menu::populate") and the_menu(x.args[0], key) and x.seq < notes[0].seq]
            if not pop:
                ctx.violation("populate:" + tag, "%s shows a menu that was not filled anew" % what, notes[0].where(), trail(p))
            did += 1
            continue
        if notes:
            ctx.violation("notes:" + tag, "%s notifies a client by itself" % what, notes[0].where())
        if op == "exec":
            loads = [e for e in p.events if ev_call(e, "Context::load") and same(strip_at(e.args[1]), key)]
            runs = [e for e in p.events if ev_call(e, "Chunk::exec") and any(e.args[0] is l.res for l in loads)]
            failed = [e for e in p.events if e.kind == "call" and norm(e.name).startswith("rlua::") and e.res is not None and p.facts.get(mk("variant", e.res)) == "Err"]
            if not failed and len(runs) != 1:
                ctx.violation("op:" + tag, "%s does not run the script once" % what, f["path"], trail(p))
            result(ctx, tag, what, p, "Err" if failed else "Ok", f)
            did += not failed
            continue
        if op is None:
            ctx.violation("entry:" + tag, "%s is not part of the vocabulary" % what, f["path"])
            return
        if [n for n, _ in calls] != [op]:
            ctx.violation("op:" + tag, "%s performs %s instead of %s" % (what, [n for n, _ in calls] or "nothing", op), f["path"], trail(p))
            continue
        e = calls[0][1]
        w = want(client, key)
        got = list(e.args[1:])
        if len(w) != len(got) or not all(same(strip_at(a), strip_at(b)) for a, b in zip(w, got)):
            ctx.violation("args:" + tag, "%s performs %s with (%s), not (%s)" % (what, op, ", ".join(map(show, got)), ", ".join(map(show, w))), e.where())
        if op == "remove_client" and not [x for x in p.events if ev_call(x, "::insert") and any(same(a, client) for a in x.args)]:
            ctx.violation("quit", "%s does not mark the client as stopped" % what, e.where())
        st = p.facts.get(mk("variant", e.res)) if e.res is not None else None
        result(ctx, tag, what, p, "Err" if st == "Err" else "Ok", f)
        did += 1
    if not did:
        ctx.violation("never:" + tag, "%s never does it" % what, f["path"])


def result(ctx, tag, what, p, want, f):
    r = strip(p.ret)
    got = r.a[2] if r.op == "agg" else p.facts.get(mk("variant", p.ret))
    if got is not None and got != want:
        ctx.violation("result:" + tag, "%s answers %s although its operation was %s" % (what, got, "refused" if want == "Err" else "performed"), f["path"], trail(p))


def not_there(p, key):
    return any(q.op == "pure" and q.a[0] == "has" and same(q.a[2], key) and v is False for q, v in p.facts.items())


def the_menu(t, key):
    t = strip(strip_at(t))
    return t.op == "idx" and same(t.a[1], key)


def fn_of(ctx, t):
    t = strip(t)
    for c in (t.a if t.op != "agg" else t.a[:3]):
        if isinstance(c, str):
            g = ctx.F.fns.get(c) or ctx.F.by_path.get(c)
            if isinstance(g, list):
                g = g[0] if g else None
            if g:
                return g
    return None


def listed(t):
    t = strip(t)
    if t.op == "list":
        return [strip(x) for x in t.a[0]]
    if t.op == "agg" and t.a[0] == "array":
        return [strip(x) for _, x in t.a[3]]
    if t.op == "agg" and len(t.a[3]) == 1:
        return listed(t.a[3][0][1])
    return None


def content(ctx, name, p, es, info, f):
    """what the list of a menu holds"""
    keys = [strip(getf(x, "key")) for x in es]
    its = [e for e in p.events if e.kind == "iter"]
    if name in ("view_add", "view_remove"):
        want = [e.args[1] for e in its if same(strip_at(e.args[0]), absint.field(info, "buffers"))]
        if len(want) != len(keys) or not all(same(a, b) for a, b in zip(want, keys)):
            ctx.violation("list:" + name, "the menu %r does not hold every buffer, once" % name, f["path"], trail(p))
    elif name == "view_select":
        views, buffers = absint.field(info, "views"), absint.field(info, "buffers")
        held = {}
        compared = set()
        for q, v in p.facts.items():
            if q.op == "eq":
                for a, b in (q.a, q.a[::-1]):
                    if of(strip(a), views) and any(of(x, buffers) for x in subterms(b)) and is_key(b):
                        compared.add(strip(a))
                        for x in subterms(b):
                            if of(x, buffers):
                                held[x] = held.get(x, False) or v is True
            if q.op == "pure" and q.a[0] in ("has", "contains") and same(strip_at(q.a[1]), views):
                if v is True and p.facts.get(mk("pure", "is_empty", views)) is True:
                    return
                for x in subterms(q.a[2]):
                    if of(x, buffers) and is_key(q.a[2]):
                        held[x] = v is True
        for e in its:
            x = e.args[1]
            if of(x, views) and x not in compared:
                if sum(same(k, x) for k in keys) != 1:
                    ctx.violation("list:view", "a view is not in the list of views, once", f["path"], trail(p))
            if of(x, buffers):
                n = sum(same(k, x) for k in keys)
                empty = any(q.op == "pure" and q.a[0] == "is_empty" and same(strip_at(q.a[1]), views) and v is True for q, v in p.facts.items())
                if x not in held and not empty and not any(ev.kind == "exhausted" and same(strip_at(ev.args[0]), views) and ev.seq > e.seq for ev in p.events):
                    ctx.violation("list:compare", "a buffer is listed or not without looking whether it is a view", f["path"], trail(p))
                elif n != (0 if held.get(x) else 1):
                    ctx.violation("list:buffer", "a buffer %s in the list of views" % ("that is a view already is once more" if n else "no view shows alone is not"), f["path"], trail(p))
        for k in keys:
            if not of(k, views) and not of(k, buffers):
                ctx.violation("list:view_select", "the list of views holds %s" % k, f["path"], trail(p))
        if len(set(keys)) != len(keys):
            ctx.violation("list:twice", "the list of views holds something twice", f["path"], trail(p))
    elif name == "open":
        walk = next((e for e in p.events if ev_call(e, "Walk::new", "WalkBuilder::new")), None)
        if walk is None or not any(same(x, absint.field(info, "cwd")) for x in subterms(walk.args[0])):
            ctx.violation("list:cwd", "the files listed are not those of the current folder", f["path"], trail(p))
            return
        n = 0
        for e in its:
            x = e.args[1]
            if not any(y is walk.res for y in subterms(x)):
                continue
            mine = [k for k in keys if any(y is x for y in subterms(k))]
            ok = p.facts.get(mk("variant", x))
            dir_ = [v for q, v in p.facts.items() if is_call(q, "is_dir") and any(y is x for y in subterms(q))]
            isf = [v for q, v in p.facts.items() if is_call(q, "is_file") and any(y is x for y in subterms(q))]
            untyped = [q for q, v in p.facts.items() if q.op == "variant" and v == "None" and is_call(strip(q.a[0]), "file_type") and any(y is x for y in subterms(q))]
            named = [v for q, v in p.facts.items() if q.op == "variant" and "to_str" in show(q)[:20] and any(y is x for y in subterms(q))]
            out = ok == "Err" or dir_ == [True] or isf == [False] or untyped or named and named[-1] == "None"
            if bool(mine) == bool(out) or len(mine) > 1:
                ctx.violation("list:file", "a file is %s in the list of files" % ("not once" if not mine or len(mine) > 1 else "unnamed, or a folder, but"), f["path"], trail(p))
            n += len(mine)
            for k in mine:
                rel = next((q for q in p.facts if q.op == "variant" and is_call(strip(q.a[0]), "Path::strip_prefix") and any(y is x for y in subterms(q))), None)
                if rel is None or not any(same(y, absint.field(info, "cwd")) for y in subterms(strip(rel.a[0]).a[1][1])):
                    ctx.violation("list:relative", "a file is not listed by its path in the current folder", f["path"], trail(p))
                elif p.facts[rel] == "Ok" and not any(y is strip(rel.a[0]) for y in subterms(k)):
                    ctx.violation("list:relative", "a file is not listed by its path in the current folder", f["path"], trail(p))
        if n != len(keys):
            ctx.violation("list:other", "the list of files holds what is no file", f["path"], trail(p))


def of(t, coll):
    return t.op == "elem" and same(strip_at(t.a[0]), coll)


def is_key(t):
    return any(x.op == "pure" and re.search(r"(^|::)key$", str(x.a[0])) for x in subterms(t))


def find(ctx):
    """looking an entry up by its key"""
    fs = [f for f in ctx.F.real() if f["path"] == MENU + "Menu::get"]
    if not ctx.need(len(fs) == 1, "get", "entries are looked up"):
        return
    E = Engine(ctx.F, iters=2)
    got = set()
    f = fs[0]
    key = E.argterm(f, 1)
    for p in E.run(f):
        if p.status != "return":
            ctx.violation("get:fails", "looking for an entry can fail", f["path"])
            continue
        r = strip(p.ret)
        st = r.a[2] if r.op == "agg" else p.facts.get(mk("variant", p.ret))
        eq = {}
        for q, v in p.facts.items():
            if q.op == "eq":
                for a, b in (q.a, q.a[::-1]):
                    if same(b, key):
                        eq[strip(a)] = v
        its = [e.args[1] for e in p.events if e.kind == "iter"]
        st_eq = [next((v for a, v in eq.items() if same(a, absint.field(x, "key"))), None) for x in its]
        ctx.count("lookups")
        if None in st_eq:
            ctx.violation("get:key", "an entry is not looked up by its key", f["path"], trail(p))
        elif (st == "Some") != (True in st_eq) or st == "Some" and not any(same(y, its[st_eq.index(True)]) for y in subterms(r)):
            ctx.violation("get", "the entry found is not the one with the key", f["path"], trail(p))
        got.add(st)
    ctx.need(got == {"Some", "None"}, "get:cases", "an entry is found or not")
    ctx.saw(*E.fns_seen)


def filled(ctx):
    """what menus are filled from, and what filling does"""
    n = 0
    paths = []
    for m, p in requests(ctx):
        paths.append(p)
    for f in ctx.F.real():
        if "EditorInfo" in str(f["locals"]) and f["path"].startswith("ced::editor::command::") and f["kind"] != "Closure":
            E = Engine(ctx.F, opaque=[CORE, MENU + "*"], iters=1)
            try:
                paths += E.run(f)
            except Exception:
                pass
    for p in paths:
        for e in p.events:
            if ev_call(e, "Menu::populate"):
                n += 1
                i = strip(e.args[1])
                for fld in ("buffers", "views"):
                    t = getf(i, fld)
                    c = [x for x in subterms(t) if is_call(x, "Core::" + fld)] if isinstance(t, T) else []
                    if not c:
                        ctx.violation("info:" + fld, "a menu is not filled from the %s of the editor" % fld, e.where())
                t = getf(i, "cwd")
                if not isinstance(t, T) or not any("current_dir" in show(x) or is_call(x, "::cwd") or x.op == "field" and x.a[1] == "cwd" for x in subterms(t)):
                    ctx.violation("info:cwd", "a menu is not filled from the current folder", e.where())
    ctx.count("fillings", n)
    ctx.need(n, "fillings", "menus are filled")
    f = next((f for f in ctx.F.real() if f["path"] == MENU + "Menu::populate"), None)
    if not ctx.need(f, "populate", "menus are filled"):
        return
    E = Engine(ctx.F, iters=1, stores=True)
    me, info = E.argterm(f, 0), E.argterm(f, 1)
    got = set()
    for p in E.run(f):
        if p.status != "return":
            continue
        v = p.facts.get(mk("variant", absint.field(me, "source")))
        calls = [e for e in p.events if ev_call(e, "callptr")]
        put = [e for e in p.events if e.kind in ("store", "write") and "entries" in show(e.args[0])]
        val = put[-1].args[1] if put and len(put[-1].args) > 1 else p.mem.get(absint.field(me, "entries")) if hasattr(p.mem, "get") else None
        got.add(v)
        if v == "Provider":
            if len(calls) != 1 or not same(calls[0].args[1], info) or not any("source" in show(x) for x in subterms(calls[0].args[0])):
                ctx.violation("populate:Provider", "a menu is not filled with what it offers", f["path"], trail(p))
            elif put and not any(x is calls[0].res for t in put[-1].args for x in subterms(t) if isinstance(t, T)):
                ctx.violation("populate:kept", "what a menu offers is not what it is filled with", f["path"], trail(p))
            if not put:
                ctx.violation("populate:kept", "what a menu offers is not what it is filled with", f["path"], trail(p))
        elif v == "Prompt":
            es = [x for t in (put[-1].args if put else ()) if isinstance(t, T) for x in subterms(t) if x.op == "agg" and str(x.a[1]).endswith("MenuEntry")]
            if len(es) != 1 or text(getf(es[0], "key")) != "" or not any("source" in show(x) for x in subterms(getf(es[0], "action"))):
                ctx.violation("populate:Prompt", "a prompt does not have its one entry", f["path"], trail(p))
    ctx.need(got >= {"Prompt", "Provider"}, "populate:cases", "prompts and lists are filled")
    ctx.saw(*E.fns_seen)


def shown(ctx):
    """what is shown of a menu"""
    f = next((f for f in ctx.F.real() if f["path"] == MENU + "Menu::to_notification_params"), None)
    if not ctx.need(f, "shown", "menus are shown"):
        return
    E = Engine(ctx.F, iters=2, maxpaths=60000, rounds=lambda t: 2 if "split" in show(t) or "Range" in show(t)[:6] else 1)
    me, search = E.argterm(f, 0), E.argterm(f, 1)
    patterns = {}
    lists = set()
    for p in E.run(f):
        if p.status == "panic":
            continue            # (C07)
        if p.status != "return":
            continue
        r = strip(p.ret)
        ctx.count("shown_paths")
        for n in ("command", "title"):
            if not same(getf(r, n), absint.field(me, n)):
                ctx.violation("shown:" + n, "a menu is shown with another %s" % n, f["path"], trail(p))
        if not same(getf(r, "search"), search):
            ctx.violation("shown:search", "a menu is shown with another search", f["path"], trail(p))
        es = listed(getf(r, "entries"))
        if es is None:
            ctx.violation("shown:entries", "cannot be shown: the entries shown", f["path"], trail(p))
            continue
        kind = p.facts.get(mk("variant", absint.field(me, "source")))
        lists.add(kind)
        if kind == "Prompt":
            want = [e.args[1] for e in p.events if e.kind == "iter" and same(strip_at(e.args[0]), absint.field(me, "entries"))]
            ok = len(want) == len(es)
            for x, w in zip(es, want):
                ok = ok and same(getf(x, "value"), absint.field(w, "key")) and same(getf(x, "description"), absint.field(w, "description")) \
                    and [y for y in subterms(getf(x, "text")) if same(y, absint.field(w, "label"))]
            if not ok:
                ctx.violation("shown:prompt", "a prompt is not shown with its text", f["path"], trail(p))
            continue
        matching(ctx, p, f, me, search, es, patterns)
    ctx.need(lists >= {"Prompt", "Provider"}, "shown:cases", "prompts and lists are shown")
    for pat, (n, where) in sorted(patterns.items()):
        ctx.count("patterns")
        judge(ctx, pat, n, where)
    ctx.need(len(patterns) >= 3, "patterns", "searches of no, one and two words")
    ctx.saw(*E.fns_seen)


def matching(ctx, p, f, me, search, es, patterns):
    sorts = [e for e in p.events if e.kind == "call" and re.search(r"::sort\w*$", norm(e.name))]
    res = [e for e in p.events if ev_call(e, "Regex::new", "RegexBuilder::new")]
    if len(sorts) != 1 or len(res) != 1:
        ctx.violation("filter", "cannot be shown: which entries match", f["path"], trail(p))
        return
    cands = listed(sorts[0].args[0])
    items = [e.args[1] for e in p.events if e.kind == "iter" and same(strip_at(e.args[0]), absint.field(me, "entries"))]
    if cands is None or len(cands) != len(items):
        ctx.violation("filter:each", "not every entry of a menu is searched, once", f["path"], trail(p))
        return
    for c, i in zip(cands, items):
        ctx.count("candidates")
        if not same(getf(c, "object"), i):
            ctx.violation("filter:entry", "a candidate is not an entry of the menu", f["path"], trail(p))
            continue
        caps = [e for e in p.events if e.kind == "call" and re.search(r"Regex::captures_read$|Regex::captures$|Regex::is_match$|Regex::find$", norm(e.name))
                and any(same(y, absint.field(i, "label")) for a in e.args for y in subterms(a))]
        if len(caps) != 1 or not any(same(y, res[0].res) for y in subterms(caps[0].args[0])):
            ctx.violation("filter:label", "an entry is not searched by its text", f["path"], trail(p))
            continue
        st = p.facts.get(mk("variant", caps[0].res))
        sc = strip(getf(c, "score"))
        got = sc.a[2] if sc.op == "agg" else p.facts.get(mk("variant", sc), st)
        if got != st or st is None and not any(y is caps[0].res for y in subterms(sc)):
            ctx.violation("filter:score", "an entry counts as matching although it does not, or not although it does", caps[0].where(), trail(p))
    words = [e.args[1] for e in p.events if e.kind == "iter" and e.seq < res[0].seq and "split" in show(e.args[0]) and any(same(y, search) for y in subterms(e.args[0]))]
    srcs = [e.args[0] for e in p.events if e.kind in ("iter", "exhausted") and e.seq < res[0].seq and "split" in show(e.args[0]) and any(same(y, search) for y in subterms(e.args[0]))]
    for t in srcs:
        if not any(y.op == "pure" and (y.a[0] in ("split_whitespace", "split_ascii_whitespace") or y.a[0] == "split" and "whitespace" in show(y)) for y in subterms(t)):
            ctx.violation("words", "a search is not split at white space", f["path"], trail(p))
    try:
        pat = pattern(res[0].args[0], words)
        patterns[pat] = (len(words), res[0].where())
    except ValueError as x:
        ctx.violation("pattern", "cannot be shown: what a search matches: %s" % x, res[0].where(), trail(p))
    # what of the candidates is shown
    cs = [e.args[1] for e in p.events if e.kind == "iter" and e.seq > sorts[0].seq and e.args[1].op == "elem"
          and (fact(p, mk("variant", absint.field(e.args[1], "score"))) is not None)]
    want = [c for c in cs if p.facts.get(mk("variant", absint.field(c, "score"))) == "Some"]
    if len(want) != len(es):
        ctx.violation("shown:matching", "not exactly the entries that match are shown", f["path"], trail(p))
        return
    for c, x in zip(want, es):
        o = absint.field(c, "object")
        if not same(getf(x, "value"), absint.field(o, "key")) or not same(getf(x, "description"), absint.field(o, "description")):
            ctx.violation("shown:value", "an entry is shown with the key or description of another", f["path"], trail(p))
        pieces(ctx, p, f, getf(x, "text"), absint.field(o, "label"))


def pieces(ctx, p, f, t, label):
    """the pieces of a text shown make up the text, and the marked ones are what matched"""
    fr = [y for y in listed(t) or ()]
    pos = mk("int", 0)
    whole = False
    for x in fr:
        ctx.count("pieces")
        s = strip(getf(x, "text"))
        if same(s, label):
            whole = True
            continue
        r = strip(s.a[1]) if s.op == "idx" else None
        if r is None or r.op != "agg" or not same(s.a[0], label):
            ctx.violation("pieces", "a piece shown is not of the text of the entry", f["path"], trail(p))
            return
        d = dict(r.a[3])
        if not same(d.get("start", mk("int", 0)), pos):
            ctx.violation("pieces:gap", "the pieces shown do not follow one another", f["path"], trail(p))
            return
        face = strip(getf(x, "face"))
        mark = face.op == "agg" and face.a[2] == "Match"
        end = d.get("end")
        got = [y for y in (strip(d.get("start", mk("int", 0))), strip(end) if end is not None else pos) if y.op in ("field", "vf")]
        both = len(got) == 2 and same(got[0].a[0], got[1].a[0]) and str(got[0].a[-1]) == "0" and str(got[1].a[-1]) == "1"
        if mark != bool(both):
            ctx.violation("pieces:marked", "what is marked is not what matched", f["path"], trail(p))
            return
        if end is None:
            pos = None
            break
        pos = end
    if pos is None or whole:
        return
    n = None
    for q, v in p.facts.items():
        if q.op in ("lt", "le") and v is False and same(q.a[0], pos) and "len" in show(q.a[1]) and any(same(y, label) for y in subterms(q.a[1])):
            n = True
        if q.op in ("lt", "le") and v is True and same(q.a[1], pos) and q.op == "le" and any(same(y, label) for y in subterms(q.a[0])):
            n = True
        if q.op == "eq" and v is True and any(same(y, pos) for y in q.a) and "len" in show(q):
            n = True
        if q.op == "pure" and q.a[0] == "is_empty" and v is True and (same(q.a[1], label) or strip(q.a[1]).op == "idx" and same(strip(q.a[1]).a[0], label)):
            n = True
    if not n:
        ctx.violation("pieces:end", "the end of a text is not shown", f["path"], trail(p))


def pattern(t, words):
    t = strip(t)
    if t.op == "str":
        return t.a[0]
    if t.op == "fmt":
        return "".join(x if isinstance(x, str) else pattern(x, words) for x in t.a[0])
    if t.op == "pure" and t.a[0] == "join":
        es = listed(t.a[1])
        if es is None:
            raise ValueError(show(t)[:80])
        return pattern(t.a[2], words).join(pattern(x, words) for x in es)
    if is_call(t, "regex::escape"):
        w = strip(t.a[1][0])
        i = next((i for i, x in enumerate(words) if same(x, w)), None)
        if i is not None:
            return "\0%d\0" % i
    raise ValueError(show(t)[:80])


def judge(ctx, pat, n, where):
    """a search matches the texts which have its words, in order, whatever their case"""
    ws = ["a.b", "cd", "e", "fg", "h"][:n]
    r = re.sub("\0(\\d)\0", lambda m: re.escape(ws[int(m.group(1))]), pat)
    try:
        rx = re.compile(r)
    except re.error:
        ctx.violation("pattern", "cannot be shown: what a search matches: %r" % pat, where)
        return
    for s in ("", "a.b", "A.B", "axb", "xa.bycdz", "xA.ByCDz", "cda.b", "cd a.b cd", "a.bcd", "axbcd", "cd", "a.b c d", "a.", "ba.cd", "a.bcde", "ea.bcd", "a.b e cd", "A.B CD E", "a.bcdefgh", "a.bcdehfg"):
        i, want = 0, True
        for w in ws:
            j = s.lower().find(w, i)
            if j < 0:
                want = False
                break
            i = j + len(w)
        m = rx.search(s)
        if bool(m) != want:
            ctx.violation("pattern:%d" % n, "a search for %r %s the text %r" % (" ".join(ws), "matches" if m else "does not match", s), where)
            return
        if m and ([g and g.lower() for g in m.groups()] != ws):
            ctx.violation("marks:%d" % n, "a search for %r marks %r in %r" % (" ".join(ws), m.groups(), s), where)
            return
