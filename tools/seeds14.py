from mkseed import seed
V = "core/src/editor/view.rs"; C = "core/src/editor/core.rs"
seed("c39-tabs", "C39", [(V, 'let l = line.to_owned() + " ";', 'let l = line.replace(\'\\t\', "    ") + " ";')], '''
def f():
    with Server() as s:
        c = s.client()
        c.ok("edit", {"name": "a", "scratch": True})
        c.ok("exec", "editor:append_to('a', 'x\\\\ty\\\\n')")
        v = views(c.seen + c.drain())[-1]
        check("x\\ty" in text(v, "a"), "lines shown: %s" % text(v, "a"))
main(f)
''', "a line of a buffer with a tab in it", "the view shows another text than the buffer's, and the marks of selections behind the tab are off")
seed("c39-middle-lines", "C39", [(V, "                                        (None, None)", "                                        (Some(start.1), None)")], '''
def f():
    with Server() as s:
        c = s.client()
        c.ok("edit", {"name": "a", "scratch": True})
        c.ok("exec", "editor:append_to('a', 'abcdef\\\\nghijkl\\\\nmnopqr\\\\nstuvwx\\\\n')")
        c.drain()
        me = "local me = tonumber(env.client) "
        c.ok("exec", me + "editor:move_to_begin(me, false) editor:move_right(me, false) editor:move_right(me, false) editor:move_right(me, false) editor:move_down(me, true) editor:move_down(me, true)")
        v = views(c.seen + c.drain())[-1]
        got = [x for x in selected(v, "a") if x]
        check(len(got) == 3 and len(got[1]) == 7, "marked: %s" % got)
main(f)
''', "a selection of three lines or more that begins behind the first column", "the lines between the first and the last are marked from the column where the first begins")
seed("c39-key-of-first", "C39", [(C, """        let params = clients
            .iter()
            .map(|id| {
                let view = state.clients[&id].view.borrow();
                let sels = state.clients[&id].selections.get(&view.key());""", """        let key = clients
            .first()
            .map(|id| state.clients[id].view.borrow().key())
            .unwrap_or_default();
        let params = clients
            .iter()
            .map(|id| {
                let view = state.clients[&id].view.borrow();
                let sels = state.clients[&id].selections.get(&key);""")], '''
def f():
    with Server() as s:
        c, d = s.client(), s.client()
        c.ok("edit", {"name": "a", "scratch": True})
        d.ok("edit", {"name": "b", "scratch": True})
        d.ok("view-add", "a")
        c.ok("exec", "editor:append_to('a', 'xxx')")
        d.ok("exec", "local me = tonumber(env.client) editor:move_to_begin(me, false) editor:move_to_end(me, true)")
        before = [selected(views(x.seen + x.drain())[-1], "a") for x in (c, d)]
        check(before[0] != before[1], "different selections: %s" % before)
        c.ok("exec", "editor:append_to('a', 'more')")
        after = [selected(views(x.seen + x.drain())[-1], "a") for x in (c, d)]
        check("".join(before[0]) == "".join(after[0]) and "".join(before[1]) == "".join(after[1]), "each keeps its own selection: %s %s" % (before, after))
main(f)
''', "two clients whose different views show the same buffer, which changes", "the view of one is rendered with the other's key, without its selections")
