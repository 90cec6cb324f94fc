from mkseed import seed
SRV = "core/src/server.rs"; CORE = "core/src/editor/core.rs"; MOD = "core/src/editor/mod.rs"

seed("c12-shown-by-clients", "C12", [(CORE, """                if view.borrow().buffers().iter().any(|&b| b == buffer) {
""", """                if view.borrow().buffers().first() == Some(&buffer) {
""")], """
def t():
    with Server() as s:
        c = s.client()
        c.ok("edit", {"name": "a", "scratch": True})
        c.ok("view-add", "*scratch*")
        c.ok("edit", {"name": "b", "scratch": True})
        c.ok("view-add", "*scratch*")
        c.ok("view-delete")
        check(s.alive(), "server ended")
        c.ok("view", "*scratch*")
        check(s.alive(), "server ended")


main(t)
""", "a buffer shared between the view that is deleted and one no client currently shows", "the buffer is dropped while a view still shows it")

seed("c12-order-of-selections", "C12", [(CORE, """            if !new_view.is_empty() {
                for (_id, context)""", """            if !new_view.is_empty() {
                self.add_view(new_view.clone());
                for (_id, context)"""), (CORE, """                    }
                }
                self.add_view(new_view);
            }
""", """                    }
                }
            }
""")], """
def t():
    with Server() as s:
        c = s.client()
        c.ok("edit", {"name": "a", "scratch": True})
        c.ok("edit", {"name": "b", "scratch": True})
        c.ok("exec", "editor:append_to('a', '123')")
        c.ok("exec", "editor:append_to('b', '456')")
        c.ok("view-add", "a")
        c.ok("exec", "local n = 0; for _ in pairs(editor:get_context(tonumber(env.client)).selections) do n = n + 1 end; assert(n == 2)")


main(t)
""", "view-add of a buffer the current view does not show", "the client has no selection in the added buffer")

seed("c13-not-renewed", "C13", [("core/src/stackmap.rs", """        self.set_last(kp).unwrap();
""", """        if old.is_none() {
            self.set_last(kp).unwrap();
        }
""")], """
def t():
    with Server() as s:
        c = s.client()
        for n in ("a", "b", "a", "c"):
            c.ok("edit", {"name": n, "scratch": True})
        c.ok("exec", "editor:append_to('a', 'aaa')")
        c.ok("view-delete")
        evs = c.drain(0.3)
        v = views(evs)
        check([x["buffer"] for x in v[-1]] == ["a"], repr(v[-1])[:300])


main(t)
""", "a view that was opened again before another one is deleted", "the deleted view is replaced by one that was opened earlier")

seed("c14-last-selection-decides", "C14", [(CORE, "                moved |= s != original;\n", "                moved = s != original;\n")], """
def t():
    with Server() as s:
        c = s.client()
        c.ok("edit", {"name": "a", "scratch": True})
        c.ok("edit", {"name": "b", "scratch": True})
        c.ok("exec", "editor:append_to('a', 'aaaa')")
        c.ok("exec", "editor:append_to('b', 'bbbb')")
        c.ok("view-add", "a")
        # put the cursor of one buffer at its end, the other one stays behind
        c.ok("exec", "editor:move_to_end(tonumber(env.client))")
        c.ok("exec", "editor:append_to('%s', 'x')" % PICK)
        c.drain(0.3)
        c.ok("exec", "editor:move_right(tonumber(env.client))")
        v = views(c.drain(0.3))
        check(v, "the cursor moved in one buffer and no view was sent")


def both():
    global PICK
    for PICK in ("a", "b"):
        for _ in range(6):
            t()


main(both)
""", "a view of two buffers in one of which the cursor cannot move", "the client is not sent the view although a selection moved")

seed("c14-first-buffer", "C14", [(CORE, """                if ctx.view.borrow().contains_buffer(name) {
""", """                if ctx.view.borrow().buffers().first().map_or(false, |b| *b == name) {
""")], """
def t():
    with Server() as s:
        a = s.client()
        a.ok("edit", {"name": "a", "scratch": True})
        a.ok("edit", {"name": "b", "scratch": True})
        a.ok("view-add", "a")
        b = s.client()
        b.ok("view", "*scratch*")
        a.drain(0.3)
        for n in ("a", "b"):
            b.ok("exec", "editor:append_to('%s', 'text')" % n)
            v = views(a.drain(0.3))
            check(v, "the client that shows %s is not sent its view" % n)


main(t)
""", "a change of a buffer that is not the first one of the view of another client", "that client is not sent its view")
