from mkseed import seed
SRV = "core/src/server.rs"; CORE = "core/src/editor/core.rs"; MOD = "core/src/editor/mod.rs"
CL = "remote/src/connection.rs"; TUI = "core/src/tui.rs"; CLI = "core/src/clients.rs"; BUF = "core/src/editor/buffer.rs"

seed("c15-reload-same-lines", "C15", [(BUF, """                    self.content.apply_diff(&content);
                    self.last_sync = Some(SystemTime::now());
                    Ok(true)
""", """                    let lines = self.line_count();
                    self.content.apply_diff(&content);
                    self.last_sync.replace(SystemTime::now());
                    Ok(lines != self.content.line_count())
""")], """
def t():
    with Server(files={"f": "0123456789\\n0123456789\\n"}) as s:
        c = s.client()
        c.ok("edit", {"name": "f", "scratch": False})
        c.ok("exec", "editor:move_to_end(tonumber(env.client), false)")
        s.write("f", "01\\n23\\n")
        os.utime(os.path.join(s.cwd, "f"), (time.time() + 60, time.time() + 60))
        c.ok("edit", {"name": "f", "scratch": False})
        c.ok("exec", "local i = editor:get_context(tonumber(env.client)); for _, v in pairs(i.selections) do for _, x in pairs(v) do assert(x.anchor.offset <= 5) end end")
        check(s.alive(), "server ended")


main(t)
""", "a selection near the end of a file that is reloaded with as many lines but less text", "the selection stays beyond the end of the buffer")

seed("c01-menu-select", "C01", [(CL, """        if let Some(menu) = self.state().menu {
            let selected = menu.selected_item();
            let id = self.request_id();
""", """        let state_lock = Arc::clone(&self.state_lock);
        if let Some(menu) = &state_lock.read().unwrap().menu {
            let selected = menu.selected_item();
            let id = self.request_id();
"""), (CL, """            log::warn!("menu_select without active menu");
        }
""", """            log::warn!("menu_select without active menu");
        };
""")], """
F = [{"text": "x", "face": "Default"}]


def t():
    with Peer() as p:
        p.notify("menu", {"command": "open", "title": "t", "search": "a", "entries": [{"value": "x", "text": F, "description": None}]})
        check(p.do("select", timeout=5) == "done", "the choice of an entry does not return")
        r = p.request()
        check(r and r["method"] == "menu-select" and r["params"]["choice"] == "x", "wrong request %r" % r)
        check(p.do("menu") == "none", "menu still open")


main(t)
""", "choosing from an open menu", "the client library waits forever for its own state lock")

seed("c01-bounded-notifications", "C01", [(SRV, """        let (bsender, breceiver) = unbounded();
""", """        let (bsender, breceiver) = bounded(512);
"""), (SRV, "use async_channel::{unbounded, Receiver, Sender};", "use async_channel::{bounded, unbounded, Receiver, Sender};")], """
def t():
    with Server() as s:
        c = s.client()
        c.ok("exec", "editor:debug('a')")
        i = c.send("exec", "for i = 1, 700 do editor:message(tonumber(env.client), 'm' .. i) end")
        n = 0
        while True:
            e = c.event(10)
            check(e is not None, "no answer to the script, the server hangs")
            if e.get("id") == i and "method" not in e:
                break
        check(s.alive(), "server ended")
        c.ok("exec", "editor:debug('b')")


main(t)
""", "one request that causes more notifications than the channel holds", "the server blocks on the channel its own thread should empty")

seed("c05-empty-status", "C05", [(CL, """                    .map(|params| {
                        self.status = params;
                        ConnectionEvent::Status(self.status.clone())
""", """                    .map(|params| {
                        if !params.is_empty() {
                            self.status = params;
                        }
                        ConnectionEvent::Status(self.status.clone())
""")], """
F = [{"text": "x", "face": "Default"}]


def t():
    with Peer() as p:
        p.notify("status", [{"index": 0, "text": F}])
        check(p.do("state").count('text: "x"') == 1, "status not kept")
        p.notify("status", [])
        check(p.do("state").count('text: "x"') == 0, "status of before")


main(t)
""", "a status without any item after one with items", "the client keeps the former status")

seed("c05-menu-selection-kept", "C05", [(CL, """                        self.menu = Some(Menu {
                            command: params.command,
                            title: params.title,
                            search: params.search,
                            entries: params.entries,
                            selected: 0,
                        });
""", """                        let selected = match &self.menu {
                            Some(menu) if menu.search == params.search => menu.selected,
                            _ => 0,
                        };
                        self.menu = Some(Menu {
                            command: params.command,
                            title: params.title,
                            search: params.search,
                            entries: params.entries,
                            selected,
                        });
""")], """
F = [{"text": "x", "face": "Default"}]


def t():
    with Peer() as p:
        m = {"command": "a", "title": "t", "search": "", "entries": [{"value": v, "text": F, "description": None} for v in "xyz"]}
        p.notify("menu", m)
        check(p.do("next", "next", "menu") == "a||2|3", "selection")
        p.notify("menu", dict(m, command="b", entries=m["entries"][:1]))
        check(p.do("menu") == "b||0|1", "selection of a new menu")


main(t)
""", "a menu replaced by another one with the same search while a later entry is selected", "the new menu starts with another entry selected, even one it does not have")

seed("c16-any-view-of-buffer", "C16", [(CORE, """            let view = View::for_buffer(view_id);
            let key = view.key();
""", """            let view = View::for_buffer(view_id);
            let key = lock!(self)
                .views
                .values()
                .find(|v| v.borrow().contains_buffer(view_id))
                .map_or_else(|| view.key(), |v| v.borrow().key());
""")], """
def t():
    with Server(files={"f": "ab\\n", "g": "cd\\n"}) as s:
        c = s.client()
        c.ok("edit", {"name": "f", "scratch": False})
        c.ok("edit", {"name": "g", "scratch": False})
        c.ok("view-add", "f")
        for b in "fg":
            c.drain(0.2)
            c.ok("view", b)
            v = views(c.seen + c.drain(0.3))
            check(v and [x["buffer"] for x in v[-1]] == [b], "view of %s shows %r" % (b, [x["buffer"] for x in v[-1]]))


main(t)
""", "a buffer shown in a view with others, and a client that asks for that buffer by its name", "the client is shown other buffers as well")

seed("c24-backspace-bytes", "C24", [(TUI, """                    let mut search = menu.search;
                    search.pop();
                    self.do_menu(&menu.command, &search)
""", """                    let mut search = menu.search;
                    if !search.is_empty() {
                        search.truncate(search.len() - 1);
                    }
                    self.do_menu(&menu.command, &search)
""")], """
def t():
    with Tui() as p:
        p.type("\\x06")
        check(p.request("menu")["params"]["search"] == "", "no menu")
        p.menu("open", "é")
        p.type("\\x7f")
        r = p.request("menu")
        check(r and r["params"]["search"] == "", "backspace asks for %r" % r)


main(t)
""", "backspace after a character that is not ASCII", "the terminal client ends")

seed("c29-stop-at-junk", "C29", [(CLI, """                            Err(e) => log::error!("invalid message: {}: {}", e, line),
""", """                            Err(e) => {
                                log::error!("invalid message: {}: {}", e, line);
                                break;
                            }
""")], """
def t():
    with Server() as s:
        p = subprocess.Popen([BIN, "-m", "json", "-s", s.session], cwd=s.cwd, env=s.env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        try:
            p.stdin.write(b'junk\\n{"jsonrpc":"2.0","id":77,"method":"exec","params":"editor:debug(1)"}\\n')
            p.stdin.flush()
            import threading
            threading.Timer(10, p.kill).start()
            while True:
                l = p.stdout.readline()
                check(l, "no response to a request after a line that is none")
                if json.loads(l).get("id") == 77:
                    break
        finally:
            p.kill()
            p.wait()


main(t)
""", "a line that is no request among requests", "no request is relayed after it")

seed("c31-ids-wrap", "C31", [(CL, """        self.next_request_id += 1;
""", """        self.next_request_id = (self.next_request_id + 1) % 100;
""")], """
def t():
    with Peer() as p:
        seen = set()
        for i in range(150):
            p.do("exec %d" % i)
            r = p.request()
            check(r["id"] not in seen, "number %r used again" % r["id"])
            seen.add(r["id"])


main(t)
""", "more than a hundred requests on one connection", "numbers of requests are used again")
