from mkseed import seed
SRV = "core/src/server.rs"; CORE = "core/src/editor/core.rs"; MOD = "core/src/editor/mod.rs"

seed("c03-blank-lines", "C03", [(SRV, """            log::trace!("read event for {}: {:?}", client_id, line);
            sender
""", """            log::trace!("read event for {}: {:?}", client_id, line);
            if line.as_ref().map(|l| l.trim().is_empty()).unwrap_or(false) {
                continue;
            }
            sender
""")], """
def t():
    with Server() as s:
        c = s.client()
        c.ok("edit", {"name": "a", "scratch": True})
        c.raw("  \\n")
        r = c.response(3)
        check(r.get("error", {}).get("code") == -32600 and r["id"] is None, repr(r))
        c.ok("view", "a")


main(t)
""", "a request line that holds only blanks", "the line gets no response")

seed("c06-shared-rendering", "C06", [(CORE, """                let sels = state.clients[&id].selections.get(&view.key());
                (*id, view.to_notification_params(&state.buffers, sels))
""", """                let key = view.key();
                let owner = clients
                    .iter()
                    .find(|c| state.clients[c].view.borrow().key() == key)
                    .unwrap_or(id);
                let sels = state.clients[owner].selections.get(&key);
                (*id, view.to_notification_params(&state.buffers, sels))
""")], """
def t():
    with Server() as s:
        a = s.client(); a.until("info")
        b = s.client(); b.until("info")
        a.ok("edit", {"name": "x", "scratch": True})
        b.ok("view", "x")
        a.ok("exec", "_CORE:append_to('x', 'hello')")
        a.drain(); b.drain()
        b.ok("exec", "for i=1,3 do _CORE:move_right(2, false) end")
        b.drain(); b.seen.clear(); a.drain(); a.seen.clear()
        a.ok("exec", "_CORE:append_to('x', ' world')")
        va = views(a.seen + a.drain()); vb = views(b.seen + b.drain())
        check(len(va) == 1 and len(vb) == 1, "refreshes")
        check(selected(va[0], "x") != selected(vb[0], "x"), "the clients are shown the same selection")


main(t)
""", "two clients on the same view with different selections, refreshed together", "a client is shown the selections of another one")

seed("c08-join-after-spawn", "C08", [(SRV, """            sender
                .send(Event::Join((next_client_id, stream.clone())))
                .await
                .unwrap_or_else(|e| log::error!("{}", e));
            log::trace!("spawning connection handler: {}", next_client_id);
            ex.spawn(Self::read_client(next_client_id, stream, sender))
                .detach();
            next_client_id += 1;
""", """            let join = Event::Join((next_client_id, stream.clone()));
            let join_sender = sender.clone();
            log::trace!("spawning connection handler: {}", next_client_id);
            ex.spawn(Self::read_client(next_client_id, stream, sender))
                .detach();
            next_client_id += 1;
            future::yield_now().await;
            join_sender
                .send(join)
                .await
                .unwrap_or_else(|e| log::error!("{}", e));
""")], """
def t():
    with Server() as s:
        first = s.client()
        first.until("info")
        for i in range(40):
            c = Client(s)
            c.raw('{"jsonrpc":"2.0","id":7,"method":"edit","params":{"name":"a%d","scratch":true}}\\n' % i)
            r = c.response(4)
            check(r["id"] == 7 and "error" not in r, repr(r))
            c.close()
            first.drain(0.01)


main(t)
""", "a client that sends its first request right when it connects", "requests are read before the client is registered, and are dropped")

seed("c09-empty-after-failed-start", "C09", [(SRV, """            if clients.read().expect("lock client index").len() == 0 && is_leave_event {
""", """            if clients.read().expect("lock client index").len() == 0 || is_leave_event && false {
""")], """
def t():
    with Server() as s:
        a = s.client()
        a.until("info")
        a.raw('{"jsonrpc":"2.0","id":1,"method":"quit"}\\n')
        r = a.response()
        # the connection of the client that asked to quit is still open: the server still serves
        b = s.client()
        b.until("info")
        b.ok("edit", {"name": "x", "scratch": True})
        a.close()
        b.ok("edit", {"name": "y", "scratch": True})
        b.close()
        check(s.wait() == 0, "the server did not end")


main(t)
""", "a client that quits and keeps its connection open, while another one connects", "the server ends although a connection is open")
