from mkseed import seed
T = "core/src/tui.rs"
N = "remote/src/connection.rs"
seed("c30-page-of-menu", "C30", [(T, """            for i in 0..menu.entries.len() {
                if i == display_size {
                    break;
                }
                let item = &menu.entries[i].text""", """            // the page of the entries the selected one is on
            let first = menu.selected / display_size * display_size;
            for i in first..menu.entries.len() {
                if i == first + display_size {
                    break;
                }
                let item = &menu.entries[i].text"""), (T, "cursor::MoveTo(0, 1 + i as u16),", "cursor::MoveTo(0, 1 + (i - first) as u16),")], '''
def f():
    for rows in (10, 3, 2, 1):
        with Tui(40, rows) as t:
            t.menu("open", "")
            check(t.alive(), "the client draws a menu on %d rows" % rows)
            t.type("\\x1b[B")
            time.sleep(0.3)
            check(t.alive(), "the client draws the next entry on %d rows" % rows)
            t.type("\\r")
            check(t.request("menu-select") is not None, "an entry is chosen on %d rows" % rows)
main(f)
''', "a terminal of one row", "the client ends when it draws a menu")
seed("c30-status-and-echo", "C30", [(T, "} else if echo.text_len() + status.len() >= width as usize {", "} else if status.len() >= width as usize {")], '''
F = lambda s: [{"text": s, "face": "Default"}]


def f():
    with Tui(40, 10) as t:
        t.notify("status", [{"index": 1, "text": F("s" * 25)}])
        for n in (3, 10, 14, 15, 16, 30, 60):
            t.notify("echo", F("e" * n))
            check(t.alive(), "the client draws an echo of %d characters beside the status" % n)
        t.type("h")
        check(t.request("keys") is not None, "the client goes on")
main(f)
''', "an echo and a status that fit into the last row each, but not together", "the terminal client ends when it draws the status")
seed("c32-status-of-another-shape", "C32", [(N, """                    .params::<notifications::StatusParams>()
                    .ok()
                    .unwrap_or(None)
""", """                    .params::<notifications::StatusParams>()
                    .expect("status")
""")], '''
def f():
    with Tui(40, 10) as t:
        for p in ([], [{"index": 1, "text": []}], [{"index": -1, "text": []}], {"mode": "insert"}, None, "x"):
            t.notify("status", p)
            check(t.alive(), "the client goes on after the status %r" % (p,))
        t.type("h")
        check(t.request("keys") is not None, "the client goes on")
main(f)
''', "a status whose items have another shape than expected", "the client ends")
seed("c32-relay-ends", "C32", [(T, """                        ConnErr(msg) => tx.send(Event::Error(msg)).await.expect("send event"),
""", """                        ConnErr(msg) => {
                            tx.send(Event::Error(msg)).await.expect("send event");
                            break;
                        }
""")], '''
def f():
    with Tui(40, 10) as t:
        for l in (b"not json\\n", b"\\xff\\xfe\\n", b'{"jsonrpc": "2.0"}\\n'):
            t.s.sendall(l)
            time.sleep(0.3)
            check(t.alive(), "the client goes on after %r" % l)
        t.drain() if hasattr(t, "drain") else None
        t.type("h")
        check(t.request("keys") is not None, "keys are sent")
        t.notify("echo", [{"text": "shown", "face": "Default"}])
        check(b"shown" in t.out, "messages are shown after a line that is none")
main(f)
''', "a line that is no message, before others", "the client ends, or shows nothing any more")
