from mkseed import seed
T = "core/src/tui.rs"
seed("c38-blank-lines", "C38", [(T, "for line in &lens.lines {", "for line in lens.lines.iter().filter(|l| !l.plain().trim().is_empty() || lens.lines.len() == 1) {")], '''
def view(lines):
    return [{"buffer": "b", "start": 1, "end": len(lines), "lenses": [{"first_line_num": 0, "lines": [[{"text": l, "face": "Default"}] for l in lines]}]}]


def f():
    with Tui(30, 12) as t:
        for ls in (["one", "two"], ["one", "", "three"], ["", "", "x"]):
            t.out = b""
            t.notify("view", view(ls))
            check(t.alive(), "the client draws %s" % ls)
            rows = t.out.decode(errors="replace").split("\\r\\n")
            check(len(rows) >= 1 + len(ls), "each line has its row: %s" % rows)
            for n, l in enumerate(ls):
                check(rows[1 + n].startswith(l) and (l or n + 1 == len(ls) or not rows[1 + n].strip()), "row %d is %r: %s" % (n, l, rows))
main(f)
''', "an empty line inside a view", "the lines after it move up")
seed("c38-empty-status", "C38", [(T, """                        Status(_) => tx.send(Event::DrawStatus).await.expect("send event"),
""", """                        Status(items) if items.is_empty() => {}
                        Status(_) => tx.send(Event::DrawStatus).await.expect("send event"),
""")], '''
def f():
    F = lambda s: [{"text": s, "face": "Default"}]
    with Tui(30, 12) as t:
        t.notify("status", [{"index": 1, "text": F("insert")}])
        check(b"insert" in t.out, "the status is shown")
        t.out = b""
        t.notify("status", [])
        check(b"\\x1b[7m" in t.out and b"insert" not in t.out, "the last row is drawn without the items: %r" % t.out)
main(f)
''', "a status without items after one with items", "the old status stays on the screen")
seed("c38-resize-in-menu", "C38", [(T, """                Some(menu) => self.draw_menu(&menu)?,
                None => self.draw_view()?,
""", """                Some(menu) if menu.entries.len() < h as usize => self.draw_menu(&menu)?,
                Some(_) => {}
                None => self.draw_view()?,
""")], '''
import fcntl, signal, struct, termios


def f():
    with Tui(30, 12) as t:
        t.menu("open", "", "abcdefgh")
        for rows, cols in ((14, 40), (5, 40), (9, 20)):
            t.out = b""
            fcntl.ioctl(t.tty, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
            os.kill(t.proc.pid, signal.SIGWINCH)
            time.sleep(0.6)
            check(b"t:" in t.out, "the menu is drawn anew on %d rows: %r" % (rows, t.out))
main(f)
''', "a terminal made smaller than an open menu", "the menu is not drawn for the new size")
