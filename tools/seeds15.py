from mkseed import seed
U = "core/src/tui.rs"
def demo(what, check_code):
    return '''
import re
def modes(out):
    """the modes of the terminal that are not as they were"""
    now = {}
    for m in re.finditer(rb"\\x1b\\[\\?([0-9;]+)([hl])", out):
        for n in m.group(1).split(b";"):
            now[int(n)] = m.group(2)
    return sorted(n for n, v in now.items() if v != (b"h" if n in (25, 7) else b"l"))
def f():
    t = Tui()
    try:
        %s
        end = time.time() + 8
        while t.proc.poll() is None and time.time() < end:
            time.sleep(0.05)
        check(t.proc.poll() is not None, "the terminal client ends")
        time.sleep(0.3)
        check(b"\\x1b[?1049h" in t.out, "the screen was entered")
        check(modes(t.out) == [], "terminal modes left changed: %%s" %% modes(t.out))
    finally:
        t.close()
main(f)
''' % what
seed("c28-lost-exit", "C28", [(U, '''                logline("connection lost");
                tx.close();''', '''                logline("connection lost");
                eprintln!("connection lost");
                std::process::exit(1);''')], demo("t.s.shutdown(2)\n        t.s.close()", ""),
"a server that ends, or a connection that breaks, while the terminal client runs", "the process is ended at once and the terminal stays raw, on the other screen, without a cursor")
seed("c28-only-after-quit", "C28", [(U, '''        terminal::disable_raw_mode().expect("disable terminal raw mode");
        let _ = execute''', '''        if !self.exit_pending {
            return;
        }
        terminal::disable_raw_mode().expect("disable terminal raw mode");
        let _ = execute''')], demo("t.type('\\x18')", ""),
"a terminal client that ends by a panic or a lost connection rather than by its user", "the terminal is not put back")
seed("c28-mouse", "C28", [(U, '''        execute!(io::stdout(), terminal::EnterAlternateScreen, cursor::Hide)
            .expect("prepare terminal state");''', '''        execute!(io::stdout(), terminal::EnterAlternateScreen, cursor::Hide)
            .expect("prepare terminal state");
        if std::env::var("TERM").map_or(false, |t| t.starts_with("xterm")) {
            execute!(io::stdout(), crossterm::event::EnableMouseCapture).expect("enable mouse");
        }''')], demo("t.type('\\x04')\n        time.sleep(0.5)\n        t.s.shutdown(2)", ""),
"a terminal that knows the mouse", "after the client has ended the terminal goes on reporting the mouse to the shell")
