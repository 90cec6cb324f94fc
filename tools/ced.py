"""Drives the built editor in a scratch directory (used by the demonstrations of the planted bugs)."""
import json, os, shutil, socket, subprocess, sys, tempfile, time

BIN = os.path.join(os.getcwd(), "target", "debug", "ced")
T = 15


class Fail(Exception):
    pass


def check(cond, what):
    if not cond:
        raise Fail(what)


class Server:
    def __init__(self, session="demo", files=None, env=None):
        self.dir = tempfile.mkdtemp(prefix="ceddemo")
        self.tmp = os.path.join(self.dir, "tmp")
        self.cwd = os.path.join(self.dir, "work")
        os.mkdir(self.tmp)
        os.mkdir(self.cwd)
        for n, c in (files or {}).items():
            self.write(n, c)
        self.session = session
        self.clients = []
        self.env = dict(os.environ, TMPDIR=self.tmp, USER="demo", HOME=self.dir, **(env or {}))
        self.env.pop("RUST_LOG", None)
        self.proc = self.start()
        check(self.proc.stdout.readline() == b"\n", "no readiness line")

    def start(self, *args):
        return subprocess.Popen([BIN, "-m", "server", "-s", self.session, *args], cwd=self.cwd, env=self.env,
                                stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    @property
    def path(self):
        root = os.path.join(self.tmp, "ced-demo")
        os.makedirs(root, exist_ok=True)
        return os.path.join(root, self.session)

    def write(self, name, content):
        with open(os.path.join(self.cwd, name), "wb") as f:
            f.write(content if isinstance(content, bytes) else content.encode())

    def client(self):
        c = Client(self)
        self.clients.append(c)
        return c

    def alive(self):
        return self.proc.poll() is None

    def wait(self, t=T):
        try:
            return self.proc.wait(t)
        except subprocess.TimeoutExpired:
            return None

    def close(self):
        for c in self.clients:
            c.close()
        if self.alive():
            self.proc.kill()
        self.proc.wait()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Client:
    def __init__(self, server):
        self.server = server
        if server.session.startswith("@"):
            host, port = server.session[1:].rsplit(":", 1)
            self.s = socket.create_connection((host or "127.0.0.1", int(port)), T)
        else:
            self.s = socket.socket(socket.AF_UNIX)
            self.s.settimeout(T)
            self.s.connect(server.path)
        self.buf = b""
        self.n = 0
        self.seen = []          # notifications and foreign responses, in order
        self.id = None

    def line(self, timeout=T):
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                return None
            self.s.settimeout(left)
            try:
                d = self.s.recv(65536)
            except socket.timeout:
                return None
            except OSError:
                raise Fail("connection reset")
            if not d:
                raise Fail("connection closed by the editor")
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode()

    def event(self, timeout=T):
        l = self.line(timeout)
        return None if l is None else json.loads(l)

    def raw(self, data):
        self.s.sendall(data if isinstance(data, bytes) else data.encode())

    def send(self, method, params=None, id=None):
        if id is None:
            self.n += 1
            id = self.n
        m = {"jsonrpc": "2.0", "id": id, "method": method}
        if params is not None:
            m["params"] = params
        self.raw(json.dumps(m) + "\n")
        return id

    def response(self, timeout=T):
        while True:
            e = self.event(timeout)
            check(e is not None, "no response")
            if "method" not in e:
                return e
            self.seen.append(e)

    def req(self, method, params=None, id=None, timeout=T):
        i = self.send(method, params, id)
        r = self.response(timeout)
        check(r.get("id") == i, "response %r to request %r" % (r, i))
        return r

    def ok(self, method, params=None):
        r = self.req(method, params)
        check("error" not in r, "%s %r failed: %r" % (method, params, r.get("error")))
        return r

    def err(self, method, params=None):
        r = self.req(method, params)
        check("error" in r, "%s %r succeeded" % (method, params))
        return r["error"]["code"]

    def until(self, method, timeout=T):
        """next notification of the method"""
        while True:
            e = self.event(timeout)
            check(e is not None, "no %s notification" % method)
            if e.get("method") == method:
                return e["params"]
            self.seen.append(e)

    def drain(self, t=0.3):
        out = []
        while True:
            e = self.event(t)
            if e is None:
                return out
            out.append(e)

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass


class Peer:
    """A program using the client library, and the server it talks to (this script).

    do(cmd...) runs commands in the program, returns what it prints; request() is the next request it sent."""

    MAIN = r"""
use std::io::{BufRead, Write};
use ced_remote::{Connection, ConnectionEvent, Session};
use futures_lite::*;
fn show(e: &ConnectionEvent) -> String { format!("{:?}", e).replace("\n", " ") }
fn main() {
    let mut c = Connection::new(Session::from_name("peer"));
    let (mut events, requests) = future::block_on(c.connect());
    std::thread::spawn(move || future::block_on(requests));
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let mut w = l.splitn(2, ' ');
        let (cmd, arg) = (w.next().unwrap(), w.next().unwrap_or(""));
        let mut out = String::from("done");
        match cmd {
            "event" => out = future::block_on(events.next()).map(|e| show(&e)).unwrap_or("end".into()),
            "state" => out = format!("{:?}", c.state()).replace("\n", " "),
            "menu" => { let m = c.state().menu; out = m.map(|m| format!("{}|{}|{}|{}", m.command, m.search, m.selected, m.entries.len())).unwrap_or("none".into()) }
            "quit" => c.quit(),
            "edit" => c.edit(arg.to_string(), false),
            "scratch" => c.edit(arg.to_string(), true),
            "ask" => c.menu(arg, ""),
            "select" => c.menu_select(),
            "next" => c.action_menu_select_next(),
            "previous" => c.action_menu_select_previous(),
            "cancel" => c.action_menu_cancel(),
            "exec" => c.exec(arg),
            _ => panic!("{}", l),
        }
        println!("{}", out);
        std::io::stdout().flush().unwrap();
    }
}
"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="ceddemo")
        try:
            t = os.path.join(os.getcwd(), "target", "debug")
            with open(os.path.join(self.dir, "main.rs"), "w") as f:
                f.write(self.MAIN)
            lib = sorted(x for x in os.listdir(t + "/deps") if x.startswith("libfutures_lite-") and x.endswith(".rlib"))
            exe = os.path.join(self.dir, "peer")
            r = None
            for l in lib:
                r = subprocess.run(["rustc", "--edition", "2018", "main.rs", "-o", exe, "-L", "dependency=" + t + "/deps",
                                    "--extern", "ced_remote=" + t + "/libced_remote.rlib", "--extern", "futures_lite=" + t + "/deps/" + l],
                                   cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   env=dict(os.environ, RUSTUP_TOOLCHAIN="stable"))
                if r.returncode == 0:
                    break
            if r is None or r.returncode:
                print(r and r.stdout.decode()[-1500:])
                sys.exit(3)
            root = os.path.join(self.dir, "ced-demo")
            os.mkdir(root)
            l = socket.socket(socket.AF_UNIX)
            l.bind(os.path.join(root, "peer"))
            l.listen(1)
            l.settimeout(T)
            self.proc = subprocess.Popen([exe], env=dict(os.environ, TMPDIR=self.dir, USER="demo"), stdin=subprocess.PIPE,
                                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            self.s, _ = l.accept()
            self.s.settimeout(T)
            self.f = self.s.makefile("rb")
        except BaseException:
            shutil.rmtree(self.dir, ignore_errors=True)
            raise

    def do(self, *cmds, timeout=T):
        """the line printed for the last command; None when it does not come"""
        import select
        out = None
        for c in cmds:
            try:
                self.proc.stdin.write(c.encode() + b"\n")
                self.proc.stdin.flush()
            except OSError:
                return None
            if not select.select([self.proc.stdout], [], [], timeout)[0]:
                return None
            out = self.proc.stdout.readline().decode()
            if not out:
                return None
            out = out[:-1]
        return out

    def request(self, timeout=T):
        self.s.settimeout(timeout)
        try:
            l = self.f.readline()
        except OSError:
            return None
        return json.loads(l) if l else None

    def notify(self, method, params):
        self.s.sendall(json.dumps({"jsonrpc": "2.0", "method": method, "params": params}).encode() + b"\n")
        return self.do("event")

    def close(self):
        self.s.close()
        self.proc.kill()
        self.proc.wait()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Tui:
    """The terminal client in a terminal of its own, and the server it talks to (this script)."""

    def __init__(self, cols=80, rows=24):
        import fcntl, pty, struct, termios, threading
        self.dir = tempfile.mkdtemp(prefix="ceddemo")
        root = os.path.join(self.dir, "ced-demo")
        os.mkdir(root)
        l = socket.socket(socket.AF_UNIX)
        l.bind(os.path.join(root, "tui"))
        l.listen(1)
        l.settimeout(T)
        self.tty, t = pty.openpty()
        fcntl.ioctl(t, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
        env = dict(os.environ, TMPDIR=self.dir, USER="demo", HOME=self.dir, TERM="xterm")
        self.proc = subprocess.Popen([BIN, "-m", "term", "-s", "tui"], env=env, cwd=self.dir, stdin=t, stdout=t, stderr=t, start_new_session=True)
        os.close(t)
        self.out = b""

        def read():
            while True:
                try:
                    d = os.read(self.tty, 65536)
                except OSError:
                    return
                if not d:
                    return
                self.out += d
        threading.Thread(target=read, daemon=True).start()
        try:
            self.s, _ = l.accept()
        except OSError:
            self.s = socket.socket()
            self.close()
            raise Fail("terminal client does not connect")
        self.f = self.s.makefile("rb")
        time.sleep(0.5)

    def type(self, s):
        os.write(self.tty, s.encode())

    def request(self, method=None, timeout=T):
        """the next request (of the method); None when there is none"""
        end = time.time() + timeout
        while time.time() < end:
            self.s.settimeout(max(0.1, end - time.time()))
            try:
                l = self.f.readline()
            except OSError:
                return None
            if not l:
                return None
            r = json.loads(l)
            if method is None or r["method"] == method:
                return r

    def notify(self, method, params):
        self.s.sendall(json.dumps({"jsonrpc": "2.0", "method": method, "params": params}).encode() + b"\n")
        time.sleep(0.4)

    def menu(self, command, search, values="xyz"):
        F = [{"text": "x", "face": "Default"}]
        self.notify("menu", {"command": command, "title": "t", "search": search,
                             "entries": [{"value": v, "text": F, "description": None} for v in values]})

    def alive(self):
        return self.proc.poll() is None

    def close(self):
        self.s.close()
        self.proc.kill()
        self.proc.wait()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def views(events):
    return [e["params"] for e in events if e.get("method") == "view"]


def text(view, buffer):
    """the lines shown for a buffer"""
    for item in view:
        if item["buffer"] == buffer:
            return ["".join(f["text"] for f in l)[:-1] for lens in item["lenses"] for l in lens["lines"]]
    return None


def selected(view, buffer):
    return ["".join(f["text"] for f in l if f["face"] == "Selection") for item in view if item["buffer"] == buffer
            for lens in item["lenses"] for l in lens["lines"]]


def main(f, times=1):
    try:
        for _ in range(times):
            f()
    except Fail as e:
        print("FAIL:", e)
        sys.exit(1)
    print("ok")
    sys.exit(0)
