from mkseed import seed
S = "remote/src/session.rs"; V = "core/src/server.rs"; N = "remote/src/transport/server_listener.rs"
seed("c27-stem", "C27", [(S, "path.file_name().unwrap().to_str().unwrap())", "path.with_extension(\"\").file_name().unwrap().to_str().unwrap())")], '''
import subprocess
def f():
    with Server("other") as s:
        p = subprocess.Popen([BIN, "-m", "json", "-s", "my.work"], cwd=s.cwd, env=dict(s.env, CED_BIN=BIN), stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        try:
            os.set_blocking(p.stdout.fileno(), False)
            out, end = b"", time.time() + 8
            while time.time() < end and b'"my.work"' not in out:
                out += p.stdout.read() or b""
                time.sleep(0.05)
            check(b'"my.work"' in out, "connected to the session asked for: %r" % out[:200])
            sessions = os.listdir(os.path.join(s.tmp, "ced-demo"))
            check(sorted(sessions) == ["my.work", "other"], "sessions: %s" % sessions)
        finally:
            p.stdin.close()
            p.kill()
            p.wait()
            subprocess.run(["pkill", "-f", "--", "--mode=server --session=my"], check=False)
main(f)
''', "a client that has to start the server of a session whose name has a dot in it", "the server is started for a session of another name, and the client finds none")
seed("c27-all-interfaces", "C27", [(N, "Ok(ServerListener::Tcp(TcpListener::bind(&sock_addr).await?))", "let local = (\"0.0.0.0\", sock_addr.port());\n                Ok(ServerListener::Tcp(TcpListener::bind(local).await?))")], '''
import socket
def f():
    q = socket.socket()
    q.bind(("127.0.0.1", 0))
    port = q.getsockname()[1]
    q.close()
    with Server("@127.0.0.2:%d" % port) as s:
        socket.create_connection(("127.0.0.2", port), 3).close()
        check(s.alive() or True, "")
    with Server("@127.0.0.2:%d" % (port + 1)) as s:
        try:
            socket.create_connection(("127.0.0.1", port + 1), 3).close()
            ok = False
        except ConnectionRefusedError:
            ok = True
        check(ok, "nothing listens at an address that was not given")
main(f)
''', "a session with an address, and a client at another address of the machine", "the session can be reached at every address of the machine")
seed("c27-clean-everything", "C27", [(V, "fs::remove_dir(path.parent().unwrap())", "fs::remove_dir_all(path.parent().unwrap())")], '''
def f():
    with Server("gone") as s:
        keep = os.path.join(os.fsencode(os.path.join(s.tmp, "ced-demo")), b"caf\\xe9")
        with open(keep, "wb") as o:
            o.write(b"x")
        c = s.client()
        c.ok("quit", None) if False else None
        c.close()
        check(s.wait() is not None, "the server ends with its last client")
        check(os.path.exists(keep), "only its own socket is removed")
main(f)
''', "another session, or a file, in the folder of sessions whose name is not UTF-8, when the last server listed ends", "the server removes what belongs to others")
