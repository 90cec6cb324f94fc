from mkseed import seed
C = "core/src/editor/command.rs"
M = "core/src/editor/menu.rs"
seed("c23-view-list", "C23", [(C, ".find(|&x| *x == View::for_buffer(b).key())", ".find(|&x| x.starts_with(*b))")], '''
def f():
    s = Server(files={"f.txt": "one\\n", "f.txt.orig": "two\\n"})
    c = s.client()
    c.ok("edit", {"name": "f.txt.orig", "scratch": False})
    c.ok("edit", {"name": "f.txt", "scratch": False})
    c.ok("view-add", "f.txt.orig")
    d = s.client()
    d.ok("edit", {"name": "f.txt.orig", "scratch": False})
    d.drain(0.2)
    d.ok("view-delete", None)
    d.drain(0.2)
    d.ok("menu", {"command": "view_select", "search": ""})
    m = [e for e in d.drain(0.3) if e["method"] == "menu"][-1]["params"]["entries"]
    vs = [e["value"] for e in m]
    for n in ("f.txt", "f.txt.orig"):
        c.ok("menu", {"command": "view_select", "search": ""})
        x = [e for e in c.drain(0.3) if e["method"] == "menu"][-1]["params"]["entries"]
        check(n in [e["value"] for e in x], "the buffer %s can be chosen: %s" % (n, x))
main(f)
''', "a buffer no view shows alone, while the key of a view begins with its name", "the buffer cannot be chosen any more")

seed("c23-equal-word", "C23", [(M, """            .split_whitespace()
""", """            .split(' ')
""")], '''
def f():
    s = Server(files={"f.txt": "one\\n", "g.txt": "one\\n"})
    c = s.client()
    c.ok("menu", {"command": "open", "search": ""})
    for search in ("f txt", "f  txt", " f\\ttxt"):
        c.drain(0.2)
        c.ok("menu", {"command": "open", "search": search})
        m = [e for e in c.drain(0.3) if e["method"] == "menu"][-1]["params"]["entries"]
        vs = [e["value"] for e in m]
        check(vs == ["f.txt"], "searching for %r finds f.txt: %s" % (search, m))
main(f)
''', "a search with a tab between its words", "the entry is not found")
K = "core/src/editor/core.rs"
seed("c16-view-within", "C16", [(K, "if context.view.borrow().key() == *view_id {", "if view_id.starts_with(context.view.borrow().key().as_str()) {")], '''
def shows(e):
    return [x["buffer"] for x in e["params"]]


def f():
    s = Server(files={"a.txt": "one\\n", "b.txt": "two\\n", "z.txt": "three\\n"})
    c, d, e = s.client(), s.client(), s.client()
    c.ok("edit", {"name": "b.txt", "scratch": False})
    c.ok("edit", {"name": "a.txt", "scratch": False})
    c.ok("view-add", "b.txt")
    d.ok("edit", {"name": "a.txt", "scratch": False})
    e.ok("edit", {"name": "z.txt", "scratch": False})
    d.drain(0.2)
    c.ok("view-delete", None)
    vs = [v for v in d.drain(0.3) if v["method"] == "view"]
    check(all(shows(v) == ["a.txt"] for v in vs), "the other client still shows a.txt: %s" % vs)
main(f)
''', "a view of two buffers deleted by one client while another shows the first of them alone, and a third view is the latest", "the other client is moved to another view")
