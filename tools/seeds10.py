from mkseed import seed
B = "core/src/editor/buffer.rs"
seed("c11-reload-writes", "C11", [(B, "                    self.last_sync = Some(SystemTime::now());", "                    self.last_sync = fs::write(path, &content).map(|_| SystemTime::now()).ok();")], '''
def f():
    with Server("c11a", {"a.txt": "one\\ntwo"}) as s:
        c = s.client()
        p = os.path.join(s.cwd, "a.txt")
        c.ok("edit", {"name": p, "scratch": False})
        for text in ("three", "three\\nfour", "five\\n"):
            time.sleep(0.05)
            open(p, "w").write(text)
            c.ok("edit", {"name": p, "scratch": False})
            check(open(p).read() == text, "the file is as it was written: %r" % open(p).read())
main(f)
''', "the reload of a file that has no line break at its end", "the editor changes the file on disk")
seed("c11-open-writes", "C11", [(B, "            file_content += \"\\n\";", "            file_content += \"\\n\";\n            fs::write(&absolute_path, &file_content).unwrap_or_default();".replace("file_content += \"\\n\"", "file_content.push('\\n')"))], '''
def f():
    with Server("c11b", {"a.txt": "one\\n", "b.txt": "two"}) as s:
        c = s.client()
        for n in ("a.txt", "b.txt"):
            c.ok("edit", {"name": os.path.join(s.cwd, n), "scratch": False})
        check(open(os.path.join(s.cwd, "a.txt")).read() == "one\\n", "a.txt is as it was")
        check(open(os.path.join(s.cwd, "b.txt")).read() == "two", "b.txt is as it was")
main(f)
''', "a file without a line break at its end is opened", "the line break is added to the file of the user")
