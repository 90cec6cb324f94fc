from mkseed import seed
N = "core/src/editor/menu.rs"; M = "core/src/editor/mod.rs"
seed("c37-first-word-only", "C37", [(N, "    if locations.len() > 0 {\n        let (start, _) = locations.get(0).unwrap();\n        let (_, end) = locations.get(locations.len() - 1).unwrap();", "    if locations.len() > 0 {\n        let (start, _) = locations.get(locations.len().min(2) - 1).unwrap();\n        let (_, end) = locations.get(locations.len().min(4) - 1).unwrap();")], '''
def f():
    files = {"ab-cd-longer-ef": "x\\n", "ab---cd-ef": "x\\n", "ab-cd--------ef": "x\\n", "ab-------cd---ef": "x\\n", "ab-cd-ef": "x\\n"}
    with Server("c37a", files) as s:
        c = s.client()
        for search, n in (("ab cd ef", 5), ("ab ef", 5), ("ab cd", 5), ("ab c d ef", 5)):
            c.ok("menu", {"command": "open", "search": ""})
            c.until("menu")
            c.ok("menu", {"command": "open", "search": search})
            got = ["".join(t["text"] for t in e["text"]) for e in c.until("menu")["entries"]]
            last = search.split()[-1]
            want = sorted(files, key=lambda x: (x.index(last) + len(last), x))
            check(got == want, "%s: %s instead of %s" % (search, got, want))
main(f)
''', "a search of at least four words", "the stretch is measured to the third word only")
seed("c37-status-by-name", "C37", [(M, "items.sort_by(|a, b| a.index.cmp(&b.index));", "items.sort_by(|a, b| (a.index / 10).cmp(&(b.index / 10)));")], '''
def f():
    with Server("c37b", {"a": "x\\n"}) as s:
        c = s.client()
        for k in range(8):
            c.drain(0.2)
            cfg = ", ".join("k%d_%d = {index = %d, text = 't%d'}" % (k, i, i, i) for i in (3, 1, 7, 5, 12, 9, 15, 20, 2))
            c.ok("exec", "_EDITOR:set_status_line(tonumber(env.client), {%s})" % cfg)
            got = [i["index"] for i in c.until("status")]
            check(got == sorted(got), "the items are in the order of their index: %s" % got)
main(f)
''', "several items whose indexes are between the same tens", "their order changes from one status to the next")
