from mkseed import seed
K = "core/scripts/keys.lua"
C = "core/src/editor/core.rs"
seed("c20-stale-status", "C20", [(K, """        mode.mappings.default(self, key)
        handled = true""", """        mode.mappings.default(self, key)""")], '''
K = lambda c: {"ctrl": False, "alt": False, "shift": False, "key": {"Char": c}}


def f():
    s = Server(files={"f.txt": "one two\\n"})
    c = s.client()
    c.ok("edit", {"name": "f.txt", "scratch": False})
    c.drain(0.2)
    def mode(keys):
        c.ok("keys", keys)
        st = [e for e in c.drain(0.3) if e["method"] == "status"]
        return [i["text"]["text"] if isinstance(i["text"], dict) else i["text"] for i in st[-1]["params"]] if st else None
    m = mode([K("h")])
    check(m is not None and any("N" == x or "N" in str(x) for x in m), "normal mode is shown: %s" % m)
    m = mode([K("g")])
    check(m is not None, "mode g is shown")
    m = mode([K("z")])
    check(m is not None and "'N'" in str(m), "normal mode is shown again after an unmapped key: %s" % m)
main(f)
''', "a key that is not mapped typed after g", "the status line still shows the mode the client has left")
seed("c20-mode-of-all", "C20", [(K, """    self.mode_stack = { "normal" }
    return self""", """    return self"""), (K, """function ModalHandler.new(client_id)""", """ModalHandler.mode_stack = { "normal" }

function ModalHandler.new(client_id)""")], '''
K = lambda c: {"ctrl": False, "alt": False, "shift": False, "key": {"Char": c}}


def f():
    s = Server(files={"f.txt": "one two\\nthree\\n"})
    a, b = s.client(), s.client()
    for c in (a, b):
        c.ok("edit", {"name": "f.txt", "scratch": False})
    a.ok("keys", [K("i")])
    b.drain(0.2)
    b.ok("keys", [K("j")])
    evs = b.drain(0.4)
    check(any(e["method"] == "view" for e in evs), "the other client still moves: %s" % [e["method"] for e in evs])
main(f)
''', "two clients, one of which enters insertion mode", "the mode is shared by all clients: the keys of the other do nothing")
seed("c21-extend-column", "C21", [(C, """                nv.target_col = s.target_col;
                match""", """                if !extend || s.cursor == s.anchor {
                    nv.target_col = s.target_col;
                }
                match""")], '''
def f():
    s = Server(files={"f.txt": "abcdefgh\\n12345678\\nxy\\nABCDEFGH\\n"})
    c = s.client()
    c.ok("edit", {"name": "f.txt", "scratch": False})
    me = "local me = tonumber(env.client) "
    c.ok("exec", me + "for i = 1, 5 do editor:move_right(me, false) end for i = 1, 3 do editor:move_down(me, true) end")
    c.drain(0.2)
    c.ok("exec", me + "local s = editor:get_context(me).selections['f.txt'][1] editor:message(me, s.cursor.pos.l .. ',' .. s.cursor.pos.c)")
    echo = [e for e in c.drain(0.4) if e["method"] == "echo"]
    check("4,6" in str(echo), "the cursor is in the column it came from: %s" % echo)
main(f)
''', "a selection extended by several lines through a line shorter than the column of the cursor", "the column is lost")
seed("c21-only-longer", "C21", [(C, "            if buffer.content.len() == 1 {", "            if buffer.content.len() <= 2 {")], '''
def f():
    s = Server(files={"f.txt": "\\n\\n"})
    c = s.client()
    c.ok("edit", {"name": "f.txt", "scratch": False})
    c.ok("exec", "local me = tonumber(env.client) editor:move_down(me, false)")
    c.drain(0.2)
    c.ok("exec", "local me = tonumber(env.client) local s = editor:get_context(me).selections['f.txt'][1] editor:message(me, 'at ' .. s.cursor.pos.l)")
    echo = [e for e in c.drain(0.4) if e["method"] == "echo"]
    check("at 2" in str(echo), "the cursor is on the second line: %s" % echo)
main(f)
''', "a buffer of two bytes, such as two empty lines", "no motion leads anywhere in it")
