from mkseed import seed
SRV = "core/src/server.rs"; CORE = "core/src/editor/core.rs"; MOD = "core/src/editor/mod.rs"
BUF = "core/src/editor/buffer.rs"; SEL = "core/src/editor/selection.rs"

seed("c18-empty-file", "C18", [(BUF, """        if !file_content.ends_with('\\n') {
            file_content += "\\n";
        }

        Ok(Buffer {""", """        if file_content.lines().last().is_some() && !file_content.ends_with('\\n') {
            file_content += "\\n";
        }

        Ok(Buffer {""")], """
def t():
    with Server(files={"f": ""}) as s:
        c = s.client()
        c.ok("edit", {"name": "f", "scratch": False})
        check(s.alive(), "server ended")
        evs = c.drain(0.3)
        check(views(evs), "no view")
        check(text(views(evs)[-1], "f") is not None, "no text")
        c.ok("exec", "editor:move_to_end(tonumber(env.client), false); editor:delete_selection(tonumber(env.client))")
        check(s.alive(), "server ended")


main(t)
""", "a file without any content is opened", "the buffer has no content at all")
