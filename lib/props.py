"""The properties (source of properties.jsonl and MANIFEST.json; see mkmanifest.py).

P(id, title, statement, over, text, why, files, mechanism, technique, note)
"""
PROPS = []
NOT = []


def P(id, title, statement, over, text, why, files, mechanism, technique, note, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                      anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                               **({"state": state} if state else {})}, technique=technique, note=note))


def N(id, title, statement, over, text, why, files, mechanism, reason):
    NOT.append((id, reason))
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                      anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mechanism]}))


AI = "Path-enumerating abstract interpretation of the compiler's MIR: loops are followed for a bounded number of rounds, every branch on values the source does not fix is taken both ways, external library calls are modelled by their documented meaning."
SRV = "core/src/server.rs"
CORE = "core/src/editor/core.rs"
MOD = "core/src/editor/mod.rs"

P("C03", "Every request line gets exactly one response, with its id, on its own stream",
  "Every line a connected client sends is handled exactly once, in the order the client sent its lines, unchanged and attributed to that client. For each line the server writes exactly one response line, to the stream of the client that sent it and to no other, before it takes up the next event. The response carries the id of the request, or a null id when the line cannot be decoded.",
  ["inputs", "schedules", "histories"], "all request lines, all interleavings of connected clients",
  "The tests open at most two clients and send a few well-formed requests in one fixed order.",
  [SRV, MOD, "remote/src/jsonrpc.rs"],
  [("reader task forwards each line", "core/src/server.rs read_client"), ("main loop writes the response", "core/src/server.rs handle_events"), ("response built from the request id", "core/src/editor/mod.rs handle")],
  "dataflow by abstract interpretation of the server tasks (MIR), following every spawn", AI)

P("C04", "Request methods perform the documented operation and failures their error code",
  "The requests edit, view, view-delete, view-add, view-remove, menu, menu-select, keys, exec and quit perform their operation for the requesting client with the decoded parameters, and no request performs the operation of another. A request whose parameters are missing or do not decode performs nothing. Failures are answered with their code: an undecodable line, missing parameters or an operation refused by the editor -32600, an unknown method -32601, undecodable parameters or an unknown menu or choice -32602, a failing key handler -32603, a failing script 1.",
  ["inputs"], "all request lines: every method string, parameter presence and shape, and outcome of the operation",
  "The tests send valid requests for a few methods and never check an error code.",
  [MOD, "remote/src/jsonrpc.rs", "remote/src/protocol.rs"],
  [("method dispatch", "core/src/editor/mod.rs handle"), ("parameter decoding", "remote/src/jsonrpc.rs response!"), ("error constructors", "remote/src/jsonrpc.rs Error")],
  "abstract interpretation of the request handler (MIR): relation between the method compared, the operation called and the response built", AI)

P("C06", "Notifications reach their recipients and only them",
  "A notification addressed to one client is written to the stream of that client and to no other stream; one addressed to everybody is written once to every connected client, and a failing client does not keep the others from receiving it. Messages and errors for one client go to that client only. When views are refreshed every listed client is sent its own current view, rendered with its own selections in that view.",
  ["inputs", "schedules", "fault_sequences"], "all recipients, all sets of connected clients, any pattern of failing writes",
  "The tests never have two clients with different views and different selections, nor a client whose stream fails.",
  [CORE, SRV],
  [("recipient list", "core/src/editor/core.rs Notifier"), ("recipient filter", "core/src/server.rs should_notify"), ("view refresh", "core/src/editor/core.rs notify_view_update")],
  "dataflow by abstract interpretation of the notifier, the view refresh and the broadcast task (MIR)", AI)

P("C07", "No environment failure or undecodable input ends the running editor",
  "Once it has started, the server or the standalone editor never ends because the environment or an input fails: a client that disconnects or cannot be written to, a connection that cannot be accepted, a line that is not text or not a request, a file that is missing, unreadable or not text, a search that is not a valid pattern, a script that fails, a socket that cannot be removed. Each of these is answered with an error or logged, and the server goes on serving its other clients.",
  ["fault_sequences", "inputs"], "every call whose result can report such a failure, in every function the running editor can reach",
  "The tests inject no failure: files exist, connections stay open, scripts and requests are valid.",
  [SRV, CORE, "core/src/editor/buffer.rs", MOD, "core/src/editor/menu.rs", "remote/src/jsonrpc.rs"],
  [("write and accept errors are logged", "core/src/server.rs"), ("file errors become request errors", "core/src/editor/buffer.rs, core.rs"), ("search text is escaped", "core/src/editor/menu.rs")],
  "effect analysis over the call graph of the compiled program (MIR): reachable diverging uses of fallible results by error type", "Reachability over-approximates calls (closures, trait implementations, script-registered methods). Panics on conditions that are not error values (map lookups, arithmetic) are the subject of other properties.")

P("C08", "Client numbers, arrival and departure are tracked exactly",
  "Every accepted connection gets a client number no other connection of the server has; its stream is registered and the editor told of it, under that number, before any of its requests is handled. When the connection ends, or when the client asks to quit, exactly that client is removed from the editor and stops receiving notifications; no other client is affected, and requests it sent after quitting are ignored. A connection is given up only when its stream ended or failed.",
  ["histories", "schedules"], "all sequences of connections, requests, quits and disconnections",
  "The tests connect at most two clients and never pipeline requests behind a quit or reuse a server after clients left.",
  [SRV, MOD, CORE],
  [("next client number", "core/src/server.rs serve"), ("client index", "core/src/server.rs handle_events"), ("stopped clients", "core/src/editor/mod.rs removed_clients")],
  "typestate over the event rounds of the interpreted server tasks (MIR)", AI)

P("C09", "The server ends with its last client and cleans up only its own device",
  "The server announces readiness with a single empty line, after it can accept connections and never when it could not bind its address, in which case it fails instead. It ends when, and only when, a connection ended and no client is left. It then removes the session socket it bound itself and nothing else, apart from the session directory when no session is listed in it any more.",
  ["histories", "configurations", "fault_sequences"], "all client histories, socket and TCP sessions, sessions already in use",
  "The tests start one server per session and do not look at what it leaves behind or what a second server of the same session does.",
  [SRV, "remote/src/transport/server_listener.rs"],
  [("event loop exit", "core/src/server.rs handle_events"), ("device cleanup", "core/src/server.rs run"), ("readiness line", "core/src/server.rs serve")],
  "typestate and dominance over the interpreted server tasks (MIR)", AI)

P("C12", "Clients, views and buffers stay consistent",
  "Whatever the server executes (commands, menu choices, keys, scripts, joins, leaves), every connected client shows a view that exists, whose buffers exist, and has a selection in each of its buffers; and at least one view exists. A view that is deleted or changed is replaced, for every client that showed it, by an existing one. A buffer is dropped when the deletion of a view leaves none that shows it, and never while a view shows it.",
  ["histories"], "all sequences of operations, by any number of clients, over any views and buffers",
  "The tests run a few operations on one or two views with one client; most combinations (shared buffers, several clients on a view, the last view) never occur.",
  [CORE, MOD],
  [("view registration", "core/src/editor/core.rs add_view"), ("view removal", "core/src/editor/core.rs delete_view"), ("view change", "core/src/editor/core.rs modify_view"), ("new client", "core/src/editor/core.rs add_client")],
  "inductive invariant over the registers, by abstract interpretation of every operation that changes them (MIR)", AI + " Buffers' content and rendering are opaque here. One view key denotes one set of buffers (names that contain the separators of view keys are outside).")

P("C13", "Replacements and newcomers follow the order of recency",
  "When a view is deleted, every client that showed it is switched to the remaining view that was opened most recently; opening an existing view again makes it the most recent. A new client starts with the view and the selections of the client that connected last among those still connected; the first one starts on the most recently opened view.",
  ["histories"], "all sequences of opening and deleting views, of connecting and leaving",
  "The tests delete a view once or twice, never after a view was opened again or in the presence of clients that came and left.",
  [CORE, "core/src/stackmap.rs"],
  [("order of recency", "core/src/stackmap.rs StackMap"), ("replacement of a deleted view", "core/src/editor/core.rs delete_view"), ("state of a new client", "core/src/editor/core.rs add_client")],
  "symbolic interpretation of the register operations over an abstract list of keys (MIR), and dataflow from the newest entry to its uses", AI + " Opened means edited, added to, or shown for a buffer that has no view yet.")

P("C14", "Every client sees every change of what it shows",
  "Whenever the content of a buffer changes (a deletion, an appended text, a reload from disk, a scratch replaced, a message printed), every client whose view shows the buffer is sent its view anew afterwards. So is every client that is given a view, when it connects or when it is switched to another one, whoever caused it, and a client whose selections in its view have moved.",
  ["histories", "inputs"], "all operations, all sets of clients and views, all buffers affected by one operation",
  "The tests observe one client; whether a change made by one client reaches another that shows the same buffer is not tested.",
  [CORE],
  [("clients that show a buffer", "core/src/editor/core.rs clients_with_buffer"), ("refresh", "core/src/editor/core.rs notify_view_update"), ("reload", "core/src/editor/buffer.rs load_from_disk")],
  "abstract interpretation of every operation of the core (MIR): each change must be followed by a refresh whose recipients cover the clients affected", AI + " Runs over clients are followed for two clients.")

P("C15", "Selections stay inside their buffers",
  "Whenever a buffer may have become shorter (text deleted, a file reloaded, a buffer replaced by another of the same name), both ends of every selection that any client has in it, in any view, are cut to the last offset of the new content before any client is told anything.",
  ["histories", "inputs"], "all operations that shorten buffers, all clients, views and selections",
  "The tests delete text with a single client on a single view; a second client or another view whose selection is left beyond the end makes a later operation panic.",
  [CORE, "core/src/editor/selection.rs", "core/src/editor/piece_table/mod.rs"],
  [("cutting selections", "core/src/editor/core.rs clamp_selections"), ("limit", "core/src/editor/piece_table/mod.rs max_offset")],
  "abstract interpretation of every operation (MIR): each shortening must be followed by nested loops over all clients, views and selections whose stores are bounded by the content's last offset", AI)

P("C18", "Buffers never run empty, and files become buffers whole",
  "A buffer always has content: an empty scratch, an empty file and a buffer whose text was all deleted hold a line break. A buffer opened from a file, or reloaded from it, is given the complete text of the file it stands for, with a line break at its end. A reload is left out only when the file is known to be older than the last time it was read.",
  ["inputs", "histories"], "all file contents, all deletions, all states of the file on disk",
  "The tests open files that end with a line break and delete single characters.",
  ["core/src/editor/buffer.rs", CORE],
  [("new scratch, open, reload", "core/src/editor/buffer.rs Buffer"), ("deletion", "core/src/editor/core.rs delete_selection")],
  "dataflow of the text given to contents and a must-follow check after deletions, on interpreted paths (MIR)", AI + " That the difference computed at a reload leads to the text it is given is not decided here.")

CL = "remote/src/connection.rs"

P("C16", "View operations show the client what it asked for",
  "After a successful edit the client that asked shows the whole file or scratch it named; after a successful view, the view it named, or the whole buffer it named when there is no such view. view-add and view-remove replace the view the client shows by the same view with that buffer shown whole in addition, respectively without that buffer (deleting it when nothing is left), and refuse, changing nothing, a buffer that does not exist; view-delete deletes the view the client shows. None of them changes what a client shows that showed another view.",
  ["inputs", "histories"], "all view operations, on all sets of views and clients",
  "The tests apply each operation once or twice to one or two buffers.",
  [CORE, "core/src/editor/view.rs"],
  [("operations", "core/src/editor/core.rs edit, view, add_to_current_view, remove_from_current_view, delete_current_view"), ("buffers of a view", "core/src/editor/view.rs")],
  "abstract interpretation of every view operation (MIR): relation between the view the client showed and the one it shows afterwards", AI)

P("C05", "The client library understands every notification and keeps it",
  "Every notification the server can send is decoded by the client library into the parameters it was encoded from, reported as the event of its kind with them, and kept in the client's state until the next of the same kind replaces it (a hint is not kept); a new menu has its first entry selected and hides the last echo. A message that cannot be decoded changes nothing, and a connection error is reported as such.",
  ["inputs", "histories"], "all notifications of all kinds, in any order, and all lines that are none",
  "The tests decode a few notifications by hand and never look at the client's state.",
  [CL, "remote/src/protocol.rs", CORE],
  [("state update", "remote/src/connection.rs event_update"), ("encoding", "core/src/editor/core.rs Notifier")],
  "agreement of the types encoded and decoded (type-checked program) and abstract interpretation of the client's state update (MIR)", AI)

P("C33", "Messages are read back as they were written",
  "Every request, notification, response and error, and every parameter the two sides exchange, is read back with the content it was written with: each member under one name on both sides, one left out only where its absence means that there is none, every variant of an enumeration under its own name, and notifications and responses never taken for one another. A message is written, as JSON alone, with the members of JSON-RPC 2.0; a response carries either a result or an error, a null result is read as a result, and what a message is given is what it returns when asked.",
  ["inputs"], "all messages, all contents",
  "The tests write and read a few messages through the same types; members that are renamed, left out or defaulted on one side only show for particular contents.",
  ["remote/src/jsonrpc.rs", "remote/src/protocol.rs", "remote/src/keys.rs"],
  [("messages", "remote/src/jsonrpc.rs Request, Notification, Response, Error, ClientEvent"), ("parameters", "remote/src/protocol.rs")],
  "abstract interpretation (MIR) of the writing and reading code of every exchanged type, generated code included; the two relations between fields and members are compared, then the messages' constructors with their accessors",
  AI + " The JSON and text libraries are taken at their meaning; a type written in a form of its own would be reported as not shown.")

P("C31", "Every call of the client library sends one request, numbered afresh",
  "Each call of the client library that asks something of the server sends exactly one request for it, with a number no other request of the connection has, the method of the call, and parameters of the type the server decodes, carrying the arguments of the call. Choosing from a menu sends the entry selected, or the search when there is none, for the command of the open menu, and closes it; without an open menu nothing is sent.",
  ["inputs", "histories"], "all sequences of calls, all arguments, all states of the menu",
  "No test uses the connection of the client library.",
  [CL, "remote/src/protocol.rs", "remote/src/jsonrpc.rs"],
  [("requests", "remote/src/connection.rs Connection"), ("choice", "remote/src/connection.rs menu_select")],
  "abstract interpretation of every sending function (MIR), against the parameter types of the server's handler", AI)

P("C29", "Text clients relay each message once, as one line",
  "In json mode every request read from standard input is sent to the server once, as one line, in the order read, and every message of the server is printed once, as a line of its own, flushed before the next is awaited; a line that is no request, or a message that cannot be decoded, is skipped. In stand-alone mode the files given are opened before any input is read, every line read is handled once for the only client, its response printed as one line, and so is every notification addressed to that client; it ends when the client quits or its input ends. Nothing else is sent or printed.",
  ["inputs", "schedules", "fault_sequences"], "all lines, all messages, all interleavings of both directions",
  "The tests never run the json or the stand-alone client.",
  ["core/src/clients.rs", "remote/src/client.rs"],
  [("json client", "core/src/clients.rs StdioClient"), ("stand-alone editor", "core/src/clients.rs start_standalone"), ("request loop", "remote/src/client.rs run")],
  "dataflow by abstract interpretation of the client tasks (MIR): each item taken from a source until the next one", AI)

P("C24", "The terminal client's keys, and the selection of its menu",
  "The selected entry of a menu never leaves its entries: choosing the next or the previous entry moves by one, and does nothing at the end, at the start, or without a menu. With an open menu the terminal turns a typed character into the same menu with the character added at the end of the search, backspace into the search shortened by its last character, Enter into the choice, Escape into closing the menu, up and down into the previous and next entry, and ignores other keys. Without one, Escape and every character typed without control or alt is sent to the server as it was typed.",
  ["inputs", "histories"], "all keys, all menus and selections",
  "No test opens a menu in a client or types a key in the terminal.",
  [CL, "core/src/tui.rs"],
  [("selection", "remote/src/connection.rs Menu"), ("key conversion", "core/src/tui.rs ToKey"), ("key handling", "core/src/tui.rs handle_input")],
  "abstract interpretation of the menu's and the terminal's functions (MIR): guards of every change of the selection, relation between key and action", AI)

P("C01", "Nothing waits for a lock it holds",
  "No operation of the server, the editor, the clients or the client library waits for a lock it already holds, or borrows a value it has already borrowed otherwise; two locks are never taken in both orders, and no lock is held while a task is suspended. No task blocks its thread sending into a channel of limited size that is not emptied by another thread.",
  ["inputs", "schedules"], "all paths through all functions, all interleavings of tasks and threads",
  "A deadlock needs a certain path or interleaving; the tests run a few operations one after the other.",
  [CORE, SRV, "remote/src/connection.rs"],
  [("script engine and editor state behind locks", "core/src/editor/core.rs Core"), ("channels between tasks", "core/src/server.rs"), ("state shared with event handlers", "remote/src/connection.rs")],
  "dataflow of live guards on MIR, with may-acquire summaries over the call graph (closures, trait implementations, script-registered methods)", "Guards are followed through the compiler's own storage and drop points; a call acquires whatever any function it may reach acquires.")

P("C20", "Keys do what the mode of the client says",
  "In normal mode h, j, k and l move the selections of the client left, down, up and right and with shift extend them, d deletes what is selected, i enters insertion mode, and g or s-g shows the client a hint with the keys of the mode entered; there h and l go, or extend, to the beginning or the end of the line, and any key leads back to normal mode. In insertion mode only esc does anything: it leads back to normal mode. A key of the current mode, and any that leaves it, sends the client a status line with that key and the mode then current. What the keys of one client do depends on its own keys since it joined, when it is in normal mode, and never on those of another.",
  ["inputs", "histories"], "all sequences of keys, of two clients in any order",
  "The tests run no key: they call the motions directly.",
  ["core/scripts/keys.lua", "core/scripts/editor.lua", "core/scripts/utils.lua", MOD],
  [("modes and their keys", "core/scripts/keys.lua"), ("handing keys to the script", "core/src/editor/mod.rs command_keys")],
  "abstract interpretation of the Lua scripts from their source: all states of the key handler are enumerated and every key judged in each against a mode automaton; the entry points are taken from the MIR of the editor",
  "Strings and tables of the scripts are concrete, ids of clients and everything the host returns symbolic; keys are all that the scripts mention plus a sample of others, which the scripts can only treat alike.")

P("C21", "Motions lead where they say and no further",
  "A motion a script asks for moves the cursor of every selection the client has in its current view, and nothing else: left and right by one character, over line ends, up and down by one line, in the column last reached by another motion or the nearest one the line has, to the beginning and the end of the line, to the beginning and the end of the buffer. At the edge it would cross the cursor stays, always inside the buffer. The anchor goes with the cursor unless the motion is to extend the selection, when it stays.",
  ["inputs", "histories"], "all buffers, all positions and wanted columns, all numbers of selections",
  "The scripted tests try a few motions in one file with a newline at its end.",
  [CORE, "core/src/editor/piece_table/navigator.rs"],
  [("motions the scripts call", "core/src/editor/core.rs UserData for Core"), ("positions", "core/src/editor/piece_table/navigator.rs Navigator")],
  "abstract interpretation (MIR) of each motion from the script's call to the new ends of a selection; the resulting expressions and path conditions are looked up in a decision table over the classes of positions",
  "Piece table functions are opaque and taken at their meaning (columns of a line, offset of a position); classes of positions are spanned by buffers of up to three lines of 0, 1 or 3 columns.")

P("C22", "Scripts act by the arguments they give, for connected clients only",
  "Each method of the scripts' editor object that the core offers performs the operation of that name once, with the arguments given, in order (the content of a scratch being empty and the scratch flag of edit false when left out), and returns its result. An operation for a client that is not connected is refused with an error to the script, before anything is changed or anybody told; only a message or an error may be left for such a client. What a script sends to a client is sent to that client.",
  ["inputs", "histories"], "all methods, all arguments, all sets of connected clients",
  "The scripted tests call methods for their own client only.",
  [CORE, MOD, "core/scripts/editor.lua"],
  [("methods of the core", "core/src/editor/core.rs UserData for Core"), ("methods of the editor", "core/src/editor/mod.rs UserData for LuaEditor"), ("editor object", "core/scripts/editor.lua")],
  "abstract interpretation of the Lua scripts from their source (relation between the method called and the call on the core) and of the registered methods (MIR): the check of the client dominates every effect",
  AI)

P("C19", "Every key has one name, which is read back as that key",
  "Every key has one name, different from that of any other key, which is read back as that key; a key for a character has that character (in small) as its name, and any single character is read as its key. Every combination of ctrl, alt and shift is printed as marks before the key's name that are read back as the same modifiers followed by the key. A character typed is the key of its small letter, with shift if it was a capital. The scripts' key handler is told the ctrl, alt and shift, the name and the full name with marks of the key that was sent.",
  ["inputs"], "all keys, all combinations of modifiers",
  "The tests print and read a few keys; a name that collides or a mark lost in one combination goes unnoticed.",
  ["remote/src/keys.rs", MOD],
  [("names of keys", "remote/src/keys.rs Key Display/FromStr"), ("marks of modifiers", "remote/src/keys.rs KeyEvent Display/From"), ("table given to the key handler", "core/src/editor/mod.rs command_keys")],
  "abstract interpretation of the printing and reading functions (MIR) on every path, comparing the two relations", AI)

P("C23", "Menus offer what can be chosen, and a choice does what it says",
  "Every menu is shown under the name by which it is asked for. The entries open, scratch, view_select, view_add, view_remove and exec of the first menu show the client the menu of that name, filled anew; quit and view_delete perform the request of that name. The menus offer: open the files, no folders, under the current folder by their path in it; view_select every view and, once, every buffer that no view shows alone; view_add and view_remove every buffer. A choice edits the file or scratch, switches to the view, adds or removes the buffer, or runs the script of that name, for the client that chose, and a refusal is passed on. Shown are exactly the entries with the words of the search, in order and whatever their case, each with its own key and description and its whole text, in which just the words found are marked.",
  ["inputs", "histories"], "all menus, entries, searches, lists of files, views and buffers",
  "One scripted test opens a menu; no test chooses an entry, and the filter is tried with two searches.",
  ["core/src/editor/command.rs", "core/src/editor/menu.rs", MOD],
  [("menus and their actions", "core/src/editor/command.rs default_commands"), ("search and display", "core/src/editor/menu.rs Menu, MenuFilter, Candidate"), ("requests", "core/src/editor/mod.rs command_menu, command_menu_select")],
  "abstract interpretation (MIR) of the menu registry, of every provider and action it registers, and of the filter and display; the search pattern built is compared with the words searched on a fixed set of texts",
  "The regular expression library is taken at its meaning; the order of the entries shown (best match first) is C37.")

P("C30", "No size of the screen and no content ends the terminal client",
  "The terminal client draws every view, menu, hint and status it is sent on a screen of any size, down to none, and with any text in them, empty or of several lines or of characters of several bytes: drawing never ends the client by a position beyond the screen, beyond a text or a list, or below zero.",
  ["inputs", "configurations"], "all sizes of the screen and all contents of views, menus, hints and status", "No test draws anything.",
  ["core/src/tui.rs"],
  [("drawing", "core/src/tui.rs Term::draw_view, draw_menu, draw_hint, draw_status"), ("events", "core/src/tui.rs Term::start")],
  "abstract interpretation (MIR) of every function that handles an event of the terminal client, with linear inequalities between lengths, sizes and positions as the abstract facts: every subtraction, index, slice, division and unwrap is an obligation to be proved from the tests on the path",
  "Sums are not looked at (an overflow of a 16 bit row needs more rows than a screen has), nor narrowing casts.")

P("C32", "Whatever the server sends or fails to send, the clients go on",
  "A line from the server that is not text, not a message or not understood ends no client: the client library passes over it or reports it, and the lines after it are handled. The terminal client, the JSON client and the event thread of the C library go on until the stream they read ends, their output can no longer be written, or the user leaves. What is typed while the connection is lost, and a log file that cannot be written, end none of them abnormally.",
  ["inputs", "fault_sequences", "schedules"], "all lines of the server, failures of reading and writing, and orders of the clients' tasks", "No test has a client read a broken line or lose its connection.",
  ["remote/src/client.rs", "remote/src/connection.rs", CL, "core/src/tui.rs", "remote-ffi/src/connection.rs"],
  [("lines and events", "remote/src/client.rs Client::run; remote/src/connection.rs Connection::connect"), ("tasks of the clients", "core/src/tui.rs Term::start; core/src/clients.rs StdioClient::run; remote-ffi/src/connection.rs ced_connection_create")],
  "call graph and error-type scan of everything the clients reach (which failures end the process), plus abstract interpretation (MIR) of the decoding functions and of every task: what each does after every kind of item, and which task closes which channel",
  "A terminal that cannot be written to, and a server that cannot be reached in the first place, do end a client. " + AI)

P("C38", "The terminal client shows what it is sent",
  "The terminal client draws every view, echo, menu, hint and status it is sent: of a view the lines of its buffers in order, each part under the name of its buffer, with selections marked; of a menu its title and search in the first row and below it the entries in order, the selected one drawn differently; of a hint its lines one below the other, as high as they need; in the last row the echo and, beside it, the items of the status in order. Nothing is left out while the screen has room, and what is drawn is flushed. When the size of the terminal changes everything is drawn anew for the new size.",
  ["inputs", "configurations", "histories"], "all contents, sizes of the screen and sequences of notifications", "No test draws anything.",
  ["core/src/tui.rs"],
  [("events to handlers", "core/src/tui.rs Term::start"), ("drawing", "core/src/tui.rs Term::draw_view, draw_menu, draw_hint, draw_status, resize")],
  "abstract interpretation (MIR) of the terminal client: its tasks give which handler is called for which event, the handlers' paths give what is printed in which row as terms over what was received; omissions must be justified by inequalities between rows printed and the height tested on the path",
  "Lines wider than the screen are cut at its width by the client, in characters of the rendered text (which includes the codes of colours): where exactly is not decided here. Beside an echo that leaves no room the status is cut from the left. " + AI)

P("C11", "The editor changes no file of the user",
  "The server, the clients and the standalone editor change nothing on disk but this: the server creates its session socket, and the folder of the sessions when there is none, and removes that socket, and that folder when it is empty; the terminal client adds lines at the end of log.txt. Files that are edited, reloaded, listed or run as scripts are only ever read. The only program they start is the editor's own server. (What a user's script does by itself is not meant.)",
  ["inputs", "fault_sequences", "histories"], "all calls the programs make into the file system",
  "Tests look at what a function returns, not at what else it does to the disk.",
  ["core/src/editor/buffer.rs", SRV, "remote/src/transport/socket.rs", "remote/src/lib.rs", "core/src/tui.rs", "core/scripts/prelude.lua"],
  [("files read", "core/src/editor/buffer.rs Buffer::open_file, load_from_disk; core/src/script.rs"), ("session socket", "core/src/server.rs Server::run; remote/src/transport/socket.rs SocketListener::bind"), ("server started", "remote/src/lib.rs start_daemon"), ("log", "core/src/tui.rs logline")],
  "effect analysis over the type-checked program (every external call of every function, references to functions included), with the path of each change followed back through the callers by abstract interpretation (MIR)", AI)

P("C37", "The menu lists the best match first",
  "The entries of a menu that match a search are listed by the stretch of their text around what was found, the shorter first, and those with stretches of the same length by their text, whatever order they were found in. The items of a status line are sent in the order of their index. Every order by which the programs sort, or that a type declares, is a total one: a value is equal to itself, exchanging two values reverses their order, and it never goes round in circles.",
  ["inputs"], "all entries, searches, and values that are sorted", "The tests sort two lists of a few entries.",
  ["core/src/editor/menu.rs", "core/src/editor/view.rs", MOD],
  [("order of candidates", "core/src/editor/menu.rs Candidate cmp, compute_candidate_score, MenuFilter::filter"), ("order of the parts of a view", "core/src/editor/view.rs Focus cmp, LensGroup::add"), ("status line", "core/src/editor/mod.rs set_status_line")],
  "abstract interpretation (MIR) of every comparison, evaluated over ranks of the things it looks at (three values with three ranks each decide an order), and monotonicity of the score in the stretch matched",
  "Rounding of the score of stretches longer than some thousand characters may make two of them equal; a stretch is counted in bytes.")

P("C26", "The C library gives what was received",
  "Each call for the next event takes one received event and gives the C program an event of the same kind with the texts, numbers and lists that were received, a NUL in a text as U+FFFD; null only when none has come or C has no such kind. A list gives each of its items once and in order, then null. No such call, nor one that destroys an object or asks for an error or the version, ends the program; destroying frees the object given and nothing for null, and the error message is copied only into a buffer with room for it and a final NUL.",
  ["inputs"], "all events, texts and lists, all buffer lengths", "No test calls the C library.",
  ["remote-ffi/src/lib.rs", "remote-ffi/src/event.rs", "remote-ffi/src/text.rs", "remote-ffi/src/connection.rs", "remote-ffi-gen/src/lib.rs"],
  [("next event", "remote-ffi/src/connection.rs ced_connection_next_event; remote-ffi/src/event.rs CedEvent::from_event"), ("items", "remote-ffi/src/event.rs, text.rs From impls; remote-ffi/src/lib.rs IndexedIterator"), ("errors", "remote-ffi/src/lib.rs ced_last_error_message, ced_last_error_length"), ("generated functions", "remote-ffi-gen/src/lib.rs; remote-ffi/src/ffi.rs as the build generates it")],
  "abstract interpretation (MIR) of every exported function and every conversion, with provenance of each field given to C",
  "What an event leads to (its lists) is not freed with it; a connection that is refused after the session was found ends the program.")

P("C27", "A session's name is one place, the same for the server and its clients",
  "A session name @ADDRESS:PORT with an IPv4 ADDRESS (none: 127.0.0.1) and a PORT up to 65535 is TCP at that address; any other name is the socket of that name in the user's own folder of sessions, and no name given to this translation ends the program unless the user or the temporary folder is unknown. The server listens there and nowhere else, clients connect there, the sessions listed are the names in that folder; a client starts a server exactly for a socket that is missing, for the same session. A server that ends removes its own socket, and a folder only when empty.",
  ["inputs", "environment"], "all session names, all paths of the server, the clients, the C library and the command line", "The tests read four names.",
  ["remote/src/session.rs", "remote/src/lib.rs", "remote/src/client.rs", "remote/src/transport/server_listener.rs", "remote/src/transport/server_stream.rs", "remote/src/transport/socket.rs", "core/src/bin/ced.rs", "core/src/server.rs", "core/src/clients.rs", "remote-ffi/src/connection.rs"],
  [("meaning of a name", "remote/src/session.rs Session::from_name, ConnectionMode::from_str, RE_ADDR"), ("text of a session", "remote/src/session.rs Display; remote/src/lib.rs start_daemon, ensure_session"), ("listening and connecting", "remote/src/transport, remote/src/client.rs Client::run, core/src/server.rs Server::run"), ("command line", "core/src/bin/ced.rs main; remote-ffi/src/connection.rs ced_connection_create")],
  "abstract interpretation (MIR) of the translation of names and of every function given a session, with provenance; inclusion of regular languages for the pattern of addresses",
  "A name with a separator or .. in it, or an empty one, is taken as a path; how the library reads the text of an address is not analysed.")

P("C28", "The terminal is put back however the terminal client ends",
  "Every change of the terminal's state that the program makes (raw mode, the other screen, the hidden cursor, and any other it might make) is taken back when the terminal client ends: by its user, by a lost connection, or by a panic anywhere in it. While the terminal is changed nothing ends the process at once, and no value that has to take a change back is kept from being dropped.",
  ["inputs", "faults"], "all ways on which the terminal client can end", "The tests start no terminal client.",
  ["core/src/tui.rs", "core/src/bin/ced.rs", "Cargo.toml", "core/Cargo.toml"],
  [("changes", "core/src/tui.rs Term::start"), ("taking them back", "core/src/tui.rs Drop for Term"), ("life of the value", "core/src/bin/ced.rs main")],
  "who-may-change analysis over all commands of the terminal library, with dominators (MIR); abstract interpretation of the destructors; reachability of what ends the process",
  "Assumed: the process is not killed by a signal, and values in reference counters form no cycles. A terminal that no longer takes commands is not put back. Sequences within the text of a buffer are passed on to the terminal.")

P("C39", "What a client is shown of its buffers is their text and its own selections",
  "The view sent to a client is made from its own view and its own selections for that view, or none when it has none: one item for each buffer of the view in order, with its name, 1 and its number of lines, and in it, for each time the buffer is shown, every line of the buffer whole and in order with one space added. What is marked as selected in a line is exactly the part from a selection's begin on its first line to the end of its last character on its last line, the lines between whole, of the selections that client has in that buffer; a line without a selection has no mark. A part of a buffer is never shown.",
  ["inputs", "histories"], "all views, texts and selections, of all clients", "The tests render no view with a selection.",
  ["core/src/editor/view.rs", "core/src/editor/core.rs", "core/src/editor/buffer.rs"],
  [("rendering", "core/src/editor/view.rs View::to_notification_params"), ("whose view", "core/src/editor/core.rs Core::notify_view_update and the first view of a client"), ("lines and ranges", "core/src/editor/buffer.rs Buffer::lines, line_count, selection_range")],
  "abstract interpretation (MIR) of the rendering, with positions compared as terms of the selection's begin and end, and of every function that sends one; who makes a lens, over all constructions",
  "How the tree of pieces finds lines and offsets is not analysed. Where a selection begins or ends inside a character the mark goes to the character's beginning. The lines shown by the terminal client are C38's.")

RT = "Round trips and equality of computed texts quantify over the values of strings and offsets; which pieces the tree holds and which ranges a difference has is arithmetic on run-time lengths that no static rule in reach bounds. The clauses visible in the shape of the code are claimed under "
N("C17", "A reloaded buffer equals its file, and only the lines that differ are replaced",
  "After a reload the text of a buffer equals the content of its file (with a line break at its end), whatever text it held before; offsets outside the lines that differ keep their text.",
  ["inputs"], "all pairs of old and new texts", "The tests compare a few pairs of short texts.",
  ["core/src/editor/diff.rs", "core/src/editor/buffer.rs"], [("difference of two texts", "core/src/editor/diff.rs"), ("application to the buffer", "core/src/editor/buffer.rs load_from_disk")],
  RT + "C18 (what text the difference is taken from and when) and C14, C15 (who is told, and what is cut).")
N("C34", "The piece table is the text that its operations describe",
  "After any sequence of insertions, deletions, undo and redo the text of a piece table equals the string the same operations make of the initial text; undo restores exactly the text before.",
  ["inputs", "histories"], "all sequences of operations", "The tests try a few sequences.",
  ["core/src/editor/piece_table/mod.rs"], [("operations", "core/src/editor/piece_table/mod.rs PieceTable")],
  RT + "C15 and C18 (no selection beyond the text, no empty text).")
N("C35", "Offsets and coordinates convert into each other without loss",
  "For every text, converting an offset into line and column and back gives the offset, and lines and columns enumerate the characters in order.",
  ["inputs"], "all texts and offsets", "The tests use a handful of texts.",
  ["core/src/editor/piece_table/mod.rs", "core/src/editor/piece_table/position.rs"], [("conversions", "core/src/editor/piece_table/mod.rs offset_to_coord, coord_to_offset")],
  RT + "C21 (which position a motion asks for).")
N("C36", "A client that does not read delays nobody else",
  "A client that stops reading its stream delays neither the requests nor the notifications of the others.",
  ["schedules", "fault_sequences"], "all patterns of slow clients", "No test has a slow client.",
  [SRV], [("broadcast writes to every stream in turn", "core/src/server.rs")],
  "Timing of the operating system's socket buffers. (The present design writes to every stream in turn with awaited writes, so that one full stream delays the others: a limit of the design, not of one line of code; see DESIGN.md.)")
