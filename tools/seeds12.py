from mkseed import seed
EV = "remote-ffi/src/event.rs"; L = "remote-ffi/src/lib.rs"
PRE = '''
import ctypes

class Item(ctypes.Structure):
    _fields_ = [("buffer", ctypes.c_char_p), ("start", ctypes.c_uint32), ("end", ctypes.c_uint32), ("lenses", ctypes.c_void_p)]

class Status(ctypes.Structure):
    _fields_ = [("index", ctypes.c_int), ("text", ctypes.c_void_p)]

class Event(ctypes.Structure):
    _fields_ = [("tag", ctypes.c_int), ("a", ctypes.c_void_p), ("b", ctypes.c_void_p)]

def lib(s):
    for k in ("TMPDIR", "USER"):
        os.environ[k] = s.env[k]
    os.environ["CED_BIN"] = BIN
    sys.stdout = os.fdopen(os.dup(1), "w", 1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    l = ctypes.CDLL(os.path.join(os.getcwd(), "target", "debug", "libced_remote.so"))
    l.ced_connection_create.restype = ctypes.c_void_p
    l.ced_connection_next_event.argtypes = [ctypes.c_void_p]
    l.ced_connection_next_event.restype = ctypes.POINTER(Event)
    for n, t in (("view", Item), ("status", Status)):
        f = getattr(l, "ced_%s_next_item" % n)
        f.argtypes = [ctypes.c_void_p]
        f.restype = ctypes.POINTER(t)
    return l

def upto(l, con, tag, n=8):
    for _ in range(n):
        e = l.ced_connection_next_event(con)
        if e and e.contents.tag == tag:
            return e.contents
    check(False, "no event %d" % tag)
'''
seed("c26-line-count", "C26", [(EV, "end: item.end as u32,", "end: u32::from(item.end as u16),")], PRE + '''
def f():
    with Server("c26a", {"a": "x\\n" * 70000, "b": "x\\n" * 300}) as s:
        c = s.client()
        c.ok("edit", {"name": os.path.join(s.cwd, "b"), "scratch": False})
        c.ok("edit", {"name": os.path.join(s.cwd, "a"), "scratch": False})
        c.drain(2)
        l = lib(s)
        con = l.ced_connection_create(b"c26a")
        v = upto(l, con, 4)
        ends = []
        while True:
            it = l.ced_view_next_item(v.a)
            if not it:
                break
            ends.append((it.contents.start, it.contents.end))
        check(ends == [(1, 70000)], "the lines of the buffer: %s" % ends)
main(f)
''', "a buffer of more than 65535 lines", "the last line shown has another number in the C program")
seed("c26-list-again", "C26", [(L, "        let item = self.items.get(self.next_idx)?.to_owned();\n        self.next_idx += 1;\n        Some(U::from(item))", "        let item = match self.items.get(self.next_idx) {\n            Some(item) => item.to_owned(),\n            None => {\n                self.next_idx = 0;\n                return None;\n            }\n        };\n        self.next_idx += 1;\n        Some(U::from(item))")], PRE + '''
def f():
    for n in (0, 1, 2, 3, 4, 5, 7):
        with Server("c26b", {}) as s:
            c = s.client()
            c.ok("exec", "_EDITOR:set_status_line(tonumber(env.client), {%s})" % ", ".join("k%d = {index = %d, text = 't'}" % (i, i) for i in range(n)))
            l = lib(s)
            con = l.ced_connection_create(b"c26b")
            v = upto(l, con, 3)
            got = []
            for _ in range(40):
                it = l.ced_status_next_item(v.a)
                got.append(it.contents.index if it else None)
            k = got.index(None) if None in got else 40
            check(got[:k] == sorted(set(got[:k])) and not any(x is not None for x in got[k:]), "each item once, then null: %s" % got)
main(f)
''', "a C program that asks again after the end of a list", "the list begins anew after its end")
