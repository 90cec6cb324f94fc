"""Path-sensitive abstract interpretation of the MIR facts.

Values are hash-consed symbolic terms; a path is a list of events (calls of functions that are not
analysed further, iteration steps, panics) together with the branch conditions under which they happen.
Local functions, closures, async blocks and the std combinators of models.rs are expanded in place, so a
rule sees what the code does, not how it is cut into functions. Loops are followed for a bounded number of
rounds (first round, a further round, exit after each). Nothing is executed and no solver is involved.
"""
import json
import os
import re
import sys

sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "a", "id")
    tab = {}
    n = 0

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op,) + a
    t = T.tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        T.n += 1
        t.id = T.n
        T.tab[k] = t
    return t


UNIT = mk("unit")
TRUE = mk("bool", True)
FALSE = mk("bool", False)


def boolean(b):
    return TRUE if b else FALSE


def integer(v):
    return mk("int", v)


def string(s):
    return mk("str", s)


def agg(kind, adt, variant, fields):
    return mk("agg", kind, adt, variant, tuple(fields))


def some(x):
    return agg("adt", "core::option::Option", "Some", (("0", x),))


NONE = agg("adt", "core::option::Option", "None", ())


def ok(x):
    return agg("adt", "core::result::Result", "Ok", (("0", x),))


def err(x):
    return agg("adt", "core::result::Result", "Err", (("0", x),))


def tup(*xs):
    return agg("tuple", "", "", tuple((str(i), x) for i, x in enumerate(xs)))


def field(b, name):
    return mk("field", b, name)


def short(p):
    return re.sub(r"::<[^:]*>", "", p).replace("std::", "")


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 12:
        return "…"
    a = t.a
    s = lambda x: show(x, d + 1)
    if t.op in ("int", "bool", "char"):
        return str(a[0])
    if t.op == "str":
        return repr(a[0])
    if t.op == "unit":
        return "()"
    if t.op == "arg":
        return a[0]
    if t.op == "field":
        return "%s.%s" % (s(a[0]), a[1])
    if t.op == "vf":
        return "%s@%s.%s" % (s(a[0]), a[1], a[2])
    if t.op == "agg":
        k, adt, var, fs = a
        if k == "tuple":
            return "(%s)" % ", ".join(s(f[1]) for f in fs)
        if k == "array":
            return "[%s]" % ", ".join(s(f[1]) for f in fs)
        if k in ("closure", "coroutine"):
            var = ""
        nm = adt.split("::")[-1] if k == "adt" else adt
        if var:
            nm = var if nm in ("Option", "Result") else nm + "::" + var
        return "%s{%s}" % (nm, ", ".join("%s:%s" % (f[0], s(f[1])) for f in fs)) if fs else nm
    if t.op == "call":
        return "%s(%s)#%s" % (short(a[0]), ", ".join(s(x) for x in a[1]), a[3])
    if t.op == "pure":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    if t.op == "fn":
        return "fn:" + a[1]
    if t.op == "fmt":
        return "fmt(%s)" % ", ".join(s(x) for x in a[0])
    return "%s(%s)" % (t.op, ", ".join(s(x) for x in a))


def subterms(t, seen=None):
    """All terms inside t, t included."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


def mentions(t, sub):
    return sub in subterms(t)


def norm(p):
    """std path without generic arguments: std::option::Option::unwrap"""
    out = []
    d = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<" and p[i - 2:i] == "::":
            d2 = 1
            j = i + 1
            while j < len(p) and d2:
                if p[j] == "<":
                    d2 += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d2 -= 1
                j += 1
            body = p[i:j]
            if body.startswith("<impl "):
                out.append(body)
            else:
                # drop "::"
                out.pop()
                out.pop()
            i = j
            continue
        out.append(c)
        i += 1
    return "".join(out)


class Facts:
    def __init__(self, d, models=None):
        self.dir = d
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.crates = {}
        for n in sorted(os.listdir(d)):
            if not n.endswith(".json"):
                continue
            with open(os.path.join(d, n)) as f:
                j = json.load(f)
            self._add(j, n[:-5])
        if models:
            with open(models) as f:
                self._add(json.load(f), "models")
        self.by_path = {}
        for f in self.fns.values():
            self.by_path.setdefault(f["path"], []).append(f)
        self.children = {}
        for f in self.fns.values():
            if f.get("parent"):
                self.children.setdefault(f["parent"], []).append(f["id"])
        self.trait_impl = {}
        for im in self.impls:
            if im.get("trait"):
                self.trait_impl.setdefault(im["trait"], []).append(im)
        self._prep = {}

    def _add(self, j, name):
        self.crates[name] = [f["id"] for f in j["fns"]]
        for f in j["fns"]:
            f["unit"] = name
            # the binary's crate is also called ced
            k = f["id"] if name != "ced.bin" else "bin:" + f["id"]
            if name == "ced.bin":
                f["id"] = k
                if f.get("parent"):
                    f["parent"] = "bin:" + f["parent"]
            self.fns[k] = f
        for a in j["adts"]:
            self.adts[a["path"]] = a
        for im in j["impls"]:
            im["unit"] = name
            self.impls.append(im)

    def fn(self, path):
        """The unique function with this path."""
        fs = self.by_path.get(path)
        if not fs:
            return None
        return fs[0]

    def real(self):
        return [f for f in self.fns.values() if f["unit"] != "models"]

    def derived(self, f):
        sp = f.get("span") or ["", 0, ""]
        return sp[2].startswith("#[derive") or "Serialize" in sp[2] or "Deserialize" in sp[2] or "_serde" in f["path"] or "_::" in f["path"]


LOG_ARGS = ("log::Level", "log::LevelFilter")

def names(s):
    """whitespace separated paths, each possibly with one `<impl T>` segment"""
    return re.findall(r"\S*<impl [^>]*>\S*|\S+", s)


# receiver/argument returned as is
IDENT = set(names("""
std::ops::Deref::deref std::ops::DerefMut::deref_mut std::convert::AsRef::as_ref std::convert::AsMut::as_mut
std::borrow::Borrow::borrow std::borrow::BorrowMut::borrow_mut std::string::String::as_str std::string::String::as_mut_str
std::string::String::as_bytes core::str::<impl str>::as_bytes std::vec::Vec::as_slice std::vec::Vec::as_mut_slice
std::path::PathBuf::as_path std::path::Path::new std::option::Option::as_ref std::option::Option::as_deref
std::result::Result::as_ref std::iter::IntoIterator::into_iter std::iter::Iterator::by_ref
std::pin::Pin::new std::pin::Pin::new_unchecked std::pin::Pin::get_unchecked_mut std::pin::Pin::as_mut std::pin::Pin::get_mut
std::future::IntoFuture::into_future std::hint::must_use std::cell::RefCell::borrow std::cell::RefCell::borrow_mut
std::cell::RefCell::get_mut std::sync::Mutex::get_mut std::string::String::into_boxed_str std::boxed::Box::as_ref
std::convert::identity core::slice::<impl [T]>::iter core::slice::<impl [T]>::iter_mut
std::collections::HashMap::iter std::collections::HashMap::iter_mut std::collections::HashSet::iter
std::collections::BTreeMap::iter std::collections::BTreeMap::iter_mut std::collections::BTreeSet::iter
std::vec::Vec::iter std::vec::Vec::drain std::io::Write::by_ref std::io::Read::by_ref
futures_lite::stream::StreamExt::fuse std::option::Option::iter std::collections::HashMap::into_iter
std::task::Context::from_waker core::ffi::CStr::as_ptr std::ptr::NonNull::as_ptr std::io::Stdin::lock std::io::Stdout::lock
std::ffi::OsStr::new std::path::PathBuf::as_os_str std::path::Path::as_os_str std::iter::Iterator::fuse
futures_lite::pin std::mem::ManuallyDrop::new std::mem::ManuallyDrop::into_inner
std::boxed::Box::leak std::boxed::Box::into_pin std::boxed::Box::pin std::iter::Iterator::peekable
std::cell::Cell::new
"""))
# value of the argument
VALUE = set(names("""
std::borrow::ToOwned::to_owned std::iter::Iterator::cloned std::iter::Iterator::copied std::option::Option::cloned
std::option::Option::copied std::string::String::into_bytes std::string::String::into_string core::slice::<impl [T]>::to_vec std::slice::<impl [T]>::to_vec
std::rc::Rc::new std::sync::Arc::new std::boxed::Box::new std::cell::RefCell::new std::sync::Mutex::new std::sync::RwLock::new
std::path::Path::to_path_buf std::path::PathBuf::from std::string::String::from std::cell::RefCell::into_inner
std::rc::Rc::clone std::sync::Arc::clone std::path::PathBuf::into_os_string
core::slice::<impl [T]>::into_vec std::borrow::Cow::into_owned std::mem::ManuallyDrop::into_inner
std::vec::Vec::into_boxed_slice core::str::<impl str>::to_owned std::cell::Cell::get
"""))
PURE = set(names("""
core::str::<impl str>::is_empty core::str::<impl str>::len core::str::<impl str>::starts_with core::str::<impl str>::ends_with
core::str::<impl str>::contains std::string::String::is_empty std::string::String::len std::vec::Vec::is_empty std::vec::Vec::len
core::slice::<impl [T]>::len core::slice::<impl [T]>::is_empty core::slice::<impl [T]>::contains core::slice::<impl [T]>::first
core::slice::<impl [T]>::last std::collections::HashMap::is_empty std::collections::HashMap::len
std::collections::BTreeMap::is_empty std::collections::BTreeMap::len std::collections::BTreeSet::len std::collections::BTreeSet::is_empty
std::collections::HashSet::len std::collections::HashSet::is_empty std::collections::HashSet::contains std::collections::BTreeSet::contains
core::str::<impl str>::chars std::path::Path::file_name std::path::Path::parent std::path::Path::to_str std::path::Path::display
std::path::Path::is_absolute std::iter::Iterator::count std::iter::Iterator::nth std::iter::Iterator::skip std::iter::Iterator::take std::iter::Iterator::rev std::iter::Iterator::step_by
std::iter::Iterator::last std::path::Path::join std::env::var std::env::temp_dir std::env::current_dir core::str::<impl str>::lines
core::str::<impl str>::split_whitespace core::str::<impl str>::trim core::str::<impl str>::replace core::str::<impl str>::to_lowercase
std::collections::BTreeSet::range std::collections::BTreeSet::get core::char::methods::<impl char>::to_ascii_lowercase
core::char::methods::<impl char>::is_ascii_uppercase core::slice::<impl [T]>::concat core::slice::<impl [T]>::join
core::str::<impl str>::repeat std::string::String::from_utf8_lossy std::ffi::OsStr::to_str core::str::<impl str>::match_indices
std::slice::<impl [T]>::join std::slice::<impl [T]>::concat std::str::<impl str>::repeat std::str::<impl str>::replace
core::str::<impl str>::find core::str::<impl str>::strip_prefix core::str::<impl str>::split
"""))
LEN = {"std::string::String::len", "core::str::<impl str>::len", "std::vec::Vec::len", "core::slice::<impl [T]>::len",
       "std::collections::HashMap::len", "std::collections::BTreeMap::len", "std::collections::BTreeSet::len",
       "std::collections::HashSet::len"}
ISEMPTY = {p[:-3] + "is_empty" for p in LEN}
MAPT = ("std::collections::HashMap::", "std::collections::BTreeMap::", "std::collections::hash_map::HashMap::")
SETT = ("std::collections::HashSet::", "std::collections::BTreeSet::")
MUTATORS = set("push insert remove clear pop append retain truncate drain push_str extend sort sort_by dedup swap_remove "
               "push_front push_back pop_front pop_back sort_unstable reverse set_len resize".split())


class Frame:
    __slots__ = ("fn", "uid", "bb", "env", "dest", "ret", "tsub", "wrap", "visits", "si", "dty")

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.uid = self.uid
        f.bb = self.bb
        f.env = dict(self.env)
        f.dest = self.dest
        f.ret = self.ret
        f.tsub = self.tsub
        f.wrap = self.wrap
        f.visits = dict(self.visits)
        f.si = self.si
        f.dty = self.dty
        return f


class Event:
    __slots__ = ("kind", "name", "args", "res", "sp", "facts", "chain", "x", "mem", "seq", "ver")

    def __repr__(self):
        return "%s %s(%s)%s" % (self.kind, short(self.name), ", ".join(map(show, self.args)),
                                " -> " + show(self.res) if self.res is not None and self.kind == "call" else "")

    def where(self):
        return "%s:%s" % (self.sp[0], self.sp[1]) if self.sp else "?"


class State:
    __slots__ = ("frames", "mem", "facts", "events", "ver", "counts", "spawned")

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.events = list(self.events)
        s.ver = dict(self.ver)
        s.counts = dict(self.counts)
        s.spawned = list(self.spawned)
        return s


class Path:
    def __init__(self, st, status, ret=None, info=None):
        self.events = st.events
        self.facts = st.facts
        self.mem = st.mem
        self.status = status
        self.ret = ret
        self.info = info
        self.spawned = st.spawned
        self.ver = st.ver

    def calls(self, *suffixes):
        return [e for e in self.events if e.kind == "call" and any(e.name.endswith(s) for s in suffixes)]


class TooBig(Exception):
    pass


class Engine:
    def __init__(self, facts, opaque=(), iters=2, maxpaths=6000, maxsteps=3_000_000, keep=None, inline_spawn=False,
                 depth=40, expand=None, asserts=False, opaque_models=(), reads=False, rounds=None, dedupe=True, purefns=None,
                 alias=None, stores=False, keep_elems=False, known=None):
        self.given = known      # term -> its variant, where the rule takes it for granted
        self.inline_parse = False
        self.pureext = None
        self.keep_elems = keep_elems    # what is known of loop elements stays known
        self.F = facts
        self.stores = stores        # emit ("store", location, [new value]) when memory behind a reference changes
        self._sp = None
        self.opaque = opaque if callable(opaque) else self._mk_opaque(opaque)
        self.iters = iters
        self.maxpaths = maxpaths
        self.maxsteps = maxsteps
        self.keep = keep
        self.depth = depth
        self.asserts = asserts
        self.steps = 0
        self.fns_seen = set()
        self.calls_seen = set()
        self.opaque_models = set(opaque_models)
        self.rounds = rounds    # collection -> how many of its elements a path visits at most
        self.purefns = purefns or (lambda f: False)     # local functions whose value depends on their arguments only
        self.alias = alias or (lambda f: None)          # local function -> library function it behaves like
        self.impl_cache = {}
        self.dedupe = dedupe
        self._merge = {}
        self.cuts = []          # paths abandoned at the loop bound: their events still happened

    def _mk_opaque(self, pats):
        pats = tuple(pats)

        def f(path):
            return any(path == p or (p.endswith("*") and path.startswith(p[:-1])) for p in pats)
        return f

    # ---------------------------------------------------------------- running
    def run(self, fn, args=None, facts=None, tsub=None, mem=None):
        """All paths through fn. args: list of terms (default: one symbolic argument per parameter)."""
        f = fn if isinstance(fn, dict) else (self.F.fns.get(fn) or self.F.fn(fn))
        if f is None:
            raise KeyError("no function %s" % fn)
        if args is None:
            args = [self.argterm(f, i) for i in range(f["args"])]
        st = State()
        st.frames = []
        st.mem = dict(mem or {})
        st.facts = dict(facts or {})
        st.events = []
        st.ver = {}
        st.counts = {}
        st.spawned = []
        self.push(st, f, args, None, None, tsub or {}, None, "r")
        return self.explore(st)

    def argterm(self, f, i):
        nm = f["locals"][i + 1][1] or ("_%d" % (i + 1))
        return mk("arg", nm, f["id"], i)

    def run_value(self, callee, args):
        """Paths of calling a closure/coroutine/function value."""
        st = State()
        st.frames = []
        st.mem = {}
        st.facts = {}
        st.events = []
        st.ver = {}
        st.counts = {}
        st.spawned = []
        d = callee.a[1]
        f = self.F.fns[d]
        a = [callee] + list(args)
        while len(a) < f["args"]:
            a.append(mk("arg", f["locals"][len(a) + 1][1] or "_%d" % (len(a) + 1), f["id"], len(a)))
        self.push(st, f, a[:max(f["args"], 1)], None, None, dict(callee.a[2] or ()), None, "r")
        return self.explore(st)

    def push(self, st, f, args, dest, ret, tsub, wrap, uid, dty=None):
        fr = Frame()
        fr.fn = f
        fr.uid = uid
        fr.bb = 0
        fr.si = 0
        fr.env = {}
        for i, a in enumerate(args):
            fr.env[i + 1] = a
        fr.dest = dest
        fr.ret = ret
        fr.tsub = tsub
        fr.wrap = wrap
        fr.visits = {}
        fr.dty = dty
        st.frames.append(fr)
        self.fns_seen.add(f["id"])

    # ---------------------------------------------------------------- memory
    def frame_of(self, st, uid):
        for f in reversed(st.frames):
            if f.uid == uid:
                return f
        return None

    def proj(self, st, v, p):
        k = p[0]
        if k == "f":
            nm = p[2]
            if v.op == "agg":
                for n, x in v.a[3]:
                    if n == nm:
                        return x
                if v.a[0] == "closure" or v.a[0] == "coroutine" or v.a[0] == "tuple":
                    fs = v.a[3]
                    if p[1] < len(fs):
                        return fs[p[1]][1]
                return mk("field", v, nm)
            if v.op == "ref":
                v = self.load(st, v)
                return self.proj(st, v, p)
            if v.op == "elemkv":
                return v.a[int(nm)]
            t = mk("field", v, nm)
            return st.mem.get(t, t)
        if k == "v":
            if v.op == "ref":
                v = self.load(st, v)
            if v.op == "agg":
                return v
            return mk("down", v, p[1])
        if k == "i":
            return None
        if k == "ci":
            if v.op == "ref":
                v = self.load(st, v)
            if v.op == "agg" and v.a[0] == "array":
                i = p[1]
                fs = v.a[3]
                if p[2]:
                    i = len(fs) - i
                if 0 <= i < len(fs):
                    return fs[i][1]
            t = mk("idx", v, mk("fromend" if p[2] else "int", p[1]))
            return st.mem.get(t, t)
        if k == "ss":
            return mk("pure", "slice", v, str(p[1:]))
        return mk("proj", v, k)

    def load(self, st, r):
        """value behind a ref term (or the term itself if it is a symbolic location)"""
        if r.op != "ref":
            return st.mem.get(r, r)
        fr = self.frame_of(st, r.a[0])
        if fr is None:
            return mk("dangling", r)
        v = fr.env.get(r.a[1])
        if v is None:
            v = mk("uninit", r.a[0], r.a[1])
        for p in r.a[2]:
            v = self.step_proj(st, v, p)
        return v

    def step_proj(self, st, v, p):
        if p[0] == "d":
            if v.op == "ref":
                return self.load(st, v)
            return st.mem.get(v, v)
        if p[0] == "f" and v.op == "down":
            t = mk("vf", v.a[0], v.a[1], p[2])
            return st.mem.get(t, t)
        if p[0] == "idx":
            t = self.idx(st, v, p[1])
            return st.mem.get(t, t)
        return self.proj(st, v, p)

    def idx(self, st, v, key):
        if v.op == "ref":
            v = self.load(st, v)
        if v.op == "agg" and v.a[0] == "array" and key.op == "int":
            fs = v.a[3]
            if 0 <= key.a[0] < len(fs):
                return fs[key.a[0]][1]
        return mk("idx", v, key)

    def value(self, st, t):
        """term as a value: refs to locals are read"""
        n = 0
        while t.op == "ref" and n < 10:
            t = self.load(st, t)
            n += 1
        return t

    def deepval(self, st, t, d=0):
        """like value, and refs inside aggregates are read too (for events)"""
        t = self.value(st, t)
        if t.op == "agg" and d < 6:
            fs = t.a[3]
            nf = tuple((n, self.deepval(st, x, d + 1)) for n, x in fs)
            if any(a[1] is not b[1] for a, b in zip(fs, nf)):
                return agg(t.a[0], t.a[1], t.a[2], nf)
        return st.mem.get(t, t) if t.op != "agg" else t

    def place(self, st, fr, p):
        """-> (uid|None, local|term, projs) after resolving derefs of refs"""
        base = (fr.uid, p[0])
        projs = []
        for q in p[1:]:
            if q[0] == "d":
                v = self.read_lv(st, base, projs)
                if v.op == "ref":
                    base = (v.a[0], v.a[1])
                    projs = list(v.a[2])
                else:
                    base = (None, v)
                    projs = []
            elif q[0] == "i":
                k = fr.env.get(q[1]) or mk("uninit", fr.uid, q[1])
                projs.append(("idx", self.value(st, k)))
            elif q[0] == "f":
                projs.append(("f", q[1], q[2]))
            elif q[0] == "v":
                projs.append(("v", q[1]))
            else:
                projs.append(tuple(q))
        return base, projs

    def read_lv(self, st, base, projs):
        if base[0] is None:
            v = st.mem.get(base[1], base[1])
        else:
            fr = self.frame_of(st, base[0])
            v = fr.env.get(base[1]) if fr else None
            if v is None:
                v = mk("uninit", base[0], base[1])
        for p in projs:
            v = self.step_proj(st, v, p)
        return v

    def read(self, st, fr, p):
        if len(p) == 1:
            v = fr.env.get(p[0])
            return v if v is not None else mk("uninit", fr.uid, p[0])
        b, pr = self.place(st, fr, p)
        return self.read_lv(st, b, pr)

    def write(self, st, fr, p, val):
        if len(p) == 1:
            fr.env[p[0]] = val
            return
        b, pr = self.place(st, fr, p)
        self.write_lv(st, b, pr, val)

    def write_lv(self, st, base, projs, val):
        if base[0] is None:
            root = base[1]
            if not projs:
                st.mem[root] = val
                self.stored(st, root, val)
                return
            cur = st.mem.get(root, root)
            nv = self.upd(st, cur, projs, val)
            if nv is not cur:
                st.mem[root] = nv
            return
        fr = self.frame_of(st, base[0])
        if fr is None:
            return
        if not projs:
            fr.env[base[1]] = val
            return
        cur = fr.env.get(base[1]) or mk("uninit", base[0], base[1])
        nv = self.upd(st, cur, projs, val)
        if nv is not cur:
            fr.env[base[1]] = nv

    def stored(self, st, loc, val):
        if self.stores and st.frames:
            self.emit(st, "store", loc.op, [loc, val], sp=self._sp)

    def upd(self, st, v, projs, val):
        p = projs[0]
        rest = projs[1:]
        if p[0] == "v":
            if v.op == "agg":
                return self.upd(st, v, rest, val) if rest else val
            d = mk("down", v, p[1])
            if not rest:
                return val
            self.upd(st, d, rest, val)
            return v
        if v.op == "ref":
            self.write_lv(st, (v.a[0], v.a[1]), list(v.a[2]) + list(projs), val)
            return v
        if p[0] == "f" and v.op == "agg":
            fs = list(v.a[3])
            hit = False
            for i, (n, x) in enumerate(fs):
                if n == p[2] or (v.a[0] in ("closure", "coroutine", "tuple") and i == p[1]):
                    hit = True
                    nx = val if not rest else self.upd(st, x, rest, val)
                    fs[i] = (n, nx)
                    break
            if not hit:
                fs.append((p[2], val))
            return agg(v.a[0], v.a[1], v.a[2], fs)
        if p[0] == "f" and v.op == "down":
            t = mk("vf", v.a[0], v.a[1], p[2])
        elif p[0] == "f":
            t = mk("field", v, p[2])
        elif p[0] == "idx":
            t = self.idx(st, v, p[1])
        elif p[0] == "d":
            t = v
        else:
            t = mk("proj", v, str(p))
        if not rest:
            st.mem[t] = val
            self.bump(st, t)
            self.stored(st, t, val)
            return v
        w = st.mem.get(t, t)
        r = self.upd(st, w, rest, val)
        if r is not w:
            st.mem[t] = r
        return v

    def scalar_struct(self, ty):
        a = self.F.adts.get(ty)
        return bool(a) and a["kind"] == "Struct" and all(re.match(r"([ui]\d+|usize|isize|bool|char)$", f[1]) for f in a["variants"][0]["fields"])

    def snapshot(self, st, v, ty):
        """copy of a small struct: later changes of the original do not show"""
        fs = []
        for i, f in enumerate(self.F.adts[ty]["variants"][0]["fields"]):
            fs.append((f[0], self.value(st, self.proj(st, v, ("f", i, f[0])))))
        return agg("adt", ty, "", tuple(fs))

    # versions of symbolic objects
    def bump(self, st, obj):
        st.ver[obj] = st.ver.get(obj, 0) + 1

    def version(self, st, obj):
        n = 0
        t = obj
        d = 0
        while isinstance(t, T) and d < 30:
            n += st.ver.get(t, 0)
            if t.op in ("field", "idx", "vf", "elem", "values", "keys", "down"):
                t = t.a[0]
            else:
                break
            d += 1
        return n

    # ---------------------------------------------------------------- operands
    def const(self, st, o, fr=None):
        if "fn" in o and o["fn"] is not None:
            return self.fnterm(o["fn"], fr)
        if "closure" in o:
            return agg("closure", o["closure"], self.gen(fr), ())
        if "promoted" in o:
            return self.promoted(st, o["promoted"])
        if "str" in o:
            return string(o["str"])
        if "bytes" in o:
            return mk("bytes", tuple(o["bytes"]))
        if "int" in o:
            v = o["int"]
            return integer(int(v))
        if "bool" in o:
            return boolean(o["bool"])
        if "char" in o:
            return mk("char", o["char"])
        if "item" in o:
            it = o["item"]
            f = self.F.fns.get(it)
            if f is not None and f.get("kind", "").startswith(("Const", "AssocConst")) and not f.get("args"):
                v = self.promoted(st, it)
                if v.op != "promoted":
                    return v
            return self.assoc_const(o, fr)
        if "adt" in o:
            fs = o.get("fields") or []
            return agg("adt", self.canon(o["adt"]), o.get("variant") or "",
                       tuple((n, self.const(st, x, fr)) for n, x in fs if isinstance(x, dict)) if fs and isinstance(fs[0], list) else ())
        if o.get("ty") == "()":
            return UNIT
        if o.get("zst"):
            return mk("zst", o.get("ty", ""))
        if "bits" in o:
            return mk("bits", str(o["bits"]), o.get("ty", ""))
        return mk("const", json.dumps(o, sort_keys=True))

    def assoc_const(self, o, fr):
        # <T as Trait>::NAME with T known through the frame's substitution
        it = o["item"]
        subs = tuple(self.ty(s, fr) for s in (o.get("isubsts") or []))
        name = it.split("::")[-1]
        if subs:
            for im in self.F.impls:
                if im.get("self") == subs[0]:
                    for x in im["items"]:
                        if x["name"] == name and "value" in x:
                            return self.const(None, x["value"], fr)
        return mk("constitem", it, subs)

    def gen(self, fr):
        return tuple(sorted(fr.tsub.items())) if fr is not None and fr.tsub else ""

    def canon(self, adt):
        return adt

    def fnterm(self, fn, fr):
        subs = tuple(self.ty(s, fr) for s in fn.get("substs", []))
        key = json.dumps({k: v for k, v in fn.items() if k not in ("substs",)}, sort_keys=True)
        return mk("fn", fn["id"], fn["path"], subs, key)

    def ty(self, s, fr):
        if fr is None or not fr.tsub or not s:
            return s
        for k, v in fr.tsub.items():
            if k.startswith("impl "):
                s = s.replace(k, v)
            elif k in s:
                s = re.sub(r"(?<![\w:])%s(?![\w:])" % re.escape(k), lambda m: v, s)
        return s

    def promoted(self, st, pid):
        v = self.F._prep.get(pid)
        if v is not None:
            return v
        f = self.F.fns.get(pid)
        if f is None:
            return mk("promoted", pid)
        e = Engine(self.F, opaque=lambda p: True, iters=1, maxpaths=4)
        try:
            ps = e.run(f, [])
            v = ps[0].ret if len(ps) == 1 and ps[0].ret is not None else mk("promoted", pid)
        except (TooBig, KeyError):
            v = mk("promoted", pid)
        self.F._prep[pid] = v
        return v

    def operand(self, st, fr, o):
        if o["k"] == "const":
            return self.const(st, o, fr)
        p = o["p"]
        v = self.read(st, fr, p)
        if o["k"] == "move" and len(p) == 1:
            fr.env.pop(p[0], None)
        return v

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, rv):
        r = rv["r"]
        if r == "use":
            return self.operand(st, fr, rv["o"])
        if r == "ref":
            b, pr = self.place(st, fr, rv["p"])
            if b[0] is None:
                if not pr:
                    return b[1]
                v = b[1]
                # a location inside a symbolic object
                cur = st.mem.get(v, v)
                for i, p in enumerate(pr):
                    if cur.op == "agg":
                        return self.read_lv(st, b, pr)
                    if p[0] == "f" and cur.op == "down":
                        cur2 = mk("vf", cur.a[0], cur.a[1], p[2])
                    elif p[0] == "f":
                        if cur.op == "elemkv":
                            cur2 = cur.a[int(p[2])]
                        else:
                            cur2 = mk("field", cur, p[2])
                    elif p[0] == "v":
                        cur2 = mk("down", cur, p[1])
                    elif p[0] == "idx":
                        cur2 = self.idx(st, cur, p[1])
                    else:
                        cur2 = self.proj(st, cur, p)
                    last = i == len(pr) - 1
                    cur = cur2 if last else st.mem.get(cur2, cur2)
                return cur
            fr2 = self.frame_of(st, b[0])
            # a reference into a symbolic value held by a local names the location itself
            v = fr2.env.get(b[1]) if fr2 else None
            if v is not None and v.op not in ("agg",) and pr:
                return self.locof(st, v, pr)
            if v is not None and v.op == "agg" and pr:
                # walk aggregates; if we reach a symbolic component, name its location
                cur = v
                for i, p in enumerate(pr):
                    if cur.op == "agg":
                        cur = self.step_proj(st, cur, p)
                    elif cur.op == "ref":
                        break
                    else:
                        return self.locof(st, cur, pr[i:])
            return mk("ref", b[0], b[1], tuple(pr))
        if r == "cast":
            v = self.operand(st, fr, rv["o"])
            if rv["kind"].startswith(("IntToInt", "FloatToInt", "IntToFloat")) and v.op not in ("int",):
                return mk("cast", v, rv["ty"])
            return v
        if r == "bin":
            a = self.value(st, self.operand(st, fr, rv["a"]))
            b = self.value(st, self.operand(st, fr, rv["b"]))
            return self.binop(rv["op"], a, b)
        if r == "un":
            a = self.value(st, self.operand(st, fr, rv["o"]))
            if rv["op"] == "Not":
                return self.neg(a)
            if rv["op"] == "PtrMetadata":
                return self.pure(st, "len", [a])
            return mk("un", rv["op"], a)
        if r == "discr":
            v = self.read(st, fr, rv["p"])
            v = self.value(st, v)
            return mk("discr", v, tuple((int(x[0]), x[1]) for x in rv["vars"]))
        if r == "agg":
            ops = [self.operand(st, fr, o) for o in rv["ops"]]
            ak = rv["ak"]
            if ak == "adt":
                fs = rv.get("fields") or []
                a = self.F.adts.get(rv["adt"])
                var = rv.get("variant") or ""
                if a is None or a["kind"] == "Struct":
                    if rv["adt"] not in ("core::option::Option", "core::result::Result") and a is not None:
                        var = ""
                return agg("adt", rv["adt"], var, tuple((str(n), x) for n, x in zip(fs, ops)))
            if ak == "tuple":
                return tup(*ops) if ops else UNIT
            if ak == "array":
                return agg("array", "", "", tuple((str(i), x) for i, x in enumerate(ops)))
            if ak in ("closure", "coroutine"):
                names = (self.F.fns.get(rv["def"]) or {}).get("upvars") or []
                return agg(ak, rv["def"], self.gen(fr), tuple((names[i] if i < len(names) else str(i), x) for i, x in enumerate(ops)))
            return mk("rawptr", *ops)
        if r == "repeat":
            return mk("repeat", self.operand(st, fr, rv["o"]), str(rv.get("n", "")))
        return mk("rv", r)

    def locof(self, st, cur, pr):
        for i, p in enumerate(pr):
            if cur.op == "ref":
                return mk("ref", cur.a[0], cur.a[1], tuple(cur.a[2]) + tuple(pr[i:]))
            if cur.op == "agg":
                cur = self.step_proj(st, cur, p)
                continue
            if p[0] == "f" and cur.op == "down":
                n = mk("vf", cur.a[0], cur.a[1], p[2])
            elif p[0] == "f" and cur.op == "elemkv":
                n = cur.a[int(p[2])]
            elif p[0] == "f":
                n = mk("field", cur, p[2])
            elif p[0] == "v":
                n = mk("down", cur, p[1])
            elif p[0] == "idx":
                n = self.idx(st, cur, p[1])
            elif p[0] == "d":
                n = cur
            else:
                n = self.proj(st, cur, p)
            cur = n if i == len(pr) - 1 else st.mem.get(n, n)
        return cur

    def binop(self, op, a, b):
        wo = op.endswith("WithOverflow")
        o = op[:-len("WithOverflow")] if wo else op
        o = o.replace("Unchecked", "")
        if a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            r = None
            if o == "Add":
                r = integer(x + y)
            elif o == "Sub":
                r = integer(x - y)
            elif o == "Mul":
                r = integer(x * y)
            elif o in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                return boolean({"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y, "Eq": x == y, "Ne": x != y}[o])
            if r is not None:
                return tup(r, FALSE) if wo else r
        if o == "Lt":
            return self.lt(a, b)
        if o == "Gt":
            return self.lt(b, a)
        if o == "Ge":
            return self.neg(self.lt(a, b))
        if o == "Le":
            return self.neg(self.lt(b, a))
        if o == "Eq":
            return self.eq(a, b)
        if o == "Ne":
            return self.neg(self.eq(a, b))
        if o in ("BitAnd", "BitOr") and (a.op == "bool" or b.op == "bool"):
            c, x = (a, b) if a.op == "bool" else (b, a)
            if o == "BitAnd":
                return x if c.a[0] else FALSE
            return TRUE if c.a[0] else x
        if o == "BitAnd":
            return mk("and", *sorted((a, b)))
        if o == "BitOr":
            return mk("or", *sorted((a, b)))
        if o == "Add":
            if a.op == "int":
                a, b = b, a
            if b.op == "int" and b.a[0] == 0:
                t = a
            elif b.op == "int" and a.op == "bin" and a.a[0] == "Add" and a.a[2].op == "int":
                t = mk("bin", "Add", a.a[1], integer(a.a[2].a[0] + b.a[0]))
            else:
                t = mk("bin", "Add", a, b)
        else:
            t = mk("bin", o, a, b)
        return tup(t, mk("ovf", o, a, b)) if wo else t

    def neg(self, t):
        if t.op == "bool":
            return boolean(not t.a[0])
        if t.op == "not":
            return t.a[0]
        return mk("not", t)

    def lt(self, a, b):
        if a is b:
            return FALSE
        if a.op == "int" and b.op == "int":
            return boolean(a.a[0] < b.a[0])
        # 0 < len(x), len(x) < 1
        if a.op == "int" and a.a[0] == 0 and b.op == "pure" and b.a[0] == "len":
            return self.neg(mk("pure", "is_empty", *b.a[1:]))
        if b.op == "int" and b.a[0] == 1 and a.op == "pure" and a.a[0] == "len":
            return mk("pure", "is_empty", *a.a[1:])
        if b.op == "int" and b.a[0] == 0 and a.op == "pure" and a.a[0] == "len":
            return FALSE
        return mk("lt", a, b)

    def eq(self, a, b):
        a = self.strip(a)
        b = self.strip(b)
        if a is b:
            return TRUE
        if a.op in ("int", "str", "bool", "char") and b.op in ("int", "str", "bool", "char"):
            return boolean(a.op == b.op and a.a[0] == b.a[0])
        if b.id < a.id:
            a, b = b, a
        for x, y in ((a, b), (b, a)):
            if x.op == "int" and x.a[0] == 0 and y.op == "pure" and y.a[0] == "len":
                return mk("pure", "is_empty", *y.a[1:])
            if x.op == "str" and x.a[0] == "":
                return mk("pure", "is_empty", y)
            if x.op == "bool":
                return y if x.a[0] else self.neg(y)
        if a.op == "agg" and b.op == "agg" and a.a[:2] == b.a[:2]:
            if a.a[2] != b.a[2]:
                return FALSE
            fa, fb = a.a[3], b.a[3]
            if len(fa) == len(fb) == 0:
                return TRUE
        return mk("eq", a, b)

    def strip(self, t, st=None):
        while t.op in ("clone",):
            if st is not None and st.ver.get(t, 0):
                break           # a copy that was changed since
            t = t.a[0]
        return t

    def pure(self, st, name, args):
        args = [self.value(st, a) for a in args]
        if args:
            a0 = args[0]
            if name in ("len", "is_empty"):
                a0 = self.strip(a0, st)
                if a0.op == "agg" and a0.a[0] == "array":
                    n = len(a0.a[3])
                    return integer(n) if name == "len" else boolean(n == 0)
                if a0.op == "str":
                    n = len(a0.a[0].encode())
                    return integer(n) if name == "len" else boolean(n == 0)
            v = self.version(st, a0)
            if v:
                a0 = mk("at", a0, v)
            args[0] = a0
        return mk("pure", name, *args)

    # ---------------------------------------------------------------- facts
    def known(self, st, t):
        """True/False/None for a boolean term"""
        if t.op == "bool":
            return t.a[0]
        if t.op == "not":
            k = self.known(st, t.a[0])
            return None if k is None else not k
        if t.op == "and":
            ks = [self.known(st, x) for x in t.a]
            if False in ks:
                return False
            return True if all(k for k in ks) else None
        if t.op == "or":
            ks = [self.known(st, x) for x in t.a]
            if True in ks:
                return True
            return False if all(k is False for k in ks) else None
        k = st.facts.get(t)
        if k is not None:
            return k
        if t.op == "lt":
            a, b = t.a
            if st.facts.get(mk("lt", b, a)):
                return False
            e = self.eq(a, b)
            if st.facts.get(e):
                return False
            if st.facts.get(mk("lt", b, a)) is False and st.facts.get(e) is False:
                return True
            # unsigned integers: x < c1 known and c1 <= c2
            if b.op == "int":
                for f, v in st.facts.items():
                    if f.op == "lt" and f.a[0] is a and f.a[1].op == "int":
                        if v and f.a[1].a[0] <= b.a[0]:
                            return True
                        if v is False and f.a[1].a[0] >= b.a[0]:
                            return False
                    if f.op == "eq" and v and a in f.a:
                        o = f.a[0] if f.a[1] is a else f.a[1]
                        if o.op == "int":
                            return o.a[0] < b.a[0]
            if a.op == "int":
                for f, v in st.facts.items():
                    if f.op == "lt" and f.a[1] is b and f.a[0].op == "int":
                        if v and f.a[0].a[0] >= a.a[0]:
                            return True
                        if v is False and f.a[0].a[0] <= a.a[0]:
                            return False
                    if f.op == "eq" and v and b in f.a:
                        o = f.a[0] if f.a[1] is b else f.a[1]
                        if o.op == "int":
                            return a.a[0] < o.a[0]
        if t.op == "eq":
            a, b = t.a
            l1, l2 = st.facts.get(mk("lt", a, b)), st.facts.get(mk("lt", b, a))
            if l1 or l2:
                return False
            if l1 is False and l2 is False:
                return True
            for x, y in ((a, b), (b, a)):
                if y.op in ("int", "str", "char"):
                    for f, v in st.facts.items():
                        if v and f.op == "eq" and x in f.a and f is not t:
                            o = f.a[0] if f.a[1] is x else f.a[1]
                            if o.op == y.op and o is not y:
                                return False
                    if y.op == "str" and y.a[0] and st.facts.get(mk("pure", "is_empty", x)):
                        return False
        if t.op == "pure" and t.a[0] == "is_empty" and len(t.a) == 2:
            x = t.a[1]
            for f, v in st.facts.items():
                if f.op == "eq" and v and x in f.a:
                    o = f.a[0] if f.a[1] is x else f.a[1]
                    if o.op == "str" and o.a[0]:
                        return False
        return None

    def assume(self, st, t, val):
        """record boolean fact; False if contradictory"""
        if t.op == "bool":
            return t.a[0] == val
        if t.op == "not":
            return self.assume(st, t.a[0], not val)
        k = self.known(st, t)
        if k is not None:
            return k == val
        if t.op == "and" and val:
            return all(self.assume(st, x, True) for x in t.a)
        if t.op == "or" and not val:
            return all(self.assume(st, x, False) for x in t.a)
        st.facts[t] = val
        return True

    def variant(self, st, v):
        v = self.value(st, v)
        if v.op == "agg":
            return v.a[2]
        k = st.facts.get(mk("variant", v))
        if isinstance(k, str):
            return k
        if self.given and k is None:
            return self.given(v)
        return None

    def split(self, st, v, names):
        """[(state, name)] for the possible variants of v"""
        v = self.value(st, v)
        k = self.variant(st, v)
        if k is not None:
            return [(st, k)]
        f = st.facts.get(mk("variant", v))
        if isinstance(f, tuple):
            names = [n for n in names if n not in f[1]]
        out = []
        for i, n in enumerate(names):
            s2 = st if i == len(names) - 1 else st.copy()
            s2.facts[mk("variant", v)] = n
            out.append((s2, n))
        return out

    def payload(self, st, v, variant, name="0"):
        v = self.value(st, v)
        if v.op == "agg":
            for n, x in v.a[3]:
                if n == name:
                    return x
            return UNIT
        t = mk("vf", v, variant, name)
        return st.mem.get(t, t)

    # ---------------------------------------------------------------- events
    def emit(self, st, kind, name, args, res=None, sp=None, x=None):
        if self.keep is not None and kind == "call" and not self.keep(name):
            return
        e = Event()
        e.kind = kind
        e.name = name
        e.args = tuple(args)
        e.res = res
        e.sp = sp
        e.facts = dict(st.facts)
        e.mem = dict(st.mem)
        e.ver = dict(st.ver)
        e.chain = tuple(f.fn["id"] for f in st.frames)
        e.x = x
        e.seq = len(st.events)
        st.events.append(e)

    # ---------------------------------------------------------------- stepping
    def merges(self, f):
        m = self._merge.get(f["id"])
        if m is None:
            cnt = {}
            for b in f["blocks"]:
                if b["c"]:
                    continue
                for x in succ(b["t"]):
                    cnt[x] = cnt.get(x, 0) + 1
            m = {x for x, c in cnt.items() if c > 1}
            self._merge[f["id"]] = m
        return m

    def gc_key(self, st):
        live = set()
        for fr in st.frames:
            for v in fr.env.values():
                subterms(v, live)
        for k, v in st.mem.items():
            subterms(v, live)
        for e in st.events:         # what is known of a result that rules see stays known
            if e.res is not None and e.kind in ("call", "await", "iter"):
                live.add(e.res)
            if self.keep_elems and e.kind == "iter":
                for a in e.args[1:]:
                    live |= subterms(a)
        facts = {}
        for k, v in st.facts.items():
            if self.live_fact(k, live):
                facts[k] = v
        st.facts = facts
        return (tuple((fr.fn["id"], fr.bb, fr.uid, tuple(sorted(fr.env.items(), key=lambda z: z[0])),
                       tuple(sorted(fr.visits.items()))) for fr in st.frames),
                frozenset(st.mem.items()), frozenset(facts.items()),
                tuple((e.kind, e.name, e.args, e.res) for e in st.events))

    def live_fact(self, k, live):
        for x in subterms(k):
            if x.op in ("call", "elem", "await") and x not in live:
                return False
        return True

    def step(self, st):
        fr = st.frames[-1]
        f = fr.fn
        blk = f["blocks"][fr.bb]
        if fr.si == 0:
            n = fr.visits.get(fr.bb, 0) + 1
            if n > self.iters + 1:
                return Path(st, "cut")
            fr.visits[fr.bb] = n
            if self.dedupe and fr.bb in self.merges(f):
                k = self.gc_key(st)
                if k in self.seen:
                    return Path(st, "dup")
                self.seen.add(k)
        for s in blk["s"]:
            k = s["s"]
            if k == "=":
                v = self.rvalue(st, fr, s["rv"])
                if s["rv"]["r"] == "use" and s["rv"]["o"]["k"] == "copy" and len(s["p"]) == 1 and v.op not in ("agg", "ref") and \
                        any(q[0] == "d" for q in s["rv"]["o"]["p"][1:]) and self.scalar_struct(fr.fn["locals"][s["p"][0]][0]):
                    v = self.snapshot(st, v, fr.fn["locals"][s["p"][0]][0])
                self._sp = s.get("sp")
                self.write(st, fr, s["p"], v)
            elif k == "dead":
                fr.env.pop(s["l"], None)
            elif k == "setd":
                pass
        t = blk["t"]
        k = t["t"]
        if k == "goto":
            fr.bb = t["to"]
            return None
        if k == "drop":
            fr.bb = t["to"]
            return None
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "return":
            return self.ret(st)
        if k == "call":
            return self.call(st, fr, t)
        if k == "assert":
            if self.asserts:
                self.emit(st, "assert", t["kind"], [self.value(st, self.operand(st, fr, o)) for o in t.get("ops", [])]
                          + [self.value(st, self.operand(st, fr, t["cond"]))], sp=t.get("sp"), x=t["exp"])
            fr.bb = t["to"]
            return None
        if k == "yield":
            fr.bb = t["to"]
            return None
        return Path(st, "stuck" if k != "unreachable" else "cut", info=k)

    def ret(self, st):
        fr = st.frames[-1]
        v = fr.env.get(0, UNIT)
        # references to this frame's locals die with it
        if v.op == "ref" and v.a[0] == fr.uid:
            v = self.load(st, v)
        if v.op == "agg":
            v = self.escape(st, v, fr.uid)
        st.frames.pop()
        if fr.wrap == "ready":
            v = agg("adt", "core::task::poll::Poll", "Ready", (("0", v),))
        elif callable(fr.wrap):
            v = fr.wrap(v)
        if not st.frames:
            return Path(st, "return", ret=v)
        up = st.frames[-1]
        if fr.ret is None:
            return Path(st, "panic")
        self.write(st, up, fr.dest, v)
        up.bb = fr.ret
        return None

    def escape(self, st, v, uid, d=0):
        if v.op == "ref" and v.a[0] == uid:
            return self.escape(st, self.load(st, v), uid, d + 1)
        if v.op == "agg" and d < 8:
            fs = tuple((n, self.escape(st, x, uid, d + 1)) for n, x in v.a[3])
            return agg(v.a[0], v.a[1], v.a[2], fs)
        return v

    def switch(self, st, fr, t):
        v = self.value(st, self.operand(st, fr, t["o"]))
        ts = t["ts"]
        els = t.get("else")
        if v.op in ("int", "bool", "char"):
            iv = int(v.a[0]) if v.op != "char" else ord(v.a[0])
            for val, to in ts:
                if int(val) == iv:
                    fr.bb = to
                    return None
            fr.bb = els
            return None
        if v.op == "discr":
            base, vars_ = v.a
            names = dict(vars_)
            kv = self.variant(st, base)
            if kv is not None:
                for val, to in ts:
                    if names.get(int(val)) == kv:
                        fr.bb = to
                        return None
                fr.bb = els
                return None
            key = mk("variant", base)
            no = st.facts.get(key)
            excl = no[1] if isinstance(no, tuple) else frozenset()
            out = []
            listed = []
            for val, to in ts:
                n = names.get(int(val))
                listed.append(n)
                if n in excl:
                    continue
                out.append((n, to))
            rest = [n for n in names.values() if n not in listed and n not in excl]
            if els is not None and rest and not self.is_unreachable(fr, els):
                if len(rest) == 1:
                    out.append((rest[0], els))
                else:
                    out.append((("not", frozenset(listed) | excl), els))
            res = []
            for i, (n, to) in enumerate(out):
                s2 = st if i == len(out) - 1 else st.copy()
                s2.facts[key] = n
                s2.frames[-1].bb = to
                res.append(s2)
            return res
        if t["ty"] == "bool":
            k = self.known(st, v)
            if k is not None:
                fr.bb = self.target(ts, els, int(k))
                return None
            s2 = st.copy()
            res = []
            for s, b in ((st, True), (s2, False)):
                if self.assume(s, v, b):
                    s.frames[-1].bb = self.target(ts, els, int(b))
                    res.append(s)
            return res
        res = []
        cur = st
        for val, to in ts:
            if t["ty"] == "char":
                c = mk("char", chr(int(val)))
            else:
                c = integer(int(val))
            e = self.eq(v, c)
            s2 = cur.copy()
            if self.assume(s2, e, True):
                s2.frames[-1].bb = to
                res.append(s2)
            if not self.assume(cur, e, False):
                return res
        if els is not None and not self.is_unreachable(fr, els):
            cur.frames[-1].bb = els
            res.append(cur)
        return res

    def is_unreachable(self, fr, bb):
        return fr.fn["blocks"][bb]["t"]["t"] == "unreachable" and not fr.fn["blocks"][bb]["s"]

    def target(self, ts, els, v):
        for val, to in ts:
            if int(val) == v:
                return to
        return els

    # ---------------------------------------------------------------- calls
    def call(self, st, fr, t):
        fv = self.operand(st, fr, t["f"])
        args = [self.operand(st, fr, a) for a in t["args"]]
        atys = [self.ty(a, fr) for a in t["atys"]]
        return self.apply(st, fr, fv, args, atys, t)

    def done(self, st, t, val):
        fr = st.frames[-1]
        if t["to"] is None:
            return Path(st, "panic", info="diverge")
        self.write(st, fr, t["dest"], val)
        fr.bb = t["to"]
        return None

    def panic(self, st, t, kind, name, args):
        self.emit(st, "panic", name, args, sp=t.get("sp"), x=kind)
        return Path(st, "panic", info=kind)

    def inline(self, st, f, args, t, tsub, wrap=None):
        fr = st.frames[-1]
        key = (fr.uid, fr.bb)
        n = st.counts.get(("u",) + key, 0)
        st.counts[("u",) + key] = n + 1
        uid = "%s/%s:%d.%d" % (fr.uid, f["id"].split("::")[-1] if len(st.frames) < 3 else "", fr.bb, n)
        self.push(st, f, args, t["dest"], t["to"], tsub, wrap, uid)
        return None

    def active(self, st, fid):
        return sum(1 for x in st.frames if x.fn["id"] == fid)

    def callvalue(self, st, t, cv, args, wrap=None):
        """call a closure / fn item value with spread args"""
        v = self.value(st, cv)
        if v.op == "agg" and v.a[0] == "closure":
            f = self.F.fns.get(v.a[1])
            if f is not None and self.active(st, f["id"]) < 2 and not self.opaque(f["path"]):
                env = cv
                return self.inline(st, f, [env] + list(args), t, dict(v.a[2] or ()), wrap)
        if v.op == "fn":
            fn = json.loads(v.a[3])
            fn["substs"] = list(v.a[2])
            t2 = dict(t)
            if wrap:
                t2["wrap"] = wrap
            return self.apply_fn(st, st.frames[-1], fn, list(args), [""] * len(args), t2)
        fr = st.frames[-1]
        vals = [self.deepval(st, a) for a in args]
        res = self.fresh(st, fr, "callptr", [v] + vals)
        self.touch(st, args, None)
        self.emit(st, "call", "callptr", [v] + vals, res, t.get("sp"))
        return self.done(st, t, wrap(res) if wrap else res)

    def fresh(self, st, fr, name, vals):
        key = (fr.uid, fr.bb)
        n = st.counts.get(("c",) + key, 0)
        st.counts[("c",) + key] = n + 1
        site = "%s:%d" % (fr.fn["id"], fr.bb)
        # instance: which activation and which round
        return mk("call", name, tuple(vals), site, "%s.%d" % (self.uidn(fr.uid), n))

    _uids = {}

    def uidn(self, u):
        d = Engine._uids
        if u not in d:
            d[u] = len(d)
        return d[u]

    def touch(self, st, args, atys):
        """an unknown callee may change what it gets by &mut"""
        for i, a in enumerate(args):
            if atys is not None and not atys[i].startswith("&mut") and "Pin<&mut" not in atys[i]:
                continue
            if atys is None and a.op != "ref":
                continue
            if a.op == "ref":
                v = self.load(st, a)
                if v.op == "agg" or v.op in ("int", "bool", "str", "fmt", "unit"):
                    if atys is not None:
                        fr = st.frames[-1]
                        nv = mk("mut", v, fr.fn["id"], fr.bb, st.counts.get(("c", fr.uid, fr.bb), 0))
                        self.write_lv(st, (a.a[0], a.a[1]), list(a.a[2]), nv)
                else:
                    self.bump(st, v)
            else:
                self.bump(st, a)

    def apply(self, st, fr, fv, args, atys, t):
        if fv.op == "fn":
            fn = json.loads(fv.a[3])
            fn["substs"] = list(fv.a[2])
            return self.apply_fn(st, fr, fn, args, atys, t)
        return self.callvalue(st, t, fv, args)

    def find_impl(self, trait, selfty, name, tys=None):
        """method id of the local impl of trait for selfty"""
        key = (trait, selfty, name, tuple(tys or ()))
        if key in self.impl_cache:
            return self.impl_cache[key]
        r = None
        base = selfty.lstrip("&").replace("mut ", "")
        for im in self.F.trait_impl.get(trait, []):
            s = im["self"]
            if s == base or (("<" in s) and s.split("<")[0] == base.split("<")[0] and s.split("<")[0]):
                if tys is not None and len(tys) > 1:
                    tr = im.get("trait_ref", "")
                    if not self.trait_args_match(tr, tys[1:]):
                        continue
                for x in im["items"]:
                    if x["name"] == name:
                        r = x["id"]
                        break
                if r:
                    break
        self.impl_cache[key] = r
        return r

    def trait_args_match(self, tr, tys):
        m = re.search(r" as [^<]*<(.*)>>?$", tr)
        if not m:
            return True
        got = m.group(1)
        return all(x.split("::")[-1].rstrip(">") in got for x in tys)

    def apply_fn(self, st, fr, fn, args, atys, t):
        path = fn["path"]
        p = norm(path)
        wrap = t.get("wrap")

        def fin(v):
            return self.done(st, t, wrap(v) if wrap else v)

        # constructor
        if fn.get("ctor"):
            a = self.F.adts.get(fn["ctor"])
            var = fn.get("variant") or ""
            names = [str(i) for i in range(len(args))]
            return fin(agg("adt", fn["ctor"], var, tuple(zip(names, args))))

        # logging never matters
        if p == "log::max_level" or p.startswith("log::__private") or p == "log::logger":
            return fin(mk("log"))
        if p == "std::cmp::PartialOrd::le" and fn.get("substs", [""])[0] in LOG_ARGS:
            return fin(FALSE)

        loc = self.F.fns.get(fn.get("rid") or fn["id"])
        if loc is not None and loc["unit"] == "models" and loc["path"] == "models::retain_remove":
            loc = None
        lpath = loc["path"] if loc is not None else p
        al = self.alias(loc) if loc is not None and loc["unit"] != "models" else None
        if al:
            self.fns_seen.add(loc["id"])
            loc, p, lpath = None, al, al
        if loc is not None and loc["unit"] != "models" and self.purefns(loc):
            self.fns_seen.add(loc["id"])
            return fin(self.pure(st, lpath.rsplit("::", 1)[1], args))
        if loc is not None and self.opaque(lpath):
            return self.opaque_call(st, fr, lpath, fn, args, atys, t)
        if self.opaque(p):
            return self.opaque_call(st, fr, p, fn, args, atys, t)

        r = self.builtin(st, fr, p, fn, args, atys, t)
        if r is not NOTB:
            return r
        m = self.model(st, p, args, atys, t)
        if m is not None:
            return self.inline(st, m, args, t, fr.tsub, wrap)

        # local body
        if loc is None and fn.get("trait"):
            loc = self.dispatch(st, fn, args)
        if loc is not None and self.opaque(loc["path"]):
            return self.opaque_call(st, fr, loc["path"], fn, args, atys, t)
        if loc is not None and len(st.frames) < self.depth and self.active(st, loc["id"]) < 2:
            tsub = {}
            subs = fn.get("rsubsts") if fn.get("rid") and "rsubsts" in fn else fn.get("substs", [])
            subs = [self.ty(s, fr) for s in subs]
            gs = loc.get("generics") or []
            for g, s in zip(gs, subs):
                if g != s:
                    tsub[g] = s
            if len(args) < loc["args"]:
                args = args + [UNIT] * (loc["args"] - len(args))
            return self.inline(st, loc, args, t, tsub, wrap)
        return self.opaque_call(st, fr, lpath, fn, args, atys, t)

    def dispatch(self, st, fn, args):
        """trait method on a value whose type is known"""
        if not args:
            tys = fn.get("substs", [])
            mid = self.find_impl(fn["trait"], tys[0], fn["name"], tys) if tys else None
            return self.F.fns.get(mid) if mid else None
        v = self.value(st, args[0])
        tys = fn.get("substs", [])
        if v.op == "agg" and v.a[0] == "adt":
            mid = self.find_impl(fn["trait"], v.a[1], fn["name"], [v.a[1]] + tys[1:])
            if mid:
                return self.F.fns.get(mid)
        if tys:
            mid = self.find_impl(fn["trait"], tys[0], fn["name"], tys)
            if mid:
                return self.F.fns.get(mid)
        # default body of a local trait
        f = self.F.fns.get(fn["id"])
        return f

    def opaque_call(self, st, fr, name, fn, args, atys, t):
        vals = [self.deepval(st, a) for a in args]
        res = self.fresh(st, fr, name, vals)
        self.emit(st, "call", name, vals, res, t.get("sp"), x={"fn": fn, "raw": tuple(args), "atys": atys,
                                                              "substs": fn.get("substs")})
        if t["to"] is None:
            self.emit(st, "panic", name, vals, sp=t.get("sp"), x="diverge")
            return Path(st, "panic", info=name)
        self.touch(st, args, atys)
        if t.get("dty") == "()":
            res = UNIT
        w = t.get("wrap")
        return self.done(st, t, w(res) if w else res)

    def model(self, st, p, args, atys, t):
        parts = p.split("::")
        nm = parts[-1]
        key = None
        if p.startswith("std::option::Option::") :
            key = "option_" + nm
        elif p.startswith("std::result::Result::"):
            key = "result_" + nm
        elif p.startswith("std::iter::Iterator::"):
            v = self.value(st, args[0]) if args else None
            lazy = v is not None and v.op == "agg" and v.a[1].startswith("models::")
            if nm in ("count",) and not lazy:
                return None
            if nm == "collect":
                d = t.get("dty", "")
                if d.startswith("core::result::Result<alloc::vec::Vec"):
                    key = "iter_collect_result"
                elif d.startswith("std::collections::hash::map::HashMap"):
                    key = "iter_collect_map"
                elif d.startswith(("alloc::vec::Vec", "std::collections::hash::set::HashSet", "alloc::collections::btree::set::BTreeSet")):
                    key = "iter_collect_vec"
                else:
                    return None
                if not lazy and key == "iter_collect_vec":
                    return None
            else:
                key = "iter_" + nm
        elif p == "std::iter::Extend::extend" and atys and "vec::Vec" in atys[0]:
            key = "vec_extend"
        elif p in ("std::vec::Vec::retain",):
            key = "vec_retain"
        elif p in ("std::cmp::max", "std::cmp::min", "std::cmp::Ord::max", "std::cmp::Ord::min"):
            key = "cmp_" + nm
        elif parts[-2:-1] == ["<impl bool>"] or p.startswith("core::bool::<impl bool>"):
            key = "bool_" + nm
        if key is None or key in self.opaque_models:
            return None
        return self.F.fn("models::" + key)

    # primitives ------------------------------------------------------
    def builtin(self, st, fr, p, fn, args, atys, t):
        wrap = t.get("wrap")

        def fin(v, s=None):
            return self.done(s or st, t, wrap(v) if wrap else v)

        def many(lst):
            out = []
            for s, v in lst:
                if isinstance(v, Path):
                    out.append(("path", v))
                    continue
                r = self.done(s, t, wrap(v) if wrap else v)
                out.append(s if r is None else ("path", r))
            return self.forks(out)

        if p in IDENT:
            return fin(args[0])
        if p in VALUE:
            return fin(self.value(st, args[0]))
        if p == "std::clone::Clone::clone":
            v = self.value(st, args[0])
            ty = (fn.get("substs") or [""])[0]
            if v.op in ("agg", "int", "str", "bool", "char", "fmt", "fn", "unit"):
                return fin(v)
            if self.scalar_struct(ty) and v.op != "clone":
                return fin(self.snapshot(st, v, ty))
            if re.match(r"(&|alloc::(string::String|(rcs::)?rc::Rc|(rcs::)?sync::Arc)|std::path::PathBuf|usize|isize|[ui]\d+|bool|char|async_|std::sync|core::option::Option<(alloc::string::String|usize|&)|.*::(ServerStream|Id|Session|Coords|Selection|Text|TextFragment|Sender|Receiver|Notifier|Core|Request|Value|Focus)\b)", ty) or v.op == "clone":
                return fin(v)
            if ty.startswith("alloc::vec::Vec<") and v.op == "agg":
                return fin(v)
            self.fresh(st, fr, "clone", [])
            n = st.counts[("c", fr.uid, fr.bb)]
            return fin(mk("clone", v, "%s:%d.%d" % (fr.fn["id"], fr.bb, n)))
        if p in ("std::convert::From::from", "std::convert::Into::into"):
            tys = fn.get("substs") or []
            tys = [self.ty(x, fr) for x in tys]
            if len(tys) == 2:
                dst, src = (tys[0], tys[1]) if p.endswith("from") else (tys[1], tys[0])
                v = args[0]
                if dst == src:
                    return fin(v)
                if fn.get("rid") in self.F.fns and p.endswith("from"):
                    return NOTB
                mid = None
                for im in self.F.trait_impl.get("std::convert::From", []):
                    if im["self"] == dst and ("From<" in im.get("trait_ref", "")):
                        tr = im["trait_ref"]
                        mm = re.search(r"From<(.*)>>$", tr) or re.search(r"From<(.*)>$", tr)
                        s1 = mm.group(1) if mm else ""
                        if self.same_ty(s1, src):
                            mid = im["items"][0]["id"]
                if mid and mid in self.F.fns:
                    return self.inline(st, self.F.fns[mid], args, t, {}, wrap)
                if p.endswith("into"):
                    for im in self.F.trait_impl.get("std::convert::Into", []):
                        pass
                if dst.startswith("core::option::Option<") and not src.startswith("core::option::Option<") and not (
                        v.op == "agg" and v.a[0] == "adt" and v.a[1] == "core::option::Option"):
                    return fin(some(v))
            return fin(self.value(st, args[0]))
        if self.inline_parse and p.endswith("str>::parse"):
            dst = self.ty((fn.get("substs") or [""])[0], fr)
            for im in self.F.trait_impl.get("std::str::FromStr", []):
                if im["self"] == dst and im["items"] and im["items"][-1]["id"] in self.F.fns:
                    return self.inline(st, self.F.fns[im["items"][-1]["id"]], args, t, {}, wrap)
        if self.pureext and self.pureext(p):    # library functions whose value depends on their arguments only
            return fin(mk("pure", p, *[self.unref(st, self.value(st, a)) for a in args]))
        if p == "std::string::ToString::to_string":
            v = self.value(st, args[0])
            ty = (fn.get("substs") or [""])[0]
            if ty.lstrip("&") in ("str", "alloc::string::String", "&str") or v.op == "str":
                return fin(v)
            if v.op == "int":
                return fin(string(str(v.a[0])))
            return fin(mk("fmt", (v,)))
        if p in ("std::sync::Mutex::lock", "std::sync::RwLock::write", "std::sync::RwLock::read"):
            self.emit(st, "lock", p, [self.value(st, args[0])], sp=t.get("sp"))
            return fin(ok(args[0]))
        if p in ("std::mem::drop", "std::mem::forget"):
            return fin(UNIT)
        if p in LEN:
            return fin(self.pure(st, "len", [args[0]]))
        if p in ISEMPTY:
            return fin(self.pure(st, "is_empty", [args[0]]))
        if p in ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne"):
            a, b = self.value(st, args[0]), self.value(st, args[1])
            a, b = self.unref(st, a), self.unref(st, b)
            if fn.get("rid") in self.F.fns and not self.F.derived(self.F.fns[fn["rid"]]):
                return NOTB
            e = self.eq(a, b)
            return fin(e if p.endswith("eq") else self.neg(e))
        if p in ("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge"):
            if fn.get("rid") in self.F.fns:
                return NOTB
            a, b = self.value(st, args[0]), self.value(st, args[1])
            o = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[p.rsplit("::", 1)[1]]
            return fin(self.binop(o, a, b))
        if p in ("std::ops::Not::not",):
            return fin(self.neg(self.value(st, args[0])))
        # integers
        m = re.match(r"core::num::<impl [ui](?:size|\d+)>::(saturating_sub|saturating_add|wrapping_add|wrapping_sub|min|max|checked_sub|checked_add)$", p)
        if m:
            a, b = self.value(st, args[0]), self.value(st, args[1])
            if m.group(1) == "saturating_sub":
                return fin(mk("pure", "ssub", a, b))
            if m.group(1) in ("saturating_add", "wrapping_add"):
                return fin(self.binop("Add", a, b))
            return fin(mk("pure", m.group(1), a, b))
        # Option/Result access
        if p in ("std::option::Option::unwrap", "std::option::Option::expect", "std::result::Result::unwrap",
                 "std::result::Result::expect", "std::option::Option::unwrap_unchecked", "std::result::Result::expect_err",
                 "std::result::Result::unwrap_err"):
            isopt = "Option" in p
            good, bad = ("Some", "None") if isopt else ("Ok", "Err")
            if p.endswith("_err"):
                good, bad = bad, good
            v = self.value(st, args[0])
            out = []
            for s, n in self.split(st, v, [good, bad]):
                if n == good:
                    out.append((s, self.payload(s, v, good)))
                else:
                    self.emit(s, "panic", p, [v], sp=t.get("sp"), x={"ety": (fn.get("substs") or ["", ""])[-1], "v": v})
                    out.append((s, Path(s, "panic", info=p)))
            return many(out)
        if p == "std::option::Option::take" or p in ("std::mem::take", "std::mem::replace"):
            v = self.value(st, args[0])
            new = NONE if p.endswith("Option::take") else (args[1] if p.endswith("replace") else None)
            if new is None:
                new = self.fresh(st, fr, "default", [])
            self.emit(st, "write", p, [args[0], new], sp=t.get("sp"))
            if args[0].op == "ref":
                self.write_lv(st, (args[0].a[0], args[0].a[1]), list(args[0].a[2]), new)
            else:
                st.mem[args[0]] = new
                self.bump(st, args[0])
            return fin(v)
        if p in ("std::option::Option::as_mut", "std::option::Option::as_deref_mut"):
            a = args[0]
            if a.op == "ref":
                v = self.load(st, a)
                if v.op == "agg":
                    if v.a[2] == "None":
                        return fin(NONE)
                    return fin(some(mk("ref", a.a[0], a.a[1], tuple(a.a[2]) + (("v", "Some"), ("f", 0, "0")))))
                return fin(v)
            return fin(a)
        if p in ("std::option::Option::insert", "std::option::Option::replace"):
            v = self.value(st, args[0])
            if args[0].op == "ref":
                self.write_lv(st, (args[0].a[0], args[0].a[1]), list(args[0].a[2]), some(args[1]))
            else:
                st.mem[args[0]] = some(args[1])
            return fin(v if p.endswith("replace") else args[1])
        if p == "std::ops::Try::branch":
            v = self.value(st, args[0])
            isopt = (atys[0] if atys else "").startswith("core::option::Option")
            good, bad = ("Some", "None") if isopt else ("Ok", "Err")
            ty = atys[0] if atys else ""
            if ty.startswith("core::task::poll::Poll") or v.op == "agg" and v.a[1].endswith("::Poll"):
                v = self.payload(st, v, "Ready")
                out = []
                for s, n in self.split(st, v, ["Ok", "Err"]):
                    if n == "Ok":
                        out.append((s, agg("adt", "core::ops::ControlFlow", "Continue",
                                           (("0", agg("adt", "core::task::poll::Poll", "Ready", (("0", self.payload(s, v, "Ok")),))),))))
                    else:
                        out.append((s, agg("adt", "core::ops::ControlFlow", "Break", (("0", err(self.payload(s, v, "Err"))),))))
                return many(out)
            out = []
            for s, n in self.split(st, v, [good, bad]):
                if n == good:
                    out.append((s, agg("adt", "core::ops::ControlFlow", "Continue", (("0", self.payload(s, v, good)),))))
                else:
                    b = NONE if isopt else err(self.payload(s, v, "Err"))
                    out.append((s, agg("adt", "core::ops::ControlFlow", "Break", (("0", b),))))
            return many(out)
        if p == "std::ops::FromResidual::from_residual":
            return fin(self.value(st, args[0]))
        # calls through values
        if p in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"):
            a = self.value(st, args[1])
            spread = [x for _, x in a.a[3]] if a.op == "agg" else ([] if a is UNIT else [a])
            return self.callvalue(st, t, args[0], spread, wrap)
        if p in ("rlua::Lua::context", "std::thread::LocalKey::with", "rlua::Context::scope"):
            arg = mk("pure", "ctx:" + p, self.value(st, args[0]))
            self.emit(st, "enter", p, [self.value(st, args[0])], sp=t.get("sp"))
            return self.callvalue(st, t, args[1], [arg], wrap)
        # async
        if p == "std::future::get_context":
            return fin(mk("cx"))
        if p in ("std::future::Future::poll",):
            return self.poll(st, fr, args[0], t, "ready")
        if p in ("futures_lite::future::block_on", "async_io::block_on"):
            return self.poll(st, fr, args[0], t, None)
        if p in ("async_executor::LocalExecutor::run", "async_executor::Executor::run"):
            return fin(args[1])
        if p in ("async_executor::LocalExecutor::spawn", "async_executor::Executor::spawn"):
            v = self.deepval(st, args[1])
            st.spawned.append(v)
            self.emit(st, "spawn", p, [v], sp=t.get("sp"))
            return fin(self.fresh(st, fr, "task", [v]))
        if p in ("std::thread::spawn",):
            v = self.deepval(st, args[0])
            st.spawned.append(v)
            self.emit(st, "spawn", p, [v], sp=t.get("sp"))
            return fin(self.fresh(st, fr, "thread", [v]))
        # formatting
        if p.startswith("core::fmt::rt::Argument::new_"):
            v = self.deepval(st, args[0])
            if p.endswith("new_display"):
                return fin(mk("fa", v))
            return fin(mk("fa", mk("pure", p.rsplit("_", 1)[1], v)))
        if p == "std::fmt::Arguments::new":
            return fin(self.fmtargs(st, args))
        if p == "std::fmt::Arguments::from_str":
            v = self.value(st, args[0])
            return fin(mk("fmt", (v,)))
        if p == "std::fmt::Arguments::new_const":
            v = self.value(st, args[0])
            return fin(mk("fmt", (v,)))
        if p == "std::fmt::format" or p == "alloc::fmt::format":
            return fin(self.fmt_simplify(self.value(st, args[0])))
        if p in ("std::ops::Add::add",) and atys and atys[0].startswith("alloc::string::String"):
            a, b = self.value(st, args[0]), self.value(st, args[1])
            return fin(self.fmt_simplify(mk("fmt", (a, b))))
        if p in ("std::ops::AddAssign::add_assign", "std::string::String::push_str", "std::string::String::push") and atys and "String" in atys[0]:
            a, b = self.value(st, args[0]), self.value(st, args[1])
            if b.op == "char":
                b = string(b.a[0])
            nv = self.fmt_simplify(mk("fmt", (a, b)))
            if args[0].op == "ref":
                self.write_lv(st, (args[0].a[0], args[0].a[1]), list(args[0].a[2]), nv)
            else:
                st.mem[args[0]] = nv
            return fin(UNIT)
        if p in ("std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::collections::HashSet::new",
                 "std::collections::BTreeSet::new", "std::collections::HashSet::with_capacity") or \
                p == "std::default::Default::default" and (fn.get("substs") or [""])[0].startswith("alloc::vec::Vec<"):
            return fin(agg("array", "", "", ()))
        if p == "models::vec_take":
            v = self.value(st, args[0])
            self.write_to(st, args[0], agg("array", "", "", ()))
            return fin(v)
        if p == "std::string::String::new":
            return fin(string(""))
        if p == "std::default::Default::default":
            ty = (fn.get("substs") or [""])[0]
            if re.fullmatch(r"[ui](8|16|32|64|128|size)", ty):
                return fin(integer(0))
            if ty == "bool":
                return fin(FALSE)
            if ty in ("alloc::string::String", "&str"):
                return fin(string(""))
            if ty.startswith("core::option::Option<"):
                return fin(NONE)
        if p in ("std::ops::Add::add", "std::ops::Sub::sub"):
            a, b = self.value(st, args[0]), self.value(st, args[1])
            return fin(self.binop("Add" if p.endswith("add") else "Sub", a, b))
        if p in ("std::ops::AddAssign::add_assign", "std::ops::SubAssign::sub_assign"):
            a, b = self.value(st, args[0]), self.value(st, args[1])
            nv = self.binop("Add" if "Add" in p else "Sub", a, b)
            if args[0].op == "ref":
                self.write_lv(st, (args[0].a[0], args[0].a[1]), list(args[0].a[2]), nv)
            else:
                st.mem[args[0]] = nv
            return fin(UNIT)
        if p == "std::ops::RangeInclusive::new":
            return fin(mk("pure", "rangeincl", *[self.value(st, a) for a in args]))
        # iterators
        if p.startswith("std::iter::Iterator::"):
            nm = p.rsplit("::", 1)[1]
            if nm == "next":
                return self.next(st, fr, args, t, wrap)
            lz = {"map": "Map", "filter": "Filter", "filter_map": "FilterMap", "take_while": "TakeWhile", "inspect": "Inspect"}
            if nm in lz:
                return fin(agg("adt", "models::" + lz[nm], "", (("it", args[0]), ("f", args[1]))))
            if nm == "flat_map":
                return fin(agg("adt", "models::FlatMap", "", (("it", args[0]), ("f", args[1]), ("cur", NONE))))
            if nm == "flatten":
                return fin(agg("adt", "models::Flatten", "", (("it", args[0]), ("cur", NONE))))
            if nm == "enumerate":
                return fin(agg("adt", "models::Enumerate", "", (("it", args[0]), ("n", integer(0)))))
            if nm == "chain":
                return fin(agg("adt", "models::Chain", "", (("a", args[0]), ("b", args[1]), ("first", TRUE))))
            if nm == "collect":
                v = self.value(st, args[0])
                if not (v.op == "agg" and v.a[1].startswith("models::")):
                    if v.op == "agg" and v.a[0] == "array":
                        return fin(v)
                    self.fresh(st, fr, "collect", [])
                    return fin(mk("clone", v, "%s:%d" % (fr.fn["id"], fr.bb)))
                return NOTB
        # maps and sets
        for pre in MAPT:
            if p.startswith(pre):
                return self.mapop(st, fr, p[len(pre):], args, atys, t, fn, many, fin)
        if p.startswith(("std::collections::hash_map::Entry::", "std::collections::btree_map::Entry::")):
            return self.entryop(st, fr, p.rsplit("::", 1)[1], args, atys, t, many, fin)
        if p in ("std::ops::Index::index", "std::ops::IndexMut::index_mut"):
            m_ = self.value(st, args[0])
            k = self.strip(self.deepval(st, args[1]))
            if not (fn.get("rid") in self.F.fns):
                r = self.idx(st, m_, k)
                if self.asserts or "HashMap" in (atys[0] if atys else ""):
                    self.emit(st, "index", p, [m_, k], r, t.get("sp"), x={"has": self.has(st, m_, k), "aty": atys[0] if atys else ""})
                return fin(r)
        if p.startswith(SETT) or p.startswith("std::vec::Vec::") or p.startswith(("core::slice::<impl [T]>::", "std::slice::<impl [T]>::")):
            nm = p.rsplit("::", 1)[1]
            if nm in ("get", "get_mut") and not p.startswith(SETT):
                base = self.value(st, args[0])
                k = self.value(st, args[1])
                pt = self.pure(st, "in_bounds", [base, k])
                out = []
                kk = self.known(st, pt)
                s2 = st.copy() if kk is None else st
                if kk is not False and self.assume(st, pt, True):
                    out.append((st, some(self.idx(st, base, k))))
                if kk is not True and self.assume(s2, pt, False):
                    out.append((s2, NONE))
                return many(out)
            if nm in ("contains",):
                return fin(self.contains(st, args))
            if nm == "retain" and p.startswith("std::vec::Vec::") and self.value(st, args[0]).op == "agg":
                return NOTB
            if nm in MUTATORS:
                recv = self.value(st, args[0])
                vals = [recv] + [self.deepval(st, a) for a in args[1:]]
                res = self.fresh(st, fr, p, vals)
                self.emit(st, "call", p, vals, res, t.get("sp"), x={"fn": fn, "raw": tuple(args), "atys": atys})
                if recv.op == "agg":
                    if (nm == "push" or nm == "insert" and p.startswith(SETT)) and recv.a[0] == "array":
                        fs = recv.a[3]
                        v = args[1] if nm == "push" else self.deepval(st, args[1])
                        if nm == "push" or v not in [x for _, x in fs]:
                            self.write_to(st, args[0], agg("array", "", "", fs + ((str(len(fs)), v),)))
                    elif nm in ("sort", "sort_by", "sort_unstable", "reverse", "dedup") and recv.a[0] == "array" and len(recv.a[3]) < 2:
                        pass
                    elif nm == "clear" and recv.a[0] == "array":
                        self.write_to(st, args[0], agg("array", "", "", ()))
                    else:
                        self.touch(st, args[:1], atys[:1])
                else:
                    self.bump(st, recv)
                if nm == "push":
                    self.assume(st, self.pure(st, "is_empty", [recv]), False)
                if nm == "clear":
                    self.assume(st, self.pure(st, "is_empty", [recv]), True)
                if t.get("dty") == "()":
                    res = UNIT
                return fin(res)
        if p in PURE:
            nm = p.rsplit("::", 1)[1]
            return fin(self.pure(st, nm, [self.strip(self.deepval(st, a)) for a in args]))
        if p in ("std::boxed::Box::new_uninit",):
            return fin(self.fresh(st, fr, "box", []))
        if p == "std::boxed::box_assume_init_into_vec_unsafe":
            b = self.value(st, args[0])
            for k in (field(field(b, "value"), "value"), field(b, "value"), b):
                if k in st.mem:
                    return fin(st.mem[k])
            return fin(b)
        return NOTB

    def write_to(self, st, r, v):
        if r.op == "ref":
            self.write_lv(st, (r.a[0], r.a[1]), list(r.a[2]), v)
        else:
            st.mem[r] = v
            self.bump(st, r)
            self.stored(st, r, v)

    def unref(self, st, v):
        return self.strip(self.deepval(st, v))

    def same_ty(self, a, b):
        cl = lambda s: re.sub(r"\b(\w+::)+", "", s).replace("'a ", "").replace("'_ ", "").replace(" ", "")
        a, b = cl(a), cl(b)
        if a == b:
            return True
        b2 = re.sub(r",Global>", ">", b)
        return a == b2

    def contains(self, st, args):
        v = self.value(st, args[0])
        x = self.unref(st, args[1])
        if v.op == "agg" and v.a[0] == "array":
            es = [self.eq(self.unref(st, y), x) for _, y in v.a[3]]
            if TRUE in es:
                return TRUE
            es = [e for e in es if e is not FALSE]
            if not es:
                return FALSE
            if len(es) == 1:
                return es[0]
            return mk("or", *sorted(es))
        return self.pure(st, "contains", [v, x])

    def has(self, st, m, k):
        m = self.strip(m, st)
        v = self.version(st, m)
        return mk("pure", "has", mk("at", m, v) if v else m, self.strip(k))

    def carry(self, st, m, old, keep_false_for=None, removed=None):
        """after a change of m: keep what is still known about other keys"""
        m = self.strip(m, st)
        o = mk("at", m, old) if old else m
        nv = self.version(st, m)
        n = mk("at", m, nv)
        for f, v in list(st.facts.items()):
            if f.op == "pure" and f.a[0] == "has" and f.a[1] is o:
                k = f.a[2]
                if removed is not None:
                    if v and k is not removed and self.distinct(st, k, removed):
                        st.facts[mk("pure", "has", n, k)] = True
                    if not v:
                        st.facts[mk("pure", "has", n, k)] = False
                else:
                    if v:
                        st.facts[mk("pure", "has", n, k)] = True
                    elif keep_false_for is not None and self.distinct(st, k, keep_false_for):
                        st.facts[mk("pure", "has", n, k)] = False

    def distinct(self, st, a, b):
        if a.op in ("str", "int") and b.op == a.op:
            return a is not b
        return self.known(st, self.eq(a, b)) is False

    def mapop(self, st, fr, nm, args, atys, t, fn, many, fin):
        if not args:
            return NOTB
        m = self.value(st, args[0])
        if nm not in ("insert", "remove", "entry", "get_mut", "clear", "retain", "drain", "extend", "append", "iter_mut", "values_mut"):
            m = self.strip(m, st)
        key = self.strip(self.deepval(st, args[1])) if len(args) > 1 else None
        if nm == "contains_key":
            return fin(self.has(st, m, key))
        if nm in ("get", "get_mut", "get_key_value"):
            h = self.has(st, m, key)
            k = self.known(st, h)
            loc = self.idx(st, m, key)
            out = []
            s2 = st.copy() if k is None else st
            if k is not False and self.assume(st, h, True):
                out.append((st, some(loc if nm != "get_key_value" else tup(key, loc))))
            if k is not True and self.assume(s2, h, False):
                out.append((s2, NONE))
            self_ev = "get" if nm == "get" else nm
            for s, _ in out:
                self.emit(s, "mapget", self_ev, [m, key], sp=t.get("sp"))
            return many(out)
        if nm == "insert":
            val = args[2] if len(args) > 2 else None
            old = self.version(st, m)
            res = self.fresh(st, fr, "HashMap::insert", [m, key])
            self.emit(st, "call", "HashMap::insert", [m, key, self.deepval(st, val)], res, t.get("sp"),
                      x={"fn": fn, "atys": atys, "raw": tuple(args)})
            self.bump(st, m)
            self.carry(st, m, old, keep_false_for=key)
            self.assume(st, self.has(st, m, key), True)
            self.assume(st, self.pure(st, "is_empty", [m]), False)
            st.mem[self.idx(st, m, key)] = self.value(st, val)
            return fin(res)
        if nm in ("remove", "remove_entry"):
            h = self.has(st, m, key)
            k = self.known(st, h)
            out = []
            s2 = st.copy() if k is None else st
            for s, b in ((st, True), (s2, False)):
                if k is not None and k != b:
                    continue
                if not self.assume(s, h, b):
                    continue
                loc = self.idx(s, m, key)
                v = s.mem.get(loc, loc)
                old = self.version(s, m)
                self.emit(s, "call", "HashMap::remove", [m, key], v if b else NONE, t.get("sp"), x={"fn": fn, "atys": atys, "raw": tuple(args), "present": b})
                if b:
                    self.bump(s, m)
                    self.carry(s, m, old, removed=key)
                    self.assume(s, self.has(s, m, key), False)
                    s.mem.pop(loc, None)
                out.append((s, some(mk("removed", v, old)) if b else NONE))
            return many(out)
        if nm == "entry":
            return fin(mk("entry", m, key))
        if nm in ("values", "values_mut", "into_values"):
            return fin(mk("values", m))
        if nm in ("keys", "into_keys"):
            return fin(mk("keys", m))
        if nm in ("clear", "retain", "drain", "extend", "append"):
            self.emit(st, "call", "HashMap::" + nm, [m] + [self.deepval(st, a) for a in args[1:]], None, t.get("sp"), x={"fn": fn, "atys": atys, "raw": tuple(args)})
            self.bump(st, m)
            return fin(UNIT if nm != "drain" else m)
        return NOTB

    def entryop(self, st, fr, nm, args, atys, t, many, fin):
        e = self.value(st, args[0])
        if e.op != "entry":
            return NOTB
        m, key = e.a
        loc = self.idx(st, m, key)
        h = self.has(st, m, key)
        if nm in ("or_insert", "or_insert_with", "or_default", "or_insert_with_key"):
            out = []
            k = self.known(st, h)
            s2 = st.copy() if k is None else st
            if k is not False and self.assume(st, h, True):
                out.append((st, loc))
            if k is not True and self.assume(s2, h, False):
                frx = s2.frames[-1]
                if nm == "or_insert":
                    val = args[1]
                else:
                    val = self.fresh(s2, frx, "newentry", [m, key])
                old = self.version(s2, m)
                x = {"atys": atys, "ensure": True, "closure": self.deepval(s2, args[1]) if nm != "or_default" and len(args) > 1 else None}
                self.emit(s2, "call", "HashMap::insert", [m, key, self.deepval(s2, val)], None, t.get("sp"), x=x)
                self.bump(s2, m)
                self.carry(s2, m, old, keep_false_for=key)
                self.assume(s2, self.has(s2, m, key), True)
                self.assume(s2, self.pure(s2, "is_empty", [m]), False)
                s2.mem[self.idx(s2, m, key)] = self.value(s2, val) if nm == "or_insert" else s2.mem.get(loc, loc)
                out.append((s2, loc))
            return many(out)
        if nm == "and_modify":
            out = []
            k = self.known(st, h)
            s2 = st.copy() if k is None else st
            res = []
            if k is not True and self.assume(s2, h, False):
                r = self.done(s2, t, e)
                res.append(s2 if r is None else ("path", r))
            if k is not False and self.assume(st, h, True):
                r = self.callvalue(st, t, args[1], [loc], lambda v: e)
                res.append(st if r is None else ("path", r) if isinstance(r, Path) else r)
            flat = []
            for x in res:
                if isinstance(x, list):
                    flat.extend(x)
                else:
                    flat.append(x)
            return self.forks(flat)
        if nm == "key":
            return fin(key)
        return NOTB

    def forks(self, out):
        """list of states or ('path', Path)"""
        sts = [x for x in out if not isinstance(x, tuple)]
        paths = [x[1] for x in out if isinstance(x, tuple)]
        for p in paths:
            self.extra(p)
        if not sts:
            return self._dead(paths)
        return sts

    def _dead(self, paths):
        return []

    def extra(self, p):
        self._extra.append(p)

    def next(self, st, fr, args, t, wrap):
        a = args[0]
        v = self.value(st, a)
        if v.op == "agg" and v.a[0] == "adt" and v.a[1].startswith("models::"):
            name = v.a[1].split("::")[-1]
            f = None
            for im in self.F.trait_impl.get("std::iter::Iterator", []):
                if im["self"].startswith("models::%s<" % name):
                    f = self.F.fns[[x for x in im["items"] if x["name"] == "next"][0]["id"]]
            return self.inline(st, f, [a], t, {}, wrap)
        if v.op == "agg" and v.a[0] == "array":
            fs = v.a[3]
            if not fs:
                return self.done(st, t, wrap(NONE) if wrap else NONE)
            rest = agg("array", "", "", fs[1:])
            if a.op == "ref":
                self.write_lv(st, (a.a[0], a.a[1]), list(a.a[2]), rest)
                # the cell that holds the iterator, not the collection it refers to
            r = some(fs[0][1])
            return self.done(st, t, wrap(r) if wrap else r)
        if v.op == "agg" and v.a[0] == "adt":
            # a local Iterator impl
            mid = self.find_impl("std::iter::Iterator", v.a[1], "next")
            if mid:
                return self.inline(st, self.F.fns[mid], args, t, {}, wrap)
        src = v
        vv = self.version(st, self.strip(src))
        # rounds are counted per iterator, wherever its next() is called from
        cell = (a.a[0], a.a[1]) + tuple(a.a[2]) if a.op == "ref" else (a,)
        key = ("n", cell, src)
        n = st.counts.get(key, 0)
        st.counts[key] = n + 1
        fk = ("c", fr.uid, fr.bb)
        st.counts[fk] = st.counts.get(fk, 0) + 1
        s2 = st.copy()
        e = mk("elem", src, "%s:%d" % (fr.fn["id"], fr.bb), "%s.%d" % (self.uidn(fr.uid), st.counts[fk] - 1))
        item = self.iter_item(st, src, e)
        self.emit(st, "iter", "next", [src, item], item, t.get("sp"), x=vv)
        self.emit(s2, "exhausted", "next", [src], None, t.get("sp"), x=(vv, n))
        if n == 0:
            em = self.pure(st, "is_empty", [src.a[0] if src.op in ("values", "keys") else src])
            okk = self.assume(st, em, False)
            okk2 = self.assume(s2, em, True)
        else:
            okk = okk2 = True
        if self.rounds is not None and n >= self.rounds(src):
            okk = False
        out = []
        if okk2:
            r = self.done(s2, t, wrap(NONE) if wrap else NONE)
            out.append(s2)
        if okk:
            r = self.done(st, t, wrap(some(item)) if wrap else some(item))
            out.append(st)
        return out

    def iter_item(self, st, src, e):
        base = self.strip(src)
        if src.op == "values":
            k = mk("key", e)
            self.assume(st, self.has(st, src.a[0], k), True)
            return self.idx(st, self.strip(src.a[0]), k)
        if src.op == "keys":
            k = mk("key", e)
            self.assume(st, self.has(st, src.a[0], k), True)
            return k
        return e

    def poll(self, st, fr, a, t, wrap):
        v = self.value(st, a)
        if v.op == "agg" and v.a[0] == "coroutine":
            f = self.F.fns.get(v.a[1])
            if f is not None and self.active(st, f["id"]) < 2:
                return self.inline(st, f, [a, mk("cx")], t, dict(v.a[2] or ()), wrap)
        vals = [v]
        res = mk("await", v)
        self.emit(st, "await", "await", vals, res, t.get("sp"))
        if wrap == "ready":
            res = agg("adt", "core::task::poll::Poll", "Ready", (("0", res),))
        return self.done(st, t, res)

    def fmtargs(self, st, args):
        tpl = self.value(st, args[0])
        arr = self.value(st, args[1])
        items = [self.value(st, x) for _, x in arr.a[3]] if arr.op == "agg" else []
        vals = [x.a[0] if x.op == "fa" else x for x in items]
        if tpl.op != "bytes":
            return mk("fmt", tuple([mk("pure", "tpl", tpl)] + vals))
        b = tpl.a[0]
        out = []
        i = 0
        n = 0
        while i < len(b):
            c = b[i]
            i += 1
            if c == 0:
                break
            if c < 0x80:
                out.append(string(bytes(b[i:i + c]).decode("utf8", "replace")))
                i += c
            elif c == 0x80:
                ln = b[i] | (b[i + 1] << 8)
                i += 2
                out.append(string(bytes(b[i:i + ln]).decode("utf8", "replace")))
                i += ln
            else:
                opts = ""
                if c & 1:
                    opts += "f" + str(b[i:i + 4])
                    i += 4
                if c & 2:
                    opts += "w" + str(b[i:i + 2])
                    i += 2
                if c & 4:
                    opts += "p" + str(b[i:i + 2])
                    i += 2
                if c & 8:
                    n = b[i] | (b[i + 1] << 8)
                    i += 2
                v = vals[n] if n < len(vals) else mk("missing")
                n += 1
                out.append(v if not opts else mk("pure", "fmtopt", v, opts))
        return mk("fmt", tuple(out))

    def fmt_simplify(self, t):
        if t.op != "fmt":
            return t
        parts = []
        for x in t.a[0]:
            if x.op == "fmt":
                parts.extend(self.fmt_simplify(x).a[0] if self.fmt_simplify(x).op == "fmt" else [self.fmt_simplify(x)])
            else:
                parts.append(x)
        out = []
        for x in parts:
            if x.op == "int":
                x = string(str(x.a[0]))
            if x.op == "str" and out and out[-1].op == "str":
                out[-1] = string(out[-1].a[0] + x.a[0])
            elif x.op == "str" and not x.a[0]:
                continue
            else:
                out.append(x)
        if not out:
            return string("")
        if len(out) == 1 and out[0].op == "str":
            return out[0]
        return mk("fmt", tuple(out))

    _extra = None


NOTB = object()


def succ(t):
    k = t["t"]
    if k == "switch":
        r = [x[1] for x in t["ts"]]
        if t.get("else") is not None:
            r.append(t["else"])
        return r
    r = []
    if t.get("to") is not None:
        r.append(t["to"])
    return r


def _explore(self, st):
    out = []
    self.partial = out
    work = [st]
    self.seen = set()
    self._extra = []
    while work:
        s = work.pop()
        while True:
            self.steps += 1
            if self.steps > self.maxsteps:
                raise TooBig("steps")
            r = self.step(s)
            if self._extra:
                out.extend(self._extra)
                self._extra = []
            if r is None:
                continue
            if isinstance(r, Path):
                if r.status == "cut" and r.info is None:
                    self.cuts.append(r)
                if r.status not in ("cut", "dup"):
                    out.append(r)
                    if len(out) > self.maxpaths:
                        raise TooBig("paths")
                break
            if not r:
                break
            s = r[0]
            work.extend(r[1:])
    return out


Engine.explore = _explore


def load(models=True):
    import facts
    return Facts(facts.facts_dir(), facts.models_json() if models else None)
