"""Call graph and control flow over the compiler's MIR facts."""
import re
from absint import norm


def callee(t):
    f = t.get("f")
    return f.get("fn") if isinstance(f, dict) else None


def operands(b):
    """all operands and constants of a block"""
    def ops(x):
        if isinstance(x, dict):
            yield x
            for v in x.values():
                yield from ops(v)
        elif isinstance(x, list):
            for v in x:
                yield from ops(v)
    for s in b["s"]:
        yield from ops(s)
    yield from ops(b["t"])


def targets(t):
    k = t["t"]
    if k == "goto":
        return [t["to"]]
    if k == "switch":
        return [x[1] for x in t["ts"]] + ([t["else"]] if t.get("else") is not None else [])
    if k in ("call", "drop", "assert", "yield"):
        return [t["to"]] if t.get("to") is not None else []
    return []


class Graph:
    def __init__(self, F):
        self.F = F
        self.local = {f["id"]: f for f in F.real()}
        self.impl_of = {}        # self type head -> [fn ids of external trait impls]
        self.trait_items = {}    # (trait, item) -> [fn ids]
        self.ext_impl = {}
        self.self_of = {}
        for im in F.impls:
            if im.get("unit") == "models" or not im.get("trait"):
                continue
            for it in im["items"]:
                if "id" in it and it["id"] in self.local:
                    self.trait_items.setdefault((norm(im["trait"]), it["name"]), []).append(it["id"])
                    self.self_of[it["id"]] = im["self"]
                    self.ext_impl.setdefault(head(im["self"]), []).append((im["trait"], it["id"]))
        self.edges = {}
        self.refs = {}
        for f in self.local.values():
            self.edges[f["id"]] = self.out(f)

    def out(self, f):
        es = {}
        for bi, b in enumerate(f["blocks"]):
            if b.get("c"):       # cleanup
                continue
            for o in operands(b):
                c = o.get("fn") if "fn" in o and isinstance(o.get("fn"), dict) else None
                if c:
                    for r in self.resolve(c):
                        es.setdefault(r, bi)
                if o.get("closure") and o["closure"] in self.local:
                    es.setdefault(o["closure"], bi)
                if o.get("promoted"):
                    pass
            for s in b["s"]:
                rv = s.get("rv")
                if isinstance(rv, dict):
                    for k in ("closure", "coroutine", "id"):
                        if isinstance(rv.get(k), str) and rv[k] in self.local:
                            es.setdefault(rv[k], bi)
            t = b["t"]
            if t["t"] == "drop":
                for tr, i in self.ext_impl.get(head(t.get("ty", "")), []):
                    if norm(tr).endswith("Drop"):
                        es.setdefault(i, bi)
        for c in self.F.children.get(f["id"], []):
            if c in self.local:
                es.setdefault(c, 0)
        return es

    def resolve(self, c):
        out = set()
        for k in ("rid", "id"):
            if c.get(k) in self.local:
                out.add(c[k])
                if k == "rid":
                    break
        if out and not (c.get("trait") and c.get("rid") not in self.local):
            return out
        if c.get("trait") and not c.get("rid"):
            for i in self.trait_items.get((norm(c["trait"]), c.get("name")), []):
                out.add(i)
        if not out or c.get("rid") not in self.local:
            # an external function may call the trait implementations of the local types it is instantiated with
            n = norm(c.get("path", ""))
            subs = c.get("rsubsts") or c.get("substs") or []
            if n in ("std::convert::Into::into", "std::convert::From::from") and len(subs) > 1:
                subs = [subs[1] if n.endswith("into") else subs[0]]
            for s in subs:
                for h in heads(s):
                    for tr, i in self.ext_impl.get(h, []):
                        if norm(tr).endswith(("::From", "::FromStr", "::TryFrom")) and not n.endswith(("::into", "::from", "::parse", "::try_into", "from_residual")):
                            continue
                        if h.startswith("ced") or self.self_of.get(i) in s:
                            out.add(i)
        return out

    def reach(self, roots, stop=lambda f: False):
        seen, todo, parent = set(), list(roots), {}
        while todo:
            x = todo.pop()
            if x in seen or x not in self.local:
                continue
            if stop(self.local[x]):
                continue
            seen.add(x)
            for y in self.edges.get(x, {}):
                if y not in seen:
                    parent.setdefault(y, x)
                    todo.append(y)
        return seen, parent

    def chain(self, parent, x, n=8):
        out = [x]
        while x in parent and len(out) < n:
            x = parent[x]
            out.append(x)
        return out[::-1]


def head(ty):
    ty = ty.strip()
    while ty.startswith("&"):
        ty = re.sub(r"^&('\w+ )?(mut )?", "", ty).strip()
    m = re.match(r"[\w:{}#]+", ty)
    return m.group(0) if m else ty


def heads(ty):
    return set(re.findall(r"[A-Za-z_][\w]*(?:::[\w{}#]+)+", ty))


def can_return(f):
    """blocks from which a return (or a yield, or an endless loop) is reachable"""
    n = len(f["blocks"])
    rev = {i: [] for i in range(n)}
    good = []
    for i, b in enumerate(f["blocks"]):
        for t in targets(b["t"]):
            rev[t].append(i)
        if b["t"]["t"] in ("return",):
            good.append(i)
    seen = set()
    todo = list(good)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += rev[x]
    return seen


def diverges(f):
    return 0 not in can_return(f)
