"""Loading of the dumped monomorphic MIR and per-body dataflow (liveness, loop heads)."""
import json


class Body:
    __slots__ = ("id", "name", "path", "crate", "nargs", "spread", "locals", "blocks",
                 "live_in", "heads", "names", "span", "borrowed")


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.fns = d["fns"]
        self.entries = {k.split("::", 1)[1]: v for k, v in d["entries"].items() if "::e_" in k}
        self._bodies = {}
        self.adt_by_name = {}
        for i, t in enumerate(self.types):
            if t.get("k") == "adt":
                self.adt_by_name.setdefault(t["name"], []).append(i)
        self.fn_by_path = {}
        for i, f in enumerate(self.fns):
            self.fn_by_path.setdefault(f["path"], []).append(i)
        self.used = set()

    def body(self, fid):
        b = self._bodies.get(fid)
        if b is None:
            f = self.fns[fid]
            b = Body()
            b.id, b.name, b.path, b.crate = fid, f["name"], f["path"], f.get("crate")
            b.nargs, b.spread, b.locals, b.blocks = f["args"], f["spread"], f["locals"], f["blocks"]
            b.names = {l: n for l, n in f.get("names", [])}
            b.span = f.get("span", "")
            analyse(b)
            self._bodies[fid] = b
        self.used.add(fid)
        return b

    def id_constructors(self, ty):
        """functions of the crate from an index (and zero-sized tokens) to an optional id of the type"""
        out = []
        for i, f in enumerate(self.fns):
            if f.get("crate") != "treena" or "blocks" not in f or not f.get("argtys"):
                continue
            r, a = self.types[f["ret"]], f["argtys"]
            if r.get("k") == "adt" and r["name"] == "std::option::Option" and r["args"] == [ty] \
                    and self.types[a[0]].get("k") == "int" and not self.types[a[0]].get("signed") \
                    and all(self.types[x].get("size") == 0 for x in a[1:]):
                out.append(i)
        return out

    def has_body(self, fid):
        return "blocks" in self.fns[fid]


def op_places(o, out):
    if o[0] in ("c", "m"):
        out.append(o[1])


def rv_places(r, out):
    """places read by an rvalue"""
    k = r[0]
    if k == "use":
        op_places(r[1], out)
    elif k in ("ref",):
        out.append(r[2])
    elif k in ("addr", "discr", "len"):
        out.append(r[1])
    elif k in ("bin", "chk"):
        op_places(r[2], out)
        op_places(r[3], out)
    elif k == "un":
        op_places(r[2], out)
    elif k == "cast":
        op_places(r[2], out)
    elif k == "repeat":
        op_places(r[1], out)
    elif k == "aggtup":
        for o in r[1]:
            op_places(o, out)
    elif k in ("aggarr", "aggclo", "aggptr", "aggadt"):
        ops = r[3] if k == "aggadt" else r[2]
        for o in ops:
            op_places(o, out)


def place_uses(p):
    u = {p[0]}
    for e in p[1]:
        if isinstance(e, list) and e[0] == "i":
            u.add(e[1])
    return u


def successors(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        r = [t[4]]
        if isinstance(t[5], int):
            r.append(t[5])
        return r
    if k == "call":
        r = []
        if t[4] is not None:
            r.append(t[4])
        if isinstance(t[5], int):
            r.append(t[5])
        return r
    if k == "assert":
        r = [t[4]]
        if isinstance(t[5], int):
            r.append(t[5])
        return r
    return []


def analyse(b):
    n = len(b.blocks)
    # back edges by DFS
    color = [0] * n
    heads = set()
    st = [(0, iter(successors(b.blocks[0]["t"])))]
    color[0] = 1
    while st:
        u, it = st[-1]
        for v in it:
            if color[v] == 0:
                color[v] = 1
                st.append((v, iter(successors(b.blocks[v]["t"]))))
                break
            elif color[v] == 1:
                heads.add(v)
        else:
            color[u] = 2
            st.pop()
    b.heads = heads
    # liveness; a local whose address is taken stays live only through references,
    # which the interpreter closes over dynamically.
    use = [set() for _ in range(n)]
    deff = [set() for _ in range(n)]
    b.borrowed = set()
    for i, blk in enumerate(b.blocks):
        U, D = use[i], deff[i]

        def touch(p):
            for x in place_uses(p):
                if x not in D:
                    U.add(x)

        for s in blk["s"]:
            if s[0] == "=":
                ps = []
                rv_places(s[2], ps)
                for p in ps:
                    touch(p)
                if s[2][0] in ("ref", "addr"):
                    b.borrowed.add(ps[0][0])
                dst = s[1]
                if dst[1]:
                    touch(dst)
                else:
                    D.add(dst[0])
            elif s[0] == "sd":
                touch(s[1])
            elif s[0] in ("sl", "sx"):
                D.add(s[1])
            elif s[0] == "assume":
                ps = []
                op_places(s[1], ps)
                for p in ps:
                    touch(p)
        t = blk["t"]
        ps = []
        if t[0] == "switch":
            op_places(t[1], ps)
        elif t[0] == "drop":
            ps.append(t[1])
        elif t[0] == "call":
            if t[1][0] == "op":
                op_places(t[1][1], ps)
            for a in t[2]:
                op_places(a, ps)
            if t[3][1]:
                ps.append(t[3])
        elif t[0] == "assert":
            op_places(t[1], ps)
        elif t[0] == "return":
            ps.append([0, []])
        for p in ps:
            touch(p)
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            out = set()
            t = b.blocks[i]["t"]
            for v in successors(t):
                if t[0] == "call" and v == t[4] and not t[3][1]:
                    out |= live[v] - {t[3][0]}
                else:
                    out |= live[v]
            new = use[i] | (out - deff[i])
            if new != live[i]:
                live[i] = new
                ch = True
    b.live_in = [frozenset(x) for x in live]
