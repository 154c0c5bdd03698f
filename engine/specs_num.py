"""Integers: an interval domain over affine images of symbols, and the id conversions."""
from interp import Interp, State, Violation, Prune, Unsupported, UNIT
from shape import NeedSplit
from specs import BaseSpec


class Num(BaseSpec):
    """A term ("af", sign, k, c) is the integer sign*x_k + c, where the range of x_k is kept in
    st.spec = ("num", tag, ranges, relations).  Terms never wrap: an operation whose result could
    leave its type's range case-splits the range of the symbol or yields a fresh unknown."""

    def start_num(self, tag, ranges, rels=()):
        return ("num", tag, tuple(ranges), tuple(rels))

    def rng(self, st, t):
        if isinstance(t, bool):
            t = int(t)
        if isinstance(t, int):
            return t, t
        _, s, k, c = t
        lo, hi = st.spec[2][k]
        return (lo + c, hi + c) if s == 1 else (c - hi, c - lo)

    def num(self, t):
        return isinstance(t, int) or (isinstance(t, tuple) and t and t[0] == "af")

    def fresh_sym(self, st, lo, hi):
        k = len(st.spec[2])
        st.spec = st.spec[:2] + (st.spec[2] + ((lo, hi),),) + st.spec[3:]
        return ("af", 1, k, 0)

    def split_at(self, k, x):
        """case-split: symbol k is < x, or >= x"""
        e = NeedSplit(("num", k, x))
        e.fid = 0
        raise e

    def split_rel(self, a, b):
        e = NeedSplit(("rel", a, b))
        e.fid = 0
        raise e

    def split(self, I, st, f, what):
        if what[0] == "num":
            _, k, x = what

            def setr(lo, hi):
                def go(c):
                    r = list(c.spec[2])
                    r[k] = (lo, hi)
                    c.spec = c.spec[:2] + (tuple(r),) + c.spec[3:]
                return go
            lo, hi = st.spec[2][k]
            return [("x%d < %d" % (k, x), setr(lo, x - 1)), ("x%d >= %d" % (k, x), setr(x, hi))]
        if what[0] == "rel":
            def setrel(o):
                def go(c):
                    c.spec = c.spec[:3] + (c.spec[3] + ((what[1], what[2], o),),)
                return go
            return [("%s %s %s" % (what[1], o, what[2]), setrel(o)) for o in "<=>"]
        return super().split(I, st, f, what)

    def rel(self, st, i, j):
        for a, b, o in st.spec[3]:
            if (a, b) == (i, j):
                return o
            if (a, b) == (j, i):
                return {"<": ">", "=": "=", ">": "<"}[o]
        return None

    # value comparison a < b, splitting as needed
    def lt(self, st, a, b):
        la, ha = self.rng(st, a)
        lb, hb = self.rng(st, b)
        if ha < lb:
            return True
        if la >= hb:
            return False
        if isinstance(a, int) and isinstance(b, int):
            return a < b
        if isinstance(b, int):
            _, s, k, c = a
            # s*x + c < b   <=>  x < b-c   or   x > c-b
            self.split_at(k, b - c if s == 1 else c - b + 1)
        if isinstance(a, int):
            _, s, k, c = b
            # a < s*x + c   <=>  x > a-c   or   x < c-a
            self.split_at(k, a - c + 1 if s == 1 else c - a)
        _, s, i, c = a
        _, t, j, d = b
        if i == j:
            if s == t:
                return c < d
            if s == 1:          # x + c < d - x  <=>  2x < d - c  <=> x < ceil((d-c)/2)
                self.split_at(i, -((c - d) // 2))
            self.split_at(i, (c - d) // 2 + 1)   # c - x < x + d <=> x > (c-d)/2
        if s == t and c == d:
            o = self.rel(st, i, j)
            if o is None:
                self.split_rel(i, j)
            return o == ("<" if s == 1 else ">")
        raise Unsupported("comparison of %s and %s" % (a, b))

    def eq(self, st, a, b):
        if a == b:
            return True
        la, ha = self.rng(st, a)
        lb, hb = self.rng(st, b)
        if ha < lb or hb < la:
            return False
        if la == ha == lb == hb:
            return True
        if not isinstance(a, int) and not isinstance(b, int) and a[1] == b[1] and a[3] == b[3]:
            o = self.rel(st, a[2], b[2])
            if o is None:
                self.split_rel(a[2], b[2])
            return o == "="
        if isinstance(a, int) or isinstance(b, int):
            if self.lt(st, a, b):
                return False
            return not self.lt(st, b, a)
        raise Unsupported("comparison of %s and %s" % (a, b))

    def term_cmp(self, I, st, op, a, b):
        if not (self.num(a) and self.num(b)):
            return None
        return self.eq(st, a, b) if op == "Eq" else self.lt(st, a, b)

    def num_not(self, I, st, v, t):
        if not self.num(v) or t.get("signed"):
            return None
        m = (1 << t["bits"]) - 1
        _, s, k, c = v
        return ("af", -s, k, m - c)

    def num_cast(self, I, st, v, s, t):
        if not self.num(v) or s.get("k") != "int" or t.get("k") != "int":
            return None
        lo, hi = self.rng(st, v)
        top = (1 << (t["bits"] - (1 if t.get("signed") else 0))) - 1
        if lo >= 0 and hi <= top:
            return v
        if lo >= 0 and lo <= top and not t.get("signed"):
            self.lt(st, v, top + 1)          # splits at the bound
        return self.fresh_sym(st, 0, top)

    def fit(self, st, v, t):
        """(value wrapped to the type, overflowed)"""
        m = 1 << t["bits"]
        lo, hi = self.rng(st, v)
        if 0 <= lo and hi < m:
            return v, False
        if hi < 0 or lo >= m:
            return self.mk(v, -(lo // m) * m) if lo // m == hi // m else self.fresh_sym(st, 0, m - 1), True
        self.lt(st, v, 0) if lo < 0 else self.lt(st, v, m)
        raise Unsupported("range of %s" % (v,))

    def mk(self, v, d):
        return v + d if isinstance(v, int) else ("af", v[1], v[2], v[3] + d)

    def raw(self, st, op, a, b):
        if op.startswith("Add"):
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                return self.mk(a, b)
            if a[2] == b[2] and a[1] != b[1]:
                return a[3] + b[3]
        if op.startswith("Sub"):
            if isinstance(b, int):
                return self.mk(a, -b)
            nb = ("af", -b[1], b[2], -b[3])
            if isinstance(a, int):
                return self.mk(nb, a)
            if a[2] == b[2] and a[1] == b[1]:
                return a[3] - b[3]
        return None

    def arith(self, I, st, op, a, b, t):
        if not (self.num(a) and self.num(b)) or t.get("signed"):
            return None
        if op == "BitXor":
            m = (1 << t["bits"]) - 1
            for x, y in ((a, b), (b, a)):
                if y == m:
                    return self.num_not(I, st, x, t)
                if y == 0:
                    return x
        v = self.raw(st, op, a, b)
        if v is None:
            lo, hi = 0, (1 << t["bits"]) - 1
            if op == "BitAnd":
                hi = min(self.rng(st, a)[1], self.rng(st, b)[1])
            return self.fresh_sym(st, lo, hi)
        return self.fit(st, v, t)[0]

    def checked(self, I, st, op, a, b, t):
        if not (self.num(a) and self.num(b)) or t.get("signed"):
            return None
        v = self.raw(st, op, a, b)
        if v is None:
            raise Unsupported("checked %s of %s, %s" % (op, a, b))
        return ("T", self.fit(st, v, t))


U64 = (1 << 64) - 1


class Ids(Num):
    """Conversions and comparisons of the internal id types.  The width is read off the type's name;
    the conversion functions are found by signature."""
    WIDTH = {"NodeIdU8": 8, "NodeIdU16": 16, "NodeIdU32": 32, "NodeIdU64": 64, "NodeIdUsize": 64}

    def init(self, I):
        ty = self.argtys(I)[1]
        self.ty = ty
        name = I.types[ty]["name"].split("::")[-1]
        if name not in self.WIDTH:
            raise Unsupported("width of " + name)
        self.name_, self.top = name, (1 << self.WIDTH[name]) - 1
        self.outs = []
        ctors = I.prog.id_constructors(ty)
        # the conversions of the type itself, and those of the wrappers above it
        if not ctors:
            raise Unsupported("no conversion from an index to " + name)
        self.values = set()
        for c in ctors:
            self.phase(I, c, ("from", I.fns[c]["path"]), [0])
        I.run()
        if I.violations or I.unsupported:
            return
        if len(self.values) != 1:
            raise Unsupported("%d representations of an index in %s" % (len(self.values), name))
        tmpl = next(iter(self.values))
        # sizes
        opt = I.fns[ctors[0]]["ret"]
        if I.types[opt]["size"] != I.types[ty]["size"]:
            I.add_violation(State(), "value", "Option<%s> takes %d bytes, the id takes %d" % (
                name, I.types[opt]["size"], I.types[ty]["size"]))
        if I.types[ty]["size"] * 8 != self.WIDTH[name]:
            I.add_violation(State(), "value", "%s takes %d bytes" % (name, I.types[ty]["size"]))
        self.ob(I, "an optional id is no larger than the id")
        inv = [i for i, f in enumerate(I.fns) if f.get("crate") == "treena" and "blocks" in f and f.get("argtys")
               and f["argtys"][0] == ty and I.types[f["ret"]].get("k") == "int" and not I.types[f["ret"]].get("signed")
               and all(I.types[x].get("size") == 0 for x in f["argtys"][1:])]
        if not inv:
            raise Unsupported("no conversion from %s to an index" % name)
        for c in inv:
            self.phase(I, c, ("to", I.fns[c]["path"]), [self.sub(tmpl, 0)], 1)
        suffix = self.entry.split("_")[-1]
        for nm, e in I.prog.entries.items():
            if nm.startswith("e_idc_") and nm.endswith("_" + suffix):
                self.phase(I, e, ("cmp", nm.split("_")[2]), [self.sub(tmpl, 0), self.sub(tmpl, 1)], 2)

    def sub(self, v, k):
        if isinstance(v, tuple):
            if v and v[0] == "af":
                return ("af", v[1], k, v[3])
            return tuple(self.sub(x, k) for x in v)
        return v

    def phase(self, I, fid, tag, args, nsym=0):
        st = State()
        if nsym == 0:
            args = [("af", 1, 0, 0)]
            ranges = [(0, U64)]
        else:
            ranges = [(0, self.top - 1)] * nsym
        st.spec = self.start_num(tag, ranges)
        for x in I.fns[fid]["argtys"][len(args):]:
            args.append(I.zst(x))
        for i, x in enumerate(I.fns[fid]["argtys"][:len(args)]):
            if I.types[x].get("k") in ("ref",):
                h = "arg%d" % i
                st.heap[h] = args[i]
                args[i] = ("R", ("O", h), ())
        I.enter(st, fid, args, None, None, None, "")
        I.work.append(st)
        I.stats["states"] += 1

    def on_obs(self, I, st, what, v):
        st.spec = st.spec[:3] + (st.spec[3] + (("obs", v, what),),)

    def on_end(self, I, st, kind, val):
        tag = st.spec[1]
        lo, hi = st.spec[2][0]
        if kind != "ret":
            raise Violation("panic", "%s %s panics for an index in %d..=%d" % (self.name_, tag[1], lo, hi))
        if tag[0] == "from":
            ok = I.vname(val) == "Some"
            if ok and hi >= self.top:
                raise Violation("value", "%s accepts an index it cannot represent, in %d..=%d" % (tag[1], lo, hi))
            if not ok and lo < self.top:
                raise Violation("value", "%s refuses a representable index, in %d..=%d" % (tag[1], lo, hi))
            if ok:
                if len(st.spec[2]) != 1:
                    raise Violation("value", "%s does not keep the index exactly" % tag[1])
                self.values.add(val[3][0])
            self.ob(I, "an index becomes an id exactly when it is representable")
        elif tag[0] == "to":
            if val != ("af", 1, 0, 0):
                if lo == hi and val == lo:
                    pass
                else:
                    raise Violation("value", "%s does not give back the index (%s for x in %d..=%d)" % (tag[1], show(val), lo, hi))
            self.ob(I, "an id gives back its index")
        else:
            self.compare(I, st, tag[1], val)

    def compare(self, I, st, op, val):
        a, b = ("af", 1, 0, 0), ("af", 1, 1, 0)
        e = self.eq(st, a, b)
        l = self.lt(st, a, b)
        if op in ("eq", "ne", "lt", "le", "gt", "ge"):
            want = {"eq": e, "ne": not e, "lt": l, "le": l or e, "gt": not (l or e), "ge": not l}[op]
            got = bool(val)
        elif op in ("cmp", "pcmp"):
            want = "Less" if l else "Equal" if e else "Greater"
            if op == "pcmp":
                got = None
                if I.vname(val) == "Some":
                    x = val[3][0]
                    got = I.vname(x) if x[0] == "A" else {-1: "Less", 0: "Equal", 1: "Greater"}[x[1]]
            else:
                got = I.vname(val) if val[0] == "A" else {-1: "Less", 0: "Equal", 1: "Greater"}[val[1]]
        elif op in ("max", "min"):
            got = self.idx(val)
            want = ("af", 1, 1 if l == (op == "max") else 0, 0)
            if e and got in (a, b):
                got = want
        elif op == "clone":
            got, want = self.idx(val), a
        elif op == "hash":
            if not e:
                self.ob(I, "ids of different indices need not have equal hashes")
                return
            obs = [x[1:] for x in st.spec[3] if x[0] == "obs"]
            h = len(obs) // 2
            got, want = [self.sub(x, 0) for x in obs[:h]], [self.sub(x, 0) for x in obs[h:]]
            if not h or len(obs) % 2:
                got = None
        elif op == "wrap":
            got, want = self.idx(val), a
        else:
            raise Unsupported("comparison " + op)
        if got != want:
            raise Violation("value", "%s: `%s` gives %s for indices with %s, expected %s" % (
                self.name_, op, show(got), "a < b" if l else "a = b" if e else "a > b", show(want)))
        self.ob(I, "comparisons follow the index")

    def idx(self, v):
        """the index term an id value stands for"""
        t = next(iter(self.values))
        for k in (0, 1):
            if v == self.sub(t, k):
                return ("af", 1, k, 0)
        return None


def show(v):
    if isinstance(v, tuple) and v and v[0] == "af":
        return "%sx%d%+d" % ("" if v[1] == 1 else "-", v[2], v[3])
    return str(v)
