"""Depths: difference bounds over the nodes of the abstract forest.

A depth term is ("dp", node, k) = depth(node) + k, an int v = depth(start) + v, or ("M", k) = M + k.
M is the depth limit (shallow traversal) or the level being listed (breadth-first).  What is known
about depths comes from the shape (a child is one deeper than its parent, a hidden path adds at least
two) and from shape.rel[x] = (lo, hi) bounding depth(x) - M."""
from interp import Violation, Prune, Unsupported, at, is_at
from shape import NeedSplit, NONE, ROOT, FLOAT, CLEAN
from specs import FID
from specs_iter import Dfs, opt, nm, evname, dfs_succ, dfs_pred

INF = 10 ** 6
HUGE = 1 << 63         # a limit no tree reaches


class Bounds:
    """closed difference-bound matrix: hi[a][b] >= depth(a) - depth(b)"""

    def __init__(self, s, top, has_m):
        frag = [top]
        t = s.top(top)
        frag = s.fragment(t)
        self.vars = frag + (["M"] if has_m else [])
        hi = {a: {b: (0 if a == b else INF) for b in self.vars} for a in self.vars}

        def le(a, b, k):
            if k < hi[a][b]:
                hi[a][b] = k
        for p in frag:
            for it in s.ch[p]:
                if it[0] == "n":
                    le(it[1], p, 1)
                    le(p, it[1], -1)
                elif it[0] == "v":
                    le(p, it[2], -2)
        if has_m:
            le(top, "M", 0)
            for x, (lo, h) in s.rel.items():
                if x in hi:
                    le(x, "M", h)
                    le("M", x, -lo)
        for k in self.vars:
            hk = hi[k]
            for a in self.vars:
                d = hi[a][k]
                if d >= INF:
                    continue
                ha = hi[a]
                for b in self.vars:
                    v = d + hk[b]
                    if v < ha[b]:
                        ha[b] = v
        self.hi = hi
        self.ok = all(hi[a][a] >= 0 for a in self.vars)

    def diff(self, a, b):
        """(lo, hi) of depth(a) - depth(b)"""
        if a == b:
            return 0, 0
        if a not in self.hi or b not in self.hi:
            return -INF, INF
        h, l = self.hi[a][b], -self.hi[b][a]
        return (l if l > -INF // 2 else -INF), (h if h < INF // 2 else INF)


class Depth:
    """mixin for specifications that follow depths; st.spec[1] is the start node"""
    def has_m(self, st):
        return True

    def top_of(self, st):
        return st.spec[1][2]

    def bounds(self, st):
        s = st.forests[FID]
        b = Bounds(s, self.top_of(st), self.has_m(st))
        if not b.ok:
            raise Prune()
        return b

    def dterm(self, st, v):
        if isinstance(v, bool):
            return None
        if isinstance(v, int):
            return (self.top_of(st), v)
        if isinstance(v, tuple) and v:
            if v[0] == "dp" and is_at(v[1]):
                return (v[1][2], v[2])
            if v[0] == "M":
                return ("M", v[1])
        return None

    def mkterm(self, x, k):
        return ("M", k) if x == "M" else ("dp", at(FID, x), k)

    def split_rel(self, x, pivot):
        e = NeedSplit(("rel", x, pivot))
        e.fid = FID
        raise e

    def split(self, I, st, f, what):
        if what[0] == "rel":
            _, x, p = what
            b = self.bounds(st)
            lo, hi = b.diff(x, "M")
            out = []
            for l, h, op in ((lo, min(hi, p - 1), "<"), (max(lo, p), min(hi, p), "="), (max(lo, p + 1), hi, ">")):
                if l <= h:
                    def go(c, l=l, h=h):
                        c.forests[FID].rel[x] = (l, h)
                    out.append(("depth(n%d) %s M%+d" % (x, op, p), go))
            return out
        return super().split(I, st, f, what)

    def cmp_depth(self, st, op, a, b):
        """a op b; may demand a case distinction; None: unknown"""
        (A, i), (B, j) = a, b
        if A == B:
            return i == j if op == "Eq" else i < j
        bd = self.bounds(st)
        lo, hi = bd.diff(A, B)
        lo, hi = lo + i - j, hi + i - j
        if op == "Eq":
            if lo > 0 or hi < 0:
                return False
            if lo == hi == 0:
                return True
        else:
            if hi < 0:
                return True
            if lo >= 0:
                return False
        if not self.has_m(st):
            return None
        for x, y, d in ((A, B, j - i), (B, A, i - j)):
            # depth(x) ? depth(y) + d
            if x == "M" or x not in bd.hi:
                continue
            l, h = bd.diff(y, "M")
            if l == h:
                self.split_rel(x, l + d)
        return None

    def term_cmp(self, I, st, op, a, b):
        if st.spec[0] not in ("start", "run", "done"):
            return None
        if any(isinstance(x, tuple) and x and x[0] == "wrapped" for x in (a, b)):
            return True if a == b and op == "Eq" else I.choose(st, ("a wrapped level compares",), (True, False))
        top64 = (1 << 64) - 1
        if isinstance(a, tuple) and a[0] == "not" and isinstance(b, int):
            r = self.term_cmp(I, st, "Eq" if op == "Eq" else "Lt", a[1], top64 ^ b) if op == "Eq" else \
                self.term_cmp(I, st, "Lt", top64 ^ b, a[1])
            return r
        if isinstance(b, tuple) and b[0] == "not" and isinstance(a, int):
            return self.term_cmp(I, st, "Eq", b[1], top64 ^ a) if op == "Eq" else \
                self.term_cmp(I, st, "Lt", b[1], top64 ^ a)
        # no depth comes anywhere near the ends of the integer range
        for x, y, less in ((a, b, False), (b, a, True)):
            if isinstance(x, int) and x >= 1 << 62 and self.dterm(st, y) is not None:
                if isinstance(y, int):
                    break
                return False if op == "Eq" else less
        ta, tb = self.dterm(st, a), self.dterm(st, b)
        if ta is None or tb is None:
            return None
        return self.cmp_depth(st, op, ta, tb)

    def unwrapped(self, d, what):
        if isinstance(d, tuple) and d[0] == "wrapped":
            self.bad("%s: the depth reported is told modulo 2^%d" % (what, d[1]))
        raise Unsupported("observed depth")

    def shifted(self, st, op, a, b):
        ta, tb = self.dterm(st, a), self.dterm(st, b)
        if ta is None or tb is None:
            return None
        if op.startswith("Add"):
            if isinstance(b, int):
                return self.mkterm(ta[0], ta[1] + b)
            if isinstance(a, int):
                return self.mkterm(tb[0], tb[1] + a)
        if op.startswith("Sub") and isinstance(b, int):
            return self.mkterm(ta[0], ta[1] - b)
        return None

    # ---- fewer bits
    def has_dterm(self, st, v):
        return not isinstance(v, int) and self.dterm(st, v) is not None

    def fits(self, I, st, v, n):
        """v modulo 2^n, for a depth or the limit"""
        x, k = self.dterm(st, v)
        if x == "M" and st.spec[-1] == "limit":
            if I.choose(st, ("the limit is below 2^%d" % n,), (True, False)):
                return v
            self.huge(I, st)
            return (HUGE + k) & ((1 << n) - 1)
        if n >= 32 or I.choose(st, ("the level is above 2^%d" % n,), (True, False)):
            return v
        return ("wrapped", n)

    def huge(self, I, st):
        """goes on with one of the limits beyond those that fit; the others are left undecided"""
        def sub(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == "M" and isinstance(v[1], int):
                    return HUGE + v[1]
                return tuple(sub(e) for e in v)
            return v
        for fr in st.frames:
            for l in fr.locals:
                fr.locals[l] = sub(fr.locals[l])
        for k in st.heap:
            st.heap[k] = sub(st.heap[k])
        st.spec = sub(st.spec[:-1]) + ("huge",)
        st.forests[FID].rel = {}
        why = "limits from some power of two on: only the limit 2^63 was followed"
        if why not in I.unsupported:
            I.unsupported.append(why)

    def num_cast(self, I, st, v, s, t):
        if isinstance(v, tuple) and v[0] == "wrapped":
            return v
        if t.get("k") == "int" and t["bits"] < 64 and s.get("k") == "int" and s["bits"] > t["bits"] and self.has_dterm(st, v):
            return self.fits(I, st, v, t["bits"] - bool(t.get("signed")))
        return None

    def masked(self, I, st, op, a, b, t):
        for x, y in ((a, b), (b, a)):
            if op == "BitAnd" and isinstance(y, int) and y & (y + 1) == 0 and self.has_dterm(st, x):
                return x if y == (1 << 64) - 1 else self.fits(I, st, x, y.bit_length())
        if op == "Rem" and isinstance(b, int) and b & (b - 1) == 0 and b and self.has_dterm(st, a):
            return self.fits(I, st, a, b.bit_length() - 1)
        return None

    def arith(self, I, st, op, a, b, t):
        if any(isinstance(x, tuple) and x and x[0] == "wrapped" for x in (a, b)):
            return a if isinstance(a, tuple) else b
        r = self.masked(I, st, op, a, b, t)
        if r is not None:
            return r
        if t.get("bits", 64) < 64 and not t.get("signed") and op in ("Add", "AddUnchecked"):
            v = self.shifted(st, op, a, b)
            if v is not None:
                return self.fits(I, st, v, t["bits"]) if self.has_dterm(st, v) else v
        r = self.checked(I, st, op, a, b, t)
        if r is None:
            return None
        if r[1][1]:
            raise Unsupported("wrapping depth")
        return r[1][0]

    def checked(self, I, st, op, a, b, t):
        v = self.shifted(st, op, a, b)
        if any(isinstance(y, tuple) and y and y[0] == "wrapped" for y in (a, b)):
            return ("T", (a if isinstance(a, tuple) else b, I.choose(st, ("a wrapped level overflows",), (False, True))))
        if v is not None and t.get("bits", 64) < 64 and not t.get("signed") and op.startswith("Add"):
            if not self.has_dterm(st, v):
                return ("T", (v, False))
            r = self.fits(I, st, v, t["bits"])
            return ("T", (r, False)) if r == v else ("T", (0, True))
        if v is None or t.get("bits") != 64 or t.get("signed"):
            return None
        x, k = self.dterm(st, v)
        if abs(k) > 8:
            raise Unsupported("depth drifts from the nodes")
        if op.startswith("Sub"):
            lt = self.cmp_depth(st, "Lt", (x, k), (self.top_of(st), 0))
            if lt is None:
                raise Unsupported("sign of a depth")
            if lt:
                return ("T", (0, True))
        return ("T", (v, False))

    # ---- canonical form of depth values
    def abstract(self, I, st):
        s = st.forests[FID]
        if st.spec[0] not in ("run", "start", "done") or s.kind.get(self.top_of(st)) != "a":
            return
        top = self.top_of(st)
        vals = [fr.locals[l] for fr in st.frames for l in sorted(fr.locals)] + \
               [st.heap[k] for k in sorted(st.heap, key=repr)] + [st.spec]
        named, anchors = [], []

        def scan(v):
            if not isinstance(v, tuple):
                return
            if is_at(v):
                if v[1] == FID and v[2] not in named:
                    named.append(v[2])
                return
            if len(v) == 3 and v[0] == "dp":
                if is_at(v[1]) and v[1][2] not in anchors:
                    anchors.append(v[1][2])
                return
            for e in v:
                scan(e)
        for v in vals:
            scan(v)
        if top not in named:
            named.append(top)
        bd = self.bounds(st)
        named = [n for n in named if n in bd.hi]

        def best(x, k):
            """an equal term on a named node"""
            lo, hi = bd.diff(x, top)
            if lo == hi and 0 <= lo + k <= 1:
                return lo + k
            c = []
            for i, n in enumerate(named):
                lo, hi = bd.diff(x, n)
                if lo == hi:
                    c.append((abs(k + lo), n == top, i, n, k + lo))
            if not c:
                return None
            c.sort()
            return ("dp", at(FID, c[0][3]), c[0][4])

        def rw(v, near):
            if isinstance(v, int) and not isinstance(v, bool):
                if v >> 63:
                    r = rw(v ^ ((1 << 64) - 1), near)
                    return v if isinstance(r, int) else ("not", r)
                if v < 2 or v > 1 << 32:
                    return v
                for k in (0, 1, -1):
                    for n in near + named:
                        if n != top and bd.diff(n, top) == (v - k, v - k):
                            return ("dp", at(FID, n), k)
                return v
            if not isinstance(v, tuple) or not v:
                return v
            if v[0] == "dp":
                if not is_at(v[1]):
                    return v
                b = best(v[1][2], v[2])
                return v if b is None else b
            if v[0] == "Q":
                return ("Q", tuple(("c", rw(it[1], near)) if it[0] == "c" else ("seg", rw(it[1], [])) + it[2:] for it in v[1]))
            j = {"A": 3, "T": 1, "Y": 1, "C": 2, "NZ": 1, "not": 1}.get(v[0])
            if j is None or len(v) <= j:
                return v
            r = list(v)
            if v[0] in ("NZ", "not"):
                r[j] = rw(v[j], near)
                return tuple(r)
            here = []
            nodes_of(v[j], here)
            here = [n for n in here if n in bd.hi]
            r[j] = tuple(rw(e, (here if len(set(here)) == 1 else []) + near) for e in v[j])
            return tuple(r)

        for fr in st.frames:
            for l in fr.locals:
                fr.locals[l] = rw(fr.locals[l], [])
        for k in st.heap:
            if not (isinstance(k, tuple) and k[0] == "forest"):
                st.heap[k] = rw(st.heap[k], [])
        if self.has_m(st):
            rel = {}
            for n in bd.vars[:-1]:
                lo, hi = bd.diff(n, "M")
                lo, hi = (min(lo, 1) if lo >= -1 else -INF), (max(hi, -1) if hi <= 1 else INF)
                if (lo, hi) != (-INF, INF):
                    rel[n] = (lo, hi)
            s.rel = rel


def nodes_of(v, out):
    """the nodes an aggregate mentions, depth terms aside"""
    if isinstance(v, tuple):
        if is_at(v):
            out.append(v[2])
        elif not (len(v) == 3 and v[0] == "dp"):
            for e in v:
                nodes_of(e, out)


class ShallowDfs(Depth, Dfs):
    """depth-first events of the nodes whose distance does not exceed M, with that distance"""
    modes = ("none", "limit", "max")

    def init(self, I):
        tys = self.argtys(I)
        from specs import KINDS, new_node
        for mode in self.modes:
            for kn in KINDS:
                st, r = self.fresh_state(I, tys[0])
                n = new_node(st.forests[FID], kn[1])
                st.forests[FID].widen = CLEAN
                st.spec = ("start", at(FID, n), mode)
                st.note("%s(n%d [%s], %s)" % (self.entry[2:], n, kn[0], mode))
                if mode == "level":
                    self.start(I, st, [r, I.mk_id(tys[1], FID, n)])
                    continue
                m = I.none(tys[2]) if mode == "none" else \
                    I.some(tys[2], ("M", 0) if mode == "limit" else (1 << 64) - 1)
                self.start(I, st, [r, I.mk_id(tys[1], FID, n), m])

    def has_m(self, st):
        return st.spec[-1] in ("limit", "level")

    def mon(self, I, st):
        if st.spec[0] == "start":
            self.alive(st)
            n = st.spec[1]
            st.spec = ("run", n, (True, n), (False, n), st.spec[2])
        return st.spec

    def limited(self, st, P, x):
        if st.spec[-1] != "limit":
            return False
        return self.cmp_depth(st, "Eq", (x, 0), ("M", 0))

    def on_obs(self, I, st, what, v):
        m = self.mon(I, st)
        P = st.forests[FID]
        self.ob(I, what)
        done = m[0] == "done"
        mode = m[-1]
        if what == "size_hint":
            return self.size_hint(I, st, v, done)
        if what == "max_depth":
            x = opt(I, v)
            if mode == "none" and x is not None or mode == "limit" and x != ("M", 0) or \
                    mode == "max" and x not in (None, (1 << 64) - 1) or mode == "huge" and x != HUGE:
                self.bad("max_depth is not the limit given")
            return
        if done:
            return self.nothing(I, st, v, what)
        a, b = self.unpack(m[2]), self.unpack(m[3])
        e = a if what in ("next", "peek") else b
        p = opt(I, v)
        if p is None:
            self.bad("%s yields None, must yield %s" % (what, evname(e)))
        if bool(p[1][0]) != e[0]:
            self.bad("%s yields %s of n%s, must yield %s" % (
                what, "Open" if p[1][0] else "Close", nm(I.id_node(p[1][1][1][0], st)), evname(e)),
                self.wrong(I, st, (bool(p[1][0]), p[1][1][1][0])))
        self.is_node(I, st, p[1][1], e[1], what)
        d = self.dterm(st, p[1][2])
        if d is None:
            self.unwrapped(p[1][2], what)
        if not self.cmp_depth(st, "Eq", d, (e[1], 0)):
            self.bad("%s: the depth reported for %s is not its distance from the start" % (what, evname(e)))
        if what in ("next", "back"):
            if a == b:
                st.spec = ("done", m[1], mode)
                return
            op, x = e
            if what == "next":
                if op and self.limited(st, P, x):
                    st.spec = ("run", m[1], self.pack((False, x)), m[3], mode)
                else:
                    st.spec = ("run", m[1], self.pack(self.need(FID, self.succ, P, a)), m[3], mode)
            elif not op and self.limited(st, P, x):
                st.spec = ("run", m[1], m[2], self.pack((True, x)), mode)
            else:
                st.spec = ("run", m[1], m[2], self.pack(self.need(FID, self.pred, P, b)), mode)


class Bfs(ShallowDfs):
    """level by level, each with its distance: M is the level of the node yielded last"""
    modes = ("level",)

    def init(self, I):
        super().init(I)
        for st in I.work:
            s = st.forests[FID]
            n = st.spec[1][2]
            s.widen = ("B", ())
            if s.kind[n] == "a":
                s.rel[n] = (0, 0)

    # regions: letters their gaps may have, bound on depth - M of their nodes
    BELOW = ("BE", -1)      # no node of level M
    UPTO = ("BCE", 0)       # no node below level M

    def item_ok(self, bd, s, it, reg):
        if it[0] == "g":
            return it[2][0] in reg[0]
        if it[0] == "n":
            return self.subtree_ok(bd, s, it[1], reg)
        return it[3][0] in reg[0] and it[4][0] in reg[0] and self.subtree_ok(bd, s, it[2], reg)

    def subtree_ok(self, bd, s, q, reg):
        return bd.diff(q, "M")[1] <= reg[1] and all(self.item_ok(bd, s, it, reg) for it in s.ch[q])

    def path(self, s, x, top):
        """[(ancestor, index of the item leading to x)], innermost first"""
        out = []
        while x != top:
            u = s.up[x]
            if not isinstance(u, tuple):
                return None
            out.append((u[1], s.index_of(u[1], x)))
            x = u[1]
        return out

    def right_ok(self, bd, s, p, i, reg, stop=None):
        it = s.ch[p][i]
        if it[0] == "v" and it[4][0] not in reg[0]:
            return False
        return all(self.item_ok(bd, s, x, reg) for x in s.ch[p][i + 1:stop])

    def left_ok(self, bd, s, p, i, reg):
        it = s.ch[p][i]
        if it[0] == "v" and it[3][0] not in reg[0]:
            return False
        return all(self.item_ok(bd, s, x, reg) for x in s.ch[p][:i])

    def rest_ok(self, st, x):
        """nothing at level M after x"""
        s, bd = st.forests[FID], self.bounds(st)
        return all(self.right_ok(bd, s, p, i, self.BELOW) for p, i in self.path(s, x, self.top_of(st)))

    def before_ok(self, st, y):
        """nothing below level M before y"""
        s, bd = st.forests[FID], self.bounds(st)
        return all(self.left_ok(bd, s, p, i, self.UPTO) for p, i in self.path(s, y, self.top_of(st)))

    def between_ok(self, st, x, y):
        """x comes before y and nothing at level M lies between"""
        s, bd = st.forests[FID], self.bounds(st)
        py = dict(self.path(s, y, self.top_of(st)))
        for p, i in self.path(s, x, self.top_of(st)):
            if p in py:
                j = py[p]
                if i >= j or not self.right_ok(bd, s, p, i, self.BELOW, j):
                    return False
                for q, k in self.path(s, y, p)[:-1]:
                    if not self.left_ok(bd, s, q, k, self.BELOW):
                        return False
                it = s.ch[p][j]
                return it[0] != "v" or it[3][0] in "BE"
            if not self.right_ok(bd, s, p, i, self.BELOW):
                return False
        return False

    def deeper(self, st):
        """M becomes M + 1"""
        s = st.forests[FID]
        s.rel = {x: (lo - 1 if lo > -INF else lo, hi - 1 if hi < INF else hi) for x, (lo, hi) in s.rel.items()}
        lift = lambda a: ("B", a[1]) if a[0] == "C" else a
        for p in list(s.ch):
            s.ch[p] = tuple((it[0], it[1], lift(it[2])) if it[0] == "g" else
                            it[:3] + (lift(it[3]), lift(it[4]), it[5]) if it[0] == "v" else it for it in s.ch[p])

    def cmp_m(self, st, x, k):
        """-1, 0, 1: depth(x) against M + k"""
        lo, hi = self.bounds(st).diff(x, "M")
        if hi < k:
            return -1
        if lo > k:
            return 1
        if lo == hi == k:
            return 0
        self.split_rel(x, k)

    def expect(self, I, st, what, y):
        """the node to come is y (None: the end); returns the number of levels gone down"""
        m = st.spec
        top = m[1][2]
        if m[0] == "start":
            if y is None:
                self.bad("%s yields nothing, must yield the start node" % what)
            if y != top:
                self.bad("%s yields n%d, must yield the start node first" % (what, y))
            return 0
        x = m[2][2]
        if y is None:
            if not self.rest_ok(st, x):
                self.bad("%s yields nothing although nodes of the level of n%d may follow" % (what, x))
            s = st.forests[FID]
            if not self.subtree_ok(self.bounds(st), s, top, self.UPTO):
                self.bad("%s yields nothing although there may be a deeper level" % what)
            return None
        if self.path(st.forests[FID], y, top) is None:
            raise Unsupported("a node not known to be in the subtree")
        c = self.cmp_m(st, y, 0)
        if c < 0:
            self.bad("%s yields n%d of an upper level again" % (what, y), ("repeats",))
        if c == 0:
            if not self.between_ok(st, x, y):
                self.bad("%s yields n%d, which is not the next node of the level after n%d" % (what, y, x),
                         self.again(st, (True, y), (True, x), None) if y != x else ("repeats",))
            return 0
        if self.cmp_m(st, y, 1) > 0:
            self.bad("%s yields n%d, skipping a level" % (what, y))
        if not self.rest_ok(st, x):
            self.bad("%s goes to the next level although nodes of the level of n%d may follow" % (what, x))
        if not self.before_ok(st, y):
            self.bad("%s yields n%d, which need not be the first node of its level" % (what, y))
        return 1

    def on_obs(self, I, st, what, v):
        if st.spec[0] == "start":
            self.alive(st)
        m = st.spec
        self.ob(I, what)
        if what == "size_hint":
            return self.size_hint(I, st, v, m[0] == "done")
        if m[0] == "done":
            return self.nothing(I, st, v, what)
        p = opt(I, v)
        if p is None:
            self.expect(I, st, what, None)
            if what == "next":
                st.spec = ("done", m[1], m[-1])
            return
        nd, dep = p[1]
        i = I.id_node(nd[1][0], st)
        if i is None or i[0] != FID or st.forests[FID].kind.get(i[1]) != "a":
            self.bad("%s yields something that is not a live node" % what)
        y = i[1]
        self.is_node(I, st, nd, y, what)
        k = self.expect(I, st, what, y)
        d = self.dterm(st, dep)
        if d is None:
            self.unwrapped(dep, what)
        if not self.cmp_depth(st, "Eq", d, (y, 0)):
            self.bad("%s: the depth reported for n%d is not its distance from the start" % (what, y))
        if what == "next":
            if k:
                self.deeper(st)
            st.spec = ("run", m[1], at(FID, y), m[-1])
