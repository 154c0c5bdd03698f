"""Queues of nodes: the allocating breadth-first traversal.

A VecDeque is ("Q", items).  An item is a concrete element ("c", value) or a segment
("seg", level, from, to, template): the elements `template` makes of every node of the start node's
subtree at that level that lies, in document order, after `from` and not after `to`.
  from: None (the beginning) | ("after", x)      to: None (the end) | ("upto", c) | ("sub", x: all of x's subtree)
Segments are formed at loop heads only where the shape shows that no node of the level is left out, and
taken apart by case distinctions on which node comes first."""
from interp import Violation, Prune, Unsupported, UNIT, at, is_at
from models import model, opt_of, deref_all
from shape import NeedSplit, CLEAN
from specs import FID
from specs_depth import Bfs, Bounds, INF

HOLE = ("HOLE",)


def punch(v, n):
    if is_at(v):
        return HOLE if v == at(FID, n) else v
    return tuple(punch(e, n) if isinstance(e, tuple) else e for e in v)


def fill(v, n):
    if v == HOLE:
        return at(FID, n)
    return tuple(fill(e, n) if isinstance(e, tuple) else e for e in v)


def elem_nodes(v, out):
    if isinstance(v, tuple):
        if is_at(v):
            out.add(v[2])
        elif not (len(v) == 3 and v[0] == "dp"):
            for e in v:
                elem_nodes(e, out)


def queue_at(I, st, a):
    root, path = deref_all(I, st, a)
    q = I.read(st, root, path)
    if not isinstance(q, tuple) or q[0] != "Q":
        raise Unsupported("queue")
    return q, root, path


def need_spec(I):
    if not hasattr(I.spec, "decide"):
        raise Unsupported("queue outside a traversal")


@model(r"^std::collections::VecDeque::<T>::(new|with_capacity)$|^<std::collections::VecDeque<T> as std::default::Default>::default$")
def m_q_new(I, st, fid, a, sp):
    return ("Q", ())


@model(r"^<std::collections::VecDeque<T, A> as std::clone::Clone>::clone$")
def m_q_clone(I, st, fid, a, sp):
    return queue_at(I, st, a[0])[0]


@model(r"^std::collections::VecDeque::<T, A>::(reserve|reserve_exact|shrink_to_fit|shrink_to)$")
def m_q_cap(I, st, fid, a, sp):
    return UNIT


@model(r"^std::collections::VecDeque::<T, A>::push_back$")
def m_q_push(I, st, fid, a, sp):
    q, root, path = queue_at(I, st, a[0])
    I.write(st, root, path, ("Q", q[1] + (("c", a[1]),)))
    return UNIT


@model(r"^std::collections::VecDeque::<T, A>::push_front$")
def m_q_push_front(I, st, fid, a, sp):
    q, root, path = queue_at(I, st, a[0])
    I.write(st, root, path, ("Q", (("c", a[1]),) + q[1]))
    return UNIT


@model(r"^std::collections::VecDeque::<T, A>::(back|pop_back)$")
def m_q_back(I, st, fid, a, sp):
    q, root, path = queue_at(I, st, a[0])
    if not q[1]:
        return opt_of(I, fid, None)
    if q[1][-1][0] != "c":
        raise Unsupported("back of a queue that ends with a segment")
    v = q[1][-1][1]
    if I.fns[fid]["path"].endswith("::back"):
        return opt_of(I, fid, ("R", ("V", v), ()))
    I.write(st, root, path, ("Q", q[1][:-1]))
    return opt_of(I, fid, v)


@model(r"^std::collections::VecDeque::<T, A>::clear$")
def m_q_clear(I, st, fid, a, sp):
    q, root, path = queue_at(I, st, a[0])
    I.write(st, root, path, ("Q", ()))
    return UNIT


@model(r"^std::collections::VecDeque::<T, A>::pop_front$")
def m_q_pop(I, st, fid, a, sp):
    q, root, path = queue_at(I, st, a[0])
    need_spec(I)
    for v, rest in I.spec.elements(st, q[1]):
        I.write(st, root, path, ("Q", rest))
        return opt_of(I, fid, v)
    I.write(st, root, path, ("Q", ()))
    return opt_of(I, fid, None)


@model(r"^std::collections::VecDeque::<T, A>::(front|get)$")
def m_q_get(I, st, fid, a, sp):
    q, root, path = queue_at(I, st, a[0])
    need_spec(I)
    i = a[1] if len(a) > 1 else 0
    if not isinstance(i, int):
        raise Unsupported("symbolic queue index")
    for v, rest in I.spec.elements(st, q[1]):
        if i == 0:
            return opt_of(I, fid, ("R", ("V", v), ()))
        i -= 1
    return opt_of(I, fid, None)


@model(r"^std::collections::VecDeque::<T, A>::is_empty$")
def m_q_empty(I, st, fid, a, sp):
    q, root, path = queue_at(I, st, a[0])
    need_spec(I)
    for v, rest in I.spec.elements(st, q[1]):
        return False
    return True


@model(r"^std::collections::VecDeque::<T, A>::len$")
def m_q_len(I, st, fid, a, sp):
    q, root, path = queue_at(I, st, a[0])
    need_spec(I)
    if not q[1]:
        return 0
    marks = 0
    for it in q[1]:
        if it[0] == "c":
            ns = set()
            elem_nodes(it[1], ns)
            marks += not ns
    return ("ql", q[1], marks)


class BfsAlloc(Bfs):
    # ---- document order
    def slots(self, s, top):
        out = []

        def go(q):
            out.append(("node", q))
            for i, it in enumerate(s.ch[q]):
                if it[0] == "g":
                    out.append(("gap", q, i))
                elif it[0] == "n":
                    go(it[1])
                else:
                    out.append(("viaL", q, i))
                    go(it[2])
                    out.append(("viaR", q, i))
            out.append(("end", q))
        go(top)
        return out

    def cut(self, s, top, frm, to):
        """the slots of a region; None when its ends are out of order"""
        sl = self.slots(s, top)
        lo = 0
        if frm is not None:
            # behind x and its subtree; ("upto", c) as a beginning: behind c itself (no node of c's level is below c)
            e = ("end", frm[1][2])
            if e not in sl:
                return None
            lo = sl.index(e) + 1
        hi = len(sl)
        if to is not None:
            e = ("node" if to[0] == "upto" else "end", to[1][2])
            if e not in sl:
                return None
            hi = sl.index(e) + 1
        return sl[lo:hi] if lo <= hi else None

    def level(self, st, bd, lvl):
        x, k = self.dterm(st, lvl)
        lo, hi = bd.diff(x, "M")
        if lo != hi:
            return None
        return lo + k

    def decide(self, st, k, frm, to, split):
        """the first node of level M+k in the region, None, or (split=False) '?'"""
        s, top = st.forests[FID], self.top_of(st)
        bd = self.bounds(st)
        region = self.cut(s, top, frm, to)
        if region is None:
            if split:
                raise Unsupported("ends of a queue segment out of order")
            return "?"
        empty = "BE" if k == 0 else "BCE" if k > 0 else "E"

        def undecided(*what):
            if not split:
                return "?"
            if k not in (0, 1):
                raise Unsupported("queue segment of a distant level")
            e = NeedSplit(what + (k,))
            e.fid = FID
            raise e
        for sl in region:
            if sl[0] == "end":
                continue
            if sl[0] == "node":
                lo, hi = bd.diff(sl[1], "M")
                if lo == hi == k:
                    return sl[1]
                if hi < k or lo > k:
                    continue
                if not split:
                    return "?"
                self.split_rel(sl[1], k)
            it = s.ch[sl[1]][sl[2]]
            lo, hi = bd.diff(sl[1], "M")
            attr = it[2] if sl[0] == "gap" else it[3 if sl[0] == "viaL" else 4]
            if lo >= k or (attr[0] in empty and (sl[0] != "viaL" or bd.diff(it[2], "M")[1] <= k)):
                continue            # (the hidden nodes of a path lie above its end)
            if attr[1]:
                raise Unsupported("overwritten nodes in a traversal")
            if hi >= k:
                if not split:
                    return "?"
                self.split_rel(sl[1], k)
            if sl[0] == "gap":
                return undecided("qgap", sl[1], it[1])
            lo, hi = bd.diff(it[2], "M")
            if hi > k:
                if not split:
                    return "?"
                if lo > k:
                    raise Unsupported("level inside a hidden path")
                self.split_rel(it[2], k)
            return undecided("q" + sl[0], sl[1], it[1])
        return None

    def split(self, I, st, f, what):
        if what[0] not in ("qgap", "qviaL", "qviaR"):
            return super().split(I, st, f, what)
        kind, p, gid, k = what
        s0 = st.forests[FID]
        q, i = s0.find_gap(gid)
        it = s0.ch[q][i]
        bd = self.bounds(st)
        letter = ("B", ()) if k == 0 else ("C", ())
        out = []

        def add(label, s):
            if Bounds(s, self.top_of(st), True).ok:
                def go(c):
                    c.forests[FID] = s
                out.append((label, go))

        def placed(s, a, via):
            """items for a first node y of the level, as a member of, or below a member of, a gap"""
            y = s.fresh_in(a)
            s.rel[y] = (k, k)
            return y, ([s.gap(letter), ("v", s.uid(), y, letter, a, CLEAN)] if via else [("n", y)]) + [s.gap(a)]
        if kind == "qgap":
            a = it[2]
            lo, hi = bd.diff(q, "M")
            s = s0.copy()
            s.replace(q, i, [] if lo == hi == k - 1 else [("g", gid, letter)])
            add("no node of level M%+d in that part of n%d" % (k, q), s)
            for via in (False, True):
                s = s0.copy()
                y, items = placed(s, a, via)
                s.replace(q, i, items)
                add("n%d is the first of level M%+d there (%s n%d)" % (y, k, "below a child of" if via else "child of", q), s)
            return out
        _, _, z, L, R, S = it
        left = kind == "qviaL"
        s = s0.copy()
        s.replace(q, i, [("v", gid, z, letter if left else L, R if left else letter, S)])
        add("no node of level M%+d beside the path" % k, s)
        for up_deep in (False, True):
            for low_deep in (False, True):
                for via in (False, True):
                    s = s0.copy()
                    h = s.fresh("a")
                    s.apply_attr(h, S)
                    y, items = placed(s, L if left else R, via)
                    below = ("v", s.uid(), z, L, R if left else letter, S) if low_deep else ("n", z)
                    if left:
                        s._set_items(h, items + [below] + s.gaps(R))
                    else:
                        s._set_items(h, s.gaps(L) + [below] + items)
                    s.replace(q, i, [("v", s.uid(), h, letter if left else L, R, S) if up_deep else ("n", h)])
                    add("n%d is the first of level M%+d beside the path, below n%d" % (y, k, h), s)
        return out

    # ---- contents
    def elements(self, st, items):
        """[(value, what is left behind it)], lazily"""
        bd = self.bounds(st)
        for j, it in enumerate(items):
            if it[0] == "c":
                yield it[1], items[j + 1:]
                continue
            _, lvl, frm, to, tmpl = it
            k = self.level(st, bd, lvl)
            if k is None:
                raise Unsupported("level of a queue segment")
            while True:
                y = self.decide(st, k, frm, to, True)
                if y is None:
                    break
                frm = ("after", at(FID, y))
                yield fill(tmpl, y), (("seg", lvl, frm, to, tmpl),) + items[j + 1:]

    def ql_bounds(self, st, t):
        """bounds of a queue length term: number of nodes + offset"""
        n, exact = 0, True
        bd = self.bounds(st)
        for it in t[1]:
            if it[0] == "c":
                ns = set()
                elem_nodes(it[1], ns)
                n += bool(ns)
            else:
                k = self.level(st, bd, it[1])
                if k is None or self.decide(st, k, it[2], it[3], True) is not None:
                    n += 1
                    exact = False
        return n + t[2], (n + t[2] if exact else INF)

    def term_cmp(self, I, st, op, a, b):
        qa, qb = (isinstance(x, tuple) and x[0] == "ql" for x in (a, b))
        if qa != qb and isinstance(b if qa else a, int):
            lo, hi = self.ql_bounds(st, a if qa else b)
            v = b if qa else a
            if op == "Eq":
                return True if lo == hi == v else False if v < lo or v > hi else None
            if qa:
                return True if hi < v else False if lo >= v else None
            return True if v < lo else False if v >= hi else None
        return super().term_cmp(I, st, op, a, b)

    def checked(self, I, st, op, a, b, t):
        if isinstance(a, tuple) and a[0] == "ql" and isinstance(b, int):
            d = b if op.startswith("Add") else -b if op.startswith("Sub") else None
            if d is None:
                return None
            r = ("ql", a[1], a[2] + d)
            lo, hi = self.ql_bounds(st, r)
            if lo < 0:
                if hi >= 0:
                    raise Unsupported("sign of a queue length")
                return ("T", (0, True))
            return ("T", (r, False))
        return super().checked(I, st, op, a, b, t)

    def size_hint(self, I, st, v, done):
        lo, hi = v[1]
        if isinstance(lo, tuple) and lo[0] == "ql":
            if lo[2] > 0:
                self.bad("size_hint may promise more elements than are left")
            lo = 0
        m = st.spec
        empty = done or (m[0] == "run" and self.rest_ok(st, m[2][2]) and
                         self.subtree_ok(self.bounds(st), st.forests[FID], m[1][2], self.UPTO))
        super().size_hint(I, st, ("T", (lo, hi)), empty)

    # ---- canonical form
    def abstract(self, I, st):
        s = st.forests[FID]
        if st.spec[0] in ("run", "start", "done") and s.kind.get(self.top_of(st)) == "a":
            super().abstract(I, st)
            self.fold_queues(st)
        super().abstract(I, st)

    def fold_queues(self, st):
        s, top = st.forests[FID], self.top_of(st)
        bd = self.bounds(st)
        cand = set()

        def others(v):
            if isinstance(v, tuple):
                if is_at(v):
                    cand.add(v[2])
                elif v[:1] != ("Q",):
                    for e in v:
                        others(e)

        def mapq(v):
            if not isinstance(v, tuple):
                return v
            if v[:1] == ("Q",):
                return ("Q", self.fold_items(st, bd, v[1], cand))
            return tuple(mapq(e) if isinstance(e, tuple) else e for e in v)
        for fr in st.frames:
            for l in fr.locals:
                others(fr.locals[l])
        for k in st.heap:
            others(st.heap[k])
        others(st.spec)
        order = [x[1] for x in self.slots(s, top) if x[0] == "end"]
        cand = [x for x in order if x in cand]
        for fr in st.frames:
            for l in fr.locals:
                fr.locals[l] = mapq(fr.locals[l])
        for k in st.heap:
            st.heap[k] = mapq(st.heap[k])

    def fold_items(self, st, bd, items, cand):
        none = lambda k, frm, to: self.decide(st, k, frm, to, False) is None

        def before(k, frm, c):
            """nothing of level M+k after frm and before c"""
            return self.decide(st, k, frm, ("upto", at(FID, c)), False) == c
        out = []
        for it in items:
            if it[0] == "c":
                ns = set()
                elem_nodes(it[1], ns)
                c = ns.pop() if len(ns) == 1 else None
                if c is not None and c in bd.hi:
                    lo, hi = bd.diff(c, "M")
                    if lo == hi:
                        tmpl = punch(self.relative(bd, st, it[1], c), c)
                        to = ("upto", at(FID, c))
                        p = out[-1] if out else None
                        if p and p[0] == "seg" and p[4] == tmpl and self.level(st, bd, p[1]) == lo and p[3] is not None \
                                and before(lo, p[3], c):
                            out[-1] = p[:3] + (to, tmpl)
                            continue
                        for frm in [None] + [("after", at(FID, x)) for x in cand if x != c]:
                            if before(lo, frm, c):
                                it = ("seg", ("dp", at(FID, c), 0), frm, to, tmpl)
                                break
            if it[0] == "seg":
                k = self.level(st, bd, it[1])
                if k is not None:
                    it = self.fold_seg(st, k, it, cand, none)
            if it is not None:
                out.append(it)
        return tuple(out)

    def relative(self, bd, st, v, c):
        """the element, with its depths told relative to its node c"""
        if isinstance(v, int) and not isinstance(v, bool):
            lo, hi = bd.diff(c, self.top_of(st))
            return ("dp", at(FID, c), v - lo) if lo == hi and abs(v - lo) < 2 else v
        if not isinstance(v, tuple) or is_at(v):
            return v
        t = self.dterm(st, v)
        if t is not None:
            lo, hi = bd.diff(t[0], c)
            return ("dp", at(FID, c), t[1] + lo) if lo == hi else v
        j = {"A": 3, "T": 1, "Y": 1}.get(v[0] if v else None)
        if j is None or len(v) <= j:
            return v
        return v[:j] + (tuple(self.relative(bd, st, e, c) for e in v[j]),) + v[j + 1:]

    def fold_seg(self, st, k, seg, cand, none):
        _, lvl, frm, to, tmpl = seg
        if none(k, frm, to):
            return None
        if to is not None:
            if none(k, to, None):
                to = None
            else:
                for y in reversed(cand):
                    e = ("sub", at(FID, y))
                    if e == to or none(k, to, e):
                        to = e
                        break
        return ("seg", lvl, frm, to, tmpl)
