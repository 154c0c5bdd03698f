"""Specifications of the traversals and of the single-node queries: monitors that follow
the abstract forest and prescribe every value an iterator may return."""
import rank
from interp import Violation, Prune, Unsupported, at, is_at
from shape import NeedSplit, NONE, ROOT, FLOAT, CLEAN
from specs import BaseSpec, FID, KINDS, new_node
from forest_check import unchanged

END = ("end",)


def opt(I, v):
    """Option value -> payload or None"""
    if v[0] != "A":
        raise Unsupported("observed value")
    return v[3][0] if I.vname(v) == "Some" else None


class ReadOnly(BaseSpec):
    """nothing may be written to the forest"""
    rule = "value"
    widen = None

    def on_write(self, I, st, f, n, todo):
        raise Violation("purity", "a read-only operation writes links of n%d" % n)

    def on_data_write(self, I, st, f, n, val):
        raise Violation("purity", "a read-only operation writes the data slot of n%d" % n)

    def on_push(self, I, st, f, n, arena):
        raise Violation("purity", "a read-only operation adds a node")

    def bad(self, msg, also=()):
        raise Violation(self.rule, self.entry[2:] + ": " + msg, also)

    def again(self, st, got, lo, hi):
        """rules a wrong event of an iterator breaks as well: is it one that had its turn before?
        lo, hi: the events its two ends stand at (no second end: None)"""
        s = st.forests[FID]
        if got[1] not in s.up or s.top(got[1]) != s.top(lo[1]):
            return ()
        pos = rank.event_order(s, s.top(lo[1]))
        k = [pos[("pre" if op else "post", x)] for op, x in (got, lo, hi or got)]
        return () if k[1] <= k[0] <= k[2] else ("repeats",)

    def init(self, I):
        tys = self.argtys(I)
        for kn in KINDS:
            st, r = self.fresh_state(I, tys[0])
            n = new_node(st.forests[FID], kn[1])
            st.forests[FID].widen = self.widen
            st.spec = ("start", at(FID, n))
            st.note("%s(n%d [%s])" % (self.entry[2:], n, kn[0]))
            self.start(I, st, [r, I.mk_id(tys[1], FID, n)] + self.more_args(I, st, tys))

    def more_args(self, I, st, tys):
        return []

    def on_check(self, I, st, what):
        """the lookup said: no such node"""
        n = st.spec[1][2]
        if st.forests[FID].kind[n] == "a":
            raise Violation("dead-accepted", "%s: a live node is reported missing" % self.entry[2:])
        self.ob(I, "missing node reported")
        raise Prune()

    def alive(self, st):
        n = st.spec[1][2]
        if st.forests[FID].kind[n] != "a":
            raise Violation("dead-accepted", "%s: a node that is not alive is accepted" % self.entry[2:])

    def on_end(self, I, st, kind, val):
        n = st.spec[1][2]
        P = st.forests[FID]
        if kind == "unwind":
            if P.kind[n] == "a" or st.spec[0] != "start":
                raise Violation("panic", "%s on a live node panics: %s" % (self.entry[2:], self.panic_text(st, val)))
            self.ob(I, "dead node rejected")
            return
        if P.kind[n] != "a":
            raise Violation("dead-accepted", "%s: a node that is not alive is accepted" % self.entry[2:])
        self.ob(I, "returned")

    def wrong(self, I, st, got):
        """rules also broken by an observation of (opening event?, id)"""
        return ()

    # ---- comparing observed values
    def is_node(self, I, st, v, n, what):
        """v is (id, &data, &forest) of node n"""
        if v[0] != "T" or len(v[1]) != 3:
            raise Unsupported("observed node")
        i, d, fo = v[1]
        if I.id_node(i, st) != (FID, n):
            self.bad("%s yields n%s, must yield n%s" % (what, nm(I.id_node(i, st)), n), self.wrong(I, st, (True, i)))
        if d[0] != "R" or d[1][:2] != ("D", at(FID, n)):
            self.bad("%s: the node's data is not the datum of n%s" % (what, n))
        if fo[0] != "R" or fo[1] != ("O", ("forest", FID)):
            self.bad("%s: the node belongs to another forest" % what)

    def is_id(self, I, st, v, n, what):
        if I.id_node(v, st) != (FID, n):
            self.bad("%s yields n%s, must yield n%s" % (what, nm(I.id_node(v, st)), n))

    def opt_node(self, I, st, v, n, what, cmp=None):
        p = opt(I, v)
        if n == NONE:
            if p is not None:
                self.bad("%s yields a node, must yield None" % what)
        elif p is None:
            self.bad("%s yields None, must yield n%s" % (what, n))
        else:
            (cmp or self.is_node)(I, st, p, n, what)

    def size_hint(self, I, st, v, empty):
        """empty: True/False/None (unknown).  The hint must bound the remaining length."""
        lo, hi = v[1]
        lo = I.norm(st, lo)
        h = opt(I, hi)
        if lo != 0 and not (lo == 1 and empty is False):
            if empty is True:
                self.bad("size_hint promises elements although none are left")
            raise Unsupported("size hint %s" % (lo,))
        if h is None:
            return
        if h == 0:
            if empty is not True:
                self.bad("size_hint says no element is left although one is")
            return
        if empty is True and isinstance(h, int):
            return
        raise Unsupported("size hint upper bound %s" % (h,))


def nm(x):
    return "?" if x is None else x[1]


class Range(ReadOnly):
    """double-ended iterators over a sequence given by first/last/next/prev"""

    # monitor: ("run", n, front, back) or ("done", n)
    def first(self, I, st, n):
        raise NotImplementedError

    def mon(self, I, st):
        if st.spec[0] == "start":
            self.alive(st)
            n = st.spec[1][2]
            r = self.need(FID, self.ends, st.forests[FID], n)
            st.spec = ("done", st.spec[1]) if r is None else ("run", st.spec[1]) + tuple(self.pack(x) for x in r)
        return st.spec

    def pack(self, x):
        return at(FID, x)

    def unpack(self, e):
        return e[2]

    def same(self, I, st, v, x, what):
        self.opt_node(I, st, v, x, what)

    def nothing(self, I, st, v, what):
        if opt(I, v) is not None:
            self.bad("%s yields an element after the end" % what, ("repeats",))

    def wrong(self, I, st, got):
        m = st.spec
        n = I.id_node(got[1], st)
        if m[0] != "run" or n is None or n[0] != FID:
            return ()
        a, b = ((True, x) if isinstance(x, int) else x for x in (self.unpack(m[2]), self.unpack(m[3])))
        return self.again(st, (got[0], n[1]), a, b)

    def on_obs(self, I, st, what, v):
        m = self.mon(I, st)
        P = st.forests[FID]
        self.ob(I, what)
        done = m[0] == "done"
        if what == "size_hint":
            return self.size_hint(I, st, v, done)
        if done:
            return self.nothing(I, st, v, what)
        a, b = self.unpack(m[2]), self.unpack(m[3])
        if what in ("next", "peek"):
            self.same(I, st, v, a, what)
        else:
            self.same(I, st, v, b, what)
        if what in ("next", "back"):
            if a == b:
                st.spec = ("done", m[1])
            elif what == "next":
                st.spec = ("run", m[1], self.pack(self.need(FID, self.succ, P, a)), m[3])
            else:
                st.spec = ("run", m[1], m[2], self.pack(self.need(FID, self.pred, P, b)))


class SiblingRange(Range):
    def succ(self, P, x):
        return P.p_next(x)

    def pred(self, P, x):
        return P.p_prev(x)

    def ends(self, P, n):
        k = self.entry[2:]
        if k == "children":
            a = P.p_first(n)
            return None if a == NONE else (a, P.p_last(n))
        p = P.need_parent(n)
        if k == "following_siblings":
            a = P.p_next(n)
            return None if a == NONE else (a, P.p_last(p))
        if k == "following_siblings_or_self":
            return (n, n if p == ROOT else P.p_last(p))
        if k == "preceding_siblings":
            b = P.p_prev(n)
            return None if b == NONE else (P.p_first(p), b)
        if k == "preceding_siblings_or_self":
            return (n if p == ROOT else P.p_first(p), n)
        raise Unsupported(k)


def dfs_succ(P, e, top):
    op, x = e
    if op:
        c = P.p_first(x)
        return (False, x) if c == NONE else (True, c)
    assert x != top
    y = P.p_next(x)
    return (False, P.p_parent(x)) if y == NONE else (True, y)


def dfs_pred(P, e, top):
    op, x = e
    if not op:
        c = P.p_last(x)
        return (True, x) if c == NONE else (False, c)
    assert x != top
    y = P.p_prev(x)
    return (True, P.p_parent(x)) if y == NONE else (False, y)


class Dfs(Range):
    widen = CLEAN

    def pack(self, e):
        return (e[0], at(FID, e[1]))

    def unpack(self, e):
        return (e[0], e[1][2])

    def ends(self, P, n):
        self.top = n
        return ((True, n), (False, n))

    def succ(self, P, e):
        return dfs_succ(P, e, None)

    def pred(self, P, e):
        return dfs_pred(P, e, None)

    def same(self, I, st, v, e, what):
        p = opt(I, v)
        if p is None:
            self.bad("%s yields None, must yield %s" % (what, evname(e)))
        if bool(p[1][0]) != e[0]:
            self.bad("%s yields %s of n%s, must yield %s" % (
                what, "Open" if p[1][0] else "Close", nm(I.id_node(p[1][1][1][0], st)), evname(e)),
                self.wrong(I, st, (bool(p[1][0]), p[1][1][1][0])))
        self.is_node(I, st, p[1][1], e[1], what)


def evname(e):
    return "%s(n%d)" % ("Open" if e[0] else "Close", e[1])


class Ancestors(ReadOnly):
    def wrong(self, I, st, got):
        n, s = I.id_node(got[1], st), st.forests[FID]
        if st.spec[0] != "run" or n is None or n[0] != FID:
            return ()
        y, x = st.spec[1][2], st.spec[2][2]
        while y != x:
            if y == n[1] and (y != st.spec[1][2] or self.entry.endswith("or_self")):
                return ("repeats",)
            y = s.up[y][1]
        return ()

    def on_obs(self, I, st, what, v):
        if st.spec[0] == "start":
            self.alive(st)
            n = st.spec[1][2]
            x = n if self.entry.endswith("or_self") else self.need(FID, st.forests[FID].p_parent, n)
            st.spec = ("done", st.spec[1]) if x == NONE else ("run", st.spec[1], at(FID, x))
        m = st.spec
        self.ob(I, what)
        if what == "size_hint":
            return self.size_hint(I, st, v, m[0] == "done")
        if m[0] == "done":
            if opt(I, v) is not None:
                self.bad("%s yields an element after the end" % what, ("repeats",))
            return
        x = m[2][2]
        self.opt_node(I, st, v, x, what)
        if what == "next":
            p = self.need(FID, st.forests[FID].p_parent, x)
            st.spec = ("done", m[1]) if p == NONE else ("run", m[1], at(FID, p))


class Full(ReadOnly):
    """an iterator driven to its end; what it yields is the business of the other entries"""
    widen = CLEAN

    def on_obs(self, I, st, what, v):
        self.alive(st)
        self.ob(I, what)


class NodeQueries(ReadOnly):
    def on_obs(self, I, st, what, v):
        self.alive(st)
        n = st.spec[1][2]
        P = st.forests[FID]
        self.ob(I, what)
        cmp = self.is_node
        q = what
        if q.endswith("_id"):
            cmp, q = self.is_id, q[:-3]
        g = {"self": lambda: n, "parent": lambda: P.p_parent(n), "next_sibling": lambda: P.p_next(n),
             "prev_sibling": lambda: P.p_prev(n), "first_child": lambda: P.p_first(n),
             "last_child": lambda: P.p_last(n)}
        if q in g:
            return self.opt_node(I, st, v, self.need(FID, g[q]), what, cmp)
        if q == "first_last_child":
            a, b = self.need(FID, P.p_first, n), self.need(FID, P.p_last, n)
            p = opt(I, v)
            if a == NONE:
                if p is not None:
                    self.bad("%s yields nodes, must yield None" % what)
                return
            if p is None:
                self.bad("%s yields None, must yield n%d, n%d" % (what, a, b))
            cmp(I, st, p[1][0], a, what)
            cmp(I, st, p[1][1], b, what)
            return
        if q == "id":
            return self.opt_node(I, st, v, n, what, self.is_id)
        if q == "data":
            return self.data(I, st, v, n)
        if q == "forest":
            if v[0] != "R" or v[1] != ("O", ("forest", FID)):
                self.bad("forest() is another forest")
            return
        raise Unsupported("observation " + what)

    def data(self, I, st, v, n):
        p = opt(I, v)
        if p is None or p[0] != "R" or p[1][:2] != ("D", at(FID, n)):
            self.bad("data is not the datum of n%d" % n)


class Alive(NodeQueries):
    """node/node_mut/data/data_mut succeed exactly for the nodes that are alive"""
    rule = "dead-accepted"

    def on_obs(self, I, st, what, v):
        n = st.spec[1][2]
        live = st.forests[FID].kind[n] == "a"
        self.ob(I, "%s %s" % (what, "live" if live else "dead"))
        if what == "data":
            if (opt(I, v) is not None) != live:
                self.bad("data is %s although n%d is%s alive" % ("None" if live else "Some", n, "" if live else " not"))
            if live:
                self.data(I, st, v, n)
            return
        if bool(v) != live:
            self.bad("%s is %s although n%d is%s alive" % (what, "Some" if v else "None", n, "" if live else " not"))

    def on_end(self, I, st, kind, val):
        if kind == "unwind":
            raise Violation("panic", "a lookup panics: " + self.panic_text(st, val))
        self.ob(I, "returned")


class SetData(ReadOnly):
    rule = "value"

    def more_args(self, I, st, tys):
        return [I.tok(tys[2], ("arg",))]

    def on_tok_drop(self, I, st, v):
        pass

    def on_data_write(self, I, st, f, n, val):
        pass

    def on_end(self, I, st, kind, val):
        n = st.spec[1][2]
        P = st.forests[FID]
        if P.kind[n] != "a":
            raise Violation("dead-accepted", "the data slot of a dead node is written")
        if kind == "unwind":
            raise Violation("panic", "data access on a live node panics: " + self.panic_text(st, val))
        new = P.dw.pop(n, None)
        if new is None or new == "TAKEN" or new[3][0] != I.tok(I.finfo[FID]["tok"], ("arg",)):
            self.bad("the datum written through a mutable reference did not arrive in n%d" % n)
        unchanged(I, st, FID, "writing the datum of a node")
        self.ob(I, "written")
