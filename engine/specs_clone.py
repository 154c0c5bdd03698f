"""Cloning of subtrees: every created node is matched with the source node it copies."""
from interp import Interp, Violation, Prune, Unsupported, at, is_at
from shape import NeedSplit, NONE, ROOT, FLOAT
from specs import BaseSpec, KINDS, new_node, dead_unchanged
from forest_check import verify, rebase, unchanged
import fold

DST = 0


def cloned_item(P, it):
    """every node the item stands for was cloned; raises NeedSplit when unclear"""
    if it[0] == "n":
        if P.marks.get(it[1]) != "V":
            raise Violation("effect", "n%d has not been cloned" % it[1])
        for c in P.ch[it[1]]:
            cloned_item(P, c)
    elif it[0] == "g":
        if it[2][0] != "V":
            raise NeedSplit(("gap", it[1], "L"))
    else:
        if it[3][0] not in "VE" or it[4][0] not in "VE" or it[5][0] != "P":
            raise NeedSplit(("via", it[1]))
        cloned_item(P, ("n", it[2]))


class Clone(BaseSpec):
    """spec state: ("clone", n, pairs, unreported); pairs = ((source, copy), ...), root first"""
    foreign = False
    mapping = True
    hook_may_panic = clone_may_panic = True

    def init(self, I):
        self.src = 1 if self.foreign else 0
        tys = self.argtys(I)
        for kn in KINDS:
            st, r = self.fresh_state(I, tys[0])
            args = [r]
            if self.foreign:
                args.append(I.add_forest(st, 1, self.forest_ty(I, tys[1])))
            for s in st.forests.values():
                s.track_empty = True
            n = new_node(st.forests[self.src], kn[1])
            st.spec = ("clone", at(self.src, n), (), None)
            st.note("%s(n%d [%s])" % (self.entry[2:], n, kn[0]))
            self.start(I, st, args + [I.mk_id(tys[-1], self.src, n)])

    def source_alive(self, st):
        return st.forests[self.src].kind[st.spec[1][2]] == "a"

    def on_check(self, I, st, what):
        if self.source_alive(st):
            raise Violation("dead-accepted", "clone: a live node is reported missing")
        self.ob(I, "missing node reported")
        raise Prune()

    # ---- what the code may do
    def on_write(self, I, st, f, n, todo):
        if self.foreign and f == self.src:
            raise Violation("effect", "cloning writes links of the source n%d" % n)

    def on_data_write(self, I, st, f, n, val):
        if st.forests[f].kind[n] != "n":
            raise Violation("effect", "cloning writes the data slot of n%d" % n)

    def on_push(self, I, st, f, n, arena):
        if self.foreign and f == self.src:
            raise Violation("effect", "cloning adds a node to the source forest")
        if arena == "N" and len([x for x, k in st.forests[DST].kind.items() if k == "n"]) > 1:
            # the previous creation must be complete before another one starts
            raise Violation("effect", "a second node is created before the first one is in place")

    def on_tok_clone(self, I, st, v, fid):
        if v[0] != "K" or v[2][0] != "data":
            raise Unsupported("clone of %s" % (v,))
        if any(k == "n" for k in st.forests[DST].kind.values()):
            try:
                self.sync(I, st)
            except Violation:
                pass          # not in place yet; demanded before the next creation
        return I.tok(v[1], ("copy", v[2][1]))

    def on_tok_drop(self, I, st, v):
        if v[2][0] == "data":
            raise Violation("effect", "cloning drops a datum")

    def on_hook(self, I, st, args, out):
        if not self.mapping:
            raise Unsupported("callback")
        a, b = I.id_node(args[0], st), I.id_node(args[1], st)
        if a is None or b is None:
            raise Unsupported("ids given to the mapping callback")
        self.sync(I, st)
        u = st.spec[3]
        if u is None:
            raise Violation("effect", "the mapping callback is called without a new node, or twice")
        if (at(*a), at(*b)) != u:
            raise Violation("effect", "the mapping callback gets n%d, n%d instead of source n%d, copy n%d" % (
                a[1], b[1], u[0][2], u[1][2]))
        st.spec = st.spec[:3] + (None,)
        self.ob(I, "mapping reported")

    # ---- a completed creation
    def sync(self, I, st):
        P = st.forests[DST]
        new = [x for x, k in P.kind.items() if k == "n"]
        if not new:
            return
        if len(new) != 1 or P.kN != 1 or P.kD != 1:
            raise Violation("effect", "clone: %d links and %d data are added for one node" % (P.kN, P.kD))
        x = new[0]
        d = P.dw.get(x)
        if d is None or d == "TAKEN" or d[3][0][2][0] != "copy":
            raise Violation("effect", "clone: the new n%d does not hold a clone of a source datum" % x)
        src = d[3][0][2][1]
        y = src[2]
        _, root, pairs, unrep = st.spec
        if unrep is not None:
            raise Violation("effect", "clone: the copy of n%d was never reported to the mapping callback" % unrep[0][2])
        S = st.forests[self.src]
        if S.marks.get(y) == "V":
            raise Violation("effect", "clone: n%d is cloned twice" % y)
        P2 = P.copy()
        P2.s_new_root(x)
        if src != root:
            if not pairs:
                raise Violation("effect", "clone: n%d is cloned before the root of the subtree" % y)
            q = self.need(self.src, S.need_parent, y)
            if q == ROOT:
                raise Violation("effect", "clone: n%d is outside the subtree" % y)
            try:
                for it in S.ch[q][:S.index_of(q, y)]:
                    self.need(self.src, cloned_item, S, it)
            except Violation as v:
                raise Violation("effect", "clone: n%d is cloned before its preceding siblings: %s" % (y, v.msg))
            img = [b for a, b in pairs if a == at(self.src, q)]
            if not img:
                if S.marks.get(q) == "V":
                    raise Unsupported("copy of n%d is not tracked any more" % q)
                raise Violation("effect", "clone: n%d is cloned before its parent" % y)
            self.need(DST, P2.s_insert, x, "LastChildOf", img[0][2])
        elif pairs:
            raise Violation("effect", "clone: the root is cloned again")
        verify(I, st, DST, P2, "clone: creation of the copy of n%d" % y,
               {x: I.tok(I.finfo[DST]["tok"], ("copy", src))})
        rebase(I, st, DST, P2)
        st.forests[DST].marks[x] = "N"
        st.forests[self.src].marks[y] = "V"
        pr = (src, at(DST, x))
        st.spec = ("clone", root, pairs + (pr,), pr if self.mapping else None)
        self.ob(I, "node cloned")

    def before_fold(self, I, st):
        if not self.mapping and st.spec[0] == "clone" and any(k == "n" for k in st.forests[DST].kind.values()):
            try:
                self.sync(I, st)
            except Violation:
                pass          # not in place yet; demanded before the next creation
        if st.spec[0] != "clone" or not st.spec[2]:
            return st.spec
        keep = st.spec
        st.spec = ()
        slots, _, _ = I.live_values(st)
        st.spec = keep
        refs = []
        for _, v in slots:
            fold.nodes_in(v, refs)
        refs = set(refs)
        pairs = keep[2]
        kept = tuple(p for i, p in enumerate(pairs) if i == 0 or p == keep[3] or
                     (p[0][1], p[0][2]) in refs or (p[1][1], p[1][2]) in refs)
        return keep[:2] + (kept,) + keep[3:]

    # ---- a hidden node of the source path and its copy are found together
    def split(self, I, st, f, what):
        d = self.coupled(st, f, what)
        if d is None:
            return BaseSpec.split(self, I, st, f, what)
        a, b = d
        out = []
        n = len(st.forests[a[1]].split(("parent", a[2])))
        m = len(st.forests[b[1]].split(("parent", b[2])))
        if n != 2 or m != 2:
            raise Unsupported("coupled case distinction")
        for i in range(2):
            def go(c, i=i):
                lab, sh = c.forests[a[1]].split(("parent", a[2]))[i]
                c.forests[a[1]] = sh
                p = sh.up[a[2]][1]
                lab, sh = c.forests[b[1]].split(("parent", b[2]))[i]
                c.forests[b[1]] = sh
                q = sh.up[b[2]][1]
                c.spec = c.spec[:2] + (c.spec[2] + ((at(a[1], p), at(b[1], q)),),) + c.spec[3:]
            out.append(("parents of n%d and its copy n%d %s" % (a[2], b[2], "are further down" if i else "are direct"), go))
        return out

    def coupled(self, st, f, what):
        s = st.forests[f]
        if what[0] == "parent":
            x = what[1]
        elif what[0] == "via":
            q, i = s.find_gap(what[1])
            x = s.ch[q][i][2]
        else:
            return None
        if not isinstance(s.up[x], tuple) or s.up[x][0] != "v":
            return None
        for a, b in st.spec[2]:
            if (a[1], a[2]) == (f, x) or (b[1], b[2]) == (f, x):
                A, B = st.forests[a[1]], st.forests[b[1]]
                ua, ub = A.up[a[2]], B.up[b[2]]
                if isinstance(ua, tuple) and isinstance(ub, tuple) and ua[0] == ub[0] == "v":
                    pa, pb = at(a[1], ua[1]), at(b[1], ub[1])
                    if (pa, pb) in st.spec[2]:
                        if what[0] == "via":
                            # from above: the same two cases
                            raise Unsupported("coupled path entered from above")
                        return a, b
        return None

    # ---- the end
    def on_end(self, I, st, kind, val):
        if not self.source_alive(st):
            if kind == "ret":
                raise Violation("dead-accepted", "clone of a node that is not alive succeeds")
            for f in st.forests:
                dead_unchanged_f(I, st, f, "clone of a node that is not alive")
            return self.ob(I, "rejected dead")
        if kind == "unwind":
            if st.ex:
                return self.ob(I, "overflow")
            if val[0] == "<callback panic>":
                try:
                    self.sync(I, st)
                    for f in st.forests:
                        unchanged(I, st, f, "clone after a clone of a datum or the mapping callback panicked")
                except Violation as v:
                    raise Violation("safe", "a datum's clone or the mapping callback panics: " + v.msg)
                return self.ob(I, "unwound")
            raise Violation("panic", "clone of a live node panics: " + self.panic_text(st, val))
        ret = I.id_node(val, st)
        self.sync(I, st)
        _, root, pairs, unrep = st.spec
        if unrep is not None:
            raise Violation("effect", "clone: the copy of n%d was never reported to the mapping callback" % unrep[0][2])
        if not pairs:
            raise Violation("effect", "clone: no node was created")
        if ret != (DST, pairs[0][1][2]):
            raise Violation("effect", "clone does not return the id of the new root")
        S = st.forests[self.src]
        for it in S.ch[root[2]]:
            try:
                self.need(self.src, cloned_item, S, it)
            except Violation as v:
                raise Violation("effect", "clone returns although " + v.msg)
        for f in st.forests:
            unchanged(I, st, f, "clone at return")
        self.ob(I, "cloned")


def dead_unchanged_f(I, st, f, what):
    try:
        unchanged(I, st, f, what)
    except Violation as v:
        raise Violation("dead-accepted", v.msg)
