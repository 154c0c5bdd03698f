"""What each analysed entry point must do, stated on abstract forests."""
from interp import Interp, Spec, State, Violation, Prune, Unsupported, at, is_at, UNIT
from shape import Shape, NeedSplit, NONE, ROOT, FLOAT, FIELDS
from forest_check import verify, rebase, unchanged
import fold

FID = 0


class BaseSpec(Spec):
    hook_may_panic = False
    clone_may_panic = False

    def __init__(self, entry, **kw):
        self.entry = entry
        self.name = entry
        self.__dict__.update(kw)

    # ---- construction of initial states
    def start(self, I, st, args):
        fid = I.prog.entries[self.entry]
        I.enter(st, fid, args, None, None, None, "")
        I.work.append(st)
        I.stats["states"] += 1

    def argtys(self, I):
        fid = I.prog.entries[self.entry]
        b = I.prog.body(fid)
        return b.locals[1:b.nargs + 1]

    def forest_ty(self, I, refty):
        return I.types[refty]["e"]

    def fresh_state(self, I, refty, f=0):
        st = State()
        r = I.add_forest(st, f, self.forest_ty(I, refty))
        return st, r

    # ---- default monitors
    def on_obs(self, I, st, what, v):
        raise Unsupported("observation " + what)

    def on_check(self, I, st, what):
        raise Unsupported("check " + what)

    def on_hook(self, I, st, args, out):
        raise Unsupported("callback")

    def on_push(self, I, st, f, n, arena):
        pass

    def on_tok_drop(self, I, st, v):
        pass

    def on_tok_clone(self, I, st, v, fid):
        raise Violation("effect", "user data cloned unexpectedly")

    # ---- helpers
    def result(self, I, v):
        """Result/Option value -> (variant, payload)"""
        return I.vname(v), (v[3][0] if v[3] else None)

    def err_name(self, I, v):
        return I.vname(v)

    def ob(self, I, k):
        I.obligations[k] = I.obligations.get(k, 0) + 1

    def need(self, f, g, *a):
        try:
            return g(*a)
        except NeedSplit as e:
            e.fid = f
            raise

    def panic_text(self, st, val):
        return val[0] if val else "?"


KINDS = (("alive", "a"), ("removed", "d"), ("out of range", "o"))


def new_node(s, k):
    return s.fresh(k)


def require_alive_or_untouched(spec, I, st, kind, val, okret, what):
    """an operation given a dead or foreign id must not succeed and must change nothing"""
    if kind == "ret" and not okret(val):
        raise Violation("dead-accepted", "%s: succeeded although a given node is not alive" % what)
    dead_unchanged(I, st, what + " with a node that is not alive")


def dead_unchanged(I, st, what):
    try:
        unchanged(I, st, FID, what)
    except Violation as v:
        raise Violation("dead-accepted", v.msg)


class Insert(BaseSpec):
    """insert / try_adopt: `node` becomes the given relative of `anchor`"""
    WHERE = ("FirstChildOf", "LastChildOf", "PreviousSiblingOf", "NextSiblingOf")
    dead = True
    only = None

    def build_args(self, I, st, r, tys, n, w, a):
        dest = I.mk_adt(tys[2], w, (I.mk_id(I.field_ty(tys[2], 0, 0), FID, a),))
        return [r, I.mk_id(tys[1], FID, n), dest]

    def init(self, I):
        tys = self.argtys(I)
        for w in self.WHERE:
            if self.only and w != self.only:
                continue
            for kn in KINDS:
                for ka in KINDS + ((("same"), None),):
                    if not self.dead and (kn[1] != "a" or ka[1] not in ("a", None)):
                        continue
                    st, r = self.fresh_state(I, tys[0])
                    s = st.forests[FID]
                    n = new_node(s, kn[1])
                    a = n if ka[1] is None else new_node(s, ka[1])
                    st.spec = ("ins", w, at(FID, n), at(FID, a))
                    st.note("insert(n%d [%s], %s(n%d [%s]))" % (n, kn[0], w, a, ka[0]))
                    self.start(I, st, self.build_args(I, st, r, tys, n, w, a))

    def expected(self, I, st):
        P = st.forests[FID]
        _, w, (_, _, n), (_, _, a) = st.spec
        if w in ("PreviousSiblingOf", "NextSiblingOf"):
            if n == a:
                return "UnorderableSiblings"
            p = P.need_parent(a)
            if p == ROOT:
                return "SiblingsWithoutParent"
        else:
            p = a
        r = P.is_anc_or_self(n, p)
        if r is None:
            return "unknown"
        return "AncestorDescendantLoop" if r else "Ok"

    def on_end(self, I, st, kind, val):
        _, w, (_, _, n), (_, _, a) = st.spec
        P = st.forests[FID]
        what = "insert %s" % w
        if P.kind[n] != "a" or P.kind[a] != "a":
            require_alive_or_untouched(self, I, st, kind, val, lambda v: I.vname(v) == "Err", what)
            self.ob(I, "rejected dead")
            return
        exp = self.need(FID, self.expected, I, st)
        if kind == "unwind":
            if exp in ("Ok", "unknown"):
                raise Violation("panic", "%s of live nodes panics: %s" % (what, self.panic_text(st, val)), ("rejection",))
            raise Violation("rejection", "%s must return Err(%s) but panics: %s" % (what, exp, self.panic_text(st, val)))
        got = I.vname(val)
        if got == "Err":
            got = I.vname(val[3][0])
        if exp == "unknown":
            raise Violation("rejection", "%s returns %s without having established whether the node is an ancestor of the destination" % (what, got))
        if got != exp:
            raise Violation("rejection", "%s returns %s, must return %s" % (what, got, exp),
                            ("effect",) if exp == "Ok" else ())
        if got == "Ok":
            P2 = P.copy()
            self.need(FID, P2.s_insert, n, w, a)
            verify(I, st, FID, P2, what)
            self.ob(I, "placed")
        else:
            try:
                unchanged(I, st, FID, what + " -> Err(%s)" % got)
            except Violation as v:
                raise Violation("rejection", v.msg)
            self.ob(I, "rejected " + got)


class Detach(BaseSpec):
    def init(self, I):
        tys = self.argtys(I)
        for kn in KINDS:
            st, r = self.fresh_state(I, tys[0])
            n = new_node(st.forests[FID], kn[1])
            st.spec = ("det", at(FID, n))
            st.note("%s(n%d [%s])" % (self.entry[2:], n, kn[0]))
            self.start(I, st, [r, I.mk_id(tys[1], FID, n)])

    def on_end(self, I, st, kind, val):
        n = st.spec[1][2]
        P = st.forests[FID]
        if P.kind[n] != "a":
            require_alive_or_untouched(self, I, st, kind, val, lambda v: False, "detach")
            self.ob(I, "rejected dead")
            return
        if kind == "unwind":
            raise Violation("panic", "detach of a live node panics: " + self.panic_text(st, val))
        P2 = P.copy()
        self.need(FID, P2.s_detach, n)
        verify(I, st, FID, P2, "detach")
        self.ob(I, "detached")


def s_detach_single(P, P2, x):
    """returns the error name or None; edits P2"""
    c = P.ch[x]
    p = P.need_parent(x)
    if p == ROOT:
        # no child, one child, or several?
        f = P.p_first(x)
        if f == NONE:
            return None
        l = P.p_last(x)
        if f != l:
            return "SiblingsWithoutParent"
        P2._set_items(x, [])
        P2.up[f] = ROOT
        return None
    items = list(P2.ch[p])
    i = P2.index_of(p, x)
    items[i:i + 1] = list(c)
    P2.ch[x] = ()
    P2._set_items(p, items)
    P2.up[x] = ROOT
    return None


class DetachSingle(Detach):
    def on_end(self, I, st, kind, val):
        n = st.spec[1][2]
        P = st.forests[FID]
        what = "detach_single"
        if P.kind[n] != "a":
            require_alive_or_untouched(self, I, st, kind, val, lambda v: I.vname(v) == "Err", what)
            self.ob(I, "rejected dead")
            return
        if kind == "unwind":
            raise Violation("panic", "detach_single of a live node panics: " + self.panic_text(st, val))
        P2 = P.copy()
        exp = self.need(FID, s_detach_single, P, P2, n)
        got = I.vname(val)
        if got == "Err":
            got = I.vname(val[3][0])
        if got != (exp or "Ok"):
            raise Violation("effect", "detach_single returns %s, must return %s" % (got, exp or "Ok"))
        if exp:
            unchanged(I, st, FID, "detach_single -> Err")
            self.ob(I, "rejected " + exp)
        else:
            verify(I, st, FID, P2, what)
            self.ob(I, "detached")


class CreateRoot(BaseSpec):
    def init(self, I):
        tys = self.argtys(I)
        for seed in (False, True):
            # with an out-of-range id around, the new index may coincide with it
            st, r = self.fresh_state(I, tys[0])
            s = st.forests[FID]
            w = new_node(s, "a")
            d = new_node(s, "d")
            st.spec = ("new", at(FID, w), at(FID, d))
            st.heap[("keep", 0)] = st.spec
            t = I.tok(tys[1], ("arg",))
            st.note("create_root(datum)")
            self.start(I, st, [r, t])
            break

    def on_end(self, I, st, kind, val):
        P = st.forests[FID]
        if kind == "unwind":
            if P.kN or P.kD or not st.ex:
                raise Violation("effect", "create_root panics: %s" % self.panic_text(st, val))
            unchanged(I, st, FID, "create_root panicking on exhausted ids")
            self.ob(I, "overflow")
            return
        check_new(self, I, st, val, "create_root", None)
        self.ob(I, "created")


def check_new(self, I, st, val, what, place):
    """exactly one new node, holding the datum, returned, placed as prescribed"""
    P = st.forests[FID]
    new = [x for x, k in P.kind.items() if k == "n"]
    if len(new) != 1 or P.kN != 1 or P.kD != 1:
        raise Violation("effect", "%s adds %d links and %d data instead of one node" % (what, P.kN, P.kD))
    x = new[0]
    if I.id_node(val, st) != (FID, x):
        raise Violation("effect", "%s does not return the id of the new node" % what)
    P2 = P.copy()
    P2.s_new_root(x)
    if place:
        self.need(FID, P2.s_insert, x, place[0], place[1])
    verify(I, st, FID, P2, what, {x: I.tok(I.finfo[FID]["tok"], ("arg",))})


class CreateInsert(BaseSpec):
    def init(self, I):
        tys = self.argtys(I)
        for w in Insert.WHERE:
            for ka in KINDS:
                st, r = self.fresh_state(I, tys[0])
                s = st.forests[FID]
                a = new_node(s, ka[1])
                st.spec = ("cins", w, at(FID, a))
                st.note("create_insert(datum, %s(n%d [%s]))" % (w, a, ka[0]))
                self.start(I, st, self.make(I, r, tys, w, a))

    def make(self, I, r, tys, w, a):
        dest = I.mk_adt(tys[2], w, (I.mk_id(I.field_ty(tys[2], 0, 0), FID, a),))
        return [r, I.tok(tys[1], ("arg",)), dest]

    def on_end(self, I, st, kind, val):
        _, w, (_, _, a) = st.spec
        P = st.forests[FID]
        what = "create_insert %s" % w
        ok = P.kind[a] == "a"
        if ok and w in ("PreviousSiblingOf", "NextSiblingOf"):
            ok = self.need(FID, P.need_parent, a) != ROOT
        if kind == "unwind":
            overflow = st.ex
            if ok and not overflow:
                raise Violation("panic", "%s panics: %s" % (what, self.panic_text(st, val)))
            # whatever was created before the panic, the forest must be a forest and
            # no existing node may have been touched
            P2 = P.copy()
            for x, k in P.kind.items():
                if k == "n":
                    P2.s_new_root(x)
            try:
                verify(I, st, FID, P2, what + " panicking")
            except Violation as v:
                raise Violation("dead-accepted" if P.kind[a] != "a" else v.rule, v.msg)
            self.ob(I, "panicked cleanly")
            return
        if not ok:
            raise Violation("dead-accepted" if P.kind[a] != "a" else "effect",
                            "%s succeeded although the anchor cannot take it" % what)
        check_new(self, I, st, val, what, (w, a))
        self.ob(I, "created")


# ---------------------------------------------------------------- through NodeMut
ADOPT = {"FirstChildOf": "FirstChild", "LastChildOf": "LastChild",
         "PreviousSiblingOf": "PreviousSibling", "NextSiblingOf": "NextSibling"}


def missing(self, I, st, x, what):
    """node_mut() said that x does not exist"""
    if st.forests[FID].kind[x] == "a":
        raise Violation("dead-accepted", "%s: a live node is reported missing" % what)
    dead_unchanged(I, st, what + ": lookup of a missing node")
    self.ob(I, "missing node reported")
    raise Prune()


class NmTryAdopt(Insert):
    def build_args(self, I, st, r, tys, n, w, a):
        return [r, I.mk_id(tys[1], FID, a), I.mk_id(tys[2], FID, n), I.mk_adt(tys[3], ADOPT[w])]

    def on_check(self, I, st, what):
        missing(self, I, st, st.spec[3][2], "node_mut")

    def on_end(self, I, st, kind, val):
        if st.forests[FID].kind[st.spec[3][2]] != "a":
            if kind == "unwind":
                raise Violation("panic", "node_mut of a missing node panics")
            raise Violation("dead-accepted", "node_mut of a missing node yields a view")
        Insert.on_end(self, I, st, kind, val)


class NmAdopt(NmTryAdopt):
    def on_end(self, I, st, kind, val):
        _, w, (_, _, n), (_, _, a) = st.spec
        P = st.forests[FID]
        what = "adopt %s" % ADOPT[w]
        if P.kind[a] != "a":
            return NmTryAdopt.on_end(self, I, st, kind, val)
        if P.kind[n] != "a":
            if kind == "ret":
                raise Violation("dead-accepted", "%s: succeeded although the given node is not alive" % what)
            dead_unchanged(I, st, what + " of a node that is not alive")
            return self.ob(I, "rejected dead")
        exp = self.need(FID, self.expected, I, st)
        if exp == "unknown":
            raise Violation("rejection", what + " completes without having established whether the node is an ancestor")
        if exp == "Ok":
            if kind == "unwind":
                raise Violation("panic", "%s of live nodes panics: %s" % (what, self.panic_text(st, val)))
            P2 = P.copy()
            self.need(FID, P2.s_insert, n, w, a)
            verify(I, st, FID, P2, what)
            return self.ob(I, "placed")
        if kind == "ret":
            raise Violation("rejection", "%s returns, must panic (%s)" % (what, exp))
        try:
            unchanged(I, st, FID, what + " panicking (%s)" % exp)
        except Violation as v:
            raise Violation("rejection", v.msg)
        self.ob(I, "rejected " + exp)


class NmCreate(CreateInsert):
    """create(data, place) on the view of `a`"""

    def make(self, I, r, tys, w, a):
        return [r, I.tok(tys[1], ("arg",)), I.mk_id(tys[2], FID, a), I.mk_adt(tys[3], ADOPT[w])]

    def on_check(self, I, st, what):
        missing(self, I, st, st.spec[2][2], "node_mut")


class NmDetach(Detach):
    def on_check(self, I, st, what):
        missing(self, I, st, st.spec[1][2], "node_mut")


class NmDetachSingle(DetachSingle):
    on_check = NmDetach.on_check


# ---------------------------------------------------------------- removal
def handed(P, x):
    return P.marks.get(x) == "V"


def done_item(P, it):
    """every node the item stands for was handed over; raises NeedSplit when unclear"""
    if it[0] == "n":
        if not handed(P, it[1]):
            raise Violation("effect", "n%d has not been handed over yet" % it[1])
        for c in P.ch[it[1]]:
            done_item(P, c)
    elif it[0] == "g":
        if it[2][0] != "D":
            raise NeedSplit(("gap", it[1], "L"))
    else:
        if any(a[0] not in "DE" for a in it[3:6]):
            raise NeedSplit(("via", it[1]))
        done_item(P, ("n", it[2]))


def first_in_postorder(P, y, n):
    """all nodes of n's subtree that come before y in postorder were handed over"""
    for it in P.ch[y]:
        done_item(P, it)
    x = y
    while x != n:
        u = P.up[x]
        if u == ROOT:
            raise Violation("effect", "n%d is outside the subtree" % y)
        if u == FLOAT:
            raise NeedSplit(("parent", x))
        p = u[1]
        i = P.index_of(p, x)
        for it in P.ch[p][:i]:
            done_item(P, it)
        it = P.ch[p][i]
        if it[0] == "v" and it[3][0] not in "DE":
            raise NeedSplit(("via", it[1]))
        x = p


class Remove(BaseSpec):
    """mode: hooked (callback), drop (no callback), safe (callback may panic)"""
    mode = "hooked"

    def init(self, I):
        self.hook_may_panic = self.mode == "safe"
        tys = self.argtys(I)
        for kn in KINDS:
            st, r = self.fresh_state(I, tys[0])
            s = st.forests[FID]
            s.track_empty = True
            n = new_node(s, kn[1])
            st.spec = ("rem", at(FID, n), "live" if kn[1] == "a" else "dead")
            st.note("%s(n%d [%s])" % (self.entry[2:], n, kn[0]))
            self.start(I, st, [r, I.mk_id(tys[1], FID, n)])

    def on_check(self, I, st, what):
        missing(self, I, st, st.spec[1][2], "node_mut")

    def on_tok_drop(self, I, st, v):
        if self.mode != "drop":
            raise Violation("effect", "%s: a datum is dropped instead of handed over" % self.entry[2:])
        self.deliver(I, st, v, "dropped")

    def on_hook(self, I, st, args, out):
        if self.mode == "drop":
            raise Unsupported("callback in remove")
        self.deliver(I, st, args[0], "handed over", out)

    def deliver(self, I, st, v, how, out="returns"):
        P = st.forests[FID]
        n = st.spec[1][2]
        what = self.entry[2:]
        if st.spec[2] == "dead":
            raise Violation("dead-accepted", "%s: data %s although the given node is not alive" % (what, how))
        if v[0] != "K" or v[2][0] != "data":
            raise Violation("effect", "%s: something other than a node's datum is %s" % (what, how))
        y = v[2][1][2]
        if P.kind[y] != "a" or handed(P, y):
            raise Violation("effect", "%s: the datum of n%d is %s twice" % (what, y, how))
        try:
            self.need(FID, first_in_postorder, P, y, n)
        except Violation as x:
            raise Violation("effect", "%s: the datum of n%d is %s out of order: %s" % (what, y, how, x.msg))
        self.ob(I, "datum " + how)
        if self.mode == "safe":
            P2 = P.copy()
            self.need(FID, P2.s_detach, n)
            P2.s_detach(y)
            try:
                if P.ch[y] == () and not any(handed(P, x) for x in P.kind):
                    P2.s_remove(y)
                    verify(I, st, FID, P2, what + ": when the callback runs", removed={y})
                    rebase(I, st, FID, P2, removed={y})
                    self.ob(I, "consistent at callback")
                    return
            except Violation:
                pass
        P.marks[y] = "V"

    def on_end(self, I, st, kind, val):
        n = st.spec[1][2]
        P = st.forests[FID]
        what = self.entry[2:]
        if st.spec[2] == "dead":
            if "e_nm" in self.entry:
                raise Violation("dead-accepted", "node_mut of a missing node yields a view")
            dead_unchanged(I, st, what + " of a node that is not alive")
            return self.ob(I, "rejected dead")
        if kind == "unwind":
            if val[0] != "<callback panic>":
                raise Violation("panic", "%s of a live node panics: %s" % (what, self.panic_text(st, val)))
            try:
                self.survivors(I, st, P, n, what + " after the callback panicked")
            except Violation as v:
                raise Violation("safe", v.msg)
            return self.ob(I, "consistent after panic")
        P2 = P.copy()
        if P.kind[n] == "d":
            unchanged(I, st, FID, what)
            return self.ob(I, "removed")
        self.need(FID, P2.s_detach, n)
        R = set(P2.fragment(n))
        P2.s_remove(n)
        for x in sorted(R):
            if not handed(P, x):
                raise Violation("effect", "%s returns but the datum of n%d was never handed over" % (what, x))
        verify(I, st, FID, P2, what, removed=R)
        self.ob(I, "removed")

    def survivors(self, I, st, P, n, what):
        P2 = P.copy()
        if P.kind[n] == "a":
            self.need(FID, P2.s_detach, n)
        R = {x for x in P.kind if handed(P, x)}
        for q in list(P2.ch):
            P2.ch[q] = tuple(it for it in P2.ch[q] if it[0] != "g" or it[2][0] != "D")
        todo = set(R)
        while todo:
            x = next((x for x in sorted(todo) if not P2.ch[x]), None)
            if x is None:
                raise Violation("effect", "%s: a removed node keeps live children" % what)
            P2.s_detach(x)
            P2.s_remove(x)
            todo.discard(x)
        verify(I, st, FID, P2, what, removed=R)
