"""Tree builders: a monitor follows the position of the builder in the abstract forest."""
from interp import Violation, Prune, Unsupported, at
from shape import NeedSplit, NONE, ROOT, FLOAT
from specs import BaseSpec, FID
from forest_check import verify, rebase, unchanged


class Builder(BaseSpec):
    def init(self, I):
        tys = self.argtys(I)
        st, r = self.fresh_state(I, tys[0])
        st.spec = ("build", (), "new")
        st.note(self.entry[2:])
        self.start(I, st, [r, I.tok(tys[1], ("new",))])

    def on_tok_drop(self, I, st, v):
        if v[2][0] == "data":
            raise Violation("effect", "the builder drops the datum of an existing node")

    def bad(self, msg):
        raise Violation("effect", "%s: %s" % (self.entry[2:], msg))

    def created(self, I, st, place, what):
        """exactly one node was created, in the given place; returns it"""
        P = st.forests[FID]
        new = [x for x, k in P.kind.items() if k == "n"]
        if len(new) != 1 or P.kN != 1 or P.kD != 1:
            self.bad("%s adds %d links and %d data instead of one node" % (what, P.kN, P.kD))
        x = new[0]
        P2 = P.copy()
        P2.s_new_root(x)
        if place:
            self.need(FID, P2.s_insert, x, place[0], place[1])
        verify(I, st, FID, P2, what, {x: I.tok(I.finfo[FID]["tok"], ("new",))})
        rebase(I, st, FID, P2)
        self.ob(I, what)
        return x

    def same_id(self, I, st, v, n, what):
        if I.id_node(v, st) != (FID, n):
            self.bad("%s reports a node other than n%d" % (what, n))

    def clean_panic(self, I, st, what):
        P = st.forests[FID]
        P2 = P.copy()
        for x, k in P.kind.items():
            if k == "n":
                P2.s_new_root(x)
        verify(I, st, FID, P2, what)
        self.ob(I, "panicked cleanly")


class Chain(Builder):
    """spec: ("build", (root, current), pending operation)"""

    def on_check(self, I, st, what):
        P = st.forests[FID]
        if what == "new":
            x = self.created(I, st, None, "new")
            st.spec = ("build", (at(FID, x), at(FID, x)), "")
        elif what != "done":
            st.spec = st.spec[:2] + (what,)
        else:
            _, (root, cur), op = st.spec
            if op == "child":
                cur = at(FID, self.created(I, st, ("LastChildOf", cur[2]), op))
            elif op == "sibling":
                if self.need(FID, P.need_parent, cur[2]) == ROOT:
                    self.bad("sibling of a root succeeds")
                cur = at(FID, self.created(I, st, ("NextSiblingOf", cur[2]), op))
            elif op == "parent":
                p = self.need(FID, P.need_parent, cur[2])
                if p == ROOT:
                    self.bad("parent of a root succeeds")
                unchanged(I, st, FID, op)
                self.ob(I, op)
                cur = at(FID, p)
            st.spec = ("build", (root, cur), "")

    def on_obs(self, I, st, what, v):
        P = st.forests[FID]
        _, (root, cur), op = st.spec
        if what == "try_parent":
            p = self.need(FID, P.need_parent, cur[2])
            if bool(v) != (p != ROOT):
                self.bad("try_parent %s although the current node %s a parent" % (
                    "moves" if v else "refuses", "has no" if v else "has"))
            unchanged(I, st, FID, what)
            if p != ROOT:
                st.spec = ("build", (root, at(FID, p)), "")
        elif what == "root":
            self.same_id(I, st, v, root[2], what)
        elif what == "current":
            self.same_id(I, st, v, cur[2], what)
        elif what == "forest":
            if v[0] != "R" or v[1] != ("O", ("forest", FID)):
                self.bad("the builder reports another forest")
        self.ob(I, what)

    def on_end(self, I, st, kind, val):
        P = st.forests[FID]
        _, pos, op = st.spec
        if kind == "ret":
            raise Unsupported("builder loop ended")
        over = st.ex
        if not over or op not in ("new", "child", "sibling"):
            if op not in ("sibling", "parent") or self.need(FID, P.need_parent, pos[1][2]) != ROOT:
                raise Violation("panic", "%s: %s panics: %s" % (self.entry[2:], op, self.panic_text(st, val)))
        self.clean_panic(I, st, op + " panicking")


class Nest(Builder):
    """spec: ("build", stack of roots, pending operation); roots from the outermost on"""

    def on_check(self, I, st, what):
        _, stack, op = st.spec
        if what == "new":
            stack, op = (at(FID, self.created(I, st, None, "new")),), ""
        elif what in ("add_child", "create_tree"):
            op = what
        elif what == "enter":
            x = self.created(I, st, ("LastChildOf", stack[-1][2]), "create_tree")
            stack, op = stack + (at(FID, x),), ""
        elif what == "exit":
            unchanged(I, st, FID, "end of create_tree's function")
            stack, op = stack[:-1], "left"
        elif what == "done" and op == "add_child":
            self.created(I, st, ("LastChildOf", stack[-1][2]), "add_child")
            op = ""
        elif what == "done" and op == "left":
            unchanged(I, st, FID, "create_tree after its function returned")
            op = ""
        elif what == "done":
            self.bad("create_tree returns without calling its function")
        st.spec = ("build", stack, op)

    def on_obs(self, I, st, what, v):
        if what == "root":
            self.same_id(I, st, v, st.spec[1][-1][2], "root")
            self.ob(I, what)

    def on_end(self, I, st, kind, val):
        if kind == "ret":
            raise Unsupported("builder loop ended")
        op = st.spec[2]
        if not st.ex or op not in ("new", "add_child", "create_tree"):
            raise Violation("panic", "%s: %s panics: %s" % (self.entry[2:], op, self.panic_text(st, val)))
        self.clean_panic(I, st, op + " panicking")
