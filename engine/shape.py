"""The abstract forest: partial ordered trees with unknown parts.

A Shape stands for every concrete forest in which the *named* nodes have the
recorded structure and every unknown part (a `gap` in a child list, the hidden
nodes of a `via` path, the surroundings of a FLOAT node) is arbitrary.

 up[x]    ROOT | FLOAT | ('n', p) | ('v', p)
 ch[x]    tuple of items
            ('n', z)                 the child z
            ('g', gid, attr)         any number of children (possibly none)
            ('v', gid, z, L, R, S)   one hidden child below which, through one
                                     or more hidden nodes, lies z; the hidden
                                     nodes' other children are gaps with attr L
                                     (left of the path) / R (right of it) and
                                     the hidden nodes themselves have attr S
 attr     (deep, over): deep 'U' = subtrees untouched, 'D' = whole subtrees
          overwritten as removed nodes whose data were handed over, 'V' = whole subtrees already visited (the
          specification decides what a visit is), 'P' = hidden path nodes visited
          themselves, 'E' = no members at all (only beside a path), 'N' = whole subtrees made of nodes
          the analysed operation created, 'B' / 'C' = no node at depth M or more / more than M in them
          (M is the level a breadth-first traversal is at), 'W' = untouched and at least one member;
          over = link fields of the gap's own members that were overwritten
 kind[x]  'a' alive in the forest P this shape describes, 'd' removed earlier,
          'o' index out of range, 'n' pushed by the code under analysis
 w        actual link fields that were overwritten: (x, field) -> node | NONE
 dw       actual data slots that were overwritten: x -> value
Anything not in w/dw (and not in a gap's attr) holds the value that represents P.
"""

FIELDS = ("parent", "prev_sibling_cyclic", "next_sibling", "first_child")
ROOT, FLOAT = "ROOT", "FLOAT"
NONE = -1
CLEAN = ("U", ())
DEEPDEAD = ("D", ())
EMPTY = ("E", ())
VISITED = ("V", ())


class NeedSplit(Exception):
    """The current step needs the case distinction `what` on forest `fid`."""

    def __init__(self, what):
        self.what = what
        self.fid = None


class Impossible(Exception):
    pass


class Unsupported(Exception):
    pass


class Shape:
    __slots__ = ("up", "ch", "kind", "w", "dw", "kN", "kD", "newidx", "nxt", "fid", "marks", "track_empty", "rel", "widen", "seen")

    def __init__(self, fid=0):
        self.fid = fid
        self.up, self.ch, self.kind, self.w, self.dw = {}, {}, {}, {}, {}
        self.kN = self.kD = 0
        self.newidx = {}
        self.nxt = 1
        self.marks = {}
        self.rel = {}
        self.widen = None       # attr of the gaps inserted everywhere at loop heads (none if None)
        self.track_empty = False
        self.seen = None        # with track_empty "right": what lies left of the path to this node is of no interest

    def copy(self):
        s = Shape.__new__(Shape)
        s.up, s.ch, s.kind = dict(self.up), dict(self.ch), dict(self.kind)
        s.w, s.dw, s.kN, s.kD = dict(self.w), dict(self.dw), self.kN, self.kD
        s.newidx, s.nxt, s.fid = dict(self.newidx), self.nxt, self.fid
        s.marks = dict(self.marks)
        s.rel = dict(self.rel)
        s.widen = self.widen
        s.track_empty = self.track_empty
        s.seen = self.seen
        return s

    def uid(self):
        n = self.nxt
        self.nxt += 1
        return n

    # ---- construction
    def fresh(self, kind="a", up=FLOAT, deep=CLEAN):
        x = self.uid()
        self.kind[x] = kind
        if kind == "a":
            self.up[x] = up
            self.ch[x] = (("g", self.uid(), (deep[0] if deep[0] not in "PW" else "U", ())),)
        return x

    def gap(self, attr=CLEAN):
        return ("g", self.uid(), attr)

    def gaps(self, attr):
        return [] if attr[0] == "E" else [self.gap(attr)]

    def no_floats(self, mine, attrs):
        """case distinctions that would have to place a named node among visited ones"""
        if all(a == CLEAN for a in attrs) or attrs[2][0] == "N":
            return
        for y in self.tops():
            if y != mine and self.up[y] == FLOAT and any(a[0] in "VPE" for a in attrs):
                raise Unsupported("unplaced node beside a partly visited path")

    def fresh_in(self, attr):
        """a fresh node that was a member of a gap with this attr"""
        z = self.fresh("a", FLOAT, attr)
        self.apply_attr(z, attr)
        return z

    def apply_attr(self, z, attr):
        deep, over = attr
        for f, v in over:
            self.w[(z, f)] = v
        if deep in "VP":
            self.marks[z] = "V"
        if deep == "N":
            self.marks[z] = "N"
        if deep in "BC":
            lo, hi = self.rel.get(z, (-10 ** 6, 10 ** 6))
            self.rel[z] = (lo, min(hi, -1 if deep == "B" else 0))
        if deep == "D":
            for f in FIELDS:
                self.w[(z, f)] = NONE
            self.dw[z] = "TAKEN"
            self.marks[z] = "V"

    # ---- queries without splitting
    def top(self, x):
        while True:
            u = self.up[x]
            if u == ROOT or u == FLOAT:
                return x
            x = u[1]

    def fragment(self, t):
        out = [t]
        i = 0
        while i < len(out):
            for it in self.ch[out[i]]:
                if it[0] == "n":
                    out.append(it[1])
                elif it[0] == "v":
                    out.append(it[2])
            i += 1
        return out

    def tops(self):
        return [x for x in self.up if self.up[x] in (ROOT, FLOAT)]

    def is_anc_or_self(self, a, x):
        """True/False/None(unknown): is a an ancestor of x or x itself"""
        y = x
        while True:
            if y == a:
                return True
            u = self.up[y]
            if u == ROOT:
                return False
            if u == FLOAT:
                # a could only be above y if y's fragment can sit below a
                if self.top(a) == y:
                    return False
                return None if self.can_hold(self.top(a)) else False
            y = u[1]

    def can_hold(self, t):
        """may some unknown part of t's fragment contain further named nodes"""
        for q in self.fragment(t):
            for it in self.ch[q]:
                if it[0] == "g" and it[2][0] == "U":
                    return True
                if it[0] == "v" and it[5][0] != "N":
                    return True
        return False

    def find_gap(self, gid):
        for q, items in self.ch.items():
            for i, it in enumerate(items):
                if it[0] in ("g", "v") and it[1] == gid:
                    return q, i
        return None

    # ---- elementary edits
    def _set_items(self, p, items):
        self.ch[p] = tuple(items)
        for it in items:
            if it[0] == "n":
                self.up[it[1]] = ("n", p)
            elif it[0] == "v":
                self.up[it[2]] = ("v", p)

    def replace(self, p, i, new):
        items = list(self.ch[p])
        items[i:i + 1] = new
        self._set_items(p, items)

    def index_of(self, p, z):
        for i, it in enumerate(self.ch[p]):
            if (it[0] == "n" and it[1] == z) or (it[0] == "v" and it[2] == z):
                return i
        raise AssertionError("lost child")

    # ---- case distinctions: each returns [(label, shape)]
    def split(self, what):
        k = what[0]
        if k == "parent":
            return self.split_parent(what[1])
        if k == "gap":
            return self.split_gap(what[1], what[2])
        if k == "via":
            return self.split_via(what[1])
        if k == "lastpath":
            return self.split_lastpath(what[1])
        raise AssertionError(what)

    def placements(self, t, exclude=()):
        """places below fragment top t where a subtree may be attached: (q, index, kind)"""
        for q in self.fragment(t):
            if q in exclude:
                continue
            for i, it in enumerate(self.ch[q]):
                yield q, i, it

    def split_parent(self, x):
        u = self.up[x]
        out = []
        if u == FLOAT:
            s = self.copy()
            s.up[x] = ROOT
            out.append((f"n{x} is a root", s))
            mine = self.top(x)
            for t in self.tops():
                if t == mine:
                    continue
                for q, i, it in self.placements(t):
                    if it[0] == "g" and it[2][0] == "U":
                        s = self.copy()
                        s.replace(q, i, [it, ("n", x), s.gap(it[2])])
                        s.apply_attr(x, it[2])
                        out.append((f"n{x} is a child of n{q}", s))
                    elif it[0] == "v" and it[5][0] in "UP":
                        out.extend(self._join_via(q, i, it, x))
                    elif it[0] == "g" and it[2][0] == "V":
                        raise Unsupported("unplaced node beside visited ones")
            s = self.copy()
            p = s.fresh("a")
            s._set_items(p, [s.ch[p][0], ("n", x), s.gap()])
            out.append((f"n{x} has some parent n{p}", s))
            return out
        assert u[0] == "v"
        p = u[1]
        i = self.index_of(p, x)
        it = self.ch[p][i]
        _, gid, _, L, R, S = it
        for deeper in (False, True):
            s = self.copy()
            m = s.fresh("a")
            s.apply_attr(m, S)
            s._set_items(m, s.gaps(L) + [("n", x)] + s.gaps(R))
            s.replace(p, i, [("v", s.uid(), m, L, R, S)] if deeper else [("n", m)])
            out.append((f"n{x}'s parent n{m} is {'below' if deeper else 'a child of'} n{p}", s))
        self.no_floats(self.top(x), (L, R, S))
        if L == CLEAN and R == CLEAN and S == CLEAN:
            mine = self.top(x)
            for y in self.tops():
                if y == mine or self.up[y] != FLOAT:
                    continue
                for q, j, jt in self.placements(y):
                    if jt[0] == "g" and jt[2][0] == "U":
                        for deeper in (False, True):
                            s = self.copy()
                            s.replace(q, j, [jt, ("n", x), s.gap(jt[2])])
                            s.apply_attr(x, jt[2])
                            s.replace(p, i, [("v", s.uid(), y, L, R, S)] if deeper else [("n", y)])
                            out.append((f"n{x} is a child of n{q} (n{y} below n{p})", s))
        return out

    def _join_via(self, q, i, it, x):
        """x is a child of one of the hidden nodes of the via item it (at ch[q][i])"""
        out = []
        _, gid, z, L, R, S = it
        for up_deep in (False, True):
            for low_deep in (False, True):
                for left in (False, True):
                    if (L if left else R)[0] != "U":
                        if (L if left else R)[0] == "V":
                            raise Unsupported("unplaced node beside visited ones")
                        continue
                    s = self.copy()
                    m = s.fresh("a")
                    s.apply_attr(m, S)
                    path = ("v", s.uid(), z, L, R, S) if low_deep else ("n", z)
                    if left:
                        items = [s.gap(L), ("n", x), s.gap(L), path] + s.gaps(R)
                        s.apply_attr(x, L)
                    else:
                        items = s.gaps(L) + [path, s.gap(R), ("n", x), s.gap(R)]
                        s.apply_attr(x, R)
                    s._set_items(m, items)
                    s.replace(q, i, [("v", s.uid(), m, L, R, S)] if up_deep else [("n", m)])
                    out.append((f"n{x} is a child of hidden n{m} between n{q} and n{z}", s))
        return out

    def split_gap(self, gid, side):
        q, i = self.find_gap(gid)
        it = self.ch[q][i]
        assert it[0] == "g"
        attr = it[2]
        out = []
        if attr[0] == "W":
            attr = CLEAN
        else:
            s = self.copy()
            s.replace(q, i, [])
            out.append((f"no further child of n{q} there", s))
        s = self.copy()
        z = s.fresh_in(attr)
        g = ("g", gid, attr)
        s.replace(q, i, [("n", z), g] if side == "L" else [g, ("n", z)])
        out.append((f"another child n{z} of n{q}", s))
        if attr[0] == "U":
            mine = self.top(q)
            for y in self.tops():
                if y == mine or self.up[y] != FLOAT:
                    continue
                s = self.copy()
                s.replace(q, i, [("n", y), g] if side == "L" else [g, ("n", y)])
                s.apply_attr(y, attr)
                out.append((f"n{y} is a child of n{q}", s))
        return out

    def split_via(self, gid):
        q, i = self.find_gap(gid)
        it = self.ch[q][i]
        assert it[0] == "v"
        _, _, z, L, R, S = it
        out = []
        for deeper in (False, True):
            s = self.copy()
            c = s.fresh("a")
            s.apply_attr(c, S)
            s._set_items(c, s.gaps(L) + [("v", s.uid(), z, L, R, S) if deeper else ("n", z)] + s.gaps(R))
            s.replace(q, i, [("n", c)])
            out.append((f"child n{c} of n{q} is above n{z}", s))
        self.no_floats(self.top(q), (L, R, S))
        if L == CLEAN and R == CLEAN and S == CLEAN:
            mine = self.top(q)
            for y in self.tops():
                if y == mine or self.up[y] != FLOAT:
                    continue
                for r, j, jt in self.placements(y):
                    if jt[0] == "g" and jt[2] == CLEAN:
                        for deeper in (False, True):
                            s = self.copy()
                            s.replace(r, j, [jt, ("v", s.uid(), z, L, R, S) if deeper else ("n", z), s.gap()])
                            s.replace(q, i, [("n", y)])
                            out.append((f"child n{y} of n{q} is above n{z}", s))
        return out

    def split_lastpath(self, gid):
        """is the path below the topmost hidden node (its end included) one of last children only"""
        q, i = self.find_gap(gid)
        _, _, z, L, R, S = self.ch[q][i]
        s = self.copy()
        s.replace(q, i, [("v", s.uid(), z, L, EMPTY, S)])
        out = [(f"the nodes between n{q} and n{z} have no further children", s)]
        for up_deep in (False, True):
            for low_deep in (False, True):
                s = self.copy()
                m = s.fresh("a")
                y = s.fresh("a")
                s._set_items(m, s.gaps(L) + [("v", s.uid(), z, L, EMPTY, S) if low_deep else ("n", z), ("n", y), s.gap(CLEAN)])
                s.replace(q, i, [("v", s.uid(), m, L, R, S) if up_deep else ("n", m)])
                out.append((f"n{m} is the lowest node between n{q} and n{z} that has further children", s))
        return out

    def is_last(self, x):
        """is x the last child of its parent"""
        u = self.up[x]
        if isinstance(u, tuple):
            i = self.index_of(u[1], x)
            if u[0] == "v":
                R = self.ch[u[1]][i][4]
                if R[0] in "EW":
                    return R[0] == "E"
            else:
                c = self.ch[u[1]]
                if i + 1 < len(c) and (c[i + 1][0] != "g" or c[i + 1][2][0] == "W"):
                    return False
        return self.p_next(x) == NONE

    # ---- fields of P (what the links must be for the described forest)
    def _need(self, *what):
        raise NeedSplit(what)

    def need_parent(self, x):
        """make x's parent known: returns ROOT or the parent node"""
        u = self.up[x]
        if u == FLOAT or u[0] == "v":
            self._need("parent", x)
        return ROOT if u == ROOT else u[1]

    def item_node(self, it, side):
        if it[0] == "n":
            return it[1]
        if it[0] == "g":
            self._need("gap", it[1], side)
        self._need("via", it[1])

    def p_first(self, p):
        c = self.ch[p]
        return self.item_node(c[0], "L") if c else NONE

    def p_last(self, p):
        c = self.ch[p]
        return self.item_node(c[-1], "R") if c else NONE

    def p_next(self, x):
        p = self.need_parent(x)
        if p == ROOT:
            return NONE
        i = self.index_of(p, x)
        c = self.ch[p]
        return self.item_node(c[i + 1], "L") if i + 1 < len(c) else NONE

    def p_prev(self, x):
        p = self.need_parent(x)
        if p == ROOT:
            return NONE
        i = self.index_of(p, x)
        return self.item_node(self.ch[p][i - 1], "R") if i > 0 else NONE

    def p_parent(self, x):
        p = self.need_parent(x)
        return NONE if p == ROOT else p

    def p_cyc(self, x):
        p = self.need_parent(x)
        if p == ROOT:
            return x
        i = self.index_of(p, x)
        if i > 0:
            return self.item_node(self.ch[p][i - 1], "R")
        return self.p_last(p)

    def p_field(self, x, f):
        k = self.kind[x]
        if k == "d":
            return NONE
        if k != "a":
            raise AssertionError("p_field of %s node" % k)
        if f == "parent":
            return self.p_parent(x)
        if f == "next_sibling":
            return self.p_next(x)
        if f == "prev_sibling_cyclic":
            return self.p_cyc(x)
        if f == "first_child":
            return self.p_first(x)
        raise Unsupported("field " + f)

    # ---- actual fields
    def read(self, x, f):
        v = self.w.get((x, f))
        if v is not None:
            return v
        return self.p_field(x, f)

    def read_some(self, x, f):
        """is the actual field Some(_)?  avoids needless case distinctions"""
        v = self.w.get((x, f))
        if v is not None:
            return v != NONE
        if self.kind[x] == "a" and f == "prev_sibling_cyclic":
            return True
        if self.kind[x] == "a" and f == "parent" and self.up[x] not in (ROOT, FLOAT):
            return True
        return self.p_field(x, f) != NONE

    # ---- tree edits (specifications); they work on a copy and may raise NeedSplit
    def s_detach(self, x):
        p = self.need_parent(x)
        if p == ROOT:
            return
        self.replace(p, self.index_of(p, x), [])
        self.up[x] = ROOT

    def s_insert(self, x, where, a):
        self.s_detach(x)
        if where == "FirstChildOf":
            self._set_items(a, [("n", x)] + list(self.ch[a]))
        elif where == "LastChildOf":
            self._set_items(a, list(self.ch[a]) + [("n", x)])
        else:
            p = self.need_parent(a)
            assert p != ROOT
            i = self.index_of(p, a)
            items = list(self.ch[p])
            items.insert(i if where == "PreviousSiblingOf" else i + 1, ("n", x))
            self._set_items(p, items)

    def s_new_root(self, x):
        self.kind[x] = "a"
        self.up[x] = ROOT
        self.ch[x] = ()

    def subtree(self, x):
        return self.fragment(x)

    def s_remove(self, x):
        """x's subtree (x must be a root of P) leaves the forest"""
        assert self.up[x] == ROOT
        for y in self.subtree(x):
            self.kind[y] = "d"
            del self.up[y]
            del self.ch[y]
            self.marks.pop(y, None)

    # ---- description for reports
    def show(self, x, ind=0):
        r = []
        pad = "  " * ind
        u = self.up.get(x)
        tag = {ROOT: " (root)", FLOAT: " (anywhere)"}.get(u, "") if not isinstance(u, tuple) else ""
        r.append(f"{pad}n{x}{tag}")
        for it in self.ch[x]:
            if it[0] == "n":
                r += self.show(it[1], ind + 1)
            elif it[0] == "g":
                r.append(f"{pad}  ...{'' if it[2] == CLEAN else str(it[2])}")
            else:
                a = "" if it[3:] == (CLEAN, CLEAN, CLEAN) else " %s %s %s" % it[3:]
                r.append(f"{pad}  <path{a}>")
                r += self.show(it[2], ind + 2)
        return r

    def describe(self):
        r = []
        for t in self.tops():
            r += self.show(t)
        for x, k in self.kind.items():
            if k != "a":
                r.append(f"n{x} [{ {'d': 'removed', 'o': 'out of range', 'n': 'newly pushed'}[k] }]")
        if self.w:
            r.append("overwritten: " + ", ".join(
                f"n{x}.{f}={'None' if v == NONE else 'n%d' % v}" for (x, f), v in sorted(self.w.items())))
        return r
