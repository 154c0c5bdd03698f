"""Obligation at the end of an operation: the links and data actually stored must be
exactly those that represent the forest the operation's specification prescribes."""
from shape import (Shape, NeedSplit, FIELDS, NONE, ROOT, FLOAT, CLEAN, DEEPDEAD)
from interp import Violation, at
import fold

DEAD = ("D", ())


def ikey(it):
    return None if it is None else (it[0], it[1])


def context(s, x, f):
    """what determines field f of node x in the forest s describes (no case distinction)"""
    u = s.up[x]
    if f == "parent":
        return u if u in (ROOT, FLOAT) else (u[0], u[1])
    if f == "first_child":
        c = s.ch[x]
        return ikey(c[0]) if c else None
    if u in (ROOT, FLOAT):
        return u
    if u[0] == "v":
        p = u[1]
        return ("inside", s.ch[p][s.index_of(p, x)][1])
    p = u[1]
    c = s.ch[p]
    i = s.index_of(p, x)
    if f == "next_sibling":
        return ikey(c[i + 1]) if i + 1 < len(c) else None
    if i > 0:
        return ("prev", ikey(c[i - 1]))
    return ("last", ikey(c[-1]))


def item_context(s, q, i):
    c = s.ch[q]
    left = ("prev", ikey(c[i - 1])) if i > 0 else ("first, last is", ikey(c[-1]))
    right = ikey(c[i + 1]) if i + 1 < len(c) else None
    return left, right


def nm(x):
    return "None" if x == NONE else "n%d" % x


def verify(I, st, f, P2, what, new_data=None, removed=()):
    """raises Violation or NeedSplit; returns normally when every obligation holds"""
    P = st.forests[f]
    try:
        _verify(I, st, f, P, P2, what, new_data or {}, set(removed))
    except NeedSplit as e:
        e.fid = f
        raise
    except Violation as v:
        if v.rule != "effect":
            raise
        also = v.also + (("dead-accepted",) if half_dead(P) else ())
        bad = None
        try:
            bad = inconsistent(P)
        except NeedSplit as e:
            if st.steps < 5:
                st.steps += 1
                e.fid = f
                raise
        if bad:
            raise Violation("links", v.msg + "; links are inconsistent: " + bad, also)
        v.also = also
        raise


def half_dead(P):
    """is some node removed as far as its datum goes but not its links, or the other way round"""
    for x in set(P.dw) | {x for (x, _) in P.w}:
        if P.kind[x] != "a":
            continue
        try:
            if (P.dw.get(x) == "TAKEN") == P.read_some(x, "prev_sibling_cyclic"):
                return True
        except NeedSplit:
            pass
    return False


def inconsistent(P):
    """a local invariant of the stored links that fails, or None"""
    touched = {x for (x, _) in P.w} | set(P.dw)
    for (x, _), v in P.w.items():
        if v != NONE:
            touched.add(v)
    unknown = None
    for x in sorted(touched):
        try:
            r = inconsistent_at(P, [x])
        except NeedSplit as e:
            unknown = unknown or e
            continue
        if r:
            return r
    if unknown:
        raise unknown
    return inconsistent_at(P, [])


def inconsistent_at(P, todo):
    touched = {x for (x, _) in P.w} | set(P.dw)
    for (x, _), v in P.w.items():
        if v != NONE:
            touched.add(v)

    def alive(x):
        return P.kind[x] in ("a", "n") and P.read_some(x, "prev_sibling_cyclic")

    for x in todo:
        if P.kind[x] in ("o",):
            continue
        if P.kind[x] == "n" and any((x, f) not in P.w for f in FIELDS):
            return "n%d has data but no links" % x
        if not alive(x):
            for f in FIELDS:
                if P.read(x, f) != NONE:
                    return "removed n%d keeps %s" % (x, f)
            continue
        p, nx, cy, fc = (P.read(x, f) for f in ("parent", "next_sibling", "prev_sibling_cyclic", "first_child"))
        for f, y in (("parent", p), ("next_sibling", nx), ("prev_sibling_cyclic", cy), ("first_child", fc)):
            if y != NONE and (P.kind[y] not in ("a", "n") or not alive(y)):
                return "n%d.%s is the dead n%d" % (x, f, y)
        if nx != NONE:
            if nx == x or P.read(nx, "prev_sibling_cyclic") != x:
                return "n%d.next_sibling = n%d but n%d.prev_sibling_cyclic = %s" % (
                    x, nx, nx, nm(P.read(nx, "prev_sibling_cyclic")))
            if P.read(nx, "parent") != p:
                return "adjacent siblings n%d, n%d have different parents" % (x, nx)
        if p == NONE:
            if nx != NONE or cy != x:
                return "root n%d has a sibling" % x
        else:
            if P.read(p, "first_child") == x:
                if P.read(cy, "next_sibling") != NONE:
                    return "first child n%d's cyclic link is not the last child" % x
            elif cy == x or P.read(cy, "next_sibling") != x:
                return "n%d.prev_sibling_cyclic = n%d but its next_sibling is not n%d" % (x, cy, x)
            if P.read(cy, "parent") != p:
                return "siblings n%d, n%d have different parents" % (x, cy)
        if fc != NONE:
            if P.read(fc, "parent") != x:
                return "n%d.first_child = n%d whose parent is %s" % (x, fc, nm(P.read(fc, "parent")))
    if P.kN != P.kD:
        return "link and data arenas have different lengths"
    for x, v in P.dw.items():
        if v == "TAKEN" and alive(x):
            return "live n%d has no data" % x
        if v != "TAKEN" and not alive(x):
            return "removed n%d keeps data" % x
    return None


def _verify(I, st, f, P, P2, what, new_data, removed):
    if P.kN != P.kD:
        raise Violation("effect", "%s: link arena grew by %d, data arena by %d" % (what, P.kN, P.kD))
    # nodes the analysed code pushed
    for x, k in P.kind.items():
        if k == "n" and P2.kind.get(x) != "a":
            raise Violation("effect", "%s: unexpected new node n%d" % (what, x))
        if k in ("d", "o"):
            if any((x, fl) in P.w for fl in FIELDS) or x in P.dw:
                raise Violation("effect", "%s: dead or foreign n%d written" % (what, x))
    # named nodes
    for x in list(P2.kind):
        if P2.kind[x] != "a":
            continue
        if P.kind.get(x) == "n":
            for fl in FIELDS:
                want = P2.p_field(x, fl)
                got = P.w.get((x, fl))
                if got is None:
                    raise Violation("effect", "%s: new node n%d has no links" % (what, x))
                if got != want:
                    raise Violation("effect", "%s: new n%d.%s is %s, must be %s" % (what, x, fl, nm(got), nm(want)))
            if x not in P.dw or P.dw[x] == "TAKEN":
                raise Violation("effect", "%s: new node n%d has no data" % (what, x))
            if x in new_data and P.dw[x][3][0] != new_data[x]:
                raise Violation("effect", "%s: new node n%d holds the wrong datum" % (what, x))
            continue
        for fl in FIELDS:
            if (x, fl) not in P.w and context(P, x, fl) == context(P2, x, fl):
                continue
            want = P2.p_field(x, fl)
            got = P.read(x, fl)
            if got != want:
                raise Violation("effect", "%s: n%d.%s is %s, must be %s" % (what, x, fl, nm(got), nm(want)))
        if x in P.dw:
            v = P.dw[x]
            if v == "TAKEN" or v[3][0] != I.tok(I.finfo[f]["tok"], ("data", at(f, x))):
                raise Violation("effect", "%s: the datum of n%d changed" % (what, x))
    # anonymous nodes
    for q in list(P2.ch):
        if P2.kind[q] != "a":
            continue
        items = P2.ch[q]
        for i, it in enumerate(items):
            if it[0] == "n":
                continue
            gid = it[1]
            loc = P.find_gap(gid)
            if loc is None:
                raise AssertionError("gap lost")
            q0, i0 = loc
            same = item_context(P, q0, i0) == item_context(P2, q, i)
            if it[0] == "g":
                deep, over = it[2]
                od = dict(over)
                ok = deep in "UVN" and set(od) <= {"parent"}
                if ok and "parent" in od:
                    ok = od["parent"] == q
                elif ok:
                    ok = q == q0
                if not ok:
                    raise NeedSplit(("gap", gid, "L"))
                if not same:
                    l0, r0 = item_context(P, q0, i0)
                    l1, r1 = item_context(P2, q, i)
                    raise NeedSplit(("gap", gid, "L" if l0 != l1 else "R"))
            else:
                if q != q0 or not same or not all(fold.untouched(a) for a in it[3:6]):
                    raise NeedSplit(("via", gid))
    # removed nodes
    for x in removed:
        for fl in FIELDS:
            if P.w.get((x, fl)) != NONE:
                if P.read(x, fl) != NONE:
                    raise Violation("effect", "%s: removed n%d keeps %s = %s" % (what, x, fl, nm(P.read(x, fl))))
        if P.dw.get(x) != "TAKEN":
            raise Violation("effect", "%s: removed n%d keeps its datum" % (what, x))
        for it in P.ch.get(x, ()):
            if it[0] == "g" and it[2] != DEAD:
                raise NeedSplit(("gap", it[1], "L"))
            if it[0] == "v" and not (it[3] == DEAD and it[4] == DEAD and it[5] == DEAD):
                raise NeedSplit(("via", it[1]))


def rebase(I, st, f, P2, removed=()):
    """P2 is what the stored links now represent: make it the described forest"""
    P = st.forests[f]
    kN = P.kN

    def ren(v):
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == "@":
                return v
            if len(v) == 3 and v[0] == "len" and v[1] == f:
                v = I.norm(st, v)
                if v[0] == "len":
                    return ("len", f, v[2] - kN)
                return v
            return tuple(ren(e) if isinstance(e, tuple) else e for e in v)
        return v

    for fr in st.frames:
        for l in fr.locals:
            fr.locals[l] = ren(fr.locals[l])
    for k in st.heap:
        st.heap[k] = ren(st.heap[k])
    st.spec = ren(st.spec)
    P2.w, P2.dw, P2.kN, P2.kD, P2.newidx = {}, {}, 0, 0, {}
    for q in P2.ch:
        its = []
        for it in P2.ch[q]:
            if it[0] == "g":
                its.append(("g", it[1], (it[2][0], ())))
            elif it[0] == "v":
                its.append(("v", it[1], it[2]) + tuple((a[0], ()) for a in it[3:6]))
            else:
                its.append(it)
        P2.ch[q] = tuple(its)
    for x in removed:
        P2.kind[x] = "d"
    P2.fid = f
    P2.nxt = max(P2.nxt, P.nxt)
    st.forests[f] = P2


def unchanged(I, st, f, what):
    verify(I, st, f, st.forests[f].copy(), what)
