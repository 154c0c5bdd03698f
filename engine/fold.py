"""Canonical abstraction at loop heads: forget the names of nodes that no live
variable, specification state or pending overwrite mentions, and rename the rest."""
from shape import CLEAN, EMPTY, FLOAT, NONE, ROOT, VISITED, FIELDS, NeedSplit


def nodes_in(v, out):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "@":
            out.append((v[1], v[2]))
        else:
            for e in v:
                if isinstance(e, tuple):
                    nodes_in(e, out)


def rewrite(v, m):
    """m maps ('@',fid,n) -> replacement value"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "@":
            return m.get(v, v)
        for e in v:
            if isinstance(e, tuple):
                break
        else:
            return v
        return tuple(rewrite(e, m) if isinstance(e, tuple) else e for e in v)
    return v


def normal_overlay(s):
    """drop overwrites that equal the represented value"""
    for (x, f), v in list(s.w.items()):
        if s.kind[x] == "n":
            continue
        try:
            if s.p_field(x, f) == v:
                del s.w[(x, f)]
        except NeedSplit:
            pass


def own_over(s, x):
    return tuple(sorted((f, s.w[(x, f)]) for f in FIELDS if (x, f) in s.w))


def is_dead_now(s, x):
    if s.dw.get(x) != "TAKEN":
        return False
    try:
        return all(s.read(x, f) == NONE for f in FIELDS)
    except NeedSplit:
        return False


def gap_attr_of(s, x):
    """attr a gap must have so that x can be one of its members, or None.
    x's children must be gaps only."""
    deeps = set()
    for it in s.ch[x]:
        if it[0] != "g":
            return None
        deeps.add(it[2])
    if is_dead_now(s, x):
        if s.marks.get(x) == "V" and all(a == ("D", ()) for a in deeps):
            return ("D", ())
        return None
    if x in s.dw:
        return None
    over = own_over(s, x)
    if any(f != "parent" for f, _ in over):
        return None
    if s.marks.get(x) == "V" and all(a == ("V", ()) for a in deeps):
        return ("V", over)
    if s.marks.get(x) == "N" and all(a == ("N", ()) for a in deeps):
        return ("N", over)
    if any(a[0] not in "UVNBCW" or a[1] for a in deeps):
        return None
    if not over and all(a[0] in "BC" for a in deeps):
        hi = s.rel.get(x, (0, 10))[1]
        if hi <= -1 and all(a[0] == "B" for a in deeps):
            return ("B", ())
        if hi <= 0:
            return ("C", ())
    return ("U", over)


def untouched(a):
    return a[0] in "UVPENBCW" and not a[1]


SOME = ("W", ())
ALTERNATING = [{CLEAN, VISITED}]


def merge_gaps(s, p):
    items = s.ch[p]
    out = []
    for it in items:
        if out and it[0] == "g" and out[-1][0] == "g" and out[-1][2] == it[2]:
            continue
        if out and it[0] == "g" and out[-1][0] == "g" and (it[2][0] in "BC" or out[-1][2][0] in "BC"):
            a = join({it[2], out[-1][2]})
            if a is not None:
                out[-1] = s.gap(a)
                continue
        if out and it[0] == "g" and out[-1][0] == "g" and {it[2], out[-1][2]} == {CLEAN, SOME}:
            out[-1] = s.gap(SOME)
            continue
        if (len(out) > 1 and it[0] == "g" and out[-1][0] == "g" and out[-2][0] == "g"
                and {it[2], out[-1][2], out[-2][2]} in ALTERNATING):
            # visited and unvisited members alternate: forget which are visited
            out[-2:] = [s.gap(CLEAN)]
            continue
        out.append(it)
    if len(out) != len(items):
        s.ch[p] = tuple(out)


def via_attrs(s, x, i):
    """x's child list is gaps* item_i gaps*: return (L,R,S) or None"""
    items = s.ch[x]
    L = {it[2] for it in items[:i]}
    R = {it[2] for it in items[i + 1:]}
    if any(it[0] != "g" for it in items[:i]) or any(it[0] != "g" for it in items[i + 1:]):
        return None
    if x in s.dw or join(L) is None or join(R) is None:
        return None
    if any(f != "parent" for f, _ in own_over(s, x)):
        return None
    return (join(L), join(R), ({"V": "P", "N": "N"}.get(s.marks.get(x), "U"), own_over(s, x)))


def jn(a, b):
    return None if a is None or b is None else join({a, b})


def join(a):
    """one attr for all gaps of a set, EMPTY when there are none; None: no common one"""
    a = {x for x in a if x[0] != "E"}
    if not a:
        return EMPTY
    if len(a) == 1:
        return a.pop()
    if all(x[0] in "BC" and not x[1] for x in a):
        return ("C", ())
    if all(x[0] in "UVNBCW" and not x[1] for x in a):
        return CLEAN
    return None


def over_of(it):
    return it[5] if it[0] == "v" else CLEAN


def forget_left(s):
    """what lies left of the path to s.seen is of no interest, nor is how many there are"""
    path, x = [], s.seen
    while x is not None and isinstance(s.up.get(x), tuple):
        x = s.up[x][1]
        path.append(x)
    for p in path:
        items = s.ch[p]
        out = []
        for it in items:
            named = bool(out) and out[-1][0] != "g"
            if it[0] != "g" and not out:
                out.append(s.gap(CLEAN))
            if it[0] == "g" and it[2] == SOME and not named:
                it = s.gap(CLEAN)
            if it[0] == "g" and out and out[-1][0] == "g" and it[2][0] in "UW" and out[-1][2][0] in "UW":
                continue
            out.append(it)
        if tuple(out) != items:
            s.ch[p] = tuple(out)


def widen_gaps(s):
    """forget where child lists are known to be complete"""
    for p, items in list(s.ch.items()):
        out = []
        for it in items:
            if it[0] != "g" and not (out and out[-1][0] == "g"):
                out.append(s.gap(s.widen))
            out.append(it)
        if not (out and out[-1][0] == "g"):
            out.append(s.gap(s.widen))
        if len(out) != len(items):
            s.ch[p] = tuple(out)


def fold_shape(s, named):
    normal_overlay(s)
    if s.widen is not None:
        widen_gaps(s)
    # forget fragments without named nodes and without overwrites
    while True:
        changed = False
        for t in s.tops():
            fr = s.fragment(t)
            if any(x in named for x in fr):
                continue
            clean = all((x, f) not in s.w for x in fr for f in FIELDS) and all(x not in s.dw for x in fr)
            clean = clean and all(
                (it[0] == "n") or (it[0] == "g" and untouched(it[2])) or
                (it[0] == "v" and untouched(it[3]) and untouched(it[4]) and untouched(it[5]))
                for x in fr for it in s.ch[x])
            if clean:
                for x in fr:
                    forget(s, x)
                changed = True
        # fold leaves into gaps
        for x in list(s.up):
            u = s.up.get(x)
            if x in named or not isinstance(u, tuple):
                continue
            p = u[1]
            i = s.index_of(p, x)
            above = s.ch[p][i]
            a = gap_attr_of(s, x)
            if a is not None and u[0] == "v":
                # the whole path down to x becomes members of a gap
                S = above[5]
                S = VISITED if S == ("P", ()) else S
                if a[0] in "BC" and S == CLEAN:
                    S = EMPTY           # the hidden nodes lie above x
                a = join({a, above[3], above[4], S})
            if a is not None:
                if s.track_empty == "right":
                    a = SOME if a == CLEAN else a
                s.replace(p, i, [s.gap(a)])
                forget(s, x)
                merge_gaps(s, p)
                changed = True
                continue
            paths = [i for i, it in enumerate(s.ch[x]) if it[0] != "g"]
            if len(paths) == 1:
                merge_gaps(s, x)
                paths = [i for i, it in enumerate(s.ch[x]) if it[0] != "g"]
                va = via_attrs(s, x, paths[0])
                if va is None:
                    continue
                L, R, S = va
                if s.track_empty == "right":
                    L = CLEAN
                    it = s.ch[x][paths[0]]
                    if len({R} | {v[4] for v in (it, above) if v[0] == "v"}) > 1:
                        R = CLEAN
                    if (S, over_of(it), over_of(above)) != (CLEAN, CLEAN, CLEAN):
                        continue
                    s.replace(p, i, [("v", s.uid(), it[2] if it[0] == "v" else it[1], L, R, S)])
                    forget(s, x)
                    changed = True
                    continue
                if not s.track_empty:
                    L, R = (CLEAN if L == EMPTY else L), (CLEAN if R == EMPTY else R)
                it = s.ch[x][paths[0]]
                z = it[2] if it[0] == "v" else it[1]
                for v in (it, above):
                    if v[0] == "v" and S is not None:
                        L, R = jn(L, v[3]), jn(R, v[4])
                        S = v[5] if S == v[5] else None
                if L is None or R is None or S is None:
                    continue
                s.replace(p, i, [("v", s.uid(), z, L, R, S)])
                forget(s, x)
                changed = True
        for p in list(s.ch):
            n = len(s.ch[p])
            merge_gaps(s, p)
        if not changed:
            break
    if s.track_empty == "right":
        forget_left(s)
    for x in [x for x, k in s.kind.items() if k in ("d", "o") and x not in named]:
        if all((x, f) not in s.w for f in FIELDS) and x not in s.dw:
            forget(s, x)


def forget(s, x):
    s.kind.pop(x, None)
    s.up.pop(x, None)
    s.ch.pop(x, None)
    s.dw.pop(x, None)
    s.marks.pop(x, None)
    s.rel.pop(x, None)
    for f in FIELDS:
        s.w.pop((x, f), None)


def rename_shape(s, order):
    """canonical renaming; `order` lists named nodes in discovery order.
    Returns (new shape, mapping old->new, key)"""
    m = {}

    def name(x):
        if x not in m:
            m[x] = len(m) + 1

    # named first, then everything reachable structurally
    for x in order:
        name(x)
    i = 0
    done = set()
    while True:
        progress = False
        for x in list(m):
            if x in done:
                continue
            done.add(x)
            progress = True
            u = s.up.get(x)
            if isinstance(u, tuple):
                name(u[1])
            for it in s.ch.get(x, ()):
                if it[0] == "n":
                    name(it[1])
                elif it[0] == "v":
                    name(it[2])
            for f in FIELDS:
                v = s.w.get((x, f))
                if v is not None and v != NONE:
                    name(v)
        if not progress:
            rest = [x for x in s.kind if x not in m]
            if not rest:
                break
            name(min(rest))
    t = s.copy()
    t.up, t.ch, t.kind, t.w, t.dw = {}, {}, {}, {}, {}
    g = len(m) + 1

    def ren_attr(a):
        if not a[1]:
            return a
        return (a[0], tuple((f, m.get(v, v) if v != NONE else v) for f, v in a[1]))

    inv = sorted(m.items(), key=lambda kv: kv[1])
    for x, nx in inv:
        t.kind[nx] = s.kind[x]
        if x in s.up:
            u = s.up[x]
            t.up[nx] = (u[0], m[u[1]]) if isinstance(u, tuple) else u
            its = []
            for it in s.ch[x]:
                if it[0] == "n":
                    its.append(("n", m[it[1]]))
                elif it[0] == "g":
                    its.append(("g", g, ren_attr(it[2])))
                    g += 1
                else:
                    its.append(("v", g, m[it[2]], ren_attr(it[3]), ren_attr(it[4]), ren_attr(it[5])))
                    g += 1
            t.ch[nx] = tuple(its)
        for f in FIELDS:
            v = s.w.get((x, f))
            if v is not None:
                t.w[(nx, f)] = v if v == NONE else m[v]
    t.nxt = g
    t.newidx = {k: m[x] for k, x in s.newidx.items() if x in m}
    t.rel = {m[x]: v for x, v in s.rel.items() if x in order}
    t.marks = {m[x]: v for x, v in s.marks.items() if x in m}
    return t, m
