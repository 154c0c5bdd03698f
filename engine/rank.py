"""Termination of the loops inside one public call.

Every arrival at a loop head from an earlier loop head of the same call is an edge between
canonical states, labelled with how each node-valued variable moved in document order (as opening
or closing event of its node), how further quantities the specification knows moved (positions in a
text, bounds of slices, counts of levels) and how many data were taken or added.  The call terminates when
every cycle of edges has a lexicographic measure: quantities that never move the wrong way round
a strongly connected part and strictly move on some of its edges, which are then left out.  The
forest is finite, and the described forest's document order of existing nodes is not changed
within a call, so such a quantity moves only finitely often."""
import itertools

def is_at(v):
    return isinstance(v, tuple) and len(v) == 3 and v[0] == "@"


ORDERS = (("pre", "pre"), ("pre", "post"), ("post", "pre"), ("post", "post"))


def leaves(slots):
    out = {}

    def walk(path, tags, v):
        if not isinstance(v, tuple) or not v:
            return
        if is_at(v):
            out[path] = (tags, (v[1], v[2]))
            return
        if v[0] == "A" and len(v) == 4:
            tags = tags + ((v[1], v[2]),)
            for i, e in enumerate(v[3]):
                walk(path + (i,), tags, e)
            return
        for i, e in enumerate(v):
            if isinstance(e, tuple):
                walk(path + (i,), tags, e)
    for slot, v in slots:
        walk((slot,), (), v)
    return out


def event_order(s, top):
    """position of the opening and closing event of every named node of a fragment"""
    pos, n = {}, [0]

    def go(x):
        pos[("pre", x)] = n[0]
        n[0] += 1
        for it in s.ch.get(x, ()):
            if it[0] == "n":
                go(it[1])
            elif it[0] == "v":
                go(it[2])
        pos[("post", x)] = n[0]
        n[0] += 1
    go(top)
    return pos


def moves(st, old, new, compare=None):
    """frozenset of (path, tags before, tags after, moves under ORDERS); `compare` for quantities of the specification's"""
    out = set()
    cache = {}
    for path, (t2, n2) in new.items():
        if path not in old:
            continue
        t1, n1 = old[path]
        if n1 is None or n1[0] != n2[0]:
            continue
        if n2[0] == "#":
            r = compare(st, n1[1], n2[1], cache)
            if r:
                out.add((path, t1, t2, r * 4))
            continue
        f, x, y = n1[0], n1[1], n2[1]
        if x == y:
            out.add((path, t1, t2, "=<>="))
            continue
        s = st.forests.get(f)
        if s is None or x not in s.up or y not in s.up:
            continue
        top = s.top(x)
        if s.top(y) != top:
            continue
        if (f, top) not in cache:
            cache[f, top] = event_order(s, top)
        pos = cache[f, top]
        r = ""
        for a, b in ORDERS:
            p, q = pos[(a, x)], pos[(b, y)]
            r += "<" if p < q else ">"
        out.add((path, t1, t2, r))
    return frozenset(out)


def sccs(nodes, edges):
    succ = {n: [] for n in nodes}
    for e in edges:
        succ[e[0]].append(e[1])
    index, low, stack, on, out, c = {}, {}, [], set(), [], [0]
    for r in nodes:
        if r in index:
            continue
        work = [(r, iter(succ[r]))]
        index[r] = low[r] = c[0]
        c[0] += 1
        stack.append(r)
        on.add(r)
        while work:
            u, it = work[-1]
            for v in it:
                if v not in index:
                    index[v] = low[v] = c[0]
                    c[0] += 1
                    stack.append(v)
                    on.add(v)
                    work.append((v, iter(succ[v])))
                    break
                if v in on:
                    low[u] = min(low[u], index[v])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == index[u]:
                    comp = set()
                    while True:
                        v = stack.pop()
                        on.discard(v)
                        comp.add(v)
                        if v == u:
                            break
                    out.append(comp)
    return out


def measures(edges):
    """[(description, edges on which it strictly moves)] of the quantities that never move the other way"""
    out = []
    if all(e[4] == 0 for e in edges):
        strict = [e for e in edges if e[3] > 0]
        if strict:
            out.append(("fewer data", strict))
    common = None
    for e in edges:
        ps = {m[0] for m in e[2]}
        common = ps if common is None else common & ps
    for path in sorted(common or (), key=repr):
        tags = sorted({t for e in edges for m in e[2] if m[0] == path for t in (m[1], m[2])}, key=repr)
        if len(tags) > 4:
            continue
        for assign in itertools.product(("pre", "post"), repeat=len(tags)):
            how = dict(zip(tags, assign))
            dirs = {}
            for e in edges:
                m = next(m for m in e[2] if m[0] == path)
                d = m[3][ORDERS.index((how[m[1]], how[m[2]]))]
                dirs.setdefault(d, []).append(e)
            for d in "<>":
                if d in dirs and not (set(dirs) - {d, "="}):
                    out.append(("%r %s" % (path, "forward" if d == "<" else "backward"), dirs[d]))
    return out


def unranked(edges):
    """cyclic parts without a measure, and the number of cyclic parts that were ranked"""
    bad, ranked = [], 0
    todo = [sorted(edges, key=repr)]
    while todo:
        es = todo.pop()
        nodes = {e[0] for e in es} | {e[1] for e in es}
        for comp in sccs(nodes, es):
            inner = [e for e in es if e[0] in comp and e[1] in comp]
            if not inner:
                continue
            drop = set()
            for _, strict in measures(inner):
                drop.update(strict)
            if not drop:
                bad.append(inner)
                continue
            ranked += 1
            todo.append([e for e in inner if e not in drop])
    return bad, ranked
