"""Abstract interpreter over the dumped MIR.

Memory is one abstract forest per `Forest` value (shape.Shape), plus frames and
small heap objects.  Case distinctions demanded by the forest domain fork the
abstract state; at every loop head the state is folded to a canonical form and
dropped when that form was seen before, so the exploration is a fixpoint over
finitely many abstract states and covers forests of every size."""
import re
import sys
from shape import (Shape, NeedSplit, Unsupported, FIELDS, NONE, ROOT, FLOAT)
import fold
import rank

sys.setrecursionlimit(10000)


class Choose(Exception):
    def __init__(self, key, options):
        self.key, self.options = key, options


class Violation(Exception):
    def __init__(self, rule, msg, also=()):
        self.rule, self.msg = rule, msg
        self.also = tuple(also)        # further rules this is a violation of


class Prune(Exception):
    """the current abstract state describes no concrete execution"""


class Frame:
    __slots__ = ("body", "blk", "idx", "locals", "dest", "target", "unwind", "span", "sig")

    def __init__(self, body, args, dest, target, unwind, span):
        self.body, self.blk, self.idx = body, 0, 0
        self.locals = args
        self.dest, self.target, self.unwind, self.span = dest, target, unwind, span
        self.sig = None          # how it was called, once it calls itself

    def copy(self):
        f = Frame.__new__(Frame)
        f.body, f.blk, f.idx, f.locals = self.body, self.blk, self.idx, dict(self.locals)
        f.dest, f.target, f.unwind, f.span = self.dest, self.target, self.unwind, self.span
        f.sig = self.sig
        return f


class State:
    __slots__ = ("frames", "forests", "heap", "spec", "trace", "picks", "panic", "steps", "meta",
                 "ex", "hd", "since", "cnt", "ops", "rounds", "mono", "rep")

    def __init__(self):
        self.frames, self.forests, self.heap = [], {}, {}
        self.spec, self.trace, self.picks, self.panic = (), None, {}, None
        self.steps = 0
        self.meta = None
        self.ex = False          # the id space was found to be exhausted
        self.hd = False          # the loop head at hand has been dealt with
        self.since = ()          # the loop heads passed in the current public call
        self.cnt = (0, 0)        # data taken, data added
        self.mono = (0, 0)       # what the specification counts without telling states apart by it
        self.ops = 0             # elements put into or taken out of containers
        self.rep = 0             # how often a state like this one, but for its integers, was seen (in a search)
        self.rounds = 0          # loop rounds of the current public call (when they are counted)

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.forests = {k: v.copy() for k, v in self.forests.items()}
        s.heap = dict(self.heap)
        s.spec, s.trace, s.picks, s.panic = self.spec, self.trace, dict(self.picks), self.panic
        s.steps, s.meta, s.ex, s.hd, s.since = self.steps, self.meta, self.ex, self.hd, self.since
        s.cnt, s.ops, s.rounds, s.mono, s.rep = self.cnt, self.ops, self.rounds, self.mono, self.rep
        return s

    def note(self, text):
        self.trace = (self.trace, text)

    def trace_list(self):
        out = []
        t = self.trace
        while t:
            out.append(t[1])
            t = t[0]
        return out[::-1]


def at(f, n):
    return ("@", f, n)


def is_at(v):
    return isinstance(v, tuple) and len(v) == 3 and v[0] == "@"


UNIT = ("T", ())


# an element goes into or out of a container
MOVES = re.compile(r"^std::(vec::Vec|collections::VecDeque)::<T, A>::(push|pop|push_back|push_front|pop_back|pop_front)$")
# memory is allocated
ALLOCATES = re.compile(
    r"^(std|alloc)::alloc::(alloc\w*|realloc|exchange_malloc|__rust_\w*alloc\w*)$|exchange_malloc|box_new|raw_vec::|RawVec"
    r"|^std::vec::Vec::<T(, A)?>::(push|insert|append|extend\w*|reserve\w*|resize\w*|with_capacity\w*|into_boxed_slice)$"
    r"|^std::collections::VecDeque::<T(, A)?>::(push_\w+|insert|append|reserve\w*|resize\w*|with_capacity\w*|make_contiguous)$"
    r"|^std::(boxed::Box|rc::Rc|sync::Arc)::<T>::(new|pin)$|^std::string::String::(push|push_str|from\w*|with_capacity)$"
    r"|^std::collections::(BTreeMap|BTreeSet|BinaryHeap|LinkedList|btree_\w+::\w+|linked_list::\w+)::<.*>::(insert|push\w*|append|extend)$"
    r"|^<std::(vec::Vec|collections::\w+)<.*> as std::iter::(FromIterator|Extend)<.*>>::"
    r"|::(to_vec|to_owned|into_vec|repeat|concat|join)$|^std::fmt::format|ToString.*::to_string$|spec_extend|SpecFromIter"
    r"|^<std::(vec::Vec|collections::\w+|boxed::Box)<.*> as std::(clone::Clone>::clone|convert::From<.*>>::from)$")


def link_roles(names):
    """which link each field of the node record is, by its name"""
    order = {}
    for i, nm in enumerate(names):
        if nm in FIELDS:
            roles = {nm}
        else:
            roles = {f for f, keys in (("parent", ("parent",)), ("prev_sibling_cyclic", ("prev",)),
                                       ("next_sibling", ("next", "following")), ("first_child", ("first", "child")))
                     if any(k in nm for k in keys)}
        if len(roles) != 1:
            return None
        order[i] = roles.pop()
    return order if set(order.values()) == set(FIELDS) else None


class Interp:
    MAX_STATES = 400000
    MAX_STEPS = 60000000

    def __init__(self, prog, spec):
        import models
        self.prog = prog
        self.spec = spec
        self.types = prog.types
        self.fns = prog.fns
        self.model_cache = {}
        self.models = models
        self.templates = {}
        self.finfo = {}
        self.visited = {}
        self.edges = set()
        self.pre_model = getattr(spec, "pre_model", None)
        self.cost = None         # which costs are looked at
        self.cost_cache = {}
        self.alike = None        # in a search by counters: key without integers -> how often seen
        self.round_cap = None    # count the rounds of each call up to this many
        self.cycles = None
        self.work = []
        self.violations = []
        self.viol_keys = set()
        self.hits = 0
        self.obligations = {}
        self.stats = {"states": 0, "forks": 0, "loop_heads": 0, "joins": 0, "steps": 0, "ends": 0,
                      "max_nodes": 0}
        self.calls_seen = set()
        self.panics_seen = {}
        self.rules = None          # report only these rules
        self.other = {}
        self.collect = False       # keep going past constructs outside the domain
        self.unsupported = []
        self.deadline = None

    # ------------------------------------------------------------- types
    def tyk(self, t):
        return self.types[t].get("k")

    def adt(self, t):
        ty = self.types[t]
        return ty if ty.get("k") == "adt" else None

    def mk_adt(self, ty, vname, fields=()):
        for i, v in enumerate(self.types[ty]["v"]):
            if v[0] == vname:
                return ("A", ty, i, tuple(fields))
        raise Unsupported("variant %s of %s" % (vname, self.types[ty]["d"]))

    def vname(self, v):
        return self.types[v[1]]["v"][v[2]][0]

    def some(self, ty, x):
        return self.mk_adt(ty, "Some", (x,))

    def none(self, ty):
        return self.mk_adt(ty, "None")

    def field_ty(self, ty, var, i):
        return self.types[ty]["v"][var][2][i][1]

    # ------------------------------------------------------------- ids
    def template(self, ty):
        """the value `from_usize(idx)` builds for an id type, with a hole"""
        t = self.templates.get(ty)
        if t is not None:
            return t
        d = self.types[ty]["d"]
        for i in self.prog.id_constructors(ty):
            args = [("idx", at(0, 0))]
            try:
                args += [self.zst(x) for x in self.fns[i]["argtys"][1:]]
                v = self.run_pure(i, args)
            except Unsupported:
                continue
            if v[0] == "A" and self.vname(v) == "Some":
                if t is not None and t != v[3][0]:
                    raise Unsupported("two ways from an index to " + d)
                t = v[3][0]
        if t is None:
            a = self.adt(ty)
            if a is None or a["ak"] != "struct" or len(a["v"][0][2]) != 1:
                raise Unsupported("no id template for " + d)
            t = ("A", ty, 0, (self.template(a["v"][0][2][0][1]),))
        self.templates[ty] = t
        return t

    def mk_id(self, ty, f, n):
        return fold.rewrite(self.template(ty), {at(0, 0): at(f, n)})

    def run_pure(self, fid, args):
        sub = Interp(self.prog, PureSpec())
        sub.templates = self.templates
        sub.finfo = self.finfo
        st = State()
        st.forests[0] = Shape(0)
        st.forests[0].kind[0] = "a"
        sub.enter(st, fid, args, None, None, None, "")
        sub.work.append(st)
        sub.run()
        if len(sub.spec.results) != 1:
            raise Unsupported("not a function of its argument: " + self.fns[fid]["name"])
        return sub.spec.results[0]

    def id_node(self, v, st=None):
        """the node an id value (or anything containing exactly one) denotes"""
        out = []
        if st is not None:
            v = self.models.normalise_ids(self, st, v)
        fold.nodes_in(v, out)
        s = set(out)
        if len(s) != 1:
            return None
        return out[0]

    # ------------------------------------------------------------- forests
    def find_types(self, ty):
        """(Neighbors type, data element type) of a Forest type"""
        n = d = None
        seen = set()
        stack = [ty]
        while stack:
            t = stack.pop()
            if t in seen:
                continue
            seen.add(t)
            a = self.adt(t)
            if not a:
                continue
            if a["name"].endswith("Vec"):
                e = self.vec_elem(t)
                ea = self.adt(e)
                if ea and ea["name"].endswith("Option"):
                    d = e
                elif ea and len(ea["v"]) == 1 and len(ea["v"][0][2]) == 4:
                    n = e
                continue
            for v in a["v"]:
                for _, ft in v[2]:
                    stack.append(ft)
        return n, d

    def vec_elem(self, t):
        return [x for x in self.types[t]["args"] if isinstance(x, int)][0]

    def forest_value(self, ty, f):
        a = self.adt(ty)
        if a["name"].endswith("Vec"):
            e = self.vec_elem(ty)
            return ("vec", "N" if e == self.finfo[f]["n"] else "D", f)
        return ("A", ty, 0, tuple(self.forest_value(ft, f) if self.adt(ft) else UNIT for _, ft in a["v"][0][2]))

    def add_forest(self, st, f, ty, shape=None):
        n, d = self.find_types(ty)
        if n is None or d is None:
            raise Unsupported("Forest layout")
        names = [x[0] for x in self.types[n]["v"][0][2]]
        order = link_roles(names)
        if order is None or len({x[1] for x in self.types[n]["v"][0][2]}) != 1:
            raise Unsupported("Neighbors fields " + str(names))
        self.finfo[f] = {"n": n, "d": d, "ty": ty, "fields": order,
                         "opt": self.types[n]["v"][0][2][0][1],
                         "id": [x for x in self.types[self.types[n]["v"][0][2][0][1]]["args"] if isinstance(x, int)][0],
                         "tok": [x for x in self.types[d]["args"] if isinstance(x, int)][0]}
        st.forests[f] = shape or Shape(f)
        st.forests[f].fid = f
        st.heap[("forest", f)] = self.forest_value(ty, f)
        return ("R", ("O", ("forest", f)), ())

    def opt_id(self, f, n):
        o = self.finfo[f]["opt"]
        if n == NONE:
            return self.none(o)
        return self.some(o, self.mk_id(self.finfo[f]["id"], f, n))

    def opt_id_decode(self, f, v, st=None):
        if v is None or v[0] != "A":
            raise Unsupported("link value")
        if self.vname(v) == "None":
            return NONE
        r = self.id_node(v[3][0], st)
        if r is None or r[0] != f:
            raise Unsupported("link to a node of another forest")
        return r[1]

    def fshape(self, st, f):
        return st.forests[f]

    def nread(self, st, f, n, field):
        s = st.forests[f]
        k = s.kind[n]
        if k in ("o",):
            raise Unsupported("link of an out-of-range node")
        try:
            return s.read(n, field)
        except NeedSplit as e:
            e.fid = f
            raise

    def dread(self, st, f, n):
        s = st.forests[f]
        info = self.finfo[f]
        v = s.dw.get(n)
        if v is not None:
            if v == "TAKEN":
                return self.none(info["d"])
            return v
        if s.kind[n] == "a":
            return self.some(info["d"], self.tok(info["tok"], ("data", at(f, n))))
        if s.kind[n] == "d":
            return self.none(info["d"])
        raise Unsupported("data of node kind " + s.kind[n])

    def tok(self, ty, label):
        return ("K", ty, label)

    # ------------------------------------------------------------- memory
    def base(self, st, root):
        k = root[0]
        if k == "L":
            return st.frames[root[1]].locals.get(root[2])
        if k == "O":
            return st.heap[root[1]]
        raise Unsupported("reading %s" % (root,))

    def read(self, st, root, path):
        k = root[0]
        if k == "N":
            f, n = root[1][1], root[1][2]
            info = self.finfo[f]
            if not path:
                vals = [self.opt_id(f, self.nread(st, f, n, info["fields"][i])) for i in range(len(info["fields"]))]
                return ("A", info["n"], 0, tuple(vals))
            v = self.opt_id(f, self.nread(st, f, n, info["fields"][path[0]]))
            return self.walk(v, path[1:])
        if k == "D":
            return self.walk(self.dread(st, root[1][1], root[1][2]), path)
        if k == "V":
            return self.walk(root[1], path)
        return self.walk(self.base(st, root), path)

    def walk(self, v, path):
        for e in path:
            if v is None:
                raise Unsupported("read of uninitialised memory")
            if isinstance(e, tuple):
                if e[0] == "v":
                    if v[0] != "A" or v[2] != e[1]:
                        raise Unsupported("downcast to an inactive variant")
                    continue
                raise Unsupported("projection %s" % (e,))
            k = v[0]
            if k == "A":
                v = v[3][e]
            elif k == "T" or k == "Y":
                v = v[1][e]
            elif k == "C":
                v = v[2][e]
            elif k == "PV":
                v = v[3][e]
            elif k == "NZ" and e == 0:
                continue
            else:
                raise Unsupported("field of %s" % (k,))
        return v

    def put(self, old, path, val):
        if not path:
            return val
        e = path[0]
        if isinstance(e, tuple):
            if old is None or old[0] != "A" or old[2] != e[1]:
                raise Unsupported("write into an inactive variant")
            return self.put(old, path[1:], val)
        if old is None:
            raise Unsupported("partial write to uninitialised memory")
        k = old[0]
        j = {"A": 3, "T": 1, "Y": 1, "C": 2, "PV": 3}.get(k)
        if j is None:
            raise Unsupported("write into %s" % k)
        items = list(old[j])
        items[e] = self.put(items[e], path[1:], val)
        r = list(old)
        r[j] = tuple(items)
        return tuple(r)

    def skeleton(self, ty):
        """an uninitialised aggregate that is filled in field by field"""
        t = self.types[ty]
        if t.get("k") == "tuple":
            return ("T", tuple(self.skeleton(x) for x in t["f"]))
        if t.get("k") == "adt" and t["ak"] == "struct" and not self.transparent(ty):
            return ("A", ty, 0, tuple(self.skeleton(ft) for _, ft in t["v"][0][2]))
        return None

    def write(self, st, root, path, val):
        k = root[0]
        if k == "L":
            loc = st.frames[root[1]].locals
            old = loc.get(root[2])
            if old is None and path:
                old = self.skeleton(st.frames[root[1]].body.locals[root[2]])
            loc[root[2]] = self.put(old, path, val)
        elif k == "O":
            st.heap[root[1]] = self.put(st.heap[root[1]], path, val)
        elif k == "N":
            f, n = root[1][1], root[1][2]
            info = self.finfo[f]
            if not path:
                todo = [(info["fields"][i], self.opt_id_decode(f, val[3][i], st)) for i in range(len(val[3]))]
            elif len(path) == 1:
                todo = [(info["fields"][path[0]], self.opt_id_decode(f, val, st))]
            else:
                old = self.opt_id(f, self.nread(st, f, n, info["fields"][path[0]]))
                todo = [(info["fields"][path[0]], self.opt_id_decode(f, self.put(old, path[1:], val), st))]
            self.spec.on_write(self, st, f, n, todo)
            for fld, v in todo:
                st.forests[f].w[(n, fld)] = v
        elif k == "D":
            f, n = root[1][1], root[1][2]
            if path:
                val = self.put(self.dread(st, f, n), path, val)
            if val[0] == "A" and self.vname(val) == "None":
                val = "TAKEN"
            self.spec.on_data_write(self, st, f, n, val)
            if val == "TAKEN":
                st.cnt = (st.cnt[0] + (st.forests[f].dw.get(n) != "TAKEN"), st.cnt[1])
            elif st.forests[f].dw.get(n) == "TAKEN" or st.forests[f].kind[n] != "a":
                st.cnt = (st.cnt[0], st.cnt[1] + 1)
            st.forests[f].dw[n] = val
        else:
            raise Unsupported("write to %s" % k)

    # ------------------------------------------------------------- places
    TRANSPARENT = ("MaybeUninit", "ManuallyDrop", "MaybeDangling")

    def transparent(self, ty):
        """wrappers whose value is represented by the wrapped value"""
        a = self.adt(ty)
        return a is not None and a["name"].split("::")[-1] in self.TRANSPARENT

    def place(self, st, p):
        d = len(st.frames) - 1
        root, path = ("L", d, p[0]), ()
        ty = st.frames[d].body.locals[p[0]]
        for e in p[1]:
            if e == "d":
                v = self.read(st, root, path)
                if v is None or not isinstance(v, tuple) or v[0] not in ("R", "B"):
                    raise Unsupported("deref of %s" % (v if v is None else v[0],))
                root, path = v[1], v[2]
                ty = self.types[ty].get("e") if ty is not None else None
            elif e[0] == "f":
                if ty is None or not self.transparent(ty):
                    path = path + (e[1],)
                ty = e[2]
            elif e[0] == "v":
                path = path + (("v", e[1]),)
            elif e[0] == "i":
                ty = self.types[ty].get("e") if ty is not None else None
                i = st.frames[d].locals.get(e[1])
                if root[0] == "VS":
                    root, path = self.models.slice_elem(self, st, root, path, i)
                elif hasattr(self.spec, "path_elem") and self.spec.path_elem(self, st, ("R", root, path), i) is not None:
                    _, root, path = self.spec.path_elem(self, st, ("R", root, path), i)
                elif isinstance(i, int):
                    path = path + (i,)
                else:
                    raise Unsupported("symbolic array index")
            elif e[0] == "c":
                i = e[1]
                if e[3]:
                    n = self.models.slice_len(self, st, ("R", root, path))
                    if not isinstance(n, int):
                        raise Unsupported("index from end")
                    i = n - i
                path = path + (i,)
                ty = self.types[ty].get("e") if ty is not None else None
            elif e[0] == "o":
                pass
            else:
                raise Unsupported("projection %s" % (e,))
        return root, path

    def getp(self, st, p):
        if not p[1]:
            v = st.frames[-1].locals.get(p[0])
            if v is None:
                v = self.zst_default(st.frames[-1].body.locals[p[0]])
            if v is None:
                raise Unsupported("read of uninitialised local _%d" % p[0])
            return v
        root, path = self.place(st, p)
        v = self.read(st, root, path)
        if v is None:
            v = self.zst_default(self.operand_ty(st, ["c", p]))
        if v is None:
            raise Unsupported("read of uninitialised memory")
        return v

    def zst_default(self, ty):
        """rustc removes assignments of zero-sized values: such a place always holds its only value"""
        if ty is None or self.types[ty].get("size") != 0:
            return None
        try:
            return self.zst(ty)
        except Unsupported:
            return None

    def const(self, c):
        k = c[0]
        if k in ("int", "bool"):
            return c[1]
        if k == "zst":
            return self.zst(c[1])
        if k == "str":
            return ("S", c[1])
        if k == "adt":
            a = self.adt(c[1])
            fs = tuple(self.const(x) for x in c[3])
            if self.transparent(c[1]):
                return fs[0]
            if a and a["name"].endswith("NonZero"):
                x = fs[0]
                while isinstance(x, tuple) and x[0] in ("A",):
                    x = x[3][0]
                return ("NZ", x)
            return ("A", c[1], c[2], fs)
        if k == "tup":
            return ("T", tuple(self.const(x) for x in c[1]))
        if k == "arr":
            return ("Y", tuple(self.const(x) for x in c[1]))
        if k == "ref":
            v = self.const(c[1])
            if v[0] == "S":
                return v
            return ("R", ("V", v), ())
        if k == "fnptr":
            return ("F", c[1])
        if k == "addr":
            return ("addr", c[1])
        return ("unk",)

    def uninhabited(self, ty):
        t = self.types[ty]
        if t.get("k") == "never":
            return True
        if t.get("k") == "adt":
            return all(any(self.uninhabited(ft) for _, ft in v[2]) for v in t["v"])
        return False

    def zst(self, ty):
        t = self.types[ty]
        k = t.get("k")
        if k == "fndef":
            return ("F", t["fn"])
        if k == "tuple":
            return ("T", tuple(self.zst(x) for x in t["f"]))
        if k == "closure":
            return ("C", ty, ())
        if k == "adt":
            if self.transparent(ty):
                return self.zst(t["v"][0][2][-1][1])
            if t["ak"] == "struct":
                return ("A", ty, 0, tuple(self.zst(ft) for _, ft in t["v"][0][2]))
            ok = [i for i, v in enumerate(t["v"]) if not any(self.uninhabited(ft) for _, ft in v[2])]
            if len(ok) == 1:
                return ("A", ty, ok[0], tuple(self.zst(ft) for _, ft in t["v"][ok[0]][2]))
        if k == "array":
            return ("Y", ())
        raise Unsupported("zst of " + t["d"])

    def operand(self, st, o):
        if o[0] in ("c", "m"):
            return self.getp(st, o[1])
        if o[0] == "k":
            return self.const(o[1])
        if o[0] == "rt":
            # runtime checks (UbChecks, OverflowChecks): as in a debug build
            return True if "verflow" in str(o[1]) else False
        raise Unsupported("operand %s" % (o[0],))

    def operand_ty(self, st, o):
        if o[0] == "k":
            return o[2]
        if o[0] == "rt":
            return None
        body = st.frames[-1].body
        p = o[1]
        ty = body.locals[p[0]]
        for e in p[1]:
            if e == "d":
                ty = self.types[ty].get("e")
            elif e[0] == "f":
                ty = e[2]
            elif e[0] == "v":
                pass
            elif e[0] in ("i", "c"):
                ty = self.types[ty].get("e")
            else:
                return None
            if ty is None:
                return None
        return ty

    # ------------------------------------------------------------- choices
    def choose(self, st, key, options):
        if key in st.picks:
            return st.picks[key]
        raise Choose(key, options)

    def exhausted(self, st):
        """may the arena already hold as many nodes as ids exist?"""
        r = self.choose(st, ("id space exhausted",), (False, True))
        if r:
            st.ex = True
        return r

    def pos(self, st, t):
        """(forest, distance from the arena's initial length) of an index term"""
        if isinstance(t, tuple):
            if t[0] == "len":
                return t[1], t[2]
            if t[0] == "idx":
                j = self.newpos(st, t)
                return None if j is None else (t[1][1], j)
            if t[0] == "off":
                p = self.pos(st, t[1])
                return None if p is None else (p[0], p[1] + t[2])
        return None

    # ------------------------------------------------------------- terms
    def norm(self, st, t):
        """normalise an integer term"""
        if isinstance(t, tuple):
            if t[0] == "len":
                s = st.forests[t[1]]
                n = s.newidx.get(t[2])
                if n is not None:
                    return ("idx", at(t[1], n))
            elif t[0] == "not":
                x = self.norm(st, t[1])
                if isinstance(x, tuple) and x[0] == "not":
                    return x[1]
                return ("not", x)
            elif t[0] == "off":
                return ("off", self.norm(st, t[1]), t[2])
        return t

    def term_eq(self, st, a, b):
        a, b = self.norm(st, a), self.norm(st, b)
        if a == b:
            return True
        if not isinstance(a, tuple) and not isinstance(b, tuple):
            return a == b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == "off" and isinstance(y, int) and y < x[2]:
                return False
        pa, pb = self.pos(st, a), self.pos(st, b)
        if pa and pb and pa[0] == pb[0]:
            return pa[1] == pb[1]
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == "not" and b[0] == "not" or a[0] == "off" == b[0] and a[2] == b[2]:
                return self.term_eq(st, a[1], b[1])
            if a[0] == "idx" and b[0] == "idx":
                if a[1][1] == b[1][1]:
                    return False          # distinct named nodes are distinct
                return self.choose(st, ("eq", a, b), (True, False))
            for x, y in ((a, b), (b, a)):
                if x[0] == "len" and y[0] == "len" and x[1] == y[1]:
                    return x[2] == y[2]
                if x[0] == "len" and y[0] == "idx" and x[1] == y[1][1]:
                    # the next index: only an out-of-range id could equal it
                    if st.forests[x[1]].kind[y[1][2]] == "o":
                        return self.choose(st, ("eq", x, y), (True, False))
                    return False
        r = self.models.term_cmp(self, st, "Eq", a, b)
        if r is not None:
            return r
        return self.choose(st, ("eq", a, b), (True, False))

    def term_lt(self, st, a, b):
        a, b = self.norm(st, a), self.norm(st, b)
        if a == b:
            return False
        if not isinstance(a, tuple) and not isinstance(b, tuple):
            return a < b
        pa, pb = self.pos(st, a), self.pos(st, b)
        if pa and pb and pa[0] == pb[0]:
            return pa[1] < pb[1]
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == "not" and b[0] == "not":
                return self.term_lt(st, b[1], a[1])
            if a[0] == "off" == b[0] and a[2] == b[2]:
                return self.term_lt(st, a[1], b[1])
            if a[0] == "idx" and b[0] == "len" and a[1][1] == b[1]:
                return self.in_range(st, a, b[2])
            if a[0] == "len" and b[0] == "idx" and b[1][1] == a[1]:
                if self.in_range(st, b, a[2]):
                    return False
                k = st.forests[a[1]].kind[b[1][2]]
                if k == "n":
                    return self.newpos(st, b) > a[2]
                return self.choose(st, ("lt", a, b), (True, False))
            if a[0] == "len" and b[0] == "len" and a[1] == b[1]:
                return a[2] < b[2]
        r = self.models.term_cmp(self, st, "Lt", a, b)
        if r is not None:
            return r
        if isinstance(b, int) and b == (1 << 64) - 1 and isinstance(a, tuple):
            if a[0] == "len":
                # the arena may already hold as many nodes as ids exist
                return not self.exhausted(st)
            if a[0] == "idx":
                return True          # an index of a live id is never usize::MAX
        return self.choose(st, ("lt", a, b), (True, False))

    def newpos(self, st, idx):
        s = st.forests[idx[1][1]]
        for k, n in s.newidx.items():
            if n == idx[1][2]:
                return k
        return None

    def in_range(self, st, idx, pushes):
        """is the index below L0+pushes"""
        s = st.forests[idx[1][1]]
        k = s.kind[idx[1][2]]
        j = self.newpos(st, idx)
        if j is not None:
            return j < pushes
        if k in ("a", "d"):
            return True
        if k == "o":
            return False
        raise Unsupported("index of node kind " + k)

    # ------------------------------------------------------------- rvalues
    def binop(self, st, op, a, b, ty):
        if op in ("Eq", "Ne"):
            if isinstance(a, tuple) and a[0] in ("R", "F", "S") or isinstance(b, tuple) and b[0] in ("R", "F", "S"):
                if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "R" and a[1] == b[1] \
                        and a[2][:-1] == b[2][:-1]:
                    return (a[2] == b[2]) == (op == "Eq")
                raise Unsupported("pointer comparison")
            r = self.term_eq(st, a, b)
            return r if op == "Eq" else not r
        if op == "Lt":
            return self.term_lt(st, a, b)
        if op == "Gt":
            return self.term_lt(st, b, a)
        if op == "Le":
            return not self.term_lt(st, b, a)
        if op == "Ge":
            return not self.term_lt(st, a, b)
        if isinstance(a, bool) or isinstance(b, bool):
            f = {"BitAnd": lambda: a and b, "BitOr": lambda: a or b, "BitXor": lambda: a != b}.get(op)
            if f:
                return f()
        if op == "Cmp":
            o = -1 if self.term_lt(st, a, b) else (0 if self.term_eq(st, a, b) else 1)
            return ("ord", o)
        return self.models.arith(self, st, op, a, b, ty)

    def rvalue(self, st, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1])
        if k == "ref" or k == "addr":
            p = r[2] if k == "ref" else r[1]
            # reborrow of a string or slice stays what it is
            if p[1] and p[1][-1] == "d":
                v = self.getp(st, [p[0], p[1][:-1]])
                if v[0] in ("S", "TX", "R", "B", "dyn"):
                    return v if v[0] != "B" else ("R", v[1], v[2])
                if v[0] == "addr":
                    return v
                raise Unsupported("reborrow of %s" % v[0])
            root, path = self.place(st, p)
            return ("R", root, path)
        if k == "discr":
            root, path = self.place(st, r[1])
            if root[0] == "N" and len(path) == 1:
                f, n = root[1][1], root[1][2]
                s = st.forests[f]
                if s.kind[n] == "o":
                    raise Unsupported("link of an out-of-range node")
                try:
                    some = s.read_some(n, self.finfo[f]["fields"][path[0]])
                except NeedSplit as e:
                    e.fid = f
                    raise
                name = "Some" if some else "None"
                for v in self.types[self.finfo[f]["opt"]]["v"]:
                    if v[0] == name:
                        return v[1]
            v = self.read(st, root, path)
            if v is None:
                v = self.zst_default(self.operand_ty(st, ["c", r[1]]))
            if isinstance(v, tuple) and v[0] == "A":
                d = self.types[v[1]]["v"][v[2]][1]
                t = self.types[dty] if dty is not None else {}
                if t.get("signed") and d >> (t["bits"] - 1):
                    d -= 1 << t["bits"]
                return d
            if isinstance(v, tuple) and v[0] == "ord":
                return v[1]
            raise Unsupported("discriminant of %s" % (v if not isinstance(v, tuple) else v[0],))
        if k == "aggadt":
            a = self.adt(r[1])
            fs = tuple(self.operand(st, o) for o in r[3])
            if self.transparent(r[1]):
                return fs[0]
            if r[4] is not None:
                raise Unsupported("union")
            if a["name"].endswith("num::NonZero") or a["name"] == "NonZero":
                return ("NZ", fs[0])
            return ("A", r[1], r[2], fs)
        if k == "aggtup":
            return ("T", tuple(self.operand(st, o) for o in r[1]))
        if k == "aggarr":
            return ("Y", tuple(self.operand(st, o) for o in r[2]))
        if k == "aggclo":
            return ("C", r[1], tuple(self.operand(st, o) for o in r[2]))
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, r[2]), self.operand(st, r[3]), self.operand_ty(st, r[2]))
        if k == "chk":
            a, b = self.operand(st, r[2]), self.operand(st, r[3])
            return self.models.checked(self, st, r[1], a, b, self.operand_ty(st, r[2]))
        if k == "un":
            v = self.operand(st, r[2])
            if r[1] == "Not":
                if isinstance(v, bool):
                    return not v
                t = self.types[self.operand_ty(st, r[2])]
                if isinstance(v, int):
                    return (~v) & ((1 << t["bits"]) - 1)
                if hasattr(self.spec, "num_not"):
                    r = self.spec.num_not(self, st, v, t)
                    if r is not None:
                        return r
                return self.norm(st, ("not", v))
            if r[1] == "PtrMetadata":
                return self.models.slice_len(self, st, v)
            return self.models.neg(self, st, v)
        if k == "cast":
            return self.cast(st, r, dty)
        if k == "len":
            root, path = self.place(st, r[1])
            return self.models.slice_len(self, st, ("R", root, path))
        if k == "aggptr":
            return self.operand(st, r[2][0])
        if k == "repeat":
            if r[2] is None or r[2] > 64:
                raise Unsupported("long array")
            return ("Y", (self.operand(st, r[1]),) * r[2])
        raise Unsupported("rvalue %s" % (r[:2],))

    def cast(self, st, r, dty):
        kind = r[1]
        v = self.operand(st, r[2])
        if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind or "UnsafeFnPointer" in kind:
            if len(r) > 4 and r[4] is not None:
                return ("F", r[4])
            return v
        if "IntToInt" in kind:
            return self.models.int_cast(self, st, v, self.operand_ty(st, r[2]), r[3])
        if "PtrToPtr" in kind:
            return self.models.ptr_cast(self, st, v, self.operand_ty(st, r[2]), r[3])
        if "Unsize" in kind or "MutToConst" in kind:
            return v
        if "ArrayToPointer" in kind:
            return ("R", v[1], v[2] + (0,))
        if "Transmute" in kind:
            return self.models.transmute(self, st, v, self.operand_ty(st, r[2]), r[3])
        raise Unsupported("cast " + kind)

    # ------------------------------------------------------------- calls
    def resolve_fn(self, st, callee):
        if callee[0] == "fn":
            return callee[1], None
        if callee[0] == "op":
            v = self.operand(st, callee[1])
            if v[0] == "F":
                return v[1], None
            raise Unsupported("call through %s" % v[0])
        raise Unsupported("unresolved call " + str(callee[1]))

    def enter(self, st, fid, args, dest, target, unwind, span):
        b = self.prog.body(fid)
        f = self.fns[fid]
        if len(args) != b.nargs:
            raise Unsupported("argument count of " + b.name)
        loc = {i + 1: a for i, a in enumerate(args)}
        back = self.tail_of(st, b, args, dest, target, unwind)
        if back is not None:
            # a call of itself whose result is just handed on: the frames in between have nothing left to do
            dest, target, unwind = back.dest, back.target, back.unwind
            b.heads.add(0)
        st.frames.append(Frame(b, loc, dest, target, unwind, span))
        if len(st.frames) > 30:
            self.recursion(st, b, args)
        if len(st.frames) > 80:
            raise Unsupported("recursion in " + b.name)

    def recursion(self, st, body, args):
        """a function that calls itself, with nothing changed since it was called, does so for ever"""
        outer = [fr for fr in st.frames[:-1] if fr.body is body]
        if not outer:
            return
        base = next(d for d, fr in enumerate(st.frames) if fr.body is body)
        if self.refers(args, base):
            return
        sig = (tuple(args), tuple((f, shape_key(s)) for f, s in sorted(st.forests.items())), st.spec,
               tuple(sorted(st.heap.items(), key=lambda kv: repr(kv[0]))),
               tuple(tuple(sorted(fr.locals.items())) for fr in st.frames[:base]))
        st.frames[-1].sig = sig
        if outer[-1].sig == sig:
            raise Violation("diverges", "%s calls itself for ever" % self.fns[body.id]["path"], self.OUTCOMES)

    def refers(self, args, base):
        """do the arguments refer to locals of frames from this one on"""
        work = list(args)
        while work:
            v = work.pop()
            if isinstance(v, tuple):
                if len(v) == 3 and v[0] == "L" and isinstance(v[1], int) and v[1] >= base:
                    return True
                work.extend(v)
        return False

    def tail_of(self, st, body, args, dest, target, unwind):
        """for a tail call (of a function to itself, also through others): takes the frames off that have nothing left
        to do, and returns the frame of the function"""
        base = next((d for d in range(len(st.frames) - 1, 0, -1) if st.frames[d].body is body), None)
        if base is None or target is None:
            return None
        for d in range(len(st.frames) - 1, base - 1, -1):
            fr = st.frames[d]
            if not self.hands_on(fr, dest, target) or not self.hands_on(fr, None, unwind, "resume"):
                return None
            dest, target, unwind = fr.dest, fr.target, fr.unwind
        if self.refers(args, base):
            return None
        fr = st.frames[base]
        del st.frames[base:]
        return fr

    def hands_on(self, fr, dest, b, last="return"):
        """from block b on, the frame does nothing but return what the call left in dest"""
        if b == "cont":
            return last == "resume"
        if not isinstance(b, int) or dest is not None and dest[1]:
            return False
        at, ret = (dest[0] if dest is not None else None), fr.body.locals[0]
        known = {l: v for l, v in fr.locals.items() if isinstance(v, (bool, int))}
        for _ in range(40):
            blk = fr.body.blocks[b]
            for s in blk["s"]:
                if s[0] in ("sx", "sl", "assume"):
                    continue
                if s[0] != "=" or s[1][1] or s[2][0] != "use":
                    return False
                o = s[2][1]
                if o[0] in ("m", "c") and not o[1][1] and o[1][0] == at and at is not None:
                    at = s[1][0]
                elif o[0] == "k" and isinstance(o[1], list) and o[1][0] == "bool" and s[1][0] != at:
                    known[s[1][0]] = bool(o[1][1])
                else:
                    return False
            t = blk["t"]
            if t[0] == "goto":
                b = t[1]
            elif t[0] == "drop" and t[2] is None:
                b = t[4]
            elif t[0] == "switch" and t[1][0] in ("m", "c") and not t[1][1][1] and t[1][1][0] in known and t[1][1][0] != at:
                v = int(known[t[1][1][0]])
                b = next((x for val, x in t[2] if val == v), t[3])
            elif t[0] == last:
                return last == "resume" or at == 0 or ret == self.unit_type()
            else:
                return False
        return False

    def unit_type(self):
        if not hasattr(self, "_unit"):
            self._unit = next((i for i, t in enumerate(self.types) if t.get("d") == "()"), None)
        return self._unit

    def is_closure(self, fid):
        return re.search(r"\{closure#\d+\}$", self.fns[fid]["path"]) is not None

    def call(self, st, t, sp):
        _, callee, argops, dest, target, unwind = t[:6]
        fid, _ = self.resolve_fn(st, callee)
        args = [self.operand(st, a) for a in argops]
        self.invoke(st, fid, args, dest, target, unwind, sp,
                    rustcall=self.is_closure(fid) and callee[0] == "fn")

    def invoke(self, st, fid, args, dest, target, unwind, sp, rustcall=False):
        f = self.fns[fid]
        m = self.model_cache.get(fid, 0)
        if m == 0:
            m = self.models.lookup(f)
            self.model_cache[fid] = m
        if rustcall and len(args) == 2 and isinstance(args[1], tuple) and args[1][0] == "T":
            args = [args[0]] + list(args[1][1])
        if self.cost is not None:
            self.costs(st, f, args)
        if self.pre_model is not None:
            res = self.pre_model(self, st, fid, f["path"], args)
            if res is not None:
                self.calls_seen.add(f["path"])
                self.finish_call(st, res, dest, target, unwind, sp)
                return
        if m is not None:
            res = m(self, st, fid, args, sp)
            self.calls_seen.add(f["path"])
            self.finish_call(st, res, dest, target, unwind, sp)
            return
        if f["path"].startswith("vpharness::ov::"):
            # a provided method that is not overridden does what std says
            to = [b["t"][1][1] for b in f["blocks"] if b["t"][0] == "call" and b["t"][1][0] == "fn"]
            if not any(self.fns[x].get("crate", "").startswith("treena") for x in to):
                raise Prune()
        if "redirect" in f:
            self.calls_seen.add(f["path"])
            self.enter(st, f["redirect"], args, dest, target, unwind, sp)
            return
        if f.get("impls"):
            target_fn = self.dispatch(st, f, args[0])
            self.calls_seen.add(f["path"])
            self.invoke(st, target_fn, args, dest, target, unwind, sp, rustcall=self.is_closure(target_fn))
            return
        if "blocks" not in f:
            # tuple-struct constructors have no body
            ct = self.models.ctor(self, fid, args)
            if ct is not None:
                self.finish_call(st, ct, dest, target, unwind, sp)
                return
            raise Unsupported("no model for " + f["path"] + " (" + f["name"] + ")")
        if f.get("opaque"):
            raise Unsupported("no model for opaque " + f["path"])
        fr = st.frames[-1]
        self.enter(st, fid, args, dest, target, unwind, sp)

    def dispatch(self, st, f, recv):
        """the implementation that a call through a vtable reaches, by the type of the receiver"""
        impls = f["impls"]
        if len({x for _, x in impls}) == 1:
            return impls[0][1]
        v = recv
        while isinstance(v, tuple) and v and v[0] == "R":
            v = self.read(st, v[1], v[2])
        if isinstance(v, tuple) and len(v) > 1 and v[0] in ("C", "A"):
            for ty, x in impls:
                if ty == v[1]:
                    return x
        if isinstance(v, tuple) and len(v) > 1 and v[0] == "F":
            for ty, x in impls:
                if self.types[ty].get("fn") == v[1]:
                    return x
        raise Unsupported("receiver of " + f["path"])

    def costs(self, st, f, args):
        """counts the elements put into and taken out of containers, and notes allocations"""
        p = f["path"]
        self.stats["calls"] = self.stats.get("calls", 0) + 1
        k = self.cost_cache.get(p)
        if k is None:
            k = self.cost_cache[p] = (MOVES.search(p) is not None, ALLOCATES.search(p) is not None)
        if k[0]:
            st.ops += 1
        if k[1] and self.cost.get("noalloc") and st.panic is None and not self.client(st):
            if p.split("::")[-1].startswith("with_capacity") and args and args[0] == 0:
                return
            self.add_violation(st, "cost", "`%s` allocates memory in an operation that must not" % p)

    def finish_call(self, st, res, dest, target, unwind, sp):
        """res: a value | ('PANIC', msg) | ('INVOKE', fid, args) | ('NORETURN',)"""
        if isinstance(res, tuple) and res and res[0] == "PANIC":
            st.panic = (res[1], self.where(st), res[2] if len(res) > 2 else None)
            key = (res[1], sp)
            self.panics_seen[key] = self.panics_seen.get(key, 0) + 1
            self.unwind_to(st, unwind)
            return
        if isinstance(res, tuple) and res and res[0] == "INVOKE":
            self.invoke(st, res[1], list(res[2]), dest, target, unwind, sp,
                        rustcall=self.is_closure(res[1]) and len(res) > 3)
            return
        if target is None:
            raise Unsupported("model returned from a diverging call")
        if dest is not None:
            root, path = self.place(st, dest)
            self.write(st, root, path, res)
        self.goto(st, target)

    def unwind_to(self, st, unwind):
        """continue unwinding in the top frame"""
        while True:
            fr = st.frames[-1]
            if isinstance(unwind, int):
                self.goto(st, unwind)
                return
            if unwind != "cont":
                raise Unsupported("unwind " + str(unwind))
            u = fr.unwind
            st.frames.pop()
            if not st.frames:
                self.end(st, "unwind", st.panic)
                return
            unwind = u

    def goto(self, st, b):
        fr = st.frames[-1]
        fr.blk, fr.idx = b, 0

    def end(self, st, kind, val):
        st.frames = []
        st.meta = ("end", kind, val)

    # ------------------------------------------------------------- execution
    def where(self, st):
        out = []
        for fr in reversed(st.frames):
            blk = fr.body.blocks[fr.blk]
            if fr.idx < len(blk["s"]) and blk["s"][fr.idx][0] == "=" and len(blk["s"][fr.idx]) > 3:
                sp = blk["s"][fr.idx][3]
            else:
                sp = blk.get("sp", "")
            out.append("%s at %s" % (fr.body.path, sp))
        return out

    def step(self, st):
        fr = st.frames[-1]
        blk = fr.body.blocks[fr.blk]
        ss = blk["s"]
        if fr.idx < len(ss):
            s = ss[fr.idx]
            k = s[0]
            if k == "=":
                p = s[1]
                if not p[1]:
                    fr.locals[p[0]] = self.rvalue(st, s[2], fr.body.locals[p[0]])
                else:
                    v = self.rvalue(st, s[2], self.operand_ty(st, ["c", p]))
                    root, path = self.place(st, p)
                    self.write(st, root, path, v)
            elif k == "sx" or k == "sl":
                fr.locals.pop(s[1], None)
            elif k == "sd":
                raise Unsupported("SetDiscriminant")
            elif k == "assume":
                pass
            else:
                raise Unsupported("statement %s" % (s,))
            fr.idx += 1
            return
        t = blk["t"]
        k = t[0]
        if k == "goto":
            self.goto(st, t[1])
        elif k == "switch":
            v = self.operand(st, t[1])
            if isinstance(v, bool):
                v = int(v)
            if not isinstance(v, int):
                v = self.models.switch_value(self, st, v, t[2])
            ty = self.operand_ty(st, t[1])
            if v < 0 and ty is not None:
                tt = self.types[ty]
                v &= (1 << tt.get("bits", 128)) - 1
            for val, b in t[2]:
                if val == v:
                    self.goto(st, b)
                    return
            self.goto(st, t[3])
        elif k == "call":
            self.call(st, t, blk.get("sp", ""))
        elif k == "return":
            v = fr.locals.get(0)
            st.frames.pop()
            if not st.frames:
                self.end(st, "ret", v)
                return
            if fr.target is None:
                raise Unsupported("return to nowhere")
            if fr.dest is not None:
                root, path = self.place(st, fr.dest)
                self.write(st, root, path, v if v is not None else UNIT)
            self.goto(st, fr.target)
        elif k == "drop":
            self.drop(st, t, blk.get("sp", ""))
        elif k == "assert":
            v = self.operand(st, t[1])
            if not isinstance(v, bool):
                v = bool(self.models.switch_value(self, st, v, [[0, 0], [1, 0]]))
            if v == t[2]:
                self.goto(st, t[4])
            else:
                st.panic = ("assert: " + str(t[3]), self.where(st), None)
                self.unwind_to(st, t[5])
        elif k == "resume":
            u = fr.unwind
            st.frames.pop()
            if not st.frames:
                self.end(st, "unwind", st.panic)
                return
            self.unwind_to(st, u)
        elif k == "unreachable":
            raise Unsupported("reached an unreachable block")
        else:
            raise Unsupported("terminator " + k)

    def drop(self, st, t, sp):
        _, p, fid, ty, target, unwind = t
        if fid is None:
            self.goto(st, target)
            return
        m = self.models.drop_model(self, st, fid, ty, p)
        if m:
            self.goto(st, target)
            return
        root, path = self.place(st, p)
        self.invoke(st, fid, [("R", root, path)], None, target, unwind, sp)

    # ------------------------------------------------------------- fixpoint
    def add_violation(self, st, rule, msg, also=()):
        if self.rules is not None and rule not in self.rules:
            mine = [r for r in also if r in self.rules]
            if not mine:
                self.other[rule] = self.other.get(rule, 0) + 1
                return
            rule = mine[0]
        w = self.where(st) if st.frames else (st.panic[1] if st.panic else [])
        key = (rule, msg.split(":")[0], w[0] if w else "", st.panic[0] if st.panic else "")
        self.hits += 1
        if key in self.viol_keys:
            return
        self.viol_keys.add(key)
        self.violations.append({
            "rule": rule, "also": also, "message": msg, "where": w,
            "entry": self.spec.name, "path": st.trace_list(),
            "panic": st.panic[0] if st.panic else None,
            "panic_at": st.panic[1] if st.panic else None,
            "shape": {str(f): s.describe() for f, s in st.forests.items()}})

    def run(self, order=None):
        """explores every abstract state; in an order that finds a violation where the exploration does not come to an
        end: "small": smallest forests first, "count": states that only differ by integers from many others first"""
        import heapq
        import time
        heap, count = [], 0
        while self.work or heap:
            if self.deadline and time.time() > self.deadline:
                self.unsupported.append("time budget exceeded")
                break
            if order:
                for st in self.work:
                    count += 1
                    size = sum(len(s.kind) for s in st.forests.values())
                    heapq.heappush(heap, ((0 if order == "small" else -st.rep, size), count, st))
                self.work = []
                st = heapq.heappop(heap)[2]
            else:
                st = self.work.pop()
            try:
                self.run_state(st)
            except Unsupported as u:
                if not self.collect:
                    raise
                if str(u) not in self.unsupported:
                    self.unsupported.append(str(u))
                if not order and (len(self.unsupported) >= 20 or "budget" in str(u) or "without bound" in str(u)):
                    break
            if len(self.violations) >= 12 or self.hits > 60:
                break
        return self.violations

    def fork(self, st, opts):
        self.stats["forks"] += 1
        for label, apply in opts:
            c = st.copy()
            apply(c)
            if label:
                c.note(label)
            self.work.append(c)
            self.stats["states"] += 1
        if self.stats["states"] > self.MAX_STATES:
            raise Unsupported("state budget exceeded in " + self.spec.name)

    def run_state(self, st):
        while True:
            try:
                if st.meta is not None:
                    self.stats["ends"] += 1
                    self.spec.on_end(self, st, st.meta[1], st.meta[2])
                    return
                fr = st.frames[-1]
                if fr.idx == 0 and fr.blk in fr.body.heads and not st.hd:
                    if not self.loop_head(st):
                        return
                    st.hd = True        # (also for the cases its first step may be split into)
                self.stats["steps"] += 1
                self.step(st)
                st.hd = False
                if st.picks:
                    st.picks = {}
                fr = st.frames[-1] if st.frames else None
            except NeedSplit as e:
                if e.fid is None:
                    raise AssertionError("split without forest")
                f = e.fid
                self.fork(st, self.spec.split(self, st, f, e.what))
                return
            except Choose as c:
                def pick(o):
                    def go(s):
                        s.picks[c.key] = o
                    return go
                lab = c.key[0] if isinstance(c.key, tuple) else str(c.key)
                self.fork(st, [("%s: %s" % (lab, short(o)), pick(o)) for o in c.options])
                return
            except Violation as v:
                self.add_violation(st, v.rule, v.msg, v.also)
                return
            except Prune:
                return
            except Unsupported as u:
                if not getattr(u, "located", False):
                    u.located = True
                    u.args = (str(u) + "  [" + "; ".join(self.where(st)[:3]) + "] entry " + self.spec.name,)
                raise

    # ------------------------------------------------------------- canonical form
    def live_values(self, st):
        """[(slot, value)] of everything the rest of the execution can read"""
        live = {}
        for d, fr in enumerate(st.frames):
            top = d == len(st.frames) - 1
            if top:
                L = set(fr.body.live_in[fr.blk])
            else:
                nxt = st.frames[d + 1]
                L = set()
                for b in (nxt.target, nxt.unwind):
                    if isinstance(b, int):
                        L |= fr.body.live_in[b]
                if nxt.dest is not None:
                    if nxt.dest[1]:
                        L.add(nxt.dest[0])
                    else:
                        L.discard(nxt.dest[0])
            live[d] = {l for l in L if l in fr.locals}
        heap = {k for k in st.heap if isinstance(k, tuple) and k[0] in ("forest", "keep")}
        # closure under references
        work = [fr.locals[l] for d, fr in enumerate(st.frames) for l in sorted(live[d])]
        work += [st.heap[k] for k in heap] + [st.spec]
        while work:
            v = work.pop()
            if not isinstance(v, tuple):
                continue
            if v and v[0] in ("R", "B") and len(v) == 3 and isinstance(v[1], tuple):
                root = v[1]
                if root[0] == "L":
                    d, l = root[1], root[2]
                    if d < len(st.frames) and l not in live[d] and l in st.frames[d].locals:
                        live[d].add(l)
                        work.append(st.frames[d].locals[l])
                elif root[0] == "O":
                    if root[1] not in heap and root[1] in st.heap:
                        heap.add(root[1])
                        work.append(st.heap[root[1]])
                elif root[0] in ("V", "PS"):
                    work.append(root[1:])
                continue
            for e in v:
                if isinstance(e, tuple):
                    work.append(e)
        out = []
        for d, fr in enumerate(st.frames):
            for l in sorted(live[d]):
                out.append((("L", d, l), fr.locals[l]))
        for k in sorted(heap, key=repr):
            out.append((("O", k), st.heap[k]))
        return out, live, heap

    def canonical(self, st, before=None):
        st.spec = self.spec.before_fold(self, st)
        slots, live, heap = self.live_values(st)
        for d, fr in enumerate(st.frames):
            for l in [l for l in fr.locals if l not in live[d]]:
                del fr.locals[l]
        for k in [k for k in st.heap if k not in heap]:
            del st.heap[k]
        if hasattr(self.spec, "abstract"):
            self.spec.abstract(self, st)
            slots, live, heap = self.live_values(st)
        if before:
            before(slots + [(("S",), st.spec)])
        refs = []
        for _, v in slots:
            fold.nodes_in(v, refs)
        fold.nodes_in(st.spec, refs)
        for f, s in st.forests.items():
            for x, v in s.dw.items():
                if isinstance(v, tuple):
                    fold.nodes_in(v, refs)
        mapping = {}
        olddw = []
        for f in sorted(st.forests):
            s = st.forests[f]
            named = [n for (g, n) in refs if g == f]
            extra = [v for v in s.w.values() if v != NONE]
            for q in s.ch:
                for it in s.ch[q]:
                    for a in (it[2:3] if it[0] == "g" else it[3:6] if it[0] == "v" else ()):
                        extra += [v for _, v in a[1] if v != NONE]
            keep = set(named) | set(extra)
            fold.fold_shape(s, keep)
            order = []
            for n in named + sorted(extra):
                if n in s.kind and n not in order:
                    order.append(n)
            # newly pushed nodes are named by push order
            t, m = fold.rename_shape(s, order)
            st.forests[f] = t
            olddw.append((t, m, s.dw))
            for a, b in m.items():
                mapping[at(f, a)] = at(f, b)
        for t, m, dw in olddw:
            for x, v in dw.items():
                t.dw[m[x]] = fold.rewrite(v, mapping)
        for fr in st.frames:
            for l in fr.locals:
                fr.locals[l] = fold.rewrite(fr.locals[l], mapping)
        for k in st.heap:
            st.heap[k] = fold.rewrite(st.heap[k], mapping)
        st.spec = fold.rewrite(st.spec, mapping)
        return mapping

    def client(self, st):
        """is the loop at hand one of the client program's"""
        fn = self.fns[st.frames[-1].body.id]
        return fn.get("crate") == "vpharness" and "::rt" not in fn["path"]

    def loop_head(self, st):
        self.stats["loop_heads"] += 1
        client = self.client(st)
        seen = {}

        def before(slots):
            if client:
                return
            seen["new"] = rank.leaves(slots)
            if hasattr(self.spec, "quantities"):
                seen["new"].update(self.spec.quantities(st, slots))
            if st.since:
                seen["moves"] = rank.moves(st, st.since[-1][1], seen["new"], getattr(self.spec, "compare", None))
        if self.round_cap is not None and not client:
            if self.cost.get("amortised") and st.ops:
                st.rounds = 0
            else:
                st.rounds += 1
            if st.rounds > self.round_cap:
                raise Violation("cost", "one call can make any number of rounds of a loop (more than %d without moving an "
                                        "element of a container)" % self.round_cap)
        # data overwrites keep their values through renaming
        mapping = self.canonical(st, before)
        key = self.key(st)
        known = key in self.visited
        k = self.visited.setdefault(key, len(self.visited))
        if client:
            st.since, st.rounds = (), 0
        else:
            self.passed(st, k, seen, mapping)
        if known:
            self.stats["joins"] += 1
            return False
        if self.alike is not None and not client:
            like = (tuple((fr[0], fr[1], masked(fr[2])) for fr in key[0]), key[1], masked(key[2]), key[3])
            st.rep = self.alike[like] = self.alike.get(like, 0) + 1
        n = max((len(s.kind) for s in st.forests.values()), default=0)
        if n > self.stats["max_nodes"]:
            self.stats["max_nodes"] = n
        if n > 40:
            raise Unsupported("abstract forest grows without bound")
        return True

    def passed(self, st, k, seen, mapping):
        """records how the call came from the last loop head to this one, for rank.py"""
        def now(t):
            if t[1] is not None and t[1][0] == "#":
                refs = []
                fold.nodes_in(t[1][1], refs)
                return (t[0], ("#", fold.rewrite(t[1][1], mapping)) if all(at(*r) in mapping for r in refs) else None)
            v = None if t[1] is None else mapping.get(at(*t[1]))
            return (t[0], None if v is None else (v[1], v[2]))
        new = {p: now(t) for p, t in seen["new"].items()}
        if st.since:
            k0, _, cnt = st.since[-1]
            self.edges.add((k0, k, seen["moves"], st.cnt[0] - cnt[0], st.cnt[1] - cnt[1], st.ops > 0))
        hist = [(k0, {p: now(t) for p, t in lv.items()}, cnt) for k0, lv, cnt in st.since]
        for k0, lv, cnt in hist:
            if k0 == k and cnt == st.cnt and lv == new and (not hasattr(self.spec, "abstract") or hasattr(self.spec, "quantities")):
                raise Violation("diverges", "the call comes back to the same state for ever", self.OUTCOMES)
        st.since = tuple(hist[-5:]) + ((k, new, st.cnt),)
        st.ops = 0

    OUTCOMES = ("effect", "value", "rejection", "dead-accepted", "safe")

    def unbounded(self):
        """loop heads where one call may make any number of rounds (moving no element of a container)"""
        es = [e for e in self.edges if not (self.cost.get("amortised") and e[5])]
        heads = set()
        names = {k: key for key, k in self.visited.items()}
        for comp in rank.sccs({e[0] for e in es} | {e[1] for e in es}, es):
            for e in es:
                if e[0] in comp and e[1] in comp:
                    heads.add("%s block %d" % (self.fns[names[e[0]][0][-1][0]]["path"], names[e[0]][0][-1][1]))
        return sorted(heads)

    def termination(self):
        """what keeps the loops from being shown to terminate"""
        bad, ranked = rank.unranked(self.edges)
        names = {k: key for key, k in self.visited.items()}
        out = []
        for es in bad:
            where = sorted({"%s block %d" % (self.fns[names[e[0]][0][-1][0]]["path"], names[e[0]][0][-1][1]) for e in es})
            out.append("no measure found for the loop at " + "; ".join(where[:3]))
        return sorted(set(out)), ranked

    def key(self, st):
        fr = tuple((f.body.id, f.blk, tuple(sorted(f.locals.items(), key=lambda kv: kv[0]))) for f in st.frames)
        sh = tuple((f, shape_key(s)) for f, s in sorted(st.forests.items()))
        hp = tuple(sorted(st.heap.items(), key=lambda kv: repr(kv[0])))
        return (fr, sh, hp, st.spec, st.panic[0] if st.panic else None, st.ex, st.rounds)


def masked(v):
    """a value without its integers"""
    if isinstance(v, tuple):
        return tuple(masked(x) for x in v)
    return "#" if isinstance(v, int) and not isinstance(v, bool) and v > 15 else v


def shape_key(s):
    def it(x):
        if x[0] == "g":
            return ("g", x[2])
        if x[0] == "v":
            return ("v", x[2:])
        return x
    return (tuple(sorted(s.kind.items())),
            tuple(sorted((k, v) for k, v in s.up.items() if True)) if False else
            tuple((k, s.up[k]) for k in sorted(s.up)),
            tuple((k, tuple(it(x) for x in s.ch[k])) for k in sorted(s.ch)),
            tuple(sorted(s.w.items())),
            tuple((k, s.dw[k]) for k in sorted(s.dw)),
            s.kN, s.kD, tuple(sorted(s.newidx.items())),
            tuple((k, s.marks[k]) for k in sorted(s.marks)), tuple(sorted(s.rel.items())))


def short(o):
    t = str(o)
    return t if len(t) < 60 else t[:57] + "..."


class Spec:
    name = "?"

    def on_end(self, I, st, kind, val):
        pass

    def on_write(self, I, st, f, n, todo):
        pass

    def on_data_write(self, I, st, f, n, val):
        pass

    def before_fold(self, I, st):
        return st.spec

    def split(self, I, st, f, what):
        """the cases of a case distinction: [(label, function applying it to a state)]"""
        def setter(sh):
            def go(c):
                c.forests[f] = sh
            return go
        return [(lab, setter(sh)) for lab, sh in st.forests[f].split(what)]


class PureSpec(Spec):
    name = "pure"

    def __init__(self):
        self.results = []

    def on_end(self, I, st, kind, val):
        if kind == "ret":
            if val not in self.results:
                self.results.append(val)
        else:
            self.results.append(("PANIC",))
