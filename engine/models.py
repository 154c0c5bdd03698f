"""Meanings of the functions the interpreter does not enter: std containers, panics,
formatting and the harness intrinsics.  A model returns a value, or ('PANIC', msg),
or ('INVOKE', fnid, args)."""
import re
from interp import Choose, Violation, Prune, Unsupported, UNIT, at, is_at
from shape import NONE, ROOT, FLOAT, FIELDS, NeedSplit

RULES = []


def model(pat):
    rx = re.compile(pat)

    def deco(f):
        RULES.append((rx, f))
        return f
    return deco


CALL_MODELS = {}


def lookup(f):
    p = f["path"]
    if f.get("intrinsic"):
        m = INTRINSICS.get(f["intrinsic"])
        if m:
            return m
    for rx, fn in RULES:
        if rx.search(p):
            return fn
    return None


INTRINSICS = {}


def intrinsic(n):
    def deco(f):
        INTRINSICS[n] = f
        return f
    return deco


def ctor(I, fid, args):
    """tuple struct / variant constructors used as functions"""
    ty = I.fns[fid].get("ret")
    if ty is None or not I.adt(ty):
        return None
    p = I.fns[fid]["path"]
    while True:                      # drop generic arguments, keep the last segment
        q = re.sub(r"(::)?<[^<>]*>", "", p)
        if q == p:
            break
        p = q
    last = p.split("::")[-1]
    vs = I.types[ty]["v"]
    for vi, v in enumerate(vs):
        if len(v[2]) == len(args) and (v[0] == last or (len(vs) == 1 and I.types[ty]["name"].split("::")[-1] == last)):
            return ("A", ty, vi, tuple(args))
    return None


# ------------------------------------------------------------------ integers
def int_cast(I, st, v, sty, dty):
    t = I.types[dty]
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        if t["k"] == "int":
            v &= (1 << t["bits"]) - 1
            if t.get("signed") and v >> (t["bits"] - 1):
                v -= 1 << t["bits"]
        return v
    s = I.types[sty]
    if hasattr(I.spec, "num_cast"):
        r = I.spec.num_cast(I, st, v, s, t)
        if r is not None:
            return r
    if t["k"] == "int" and s["k"] == "int" and t["bits"] >= s["bits"] and not s.get("signed"):
        return v
    if isinstance(v, tuple) and v[0] == "ord":
        return v[1]
    return ("cast", t["bits"], v)


def transmute(I, st, v, sty, dty):
    if isinstance(v, tuple) and v[0] == "NZ":
        return v[1]
    t = I.types[dty]
    if isinstance(v, int):
        return v
    if isinstance(v, tuple) and v[0] in ("R",):
        return v
    if I.types[sty].get("k") == "array" and t.get("k") == "array":
        return v
    if I.transparent(dty) or I.transparent(sty):
        return v
    raise Unsupported("transmute to " + t["d"])


def ptr_cast(I, st, v, sty, dty):
    """a pointer to a slice or array, cast to a pointer to an element, points to the first one"""
    if isinstance(v, tuple) and v[0] == "R" and sty is not None:
        a, b = I.types[sty].get("e"), I.types[dty].get("e")
        if a is not None and b is not None:
            ka, kb = I.types[a].get("k"), I.types[b].get("k")
            if ka in ("array", "slice") and kb not in ("array", "slice") and I.types[a].get("e") is not None:
                return ("R", v[1], v[2] + (0,))
            if kb in ("array", "slice") and ka not in ("array", "slice"):
                if v[2] and v[2][-1] == 0:
                    return ("R", v[1], v[2][:-1])
                raise Unsupported("pointer cast to " + I.types[dty]["d"])
    return v


def term_cmp(I, st, op, a, b):
    """comparisons of symbolic integers not covered by the index terms"""
    return I.spec.term_cmp(I, st, op, a, b) if hasattr(I.spec, "term_cmp") else None


def arith(I, st, op, a, b, ty):
    if op == "Offset" and isinstance(a, tuple) and a[0] == "R" and isinstance(b, int) and a[2] \
            and isinstance(a[2][-1], int) and a[1][0] not in ("N", "VS"):
        return ("R", a[1], a[2][:-1] + (a[2][-1] + b,))
    t = I.types[ty] if ty is not None else {"bits": 64}
    if isinstance(a, int) and isinstance(b, int):
        m = 1 << t.get("bits", 64)
        f = {"Add": a + b, "AddUnchecked": a + b, "Sub": a - b, "SubUnchecked": a - b,
             "Mul": a * b, "BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}
        if op in f:
            return f[op] % m
        if op in ("Shl", "ShlUnchecked"):
            return (a << (b % t.get("bits", 64))) % m
        if op in ("Shr", "ShrUnchecked"):
            return a >> (b % t.get("bits", 64))
        if op in ("Div", "Rem") and b:
            return a // b if op == "Div" else a % b
    r = I.spec.arith(I, st, op, a, b, t) if hasattr(I.spec, "arith") else None
    if r is None:
        r = index_arith(I, st, op.replace("Unchecked", ""), a, b, t)
    if r is not None:
        return r
    raise Unsupported("arithmetic %s on %s, %s" % (op, a, b))


def index_arith(I, st, op, a, b, t):
    """indices and arena lengths: complement, and a small constant added ("off", x, c)"""
    m = (1 << t.get("bits", 64)) - 1
    isx = lambda x: isinstance(x, tuple) and x and x[0] in ("idx", "len")
    sym = lambda x: isx(x) or isinstance(x, tuple) and x and x[0] in ("not", "off", "dp", "M")
    if op in ("BitXor", "Sub") and a == m and sym(b) or op == "BitXor" and b == m and sym(a):
        return I.norm(st, ("not", b if a == m else a))
    if op == "Add" and isinstance(a, int):
        a, b = b, a
    if isinstance(b, int) and b == 0 and op in ("Add", "Sub", "BitXor", "BitOr") and sym(a):
        return a
    if isinstance(b, int) and op in ("Add", "Sub") and (isx(a) or a[0] == "off" and isx(a[1])):
        c = (a[2] if a[0] == "off" else 0) + (b if op == "Add" else -b)
        x = a[1] if a[0] == "off" else a
        if 0 <= c <= 1:
            return ("off", x, c) if c else x
    return None


def checked(I, st, op, a, b, ty):
    t = I.types[ty]
    if isinstance(a, int) and isinstance(b, int):
        x = {"Add": a + b, "Sub": a - b, "Mul": a * b}[op]
        m = 1 << t["bits"]
        return ("T", (x % m, not (0 <= x < m)))
    r = I.spec.checked(I, st, op, a, b, t) if hasattr(I.spec, "checked") else None
    if r is not None:
        return r
    r = index_arith(I, st, op, a, b, t)
    if r is not None:
        over = False
        if r[0] == "off" and r[1][0] == "len" and op == "Add" and r[1][2] >= st.forests[r[1][1]].kN:
            over = I.exhausted(st)
        return ("T", (r, over))
    raise Unsupported("checked %s on %s, %s" % (op, a, b))


def neg(I, st, v):
    raise Unsupported("neg")


def switch_value(I, st, v, targets):
    if isinstance(v, tuple):
        if v[0] == "ord":
            return v[1]
        if v[0] == "?":
            return I.choose(st, v, tuple(sorted({t[0] for t in targets} | {0, 1})))
        for t in targets:
            if I.term_eq(st, v, t[0]):
                return t[0]
        return max([t[0] for t in targets] + [0]) + 12345
    raise Unsupported("switch on %s" % (v,))


# ------------------------------------------------------------------ vectors
def deref_all(I, st, v):
    """the (root,path) a reference denotes"""
    if isinstance(v, tuple) and v[0] in ("R", "B"):
        return v[1], v[2]
    raise Unsupported("not a reference: %s" % (v if not isinstance(v, tuple) else v[0],))


def vec_of(I, st, ref):
    """what kind of vector a &Vec or &[T] denotes: ('vec',kind,f) or ('GV',..) with location"""
    root, path = deref_all(I, st, ref)
    if root[0] == "VS":
        return root[1], None
    v = I.read(st, root, path)
    return v, (root, path)


def ret_ty(I, fid):
    """return type of a function, if known"""
    f = I.fns[fid]
    return f.get("ret")


def slice_len(I, st, v):
    if v[0] == "S":
        return len(v[1].encode()) if isinstance(v[1], str) else ("slen", v[1])
    r = I.spec.slice_length(I, st, v) if hasattr(I.spec, "slice_length") else None
    if r is not None:
        return r
    vec, loc = vec_of(I, st, v)
    return vec_len(I, st, vec)


def vec_len(I, st, vec):
    if vec[0] == "vec":
        s = st.forests[vec[2]]
        return I.norm(st, ("len", vec[2], s.kN if vec[1] == "N" else s.kD))
    if vec[0] == "Y" or vec[0] == "GV":
        return len(vec[1])
    if vec[0] == "AV":
        return I.spec.av_len(I, st, vec)
    raise Unsupported("len of %s" % vec[0])


def slice_elem(I, st, root, path, idx):
    """place of element idx of an arena slice; panics are separate"""
    vec = root[1]
    r = elem_ref(I, st, vec, None, idx)
    if r is None:
        raise Unsupported("unchecked slice index")
    return r[1], r[2]


def elem_ref(I, st, vec, loc, idx):
    if vec[0] == "vec":
        idx = I.norm(st, idx)
        f = vec[2]
        s = st.forests[f]
        k = s.kN if vec[1] == "N" else s.kD
        if isinstance(idx, tuple) and idx[0] == "idx":
            if idx[1][1] != f:
                idx = foreign_index(I, st, idx, f)
            if I.in_range(st, idx, k):
                return ("R", (vec[1], idx[1]), ())
            return None
        if isinstance(idx, tuple) and idx[0] == "len" and idx[1] == f:
            if idx[2] < k:
                raise Unsupported("index of an unnamed new node")
            return None
        if isinstance(idx, int) or isinstance(idx, tuple):
            raise Unsupported("arena indexed by %s" % (idx,))
    if vec[0] in ("GV", "Y") and isinstance(idx, int):
        if idx < len(vec[1]):
            if loc is None:
                return ("R", ("V", vec[1][idx]), ())
            return ("R", loc[0], loc[1] + (idx,))
        return None
    raise Unsupported("element of %s" % vec[0])


def foreign_index(I, st, idx, f):
    """an id of another forest used here: it may be the index of any node or none"""
    raise Violation("effect", "an id of forest %s is used in forest %s" % (idx[1][1], f))


def opt_of(I, fid, val):
    """build Option<&T>/Option<T> of the function's return type"""
    ty = I.fns[fid].get("ret")
    if ty is None:
        raise Unsupported("return type of " + I.fns[fid]["path"])
    return I.none(ty) if val is None else I.some(ty, val)


@model(r"^<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$|^std::vec::Vec::<T, A>::as_(mut_)?slice$")
def m_deref(I, st, fid, a, sp):
    vec, loc = vec_of(I, st, a[0])
    if vec[0] == "vec":
        return ("R", ("VS", vec), ())
    return a[0]


@model(r"^std::vec::Vec::<T, A>::len$|^core::slice::<impl \[T\]>::len$")
def m_len(I, st, fid, a, sp):
    return slice_len(I, st, a[0])


@model(r"^std::vec::Vec::<T, A>::is_empty$|^core::slice::<impl \[T\]>::is_empty$")
def m_is_empty(I, st, fid, a, sp):
    n = slice_len(I, st, a[0])
    if isinstance(n, int):
        return n == 0
    if n[0] == "len" and n[2] == 0:
        s = st.forests[n[1]]
        if any(k in ("a", "d") for k in s.kind.values()):
            return False
        return I.choose(st, ("empty",), (True, False))
    return False


@model(r"^core::slice::<impl \[T\]>::get(_mut)?$")
def m_get(I, st, fid, a, sp):
    vec, loc = vec_of(I, st, a[0])
    return opt_of(I, fid, elem_ref(I, st, vec, loc, a[1]))


@model(r"^<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$|^core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$")
def m_index(I, st, fid, a, sp):
    vec, loc = vec_of(I, st, a[0])
    r = elem_ref(I, st, vec, loc, a[1])
    if r is None:
        return ("PANIC", "index out of bounds")
    return r


@model(r"^core::slice::<impl \[T\]>::get_unchecked(_mut)?$")
def m_get_unchecked(I, st, fid, a, sp):
    vec, loc = vec_of(I, st, a[0])
    if not isinstance(a[1], int) and not (isinstance(a[1], tuple) and a[1][0] in ("idx", "len")):
        raise Unsupported("unchecked slicing")
    r = elem_ref(I, st, vec, loc, a[1])
    if r is None:
        raise Unsupported("unchecked slice index")
    return r


@model(r"PartialDrop.*::partial_drop$")
def m_partial_drop(I, st, fid, a, sp):
    root, path = deref_all(I, st, a[0])
    if "'K'" in repr(I.read(st, root, path)):
        raise Unsupported("array of user data dropped")
    return UNIT


@intrinsic("ptr_offset_from_unsigned")
def i_pofu(I, st, fid, a, sp):
    x, y = a
    if x[0] == y[0] == "R" and x[1] == y[1] and x[2][:-1] == y[2][:-1]:
        return x[2][-1] - y[2][-1]
    raise Unsupported("pointer difference")


INTRINSICS["ptr_offset_from"] = i_pofu


@intrinsic("arith_offset")
def i_aoff(I, st, fid, a, sp):
    return arith(I, st, "Offset", a[0], a[1], None)


INTRINSICS["offset"] = i_aoff


@model(r"^std::vec::Vec::<T, A>::push$")
def m_push(I, st, fid, a, sp):
    vec, loc = vec_of(I, st, a[0])
    if vec[0] == "GV":
        I.write(st, loc[0], loc[1], ("GV", vec[1] + (a[1],)))
        return UNIT
    if vec[0] != "vec":
        raise Unsupported("push to " + vec[0])
    f = vec[2]
    s = st.forests[f]
    k = s.kN if vec[1] == "N" else s.kD
    n = s.newidx.get(k)
    if n is None:
        # an out-of-range id could be exactly the index assigned now
        olds = [x for x, kd in s.kind.items() if kd == "o"]
        pick = I.choose(st, ("new node is", f, k), tuple([None] + olds)) if olds else None
        if vec[1] == "N":
            info = I.finfo[f]
            new = pick if pick is not None else s.uid()
            val = a[1]
            from fold import rewrite
            todo = {}
            # links to the node itself are ('len',f,k) terms inside ids
            s2kind = s.kind.get(new)
            s.kind[new] = "n"
            s.newidx[k] = new
            s.kN += 1
            try:
                for i, fld in info["fields"].items():
                    v = normalise_ids(I, st, val[3][i])
                    todo[fld] = I.opt_id_decode(f, v)
            except Exception:
                s.kN -= 1
                del s.newidx[k]
                if s2kind is None:
                    del s.kind[new]
                else:
                    s.kind[new] = s2kind
                raise
            for fld, v in todo.items():
                s.w[(new, fld)] = v
            I.spec.on_push(I, st, f, new, "N")
            return UNIT
        new = pick if pick is not None else s.uid()
        s.kind[new] = "n"
        s.newidx[k] = new
        s.kD += 1
        st.cnt = (st.cnt[0], st.cnt[1] + 1)
        s.dw[new] = a[1]
        I.spec.on_push(I, st, f, new, "D")
        return UNIT
    if vec[1] == "N":
        info = I.finfo[f]
        for i, fld in info["fields"].items():
            s.w[(n, fld)] = I.opt_id_decode(f, normalise_ids(I, st, a[1][3][i]))
        s.kN += 1
    else:
        s.dw[n] = a[1]
        s.kD += 1
        st.cnt = (st.cnt[0], st.cnt[1] + 1)
    I.spec.on_push(I, st, f, n, vec[1])
    return UNIT


def normalise_ids(I, st, v):
    if isinstance(v, tuple):
        if v and v[0] in ("len", "not", "off") and len(v) in (2, 3) and not is_at(v):
            return I.norm(st, v)
        return tuple(normalise_ids(I, st, e) if isinstance(e, tuple) else e for e in v)
    return v


@model(r"^std::vec::Vec::<T>::new$|^std::vec::Vec::<T>::with_capacity$|^std::vec::Vec::<T, A>::with_capacity_in$|^<std::vec::Vec<T> as std::default::Default>::default$")
def m_vec_new(I, st, fid, a, sp):
    return ("GV", ())


@model(r"^std::vec::Vec::<T, A>::(pop|pop_if|truncate|clear|swap_remove|remove|drain|retain|retain_mut|split_off|dedup.*|set_len)$")
def m_vec_shrink(I, st, fid, a, sp):
    vec, loc = vec_of(I, st, a[0])
    name = I.fns[fid]["path"].split("::")[-1]
    if vec[0] == "vec":
        raise Violation("ids", "`%s` takes slots out of the arena, so that their ids are issued again" % name)
    if vec[0] == "GV" and name == "pop":
        if not vec[1]:
            return opt_of(I, fid, None)
        I.write(st, loc[0], loc[1], ("GV", vec[1][:-1]))
        return opt_of(I, fid, vec[1][-1])
    if vec[0] == "GV" and name == "clear":
        I.write(st, loc[0], loc[1], ("GV", ()))
        return UNIT
    raise Unsupported("%s of %s" % (name, vec[0]))


@model(r"^core::slice::<impl \[T\]>::last(_mut)?$")
def m_last(I, st, fid, a, sp):
    vec, loc = vec_of(I, st, a[0])
    if vec[0] != "vec":
        n = len(vec[1])
        return opt_of(I, fid, elem_ref(I, st, vec, loc, n - 1) if n else None)
    f = vec[2]
    s = st.forests[f]
    k = s.kN if vec[1] == "N" else s.kD
    if k:
        return opt_of(I, fid, ("R", (vec[1], at(f, s.newidx[k - 1])), ()))
    # nothing is known about which slot is the last one
    opts = [x for x, kd in sorted(s.kind.items()) if kd in ("a", "d")]
    x = I.choose(st, ("last slot",), tuple(opts + ["alive", "dead"] + ([] if opts else ["none"])))
    if x == "none":
        return opt_of(I, fid, None)
    if x in ("alive", "dead"):
        x = s.fresh("a" if x == "alive" else "d")
    return opt_of(I, fid, ("R", (vec[1], at(f, x)), ()))


@model(r"^std::vec::Vec::<T, A>::(reserve|shrink_to_fit|reserve_exact)$")
def m_vec_reserve(I, st, fid, a, sp):
    return UNIT


# ------------------------------------------------------------------ NonZero
@model(r"^std::num::NonZero::<T>::get$")
def m_nz_get(I, st, fid, a, sp):
    v = a[0]
    if v[0] != "NZ":
        raise Unsupported("NonZero value %s" % v[0])
    return v[1]


@model(r"^std::num::NonZero::<T>::new$")
def m_nz_new(I, st, fid, a, sp):
    t = I.norm(st, a[0])
    if isinstance(t, int):
        z = t == 0
    elif t[0] in ("not", "off") and isinstance(t[1], tuple) and t[1][0] == "idx":
        z = False                    # an index of a live id is never usize::MAX
    elif t[0] in ("not", "off") and isinstance(t[1], tuple) and t[1][0] == "len":
        # the arena may already hold as many nodes as ids exist
        z = I.exhausted(st)
    else:
        z = I.term_eq(st, t, 0)
    return opt_of(I, fid, None if z else ("NZ", t))


@model(r"^std::num::NonZero::<T>::new_unchecked$")
def m_nz_newu(I, st, fid, a, sp):
    return ("NZ", a[0])


# ------------------------------------------------------------------ memory
@model(r"^std::mem::(replace|take)$")
def m_replace(I, st, fid, a, sp):
    if len(a) == 1:
        return None_model(I, st, fid, a)
    root, path = deref_all(I, st, a[0])
    old = I.read(st, root, path)
    I.write(st, root, path, a[1])
    return old


def None_model(I, st, fid, a):
    ty = I.fns[fid].get("ret")
    root, path = deref_all(I, st, a[0])
    old = I.read(st, root, path)
    if I.adt(ty) and I.adt(ty)["name"].endswith("Option"):
        I.write(st, root, path, I.none(ty))
        return old
    if isinstance(old, tuple) and old and old[0] == "Q":
        I.write(st, root, path, ("Q", ()))
        return old
    raise Unsupported("mem::take")


@model(r"^std::option::Option::<T>::take$")
def m_opt_take(I, st, fid, a, sp):
    root, path = deref_all(I, st, a[0])
    old = I.read(st, root, path)
    I.write(st, root, path, I.none(I.fns[fid]["ret"]))
    return old


@model(r"^std::mem::forget$")
def m_forget(I, st, fid, a, sp):
    return UNIT


@model(r"^std::option::Option::<T>::replace$")
def m_opt_replace(I, st, fid, a, sp):
    root, path = deref_all(I, st, a[0])
    old = I.read(st, root, path)
    I.write(st, root, path, I.some(I.fns[fid]["ret"], a[1]))
    return old


@intrinsic("discriminant_value")
def i_discr(I, st, fid, a, sp):
    root, path = deref_all(I, st, a[0])
    v = I.read(st, root, path)
    return I.types[v[1]]["v"][v[2]][1]


@intrinsic("black_box")
def i_bb(I, st, fid, a, sp):
    return a[0]


@intrinsic("cold_path")
def i_cold(I, st, fid, a, sp):
    return UNIT


for _n in ("assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "assume"):
    INTRINSICS[_n] = lambda I, st, fid, a, sp: UNIT


@intrinsic("likely")
def i_likely(I, st, fid, a, sp):
    return a[0]


@intrinsic("unlikely")
def i_unlikely(I, st, fid, a, sp):
    return a[0]


@intrinsic("read_via_copy")
def i_rvc(I, st, fid, a, sp):
    root, path = deref_all(I, st, a[0])
    return I.read(st, root, path)


@intrinsic("write_via_move")
def i_wvm(I, st, fid, a, sp):
    root, path = deref_all(I, st, a[0])
    I.write(st, root, path, a[1])
    return UNIT


# ------------------------------------------------------------------ panics
def text_of(v):
    if isinstance(v, tuple):
        if v[0] == "S":
            return v[1] if isinstance(v[1], str) else "?"
        if v[0] == "FA":
            return v[1]
        if v[0] == "A":
            for x in v[3]:
                t = text_of(x)
                if t:
                    return t
        if v[0] == "R" and v[1][0] == "V":
            return text_of(v[1][1])
    return ""


@model(r"^std::fmt::Arguments::<'a>::from_str(_nonconst)?$")
def m_fa(I, st, fid, a, sp):
    return ("FA", text_of(a[0]), ())


@model(r"^core::fmt::rt::Argument::<'_>::new_\w+$")
def m_fmtarg(I, st, fid, a, sp):
    return ("ARG", I.fns[fid]["path"].split("::")[-1], a[0], fid)


@model(r"^(std|core)::fmt::Arguments::<'a>::new\w*$")
def m_fmtargs(I, st, fid, a, sp):
    return ("FA", text_of(deref_text(I, st, a[0])) or "formatted message", tuple(a))


@model(r"^std::rt::panic_fmt$|^core::panicking::panic_fmt$|^std::rt::begin_panic$|^core::panicking::panic(_explicit|_display|_str_2015|_nounwind|_const::.*)?$|^std::option::expect_failed$|^std::rt::panic_display$|^core::panicking::unreachable_display$")
def m_panic(I, st, fid, a, sp):
    t = ""
    for x in a:
        t = t or text_of(deref_text(I, st, x))
    return ("PANIC", t or I.fns[fid]["path"])


def deref_text(I, st, x):
    if isinstance(x, tuple) and x[0] == "R" and x[1][0] in ("L", "O", "V"):
        return deref_text(I, st, I.read(st, x[1], x[2]))
    return x


@model(r"^std::option::unwrap_failed$|^std::result::unwrap_failed(::unwrap_failed_inner)?$")
def m_unwrap_failed(I, st, fid, a, sp):
    t = ""
    for x in a:
        t = t or text_of(deref_text(I, st, x))
    return ("PANIC", t or "unwrap failed")


@model(r"^core::panicking::assert_failed")
def m_assert_failed(I, st, fid, a, sp):
    t = ""
    for x in a[1:]:
        t = t or text_of(deref_text(I, st, x))
    return ("PANIC", t or "assertion failed")


@model(r"^std::intrinsics::integer_(max|min)(::<\w+>)?$")
def m_max_min(I, st, fid, a, sp):
    unsigned(I, fid)
    less = I.term_lt(st, a[0], a[1])
    return a[1] if less == ("_max" in I.fns[fid]["path"]) else a[0]


@model(r"^std::intrinsics::saturating_(add|sub)(::<\w+>)?$")
def m_saturating(I, st, fid, a, sp):
    t = unsigned(I, fid)
    sub = "_sub" in I.fns[fid]["path"]
    v, over = checked(I, st, "Sub" if sub else "Add", a[0], a[1], I.fns[fid]["ret"])[1]
    return v if not over else 0 if sub else (1 << t["bits"]) - 1


def unsigned(I, fid):
    t = I.types[I.fns[fid]["ret"]]
    if t.get("signed") or "bits" not in t:
        raise Unsupported("signed arithmetic")
    return t


@model(r"^core::panicking::panic_bounds_check$|^core::slice::index::.*_fail$|^std::option::Option::<T>::unwrap_failed$")
def m_bounds(I, st, fid, a, sp):
    return ("PANIC", "index out of bounds")


# ------------------------------------------------------------------ harness intrinsics
@model(r"^vpharness::vp::choose2$")
def v_choose2(I, st, fid, a, sp):
    return I.choose(st, ("choose",), (True, False))


@model(r"^vpharness::vp::choose$")
def v_choose(I, st, fid, a, sp):
    return I.choose(st, ("call number",), tuple(range(a[0])))


@model(r"^vpharness::vp::obs$")
def v_obs(I, st, fid, a, sp):
    I.spec.on_obs(I, st, a[0][1], a[1])
    return UNIT


@model(r"^vpharness::vp::check$")
def v_check(I, st, fid, a, sp):
    I.spec.on_check(I, st, a[0][1])
    return UNIT


@model(r"^vpharness::vp::(hook|hook2)$")
def v_hook(I, st, fid, a, sp):
    out = I.choose(st, ("the callback",), ("returns", "panics")) if I.spec.hook_may_panic else "returns"
    I.spec.on_hook(I, st, a, out)
    if out == "panics":
        return ("PANIC", "<callback panic>")
    return UNIT


@model(r"^vpharness::vp::array_new(::<.*>)?$")
def v_array_new(I, st, fid, a, sp):
    return ("Y", ())


@model(r"^vpharness::vp::array_push(::<.*>)?$")
def v_array_push(I, st, fid, a, sp):
    _, root, path = a[0]
    I.write(st, root, path, ("Y", I.read(st, root, path)[1] + (a[1],)))
    return UNIT


@intrinsic("typed_swap_nonoverlapping")
def i_swap(I, st, fid, a, sp):
    x, y = (I.read(st, r[1], r[2]) for r in a)
    I.write(st, a[0][1], a[0][2], y)
    I.write(st, a[1][1], a[1][2], x)
    return UNIT


@model(r"^vpharness::vp::tok_new$")
def v_tok_new(I, st, fid, a, sp):
    return I.tok(I.fns[fid]["ret"], ("new",))


@model(r"^vpharness::vp::tok_drop$")
def v_tok_drop(I, st, fid, a, sp):
    root, path = deref_all(I, st, a[0])
    v = I.read(st, root, path)
    I.spec.on_tok_drop(I, st, v)
    return UNIT


@model(r"^vpharness::vp::tok_clone$")
def v_tok_clone(I, st, fid, a, sp):
    root, path = deref_all(I, st, a[0])
    v = I.read(st, root, path)
    out = I.choose(st, ("the clone of a datum",), ("returns", "panics")) if I.spec.clone_may_panic else "returns"
    r = I.spec.on_tok_clone(I, st, v, fid)
    return ("PANIC", "<callback panic>") if out == "panics" else r


def drop_model(I, st, fid, ty, place):
    """drops of containers: nothing to observe in them"""
    a = I.adt(ty)
    if a and (a["name"].endswith("Vec") or a["name"].endswith("VecDeque") or a["name"].endswith("RawVec")):
        e = I.types[I.vec_elem(ty)]
        return True
    return False
