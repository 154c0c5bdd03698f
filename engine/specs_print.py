"""Debug printing: the text written to the sink, followed character by character.

 The sink's text must be, for the nodes of the subtree in preorder: the node's text, its lines preceded by one
 four-character piece per level below the start: "|-- " or "`-- " (last child) for the node itself on its first
 line, "|   " or "    " otherwise; whitespace at the end of a line without text may be missing.

 Texts of data are arbitrary: a chunk is a row of atoms L (characters other than the newline, at least one),
 N (a newline), R (anything, not looked at yet); where the program looks at characters, an L is split into
 ("c", set): one character of a set of kinds of characters, and ("l", set): one or more of them.
 Strings are ("TX", i, j), byte counts ("so", i, j): what lies between two boundaries of the atoms; ("ch", i, i+1) is
 the character there.
 A vector with one element per level is ("PV", end, (value for last children, value for others), tail): one
 element for each node on the path from below the start to `end`, then the explicit elements of tail.  Slices of it are
 ("R", ("PS", vector, lo, hi), ()), their iterators ("SI", vector, lo, hi), with bounds counted as depths."""
import itertools
import re
from fractions import Fraction
from interp import Violation, Prune, Unsupported, UNIT, at, is_at
from models import opt_of, deref_all
from shape import NeedSplit, NONE, CLEAN, EMPTY
from specs import FID, KINDS, new_node
from specs_iter import ReadOnly
from specs_depth import Depth

SINK = ("keep", "sink")
# kinds of characters: each ASCII character but the newline; others by width and whether they are whitespace
ASCII = sum(1 << k for k in range(128) if k != 10)
WS2, WS3, O2, O3, O4 = (1 << k for k in range(128, 133))
ALL = ASCII | WS2 | WS3 | O2 | O3 | O4
WS = sum(1 << k for k in (9, 11, 12, 13, 32)) | WS2 | WS3
WIDTHS = ((1, ASCII), (2, WS2 | O2), (3, WS3 | O3), (4, O4))
E = "E"
FIELDS = ("top", "cur", "sub", "phase", "q", "off", "fresh", "first", "w", "text", "nx", "marks")
PIECES = {(True, True): "`-- ", (False, True): "|-- ", (True, False): "    ", (False, False): "|   "}


def is_a(v, k):
    return isinstance(v, tuple) and bool(v) and v[0] == k


def chars_of(a):
    """the kinds of characters of an atom"""
    return ALL if a == "L" else a[1]


def is_run(a):
    return a == "L" or is_a(a, "l")


def run(S):
    return "L" if S == ALL else ("l", S)


def kind_of(ch):
    if ord(ch) >= 128:
        raise Unsupported("a character that is not ASCII")
    return 1 << ord(ch)


def width(S):
    """bytes of a character of these kinds; None if they differ"""
    w = [n for n, T in WIDTHS if S & T]
    return w[0] if len(w) == 1 else None


def cells(st):
    """how far into the text each of its boundaries is (in units of its own); no two states are told apart by it"""
    return st.mono[1] or (0,)


def set_cells(st, p):
    st.mono = (st.mono[0], p)


class Boundary(Exception):
    """a byte offset inside a character, or behind the end"""


def alternatives(v):
    return v[1] if is_a(v, "alt") else (v,)


def join_terms(out):
    """one value known in several forms"""
    flat = []
    for v in out:
        for x in alternatives(v):
            if isinstance(x, int):
                return x
            if x not in flat:
                flat.append(x)
    return flat[0] if len(flat) == 1 else ("alt", tuple(flat))


def child_towards(P, q, x):
    """the child of q that is x or above it; None if x is not below q"""
    y = x
    while isinstance(P.up[y], tuple):
        k, p = P.up[y]
        if p == q:
            if k == "v":
                P._need("via", P.ch[p][P.index_of(p, y)][1])
            return y
        y = p
    return None


def below(P, q, x):
    """is x strictly below q"""
    while isinstance(P.up[x], tuple):
        x = P.up[x][1]
        if x == q:
            return True
    return False


def climb(P, x, top, stop):
    """from x upwards over last children: the first (node, following sibling), or None at `stop`"""
    y = x
    while y != stop:
        k, p = P.up[y]
        i = P.index_of(p, y)
        if k == "v":
            R = P.ch[p][i][4]
            if R != EMPTY:
                P._need("lastpath", P.ch[p][i][1])
        c = P.ch[p]
        if i + 1 < len(c):
            if stop != top and c[i + 1][0] == "g" and c[i + 1][2][0] == "W":
                return True
            n = P.item_node(c[i + 1], "L")
            return n
        y = p
    return None




def all_last(P, q, x):
    """are all nodes on the path from below q to x last children"""
    y = x
    while y != q:                # a cheap no first
        k, p = P.up[y]
        c, i = P.ch[p], P.index_of(p, y)
        if i + 1 < len(c) and (c[i + 1][0] != "g" or c[i + 1][2][0] == "W") or k == "v" and c[i][4][0] == "W":
            return False
        y = p
    return climb(P, x, None, q) is None


class Print(Depth, ReadOnly):
    widen = None

    def has_m(self, st):
        return False

    def init(self, I):
        tys = self.argtys(I)
        for kn in KINDS:
            st, r = self.fresh_state(I, tys[0])
            n = new_node(st.forests[FID], kn[1])
            st.forests[FID].track_empty = "right"
            st.heap[SINK] = ("SINK",)
            st.spec = ("start", at(FID, n))
            st.note("%s(n%d [%s])" % (self.entry[2:], n, kn[0]))
            self.start(I, st, [r, I.mk_id(tys[1], FID, n), ("R", ("O", SINK), ())])

    # ---- the monitor
    def mon(self, st):
        if st.spec[0] == "start":
            self.alive(st)
            n = st.spec[1][2]
            return {"top": n, "cur": n, "sub": "todo", "phase": "txt", "q": n, "off": 0, "fresh": False, "first": True,
                    "w": 0, "text": None, "nx": None, "marks": ()}
        m = dict(zip(FIELDS, st.spec[1:]))
        for k in ("top", "cur", "q"):
            m[k] = m[k][2]
        return m

    def keep(self, st, m):
        st.spec = ("run",) + tuple(at(FID, m[k]) if k in ("top", "cur", "q") else m[k] for k in FIELDS)

    def ask(self, g, *a):
        return self.need(FID, g, *a)

    def following(self, P, m):
        """the node to be printed next; None at the end"""
        return m["nx"][2] if m["nx"] != "up" else self.ask(climb, P, m["cur"], m["top"], m["top"])

    def line_complete(self, P, m):
        """may the line end here: is only whitespace of its indentation missing"""
        if m["phase"] == "txt":
            return True
        q, x = m["q"], m["cur"]
        if m["first"]:
            return m["off"] == 3 and self.ask(child_towards, P, q, x) == x
        if m["off"]:
            q = self.ask(child_towards, P, q, x)
        return q == x or self.ask(all_last, P, q, x)

    def advance(self, P, m):
        y = self.following(P, m)
        if y is None:
            self.bad("text is written after the last node")
        if not m["fresh"] and not self.line_complete(P, m):
            self.bad("the indentation of n%d is left unfinished" % m["cur"])
        m.update(phase="pre" if m["fresh"] else "nl", cur=y, sub="todo", first=True, q=m["top"], off=0, fresh=False, nx=None)

    def put_char(self, P, m, ch):
        if m["sub"] == "done":
            self.advance(P, m)
        if m["phase"] == "nl":
            if ch != "\n":
                self.bad("n%d does not begin on a new line" % m["cur"])
            m["phase"] = "pre"
        elif m["phase"] == "pre":
            c = self.ask(child_towards, P, m["q"], m["cur"])
            piece = PIECES[(self.ask(P.is_last, c), m["first"] and c == m["cur"])]
            if piece[m["off"]] != ch:
                self.bad("the indentation for n%d on a line of n%d contains %r instead of %r" % (c, m["cur"], ch, piece))
            m["off"] += 1
            m["fresh"] = False
            if m["off"] == 4:
                m["q"], m["off"] = c, 0
                if c == m["cur"]:
                    m["phase"] = "txt"
        else:
            self.bad("%r is written that belongs neither to a text nor to the indentation" % ch)

    def write(self, I, st, s):
        """s arrives at the sink"""
        m = self.mon(st)
        P = st.forests[FID]
        if s[0] == "S":
            for ch in s[1]:
                self.put_char(P, m, ch)
        else:
            text = self.text(st)
            i, j = self.norm_tx(text, s[1]), self.norm_tx(text, s[2])
            if i == j:
                return
            if m["sub"] != "in" or i != self.norm_tx(text, m["w"]):
                self.bad("the text of n%d is not written in order" % m["cur"])
            if m["phase"] == "nl":
                self.bad("n%d does not begin on a new line" % m["cur"])
            for a in text[1][i:(len(text[1]) if j == E else j)]:
                if a == "R":
                    if m["cur"] != m["top"]:
                        self.split_text()
                    m["fresh"] = I.choose(st, ("the rest of the text",), (False, True))
                elif a == "N":
                    if not self.line_complete(P, m):
                        self.bad("the indentation is missing on a line of n%d" % m["cur"])
                    m.update(phase="txt" if m["cur"] == m["top"] else "pre", q=m["top"], off=0, first=False, fresh=True)
                else:
                    if m["phase"] != "txt":
                        self.bad("text of n%d is written before the indentation is complete" % m["cur"])
                    m["fresh"] = False
            m["w"] = j
        self.keep(st, m)

    def sink(self, I, st, fid, s):
        """a write to the sink: it may fail"""
        ty = I.fns[fid]["ret"]
        m = self.mon(st)
        if m["sub"] == "failed":
            self.bad("printing goes on after a failure of the sink or of a datum's formatting")
        ok = I.choose(st, ("the sink",), ("takes it", "fails")) == "takes it"
        if ok:
            self.write(I, st, s)
            self.ob(I, "written")
            return I.mk_adt(ty, "Ok", (UNIT,))
        m["sub"] = "failed"
        self.keep(st, m)
        return self.error(I, ty)

    def error(self, I, ty):
        for i, v in enumerate(I.types[ty]["v"]):
            if v[0] == "Err":
                return ("A", ty, i, (I.zst(v[2][0][1]),))
        raise Unsupported("result of the sink")

    def on_end(self, I, st, kind, val):
        n = st.spec[1][2]
        P = st.forests[FID]
        if kind == "unwind":
            if P.kind[n] == "a" or st.spec[0] != "start":
                raise Violation("panic", "printing a live node panics: %s" % self.panic_text(st, val))
            self.ob(I, "dead node rejected")
            return
        m = self.mon(st)
        if m["sub"] == "failed":
            if I.vname(val) == "Ok":
                self.bad("a failure of the sink or of a datum's formatting is not reported")
            self.ob(I, "failure reported")
            return
        if I.vname(val) != "Ok":
            self.bad("an error is reported although nothing failed")
        if m["sub"] != "done" or self.following(P, m) is not None:
            self.bad("printing ends before all nodes are printed")
        if not m["fresh"] and not self.line_complete(P, m):
            self.bad("the indentation of n%d is left unfinished" % m["cur"])
        self.ob(I, "printed")

    # ---- the data's texts
    def begin(self, I, st, y, dbg):
        m = self.mon(st)
        P = st.forests[FID]
        if dbg != self.entry.endswith("dbg"):
            self.bad("the datum is formatted with the wrong trait")
        if m["sub"] == "done":
            self.advance(P, m)
        if m["sub"] != "todo" or m["cur"] != y:
            self.bad("n%s is printed where n%d must be" % (y, m["cur"]))
        m["sub"] = "in"
        self.keep(st, m)
        self.ob(I, "datum formatted")

    def text(self, st):
        t = st.spec[FIELDS.index("text") + 1] if st.spec[0] == "run" else None
        if t is None:
            raise Unsupported("text of an earlier chunk")
        return t

    def split_text(self):
        e = NeedSplit(("text",))
        e.fid = FID
        raise e

    def norm_tx(self, text, b):
        n = len(text[1])
        return E if b != E and b == n and "R" not in text[1] else (b if b != E else E)

    def split(self, I, st, f, what):
        if what[0] == "text":
            prev, atoms = self.text(st)
            last = atoms[-2] if len(atoms) > 1 else ("L" if prev else "N")
            out = []
            for new in ((), ("N", "R")) + ((("L", "R"),) if last != "L" else ()):
                def go(c, new=new):
                    m = self.mon(c)
                    m["text"] = (prev, atoms[:-1] + new)
                    if new:
                        set_cells(c, cells(c) + (cells(c)[-1] + 1,))
                    self.keep(c, m)
                out.append(("the text goes on with %s" % {(): "nothing", ("N", "R"): "a newline", ("L", "R"): "characters"}[new], go))
            return out
        if what[0] == "atom":
            _, k, opts = what

            def put(new):
                def go(c):
                    m = self.mon(c)
                    prev, atoms = m["text"]
                    old, d = m["text"], len(new) - 1
                    sh = lambda x: x if x is None or x == E or x <= k else x + d
                    m["text"], m["w"] = (prev, atoms[:k] + new + atoms[k + 1:]), sh(m["w"])
                    p = cells(c)
                    set_cells(c, p[:k + 1] + tuple(p[k] + (p[k + 1] - p[k]) * Fraction(i, d + 1) for i in range(1, d + 1)) + p[k + 1:])
                    self.keep(c, m)
                    if d:
                        self.renumber(c, sh)
                return go
            return [("the text there: " + " ".join(tell(a) for a in new), put(new)) for new in opts]
        return super().split(I, st, f, what)

    def renumber(self, st, shift):
        """shifts the boundaries of the text in all values"""
        def go(v):
            if not isinstance(v, tuple):
                return v
            if v and v[0] in ("TX", "so", "TI", "ch"):
                return (v[0], shift(v[1]), shift(v[2])) + v[3:4] + tuple(shift(x) for x in v[4:])
            return tuple(go(e) if isinstance(e, tuple) else e for e in v)
        for fr in st.frames:
            for l in fr.locals:
                fr.locals[l] = go(fr.locals[l])
        for k in st.heap:
            if not (isinstance(k, tuple) and k[0] == "forest"):
                st.heap[k] = go(st.heap[k])

    def merge(self, st, m, used):
        """runs and characters between which no boundary is in use become one run"""
        prev, atoms = m["text"]
        char = lambda a: a not in ("N", "R")
        cut = [k for k in range(1, len(atoms)) if k not in used and char(atoms[k - 1]) and char(atoms[k])]
        if not cut:
            return
        out, at = [], {}
        for k, a in enumerate(atoms):
            if k in cut:
                out[-1] = run(chars_of(out[-1]) | chars_of(a))
            else:
                out.append(a)
            at[k + 1] = len(out)
        sh = lambda x: x if x is None or x == E or x == 0 else at[x]
        self.renumber(st, sh)
        set_cells(st, tuple(p for k, p in enumerate(cells(st)) if k not in cut))
        m["text"], m["w"] = (prev, tuple(out)), sh(m["w"])

    # -- characters
    def split_atom(self, k, opts):
        e = NeedSplit(("atom", k, tuple(opts)))
        e.fid = FID
        raise e

    def first_char(self, st, i, j):
        """None (no more text), "N", or the position of the character behind boundary i"""
        if self.is_empty(st, i, j):
            return None
        atoms = self.text(st)[1]
        a = atoms[i]
        if a == "R":
            self.split_text()
        if is_run(a):
            S = chars_of(a)
            self.split_atom(i, [(("c", S),), (("c", S), a)])
        return "N" if a == "N" else i

    def last_char(self, st, i, j):
        """None, "N", or the position of the character before boundary j"""
        if self.is_empty(st, i, j):
            return None
        atoms = self.text(st)[1]
        k = (len(atoms) if j == E else j) - 1
        a = atoms[k]
        if a == "R":
            self.split_text()
        if is_run(a):
            S = chars_of(a)
            self.split_atom(k, [(("c", S),), (a, ("c", S))])
        return "N" if a == "N" else k

    def is_char(self, st, k, P):
        """is the character at position k of the kinds P"""
        S = self.text(st)[1][k][1]
        if S & P and S & ~P:
            self.split_atom(k, [(("c", S & P),), (("c", S & ~P),)])
        return bool(S & P)

    def matches(self, st, c, P):
        """P: (kinds of characters, is the newline among them)"""
        return P[1] if c == "N" else self.is_char(st, c, P[0])

    def trimmed(self, st, i, j, P, at_end):
        """the boundary up to which characters of P are trimmed"""
        while not self.is_empty(st, i, j):
            atoms = self.text(st)[1]
            k = (len(atoms) if j == E else j) - 1 if at_end else i
            a = atoms[k]
            if a == "R":
                self.split_text()
            if a == "N":
                if not P[1]:
                    break
            elif not is_run(a):
                if not self.is_char(st, k, P[0]):
                    break
            else:
                S = chars_of(a)
                y, n = S & P[0], S & ~P[0]
                if not y:
                    break
                if n:
                    o = [(run(y),), (("c", n),), (a, ("c", n)), (("c", n), run(y)), (a, ("c", n), run(y))]
                    self.split_atom(k, o if at_end else [x[::-1] for x in o])
            if at_end:
                j = k
            else:
                i = k + 1
        return j if at_end else i

    def find(self, st, i, j, P):
        """the boundary before the first character of P, or None"""
        while not self.is_empty(st, i, j):
            atoms = self.text(st)[1]
            a = atoms[i]
            if a == "R":
                self.split_text()
            if a == "N":
                if P[1]:
                    return i
            elif not is_run(a):
                if self.is_char(st, i, P[0]):
                    return i
            else:
                S = chars_of(a)
                y, n = S & P[0], S & ~P[0]
                if y and n:
                    self.split_atom(i, [(run(n),), (("c", y),), (("c", y), a), (run(n), ("c", y)), (run(n), ("c", y), a)])
                if y:
                    return i
            i += 1
        return None

    def walk_bytes(self, st, i, n, end=E):
        """the boundary n bytes behind i"""
        while n > 0:
            c = self.first_char(st, i, end)
            if c is None:
                raise Boundary("byte index out of bounds")
            w = 1
            if c != "N":
                S = self.text(st)[1][c][1]
                w = width(S)
                if w is None:
                    self.is_char(st, c, next(T for _, T in WIDTHS if S & T))
            n -= w
            i += 1
        if n < 0:
            raise Boundary("byte index is not a char boundary")
        return i

    def walk_back(self, st, i, j, n):
        while n > 0:
            c = self.last_char(st, i, j)
            if c is None:
                raise Boundary("byte index out of bounds")
            w = 1
            if c != "N":
                S = self.text(st)[1][c][1]
                w = width(S)
                if w is None:
                    self.is_char(st, c, next(T for _, T in WIDTHS if S & T))
            n -= w
            j = (len(self.text(st)[1]) if j == E else j) - 1
        if n < 0:
            raise Boundary("byte index is not a char boundary")
        return j

    def bytes_below(self, st, i, j, n):
        """is the text between the boundaries shorter than n bytes"""
        if n > 16:
            raise Unsupported("length of a text")
        for _ in range(40):
            atoms = self.span(self.text(st), i, j)
            low = exact = 0
            first = None
            for k, a in enumerate(atoms):
                w = 1 if a == "N" else 0 if a == "R" else min(b for b, T in WIDTHS if chars_of(a) & T)
                if first is None and (a == "R" or is_run(a) or a != "N" and width(chars_of(a)) is None):
                    first = k
                low += w
            if low >= n:
                return False
            if first is None:
                return low < n
            k = (len(self.text(st)[1]) if i == E else i) + first
            if atoms[first] == "R":
                self.split_text()
            c = self.first_char(st, k, j)
            self.is_char(st, c, next(T for _, T in WIDTHS if self.text(st)[1][c][1] & T))
        raise Unsupported("length of a text")

    def text_is(self, st, i, j, t):
        """is the text between the boundaries exactly t"""
        i = self.prefix(st, i, j, t)
        return i is not None and self.is_empty(st, i, j)

    def prefix(self, st, i, j, t):
        """the boundary behind t, if the text starts with it"""
        for ch in t:
            c = self.first_char(st, i, j)
            if c is None or not (ch == "\n" if c == "N" else ch != "\n" and self.is_char(st, c, kind_of(ch))):
                return None
            i += 1
        return i

    def suffix(self, st, i, j, t):
        """the boundary before t, if the text ends with it"""
        for ch in reversed(t):
            c = self.last_char(st, i, j)
            if c is None or not (ch == "\n" if c == "N" else ch != "\n" and self.is_char(st, c, kind_of(ch))):
                return None
            j = (len(self.text(st)[1]) if j == E else j) - 1
        return j

    def span(self, text, i, j):
        """atoms between two boundaries, None if the order is wrong"""
        a = len(text[1]) if i == E else i
        b = len(text[1]) if j == E else j
        return text[1][a:b] if a <= b else None

    def is_empty(self, st, i, j):
        a = self.span(self.text(st), i, j)
        if a == ("R",):
            self.split_text()
        return not a

    def find_nl(self, st, i, j):
        """the boundary before the first newline, or None"""
        text = self.text(st)
        a = self.span(text, i, j)
        s = len(text[1]) if i == E else i
        for k, x in enumerate(a):
            if x == "R":
                self.split_text()
            if x == "N":
                return s + k
        return None

    def offset(self, st, s, v):
        """the boundary a byte offset into the string s denotes"""
        text = self.text(st)
        n = lambda b: self.norm_tx(text, b)
        if v == 0 and not isinstance(v, bool):
            return s[1]
        if isinstance(v, int) and v > 0:
            return self.walk_bytes(st, s[1], v, s[2])
        if isinstance(v, tuple) and v[0] == "so" and n(v[1]) == n(s[1]):
            return v[2]
        raise Unsupported("offset into a text")

    def in_tx(self, st, s, b):
        t = self.text(st)
        return self.span(t, s[1], b) is not None and self.span(t, b, s[2]) is not None

    def so(self, st, i, j):
        t = self.text(st)
        i, j = self.norm_tx(t, i), self.norm_tx(t, j)
        return 0 if i == j else ("so", i, j)

    # ---- vectors with one element per level
    def vec(self, st, v):
        """(vector, root, path) if v refers to such a vector"""
        if not isinstance(v, tuple) or v[0] not in ("R", "B") or v[1][0] not in ("L", "O", "V"):
            return None
        x = None
        try:
            x = self.I.read(st, v[1], v[2])
        except Unsupported:
            return None
        return (x, v[1], v[2]) if isinstance(x, tuple) and x and x[0] == "PV" else None

    def slice(self, st, v):
        """(vector reference, lo, hi) of a slice or vector reference, else None"""
        if isinstance(v, tuple) and v[0] == "R" and v[1][0] == "PS":
            return v[1][1], v[1][2], v[1][3]
        r = self.vec(st, v)
        if r is None:
            return None
        return ("R", r[1], r[2]), (self.top_of(st), 0), (r[0][1][2], len(r[0][3]))

    def val(self, st, b):
        return b[1] if b[0] == self.top_of(st) else ("dp", at(FID, b[0]), b[1])

    def bound(self, st, pv, b):
        """canonical (node, k): the node is on the path to the vector's end, k > 0 only for the end; None: out of range"""
        P, top = st.forests[FID], self.top_of(st)
        c, k = b
        end = pv[1][2]
        while c != end and not below(P, c, end):
            if c == top:
                return None
            c, k = self.ask(P.p_parent, c), k + 1
        while k > 0 and c != end:
            c, k = self.ask(child_towards, P, c, end), k - 1
        while k < 0:
            if c == top:
                return None
            c, k = self.ask(P.p_parent, c), k + 1
        return None if k > len(pv[3]) else (c, k)

    def level(self, st, c, pv):
        v = pv[2][0 if self.ask(st.forests[FID].is_last, c) else 1]
        if v is None:
            raise Prune()
        return v

    def element(self, st, pv, b):
        """the element behind the boundary b, and the boundary behind it; None at the end"""
        c, k = self.bound(st, pv, b)
        end = pv[1][2]
        if c == end:
            return (pv[3][k], (c, k + 1)) if k < len(pv[3]) else None
        d = self.ask(child_towards, st.forests[FID], c, end)
        return self.level(st, d, pv), (d, 0)

    def element_before(self, st, pv, b):
        c, k = self.bound(st, pv, b)
        if k > 0:
            return pv[3][k - 1], (c, k - 1)
        if c == self.top_of(st):
            return None
        v = self.level(st, c, pv)
        return v, (self.ask(st.forests[FID].p_parent, c), 0)

    def get_vec(self, st, ref):
        r = self.vec(st, ref)
        if r is None:
            raise Unsupported("vector behind a slice")
        return r[0]

    def slice_length(self, I, st, v):
        self.I = I
        s = get_slice(self, st, v)
        return None if s is None else self.length(st, s)

    def path_elem(self, I, st, v, i):
        self.I = I
        s = get_slice(self, st, v)
        if s is None:
            return None
        b = self.index(st, s, i)
        if b is None:
            raise Unsupported("unchecked slice index")
        e = self.element(st, self.get_vec(st, s[0]), b)
        return ("R", ("V", e[0]), ())

    def index(self, st, s, v):
        """the boundary index v of the slice s stands for; None: out of range"""
        return self.first_answer(lambda x: (self.index1(st, s, x),), alternatives(v))[0]

    def index1(self, st, s, v):
        ref, lo, hi = s
        pv = self.get_vec(st, ref)
        lo = self.bound(st, pv, lo)
        if lo == (self.top_of(st), 0):
            t = self.dterm(st, v)
        elif isinstance(v, int):
            t = (lo[0], lo[1] + v)
        elif is_a(v, "dd") and v[2][2] in self.bounds(st).hi:
            l, h = self.bounds(st).diff(lo[0], v[2][2])
            t = (v[1][2], v[3] + lo[1] + l) if l == h else None
        else:
            t = None
        if t is None:
            raise Unsupported("index into the levels: %s" % (v,))
        b = self.bound(st, pv, t)
        if b is None or self.order(st, pv, hi, b) < 0:
            return None
        return b

    def first_answer(self, f, *cands):
        """the first answer over alternative forms of the operands; None if there is none"""
        late = None
        for c in itertools.product(*cands):
            try:
                r = f(*c)
            except (NeedSplit, Unsupported) as e:
                late = e if late is None or isinstance(late, Unsupported) else late
                continue
            if r is not None:
                return r
        if late is not None:
            raise late
        return None

    def all_answers(self, f, *cands):
        late, out = None, []
        for c in itertools.product(*cands):
            try:
                r = f(*c)
            except (NeedSplit, Unsupported) as e:
                late = e if late is None or isinstance(late, Unsupported) else late
                continue
            if r is not None:
                out.append(r)
        if late is not None and not out:
            raise late
        return out

    def order(self, st, pv, a, b):
        """-1, 0, 1: a < b, a = b, a > b"""
        a, b = self.bound(st, pv, a), self.bound(st, pv, b)
        if a[0] == b[0]:
            return (a[1] > b[1]) - (a[1] < b[1])
        return -1 if below(st.forests[FID], a[0], b[0]) else 1

    def length(self, st, s):
        ref, lo, hi = s
        pv = self.get_vec(st, ref)
        lo, hi = self.bound(st, pv, lo), self.bound(st, pv, hi)
        if lo == (self.top_of(st), 0):
            return self.val(st, hi)
        return self.minus(st, hi, lo)

    def minus(self, st, a, b):
        l, h = self.bounds(st).diff(a[0], b[0])
        if l == h:
            return l + a[1] - b[1]
        return ("dd", at(FID, a[0]), at(FID, b[0]), a[1] - b[1])

    # ---- numbers
    def dterm(self, st, v):
        if is_a(v, "alt"):
            for x in v[1]:
                t = self.dterm(st, x)
                if t is not None:
                    return t
            return None
        if is_a(v, "dd") and v[2][2] == self.top_of(st):
            return (v[1][2], v[3])
        return super().dterm(st, v)

    def checked(self, I, st, op, a, b, t):
        out = self.all_answers(lambda x, y: self.checked1(I, st, op, x, y, t), alternatives(a), alternatives(b))
        if not out:
            return None
        flag = out[0][1][1]
        return ("T", (join_terms([r[1][0] for r in out if r[1][1] == flag]), flag))

    def checked1(self, I, st, op, a, b, t):
        op = op.replace("Unchecked", "")
        r = self.number(st, op, a, b)
        if r is not None:
            if isinstance(r, int):
                return ("T", (r, r < 0))
            if r[0] == "dd" and op == "Sub":
                l, h = self.bounds(st).diff(r[1][2], r[2][2])
                if l + r[3] < 0:
                    raise Unsupported("sign of a difference")
            return ("T", (r, False))
        return super().checked(I, st, op, a, b, t)

    def number(self, st, op, a, b):
        if is_a(a, "so") or is_a(b, "so"):
            t = self.text(st)
            n = lambda x: self.norm_tx(t, x)
            if op == "Add":
                for x, y in ((a, b), (b, a)):
                    if is_a(x, "so") and isinstance(y, int):
                        try:
                            return self.so(st, x[1], self.walk_bytes(st, x[2], y))
                        except Boundary:
                            raise Unsupported("arithmetic on text offsets")
                    if is_a(x, "so") and is_a(y, "so") and n(x[2]) == n(y[1]):
                        return self.so(st, x[1], y[2])
            if op == "Sub" and is_a(a, "so"):
                if isinstance(b, int):
                    try:
                        return self.so(st, a[1], self.walk_back(st, a[1], a[2], b))
                    except Boundary as e:
                        if "out of" in str(e):
                            return -1
                        raise Unsupported("arithmetic on text offsets")
                elif is_a(b, "so") and n(b[1]) == n(a[1]):
                    return self.so(st, b[2], a[2])
                elif is_a(b, "so") and n(b[2]) == n(a[2]):
                    return self.so(st, a[1], b[1])
            raise Unsupported("arithmetic on text offsets")
        if is_a(a, "dd") and isinstance(b, int) and op in ("Add", "Sub"):
            return a[:3] + (a[3] + (b if op == "Add" else -b),)
        if is_a(b, "dd") and isinstance(a, int) and op == "Add":
            return b[:3] + (b[3] + a,)
        ta, tb = self.dterm(st, a), self.dterm(st, b)
        if op == "Sub" and is_a(b, "dd") and ta is not None:
            l, h = self.bounds(st).diff(ta[0], b[1][2])
            if l == h:
                return self.val(st, (b[2][2], ta[1] - b[3] + l))
        if op == "Sub" and ta is not None and tb is not None and not isinstance(b, int):
            return self.minus(st, ta, tb)
        return None

    def arith(self, I, st, op, a, b, t):
        r = self.checked(I, st, op, a, b, t)
        if r is None:
            return None
        if r[1][1]:
            raise Unsupported("wrapping depth")
        return r[1][0]

    def term_cmp(self, I, st, op, a, b):
        r = self.first_answer(lambda x, y: self.term_cmp1(I, st, op, x, y), alternatives(a), alternatives(b))
        if r is None and st.spec[0] == "run" and any(is_a(v, k) for v in (a, b) for k in ("alt", "dp", "dd")) and \
                any(is_a(v, k) or isinstance(v, int) for v in (a, b) for k in ("alt", "dp", "dd")):
            for v in alternatives(a) + alternatives(b):
                if is_a(v, "dp") or is_a(v, "dd"):
                    self.unroll(st.forests[FID], v[1][2], v[2][2] if v[0] == "dd" else self.top_of(st))
            raise Unsupported("comparison of depths")
        return r

    def unroll(self, P, x, q):
        """demands a look at a hidden part of the path from q down to x"""
        if not below(P, q, x):
            return
        while x != q:
            k, p = P.up[x]
            if k == "v":
                self.ask(lambda: P._need("via", P.ch[p][P.index_of(p, x)][1]))
            x = p

    def term_cmp1(self, I, st, op, a, b):
        if is_a(a, "ch") or is_a(b, "ch"):
            x, y = (a, b) if is_a(a, "ch") else (b, a)
            if not isinstance(y, int) or isinstance(y, bool):
                if is_a(y, "ch") and op == "Eq" and x == y:
                    return True
                raise Unsupported("comparison of characters")
            S = 0
            for k in range(128):
                if k != 10 and (k == y if op == "Eq" else k < y if x is a else k > y):
                    S |= 1 << k
            if y > 128 or y == 128 and op == "Lt" and x is not a:
                raise Unsupported("a character that is not ASCII")
            if op == "Lt" and x is not a:
                S |= ALL & ~ASCII
            return self.is_char(st, x[1], S)
        if is_a(a, "so") or is_a(b, "so"):
            for x, y, sw in ((a, b, False), (b, a, True)):
                if is_a(x, "so") and y == 0:
                    return False if op == "Eq" or not sw else True
                if is_a(x, "so") and isinstance(y, int) and y < 1 << 62:
                    if op == "Eq":
                        return not self.bytes_below(st, x[1], x[2], y) and self.bytes_below(st, x[1], x[2], y + 1)
                    return not self.bytes_below(st, x[1], x[2], y + 1) if sw else self.bytes_below(st, x[1], x[2], y)
            if is_a(a, "so") and is_a(b, "so"):
                t = self.text(st)
                n = lambda x: self.norm_tx(t, x)
                if n(a[1]) == n(b[1]):
                    if op == "Eq":
                        return n(a[2]) == n(b[2]) or (self.is_empty(st, *sorted((n(a[2]), n(b[2])), key=lambda z: (z == E, z if z != E else 0))))
                    x, y = n(a[2]), n(b[2])
                    if x == y or x == E or (y != E and x > y):
                        return False
                    return not self.is_empty(st, x, y)
            if op == "Lt" and is_a(a, "so") and isinstance(b, int) and b >= 1 << 62:
                return True
            return None
        if is_a(a, "dd") or is_a(b, "dd"):
            r = self.number(st, "Sub", a, b) if is_a(a, "dd") else None
            for x, y, sw in ((a, b, False), (b, a, True)):
                if is_a(x, "dd") and isinstance(y, int):
                    l, h = self.bounds(st).diff(x[1][2], x[2][2])
                    l, h = l + x[3], h + x[3]
                    if op == "Eq":
                        if y < l or y > h:
                            return False
                        return True if l == h == y else None
                    if not sw and h < y or sw and l > y:
                        return True
                    if not sw and l >= y or sw and h <= y:
                        return False
            if is_a(a, "dd") and is_a(b, "dd") and a[:3] == b[:3]:
                return a[3] == b[3] if op == "Eq" else a[3] < b[3]
            return None
        return super().term_cmp(I, st, op, a, b)

    # ---- functions of std
    def pre_model(self, I, st, fid, path, a):
        self.I = I
        if "redirect" in I.fns[fid]:
            return None
        for rx, f in TABLE:
            if rx.search(path):
                return f(self, I, st, fid, a, path)
        return None

    # ---- progress, for rank.py
    def quantities(self, st, slots):
        """counts of levels, bounds of slices and positions in the texts; a datum's formatting comes in finitely many chunks"""
        out = {}
        if st.spec[0] != "run":
            return out
        m = self.mon(st)
        text = m["text"]

        def pos(b):
            b = self.norm_tx(text, b)
            return ("tx", st.mono[0], E if b == E and "R" in text[1] else cells(st)[-1 if b == E else b])

        def walk(path, tags, v):
            if isinstance(v, bool):
                return
            if isinstance(v, int) or is_a(v, "alt") or is_a(v, "dd") or is_a(v, "dp") and len(v) == 3:
                out[path + ("#",)] = (tags, ("#", ("num",) + tuple(alternatives(v))))
                return
            if not isinstance(v, tuple) or not v or v[0] == "S":
                return
            if v[0] in ("SI", "PS") and len(v) == 4:
                for i in (2, 3):
                    out[path + (i, "#")] = (tags, ("#", ("num", ("dp",) + v[i])))
                return
            if v[0] in ("TX", "so", "TI", "ch") and text is not None:
                for i in (1, 2):
                    if v[i] is not None:
                        out[path + (i, "#")] = (tags, ("#", pos(v[i])))
                return
            if v[0] == "A" and len(v) == 4:
                tags = tags + ((v[1], v[2]),)
                for i, e in enumerate(v[3]):
                    walk(path + (i,), tags, e)
                return
            for i, e in enumerate(v):
                if isinstance(e, tuple) or v[0] in ("T", "Y"):
                    walk(path + (i,), tags, e)
        for slot, v in slots:
            if slot != ("S",):
                walk((slot,), (), v)
        if text is not None:
            out[("written", "#")] = ((), ("#", pos(m["w"])))
        out[("chunks", "#")] = ((), ("#", ("n", st.mono[0])))
        return out

    def compare(self, st, old, new, cache):
        """how a quantity moved: '<' up, '>' down, '=' not at all, None unknown"""
        if old[0] != new[0]:
            return None
        if old[0] == "n":
            return "<" if new[1] > old[1] else "=" if new[1] == old[1] else ">"
        if old[0] == "tx":
            if old[1:] == new[1:]:
                return "="
            if old[1] != new[1]:
                return "<" if old[1] < new[1] else ">"
            if new[2] == E or old[2] != E and old[2] < new[2]:
                return "<"
            return ">"
        if "bounds" not in cache:
            cache["bounds"] = self.bounds(st)
        bd = cache["bounds"]
        top = self.top_of(st)
        for a in old[1:]:
            for b in new[1:]:
                if is_a(a, "dd") != is_a(b, "dd"):
                    continue
                a1, b1 = (x if isinstance(x, tuple) else ("dp", at(FID, top), x) for x in (a, b))
                l, h = bd.diff(b1[1][2], a1[1][2])
                k = b1[-1] - a1[-1]
                if is_a(a, "dd"):
                    l2, h2 = bd.diff(a1[2][2], b1[2][2])
                    l, h = l + l2, h + h2
                if l + k > 0:
                    return "<"
                if h + k < 0:
                    return ">"
                if l + k == h + k == 0:
                    return "="
        return None

    # ---- canonical form
    def abstract(self, I, st):
        self.I = I
        if st.spec[0] != "run":
            return super().abstract(I, st)
        m = self.mon(st)
        m["marks"] = ()
        P = st.forests[FID]
        P.seen = m["cur"]
        slots = [("L", d, l) for d, fr in enumerate(st.frames) for l in sorted(fr.locals)] + \
                [("O", k) for k in sorted(st.heap, key=repr) if not (isinstance(k, tuple) and k[0] == "forest")]

        def value(s):
            return st.frames[s[1]].locals[s[2]] if s[0] == "L" else st.heap[s[1]]

        def update(f):
            for s in slots:
                v = f(value(s))
                if s[0] == "L":
                    st.frames[s[1]].locals[s[2]] = v
                else:
                    st.heap[s[1]] = v
        # 1. whole levels
        inner = []

        def refs(v):
            if isinstance(v, tuple):
                if v and v[0] in ("R", "B") and len(v) == 3 and isinstance(v[1], tuple) and v[1][0] in ("L", "O"):
                    x = None
                    for i in range(len(v[2])):
                        try:
                            x = I.read(st, v[1], v[2][:i])
                        except Unsupported:
                            break
                        if isinstance(x, tuple) and x and x[0] == "PV":
                            inner.append(x)
                for e in v:
                    refs(e)
        for s in slots:
            refs(value(s))

        def levels(v):
            if not isinstance(v, tuple):
                return v
            if v and v[0] == "PV" and len(v) == 4 and v not in inner:
                _, end, T, tail = v
                while len(tail) > 1 and isinstance(tail[0], tuple):
                    e = end[2]
                    x = m["cur"]
                    if not below(P, e, x):
                        break
                    while P.up[x][1] != e:
                        x = P.up[x][1]
                    if P.up[x][0] == "v":
                        break
                    try:
                        k = 0 if P.is_last(x) else 1
                    except NeedSplit:
                        break
                    if T[k] not in (None, tail[0]):
                        break
                    T = (tail[0], T[1]) if k == 0 else (T[0], tail[0])
                    end, tail = at(FID, x), tail[1:]
                return ("PV", end, T, tail)
            if v and v[0] == "PV" and len(v) == 4 and v not in inner:
                return v
            return tuple(levels(e) if isinstance(e, tuple) else e for e in v)
        if m["sub"] != "failed":
            update(levels)
        # 2. the text
        used = [m["w"]] if m["sub"] == "in" else []

        def marks(v):
            if isinstance(v, tuple):
                if v and v[0] in ("TX", "so", "TI", "ch"):
                    used.extend(x for x in v[1:3] + v[4:] if x is not None)
                for e in v:
                    marks(e)
        for s in slots:
            marks(value(s))
        if m["text"] is None or not used:
            m["text"], m["w"] = None, 0
        else:
            text = m["text"]
            used0 = used
            used = [self.norm_tx(text, x) for x in used]
            lo = min([len(text[1]) if x == E else x for x in used])
            prev = text[1][lo - 1] == "L" if lo else text[0]
            new = (prev, text[1][lo:])

            def shift(x):
                if x is None:
                    return None
                x = self.norm_tx(text, x)
                x = len(text[1]) - lo if x == E and "R" not in text[1] else x if x == E else x - lo
                return self.norm_tx(new, x)

            self.renumber(st, shift)
            set_cells(st, cells(st)[lo:])
            if "R" not in new[1]:
                new = (new[0] and bool(new[1]), new[1])
            m["text"], m["w"] = new, shift(m["w"]) if m["sub"] == "in" else 0
            self.merge(st, m, {shift(self.norm_tx(text, x)) for x in used0})
        self.keep(st, m)
        # 3. bounds of slices and iterators; counts of levels
        bd = self.bounds(st)
        named = []

        def names(v):
            if isinstance(v, tuple):
                if is_at(v):
                    if v[2] not in named and v[2] in bd.hi:
                        named.append(v[2])
                    return
                if v and (v[0] in ("dd", "alt") or v[0] == "dp" and len(v) == 3):
                    return
                for e in v:
                    names(e)
        names(st.spec)
        for s in slots:
            names(value(s))
        path = [m["cur"]]
        while path[-1] != m["top"] and isinstance(P.up[path[-1]], tuple):
            path.append(P.up[path[-1]][1])
        counts = []

        def numbers(v):
            if isinstance(v, tuple) and v:
                if v[0] in ("dd", "alt") or v[0] == "dp" and len(v) == 3:
                    counts.append(v)
                    return
                for e in v:
                    numbers(e)
        for s in slots:
            numbers(value(s))
        for v in counts:
            dps = [x for x in alternatives(v) if is_a(x, "dp") and x[1][2] in bd.hi]

            def near(y, lim):
                for x in dps:
                    if x[1][2] == y and abs(x[2]) <= lim:
                        return True
                    l, h = bd.diff(x[1][2], y)
                    if l == h and abs(x[2] + l) <= lim:
                        return True
            if dps and not any(near(y, 1) for y in named):
                named += [y for y in path if near(y, 0)][:1]
        pairs = [(i, j, x, y) for i, x in enumerate(named) for j, y in enumerate(named) if x != y and below(P, y, x)]

        path_pairs = [(i, j, x, y) for i, x in enumerate(path) for j, y in enumerate(named) if x != y and below(P, y, x)]

        def forms(v):
            """the value in terms of the named nodes, else of those above the node being printed"""
            near = lambda x: abs(x[3] if x[0] == "dd" else x[2])
            r = over(v, pairs)
            if isinstance(r, int):
                return r
            out = [] if r is None else [x for x in alternatives(r) if near(x) < 2]
            if all(map(near, out)):
                w = over(v, path_pairs)
                for k in ("dp", "dd"):
                    c = [x for x in alternatives(w) if is_a(x, k) and near(x) < 2 and x not in out][:1]
                    if c and (not out or k == "dp" and (near(c[0]) == 0 or not any(is_a(x, "dp") for x in out))):
                        out = c + out
            return join_terms(out) if out else v if r is None else r

        def over(v, pairs):
            found = {}
            for t in alternatives(v):
                if isinstance(t, int):
                    a = b = m["top"]
                    k = t
                else:
                    a, b, k = t[1][2], t[2][2] if t[0] == "dd" else m["top"], t[3] if t[0] == "dd" else t[2]
                l, h = bd.diff(a, b)
                if l == h and l + k < 2:
                    return l + k
                for i, j, x, y in pairs:
                    if a == b:
                        l, h = bd.diff(y, x)
                        l2 = h2 = 0
                    else:
                        (l, h), (l2, h2) = bd.diff(a, x), bd.diff(y, b)
                    if l == h and l2 == h2:
                        e = l + l2 + k
                        found[(abs(e), y != m["top"], i, j)] = ("dp", at(FID, x), e) if y == m["top"] else ("dd", at(FID, x), at(FID, y), e)
            c = sorted(found)
            if not c or isinstance(v, int) and c[0][0] > 1:
                return None
            return join_terms([found[z] for z in c if z == c[0] or z[0] < 2])

        def canon(v):
            if isinstance(v, bool):
                return v
            if isinstance(v, int):
                return forms(v) if 2 <= v < 1 << 32 else v
            if not isinstance(v, tuple) or not v:
                return v
            if v[0] in ("dd", "alt", "dp"):
                return forms(v)
            if v[0] == "SI" or v[0] == "PS":
                ref = v[1]
                try:
                    pv = self.get_vec(st, ref)
                    return (v[0], ref) + tuple(self.bound(st, pv, b_in(b)) and pack(self.bound(st, pv, b_in(b))) for b in v[2:4])
                except (Unsupported, NeedSplit):
                    return v
            if v[0] in ("PV", "S", "TX", "TI", "so", "ch"):
                return v
            j = {"A": 3, "T": 1, "Y": 1, "C": 2}.get(v[0])
            if j is not None and len(v) > j:
                return v[:j] + (tuple(canon(e) for e in v[j]),) + v[j + 1:]
            if v[0] in ("R", "B") and isinstance(v[1], tuple) and v[1][0] == "PS":
                return (v[0], canon(v[1]), v[2])
            return v

        def b_in(b):
            return (b[0][2], b[1]) if is_at(b[0]) else b

        def pack(b):
            return (at(FID, b[0]), b[1])
        if m["sub"] != "failed":
            update(canon)
            # levels that are not whitespace: what is known of the last one is not to be mixed with those above it
            marks = []

            def ends(v):
                if not isinstance(v, tuple) or not v:
                    return
                if v[0] in ("SI", "PS") and len(v) == 4:
                    c, k = b_in(v[3])
                    if k == 0 and c != m["top"] and P.up[c][0] == "n":
                        p = P.up[c][1]
                        i = P.index_of(p, c)
                        nx = P.ch[p][i + 1:i + 2]
                        if nx and (nx[0][0] != "g" or nx[0][2][0] == "W") and at(FID, p) not in marks:
                            marks.append(at(FID, p))
                for e in v:
                    ends(e)
            for s in slots:
                ends(value(s))
            m["marks"] = tuple(marks)
        self.keep(st, m)


def tell(a):
    """an atom, for the reader of an abstract path"""
    if a == "N":
        return "a newline"
    S = chars_of(a)
    if S == ALL:
        what = "any" if is_run(a) else "any character"
    else:
        few = [chr(k) for k in range(128) if S >> k & 1]
        what = repr("".join(few)) if len(few) < 9 and not S & ~ASCII else "not " + repr("".join(
            chr(k) for k in range(128) if k != 10 and not S >> k & 1)) if len(few) > 100 else "some kind"
    return "characters (%s)" % what if is_run(a) else "a character (%s)" % what if S != ALL else what


def pack(b):
    return (at(FID, b[0]), b[1])


def unpack(b):
    return (b[0][2], b[1])


TABLE = []


def std(pat):
    rx = re.compile(pat)

    def deco(f):
        TABLE.append((rx, f))
        return f
    return deco


def mk_slice(ref, lo, hi):
    return ("R", ("PS", ref, pack(lo), pack(hi)), ())


def get_slice(sp, st, v):
    s = sp.slice(st, v)
    if s is None:
        return None
    ref, lo, hi = s
    return ref, (unpack(lo) if is_at(lo[0]) else lo), (unpack(hi) if is_at(hi[0]) else hi)


# ---- the sink
@std(r"^std::fmt::Formatter::<'\w+>::write_str$|^<std::fmt::Formatter<'_> as std::fmt::Write>::write_str$")
def p_write_str(sp, I, st, fid, a, path):
    s = a[1]
    if s[0] not in ("S", "TX"):
        raise Unsupported("text written")
    return sp.sink(I, st, fid, s)


@std(r"^<std::fmt::Formatter<'_> as std::fmt::Write>::write_char$")
def p_write_char(sp, I, st, fid, a, path):
    if is_a(a[1], "ch"):
        return sp.sink(I, st, fid, ("TX",) + a[1][1:3])
    if not isinstance(a[1], int):
        raise Unsupported("character written")
    return sp.sink(I, st, fid, ("S", chr(a[1])))


@std(r"^std::fmt::Formatter::<'\w+>::(alternate|sign_plus|sign_minus|sign_aware_zero_pad)$")
def p_flag(sp, I, st, fid, a, path):
    return I.choose(st, ("a flag",), (False, True))


# ---- formatting
def literal_parts(data):
    """the template of format_args!: literal texts and placeholders"""
    out, i, arg = [], 0, 0
    while True:
        n = data[i]
        i += 1
        if n == 0:
            return out
        if n <= 0x80:
            if n == 0x80:
                n = data[i] | data[i + 1] << 8
                i += 2
            out.append(("lit", bytes(data[i:i + n]).decode()))
            i += n
            continue
        if n < 0xC0:
            raise Unsupported("format template")
        if n & 0x30:
            raise Unsupported("width given by an argument")
        plain = not n & 0x0F
        i += (4 if n & 1 else 0) + (2 if n & 2 else 0) + (2 if n & 4 else 0)
        if n & 8:
            arg = data[i] | data[i + 1] << 8
            i += 2
        out.append(("arg", arg, plain or not n & 7))
        arg += 1


def behind(I, st, v):
    """the datum, text or character a (reference to a) reference to an argument denotes"""
    for _ in range(8):
        if isinstance(v, tuple) and v and v[0] == "R":
            if v[1][0] == "D" and v[2] and v[1][1][1] == FID:
                return ("tok", v[1][1])
            v = I.read(st, v[1], v[2])
            continue
        break
    if isinstance(v, tuple) and v[0] in ("S", "TX"):
        return v
    if isinstance(v, tuple) and v[0] == "K" and v[2] and v[2][0] == "data":
        return ("tok", v[2][1])
    raise Unsupported("formatted argument")


@std(r"^vpharness::vp::fmt_begin$")
def p_fmt_begin(sp, I, st, fid, a, path):
    fa = a[0]
    if fa[0] != "FA":
        raise Unsupported("format arguments")
    if not fa[2]:
        return ("FP", (("lit", fa[1]),), None)
    tmpl = I.models.deref_text(I, st, fa[2][0])
    args = I.models.deref_text(I, st, fa[2][1]) if len(fa[2]) > 1 else ("Y", ())
    if tmpl[0] != "Y" or args[0] != "Y":
        raise Unsupported("format template")
    out = []
    for p in literal_parts(list(tmpl[1])):
        if p[0] == "lit":
            out.append(p)
            continue
        x = args[1][p[1]]
        if x[0] != "ARG" or x[1] not in ("new_display", "new_debug"):
            raise Unsupported("formatted argument")
        v = behind(I, st, x[2])
        if v[0] == "tok":
            if not p[2]:
                sp.bad("a datum is formatted with a width or flags of its own")
            out.append(("tok", v[1], x[1] == "new_debug"))
        elif x[1] == "new_display" and p[2]:
            out.append(("str", v))
        else:
            raise Unsupported("formatted argument")
    return ("FP", tuple(out), None)


@std(r"^vpharness::vp::tok_begin$")
def p_tok_begin(sp, I, st, fid, a, path):
    v = behind(I, st, a[0])
    if v[0] != "tok":
        raise Unsupported("formatted argument")
    return ("FP", (("tok", v[1], bool(a[1])),), None)


@std(r"^vpharness::vp::fmt_next$")
def p_fmt_next(sp, I, st, fid, a, path):
    root, pth = deref_all(I, st, a[0])
    _, parts, mode = I.read(st, root, pth)
    ty = I.fns[fid]["ret"]
    text = lambda s: I.mk_adt(ty, "Text", (s,))
    if mode is None:
        if not parts:
            return I.mk_adt(ty, "End")
        p = parts[0]
        if p[0] != "tok":
            I.write(st, root, pth, ("FP", parts[1:], None))
            return text(("S", p[1]) if p[0] == "lit" else p[1])
    m = sp.mon(st)
    if m["sub"] == "failed":
        sp.bad("printing goes on after a failure of the sink or of a datum's formatting")
    if mode and m["sub"] == "in":
        t = sp.text(st) if m["text"] is not None else None
        if t is not None and sp.norm_tx(t, m["w"]) != E and not sp.is_empty(st, m["w"], E):
            sp.bad("a part of the text of n%d is left out" % m["cur"])
    what = I.choose(st, ("the datum's formatting",), ("goes on", "ends", "fails"))
    c = sp.ask(st.forests[FID].p_first, parts[0][1][2]) if what == "ends" else None
    if not mode:
        sp.begin(I, st, parts[0][1][2], parts[0][2])
    m = sp.mon(st)
    if what == "goes on":
        m["text"], m["w"] = (False, ("R",)), 0
        st.mono = (st.mono[0] + 1, (0,))
        sp.keep(st, m)
        I.write(st, root, pth, ("FP", parts, "in"))
        return text(("TX", 0, E))
    m["text"], m["w"] = None, 0
    m["sub"] = "done" if what == "ends" else "failed"
    if what == "ends":
        m["nx"] = "up" if c == NONE else at(FID, c)
    sp.keep(st, m)
    if what == "fails":
        return I.mk_adt(ty, "Fail")
    I.write(st, root, pth, ("FP", parts[1:], None))
    if len(parts) == 1:
        return I.mk_adt(ty, "End")
    return p_fmt_next(sp, I, st, fid, a, path)


# ---- strings
def is_tx(v):
    return isinstance(v, tuple) and v and v[0] == "TX"


def pattern(v):
    """a text or character searched for"""
    if isinstance(v, int) and not isinstance(v, bool):
        return chr(v)
    if is_a(v, "S"):
        return v[1]
    raise Unsupported("searched text")


def kinds(t):
    """the pattern of one character, as a set of characters"""
    if len(t) != 1:
        raise Unsupported("searched text")
    return (0, True) if t == "\n" else (kind_of(t), False)


SPACE = (WS, True)


@std(r"^core::str::<impl str>::(len|is_empty|find|split_at|split_once|strip_suffix|strip_prefix|ends_with|starts_with|contains|"
     r"split_inclusive|lines|split|rfind|as_bytes|chars|bytes|char_indices|get|trim_end_matches|trim_start_matches|rsplit_once|"
     r"trim|trim_end|trim_start|is_char_boundary)$")
def p_str(sp, I, st, fid, a, path):
    s = a[0]
    name = path.split("::")[-1]
    if s[0] == "S":
        t = s[1]
        if name == "len":
            return len(t.encode())
        if name == "is_empty":
            return t == ""
        return None
    if not is_tx(s):
        return None
    _, i, j = s
    if name == "len":
        return 0 if sp.is_empty(st, i, j) else sp.so(st, i, j)
    if name == "is_empty":
        return sp.is_empty(st, i, j)
    try:
        if name == "split_at":
            b = sp.offset(st, s, a[1])
            return ("T", (("TX", i, b), ("TX", b, j)))
        if name == "get":
            b = tx_range(sp, I, st, s, a[1])
            return opt_of(I, fid, b)
        if name == "is_char_boundary":
            sp.offset(st, s, a[1])
            return True
    except Boundary as e:
        return opt_of(I, fid, None) if name == "get" else False if name == "is_char_boundary" else ("PANIC", str(e))
    if name in ("lines", "chars", "char_indices"):
        return ("TI", i, j, name) + ((i,) if name == "char_indices" else ())
    if name in ("trim", "trim_end", "trim_end_matches", "trim_start", "trim_start_matches"):
        P = kinds(pattern(a[1])) if name.endswith("matches") else SPACE
        if name != "trim_start" and name != "trim_start_matches":
            j = sp.trimmed(st, i, j, P, True)
        if name != "trim_end" and name != "trim_end_matches":
            i = sp.trimmed(st, i, j, P, False)
        return ("TX", i, j)
    if name not in ("find", "contains", "split_once", "split", "split_inclusive", "ends_with", "starts_with", "strip_suffix",
                    "strip_prefix"):
        raise Unsupported("str::" + name)
    t = pattern(a[1])
    if name in ("split", "split_inclusive"):
        if t != "\n":
            raise Unsupported("searched text")
        return ("TI", i, j, name)
    if name in ("ends_with", "strip_suffix"):
        e = sp.suffix(st, i, j, t)
        if name == "ends_with":
            return e is not None
        return opt_of(I, fid, ("TX", i, e) if e is not None else None)
    if name in ("starts_with", "strip_prefix"):
        e = sp.prefix(st, i, j, t)
        if name == "starts_with":
            return e is not None
        return opt_of(I, fid, ("TX", e, j) if e is not None else None)
    b = sp.find(st, i, j, kinds(t))
    if name == "contains":
        return b is not None
    if b is None:
        return opt_of(I, fid, None)
    if name == "find":
        return opt_of(I, fid, sp.so(st, i, b))
    if sp.first_char(st, b, j) is None:
        raise Unsupported("str::split_once")
    return opt_of(I, fid, ("T", (("TX", i, b), ("TX", b + 1, j))))


def char_value(sp, st, c):
    """the character at a position"""
    if c == "N":
        return 10
    S = sp.text(st)[1][c][1]
    return S.bit_length() - 1 if S & ASCII == S and S & (S - 1) == 0 else ("ch", c, c + 1)


@std(r"^<std::str::(Chars|CharIndices)<'\w+> as std::(iter::Iterator|iter::DoubleEndedIterator|clone::Clone)>::"
     r"(next|next_back|clone|last|size_hint|count|nth)$|^std::str::(Chars|CharIndices)::<'\w+>::as_str$")
def p_chars(sp, I, st, fid, a, path):
    name = path.split("::")[-1]
    if name == "last":
        v = a[0]
    else:
        root, pth = deref_all(I, st, a[0])
        v = I.read(st, root, pth)
    if not is_a(v, "TI"):
        return None
    _, i, j, how = v[:4]
    if name == "clone":
        return v
    if name == "as_str":
        return ("TX", i, j)
    if name not in ("next", "next_back", "last"):
        raise Unsupported("characters " + name)
    c = sp.first_char(st, i, j) if name == "next" else sp.last_char(st, i, j)
    if c is None:
        return opt_of(I, fid, None)
    k = i if name == "next" else (len(sp.text(st)[1]) if j == E else j) - 1
    x = char_value(sp, st, c)
    if name != "last":
        I.write(st, root, pth, ("TI",) + ((i + 1, j) if name == "next" else (i, k)) + v[3:])
    if how == "char_indices":
        if v[4] == k:
            x = ("T", (0, x))
        else:
            x = ("T", (sp.so(st, v[4], k), x))
    return opt_of(I, fid, x)


@std(r"^std::char::methods::<impl char>::(is_whitespace|is_ascii|is_ascii_whitespace|len_utf8|encode_utf8|is_control|is_ascii_punctuation|eq_ignore_ascii_case)$|"
     r"^core::char::methods::<impl char>::(is_whitespace|is_ascii|is_ascii_whitespace|len_utf8|encode_utf8|is_control|is_ascii_punctuation|eq_ignore_ascii_case)$")
def p_char(sp, I, st, fid, a, path):
    name = path.split("::")[-1]
    v = a[0]
    if is_a(v, "R"):
        v = I.read(st, v[1], v[2])
    if isinstance(v, int) and not isinstance(v, bool):
        if name == "encode_utf8":
            return ("S", chr(v))
        return None
    if not is_a(v, "ch"):
        return None
    if name == "encode_utf8":
        return ("TX",) + v[1:3]
    if name == "is_whitespace":
        return sp.is_char(st, v[1], WS)
    if name == "is_ascii":
        return sp.is_char(st, v[1], ASCII)
    if name == "is_ascii_whitespace":
        return sp.is_char(st, v[1], sum(1 << k for k in (9, 12, 13, 32)))
    if name == "is_control":
        return sp.is_char(st, v[1], sum(1 << k for k in list(range(32)) + [127] if k != 10))
    if name == "len_utf8":
        return sp.so(st, v[1], v[2])
    raise Unsupported("char::" + name)


def range_ends(I, r):
    """(from, to, to is included) of a range value"""
    n = I.types[r[1]]["name"].split("::")[-1] if r[0] == "A" else None
    if n == "RangeFull":
        return None, None
    if n == "RangeTo":
        return None, r[3][0]
    if n == "RangeFrom":
        return r[3][0], None
    if n == "Range":
        return r[3][0], r[3][1]
    raise Unsupported("range")


def tx_range(sp, I, st, s, r):
    lo, hi = range_ends(I, r)
    lo = s[1] if lo is None else sp.offset(st, s, lo)
    hi = s[2] if hi is None else sp.offset(st, s, hi)
    if not sp.in_tx(st, s, lo) or not sp.in_tx(st, s, hi) or sp.span(sp.text(st), lo, hi) is None:
        raise Unsupported("slice of a text")
    return ("TX", lo, hi)


@std(r"^core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)$|"
     r"^std::cmp::impls::<impl std::cmp::PartialEq<&(mut )?B> for &(mut )?A>::(eq|ne)$")
def p_str_eq(sp, I, st, fid, a, path):
    x, y = (as_text(I, st, v) for v in a)
    if x is None or y is None:
        return None
    if x[0] == "TX" and y[0] == "S":
        x, y = y, x
    if y[0] == "S":
        r = x[1] == y[1]
    elif x[0] == "TX":
        raise Unsupported("comparison of texts")
    else:
        r = sp.text_is(st, y[1], y[2], x[1])
    return r == path.endswith("eq")


def as_text(I, st, v):
    for _ in range(3):
        if isinstance(v, tuple) and v and v[0] in ("S", "TX"):
            return v
        if not (isinstance(v, tuple) and v and v[0] == "R"):
            return None
        try:
            v = I.read(st, v[1], v[2])
        except Unsupported:
            return None
    return None


@std(r"^core::str::traits::<impl std::ops::Index<I> for str>::index$")
def p_str_index(sp, I, st, fid, a, path):
    if is_tx(a[0]):
        try:
            return tx_range(sp, I, st, a[0], a[1])
        except Boundary as e:
            return ("PANIC", str(e))
    return None


@std(r"^<std::str::(Lines|Split|SplitInclusive)<.*> as std::iter::Iterator>::next$")
def p_str_next(sp, I, st, fid, a, path):
    root, pth = deref_all(I, st, a[0])
    v = I.read(st, root, pth)
    if v[0] != "TI":
        return None
    _, i, j, how = v
    if i is None:
        return opt_of(I, fid, None)
    if how != "split" and sp.is_empty(st, i, j):
        I.write(st, root, pth, ("TI", None, None, how))
        return opt_of(I, fid, None)
    b = sp.find_nl(st, i, j)
    if b is None:
        I.write(st, root, pth, ("TI", None, None, how))
        return opt_of(I, fid, ("TX", i, j))
    e = b
    if how == "lines":
        e = sp.suffix(st, i, b, "\r")
        e = b if e is None else e
    I.write(st, root, pth, ("TI", b + 1, j, how))
    return opt_of(I, fid, ("TX", i, b + 1 if how == "split_inclusive" else e))


# ---- vectors and slices
@std(r"^std::vec::Vec::<T>::(new|with_capacity)$|^<std::vec::Vec<T> as std::default::Default>::default$")
def p_vec_new(sp, I, st, fid, a, path):
    if st.spec[0] == "start":
        n = st.spec[1][2]
        if st.forests[FID].kind[n] != "a":
            return None
    return ("PV", st.spec[1], (None, None), ())


@std(r"^std::vec::Vec::<T, A>::(push|pop|clear|len|is_empty|truncate)$")
def p_vec(sp, I, st, fid, a, path):
    r = sp.vec(st, a[0])
    if r is None:
        return None
    pv, root, pth = r
    name = path.split("::")[-1]
    if name == "push":
        I.write(st, root, pth, pv[:3] + (pv[3] + (a[1],),))
        return UNIT
    if name == "clear":
        I.write(st, root, pth, ("PV", at(FID, sp.top_of(st)), (None, None), ()))
        return UNIT
    s = get_slice(sp, st, a[0])
    if name == "len":
        return sp.length(st, s)
    if name == "is_empty":
        return pv[1][2] == sp.top_of(st) and not pv[3]
    if name == "truncate":
        b = sp.index(st, s, a[1])
        if b is not None:
            b = sp.bound(st, pv, b)
            I.write(st, root, pth, ("PV", at(FID, b[0]), pv[2], pv[3][:b[1]]))
        return UNIT
    e = sp.element_before(st, pv, s[2])
    if e is None:
        return opt_of(I, fid, None)
    c, k = e[1]
    I.write(st, root, pth, ("PV", at(FID, c), pv[2], pv[3][:k]))
    return opt_of(I, fid, e[0])


def last_explicit(sp, I, st, r):
    """makes the last element an explicit one; its reference, or None"""
    pv, root, pth = r
    if not pv[3]:
        e = sp.element_before(st, pv, (pv[1][2], 0))
        if e is None:
            return None
        pv = ("PV", at(FID, e[1][0]), pv[2], (e[0],))
        I.write(st, root, pth, pv)
    return ("R", root, pth + (len(pv[3]) - 1,))


@std(r"^core::slice::iter::<impl std::iter::IntoIterator for &'\w+ (mut )?\[T\]>::into_iter$|"
     r"^<&'\w+ (mut )?std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$|^std::slice::Iter::<'\w+, T>::new$")
def p_into_iter(sp, I, st, fid, a, path):
    s = get_slice(sp, st, a[0])
    if s is None:
        return None
    if "mut " in path:
        raise Unsupported("levels changed in the middle")
    return ("SI", s[0], pack(s[1]), pack(s[2]))


@std(r"^core::slice::<impl \[T\]>::(len|is_empty|first|last|last_mut|get|iter|split_at|split_first|split_last|iter_mut)$")
def p_slice(sp, I, st, fid, a, path):
    s = get_slice(sp, st, a[0])
    if s is None:
        return None
    ref, lo, hi = s
    name = path.split("::")[-1]
    pv = sp.get_vec(st, ref)
    if name == "len":
        return sp.length(st, s)
    if name == "is_empty":
        return sp.order(st, pv, lo, hi) == 0
    if name == "iter":
        return ("SI", ref, pack(lo), pack(hi))
    if name in ("last_mut", "iter_mut"):
        if name == "iter_mut" or a[0][1][0] == "PS":
            raise Unsupported("levels changed in the middle")
        return opt_of(I, fid, last_explicit(sp, I, st, sp.vec(st, a[0])))
    if name == "split_at":
        b = sp.index(st, s, a[1])
        if b is None:
            return ("PANIC", "mid > len")
        return ("T", (mk_slice(ref, lo, b), mk_slice(ref, b, hi)))
    if name == "get":
        if isinstance(a[1], tuple) and a[1][0] == "A":
            return opt_of(I, fid, slice_range(sp, I, st, s, a[1]))
        b = sp.index(st, s, a[1])
        if b is None or sp.order(st, pv, b, hi) == 0:
            return opt_of(I, fid, None)
        return opt_of(I, fid, ("R", ("V", sp.element(st, pv, b)[0]), ()))
    if sp.order(st, pv, lo, hi) == 0:
        return opt_of(I, fid, None)
    v, b = sp.element(st, pv, lo) if "first" in name else sp.element_before(st, pv, hi)
    v = ("R", ("V", v), ())
    if name in ("first", "last"):
        return opt_of(I, fid, v)
    return opt_of(I, fid, ("T", (v, mk_slice(ref, b, hi) if name == "split_first" else mk_slice(ref, lo, b))))


def slice_range(sp, I, st, s, r):
    ref, lo, hi = s
    x, y = range_ends(I, r)
    x = lo if x is None else sp.index(st, s, x)
    y = hi if y is None else sp.index(st, s, y)
    if x is None or y is None or sp.order(st, sp.get_vec(st, ref), x, y) > 0:
        return None
    return mk_slice(ref, x, y)


@std(r"^<std::vec::Vec<T, A> as std::ops::Index<I>>::index$|^core::slice::index::<impl std::ops::Index<I> for \[T\]>::index$")
def p_index(sp, I, st, fid, a, path):
    s = get_slice(sp, st, a[0])
    if s is None:
        return None
    if isinstance(a[1], tuple) and a[1][0] == "A":
        r = slice_range(sp, I, st, s, a[1])
        return ("PANIC", "range out of bounds") if r is None else r
    b = sp.index(st, s, a[1])
    pv = sp.get_vec(st, s[0])
    if b is None or sp.order(st, pv, b, s[2]) == 0:
        return ("PANIC", "index out of bounds")
    return ("R", ("V", sp.element(st, pv, b)[0]), ())


@std(r"^<std::slice::Iter<'\w+, T> as std::(iter::Iterator|iter::DoubleEndedIterator|iter::ExactSizeIterator|clone::Clone)>::"
     r"(next|next_back|size_hint|count|len|last|clone|nth)$")
def p_iter(sp, I, st, fid, a, path):
    name = path.split("::")[-1]
    by_value = name in ("count", "last")
    if by_value:
        v = a[0]
    else:
        root, pth = deref_all(I, st, a[0])
        v = I.read(st, root, pth)
    if not isinstance(v, tuple) or v[0] != "SI":
        return None
    _, ref, lo, hi = v
    lo, hi = unpack(lo), unpack(hi)
    if name == "clone":
        return v
    if name in ("count", "len"):
        return sp.length(st, (ref, lo, hi))
    pv = sp.get_vec(st, ref)
    if name == "nth" and isinstance(a[1], int) and a[1] < 8:
        e = None
        for _ in range(a[1] + 1):
            if sp.order(st, pv, lo, hi) == 0:
                I.write(st, root, pth, ("SI", ref, pack(lo), pack(hi)))
                return opt_of(I, fid, None)
            e, lo = sp.element(st, pv, lo)
        I.write(st, root, pth, ("SI", ref, pack(lo), pack(hi)))
        return opt_of(I, fid, ("R", ("V", e), ()))
    if name not in ("next", "next_back", "last"):
        raise Unsupported("slice iterator " + name)
    if sp.order(st, pv, lo, hi) == 0:
        return opt_of(I, fid, None)
    e, b = sp.element(st, pv, lo) if name == "next" else sp.element_before(st, pv, hi)
    if not by_value:
        I.write(st, root, pth, ("SI", ref, pack(b), pack(hi)) if name == "next" else ("SI", ref, pack(lo), pack(b)))
    return opt_of(I, fid, ("R", ("V", e), ()))
