"""The properties and how each is decided."""
import specs as S

TRUSTED = [
    "rustc's MIR construction and monomorphisation (nightly 1.101.0)",
    "/verif/mirdump (MIR export) and /verif/engine (abstract interpreter, unverified Python)",
    "the models of std containers, panics and formatting listed in modelled_std_functions",
    "user callbacks, Clone, Drop and Display of user data do not reach into the forest (the borrow checker enforces it)",
]

WHERE = S.Insert.WHERE


class Prop:
    def __init__(self, rule_text, jobs=(), rules=None, static=(), level="proof", release=False,
                 extra_ids=(), assumptions=(), technique=None, note=None):
        self.technique, self.note = technique, note
        self.rule_text, self.jobs, self.rules, self.static = rule_text, list(jobs), rules, list(static)
        self.level, self.release, self.extra_ids = level, release, extra_ids
        self.assumptions = list(assumptions) or [
            "the forest given to the operation is one the public API can build (its links represent a forest)"]


def ins():
    return [("e_insert", S.Insert, {"only": w, "part": w}) for w in WHERE]


import specs_iter as T

SIBS = ["e_children", "e_following_siblings", "e_following_siblings_or_self",
        "e_preceding_siblings", "e_preceding_siblings_or_self"]
NODEQ = [("e_node", T.NodeQueries, {}), ("e_node_mut", T.NodeQueries, {}), ("e_set_data", T.SetData, {})]
LISTS = [(e, T.SiblingRange, {}) for e in SIBS] + [(e, T.Ancestors, {}) for e in ("e_ancestors", "e_ancestors_or_self")]
DFS = [("e_dfs", T.Dfs, {})]
ALIVE = [("e_alive", T.Alive, {})]


MUT = ins() + [("e_detach", S.Detach, {}), ("e_detach_single", S.DetachSingle, {})]
CREATE = [("e_create_root", S.CreateRoot, {}), ("e_create_insert", S.CreateInsert, {})]
REM = [("e_remove_hooked", S.Remove, {"mode": "hooked"}), ("e_remove", S.Remove, {"mode": "drop"}),
       ("e_remove_hooked_panic_safe", S.Remove, {"mode": "safe"})]
NM = [("e_nm_try_adopt", S.NmTryAdopt, {"only": w, "part": w}) for w in WHERE] + \
     [("e_nm_adopt", S.NmAdopt, {"only": w, "part": w}) for w in WHERE] + \
     [("e_nm_create", S.NmCreate, {}), ("e_nm_detach", S.NmDetach, {}), ("e_nm_detach_single", S.NmDetachSingle, {}),
      ("e_nm_remove_hooked", S.Remove, {"mode": "hooked"}), ("e_nm_remove", S.Remove, {"mode": "drop"}),
      ("e_nm_remove_hooked_panic_safe", S.Remove, {"mode": "safe"})]
import specs_clone as CL
import specs_build as SB
CLONE = [("e_clone_local", CL.Clone, {}), ("e_clone_local_plain", CL.Clone, {"mapping": False}),
         ("e_clone_foreign", CL.Clone, {"foreign": True}),
         ("e_clone_foreign_plain", CL.Clone, {"foreign": True, "mapping": False})]
BUILD = [("e_chain", SB.Chain, {}), ("e_nest", SB.Nest, {})]
import specs_num as SN
import typelevel as TL
IDS = [("e_ids_" + w, SN.Ids, {}) for w in ("u8", "u16", "u32", "u64", "usize")]
EFFECT = {"effect", "links", "panic"}

import specs_depth as SD
import specs_queue as SQ

FULL = [("e_full_" + e[0][2:], T.Full, {}) for e in DFS + LISTS]
SHALLOW = [("e_shallow", SD.ShallowDfs, {"modes": (m,), "part": m}) for m in ("none", "limit", "max")]
BFS = [("e_bfs", SD.Bfs, {}), ("e_bfs_alloc", SQ.BfsAlloc, {})]

import specs_print as SP
PRINT = [("e_print", SP.Print, {}), ("e_print_dbg", SP.Print, {})]

# what an operation may cost
def costs(jobs, **cost):
    return [(e, c, dict(kw, cost=cost)) for e, c, kw in jobs]


STEP = DFS + LISTS + SHALLOW + NODEQ + ALIVE
COST = costs(STEP + [("e_detach", S.Detach, {}), ("e_nm_detach", S.NmDetach, {})], rounds=True, noalloc=True) + \
    costs([("e_create_root", S.CreateRoot, {})], rounds=True) + \
    costs(BFS[1:], rounds=True, amortised=True) + \
    costs(BFS[:1] + ins() + [("e_detach_single", S.DetachSingle, {})] + REM +
          [j for j in NM if j[0] not in ("e_nm_create", "e_nm_detach")], noalloc=True)

PROPS = {
    "C01": Prop("after every operation the links stored in the arena are exactly those that represent some forest "
                "(the expected one, else the local link invariants are evaluated to tell corruption from misplacement)",
                MUT + CREATE + REM + NM + CLONE + BUILD, {"links", "safe"}),
    "C02": Prop("after a successful insert the stored links are exactly those of the forest with the subtree moved to "
                "the requested place", ins(), EFFECT),
    "C03": Prop("insert returns Err exactly when the move is impossible, with the right variant, and every link is then "
                "unchanged", ins(), {"rejection"}),
    "C04": Prop("after detach the stored links are exactly those of the forest with the subtree made a separate tree",
                [("e_detach", S.Detach, {})], EFFECT),
    "C05": Prop("after detach_single the stored links are exactly those of the forest with the node taken out and its "
                "children spliced in", [("e_detach_single", S.DetachSingle, {})], EFFECT),
    "C06": Prop("after a creation both arenas have grown by exactly one slot, the returned id is the index of that slot, "
                "the slot holds the datum, and the links are exactly those of the forest with the new leaf in place; no "
                "operation takes slots out of the arenas",
                CREATE + [("e_nm_create", S.NmCreate, {})] +
                [j + ({"ids"},) for j in MUT + REM + NM + CLONE if j[0] != "e_nm_create"],
                EFFECT | {"dead-accepted", "ids"}),
    "C07": Prop("at each callback (or drop) the datum is that of the postorder-first remaining node of the subtree, and "
                "at the return the stored links are exactly those of the forest without the subtree", REM, EFFECT),
    "C08": Prop("at each callback of the panic-safe removal the stored links are exactly those of the forest in which the "
                "subtree is separate and the nodes handed over are gone, or they are so when unwinding ends",
                REM[2:], EFFECT | {"safe"}),
    "C09": Prop("an id that is removed or out of range is refused and leaves every link unchanged; a live id is found",
                ALIVE + MUT + CREATE + REM + NM + CLONE + NODEQ + DFS + LISTS + SHALLOW + BFS, {"dead-accepted"}),
    "C10": Prop("every event returned by the traversal is the one the two-ended cursor over the subtree's events "
                "prescribes", DFS, {"value", "panic", "purity"}),
    "C11": Prop("every node returned is the one the two-ended cursor over the list prescribes", LISTS,
                {"value", "panic", "purity"}),
    "C12": Prop("every event returned by the limited traversal is the one the two-ended cursor over the events of the levels "
                "up to the limit prescribes, with its distance (depths: difference bounds over the abstract forest)",
                SHALLOW, {"value", "panic", "purity"}),
    "C13": Prop("each node returned is the next node of the current level in document order, or the first of the next level "
                "once the shape shows the current one to be exhausted; None only once both are shown to be empty",
                BFS, {"value", "panic", "purity"}),
    "C14": Prop("every relative and datum reported is the one of the abstract forest", NODEQ,
                {"value", "panic", "purity", "effect"}),
    "C15": Prop("each operation of a mutable view has the result and the final links of the forest operation on its node",
                NM, EFFECT | {"rejection", "dead-accepted", "safe"}),
    "C16": Prop("each created node holds a clone of the datum of one source node not cloned before, is the last child of the "
                "copy of that node's parent (whose preceding children are all cloned), is reported once to the mapping "
                "callback, and at the return every node of the subtree is cloned and nothing else is changed",
                CLONE, EFFECT),
    "C17": Prop("after every builder call the stored links are exactly those of the forest with the new node where a "
                "monitor of the builder's position puts it", BUILD, EFFECT),
    "C18": Prop("over all indices (an interval domain with affine terms), the conversion of each id type accepts exactly "
                "0..MAX, the way back gives the same index, comparisons and hashes follow the index, and the layout of an "
                "optional id is that of the id", IDS, {"value", "panic"}),
    "C19": Prop("a monitor follows the text written to the sink character by character: each piece of indentation is the one "
                "the position of the node and its ancestors among their siblings calls for, each text is written whole and in "
                "order, the nodes come in depth-first order, and the result tells whether the sink or a datum failed",
                PRINT, {"value", "panic", "purity"},
                assumptions=["the forest printed is one the public API can build",
                             "the Formatter hands what is written to it on to the sink unchanged (std)",
                             "data are formatted with no width, fill or precision applied to the whole tree"]),
    "C20": Prop("no path from an operation on live nodes ends in a panic other than the documented ones, and every "
                "operation leaves the well-formed links and arenas that this argument starts from",
                MUT + CREATE + REM + NM + CLONE + BUILD + NODEQ + DFS + LISTS + SHALLOW + BFS + PRINT, {"panic", "links"}),
    "C22": Prop("every cycle of loop-head states within one public call has a lexicographic measure (document order of "
                "the event or node a variable stands at, position in a text or among levels, number of data left); no call comes back to the same state; that "
                "whole traversals end follows from C10-C13 (each node once)",
                MUT + CREATE + REM + NM + CLONE + BUILD + NODEQ + DFS + LISTS + SHALLOW + BFS + FULL + PRINT, {"diverges", "repeats"},
                assumptions=["a datum's formatting hands over finitely many pieces of text"]),
    "C23": Prop("no state of one public call's loops lies on a cycle of loop-head states (so its rounds are bounded whatever "
                "the forest; for the allocating breadth-first traversal: no cycle without an element entering or leaving "
                "the queue), and no function called in an operation that must not allocate is an allocating one",
                COST, {"cost"},
                assumptions=["the forest given to the operation is one the public API can build",
                             "std's element accesses are constant-time and its push is amortised constant-time"]),
    "C21": Prop("the crate is type-checked with unsafe code forbidden and none of its types or statics has interior "
                "mutability, so an operation given a shared reference cannot change anything; no function outsiders can call "
                "makes an id from freely made values; client programs that hold a view across a change, or forge ids or "
                "views, are rejected by the compiler for that reason while their twins compile", [], None,
                static=[TL.facts, TL.witnesses], level="proof",
                assumptions=["Rust's type system is sound; user data types have no interior mutability of their own"]),
}

NOT_APPLICABLE = {}
