//! Analysis entry points.  Nothing in this crate is ever executed: the MIR of
//! every `e_*` function and of what it reaches is dumped by /verif/mirdump and
//! interpreted abstractly by /verif/engine.  The `vp` functions are recognised
//! by name and have their meaning only there.
#![allow(dead_code, unused_variables, clippy::all)]
use std::fmt;
use treena::dynamic::*;

pub struct FmtParts<'a>(u8, std::marker::PhantomData<&'a u8>);
pub enum FmtStep<'a> { Text(&'a str), Fail, End }
pub mod vp {
    use super::*;
    macro_rules! intr { ($($(#[$m:meta])* $n:ident $(<$($g:ident),*>)? ( $($a:ident : $t:ty),* ) $(-> $r:ty)? ;)*) => { $(
        #[inline(never)] pub fn $n $(<$($g),*>)? ($($a: $t),*) $(-> $r)? { loop {} }
    )* } }
    intr! {
        choose2() -> bool;
        choose(n: u8) -> u8;
        // loop head of an observation loop
        tok_clone(t: &Tok) -> Tok;
        tok_drop(t: &mut Tok);
        // formatting: the literal pieces of the arguments, and any text (or failure) of each datum
        fmt_begin(a: fmt::Arguments<'_>) -> FmtParts<'_>;
        tok_begin(t: &Tok, dbg: bool) -> FmtParts<'_>;
        fmt_next(p: &FmtParts<'_>) -> FmtStep<'static>;
        tok_new() -> Tok;
        // a user callback: may return or unwind
        hook(t: Tok);
        hook2(a: MyId, b: MyId);
        obs<T>(what: &'static str, v: T);
        check(what: &'static str);
        eq<T>(what: &'static str, a: T, b: T);
        any_usize() -> usize;
    }
    // an array being filled
    #[inline(never)] pub fn array_new<T, const N: usize>() -> [T; N] { loop {} }
    #[inline(never)] pub fn array_push<T, const N: usize>(a: &mut [T; N], x: T) { loop {} }
    #[inline(never)] pub fn unmodelled() -> ! { loop {} }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct MyId(NodeIdUsize);
impl_dynamic_node_id!(MyId, NodeIdUsize, 0);
use treena::impl_dynamic_node_id;

pub struct Tok(u64);
impl Clone for Tok {
    fn clone(&self) -> Tok { vp::tok_clone(self) }
}
impl Drop for Tok {
    fn drop(&mut self) { vp::tok_drop(self) }
}
impl fmt::Display for Tok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { rt::tok_fmt(self, false, f) }
}
impl fmt::Debug for Tok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { rt::tok_fmt(self, true, f) }
}
pub type F = Forest<MyId, Tok>;

// ---- mutators ---------------------------------------------------------
pub fn e_insert(f: &mut F, n: MyId, d: InsertAs<MyId>) -> Result<(), StructureError> { f.insert(n, d) }
pub fn e_detach(f: &mut F, n: MyId) { f.detach(n) }
pub fn e_detach_single(f: &mut F, n: MyId) -> Result<(), StructureError> { f.detach_single(n) }
pub fn e_create_root(f: &mut F, t: Tok) -> MyId { f.create_root(t) }
pub fn e_create_insert(f: &mut F, t: Tok, d: InsertAs<MyId>) -> MyId { f.create_insert(t, d) }
pub fn e_remove_hooked_panic_safe(f: &mut F, n: MyId) { f.remove_hooked_panic_safe(n, |t| vp::hook(t)) }
pub fn e_remove_hooked(f: &mut F, n: MyId) { f.remove_hooked(n, |t| vp::hook(t)) }
pub fn e_remove(f: &mut F, n: MyId) { f.remove(n) }

// ---- cloning
pub fn e_clone_local(f: &mut F, n: MyId) -> MyId { f.clone_local_tree_with_id_mapping(n, |a, b| vp::hook2(a, b)) }
pub fn e_clone_local_plain(f: &mut F, n: MyId) -> MyId { f.clone_local_tree(n) }
pub fn e_clone_foreign(f: &mut F, g: &F, n: MyId) -> MyId {
    match g.node(n) { Some(v) => f.clone_foreign_tree_with_id_mapping(v, |a, b| vp::hook2(a, b)), None => { vp::check("none"); loop {} } }
}
pub fn e_clone_foreign_plain(f: &mut F, g: &F, n: MyId) -> MyId {
    match g.node(n) { Some(v) => f.clone_foreign_tree(v), None => { vp::check("none"); loop {} } }
}

// ---- builders
pub fn e_chain(f: &mut F, t: Tok) {
    let mut b = ChainTreeBuilder::new(f, t);
    vp::check("new");
    loop {
        match vp::choose(9) {
            0 => { vp::check("child"); b.child(vp::tok_new()); vp::check("done"); }
            1 => { vp::check("sibling"); b.sibling(vp::tok_new()); vp::check("done"); }
            2 => { vp::check("try_parent"); let r = b.try_parent().is_some(); vp::obs("try_parent", r); }
            3 => { vp::check("parent"); b.parent(); vp::check("done"); }
            4 => vp::obs("root", b.root_id()),
            5 => vp::obs("current", b.current_id()),
            6 => vp::obs("forest", b.forest()),
            7 => vp::obs("forest", &*b.forest_mut()),
            _ => { vp::check("child"); let i = b.child(vp::tok_new()).current_id(); vp::check("done"); vp::obs("current", i); }
        }
    }
}
pub fn e_nest(f: &mut F, t: Tok) {
    let mut b = NestTreeBuilder::new(f, t);
    vp::check("new");
    loop {
        match vp::choose(3) {
            0 => { vp::check("add_child"); b.add_child(vp::tok_new()); vp::check("done"); }
            1 => vp::obs("root", b.root()),
            _ => {
                vp::check("create_tree");
                b.create_tree(vp::tok_new(), |b| {
                    vp::check("enter");
                    loop {
                        match vp::choose(4) {
                            0 => { vp::check("add_child"); b.add_child(vp::tok_new()); vp::check("done"); }
                            1 => vp::obs("root", b.root()),
                            2 => {
                                vp::check("create_tree");
                                b.create_tree(vp::tok_new(), |b| {
                                    vp::check("enter");
                                    loop {
                                        match vp::choose(3) {
                                            0 => { vp::check("add_child"); b.add_child(vp::tok_new()); vp::check("done"); }
                                            1 => vp::obs("root", b.root()),
                                            _ => break,
                                        }
                                    }
                                    vp::check("exit");
                                });
                                vp::check("done");
                            }
                            _ => break,
                        }
                    }
                    vp::check("exit");
                });
                vp::check("done");
            }
        }
    }
}

// the same operations through NodeMut
macro_rules! via_mut { ($f:expr, $n:expr, $v:ident, $b:expr) => {
    match $f.node_mut($n) { Some(mut $v) => $b, None => { vp::check("none"); loop {} } }
} }
pub fn e_nm_try_adopt(f: &mut F, a: MyId, n: MyId, d: AdoptAs) -> Result<(), StructureError> { via_mut!(f, a, v, v.try_adopt(n, d)) }
pub fn e_nm_adopt(f: &mut F, a: MyId, n: MyId, d: AdoptAs) { via_mut!(f, a, v, v.adopt(n, d)) }
pub fn e_nm_create(f: &mut F, t: Tok, a: MyId, d: AdoptAs) -> MyId { via_mut!(f, a, v, v.create(t, d)) }
pub fn e_nm_detach(f: &mut F, n: MyId) { via_mut!(f, n, v, v.detach()) }
pub fn e_nm_detach_single(f: &mut F, n: MyId) -> Result<(), StructureError> { via_mut!(f, n, v, v.detach_single()) }
pub fn e_nm_remove_hooked_panic_safe(f: &mut F, n: MyId) { via_mut!(f, n, v, v.remove_hooked_panic_safe(|t| vp::hook(t))) }
pub fn e_nm_remove_hooked(f: &mut F, n: MyId) { via_mut!(f, n, v, v.remove_hooked(|t| vp::hook(t))) }
pub fn e_nm_remove(f: &mut F, n: MyId) { via_mut!(f, n, v, v.remove()) }

// ---- traversals -------------------------------------------------------
type Nd<'a> = (MyId, &'a Tok, &'a F);
fn nd<'a>(n: Node<'a, MyId, Tok>) -> Nd<'a> { (n.id(), n.data(), n.forest()) }
fn ev<'a>(e: DftEvent<Node<'a, MyId, Tok>>) -> (bool, Nd<'a>) {
    match e { DftEvent::Open(n) => (true, nd(n)), DftEvent::Close(n) => (false, nd(n)) }
}
/// an iterator obtained either from the forest or from the node
macro_rules! start { ($f:ident, $n:ident, $m:ident ( $($a:expr),* )) => {
    if vp::choose2() { $f.$m($n $(, $a)*) } else {
        match $f.node($n) { Some(v) => v.$m($($a),*), None => { vp::check("none"); loop {} } }
    }
} }
/// provided methods of iterators: of interest where the library overrides them, else std's
pub mod ov {
    pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> { it.nth(n) }
    pub fn nth_back<I: DoubleEndedIterator>(it: &mut I, n: usize) -> Option<I::Item> { it.nth_back(n) }
    pub fn last<I: Iterator>(it: I) -> Option<I::Item> { it.last() }
}
macro_rules! overridden_back { ($it:ident, $c:expr) => {
    match vp::choose(3) {
        0 => { let mut a = $it.clone(); let x = ov::nth_back(&mut $it, 0); vp::obs("back", match x { Some(x) => Some($c(x)), None => None }) }
        1 => { let mut a = $it.clone(); let x = ov::nth_back(&mut $it, 1);
               vp::obs("back", match a.next_back() { Some(x) => Some($c(x)), None => None });
               vp::obs("back", match x { Some(x) => Some($c(x)), None => None }) }
        _ => vp::obs("peek_back", match ov::last($it.clone()) { Some(x) => Some($c(x)), None => None }),
    }
} }
macro_rules! overridden { ($it:ident, $c:expr) => {
    match vp::choose2() {
        true => { let mut a = $it.clone(); let x = ov::nth(&mut $it, 0); vp::obs("next", match x { Some(x) => Some($c(x)), None => None }) }
        _ => { let mut a = $it.clone(); let x = ov::nth(&mut $it, 1);
               vp::obs("next", match a.next() { Some(x) => Some($c(x)), None => None });
               vp::obs("next", match x { Some(x) => Some($c(x)), None => None }) }
    }
} }
macro_rules! both { ($f:ident, $n:ident, $m:ident ( $($a:expr),* ), $c:expr) => {
    let mut it = start!($f, $n, $m($($a),*));
    loop {
        match vp::choose(8) {
            6 => overridden!(it, $c),
            7 => overridden_back!(it, $c),
            0 => vp::obs("next", match it.next() { Some(x) => Some($c(x)), None => None }),
            1 => vp::obs("back", match it.next_back() { Some(x) => Some($c(x)), None => None }),
            2 => vp::obs("peek", match it.peek() { Some(x) => Some($c(x)), None => None }),
            3 => vp::obs("peek_back", match it.peek_back() { Some(x) => Some($c(x)), None => None }),
            4 => vp::obs("size_hint", it.size_hint()),
            _ => { let c = it.clone(); it = c; }
        }
    }
} }
fn sev<'a>(e: (DftEvent<Node<'a, MyId, Tok>>, usize)) -> (bool, Nd<'a>, usize) { let (a, b) = ev(e.0); (a, b, e.1) }
fn dn<'a>(e: (Node<'a, MyId, Tok>, usize)) -> (Nd<'a>, usize) { (nd(e.0), e.1) }
pub fn e_dfs(f: &F, n: MyId) { both!(f, n, depth_first_traverse(), ev); }
pub fn e_shallow(f: &F, n: MyId, m: Option<usize>) {
    let mut it = start!(f, n, shallow_depth_first_traverse(m));
    loop {
        match vp::choose(9) {
            7 => overridden!(it, sev),
            8 => overridden_back!(it, sev),
            0 => vp::obs("next", match it.next() { Some(x) => Some(sev(x)), None => None }),
            1 => vp::obs("back", match it.next_back() { Some(x) => Some(sev(x)), None => None }),
            2 => vp::obs("peek", match it.peek() { Some(x) => Some(sev(x)), None => None }),
            3 => vp::obs("peek_back", match it.peek_back() { Some(x) => Some(sev(x)), None => None }),
            4 => vp::obs("size_hint", it.size_hint()),
            5 => vp::obs("max_depth", it.max_depth()),
            _ => { let c = it.clone(); it = c; }
        }
    }
}
pub fn e_children(f: &F, n: MyId) { both!(f, n, children(), nd); }
pub fn e_following_siblings(f: &F, n: MyId) { both!(f, n, following_siblings(), nd); }
pub fn e_following_siblings_or_self(f: &F, n: MyId) { both!(f, n, following_siblings_or_self(), nd); }
pub fn e_preceding_siblings(f: &F, n: MyId) { both!(f, n, preceding_siblings(), nd); }
pub fn e_preceding_siblings_or_self(f: &F, n: MyId) { both!(f, n, preceding_siblings_or_self(), nd); }
macro_rules! fwd { ($it:ident, $c:expr) => {
    loop {
        match vp::choose(5) {
            4 => overridden!($it, $c),
            0 => vp::obs("next", match $it.next() { Some(x) => Some($c(x)), None => None }),
            1 => vp::obs("peek", match $it.peek() { Some(x) => Some($c(x)), None => None }),
            2 => vp::obs("size_hint", $it.size_hint()),
            _ => { let c = $it.clone(); $it = c; }
        }
    }
} }
pub fn e_ancestors(f: &F, n: MyId) { let mut it = start!(f, n, ancestors()); fwd!(it, nd); }
pub fn e_ancestors_or_self(f: &F, n: MyId) { let mut it = start!(f, n, ancestors_or_self()); fwd!(it, nd); }

pub fn e_bfs(f: &F, n: MyId) {
    let mut it = start!(f, n, breadth_first_traverse());
    loop {
        match vp::choose(4) {
            3 => overridden!(it, dn),
            0 => vp::obs("next", match it.next() { Some(x) => Some(dn(x)), None => None }),
            1 => vp::obs("size_hint", it.size_hint()),
            _ => { let c = it.clone(); it = c; }
        }
    }
}
pub fn e_bfs_alloc(f: &F, n: MyId) { let mut it = start!(f, n, allocating_breadth_first_traverse()); fwd!(it, dn); }

// whole traversals, from either end or both; their loops count as the library's
pub mod rt_full {
    use super::vp;
    pub fn both<I: DoubleEndedIterator>(mut it: I) {
        match vp::choose(3) {
            0 => while let Some(_) = it.next() {},
            1 => while let Some(_) = it.next_back() {},
            _ => while let Some(_) = if vp::choose2() { it.next() } else { it.next_back() } {},
        }
        vp::obs("end", ());
    }
    pub fn fwd<I: Iterator>(mut it: I) {
        while let Some(_) = it.next() {}
        vp::obs("end", ());
    }
}
pub fn e_full_dfs(f: &F, n: MyId) { rt_full::both(start!(f, n, depth_first_traverse())) }
pub fn e_full_children(f: &F, n: MyId) { rt_full::both(start!(f, n, children())) }
pub fn e_full_following_siblings(f: &F, n: MyId) { rt_full::both(start!(f, n, following_siblings())) }
pub fn e_full_following_siblings_or_self(f: &F, n: MyId) { rt_full::both(start!(f, n, following_siblings_or_self())) }
pub fn e_full_preceding_siblings(f: &F, n: MyId) { rt_full::both(start!(f, n, preceding_siblings())) }
pub fn e_full_preceding_siblings_or_self(f: &F, n: MyId) { rt_full::both(start!(f, n, preceding_siblings_or_self())) }
pub fn e_full_ancestors(f: &F, n: MyId) { rt_full::fwd(start!(f, n, ancestors())) }
pub fn e_full_ancestors_or_self(f: &F, n: MyId) { rt_full::fwd(start!(f, n, ancestors_or_self())) }

// ---- debug printing ------------------------------------------------------
macro_rules! print { ($e:ident, $m:ident) => {
    pub fn $e(f: &mut F, n: MyId, out: &mut fmt::Formatter<'_>) -> fmt::Result {
        match vp::choose(3) {
            0 => fmt::$m::fmt(&f.debug_print(n), out),
            1 => match f.node(n) { Some(v) => fmt::$m::fmt(&v.debug_print(), out), None => { vp::check("none"); loop {} } },
            _ => match f.node_mut(n) { Some(v) => fmt::$m::fmt(&v.debug_print(), out), None => { vp::check("none"); loop {} } },
        }
    }
} }
print!(e_print, Display);
print!(e_print_dbg, Debug);

// ---- single-node queries ------------------------------------------------
fn on<'a>(n: Option<Node<'a, MyId, Tok>>) -> Option<Nd<'a>> { match n { Some(n) => Some(nd(n)), None => None } }
pub fn e_node(f: &F, n: MyId) {
    let v = match f.node(n) { Some(v) => v, None => { vp::check("none"); loop {} } };
    match vp::choose(14) {
        0 => vp::obs("self", Some(nd(v))),
        1 => vp::obs("parent", on(v.parent())),
        2 => vp::obs("next_sibling", on(v.next_sibling())),
        3 => vp::obs("prev_sibling", on(v.prev_sibling())),
        4 => vp::obs("first_child", on(v.first_child())),
        5 => vp::obs("last_child", on(v.last_child())),
        6 => vp::obs("first_last_child", match v.first_last_child() { Some((a, b)) => Some((nd(a), nd(b))), None => None }),
        7 => vp::obs("parent_id", v.parent_id()),
        8 => vp::obs("next_sibling_id", v.next_sibling_id()),
        9 => vp::obs("prev_sibling_id", v.prev_sibling_id()),
        10 => vp::obs("first_child_id", v.first_child_id()),
        11 => vp::obs("last_child_id", v.last_child_id()),
        12 => vp::obs("first_last_child_id", v.first_last_child_id()),
        _ => { let w = v.clone(); vp::obs("self", Some(nd(w))) }
    }
}
pub fn e_alive(f: &mut F, n: MyId) {
    match vp::choose(4) {
        0 => vp::obs("node", f.node(n).is_some()),
        1 => vp::obs("node_mut", f.node_mut(n).is_some()),
        2 => vp::obs("data", f.data(n)),
        _ => { let d = match f.data_mut(n) { Some(d) => Some(&*d), None => None }; vp::obs("data", d) }
    }
}
pub fn e_node_mut(f: &mut F, n: MyId) {
    let mut v = match f.node_mut(n) { Some(v) => v, None => { vp::check("none"); loop {} } };
    match vp::choose(7) {
        0 => vp::obs("self", Some(nd(v.node()))),
        1 => vp::obs("id", Some(v.id())),
        2 => vp::obs("data", Some(v.data())),
        3 => vp::obs("data", Some(&*v.data_mut())),
        4 => vp::obs("self", Some(nd(v.into_node()))),
        5 => vp::obs("data", Some(&*v.into_data_ref_mut())),
        _ => vp::obs("forest", v.forest()),
    }
}
pub fn e_set_data(f: &mut F, n: MyId, t: Tok) {
    match vp::choose(3) {
        0 => { if let Some(d) = f.data_mut(n) { *d = t; } else { vp::check("none"); std::mem::forget(t); } }
        1 => { if let Some(mut v) = f.node_mut(n) { *v.data_mut() = t; } else { vp::check("none"); std::mem::forget(t); } }
        _ => { if let Some(v) = f.node_mut(n) { *v.into_data_ref_mut() = t; } else { vp::check("none"); std::mem::forget(t); } }
    }
}

// ---- ids of every width ---------------------------------------------------
struct RecHasher;
impl std::hash::Hasher for RecHasher {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, bytes: &[u8]) { vp::obs("bytes", bytes.len()); loop {} }
    fn write_u8(&mut self, i: u8) { vp::obs("hash", i) }
    fn write_u16(&mut self, i: u16) { vp::obs("hash", i) }
    fn write_u32(&mut self, i: u32) { vp::obs("hash", i) }
    fn write_u64(&mut self, i: u64) { vp::obs("hash", i) }
    fn write_usize(&mut self, i: usize) { vp::obs("hash", i) }
}
macro_rules! ids { ($($Id:ident: $conv:ident $eq:ident $ne:ident $lt:ident $le:ident $gt:ident $ge:ident $cmp:ident $pcmp:ident
        $max:ident $min:ident $clone:ident $hash:ident $wrap:ident $W:ident),*) => { $(
    // makes the conversions of the id type reachable
    pub fn $conv(f: &mut Forest<$Id, Tok>, a: $Id) { f.create_root(vp::tok_new()); f.data(a); }
    pub fn $eq(a: $Id, b: $Id) -> bool { a == b }
    pub fn $ne(a: $Id, b: $Id) -> bool { a != b }
    pub fn $lt(a: $Id, b: $Id) -> bool { a < b }
    pub fn $le(a: $Id, b: $Id) -> bool { a <= b }
    pub fn $gt(a: $Id, b: $Id) -> bool { a > b }
    pub fn $ge(a: $Id, b: $Id) -> bool { a >= b }
    pub fn $cmp(a: $Id, b: $Id) -> std::cmp::Ordering { Ord::cmp(&a, &b) }
    pub fn $pcmp(a: $Id, b: $Id) -> Option<std::cmp::Ordering> { PartialOrd::partial_cmp(&a, &b) }
    pub fn $max(a: $Id, b: $Id) -> $Id { Ord::max(a, b) }
    pub fn $min(a: $Id, b: $Id) -> $Id { Ord::min(a, b) }
    pub fn $clone(a: &$Id, b: $Id) -> $Id { Clone::clone(a) }
    pub fn $hash(a: $Id, b: $Id) {
        let mut h = RecHasher;
        std::hash::Hash::hash(&a, &mut h);
        std::hash::Hash::hash(&b, &mut h);
    }
    // a wrapper made by the crate's macro keeps the id it wraps
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
    pub struct $W { under: $Id }
    impl_dynamic_node_id!($W, $Id, under);
    pub fn $wrap(a: $Id, b: $Id) -> $Id { $W::from_internal($W::from_internal(a).to_internal()).to_internal() }
)* } }
ids! {
    NodeIdU8: e_ids_u8 e_idc_eq_u8 e_idc_ne_u8 e_idc_lt_u8 e_idc_le_u8 e_idc_gt_u8 e_idc_ge_u8 e_idc_cmp_u8 e_idc_pcmp_u8 e_idc_max_u8 e_idc_min_u8 e_idc_clone_u8 e_idc_hash_u8 e_idc_wrap_u8 WrapU8,
    NodeIdU16: e_ids_u16 e_idc_eq_u16 e_idc_ne_u16 e_idc_lt_u16 e_idc_le_u16 e_idc_gt_u16 e_idc_ge_u16 e_idc_cmp_u16 e_idc_pcmp_u16 e_idc_max_u16 e_idc_min_u16 e_idc_clone_u16 e_idc_hash_u16 e_idc_wrap_u16 WrapU16,
    NodeIdU32: e_ids_u32 e_idc_eq_u32 e_idc_ne_u32 e_idc_lt_u32 e_idc_le_u32 e_idc_gt_u32 e_idc_ge_u32 e_idc_cmp_u32 e_idc_pcmp_u32 e_idc_max_u32 e_idc_min_u32 e_idc_clone_u32 e_idc_hash_u32 e_idc_wrap_u32 WrapU32,
    NodeIdU64: e_ids_u64 e_idc_eq_u64 e_idc_ne_u64 e_idc_lt_u64 e_idc_le_u64 e_idc_gt_u64 e_idc_ge_u64 e_idc_cmp_u64 e_idc_pcmp_u64 e_idc_max_u64 e_idc_min_u64 e_idc_clone_u64 e_idc_hash_u64 e_idc_wrap_u64 WrapU64,
    NodeIdUsize: e_ids_usize e_idc_eq_usize e_idc_ne_usize e_idc_lt_usize e_idc_le_usize e_idc_gt_usize e_idc_ge_usize e_idc_cmp_usize e_idc_pcmp_usize e_idc_max_usize e_idc_min_usize e_idc_clone_usize e_idc_hash_usize e_idc_wrap_usize WrapUsize
}

/// Plain versions of the collective operations of std's containers, which the analysis follows
/// in their place (same generic parameters, same meaning).
pub mod rt {
    use super::*;
    use std::collections::VecDeque;
    fn parts<W: fmt::Write + ?Sized>(w: &mut W, p: FmtParts<'_>) -> fmt::Result {
        loop {
            match vp::fmt_next(&p) {
                FmtStep::Text(s) => w.write_str(s)?,
                FmtStep::Fail => return Err(fmt::Error),
                FmtStep::End => return Ok(()),
            }
        }
    }
    pub fn tok_fmt(t: &Tok, dbg: bool, f: &mut fmt::Formatter<'_>) -> fmt::Result { parts(f, vp::tok_begin(t, dbg)) }
    pub fn write_fmt<W: fmt::Write + ?Sized>(w: &mut W, a: fmt::Arguments<'_>) -> fmt::Result { parts(w, vp::fmt_begin(a)) }
    pub fn formatter_write_fmt(w: &mut fmt::Formatter<'_>, a: fmt::Arguments<'_>) -> fmt::Result { parts(w, vp::fmt_begin(a)) }
    pub fn vec_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
        for x in it {
            v.push(x);
        }
    }
    pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
        let mut v = Vec::new();
        for x in it {
            v.push(x);
        }
        v
    }
    pub fn vec_extend_from_slice<T: Clone, A>(v: &mut Vec<T>, s: &[T]) {
        for x in s {
            v.push(x.clone());
        }
    }
    pub fn vec_resize_with<T, A, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) {
        v.truncate(n);
        while v.len() < n {
            v.push(f());
        }
    }
    pub fn deque_extend<T, A, I: IntoIterator<Item = T>>(v: &mut VecDeque<T>, it: I) {
        for x in it {
            v.push_back(x);
        }
    }
    pub fn deque_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> VecDeque<T> {
        let mut v = VecDeque::new();
        for x in it {
            v.push_back(x);
        }
        v
    }
    pub fn deque_from_array<T, const N: usize>(a: [T; N]) -> VecDeque<T> {
        let mut v = VecDeque::new();
        for x in a {
            v.push_back(x);
        }
        v
    }
    pub fn deque_index<T, A>(v: &VecDeque<T>, i: usize) -> &T {
        v.get(i).expect("Out of bounds access")
    }
    pub fn deque_append<T, A>(v: &mut VecDeque<T>, o: &mut VecDeque<T>) {
        while let Some(x) = o.pop_front() {
            v.push_back(x);
        }
    }

    pub fn vec_insert<T, A>(v: &mut Vec<T>, i: usize, x: T) {
        if i == v.len() {
            v.push(x);
        } else {
            vp::unmodelled();
        }
    }
    pub fn array_map<T, const N: usize, F: FnMut(T) -> U, U>(a: [T; N], mut f: F) -> [U; N] {
        let mut out = vp::array_new();
        for x in a {
            vp::array_push(&mut out, f(x));
        }
        out
    }
    pub fn array_from_fn<T, const N: usize, F: FnMut(usize) -> T>(mut f: F) -> [T; N] {
        let mut out = vp::array_new();
        let mut i = 0;
        while i < N {
            vp::array_push(&mut out, f(i));
            i += 1;
        }
        out
    }

    // a slice's iterator, element by element
    use std::slice::Iter;
    pub fn slice_for_each<'a, T, F: FnMut(&'a T)>(mut it: Iter<'a, T>, mut f: F) where 'a: 'a {
        while let Some(x) = it.next() {
            f(x);
        }
    }
    pub fn slice_fold<'a, T, B, F: FnMut(B, &'a T) -> B>(mut it: Iter<'a, T>, init: B, mut f: F) -> B where 'a: 'a {
        let mut b = init;
        while let Some(x) = it.next() {
            b = f(b, x);
        }
        b
    }
    pub fn slice_all<'a, T, F: FnMut(&'a T) -> bool>(it: &mut Iter<'a, T>, mut f: F) -> bool where 'a: 'a {
        while let Some(x) = it.next() {
            if !f(x) {
                return false;
            }
        }
        true
    }
    pub fn slice_any<'a, T, F: FnMut(&'a T) -> bool>(it: &mut Iter<'a, T>, mut f: F) -> bool where 'a: 'a {
        while let Some(x) = it.next() {
            if f(x) {
                return true;
            }
        }
        false
    }
    pub fn str_find<P: FnMut(char) -> bool>(s: &str, mut p: P) -> Option<usize> {
        for (i, c) in s.char_indices() {
            if p(c) {
                return Some(i);
            }
        }
        None
    }
    pub fn slice_find<'a, T, P: FnMut(&&'a T) -> bool>(it: &mut Iter<'a, T>, mut p: P) -> Option<&'a T> where 'a: 'a {
        while let Some(x) = it.next() {
            if p(&x) {
                return Some(x);
            }
        }
        None
    }
    pub fn slice_find_map<'a, T, B, F: FnMut(&'a T) -> Option<B>>(it: &mut Iter<'a, T>, mut f: F) -> Option<B> where 'a: 'a {
        while let Some(x) = it.next() {
            if let Some(y) = f(x) {
                return Some(y);
            }
        }
        None
    }
    pub fn slice_position<'a, T, P: FnMut(&'a T) -> bool>(it: &mut Iter<'a, T>, mut p: P) -> Option<usize> where 'a: 'a {
        let mut i = 0;
        while let Some(x) = it.next() {
            if p(x) {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn slice_rposition<'a, T, P: FnMut(&'a T) -> bool>(it: &mut Iter<'a, T>, mut p: P) -> Option<usize> where 'a: 'a {
        let mut i = it.len();
        while let Some(x) = it.next_back() {
            i -= 1;
            if p(x) {
                return Some(i);
            }
        }
        None
    }
}
