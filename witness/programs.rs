//! Programs a client may try to write.  Each `//# name` section is compiled on its own against the
//! crate (with the prelude).  A line ending in `//~ CODES` must be rejected with one of the codes;
//! the section without that line must compile.  `//# ok` sections must compile as they are.

//# prelude
use treena::dynamic::*;
type F = Forest<NodeIdUsize, String>;
type Id = NodeIdUsize;
fn s() -> String { String::new() }

//# node_across_create_root
pub fn w(f: &mut F, n: Id, m: Id) {
    let v = f.node(n).unwrap();
    f.create_root(s()); //~ E0502
    drop(v.data());
}

//# node_across_create_insert
pub fn w(f: &mut F, n: Id, m: Id) {
    let v = f.node(n).unwrap();
    f.create_insert(s(), InsertAs::LastChildOf(n)); //~ E0502
    drop(v.data());
}

//# node_across_insert
pub fn w(f: &mut F, n: Id, m: Id) {
    let v = f.node(n).unwrap();
    let _ = f.insert(n, InsertAs::LastChildOf(m)); //~ E0502
    drop(v.data());
}

//# node_across_detach
pub fn w(f: &mut F, n: Id, m: Id) {
    let v = f.node(n).unwrap();
    f.detach(n); //~ E0502
    drop(v.data());
}

//# node_across_detach_single
pub fn w(f: &mut F, n: Id, m: Id) {
    let v = f.node(n).unwrap();
    let _ = f.detach_single(n); //~ E0502
    drop(v.data());
}

//# node_across_remove
pub fn w(f: &mut F, n: Id, m: Id) {
    let v = f.node(n).unwrap();
    f.remove(n); //~ E0502
    drop(v.data());
}

//# node_across_remove_hooked
pub fn w(f: &mut F, n: Id, m: Id) {
    let v = f.node(n).unwrap();
    f.remove_hooked(n, drop); //~ E0502
    drop(v.data());
}

//# node_across_remove_hooked_panic_safe
pub fn w(f: &mut F, n: Id, m: Id) {
    let v = f.node(n).unwrap();
    f.remove_hooked_panic_safe(n, drop); //~ E0502
    drop(v.data());
}

//# node_across_clone_local_tree
pub fn w(f: &mut F, n: Id, m: Id) {
    let v = f.node(n).unwrap();
    f.clone_local_tree(n); //~ E0502
    drop(v.data());
}

//# node_across_node_mut
pub fn w(f: &mut F, n: Id, m: Id) {
    let v = f.node(n).unwrap();
    f.node_mut(n); //~ E0502
    drop(v.data());
}

//# node_across_data_mut
pub fn w(f: &mut F, n: Id, m: Id) {
    let v = f.node(n).unwrap();
    f.data_mut(n); //~ E0502
    drop(v.data());
}

//# children_across_detach
pub fn w(f: &mut F, n: Id) {
    let mut it = f.children(n);
    f.detach(n); //~ E0502
    drop(it.next());
}

//# children_item_across_remove
pub fn w(f: &mut F, n: Id) {
    let x = f.children(n).next();
    f.remove(n); //~ E0502
    drop(x);
}

//# following_siblings_across_detach
pub fn w(f: &mut F, n: Id) {
    let mut it = f.following_siblings(n);
    f.detach(n); //~ E0502
    drop(it.next());
}

//# following_siblings_item_across_remove
pub fn w(f: &mut F, n: Id) {
    let x = f.following_siblings(n).next();
    f.remove(n); //~ E0502
    drop(x);
}

//# following_siblings_or_self_across_detach
pub fn w(f: &mut F, n: Id) {
    let mut it = f.following_siblings_or_self(n);
    f.detach(n); //~ E0502
    drop(it.next());
}

//# following_siblings_or_self_item_across_remove
pub fn w(f: &mut F, n: Id) {
    let x = f.following_siblings_or_self(n).next();
    f.remove(n); //~ E0502
    drop(x);
}

//# preceding_siblings_across_detach
pub fn w(f: &mut F, n: Id) {
    let mut it = f.preceding_siblings(n);
    f.detach(n); //~ E0502
    drop(it.next());
}

//# preceding_siblings_item_across_remove
pub fn w(f: &mut F, n: Id) {
    let x = f.preceding_siblings(n).next();
    f.remove(n); //~ E0502
    drop(x);
}

//# preceding_siblings_or_self_across_detach
pub fn w(f: &mut F, n: Id) {
    let mut it = f.preceding_siblings_or_self(n);
    f.detach(n); //~ E0502
    drop(it.next());
}

//# preceding_siblings_or_self_item_across_remove
pub fn w(f: &mut F, n: Id) {
    let x = f.preceding_siblings_or_self(n).next();
    f.remove(n); //~ E0502
    drop(x);
}

//# ancestors_across_detach
pub fn w(f: &mut F, n: Id) {
    let mut it = f.ancestors(n);
    f.detach(n); //~ E0502
    drop(it.next());
}

//# ancestors_item_across_remove
pub fn w(f: &mut F, n: Id) {
    let x = f.ancestors(n).next();
    f.remove(n); //~ E0502
    drop(x);
}

//# ancestors_or_self_across_detach
pub fn w(f: &mut F, n: Id) {
    let mut it = f.ancestors_or_self(n);
    f.detach(n); //~ E0502
    drop(it.next());
}

//# ancestors_or_self_item_across_remove
pub fn w(f: &mut F, n: Id) {
    let x = f.ancestors_or_self(n).next();
    f.remove(n); //~ E0502
    drop(x);
}

//# depth_first_traverse_across_detach
pub fn w(f: &mut F, n: Id) {
    let mut it = f.depth_first_traverse(n);
    f.detach(n); //~ E0502
    drop(it.next());
}

//# depth_first_traverse_item_across_remove
pub fn w(f: &mut F, n: Id) {
    let x = f.depth_first_traverse(n).next();
    f.remove(n); //~ E0502
    drop(x);
}

//# breadth_first_traverse_across_detach
pub fn w(f: &mut F, n: Id) {
    let mut it = f.breadth_first_traverse(n);
    f.detach(n); //~ E0502
    drop(it.next());
}

//# breadth_first_traverse_item_across_remove
pub fn w(f: &mut F, n: Id) {
    let x = f.breadth_first_traverse(n).next();
    f.remove(n); //~ E0502
    drop(x);
}

//# allocating_breadth_first_traverse_across_detach
pub fn w(f: &mut F, n: Id) {
    let mut it = f.allocating_breadth_first_traverse(n);
    f.detach(n); //~ E0502
    drop(it.next());
}

//# allocating_breadth_first_traverse_item_across_remove
pub fn w(f: &mut F, n: Id) {
    let x = f.allocating_breadth_first_traverse(n).next();
    f.remove(n); //~ E0502
    drop(x);
}

//# shallow_depth_first_traverse_across_detach
pub fn w(f: &mut F, n: Id) {
    let mut it = f.shallow_depth_first_traverse(n, Some(1));
    f.detach(n); //~ E0502
    drop(it.next());
}

//# data_across_remove
pub fn w(f: &mut F, n: Id) -> usize {
    let d = f.data(n).unwrap();
    f.remove(n); //~ E0502
    d.len()
}

//# node_data_across_remove
pub fn w(f: &mut F, n: Id) -> usize {
    let d = { let v = f.node(n).unwrap(); v.forest().data(n).unwrap() };
    f.remove(n); //~ E0502
    d.len()
}

//# data_mut_across_read
pub fn w(f: &mut F, n: Id) {
    let d = f.data_mut(n).unwrap();
    drop(f.data(n)); //~ E0502
    d.clear();
}

//# data_mut_twice
pub fn w(f: &mut F, n: Id, m: Id) {
    let d = f.data_mut(n).unwrap();
    drop(f.data_mut(m)); //~ E0499
    d.clear();
}

//# node_mut_across_read
pub fn w(f: &mut F, n: Id) {
    let v = f.node_mut(n).unwrap();
    drop(f.node(n)); //~ E0502
    drop(v);
}

//# node_mut_twice
pub fn w(f: &mut F, n: Id, m: Id) {
    let v = f.node_mut(n).unwrap();
    drop(f.node_mut(m)); //~ E0499
    drop(v);
}

//# node_mut_copied
pub fn w(f: &mut F, n: Id) {
    let v = f.node_mut(n).unwrap();
    drop(v.clone()); //~ E0599
    drop(v);
}

//# node_mut_view_across_change
pub fn w(f: &mut F, n: Id) {
    let mut v = f.node_mut(n).unwrap();
    let r = v.node();
    v.detach(); //~ E0502
    drop(r.data());
}

//# node_mut_used_after_remove
pub fn w(f: &mut F, n: Id) {
    let v = f.node_mut(n).unwrap();
    v.remove();
    drop(v.id()); //~ E0382
}

//# node_mut_from_shared
pub fn w(f: &F, n: Id) {
    drop(f.node_mut(n)); //~ E0596
}

//# mutation_from_shared
pub fn w(f: &F, n: Id) {
    f.detach(n); //~ E0596
}

//# insert_from_shared
pub fn w(f: &F, n: Id) {
    drop(f.insert(n, InsertAs::FirstChildOf(n))); //~ E0596
}

//# data_mut_from_shared
pub fn w(f: &F, n: Id) {
    drop(f.data_mut(n)); //~ E0596
}

//# mutation_through_node
pub fn w(v: Node<'_, Id, String>, n: Id) {
    v.forest().detach(n); //~ E0596
}

//# chain_builder_across_read
pub fn w(f: &mut F) {
    let mut b = ChainTreeBuilder::new(f, s());
    drop(f.node(b.root_id())); //~ E0502
    b.child(s());
}

//# nest_builder_across_read
pub fn w(f: &mut F, n: Id) {
    let mut b = NestTreeBuilder::new(f, s());
    drop(f.node(n)); //~ E0502
    b.add_child(s());
}

//# clone_foreign_of_itself
pub fn w(f: &mut F, n: Id) {
    let v = f.node(n).unwrap();
    f.clone_foreign_tree(v); //~ E0502
}

//# debug_print_across_change
pub fn w(f: &mut F, n: Id) {
    let p = f.debug_print(n);
    f.detach(n); //~ E0502
    drop(format!("{}", p));
}

//# foreign_internal_id
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Mine(u32);
impl InternalNodeId for Mine {} //~ E0277

//# id_from_integer
pub fn w() -> Option<Id> {
    return Some(NodeIdUsize(0)); //~ E0423 E0603 E0308
    #[allow(unreachable_code)] None
}

//# id_from_integer_by_from_usize
pub fn w<T: InternalNodeId>() -> Option<T> {
    return T::from_usize(0); //~ E0599 E0061 E0624 E0576 E0576
    #[allow(unreachable_code)] None
}

//# id_from_integer_by_from_raw
pub fn w<T: InternalNodeId>() -> Option<T> {
    return T::from_raw(0); //~ E0599 E0061 E0624 E0576 E0576
    #[allow(unreachable_code)] None
}

//# integer_of_id_by_to_usize
pub fn w<T: InternalNodeId>(v: T) -> Option<usize> {
    return Some(v.to_usize()); //~ E0599 E0061 E0624
    #[allow(unreachable_code)] None
}

//# integer_of_id_by_to_raw
pub fn w<T: InternalNodeId>(v: T) -> Option<usize> {
    return Some(v.to_raw()); //~ E0599 E0061 E0624
    #[allow(unreachable_code)] None
}

//# id_default
pub fn w() -> Option<Id> {
    return Some(Default::default()); //~ E0277
    #[allow(unreachable_code)] None
}

//# node_forged
pub fn w<'a>(f: &'a F, n: Id) -> Option<Node<'a, Id, String>> {
    return Some(Node { forest: f, id: n }); //~ E0451 E0560
    #[allow(unreachable_code)] None
}

//# ok
fn both<T: Send + Sync>() {}
pub fn w() {
    both::<F>();
    both::<Node<'static, Id, String>>();
    both::<NodeMut<'static, Id, String>>();
}

//# ok_reads
pub fn w(f: &F, n: Id, m: Id) -> bool {
    let a = f.node(n).unwrap();
    let b = f.node(m).unwrap();
    let mut i = f.children(n);
    let mut j = a.ancestors();
    while let (Some(x), Some(y)) = (i.next(), j.next()) { if x.id() == y.id() { return true; } }
    a.data() == b.data()
}
