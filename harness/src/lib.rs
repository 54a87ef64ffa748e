// Generated by tools/gen_harness.py; do not edit.
#![allow(dead_code, unused_must_use, clippy::all)]
use dendron::node::*;
use dendron::serial::*;
use dendron::traverse::*;
use dendron::tree::*;
use dendron::{AdoptAs, FrozenNode, HierarchyError, HotNode, InsertAs, Node, NodeWeak, Tree, TreeWeak};
use dendron::{HierarchyEditGrant, HierarchyEditProhibition};
use core::cell::{BorrowError, BorrowMutError, Ref, RefMut};
use core::fmt;

/// Opaque user data: its clone, comparison, formatting and destructor are user code.
pub struct Data(u32);
#[inline(never)] pub fn cb_clone(d: &Data) -> Data { Data(d.0) }
#[inline(never)] pub fn cb_eq(a: &Data, b: &Data) -> bool { a.0 == b.0 }
#[inline(never)] pub fn cb_fmt(_: &Data, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
#[inline(never)] pub fn cb_drop(_: &mut Data) {}
impl Clone for Data { fn clone(&self) -> Data { cb_clone(self) } }
impl PartialEq for Data { fn eq(&self, o: &Data) -> bool { cb_eq(self, o) } }
impl Eq for Data {}
impl fmt::Debug for Data { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { cb_fmt(self, f) } }
impl fmt::Display for Data { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { cb_fmt(self, f) } }
impl Drop for Data { fn drop(&mut self) { cb_drop(self) } }

/// The data numbered k of a tree literal (literals.rs).
#[inline(never)] pub fn lit(k: u32) -> Data { Data(k) }
#[cfg(feature = "literals")] pub mod literals;
#[inline(never)] pub fn nondet_bool() -> bool { true }
#[inline(never)] pub fn nondet_usize() -> usize { 0 }
#[inline(never)] pub fn nondet_data() -> Data { Data(0) }
/// What `core::fmt::write` does: the writer gets pieces of text, and the arguments are formatted in order.
pub fn aux_fmt_write(w: &mut dyn fmt::Write, args: fmt::Arguments<'_>) -> fmt::Result {
    aux_pieces(w)?; aux_fmt_arg(&args, 0)?; aux_pieces(w)?; aux_fmt_arg(&args, 1)?; aux_pieces(w)?; aux_fmt_arg(&args, 2)?; aux_pieces(w)
}
pub fn aux_pieces(w: &mut dyn fmt::Write) -> fmt::Result { while nondet_bool() { if w.write_str(aux_str()).is_err() && nondet_bool() { return Err(fmt::Error); } } Ok(()) }
/// Formats the argument numbered k, if there is one.
#[inline(never)] pub fn aux_fmt_arg(_: &fmt::Arguments<'_>, _: usize) -> fmt::Result { Ok(()) }
/// Any text.
#[inline(never)] pub fn aux_str() -> &'static str { "" }
pub fn h_aux_fmt(w: &mut dyn fmt::Write, args: fmt::Arguments<'_>) -> fmt::Result { aux_fmt_write(w, args) }
/// What an abstract vector of events still holds at its front: nothing, an opening, or a closing.
#[inline(never)] pub fn replay_kind() -> u32 { 0 }
#[inline(never)] pub fn replay_open() -> Data { Data(0) }
#[inline(never)] pub fn replay_close() {}
pub fn replay_next() -> Option<Event<Data>> {
    match replay_kind() {
        0 => None,
        1 => Some(Event::Open(replay_open())),
        _ => {
            let mut n = 0;
            loop { replay_close(); n += 1; if replay_kind() != 2 { break } }
            Some(Event::Close(n))
        }
    }
}
#[inline(never)] pub fn obs_node(_: &Node<Data>) {}
#[inline(never)] pub fn obs_back(_: &Node<Data>) {}
#[inline(never)] pub fn obs_open(_: &Node<Data>) {}
#[inline(never)] pub fn obs_close(_: &Node<Data>) {}
#[inline(never)] pub fn obs_back_open(_: &Node<Data>) {}
#[inline(never)] pub fn obs_back_close(_: &Node<Data>) {}
#[inline(never)] pub fn obs_skip_begin() {}
#[inline(never)] pub fn obs_skip(_: &Option<Node<Data>>) {}
#[inline(never)] pub fn obs_end() {}
#[inline(never)] pub fn obs_back_end() {}
#[inline(never)] pub fn obs_depth(_: usize) {}
#[inline(never)] pub fn obs_peek_none() {}
#[inline(never)] pub fn obs_peeking() {}
#[inline(never)] pub fn obs_peeking_back() {}
#[inline(never)] pub fn obs_hint(_: usize, _: Option<usize>) {}


pub fn h_node_is_root(n: &Node<Data>) -> bool { n.is_root() }

pub fn h_node_has_prev_sibling(n: &Node<Data>) -> bool { n.has_prev_sibling() }

pub fn h_node_has_next_sibling(n: &Node<Data>) -> bool { n.has_next_sibling() }

pub fn h_node_has_children(n: &Node<Data>) -> bool { n.has_children() }

pub fn h_node_has_one_child(n: &Node<Data>) -> bool { n.has_one_child() }

pub fn h_node_has_multiple_children(n: &Node<Data>) -> bool { n.has_multiple_children() }

pub fn h_node_num_children(n: &Node<Data>) -> usize { n.num_children() }

pub fn h_node_count_children(n: &Node<Data>) -> usize { n.count_children() }

pub fn h_node_count_preceding_siblings(n: &Node<Data>) -> usize { n.count_preceding_siblings() }

pub fn h_node_count_following_siblings(n: &Node<Data>) -> usize { n.count_following_siblings() }

pub fn h_node_count_ancestors(n: &Node<Data>) -> usize { n.count_ancestors() }

pub fn h_node_parent(n: &Node<Data>) -> Option<Node<Data>> { n.parent() }

pub fn h_node_prev_sibling(n: &Node<Data>) -> Option<Node<Data>> { n.prev_sibling() }

pub fn h_node_next_sibling(n: &Node<Data>) -> Option<Node<Data>> { n.next_sibling() }

pub fn h_node_first_child(n: &Node<Data>) -> Option<Node<Data>> { n.first_child() }

pub fn h_node_last_child(n: &Node<Data>) -> Option<Node<Data>> { n.last_child() }

pub fn h_node_root(n: &Node<Data>) -> Node<Data> { n.root() }

pub fn h_node_first_sibling(n: &Node<Data>) -> Node<Data> { n.first_sibling() }

pub fn h_node_last_sibling(n: &Node<Data>) -> Node<Data> { n.last_sibling() }

pub fn h_node_first_last_sibling(n: &Node<Data>) -> (Node<Data>, Node<Data>) { n.first_last_sibling() }

pub fn h_node_first_last_child(n: &Node<Data>) -> Option<(Node<Data>, Node<Data>)> { n.first_last_child() }

pub fn h_node_tree(n: &Node<Data>) -> Tree<Data> { n.tree() }

pub fn h_node_belongs_to(n: &Node<Data>, t: &Tree<Data>) -> bool { n.belongs_to(t) }

pub fn h_node_belongs_to_same_tree(n: &Node<Data>, m: &Node<Data>) -> bool { n.belongs_to_same_tree(m) }

pub fn h_node_belongs_to_same_tree_self(n: &Node<Data>) -> bool { n.belongs_to_same_tree(n) }

pub fn h_node_ptr_eq(n: &Node<Data>, m: &Node<Data>) -> bool { n.ptr_eq(m) }

pub fn h_node_clone(n: &Node<Data>) -> Node<Data> { n.clone() }

pub fn h_node_drop(n: Node<Data>) { drop(n) }

pub fn h_node_try_borrow_data(n: &Node<Data>) -> Result<Ref<'_, Data>, BorrowError> { n.try_borrow_data() }

pub fn h_node_borrow_data(n: &Node<Data>) -> Ref<'_, Data> { n.borrow_data() }

pub fn h_node_try_borrow_data_mut(n: &Node<Data>) -> Result<RefMut<'_, Data>, BorrowMutError> { n.try_borrow_data_mut() }

pub fn h_node_borrow_data_mut(n: &Node<Data>) -> RefMut<'_, Data> { n.borrow_data_mut() }

pub fn h_node_children(n: &Node<Data>) { let mut it = n.children(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_node_children_peek(n: &Node<Data>) { let mut it = n.children(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_node_children_reverse(n: &Node<Data>) { let mut it = n.children_reverse(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_node_children_reverse_peek(n: &Node<Data>) { let mut it = n.children_reverse(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_node_ancestors(n: &Node<Data>) { let mut it = n.ancestors(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_node_ancestors_peek(n: &Node<Data>) { let mut it = n.ancestors(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_node_ancestors_or_self(n: &Node<Data>) { let mut it = n.ancestors_or_self(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_node_ancestors_or_self_peek(n: &Node<Data>) { let mut it = n.ancestors_or_self(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_node_siblings(n: &Node<Data>) { let mut it = n.siblings(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_node_siblings_peek(n: &Node<Data>) { let mut it = n.siblings(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_node_siblings_reverse(n: &Node<Data>) { let mut it = n.siblings_reverse(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_node_siblings_reverse_peek(n: &Node<Data>) { let mut it = n.siblings_reverse(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_node_preceding_siblings_or_self_reverse(n: &Node<Data>) { let mut it = n.preceding_siblings_or_self_reverse(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_node_preceding_siblings_or_self_reverse_peek(n: &Node<Data>) { let mut it = n.preceding_siblings_or_self_reverse(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_node_preceding_siblings_reverse(n: &Node<Data>) { let mut it = n.preceding_siblings_reverse(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_node_preceding_siblings_reverse_peek(n: &Node<Data>) { let mut it = n.preceding_siblings_reverse(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_node_following_siblings_or_self(n: &Node<Data>) { let mut it = n.following_siblings_or_self(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_node_following_siblings_or_self_peek(n: &Node<Data>) { let mut it = n.following_siblings_or_self(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_node_following_siblings(n: &Node<Data>) { let mut it = n.following_siblings(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_node_following_siblings_peek(n: &Node<Data>) { let mut it = n.following_siblings(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_node_depth_first_traverse(n: &Node<Data>) { let mut it = n.depth_first_traverse(); loop { match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => break } } obs_end(); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => obs_end() } }

pub fn h_node_depth_first_traverse_peek(n: &Node<Data>) { let mut it = n.depth_first_traverse(); loop { match it.peek() { Some(e) => match e { DftEvent::Open(x) => obs_back_open(x), DftEvent::Close(x) => obs_back_close(x) }, None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => break } } obs_end(); }

pub fn h_node_depth_first_reverse_traverse(n: &Node<Data>) { let mut it = n.depth_first_reverse_traverse(); loop { match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => break } } obs_end(); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => obs_end() } }

pub fn h_node_depth_first_reverse_traverse_peek(n: &Node<Data>) { let mut it = n.depth_first_reverse_traverse(); loop { match it.peek() { Some(e) => match e { DftEvent::Open(x) => obs_back_open(x), DftEvent::Close(x) => obs_back_close(x) }, None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => break } } obs_end(); }

pub fn h_node_depth_first_traverse_skip(n: &Node<Data>) { let mut it = n.depth_first_traverse(); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => { obs_end(); return } } loop { if nondet_bool() { break } match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => { obs_end(); return } } } obs_skip_begin(); let s = it.close_current(); obs_skip(&s); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => obs_end() } }

pub fn h_node_try_clone_subtree(n: &Node<Data>) -> Result<Node<Data>, BorrowError> { n.try_clone_subtree() }

pub fn h_node_clone_subtree(n: &Node<Data>) -> Node<Data> { n.clone_subtree() }

pub fn h_node_to_events(n: &Node<Data>) { let mut it = n.to_events(); loop { match it.next() { Some(Ok(Event::Open(d))) => { obs_ev_open(&d); }, Some(Ok(Event::Close(c))) => obs_ev_close(c), Some(Err(_)) => { obs_ev_err(); break }, None => { obs_end(); break } } } }

pub fn h_node_debug(n: &Node<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(n, f) }

pub fn h_node_debug_pretty_print(n: &Node<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&n.debug_pretty_print(), f) }

pub fn h_node_debug_print_local(n: &Node<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&n.debug_print_local(), f) }

pub fn h_node_debug_print_subtree(n: &Node<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&n.debug_print_subtree(), f) }

pub fn h_node_display_pretty_print(n: &Node<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&n.debug_pretty_print(), f) }

pub fn h_node_shows_display_pretty_print(n: &Node<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&n.debug_pretty_print(), f) }

pub fn h_node_shows_debug_pretty_print(n: &Node<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&n.debug_pretty_print(), f) }

pub fn h_eq_node_node(n: &Node<Data>, m: &Node<Data>) -> bool { *n == *m }

pub fn h_eq_node_frozen(n: &Node<Data>, m: &FrozenNode<Data>) -> bool { *n == *m }

pub fn h_eq_node_reffrozen(n: &Node<Data>, m: &FrozenNode<Data>) -> bool { *n == m }

pub fn h_eq_refnode_frozen(n: &Node<Data>, m: &FrozenNode<Data>) -> bool { n == *m }

pub fn h_eq_node_hot(n: &Node<Data>, m: &HotNode<Data>) -> bool { *n == *m }

pub fn h_eq_node_refhot(n: &Node<Data>, m: &HotNode<Data>) -> bool { *n == m }

pub fn h_eq_refnode_hot(n: &Node<Data>, m: &HotNode<Data>) -> bool { n == *m }

pub fn h_node_event_next(e: &DftEvent<Node<Data>>) -> Option<DftEvent<Node<Data>>> { e.next() }

pub fn h_node_event_prev(e: &DftEvent<Node<Data>>) -> Option<DftEvent<Node<Data>>> { e.prev() }

pub fn h_node_event_close_current(e: &DftEvent<Node<Data>>) -> Option<Node<Data>> { e.close_current() }

pub fn h_frozen_is_root(n: &FrozenNode<Data>) -> bool { n.is_root() }

pub fn h_frozen_has_prev_sibling(n: &FrozenNode<Data>) -> bool { n.has_prev_sibling() }

pub fn h_frozen_has_next_sibling(n: &FrozenNode<Data>) -> bool { n.has_next_sibling() }

pub fn h_frozen_has_children(n: &FrozenNode<Data>) -> bool { n.has_children() }

pub fn h_frozen_has_one_child(n: &FrozenNode<Data>) -> bool { n.has_one_child() }

pub fn h_frozen_has_multiple_children(n: &FrozenNode<Data>) -> bool { n.has_multiple_children() }

pub fn h_frozen_num_children(n: &FrozenNode<Data>) -> usize { n.num_children() }

pub fn h_frozen_count_children(n: &FrozenNode<Data>) -> usize { n.count_children() }

pub fn h_frozen_count_preceding_siblings(n: &FrozenNode<Data>) -> usize { n.count_preceding_siblings() }

pub fn h_frozen_count_following_siblings(n: &FrozenNode<Data>) -> usize { n.count_following_siblings() }

pub fn h_frozen_count_ancestors(n: &FrozenNode<Data>) -> usize { n.count_ancestors() }

pub fn h_frozen_parent(n: &FrozenNode<Data>) -> Option<FrozenNode<Data>> { n.parent() }

pub fn h_frozen_prev_sibling(n: &FrozenNode<Data>) -> Option<FrozenNode<Data>> { n.prev_sibling() }

pub fn h_frozen_next_sibling(n: &FrozenNode<Data>) -> Option<FrozenNode<Data>> { n.next_sibling() }

pub fn h_frozen_first_child(n: &FrozenNode<Data>) -> Option<FrozenNode<Data>> { n.first_child() }

pub fn h_frozen_last_child(n: &FrozenNode<Data>) -> Option<FrozenNode<Data>> { n.last_child() }

pub fn h_frozen_root(n: &FrozenNode<Data>) -> FrozenNode<Data> { n.root() }

pub fn h_frozen_first_sibling(n: &FrozenNode<Data>) -> FrozenNode<Data> { n.first_sibling() }

pub fn h_frozen_last_sibling(n: &FrozenNode<Data>) -> FrozenNode<Data> { n.last_sibling() }

pub fn h_frozen_first_last_sibling(n: &FrozenNode<Data>) -> (FrozenNode<Data>, FrozenNode<Data>) { n.first_last_sibling() }

pub fn h_frozen_first_last_child(n: &FrozenNode<Data>) -> Option<(FrozenNode<Data>, FrozenNode<Data>)> { n.first_last_child() }

pub fn h_frozen_tree(n: &FrozenNode<Data>) -> Tree<Data> { n.tree() }

pub fn h_frozen_belongs_to(n: &FrozenNode<Data>, t: &Tree<Data>) -> bool { n.belongs_to(t) }

pub fn h_frozen_belongs_to_same_tree(n: &FrozenNode<Data>, m: &FrozenNode<Data>) -> bool { n.belongs_to_same_tree(m) }

pub fn h_frozen_belongs_to_same_tree_self(n: &FrozenNode<Data>) -> bool { n.belongs_to_same_tree(n) }

pub fn h_frozen_ptr_eq(n: &FrozenNode<Data>, m: &FrozenNode<Data>) -> bool { n.ptr_eq(m) }

pub fn h_frozen_clone(n: &FrozenNode<Data>) -> FrozenNode<Data> { n.clone() }

pub fn h_frozen_drop(n: FrozenNode<Data>) { drop(n) }

pub fn h_frozen_try_borrow_data(n: &FrozenNode<Data>) -> Result<Ref<'_, Data>, BorrowError> { n.try_borrow_data() }

pub fn h_frozen_borrow_data(n: &FrozenNode<Data>) -> Ref<'_, Data> { n.borrow_data() }

pub fn h_frozen_try_borrow_data_mut(n: &FrozenNode<Data>) -> Result<RefMut<'_, Data>, BorrowMutError> { n.try_borrow_data_mut() }

pub fn h_frozen_borrow_data_mut(n: &FrozenNode<Data>) -> RefMut<'_, Data> { n.borrow_data_mut() }

pub fn h_frozen_children(n: &FrozenNode<Data>) { let mut it = n.children(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_frozen_children_peek(n: &FrozenNode<Data>) { let mut it = n.children(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_frozen_children_reverse(n: &FrozenNode<Data>) { let mut it = n.children_reverse(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_frozen_children_reverse_peek(n: &FrozenNode<Data>) { let mut it = n.children_reverse(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_frozen_ancestors(n: &FrozenNode<Data>) { let mut it = n.ancestors(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_frozen_ancestors_peek(n: &FrozenNode<Data>) { let mut it = n.ancestors(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_frozen_ancestors_or_self(n: &FrozenNode<Data>) { let mut it = n.ancestors_or_self(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_frozen_ancestors_or_self_peek(n: &FrozenNode<Data>) { let mut it = n.ancestors_or_self(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_frozen_siblings(n: &FrozenNode<Data>) { let mut it = n.siblings(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_frozen_siblings_peek(n: &FrozenNode<Data>) { let mut it = n.siblings(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_frozen_siblings_reverse(n: &FrozenNode<Data>) { let mut it = n.siblings_reverse(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_frozen_siblings_reverse_peek(n: &FrozenNode<Data>) { let mut it = n.siblings_reverse(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_frozen_preceding_siblings_or_self_reverse(n: &FrozenNode<Data>) { let mut it = n.preceding_siblings_or_self_reverse(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_frozen_preceding_siblings_or_self_reverse_peek(n: &FrozenNode<Data>) { let mut it = n.preceding_siblings_or_self_reverse(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_frozen_preceding_siblings_reverse(n: &FrozenNode<Data>) { let mut it = n.preceding_siblings_reverse(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_frozen_preceding_siblings_reverse_peek(n: &FrozenNode<Data>) { let mut it = n.preceding_siblings_reverse(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_frozen_following_siblings_or_self(n: &FrozenNode<Data>) { let mut it = n.following_siblings_or_self(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_frozen_following_siblings_or_self_peek(n: &FrozenNode<Data>) { let mut it = n.following_siblings_or_self(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_frozen_following_siblings(n: &FrozenNode<Data>) { let mut it = n.following_siblings(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_frozen_following_siblings_peek(n: &FrozenNode<Data>) { let mut it = n.following_siblings(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_frozen_depth_first_traverse(n: &FrozenNode<Data>) { let mut it = n.depth_first_traverse(); loop { match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => break } } obs_end(); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => obs_end() } }

pub fn h_frozen_depth_first_traverse_peek(n: &FrozenNode<Data>) { let mut it = n.depth_first_traverse(); loop { match it.peek() { Some(e) => match e { DftEvent::Open(x) => obs_back_open(x), DftEvent::Close(x) => obs_back_close(x) }, None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => break } } obs_end(); }

pub fn h_frozen_depth_first_reverse_traverse(n: &FrozenNode<Data>) { let mut it = n.depth_first_reverse_traverse(); loop { match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => break } } obs_end(); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => obs_end() } }

pub fn h_frozen_depth_first_reverse_traverse_peek(n: &FrozenNode<Data>) { let mut it = n.depth_first_reverse_traverse(); loop { match it.peek() { Some(e) => match e { DftEvent::Open(x) => obs_back_open(x), DftEvent::Close(x) => obs_back_close(x) }, None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => break } } obs_end(); }

pub fn h_frozen_depth_first_traverse_skip(n: &FrozenNode<Data>) { let mut it = n.depth_first_traverse(); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => { obs_end(); return } } loop { if nondet_bool() { break } match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => { obs_end(); return } } } obs_skip_begin(); let s = it.close_current(); obs_skip(&s); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => obs_end() } }

pub fn h_frozen_try_clone_subtree(n: &FrozenNode<Data>) -> Result<Node<Data>, BorrowError> { n.try_clone_subtree() }

pub fn h_frozen_clone_subtree(n: &FrozenNode<Data>) -> Node<Data> { n.clone_subtree() }

pub fn h_frozen_to_events(n: &FrozenNode<Data>) { let mut it = n.to_events(); loop { match it.next() { Some(Ok(Event::Open(d))) => { obs_ev_open(&d); }, Some(Ok(Event::Close(c))) => obs_ev_close(c), Some(Err(_)) => { obs_ev_err(); break }, None => { obs_end(); break } } } }

pub fn h_frozen_debug(n: &FrozenNode<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(n, f) }

pub fn h_frozen_debug_pretty_print(n: &FrozenNode<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&n.debug_pretty_print(), f) }

pub fn h_frozen_debug_print_local(n: &FrozenNode<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&n.debug_print_local(), f) }

pub fn h_frozen_debug_print_subtree(n: &FrozenNode<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&n.debug_print_subtree(), f) }

pub fn h_frozen_display_pretty_print(n: &FrozenNode<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&n.debug_pretty_print(), f) }

pub fn h_frozen_shows_display_pretty_print(n: &FrozenNode<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&n.debug_pretty_print(), f) }

pub fn h_frozen_shows_debug_pretty_print(n: &FrozenNode<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&n.debug_pretty_print(), f) }

pub fn h_eq_frozen_node(n: &FrozenNode<Data>, m: &Node<Data>) -> bool { *n == *m }

pub fn h_eq_frozen_refnode(n: &FrozenNode<Data>, m: &Node<Data>) -> bool { *n == m }

pub fn h_eq_reffrozen_node(n: &FrozenNode<Data>, m: &Node<Data>) -> bool { n == *m }

pub fn h_eq_frozen_frozen(n: &FrozenNode<Data>, m: &FrozenNode<Data>) -> bool { *n == *m }

pub fn h_eq_frozen_hot(n: &FrozenNode<Data>, m: &HotNode<Data>) -> bool { *n == *m }

pub fn h_eq_frozen_refhot(n: &FrozenNode<Data>, m: &HotNode<Data>) -> bool { *n == m }

pub fn h_eq_reffrozen_hot(n: &FrozenNode<Data>, m: &HotNode<Data>) -> bool { n == *m }

pub fn h_frozen_event_next(e: &DftEvent<FrozenNode<Data>>) -> Option<DftEvent<FrozenNode<Data>>> { e.next() }

pub fn h_frozen_event_prev(e: &DftEvent<FrozenNode<Data>>) -> Option<DftEvent<FrozenNode<Data>>> { e.prev() }

pub fn h_frozen_event_close_current(e: &DftEvent<FrozenNode<Data>>) -> Option<FrozenNode<Data>> { e.close_current() }

pub fn h_hot_is_root(n: &HotNode<Data>) -> bool { n.is_root() }

pub fn h_hot_has_prev_sibling(n: &HotNode<Data>) -> bool { n.has_prev_sibling() }

pub fn h_hot_has_next_sibling(n: &HotNode<Data>) -> bool { n.has_next_sibling() }

pub fn h_hot_has_children(n: &HotNode<Data>) -> bool { n.has_children() }

pub fn h_hot_has_one_child(n: &HotNode<Data>) -> bool { n.has_one_child() }

pub fn h_hot_has_multiple_children(n: &HotNode<Data>) -> bool { n.has_multiple_children() }

pub fn h_hot_num_children(n: &HotNode<Data>) -> usize { n.num_children() }

pub fn h_hot_count_children(n: &HotNode<Data>) -> usize { n.count_children() }

pub fn h_hot_count_preceding_siblings(n: &HotNode<Data>) -> usize { n.count_preceding_siblings() }

pub fn h_hot_count_following_siblings(n: &HotNode<Data>) -> usize { n.count_following_siblings() }

pub fn h_hot_count_ancestors(n: &HotNode<Data>) -> usize { n.count_ancestors() }

pub fn h_hot_parent(n: &HotNode<Data>) -> Option<HotNode<Data>> { n.parent() }

pub fn h_hot_prev_sibling(n: &HotNode<Data>) -> Option<HotNode<Data>> { n.prev_sibling() }

pub fn h_hot_next_sibling(n: &HotNode<Data>) -> Option<HotNode<Data>> { n.next_sibling() }

pub fn h_hot_first_child(n: &HotNode<Data>) -> Option<HotNode<Data>> { n.first_child() }

pub fn h_hot_last_child(n: &HotNode<Data>) -> Option<HotNode<Data>> { n.last_child() }

pub fn h_hot_root(n: &HotNode<Data>) -> HotNode<Data> { n.root() }

pub fn h_hot_first_sibling(n: &HotNode<Data>) -> HotNode<Data> { n.first_sibling() }

pub fn h_hot_last_sibling(n: &HotNode<Data>) -> HotNode<Data> { n.last_sibling() }

pub fn h_hot_first_last_sibling(n: &HotNode<Data>) -> (HotNode<Data>, HotNode<Data>) { n.first_last_sibling() }

pub fn h_hot_first_last_child(n: &HotNode<Data>) -> Option<(HotNode<Data>, HotNode<Data>)> { n.first_last_child() }

pub fn h_hot_tree(n: &HotNode<Data>) -> Tree<Data> { n.tree() }

pub fn h_hot_belongs_to(n: &HotNode<Data>, t: &Tree<Data>) -> bool { n.belongs_to(t) }

pub fn h_hot_belongs_to_same_tree(n: &HotNode<Data>, m: &HotNode<Data>) -> bool { n.belongs_to_same_tree(m) }

pub fn h_hot_belongs_to_same_tree_self(n: &HotNode<Data>) -> bool { n.belongs_to_same_tree(n) }

pub fn h_hot_ptr_eq(n: &HotNode<Data>, m: &HotNode<Data>) -> bool { n.ptr_eq(m) }

pub fn h_hot_clone(n: &HotNode<Data>) -> HotNode<Data> { n.clone() }

pub fn h_hot_drop(n: HotNode<Data>) { drop(n) }

pub fn h_hot_try_borrow_data(n: &HotNode<Data>) -> Result<Ref<'_, Data>, BorrowError> { n.try_borrow_data() }

pub fn h_hot_borrow_data(n: &HotNode<Data>) -> Ref<'_, Data> { n.borrow_data() }

pub fn h_hot_try_borrow_data_mut(n: &HotNode<Data>) -> Result<RefMut<'_, Data>, BorrowMutError> { n.try_borrow_data_mut() }

pub fn h_hot_borrow_data_mut(n: &HotNode<Data>) -> RefMut<'_, Data> { n.borrow_data_mut() }

pub fn h_hot_children(n: &HotNode<Data>) { let mut it = n.children(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_hot_children_peek(n: &HotNode<Data>) { let mut it = n.children(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_hot_children_reverse(n: &HotNode<Data>) { let mut it = n.children_reverse(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_hot_children_reverse_peek(n: &HotNode<Data>) { let mut it = n.children_reverse(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_hot_ancestors(n: &HotNode<Data>) { let mut it = n.ancestors(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_hot_ancestors_peek(n: &HotNode<Data>) { let mut it = n.ancestors(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_hot_ancestors_or_self(n: &HotNode<Data>) { let mut it = n.ancestors_or_self(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_hot_ancestors_or_self_peek(n: &HotNode<Data>) { let mut it = n.ancestors_or_self(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_hot_siblings(n: &HotNode<Data>) { let mut it = n.siblings(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_hot_siblings_peek(n: &HotNode<Data>) { let mut it = n.siblings(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_hot_siblings_reverse(n: &HotNode<Data>) { let mut it = n.siblings_reverse(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_hot_siblings_reverse_peek(n: &HotNode<Data>) { let mut it = n.siblings_reverse(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_hot_preceding_siblings_or_self_reverse(n: &HotNode<Data>) { let mut it = n.preceding_siblings_or_self_reverse(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_hot_preceding_siblings_or_self_reverse_peek(n: &HotNode<Data>) { let mut it = n.preceding_siblings_or_self_reverse(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_hot_preceding_siblings_reverse(n: &HotNode<Data>) { let mut it = n.preceding_siblings_reverse(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_hot_preceding_siblings_reverse_peek(n: &HotNode<Data>) { let mut it = n.preceding_siblings_reverse(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_hot_following_siblings_or_self(n: &HotNode<Data>) { let mut it = n.following_siblings_or_self(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_hot_following_siblings_or_self_peek(n: &HotNode<Data>) { let mut it = n.following_siblings_or_self(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_hot_following_siblings(n: &HotNode<Data>) { let mut it = n.following_siblings(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() } }

pub fn h_hot_following_siblings_peek(n: &HotNode<Data>) { let mut it = n.following_siblings(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_hot_depth_first_traverse(n: &HotNode<Data>) { let mut it = n.depth_first_traverse(); loop { match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => break } } obs_end(); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => obs_end() } }

pub fn h_hot_depth_first_traverse_peek(n: &HotNode<Data>) { let mut it = n.depth_first_traverse(); loop { match it.peek() { Some(e) => match e { DftEvent::Open(x) => obs_back_open(x), DftEvent::Close(x) => obs_back_close(x) }, None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => break } } obs_end(); }

pub fn h_hot_depth_first_reverse_traverse(n: &HotNode<Data>) { let mut it = n.depth_first_reverse_traverse(); loop { match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => break } } obs_end(); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => obs_end() } }

pub fn h_hot_depth_first_reverse_traverse_peek(n: &HotNode<Data>) { let mut it = n.depth_first_reverse_traverse(); loop { match it.peek() { Some(e) => match e { DftEvent::Open(x) => obs_back_open(x), DftEvent::Close(x) => obs_back_close(x) }, None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => break } } obs_end(); }

pub fn h_hot_depth_first_traverse_skip(n: &HotNode<Data>) { let mut it = n.depth_first_traverse(); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => { obs_end(); return } } loop { if nondet_bool() { break } match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => { obs_end(); return } } } obs_skip_begin(); let s = it.close_current(); obs_skip(&s); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => obs_end() } }

pub fn h_hot_try_clone_subtree(n: &HotNode<Data>) -> Result<Node<Data>, BorrowError> { n.try_clone_subtree() }

pub fn h_hot_clone_subtree(n: &HotNode<Data>) -> Node<Data> { n.clone_subtree() }

pub fn h_hot_to_events(n: &HotNode<Data>) { let mut it = n.to_events(); loop { match it.next() { Some(Ok(Event::Open(d))) => { obs_ev_open(&d); }, Some(Ok(Event::Close(c))) => obs_ev_close(c), Some(Err(_)) => { obs_ev_err(); break }, None => { obs_end(); break } } } }

pub fn h_hot_debug(n: &HotNode<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(n, f) }

pub fn h_hot_debug_pretty_print(n: &HotNode<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&n.debug_pretty_print(), f) }

pub fn h_hot_debug_print_local(n: &HotNode<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&n.debug_print_local(), f) }

pub fn h_hot_debug_print_subtree(n: &HotNode<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&n.debug_print_subtree(), f) }

pub fn h_hot_display_pretty_print(n: &HotNode<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&n.debug_pretty_print(), f) }

pub fn h_hot_shows_display_pretty_print(n: &HotNode<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&n.debug_pretty_print(), f) }

pub fn h_hot_shows_debug_pretty_print(n: &HotNode<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&n.debug_pretty_print(), f) }

pub fn h_eq_hot_node(n: &HotNode<Data>, m: &Node<Data>) -> bool { *n == *m }

pub fn h_eq_hot_refnode(n: &HotNode<Data>, m: &Node<Data>) -> bool { *n == m }

pub fn h_eq_refhot_node(n: &HotNode<Data>, m: &Node<Data>) -> bool { n == *m }

pub fn h_eq_hot_frozen(n: &HotNode<Data>, m: &FrozenNode<Data>) -> bool { *n == *m }

pub fn h_eq_hot_reffrozen(n: &HotNode<Data>, m: &FrozenNode<Data>) -> bool { *n == m }

pub fn h_eq_refhot_frozen(n: &HotNode<Data>, m: &FrozenNode<Data>) -> bool { n == *m }

pub fn h_eq_hot_hot(n: &HotNode<Data>, m: &HotNode<Data>) -> bool { *n == *m }

pub fn h_hot_event_next(e: &DftEvent<HotNode<Data>>) -> Option<DftEvent<HotNode<Data>>> { e.next() }

pub fn h_hot_event_prev(e: &DftEvent<HotNode<Data>>) -> Option<DftEvent<HotNode<Data>>> { e.prev() }

pub fn h_hot_event_close_current(e: &DftEvent<HotNode<Data>>) -> Option<HotNode<Data>> { e.close_current() }

#[inline(never)] pub fn obs_ev_open(_: &Data) {}
#[inline(never)] pub fn obs_ev_close(_: usize) {}
#[inline(never)] pub fn obs_ev_err() {}

pub fn h_node_downgrade(n: &Node<Data>) -> NodeWeak<Data> { n.downgrade() }

pub fn h_weak_upgrade(w: &NodeWeak<Data>) -> Option<Node<Data>> { w.upgrade() }

pub fn h_tree_downgrade(t: &Tree<Data>) -> TreeWeak<Data> { t.downgrade() }

pub fn h_treeweak_upgrade(w: &TreeWeak<Data>) -> Option<Tree<Data>> { w.upgrade() }

pub fn h_node_bundle_new_prohibition(n: Node<Data>) -> Result<FrozenNode<Data>, HierarchyEditProhibitionError> { n.bundle_new_hierarchy_edit_prohibition() }

pub fn h_node_bundle_new_grant(n: Node<Data>) -> Result<HotNode<Data>, HierarchyEditGrantError> { n.bundle_new_hierarchy_edit_grant() }

pub fn h_node_bundle_prohibition(n: Node<Data>, p: &HierarchyEditProhibition<Data>) -> FrozenNode<Data> { n.bundle_hierarchy_edit_prohibition(p) }

pub fn h_node_bundle_grant(n: Node<Data>, g: &HierarchyEditGrant<Data>) -> HotNode<Data> { n.bundle_hierarchy_edit_grant(g) }

pub fn h_frozen_plain(n: &FrozenNode<Data>) -> Node<Data> { n.plain() }

pub fn h_hot_plain(n: &HotNode<Data>) -> Node<Data> { n.plain() }

pub fn h_frozen_into(n: FrozenNode<Data>) -> Node<Data> { Node::from(n) }

pub fn h_hot_into(n: HotNode<Data>) -> Node<Data> { Node::from(n) }

pub fn h_frozen_extract(n: &FrozenNode<Data>) -> HierarchyEditProhibition<Data> { n.extract_hierarchy_edit_prohibition() }

pub fn h_hot_extract(n: &HotNode<Data>) -> HierarchyEditGrant<Data> { n.extract_hierarchy_edit_grant() }

pub fn h_hot_ptr_eq_plain(n: &HotNode<Data>, m: &Node<Data>) -> bool { n.ptr_eq_plain(m) }

pub fn h_tree_root(t: &Tree<Data>) -> Node<Data> { t.root() }

pub fn h_tree_clone(t: &Tree<Data>) -> Tree<Data> { t.clone() }

pub fn h_tree_drop(t: Tree<Data>) { drop(t) }

pub fn h_tree_ptr_eq(t: &Tree<Data>, u: &Tree<Data>) -> bool { t.ptr_eq(u) }

pub fn h_tree_prohibit(t: &Tree<Data>) -> Result<HierarchyEditProhibition<Data>, HierarchyEditProhibitionError> { t.prohibit_hierarchy_edit() }

pub fn h_tree_grant(t: &Tree<Data>) -> Result<HierarchyEditGrant<Data>, HierarchyEditGrantError> { t.grant_hierarchy_edit() }

pub fn h_tree_try_eq(t: &Tree<Data>, u: &Tree<Data>) -> Result<bool, BorrowError> { t.try_eq(u) }

pub fn h_tree_eq(t: &Tree<Data>, u: &Tree<Data>) -> bool { *t == *u }

pub fn h_tree_try_clone(t: &Tree<Data>) -> Result<Tree<Data>, BorrowError> { t.try_clone_tree() }

pub fn h_tree_clone_tree(t: &Tree<Data>) -> Tree<Data> { t.clone_tree() }

pub fn h_tree_debug(t: &Tree<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(t, f) }

pub fn h_tree_debug_pretty_print(t: &Tree<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&t.debug_pretty_print(), f) }

pub fn h_tree_debug_print_local(t: &Tree<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&t.debug_print_local(), f) }

pub fn h_tree_debug_print(t: &Tree<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&t.debug_print(), f) }

pub fn h_tree_display_pretty_print(t: &Tree<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&t.debug_pretty_print(), f) }

pub fn h_tree_shows_display_pretty_print(t: &Tree<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&t.debug_pretty_print(), f) }

pub fn h_tree_shows_debug_pretty_print(t: &Tree<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&t.debug_pretty_print(), f) }

pub fn h_node_try_eq(n: &Node<Data>, m: &Node<Data>) -> Result<bool, BorrowError> { n.try_eq(m) }

pub fn h_grant_try_clone(g: &HierarchyEditGrant<Data>) -> Result<HierarchyEditGrant<Data>, HierarchyEditGrantError> { g.try_clone() }

pub fn h_grant_drop(g: HierarchyEditGrant<Data>) { drop(g) }

pub fn h_grant_is_valid(g: &HierarchyEditGrant<Data>, n: &Node<Data>) -> bool { g.is_valid_for_node(n) }

pub fn h_prohibition_try_clone(g: &HierarchyEditProhibition<Data>) -> Result<HierarchyEditProhibition<Data>, HierarchyEditProhibitionError> { g.try_clone() }

pub fn h_prohibition_drop(g: HierarchyEditProhibition<Data>) { drop(g) }

pub fn h_prohibition_is_valid(g: &HierarchyEditProhibition<Data>, n: &Node<Data>) -> bool { g.is_valid_for_node(n) }

pub fn h_grant_clone(g: &HierarchyEditGrant<Data>) -> HierarchyEditGrant<Data> { g.clone() }

pub fn h_node_new_tree() -> Node<Data> { Node::new_tree(nondet_data()) }

pub fn h_hot_new_tree() -> HotNode<Data> { HotNode::new_tree(nondet_data()) }

pub fn h_node_detach_subtree(n: &Node<Data>, g: &HierarchyEditGrant<Data>) { n.detach_subtree(g) }

pub fn h_node_try_create_node_as(n: &Node<Data>, g: &HierarchyEditGrant<Data>, dest: AdoptAs) -> Result<Node<Data>, HierarchyError> { n.try_create_node_as(g, nondet_data(), dest) }

pub fn h_node_create_node_as(n: &Node<Data>, g: &HierarchyEditGrant<Data>, dest: AdoptAs) -> Node<Data> { n.create_node_as(g, nondet_data(), dest) }

pub fn h_node_create_as_first_child(n: &Node<Data>, g: &HierarchyEditGrant<Data>) -> Node<Data> { n.create_as_first_child(g, nondet_data()) }

pub fn h_node_create_as_last_child(n: &Node<Data>, g: &HierarchyEditGrant<Data>) -> Node<Data> { n.create_as_last_child(g, nondet_data()) }

pub fn h_node_create_as_prev_sibling(n: &Node<Data>, g: &HierarchyEditGrant<Data>) -> Node<Data> { n.create_as_prev_sibling(g, nondet_data()) }

pub fn h_node_create_as_next_sibling(n: &Node<Data>, g: &HierarchyEditGrant<Data>) -> Node<Data> { n.create_as_next_sibling(g, nondet_data()) }

pub fn h_node_create_as_interrupting_parent(n: &Node<Data>, g: &HierarchyEditGrant<Data>) -> Node<Data> { n.create_as_interrupting_parent(g, nondet_data()) }

pub fn h_node_create_as_interrupting_child(n: &Node<Data>, g: &HierarchyEditGrant<Data>) -> Node<Data> { n.create_as_interrupting_child(g, nondet_data()) }

pub fn h_node_try_create_as_prev_sibling(n: &Node<Data>, g: &HierarchyEditGrant<Data>) -> Result<Node<Data>, HierarchyError> { n.try_create_as_prev_sibling(g, nondet_data()) }

pub fn h_node_try_create_as_next_sibling(n: &Node<Data>, g: &HierarchyEditGrant<Data>) -> Result<Node<Data>, HierarchyError> { n.try_create_as_next_sibling(g, nondet_data()) }

pub fn h_node_try_replace_with_children(n: &Node<Data>, g: &HierarchyEditGrant<Data>) -> Result<(), HierarchyError> { n.try_replace_with_children(g) }

pub fn h_node_replace_with_children(n: &Node<Data>, g: &HierarchyEditGrant<Data>) { n.replace_with_children(g) }

pub fn h_node_try_detach_insert_subtree(n: &Node<Data>, g: &HierarchyEditGrant<Data>, dest: InsertAs<&HotNode<Data>>) -> Result<(), HierarchyError> { n.try_detach_insert_subtree(g, dest) }

pub fn h_node_detach_insert_subtree(n: &Node<Data>, g: &HierarchyEditGrant<Data>, dest: InsertAs<&HotNode<Data>>) { n.detach_insert_subtree(g, dest) }

pub fn h_hot_detach_subtree(n: &HotNode<Data>) { n.detach_subtree() }

pub fn h_hot_try_create_node_as(n: &HotNode<Data>, dest: AdoptAs) -> Result<HotNode<Data>, HierarchyError> { n.try_create_node_as(nondet_data(), dest) }

pub fn h_hot_create_node_as(n: &HotNode<Data>, dest: AdoptAs) -> HotNode<Data> { n.create_node_as(nondet_data(), dest) }

pub fn h_hot_create_as_first_child(n: &HotNode<Data>) -> HotNode<Data> { n.create_as_first_child(nondet_data()) }

pub fn h_hot_create_as_last_child(n: &HotNode<Data>) -> HotNode<Data> { n.create_as_last_child(nondet_data()) }

pub fn h_hot_create_as_prev_sibling(n: &HotNode<Data>) -> HotNode<Data> { n.create_as_prev_sibling(nondet_data()) }

pub fn h_hot_create_as_next_sibling(n: &HotNode<Data>) -> HotNode<Data> { n.create_as_next_sibling(nondet_data()) }

pub fn h_hot_create_as_interrupting_parent(n: &HotNode<Data>) -> HotNode<Data> { n.create_as_interrupting_parent(nondet_data()) }

pub fn h_hot_create_as_interrupting_child(n: &HotNode<Data>) -> HotNode<Data> { n.create_as_interrupting_child(nondet_data()) }

pub fn h_hot_try_create_as_prev_sibling(n: &HotNode<Data>) -> Result<HotNode<Data>, HierarchyError> { n.try_create_as_prev_sibling(nondet_data()) }

pub fn h_hot_try_create_as_next_sibling(n: &HotNode<Data>) -> Result<HotNode<Data>, HierarchyError> { n.try_create_as_next_sibling(nondet_data()) }

pub fn h_hot_try_replace_with_children(n: &HotNode<Data>) -> Result<(), HierarchyError> { n.try_replace_with_children() }

pub fn h_hot_replace_with_children(n: &HotNode<Data>) { n.replace_with_children() }

pub fn h_hot_try_detach_insert_subtree(n: &HotNode<Data>, dest: InsertAs<&HotNode<Data>>) -> Result<(), HierarchyError> { n.try_detach_insert_subtree(dest) }

pub fn h_hot_detach_insert_subtree(n: &HotNode<Data>, dest: InsertAs<&HotNode<Data>>) { n.detach_insert_subtree(dest) }

pub fn h_node_try_clone_insert_subtree(n: &Node<Data>, dest: InsertAs<&HotNode<Data>>) -> Result<HotNode<Data>, HierarchyError> { n.try_clone_insert_subtree(dest) }

pub fn h_frozen_try_clone_insert_subtree(n: &FrozenNode<Data>, dest: InsertAs<&HotNode<Data>>) -> Result<HotNode<Data>, HierarchyError> { n.try_clone_insert_subtree(dest) }

pub fn h_hot_try_clone_insert_subtree(n: &HotNode<Data>, dest: InsertAs<&HotNode<Data>>) -> Result<HotNode<Data>, HierarchyError> { n.try_clone_insert_subtree(dest) }

pub fn h_node_clone_insert_subtree(n: &Node<Data>, dest: InsertAs<&HotNode<Data>>) -> HotNode<Data> { n.clone_insert_subtree(dest) }

pub fn h_hot_clone_insert_subtree(n: &HotNode<Data>, dest: InsertAs<&HotNode<Data>>) -> HotNode<Data> { n.clone_insert_subtree(dest) }

pub fn h_aux_replay() -> Option<Event<Data>> { replay_next() }

pub fn h_insertas_map(d: InsertAs<&HotNode<Data>>) -> InsertAs<Node<Data>> { d.map(|h| h.plain()) }

pub fn h_insertas_as_ref(d: &InsertAs<HotNode<Data>>) -> InsertAs<&HotNode<Data>> { d.as_ref() }

pub fn h_event_from_map_open(d: Data) -> Event<Data> { Event::Open(d).map(|d| d) }

pub fn h_event_from_map_close(n: usize) -> Event<Data> { Event::Close(n).map(|d: Data| d) }

pub fn h_dftevent_map(d: DftEvent<Node<Data>>) -> DftEvent<NodeWeak<Data>> { d.map(|h| h.downgrade()) }

pub fn h_dftevent_into_value(d: DftEvent<Node<Data>>) -> Node<Data> { d.into_value() }

pub fn h_dftevent_into_open(d: DftEvent<Node<Data>>) -> Option<Node<Data>> { d.into_open() }

pub fn h_dftevent_into_close(d: DftEvent<Node<Data>>) -> Option<Node<Data>> { d.into_close() }

pub fn h_dftevent_as_value(d: &DftEvent<Node<Data>>) -> &Node<Data> { d.as_value() }

pub fn h_dftevent_as_value_mut(d: &mut DftEvent<Node<Data>>) -> &mut Node<Data> { d.as_value_mut() }

pub fn h_frozen_children_stable(n: &FrozenNode<Data>) { let mut it = n.children_stable(); loop { if nondet_bool() { match it.next() { Some(x) => obs_node(&x.plain()), None => break } } else { match it.next_back() { Some(x) => obs_back(&x.plain()), None => break } } } obs_end(); match it.next() { Some(x) => obs_node(&x.plain()), None => obs_end() } match it.next_back() { Some(x) => obs_back(&x.plain()), None => obs_back_end() } }

pub fn h_frozen_children_stable_fwd(n: &FrozenNode<Data>) { let mut it = n.children_stable(); loop { match it.next() { Some(x) => obs_node(&x.plain()), None => break } } obs_end(); }

pub fn h_frozen_children_stable_peek(n: &FrozenNode<Data>) { let mut it = n.children_stable(); loop { match it.peek() { Some(x) => obs_back(&x.plain()), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x.plain()), None => break } } obs_end(); }

pub fn h_frozen_children_stable_mix(n: &FrozenNode<Data>) { let mut it = n.children_stable(); loop { obs_peeking(); match it.peek() { Some(x) => obs_node(&x.plain()), None => obs_peek_none() } obs_peeking_back(); match it.peek_back() { Some(x) => obs_back(&x.plain()), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); if nondet_bool() { match it.next() { Some(x) => obs_node(&x.plain()), None => break } } else { match it.next_back() { Some(x) => obs_back(&x.plain()), None => break } } } obs_end(); }

pub fn h_frozen_children_stable_peek_back(n: &FrozenNode<Data>) { let mut it = n.children_stable(); loop { match it.peek_back() { Some(x) => obs_node(&x.plain()), None => obs_peek_none() } match it.next_back() { Some(x) => obs_back(&x.plain()), None => break } } obs_back_end(); }

pub fn h_frozen_siblings_stable(n: &FrozenNode<Data>) { let mut it = n.siblings_stable(); loop { if nondet_bool() { match it.next() { Some(x) => obs_node(&x.plain()), None => break } } else { match it.next_back() { Some(x) => obs_back(&x.plain()), None => break } } } obs_end(); match it.next() { Some(x) => obs_node(&x.plain()), None => obs_end() } match it.next_back() { Some(x) => obs_back(&x.plain()), None => obs_back_end() } }

pub fn h_frozen_siblings_stable_fwd(n: &FrozenNode<Data>) { let mut it = n.siblings_stable(); loop { match it.next() { Some(x) => obs_node(&x.plain()), None => break } } obs_end(); }

pub fn h_frozen_siblings_stable_peek(n: &FrozenNode<Data>) { let mut it = n.siblings_stable(); loop { match it.peek() { Some(x) => obs_back(&x.plain()), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x.plain()), None => break } } obs_end(); }

pub fn h_frozen_siblings_stable_mix(n: &FrozenNode<Data>) { let mut it = n.siblings_stable(); loop { obs_peeking(); match it.peek() { Some(x) => obs_node(&x.plain()), None => obs_peek_none() } obs_peeking_back(); match it.peek_back() { Some(x) => obs_back(&x.plain()), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); if nondet_bool() { match it.next() { Some(x) => obs_node(&x.plain()), None => break } } else { match it.next_back() { Some(x) => obs_back(&x.plain()), None => break } } } obs_end(); }

pub fn h_frozen_siblings_stable_peek_back(n: &FrozenNode<Data>) { let mut it = n.siblings_stable(); loop { match it.peek_back() { Some(x) => obs_node(&x.plain()), None => obs_peek_none() } match it.next_back() { Some(x) => obs_back(&x.plain()), None => break } } obs_back_end(); }

pub fn h_frozen_preceding_siblings_or_self_stable(n: &FrozenNode<Data>) { let mut it = n.preceding_siblings_or_self_stable(); loop { if nondet_bool() { match it.next() { Some(x) => obs_node(&x.plain()), None => break } } else { match it.next_back() { Some(x) => obs_back(&x.plain()), None => break } } } obs_end(); match it.next() { Some(x) => obs_node(&x.plain()), None => obs_end() } match it.next_back() { Some(x) => obs_back(&x.plain()), None => obs_back_end() } }

pub fn h_frozen_preceding_siblings_or_self_stable_fwd(n: &FrozenNode<Data>) { let mut it = n.preceding_siblings_or_self_stable(); loop { match it.next() { Some(x) => obs_node(&x.plain()), None => break } } obs_end(); }

pub fn h_frozen_preceding_siblings_or_self_stable_peek(n: &FrozenNode<Data>) { let mut it = n.preceding_siblings_or_self_stable(); loop { match it.peek() { Some(x) => obs_back(&x.plain()), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x.plain()), None => break } } obs_end(); }

pub fn h_frozen_preceding_siblings_or_self_stable_mix(n: &FrozenNode<Data>) { let mut it = n.preceding_siblings_or_self_stable(); loop { obs_peeking(); match it.peek() { Some(x) => obs_node(&x.plain()), None => obs_peek_none() } obs_peeking_back(); match it.peek_back() { Some(x) => obs_back(&x.plain()), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); if nondet_bool() { match it.next() { Some(x) => obs_node(&x.plain()), None => break } } else { match it.next_back() { Some(x) => obs_back(&x.plain()), None => break } } } obs_end(); }

pub fn h_frozen_preceding_siblings_or_self_stable_peek_back(n: &FrozenNode<Data>) { let mut it = n.preceding_siblings_or_self_stable(); loop { match it.peek_back() { Some(x) => obs_node(&x.plain()), None => obs_peek_none() } match it.next_back() { Some(x) => obs_back(&x.plain()), None => break } } obs_back_end(); }

pub fn h_frozen_preceding_siblings_stable(n: &FrozenNode<Data>) { let mut it = n.preceding_siblings_stable(); loop { if nondet_bool() { match it.next() { Some(x) => obs_node(&x.plain()), None => break } } else { match it.next_back() { Some(x) => obs_back(&x.plain()), None => break } } } obs_end(); match it.next() { Some(x) => obs_node(&x.plain()), None => obs_end() } match it.next_back() { Some(x) => obs_back(&x.plain()), None => obs_back_end() } }

pub fn h_frozen_preceding_siblings_stable_fwd(n: &FrozenNode<Data>) { let mut it = n.preceding_siblings_stable(); loop { match it.next() { Some(x) => obs_node(&x.plain()), None => break } } obs_end(); }

pub fn h_frozen_preceding_siblings_stable_peek(n: &FrozenNode<Data>) { let mut it = n.preceding_siblings_stable(); loop { match it.peek() { Some(x) => obs_back(&x.plain()), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x.plain()), None => break } } obs_end(); }

pub fn h_frozen_preceding_siblings_stable_mix(n: &FrozenNode<Data>) { let mut it = n.preceding_siblings_stable(); loop { obs_peeking(); match it.peek() { Some(x) => obs_node(&x.plain()), None => obs_peek_none() } obs_peeking_back(); match it.peek_back() { Some(x) => obs_back(&x.plain()), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); if nondet_bool() { match it.next() { Some(x) => obs_node(&x.plain()), None => break } } else { match it.next_back() { Some(x) => obs_back(&x.plain()), None => break } } } obs_end(); }

pub fn h_frozen_preceding_siblings_stable_peek_back(n: &FrozenNode<Data>) { let mut it = n.preceding_siblings_stable(); loop { match it.peek_back() { Some(x) => obs_node(&x.plain()), None => obs_peek_none() } match it.next_back() { Some(x) => obs_back(&x.plain()), None => break } } obs_back_end(); }

pub fn h_frozen_following_siblings_or_self_stable(n: &FrozenNode<Data>) { let mut it = n.following_siblings_or_self_stable(); loop { if nondet_bool() { match it.next() { Some(x) => obs_node(&x.plain()), None => break } } else { match it.next_back() { Some(x) => obs_back(&x.plain()), None => break } } } obs_end(); match it.next() { Some(x) => obs_node(&x.plain()), None => obs_end() } match it.next_back() { Some(x) => obs_back(&x.plain()), None => obs_back_end() } }

pub fn h_frozen_following_siblings_or_self_stable_fwd(n: &FrozenNode<Data>) { let mut it = n.following_siblings_or_self_stable(); loop { match it.next() { Some(x) => obs_node(&x.plain()), None => break } } obs_end(); }

pub fn h_frozen_following_siblings_or_self_stable_peek(n: &FrozenNode<Data>) { let mut it = n.following_siblings_or_self_stable(); loop { match it.peek() { Some(x) => obs_back(&x.plain()), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x.plain()), None => break } } obs_end(); }

pub fn h_frozen_following_siblings_or_self_stable_mix(n: &FrozenNode<Data>) { let mut it = n.following_siblings_or_self_stable(); loop { obs_peeking(); match it.peek() { Some(x) => obs_node(&x.plain()), None => obs_peek_none() } obs_peeking_back(); match it.peek_back() { Some(x) => obs_back(&x.plain()), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); if nondet_bool() { match it.next() { Some(x) => obs_node(&x.plain()), None => break } } else { match it.next_back() { Some(x) => obs_back(&x.plain()), None => break } } } obs_end(); }

pub fn h_frozen_following_siblings_or_self_stable_peek_back(n: &FrozenNode<Data>) { let mut it = n.following_siblings_or_self_stable(); loop { match it.peek_back() { Some(x) => obs_node(&x.plain()), None => obs_peek_none() } match it.next_back() { Some(x) => obs_back(&x.plain()), None => break } } obs_back_end(); }

pub fn h_frozen_following_siblings_stable(n: &FrozenNode<Data>) { let mut it = n.following_siblings_stable(); loop { if nondet_bool() { match it.next() { Some(x) => obs_node(&x.plain()), None => break } } else { match it.next_back() { Some(x) => obs_back(&x.plain()), None => break } } } obs_end(); match it.next() { Some(x) => obs_node(&x.plain()), None => obs_end() } match it.next_back() { Some(x) => obs_back(&x.plain()), None => obs_back_end() } }

pub fn h_frozen_following_siblings_stable_fwd(n: &FrozenNode<Data>) { let mut it = n.following_siblings_stable(); loop { match it.next() { Some(x) => obs_node(&x.plain()), None => break } } obs_end(); }

pub fn h_frozen_following_siblings_stable_peek(n: &FrozenNode<Data>) { let mut it = n.following_siblings_stable(); loop { match it.peek() { Some(x) => obs_back(&x.plain()), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x.plain()), None => break } } obs_end(); }

pub fn h_frozen_following_siblings_stable_mix(n: &FrozenNode<Data>) { let mut it = n.following_siblings_stable(); loop { obs_peeking(); match it.peek() { Some(x) => obs_node(&x.plain()), None => obs_peek_none() } obs_peeking_back(); match it.peek_back() { Some(x) => obs_back(&x.plain()), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); if nondet_bool() { match it.next() { Some(x) => obs_node(&x.plain()), None => break } } else { match it.next_back() { Some(x) => obs_back(&x.plain()), None => break } } } obs_end(); }

pub fn h_frozen_following_siblings_stable_peek_back(n: &FrozenNode<Data>) { let mut it = n.following_siblings_stable(); loop { match it.peek_back() { Some(x) => obs_node(&x.plain()), None => obs_peek_none() } match it.next_back() { Some(x) => obs_back(&x.plain()), None => break } } obs_back_end(); }

pub fn h_frozen_depth_first_traverse_stable(n: &FrozenNode<Data>) { let mut it = n.depth_first_traverse_stable(); loop { if nondet_bool() { match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x.plain()), DftEvent::Close(x) => obs_close(&x.plain()) }, None => break } } else { match it.next_back() { Some(e) => match e { DftEvent::Open(x) => obs_back_open(&x.plain()), DftEvent::Close(x) => obs_back_close(&x.plain()) }, None => break } } } obs_end(); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x.plain()), DftEvent::Close(x) => obs_close(&x.plain()) }, None => obs_end() } match it.next_back() { Some(e) => match e { DftEvent::Open(x) => obs_back_open(&x.plain()), DftEvent::Close(x) => obs_back_close(&x.plain()) }, None => obs_back_end() } }

pub fn h_frozen_depth_first_traverse_stable_fwd(n: &FrozenNode<Data>) { let mut it = n.depth_first_traverse_stable(); loop { match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x.plain()), DftEvent::Close(x) => obs_close(&x.plain()) }, None => break } } obs_end(); }

pub fn h_frozen_depth_first_traverse_stable_back(n: &FrozenNode<Data>) { let mut it = n.depth_first_traverse_stable(); loop { match it.next_back() { Some(e) => match e { DftEvent::Open(x) => obs_back_open(&x.plain()), DftEvent::Close(x) => obs_back_close(&x.plain()) }, None => break } } obs_back_end(); }

pub fn h_frozen_depth_first_traverse_stable_peek(n: &FrozenNode<Data>) { let mut it = n.depth_first_traverse_stable(); loop { match it.peek() { Some(e) => match e { DftEvent::Open(x) => obs_back_open(&x.plain()), DftEvent::Close(x) => obs_back_close(&x.plain()) }, None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x.plain()), DftEvent::Close(x) => obs_close(&x.plain()) }, None => break } } obs_end(); }

pub fn h_frozen_depth_first_traverse_stable_mix(n: &FrozenNode<Data>) { let mut it = n.depth_first_traverse_stable(); loop { obs_peeking(); match it.peek() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x.plain()), DftEvent::Close(x) => obs_close(&x.plain()) }, None => obs_peek_none() } obs_peeking_back(); match it.peek_back() { Some(e) => match e { DftEvent::Open(x) => obs_back_open(&x.plain()), DftEvent::Close(x) => obs_back_close(&x.plain()) }, None => obs_peek_none() } if nondet_bool() { match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x.plain()), DftEvent::Close(x) => obs_close(&x.plain()) }, None => break } } else { match it.next_back() { Some(e) => match e { DftEvent::Open(x) => obs_back_open(&x.plain()), DftEvent::Close(x) => obs_back_close(&x.plain()) }, None => break } } } obs_end(); }

pub fn h_frozen_depth_first_traverse_stable_hint(n: &FrozenNode<Data>) { let mut it = n.depth_first_traverse_stable(); loop { if nondet_bool() { break } if nondet_bool() { match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x.plain()), DftEvent::Close(x) => obs_close(&x.plain()) }, None => break } } else { match it.next_back() { Some(e) => match e { DftEvent::Open(x) => obs_back_open(&x.plain()), DftEvent::Close(x) => obs_back_close(&x.plain()) }, None => break } } } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); }

pub fn h_frozen_depth_first_traverse_stable_peek_back(n: &FrozenNode<Data>) { let mut it = n.depth_first_traverse_stable(); loop { match it.peek_back() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x.plain()), DftEvent::Close(x) => obs_close(&x.plain()) }, None => obs_peek_none() } match it.next_back() { Some(e) => match e { DftEvent::Open(x) => obs_back_open(&x.plain()), DftEvent::Close(x) => obs_back_close(&x.plain()) }, None => break } } obs_back_end(); }

pub fn h_frozen_depth_first_traverse_stable_skip(n: &FrozenNode<Data>) { let mut it = n.depth_first_traverse_stable(); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x.plain()), DftEvent::Close(x) => obs_close(&x.plain()) }, None => { obs_end(); return } } loop { if nondet_bool() { break } match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x.plain()), DftEvent::Close(x) => obs_close(&x.plain()) }, None => { obs_end(); return } } } obs_skip_begin(); let s = it.close_current(); obs_skip(&s.map(|x| x.plain())); match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x.plain()), DftEvent::Close(x) => obs_close(&x.plain()) }, None => obs_end() } }

pub fn h_frozen_shallow_depth_first_traverse_stable_fwd(n: &FrozenNode<Data>, m: Option<usize>) { let mut it = n.shallow_depth_first_traverse_stable(m); loop { match it.next() { Some(e) => match e { DftEvent::Open((x, d)) => { obs_depth(d); obs_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(d); obs_close(&x.plain()) } }, None => break } } obs_end(); }

pub fn h_frozen_shallow_depth_first_traverse_stable_back(n: &FrozenNode<Data>, m: Option<usize>) { let mut it = n.shallow_depth_first_traverse_stable(m); loop { match it.next_back() { Some(e) => match e { DftEvent::Open((x, d)) => { obs_depth(d); obs_back_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(d); obs_back_close(&x.plain()) } }, None => break } } obs_back_end(); }

pub fn h_frozen_shallow_depth_first_traverse_stable(n: &FrozenNode<Data>, m: Option<usize>) { let mut it = n.shallow_depth_first_traverse_stable(m); loop { if nondet_bool() { match it.next() { Some(e) => match e { DftEvent::Open((x, d)) => { obs_depth(d); obs_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(d); obs_close(&x.plain()) } }, None => break } } else { match it.next_back() { Some(e) => match e { DftEvent::Open((x, d)) => { obs_depth(d); obs_back_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(d); obs_back_close(&x.plain()) } }, None => break } } } obs_end(); }

pub fn h_frozen_shallow_depth_first_traverse_stable_peek(n: &FrozenNode<Data>, m: Option<usize>) { let mut it = n.shallow_depth_first_traverse_stable(m); loop { match it.peek() { Some(e) => match e { DftEvent::Open((x, d)) => { obs_depth(*d); obs_back_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(*d); obs_back_close(&x.plain()) } }, None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(e) => match e { DftEvent::Open((x, d)) => { obs_depth(d); obs_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(d); obs_close(&x.plain()) } }, None => break } } obs_end(); }

pub fn h_frozen_shallow_depth_first_traverse_stable_peek_back(n: &FrozenNode<Data>, m: Option<usize>) { let mut it = n.shallow_depth_first_traverse_stable(m); loop { match it.peek_back() { Some(e) => match e { DftEvent::Open((x, d)) => { obs_depth(*d); obs_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(*d); obs_close(&x.plain()) } }, None => obs_peek_none() } match it.next_back() { Some(e) => match e { DftEvent::Open((x, d)) => { obs_depth(d); obs_back_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(d); obs_back_close(&x.plain()) } }, None => break } } obs_back_end(); }

pub fn h_frozen_shallow_depth_first_traverse_stable_mix(n: &FrozenNode<Data>, m: Option<usize>) { let mut it = n.shallow_depth_first_traverse_stable(m); loop { obs_peeking(); match it.peek() { Some(e) => match e { DftEvent::Open((x, d)) => { obs_depth(*d); obs_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(*d); obs_close(&x.plain()) } }, None => obs_peek_none() } obs_peeking_back(); match it.peek_back() { Some(e) => match e { DftEvent::Open((x, d)) => { obs_depth(*d); obs_back_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(*d); obs_back_close(&x.plain()) } }, None => obs_peek_none() } if nondet_bool() { match it.next() { Some(e) => match e { DftEvent::Open((x, d)) => { obs_depth(d); obs_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(d); obs_close(&x.plain()) } }, None => break } } else { match it.next_back() { Some(e) => match e { DftEvent::Open((x, d)) => { obs_depth(d); obs_back_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(d); obs_back_close(&x.plain()) } }, None => break } } } obs_end(); }

pub fn h_frozen_shallow_depth_first_traverse_stable_hint(n: &FrozenNode<Data>, m: Option<usize>) { let mut it = n.shallow_depth_first_traverse_stable(m); loop { let (lo, hi) = it.size_hint(); obs_hint(lo, hi); if nondet_bool() { match it.next() { Some(e) => match e { DftEvent::Open((x, d)) => { obs_depth(d); obs_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(d); obs_close(&x.plain()) } }, None => break } } else { match it.next_back() { Some(e) => match e { DftEvent::Open((x, d)) => { obs_depth(d); obs_back_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(d); obs_back_close(&x.plain()) } }, None => break } } } obs_end(); }

pub fn h_frozen_shallow_depth_first_traverse_stable_skip(n: &FrozenNode<Data>, m: Option<usize>) { let mut it = n.shallow_depth_first_traverse_stable(m); match it.next() { Some(e) => match e { DftEvent::Open((x, d)) => { obs_depth(d); obs_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(d); obs_close(&x.plain()) } }, None => { obs_end(); return } } loop { if nondet_bool() { break } match it.next() { Some(e) => match e { DftEvent::Open((x, d)) => { obs_depth(d); obs_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(d); obs_close(&x.plain()) } }, None => { obs_end(); return } } } obs_skip_begin(); let s = it.close_current(); if let Some((_, d)) = &s { obs_depth(*d); } obs_skip(&s.map(|x| x.0.plain())); match it.next() { Some(e) => match e { DftEvent::Open((x, d)) => { obs_depth(d); obs_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(d); obs_close(&x.plain()) } }, None => obs_end() } }

pub fn h_frozen_shallow_depth_first_traverse_stable_limit(n: &FrozenNode<Data>, m: usize) -> usize { n.shallow_depth_first_traverse_stable(Some(m)).max_depth() }

pub fn h_frozen_non_allocating_breadth_first_traverse_stable(n: &FrozenNode<Data>, s: usize) { let mut it = n.non_allocating_breadth_first_traverse_stable(s); loop { match it.next() { Some((x, d)) => { obs_depth(d); obs_node(&x.plain()) }, None => break } } obs_end(); match it.next() { Some((x, d)) => { obs_depth(d); obs_node(&x.plain()) }, None => obs_end() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some((x, d)) => { obs_depth(d); obs_node(&x.plain()) }, None => obs_end() } }

pub fn h_frozen_non_allocating_breadth_first_traverse_stable_hint(n: &FrozenNode<Data>, s: usize) { let mut it = n.non_allocating_breadth_first_traverse_stable(s); loop { let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some((x, d)) => { obs_depth(d); obs_node(&x.plain()) }, None => break } } obs_end(); }

pub fn h_frozen_non_allocating_breadth_first_traverse_stable_max(n: &FrozenNode<Data>) { let mut it = n.non_allocating_breadth_first_traverse_stable(usize::MAX); loop { match it.next() { Some((x, d)) => { obs_depth(d); obs_node(&x.plain()) }, None => break } } obs_end(); }

pub fn h_frozen_allocating_breadth_first_traverse_stable(n: &FrozenNode<Data>, s: usize) -> AllocatingBreadthFirstTraverser<Data> { n.allocating_breadth_first_traverse_stable(s) }

pub fn h_frozen_allocating_breadth_first_traverse_stable_max(n: &FrozenNode<Data>) -> AllocatingBreadthFirstTraverser<Data> { n.allocating_breadth_first_traverse_stable(usize::MAX) }

pub fn h_bfs_next(q: &mut AllocatingBreadthFirstTraverser<Data>) -> Option<(FrozenNode<Data>, usize)> { q.next() }

pub fn h_bfs_peek(q: &mut AllocatingBreadthFirstTraverser<Data>) -> Option<(FrozenNode<Data>, usize)> { q.peek() }

pub fn h_bfs_hint(q: &mut AllocatingBreadthFirstTraverser<Data>) -> (usize, Option<usize>) { q.size_hint() }

pub fn h_bfs_shrink(q: &mut AllocatingBreadthFirstTraverser<Data>, n: usize) { q.capacity(); q.shrink_to(n); q.shrink_to_fit() }

pub fn h_bfs_drop(q: AllocatingBreadthFirstTraverser<Data>) { drop(q) }

pub fn h_node_children_cloned(n: &Node<Data>) { let mut it = n.children(); loop { if nondet_bool() { if nondet_bool() { let mut c = it.clone(); c.next(); } else { let c = it.clone(); it.next(); it = c; } } match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_node_children_reverse_cloned(n: &Node<Data>) { let mut it = n.children_reverse(); loop { if nondet_bool() { if nondet_bool() { let mut c = it.clone(); c.next(); } else { let c = it.clone(); it.next(); it = c; } } match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_node_ancestors_cloned(n: &Node<Data>) { let mut it = n.ancestors(); loop { if nondet_bool() { if nondet_bool() { let mut c = it.clone(); c.next(); } else { let c = it.clone(); it.next(); it = c; } } match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); }

pub fn h_node_depth_first_traverse_cloned(n: &Node<Data>) { let mut it = n.depth_first_traverse(); loop { if nondet_bool() { if nondet_bool() { let mut c = it.clone(); c.next(); } else { let c = it.clone(); it.next(); it = c; } } match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => break } } obs_end(); }

pub fn h_node_depth_first_reverse_traverse_cloned(n: &Node<Data>) { let mut it = n.depth_first_reverse_traverse(); loop { if nondet_bool() { if nondet_bool() { let mut c = it.clone(); c.next(); } else { let c = it.clone(); it.next(); it = c; } } match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => break } } obs_end(); }

pub fn h_frozen_siblings_stable_cloned(n: &FrozenNode<Data>) { let mut it = n.siblings_stable(); loop { if nondet_bool() { if nondet_bool() { let mut c = it.clone(); c.next(); } else { let c = it.clone(); it.next(); it.next_back(); it = c; } } if nondet_bool() { match it.next() { Some(x) => obs_node(&x.plain()), None => break } } else { match it.next_back() { Some(x) => obs_back(&x.plain()), None => break } } } obs_end(); }

pub fn h_frozen_depth_first_traverse_stable_cloned(n: &FrozenNode<Data>) { let mut it = n.depth_first_traverse_stable(); loop { if nondet_bool() { it = it.clone(); } if nondet_bool() { match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x.plain()), DftEvent::Close(x) => obs_close(&x.plain()) }, None => break } } else { match it.next_back() { Some(e) => match e { DftEvent::Open(x) => obs_back_open(&x.plain()), DftEvent::Close(x) => obs_back_close(&x.plain()) }, None => break } } } obs_end(); }

pub fn h_frozen_shallow_depth_first_traverse_stable_cloned(n: &FrozenNode<Data>, m: Option<usize>) { let mut it = n.shallow_depth_first_traverse_stable(m); loop { if nondet_bool() { it = it.clone(); } if nondet_bool() { match it.next() { Some(e) => match e { DftEvent::Open((x, d)) => { obs_depth(d); obs_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(d); obs_close(&x.plain()) } }, None => break } } else { match it.next_back() { Some(e) => match e { DftEvent::Open((x, d)) => { obs_depth(d); obs_back_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(d); obs_back_close(&x.plain()) } }, None => break } } } obs_end(); }

pub fn h_frozen_non_allocating_breadth_first_traverse_stable_cloned(n: &FrozenNode<Data>, s: usize) { let mut it = n.non_allocating_breadth_first_traverse_stable(s); loop { if nondet_bool() { it = it.clone(); } match it.next() { Some((x, d)) => { obs_depth(d); obs_node(&x.plain()) }, None => break } } obs_end(); }

pub fn h_bfs_clone(q: &AllocatingBreadthFirstTraverser<Data>) -> AllocatingBreadthFirstTraverser<Data> { q.clone() }

pub fn h_walk_from(n: &Node<Data>, e: &DftEvent<Node<Data>>) { let mut it = DepthFirstTraverser::with_next_event(n.clone(), Some(e.clone())); loop { match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => break } } obs_end(); }

pub fn h_walk_from_reverse(n: &Node<Data>, e: &DftEvent<Node<Data>>) { let mut it = ReverseDepthFirstTraverser::with_next_event(n.clone(), Some(e.clone())); loop { match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }, None => break } } obs_end(); }

pub fn h_walk_between(a: &DftEvent<FrozenNode<Data>>, b: &DftEvent<FrozenNode<Data>>) { let mut it = StableDepthFirstTraverser::with_first_last_event(a.clone(), b.clone()); loop { if nondet_bool() { match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x.plain()), DftEvent::Close(x) => obs_close(&x.plain()) }, None => break } } else { match it.next_back() { Some(e) => match e { DftEvent::Open(x) => obs_back_open(&x.plain()), DftEvent::Close(x) => obs_back_close(&x.plain()) }, None => break } } } obs_end(); }

pub fn h_walk_between_fwd(a: &DftEvent<FrozenNode<Data>>, b: &DftEvent<FrozenNode<Data>>) { let mut it = StableDepthFirstTraverser::with_first_last_event(a.clone(), b.clone()); loop { match it.next() { Some(e) => match e { DftEvent::Open(x) => obs_open(&x.plain()), DftEvent::Close(x) => obs_close(&x.plain()) }, None => break } } obs_end(); }

pub fn h_walk_between_back(a: &DftEvent<FrozenNode<Data>>, b: &DftEvent<FrozenNode<Data>>) { let mut it = StableDepthFirstTraverser::with_first_last_event(a.clone(), b.clone()); loop { match it.next_back() { Some(e) => match e { DftEvent::Open(x) => obs_back_open(&x.plain()), DftEvent::Close(x) => obs_back_close(&x.plain()) }, None => break } } obs_back_end(); }

pub fn h_weak_clone(w: &NodeWeak<Data>) -> NodeWeak<Data> { w.clone() }

pub fn h_treeweak_clone(w: &TreeWeak<Data>) -> TreeWeak<Data> { w.clone() }

pub fn h_print_weak(w: &NodeWeak<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(w, f) }

pub fn h_print_treeweak(w: &TreeWeak<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(w, f) }

pub fn h_print_insertas(d: &InsertAs<HotNode<Data>>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(d, f) }

pub fn h_print_dftevent_node(e: &DftEvent<Node<Data>>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(e, f) }

pub fn h_print_dftevent_frozen(e: &DftEvent<FrozenNode<Data>>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(e, f) }

pub fn h_print_dftevent_hot(e: &DftEvent<HotNode<Data>>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(e, f) }

pub fn h_print_depth_first_traverse(n: &Node<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { let mut it = n.depth_first_traverse(); if nondet_bool() { it.next(); } fmt::Debug::fmt(&it, f) }

pub fn h_print_depth_first_reverse_traverse(n: &Node<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { let mut it = n.depth_first_reverse_traverse(); if nondet_bool() { it.next(); } fmt::Debug::fmt(&it, f) }

pub fn h_print_children(n: &Node<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { let mut it = n.children(); if nondet_bool() { it.next(); } fmt::Debug::fmt(&it, f) }

pub fn h_print_children_reverse(n: &Node<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { let mut it = n.children_reverse(); if nondet_bool() { it.next(); } fmt::Debug::fmt(&it, f) }

pub fn h_print_ancestors(n: &Node<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { let mut it = n.ancestors(); if nondet_bool() { it.next(); } fmt::Debug::fmt(&it, f) }

pub fn h_print_ancestors_or_self(n: &Node<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { let mut it = n.ancestors_or_self(); if nondet_bool() { it.next(); } fmt::Debug::fmt(&it, f) }

pub fn h_print_siblings(n: &Node<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { let mut it = n.siblings(); if nondet_bool() { it.next(); } fmt::Debug::fmt(&it, f) }

pub fn h_print_preceding_siblings_or_self_reverse(n: &Node<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { let mut it = n.preceding_siblings_or_self_reverse(); if nondet_bool() { it.next(); } fmt::Debug::fmt(&it, f) }

pub fn h_print_to_events(n: &Node<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { let mut it = n.to_events(); if nondet_bool() { it.next(); } fmt::Debug::fmt(&it, f) }

pub fn h_print_depth_first_traverse_stable(n: &FrozenNode<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { let it = n.depth_first_traverse_stable(); fmt::Debug::fmt(&it, f) }

pub fn h_print_shallow_depth_first_traverse_stable(n: &FrozenNode<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { let it = n.shallow_depth_first_traverse_stable(None); fmt::Debug::fmt(&it, f) }

pub fn h_print_children_stable(n: &FrozenNode<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { let it = n.children_stable(); fmt::Debug::fmt(&it, f) }

pub fn h_print_non_allocating_breadth_first_traverse_stable(n: &FrozenNode<Data>, f: &mut fmt::Formatter<'_>) -> fmt::Result { let it = n.non_allocating_breadth_first_traverse_stable(0); fmt::Debug::fmt(&it, f) }

pub fn h_b_new() -> TreeBuilder<Data> { TreeBuilder::new() }

pub fn h_b_default() -> TreeBuilder<Data> { TreeBuilder::default() }

pub fn h_b_with_root(h: HotNode<Data>) -> TreeBuilder<Data> { TreeBuilder::with_root(h) }

pub fn h_b_open(b: &mut TreeBuilder<Data>) -> Result<(), TreeBuildError> { b.open(nondet_data()) }

pub fn h_b_close(b: &mut TreeBuilder<Data>, n: usize) -> Result<(), TreeBuildError> { b.close(n) }

pub fn h_b_push_open(b: &mut TreeBuilder<Data>) -> Result<(), TreeBuildError> { b.push_event(Event::Open(nondet_data())) }

pub fn h_b_push_close(b: &mut TreeBuilder<Data>, n: usize) -> Result<(), TreeBuildError> { b.push_event(Event::Close(n)) }

pub fn h_b_pushes_open(b: &mut TreeBuilder<Data>) -> Result<(), TreeBuildError> { b.push_events(core::iter::once(Event::Open(nondet_data()))) }

pub fn h_b_pushes_close(b: &mut TreeBuilder<Data>, n: usize) -> Result<(), TreeBuildError> { b.push_events(core::iter::once(Event::Close(n))) }

pub fn h_b_pushes_close_open(b: &mut TreeBuilder<Data>, n: usize) -> Result<(), TreeBuildError> { b.push_events(core::iter::once(Event::Close(n)).chain(core::iter::once(Event::Open(nondet_data())))) }

pub fn h_b_pushes_nothing(b: &mut TreeBuilder<Data>) -> Result<(), TreeBuildError> { b.push_events(core::iter::empty()) }

pub fn h_b_push_dft(b: &mut TreeBuilder<Data>, e: DftEvent<Node<Data>>) -> Result<(), TreeBuildError> { b.push_dft_event(e) }

pub fn h_b_pushes_dft(b: &mut TreeBuilder<Data>, e: DftEvent<Node<Data>>) -> Result<(), TreeBuildError> { b.push_dft_events(core::iter::once(e)) }

pub fn h_b_is_root_closed(b: &TreeBuilder<Data>) -> bool { b.is_root_closed() }

pub fn h_b_is_root_available(b: &TreeBuilder<Data>) -> bool { b.is_root_available() }

pub fn h_b_finish(b: TreeBuilder<Data>) -> Result<Node<Data>, TreeBuildError> { b.finish() }

pub fn h_b_finish_opt(b: TreeBuilder<Data>) -> Option<Node<Data>> { b.finish_opt() }

pub fn h_b_collect_node() -> Result<Node<Data>, TreeBuildError> { core::iter::once(Event::Open(nondet_data())).collect() }

pub fn h_b_collect_none_node() -> Result<Node<Data>, TreeBuildError> { core::iter::empty::<Event<Data>>().collect() }

pub fn h_b_collect_bad_node(n: usize) -> Result<Node<Data>, TreeBuildError> { core::iter::once(Event::<Data>::Close(n)).collect() }

pub fn h_b_collect_frozen() -> Result<FrozenNode<Data>, TreeBuildError> { core::iter::once(Event::Open(nondet_data())).collect() }

pub fn h_b_collect_none_frozen() -> Result<FrozenNode<Data>, TreeBuildError> { core::iter::empty::<Event<Data>>().collect() }

pub fn h_b_collect_bad_frozen(n: usize) -> Result<FrozenNode<Data>, TreeBuildError> { core::iter::once(Event::<Data>::Close(n)).collect() }

pub fn h_b_collect_hot() -> Result<HotNode<Data>, TreeBuildError> { core::iter::once(Event::Open(nondet_data())).collect() }

pub fn h_b_collect_none_hot() -> Result<HotNode<Data>, TreeBuildError> { core::iter::empty::<Event<Data>>().collect() }

pub fn h_b_collect_bad_hot(n: usize) -> Result<HotNode<Data>, TreeBuildError> { core::iter::once(Event::<Data>::Close(n)).collect() }

pub fn h_b_collect_tree() -> Result<Tree<Data>, TreeBuildError> { core::iter::once(Event::Open(nondet_data())).collect() }

pub fn h_b_collect_none_tree() -> Result<Tree<Data>, TreeBuildError> { core::iter::empty::<Event<Data>>().collect() }

pub fn h_b_collect_bad_tree(n: usize) -> Result<Tree<Data>, TreeBuildError> { core::iter::once(Event::<Data>::Close(n)).collect() }

pub fn h_b_collect_dft(e: DftEvent<Node<Data>>) -> Result<Node<Data>, TreeBuildError> { core::iter::once(e).collect() }

pub fn h_event_from_node(e: DftEvent<Node<Data>>) -> Result<Event<Data>, BorrowError> { Event::try_from(e) }

pub fn h_event_from_frozen(e: DftEvent<FrozenNode<Data>>) -> Result<Event<Data>, BorrowError> { Event::try_from(e) }

pub fn h_event_from_hot(e: DftEvent<HotNode<Data>>) -> Result<Event<Data>, BorrowError> { Event::try_from(e) }
