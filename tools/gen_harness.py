#!/usr/bin/env python3
"""Generates /verif/harness/src/lib.rs: one entry function `h_*` per public operation.

The harness is only compiled to MIR and analysed; nothing in it is ever executed.
"""
import os
HEAD = '''// Generated by tools/gen_harness.py; do not edit.
#![allow(dead_code, unused_must_use, clippy::all)]
use dendron::node::*;
use dendron::serial::*;
use dendron::traverse::*;
use dendron::tree::*;
use dendron::{AdoptAs, FrozenNode, HierarchyError, HotNode, InsertAs, Node, NodeWeak, Tree, TreeWeak};
use dendron::{HierarchyEditGrant, HierarchyEditProhibition};
use core::cell::{BorrowError, BorrowMutError, Ref, RefMut};
use core::fmt;

/// Opaque user data: its clone, comparison, formatting and destructor are user code.
pub struct Data(u32);
#[inline(never)] pub fn cb_clone(d: &Data) -> Data { Data(d.0) }
#[inline(never)] pub fn cb_eq(a: &Data, b: &Data) -> bool { a.0 == b.0 }
#[inline(never)] pub fn cb_fmt(_: &Data, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
#[inline(never)] pub fn cb_drop(_: &mut Data) {}
impl Clone for Data { fn clone(&self) -> Data { cb_clone(self) } }
impl PartialEq for Data { fn eq(&self, o: &Data) -> bool { cb_eq(self, o) } }
impl Eq for Data {}
impl fmt::Debug for Data { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { cb_fmt(self, f) } }
impl fmt::Display for Data { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { cb_fmt(self, f) } }
impl Drop for Data { fn drop(&mut self) { cb_drop(self) } }

/// The data numbered k of a tree literal (literals.rs).
#[inline(never)] pub fn lit(k: u32) -> Data { Data(k) }
#[cfg(feature = "literals")] pub mod literals;
#[inline(never)] pub fn nondet_bool() -> bool { true }
#[inline(never)] pub fn nondet_usize() -> usize { 0 }
#[inline(never)] pub fn nondet_data() -> Data { Data(0) }
/// What `core::fmt::write` does: the writer gets pieces of text, and the arguments are formatted in order.
pub fn aux_fmt_write(w: &mut dyn fmt::Write, args: fmt::Arguments<'_>) -> fmt::Result {
    aux_pieces(w)?; aux_fmt_arg(&args, 0)?; aux_pieces(w)?; aux_fmt_arg(&args, 1)?; aux_pieces(w)?; aux_fmt_arg(&args, 2)?; aux_pieces(w)
}
pub fn aux_pieces(w: &mut dyn fmt::Write) -> fmt::Result { while nondet_bool() { if w.write_str(aux_str()).is_err() && nondet_bool() { return Err(fmt::Error); } } Ok(()) }
/// Formats the argument numbered k, if there is one.
#[inline(never)] pub fn aux_fmt_arg(_: &fmt::Arguments<'_>, _: usize) -> fmt::Result { Ok(()) }
/// Any text.
#[inline(never)] pub fn aux_str() -> &'static str { "" }
pub fn h_aux_fmt(w: &mut dyn fmt::Write, args: fmt::Arguments<'_>) -> fmt::Result { aux_fmt_write(w, args) }
/// What an abstract vector of events still holds at its front: nothing, an opening, or a closing.
#[inline(never)] pub fn replay_kind() -> u32 { 0 }
#[inline(never)] pub fn replay_open() -> Data { Data(0) }
#[inline(never)] pub fn replay_close() {}
pub fn replay_next() -> Option<Event<Data>> {
    match replay_kind() {
        0 => None,
        1 => Some(Event::Open(replay_open())),
        _ => {
            let mut n = 0;
            loop { replay_close(); n += 1; if replay_kind() != 2 { break } }
            Some(Event::Close(n))
        }
    }
}
#[inline(never)] pub fn obs_node(_: &Node<Data>) {}
#[inline(never)] pub fn obs_back(_: &Node<Data>) {}
#[inline(never)] pub fn obs_open(_: &Node<Data>) {}
#[inline(never)] pub fn obs_close(_: &Node<Data>) {}
#[inline(never)] pub fn obs_back_open(_: &Node<Data>) {}
#[inline(never)] pub fn obs_back_close(_: &Node<Data>) {}
#[inline(never)] pub fn obs_skip_begin() {}
#[inline(never)] pub fn obs_skip(_: &Option<Node<Data>>) {}
#[inline(never)] pub fn obs_end() {}
#[inline(never)] pub fn obs_back_end() {}
#[inline(never)] pub fn obs_depth(_: usize) {}
#[inline(never)] pub fn obs_peek_none() {}
#[inline(never)] pub fn obs_peeking() {}
#[inline(never)] pub fn obs_peeking_back() {}
#[inline(never)] pub fn obs_hint(_: usize, _: Option<usize>) {}

'''
out = [HEAD]
def fn(name, args, ret, body):
    out.append("pub fn h_%s(%s)%s { %s }\n" % (name, args, (" -> " + ret) if ret else "", body))

KINDS = [("node", "Node"), ("frozen", "FrozenNode"), ("hot", "HotNode")]
# ---- queries shared by the three node kinds
for k, K in KINDS:
    ty = "%s<Data>" % K
    for q in ["is_root", "has_prev_sibling", "has_next_sibling", "has_children", "has_one_child", "has_multiple_children"]:
        fn(f"{k}_{q}", f"n: &{ty}", "bool", f"n.{q}()")
    for q in ["num_children", "count_children", "count_preceding_siblings", "count_following_siblings", "count_ancestors"]:
        fn(f"{k}_{q}", f"n: &{ty}", "usize", f"n.{q}()")
    for q in ["parent", "prev_sibling", "next_sibling", "first_child", "last_child"]:
        fn(f"{k}_{q}", f"n: &{ty}", f"Option<{ty}>", f"n.{q}()")
    for q in ["root", "first_sibling", "last_sibling"]:
        fn(f"{k}_{q}", f"n: &{ty}", ty, f"n.{q}()")
    fn(f"{k}_first_last_sibling", f"n: &{ty}", f"({ty}, {ty})", "n.first_last_sibling()")
    fn(f"{k}_first_last_child", f"n: &{ty}", f"Option<({ty}, {ty})>", "n.first_last_child()")
    fn(f"{k}_tree", f"n: &{ty}", "Tree<Data>", "n.tree()")
    fn(f"{k}_belongs_to", f"n: &{ty}, t: &Tree<Data>", "bool", "n.belongs_to(t)")
    fn(f"{k}_belongs_to_same_tree", f"n: &{ty}, m: &{ty}", "bool", "n.belongs_to_same_tree(m)")
    fn(f"{k}_belongs_to_same_tree_self", f"n: &{ty}", "bool", "n.belongs_to_same_tree(n)")
    fn(f"{k}_ptr_eq", f"n: &{ty}, m: &{ty}", "bool", "n.ptr_eq(m)")
    fn(f"{k}_clone", f"n: &{ty}", ty, "n.clone()")
    fn(f"{k}_drop", f"n: {ty}", "", "drop(n)")
    fn(f"{k}_try_borrow_data", f"n: &{ty}", "Result<Ref<'_, Data>, BorrowError>", "n.try_borrow_data()")
    fn(f"{k}_borrow_data", f"n: &{ty}", "Ref<'_, Data>", "n.borrow_data()")
    fn(f"{k}_try_borrow_data_mut", f"n: &{ty}", "Result<RefMut<'_, Data>, BorrowMutError>", "n.try_borrow_data_mut()")
    fn(f"{k}_borrow_data_mut", f"n: &{ty}", "RefMut<'_, Data>", "n.borrow_data_mut()")
    # traversals
    loop_n = "let mut it = n.%s(); loop { match it.next() { Some(x) => obs_node(&x), None => break } } obs_end(); match it.next() { Some(x) => obs_node(&x), None => obs_end() }"
    for t in ["children", "children_reverse", "ancestors", "ancestors_or_self", "siblings", "siblings_reverse",
              "preceding_siblings_or_self_reverse", "preceding_siblings_reverse", "following_siblings_or_self", "following_siblings"]:
        fn(f"{k}_{t}", f"n: &{ty}", "", loop_n % t)
        fn(f"{k}_{t}_peek", f"n: &{ty}", "", "let mut it = n.%s(); loop { match it.peek() { Some(x) => obs_back(x), None => obs_peek_none() } let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() { Some(x) => obs_node(&x), None => break } } obs_end();" % t)
    ev = "match e { DftEvent::Open(x) => obs_open(&x), DftEvent::Close(x) => obs_close(&x) }"
    for t in ["depth_first_traverse", "depth_first_reverse_traverse"]:
        fn(f"{k}_{t}", f"n: &{ty}", "", f"let mut it = n.{t}(); loop {{ match it.next() {{ Some(e) => {ev}, None => break }} }} obs_end(); match it.next() {{ Some(e) => {ev}, None => obs_end() }}")
        evb = "match e { DftEvent::Open(x) => obs_back_open(x), DftEvent::Close(x) => obs_back_close(x) }"
        fn(f"{k}_{t}_peek", f"n: &{ty}", "", f"let mut it = n.{t}(); loop {{ match it.peek() {{ Some(e) => {evb}, None => obs_peek_none() }} let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() {{ Some(e) => {ev}, None => break }} }} obs_end();")
    fn(f"{k}_depth_first_traverse_skip", f"n: &{ty}", "", f"let mut it = n.depth_first_traverse(); match it.next() {{ Some(e) => {ev}, None => {{ obs_end(); return }} }} loop {{ if nondet_bool() {{ break }} match it.next() {{ Some(e) => {ev}, None => {{ obs_end(); return }} }} }} obs_skip_begin(); let s = it.close_current(); obs_skip(&s); match it.next() {{ Some(e) => {ev}, None => obs_end() }}")
    fn(f"{k}_try_clone_subtree", f"n: &{ty}", "Result<Node<Data>, BorrowError>", "n.try_clone_subtree()")
    fn(f"{k}_clone_subtree", f"n: &{ty}", "Node<Data>", "n.clone_subtree()")
    fn(f"{k}_to_events", f"n: &{ty}", "", "let mut it = n.to_events(); loop { match it.next() { Some(Ok(Event::Open(d))) => { obs_ev_open(&d); }, Some(Ok(Event::Close(c))) => obs_ev_close(c), Some(Err(_)) => { obs_ev_err(); break }, None => { obs_end(); break } } }")
    fn(f"{k}_debug", f"n: &{ty}, f: &mut fmt::Formatter<'_>", "fmt::Result", "fmt::Debug::fmt(n, f)")
    for d in ["debug_pretty_print", "debug_print_local", "debug_print_subtree"]:
        fn(f"{k}_{d}", f"n: &{ty}, f: &mut fmt::Formatter<'_>", "fmt::Result", f"fmt::Debug::fmt(&n.{d}(), f)")
    fn(f"{k}_display_pretty_print", f"n: &{ty}, f: &mut fmt::Formatter<'_>", "fmt::Result", "fmt::Display::fmt(&n.debug_pretty_print(), f)")
    fn(f"{k}_shows_display_pretty_print", f"n: &{ty}, f: &mut fmt::Formatter<'_>", "fmt::Result", "fmt::Display::fmt(&n.debug_pretty_print(), f)")
    fn(f"{k}_shows_debug_pretty_print", f"n: &{ty}, f: &mut fmt::Formatter<'_>", "fmt::Result", "fmt::Debug::fmt(&n.debug_pretty_print(), f)")
    for k2, K2 in KINDS:
        fn(f"eq_{k}_{k2}", f"n: &{ty}, m: &{K2}<Data>", "bool", "*n == *m")
        if k != k2:
            fn(f"eq_{k}_ref{k2}", f"n: &{ty}, m: &{K2}<Data>", "bool", "*n == m")
            fn(f"eq_ref{k}_{k2}", f"n: &{ty}, m: &{K2}<Data>", "bool", "n == *m")
    # DftEvent steps
    for s in ["next", "prev"]:
        fn(f"{k}_event_{s}", f"e: &DftEvent<{ty}>", f"Option<DftEvent<{ty}>>", f"e.{s}()")
    fn(f"{k}_event_close_current", f"e: &DftEvent<{ty}>", f"Option<{ty}>", "e.close_current()")
out.append("#[inline(never)] pub fn obs_ev_open(_: &Data) {}\n#[inline(never)] pub fn obs_ev_close(_: usize) {}\n#[inline(never)] pub fn obs_ev_err() {}\n")
# ---- conversions
fn("node_downgrade", "n: &Node<Data>", "NodeWeak<Data>", "n.downgrade()")
fn("weak_upgrade", "w: &NodeWeak<Data>", "Option<Node<Data>>", "w.upgrade()")
fn("tree_downgrade", "t: &Tree<Data>", "TreeWeak<Data>", "t.downgrade()")
fn("treeweak_upgrade", "w: &TreeWeak<Data>", "Option<Tree<Data>>", "w.upgrade()")
fn("node_bundle_new_prohibition", "n: Node<Data>", "Result<FrozenNode<Data>, HierarchyEditProhibitionError>", "n.bundle_new_hierarchy_edit_prohibition()")
fn("node_bundle_new_grant", "n: Node<Data>", "Result<HotNode<Data>, HierarchyEditGrantError>", "n.bundle_new_hierarchy_edit_grant()")
fn("node_bundle_prohibition", "n: Node<Data>, p: &HierarchyEditProhibition<Data>", "FrozenNode<Data>", "n.bundle_hierarchy_edit_prohibition(p)")
fn("node_bundle_grant", "n: Node<Data>, g: &HierarchyEditGrant<Data>", "HotNode<Data>", "n.bundle_hierarchy_edit_grant(g)")
fn("frozen_plain", "n: &FrozenNode<Data>", "Node<Data>", "n.plain()")
fn("hot_plain", "n: &HotNode<Data>", "Node<Data>", "n.plain()")
fn("frozen_into", "n: FrozenNode<Data>", "Node<Data>", "Node::from(n)")
fn("hot_into", "n: HotNode<Data>", "Node<Data>", "Node::from(n)")
fn("frozen_extract", "n: &FrozenNode<Data>", "HierarchyEditProhibition<Data>", "n.extract_hierarchy_edit_prohibition()")
fn("hot_extract", "n: &HotNode<Data>", "HierarchyEditGrant<Data>", "n.extract_hierarchy_edit_grant()")
fn("hot_ptr_eq_plain", "n: &HotNode<Data>, m: &Node<Data>", "bool", "n.ptr_eq_plain(m)")
# ---- tree
fn("tree_root", "t: &Tree<Data>", "Node<Data>", "t.root()")
fn("tree_clone", "t: &Tree<Data>", "Tree<Data>", "t.clone()")
fn("tree_drop", "t: Tree<Data>", "", "drop(t)")
fn("tree_ptr_eq", "t: &Tree<Data>, u: &Tree<Data>", "bool", "t.ptr_eq(u)")
fn("tree_prohibit", "t: &Tree<Data>", "Result<HierarchyEditProhibition<Data>, HierarchyEditProhibitionError>", "t.prohibit_hierarchy_edit()")
fn("tree_grant", "t: &Tree<Data>", "Result<HierarchyEditGrant<Data>, HierarchyEditGrantError>", "t.grant_hierarchy_edit()")
fn("tree_try_eq", "t: &Tree<Data>, u: &Tree<Data>", "Result<bool, BorrowError>", "t.try_eq(u)")
fn("tree_eq", "t: &Tree<Data>, u: &Tree<Data>", "bool", "*t == *u")
fn("tree_try_clone", "t: &Tree<Data>", "Result<Tree<Data>, BorrowError>", "t.try_clone_tree()")
fn("tree_clone_tree", "t: &Tree<Data>", "Tree<Data>", "t.clone_tree()")
fn("tree_debug", "t: &Tree<Data>, f: &mut fmt::Formatter<'_>", "fmt::Result", "fmt::Debug::fmt(t, f)")
for d in ["debug_pretty_print", "debug_print_local", "debug_print"]:
    fn(f"tree_{d}", "t: &Tree<Data>, f: &mut fmt::Formatter<'_>", "fmt::Result", f"fmt::Debug::fmt(&t.{d}(), f)")
fn("tree_display_pretty_print", "t: &Tree<Data>, f: &mut fmt::Formatter<'_>", "fmt::Result", "fmt::Display::fmt(&t.debug_pretty_print(), f)")
fn("tree_shows_display_pretty_print", "t: &Tree<Data>, f: &mut fmt::Formatter<'_>", "fmt::Result", "fmt::Display::fmt(&t.debug_pretty_print(), f)")
fn("tree_shows_debug_pretty_print", "t: &Tree<Data>, f: &mut fmt::Formatter<'_>", "fmt::Result", "fmt::Debug::fmt(&t.debug_pretty_print(), f)")
fn("node_try_eq", "n: &Node<Data>, m: &Node<Data>", "Result<bool, BorrowError>", "n.try_eq(m)")
# ---- locks
for k, K, E in [("grant", "HierarchyEditGrant", "HierarchyEditGrantError"), ("prohibition", "HierarchyEditProhibition", "HierarchyEditProhibitionError")]:
    fn(f"{k}_try_clone", f"g: &{K}<Data>", f"Result<{K}<Data>, {E}>", "g.try_clone()")
    fn(f"{k}_drop", f"g: {K}<Data>", "", "drop(g)")
    fn(f"{k}_is_valid", f"g: &{K}<Data>, n: &Node<Data>", "bool", "g.is_valid_for_node(n)")
fn("grant_clone", "g: &HierarchyEditGrant<Data>", "HierarchyEditGrant<Data>", "g.clone()")
# ---- edits
fn("node_new_tree", "", "Node<Data>", "Node::new_tree(nondet_data())")
fn("hot_new_tree", "", "HotNode<Data>", "HotNode::new_tree(nondet_data())")
for k, K, g, gp in [("node", "Node", "g, ", ", g: &HierarchyEditGrant<Data>"), ("hot", "HotNode", "", "")]:
    ty = K + "<Data>"
    g1 = g.rstrip(", ")
    fn(f"{k}_detach_subtree", f"n: &{ty}{gp}", "", f"n.detach_subtree({g1})")
    fn(f"{k}_try_create_node_as", f"n: &{ty}{gp}, dest: AdoptAs", f"Result<{ty}, HierarchyError>", f"n.try_create_node_as({g}nondet_data(), dest)")
    fn(f"{k}_create_node_as", f"n: &{ty}{gp}, dest: AdoptAs", ty, f"n.create_node_as({g}nondet_data(), dest)")
    for c in ["first_child", "last_child", "prev_sibling", "next_sibling", "interrupting_parent", "interrupting_child"]:
        fn(f"{k}_create_as_{c}", f"n: &{ty}{gp}", ty, f"n.create_as_{c}({g}nondet_data())")
    for c in ["prev_sibling", "next_sibling"]:
        fn(f"{k}_try_create_as_{c}", f"n: &{ty}{gp}", f"Result<{ty}, HierarchyError>", f"n.try_create_as_{c}({g}nondet_data())")
    fn(f"{k}_try_replace_with_children", f"n: &{ty}{gp}", "Result<(), HierarchyError>", f"n.try_replace_with_children({g1})")
    fn(f"{k}_replace_with_children", f"n: &{ty}{gp}", "", f"n.replace_with_children({g1})")
    fn(f"{k}_try_detach_insert_subtree", f"n: &{ty}{gp}, dest: InsertAs<&HotNode<Data>>", "Result<(), HierarchyError>", f"n.try_detach_insert_subtree({g}dest)")
    fn(f"{k}_detach_insert_subtree", f"n: &{ty}{gp}, dest: InsertAs<&HotNode<Data>>", "", f"n.detach_insert_subtree({g}dest)")
for k, K in KINDS:
    fn(f"{k}_try_clone_insert_subtree", f"n: &{K}<Data>, dest: InsertAs<&HotNode<Data>>", "Result<HotNode<Data>, HierarchyError>", "n.try_clone_insert_subtree(dest)")
for k, K in [("node", "Node"), ("hot", "HotNode")]:
    fn(f"{k}_clone_insert_subtree", f"n: &{K}<Data>, dest: InsertAs<&HotNode<Data>>", "HotNode<Data>", "n.clone_insert_subtree(dest)")
fn("aux_replay", "", "Option<Event<Data>>", "replay_next()")
# ---- positions
fn("insertas_map", "d: InsertAs<&HotNode<Data>>", "InsertAs<Node<Data>>", "d.map(|h| h.plain())")
fn("insertas_as_ref", "d: &InsertAs<HotNode<Data>>", "InsertAs<&HotNode<Data>>", "d.as_ref()")
fn("event_from_map_open", "d: Data", "Event<Data>", "Event::Open(d).map(|d| d)")
fn("event_from_map_close", "n: usize", "Event<Data>", "Event::Close(n).map(|d: Data| d)")
fn("dftevent_map", "d: DftEvent<Node<Data>>", "DftEvent<NodeWeak<Data>>", "d.map(|h| h.downgrade())")
for a, r in [("into_value", "Node<Data>"), ("into_open", "Option<Node<Data>>"), ("into_close", "Option<Node<Data>>")]:
    fn(f"dftevent_{a}", "d: DftEvent<Node<Data>>", r, f"d.{a}()")
fn("dftevent_as_value", "d: &DftEvent<Node<Data>>", "&Node<Data>", "d.as_value()")
fn("dftevent_as_value_mut", "d: &mut DftEvent<Node<Data>>", "&mut Node<Data>", "d.as_value_mut()")
# ---- stable traversals
for t in ["children_stable", "siblings_stable", "preceding_siblings_or_self_stable", "preceding_siblings_stable", "following_siblings_or_self_stable", "following_siblings_stable"]:
    body = f"let mut it = n.{t}(); loop {{ if nondet_bool() {{ match it.next() {{ Some(x) => obs_node(&x.plain()), None => break }} }} else {{ match it.next_back() {{ Some(x) => obs_back(&x.plain()), None => break }} }} }} obs_end(); match it.next() {{ Some(x) => obs_node(&x.plain()), None => obs_end() }} match it.next_back() {{ Some(x) => obs_back(&x.plain()), None => obs_back_end() }}"
    fn(f"frozen_{t}", "n: &FrozenNode<Data>", "", body)
    fn(f"frozen_{t}_fwd", "n: &FrozenNode<Data>", "", f"let mut it = n.{t}(); loop {{ match it.next() {{ Some(x) => obs_node(&x.plain()), None => break }} }} obs_end();")
    fn(f"frozen_{t}_peek", "n: &FrozenNode<Data>", "", f"let mut it = n.{t}(); loop {{ match it.peek() {{ Some(x) => obs_back(&x.plain()), None => obs_peek_none() }} let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() {{ Some(x) => obs_node(&x.plain()), None => break }} }} obs_end();")
    fn(f"frozen_{t}_mix", "n: &FrozenNode<Data>", "", f"let mut it = n.{t}(); loop {{ obs_peeking(); match it.peek() {{ Some(x) => obs_node(&x.plain()), None => obs_peek_none() }} obs_peeking_back(); match it.peek_back() {{ Some(x) => obs_back(&x.plain()), None => obs_peek_none() }} let (lo, hi) = it.size_hint(); obs_hint(lo, hi); if nondet_bool() {{ match it.next() {{ Some(x) => obs_node(&x.plain()), None => break }} }} else {{ match it.next_back() {{ Some(x) => obs_back(&x.plain()), None => break }} }} }} obs_end();")
    fn(f"frozen_{t}_peek_back", "n: &FrozenNode<Data>", "", f"let mut it = n.{t}(); loop {{ match it.peek_back() {{ Some(x) => obs_node(&x.plain()), None => obs_peek_none() }} match it.next_back() {{ Some(x) => obs_back(&x.plain()), None => break }} }} obs_back_end();")
evs = "match e { DftEvent::Open(x) => obs_open(&x.plain()), DftEvent::Close(x) => obs_close(&x.plain()) }"
evbs = "match e { DftEvent::Open(x) => obs_back_open(&x.plain()), DftEvent::Close(x) => obs_back_close(&x.plain()) }"
t = "depth_first_traverse_stable"
fn(f"frozen_{t}", "n: &FrozenNode<Data>", "", f"let mut it = n.{t}(); loop {{ if nondet_bool() {{ match it.next() {{ Some(e) => {evs}, None => break }} }} else {{ match it.next_back() {{ Some(e) => {evbs}, None => break }} }} }} obs_end(); match it.next() {{ Some(e) => {evs}, None => obs_end() }} match it.next_back() {{ Some(e) => {evbs}, None => obs_back_end() }}")
fn(f"frozen_{t}_fwd", "n: &FrozenNode<Data>", "", f"let mut it = n.{t}(); loop {{ match it.next() {{ Some(e) => {evs}, None => break }} }} obs_end();")
fn(f"frozen_{t}_back", "n: &FrozenNode<Data>", "", f"let mut it = n.{t}(); loop {{ match it.next_back() {{ Some(e) => {evbs}, None => break }} }} obs_back_end();")
fn(f"frozen_{t}_peek", "n: &FrozenNode<Data>", "", f"let mut it = n.{t}(); loop {{ match it.peek() {{ Some(e) => {evbs}, None => obs_peek_none() }} let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() {{ Some(e) => {evs}, None => break }} }} obs_end();")
fn(f"frozen_{t}_mix", "n: &FrozenNode<Data>", "", f"let mut it = n.{t}(); loop {{ obs_peeking(); match it.peek() {{ Some(e) => {evs}, None => obs_peek_none() }} obs_peeking_back(); match it.peek_back() {{ Some(e) => {evbs}, None => obs_peek_none() }} if nondet_bool() {{ match it.next() {{ Some(e) => {evs}, None => break }} }} else {{ match it.next_back() {{ Some(e) => {evbs}, None => break }} }} }} obs_end();")
fn(f"frozen_{t}_hint", "n: &FrozenNode<Data>", "", f"let mut it = n.{t}(); loop {{ if nondet_bool() {{ break }} if nondet_bool() {{ match it.next() {{ Some(e) => {evs}, None => break }} }} else {{ match it.next_back() {{ Some(e) => {evbs}, None => break }} }} }} let (lo, hi) = it.size_hint(); obs_hint(lo, hi);")
fn(f"frozen_{t}_peek_back", "n: &FrozenNode<Data>", "", f"let mut it = n.{t}(); loop {{ match it.peek_back() {{ Some(e) => {evs}, None => obs_peek_none() }} match it.next_back() {{ Some(e) => {evbs}, None => break }} }} obs_back_end();")
fn(f"frozen_{t}_skip", "n: &FrozenNode<Data>", "", f"let mut it = n.{t}(); match it.next() {{ Some(e) => {evs}, None => {{ obs_end(); return }} }} loop {{ if nondet_bool() {{ break }} match it.next() {{ Some(e) => {evs}, None => {{ obs_end(); return }} }} }} obs_skip_begin(); let s = it.close_current(); obs_skip(&s.map(|x| x.plain())); match it.next() {{ Some(e) => {evs}, None => obs_end() }}")
evd = "match e { DftEvent::Open((x, d)) => { obs_depth(d); obs_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(d); obs_close(&x.plain()) } }"
evbd = "match e { DftEvent::Open((x, d)) => { obs_depth(d); obs_back_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(d); obs_back_close(&x.plain()) } }"
t = "shallow_depth_first_traverse_stable"
fn(f"frozen_{t}_fwd", "n: &FrozenNode<Data>, m: Option<usize>", "", f"let mut it = n.{t}(m); loop {{ match it.next() {{ Some(e) => {evd}, None => break }} }} obs_end();")
fn(f"frozen_{t}_back", "n: &FrozenNode<Data>, m: Option<usize>", "", f"let mut it = n.{t}(m); loop {{ match it.next_back() {{ Some(e) => {evbd}, None => break }} }} obs_back_end();")
fn(f"frozen_{t}", "n: &FrozenNode<Data>, m: Option<usize>", "", f"let mut it = n.{t}(m); loop {{ if nondet_bool() {{ match it.next() {{ Some(e) => {evd}, None => break }} }} else {{ match it.next_back() {{ Some(e) => {evbd}, None => break }} }} }} obs_end();")
pkd = "match e { DftEvent::Open((x, d)) => { obs_depth(*d); obs_back_open(&x.plain()) }, DftEvent::Close((x, d)) => { obs_depth(*d); obs_back_close(&x.plain()) } }"
pkb = pkd.replace("obs_back_", "obs_")
fn(f"frozen_{t}_peek", "n: &FrozenNode<Data>, m: Option<usize>", "", f"let mut it = n.{t}(m); loop {{ match it.peek() {{ Some(e) => {pkd}, None => obs_peek_none() }} let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() {{ Some(e) => {evd}, None => break }} }} obs_end();")
fn(f"frozen_{t}_peek_back", "n: &FrozenNode<Data>, m: Option<usize>", "", f"let mut it = n.{t}(m); loop {{ match it.peek_back() {{ Some(e) => {pkb}, None => obs_peek_none() }} match it.next_back() {{ Some(e) => {evbd}, None => break }} }} obs_back_end();")
fn(f"frozen_{t}_mix", "n: &FrozenNode<Data>, m: Option<usize>", "", f"let mut it = n.{t}(m); loop {{ obs_peeking(); match it.peek() {{ Some(e) => {pkb}, None => obs_peek_none() }} obs_peeking_back(); match it.peek_back() {{ Some(e) => {pkd}, None => obs_peek_none() }} if nondet_bool() {{ match it.next() {{ Some(e) => {evd}, None => break }} }} else {{ match it.next_back() {{ Some(e) => {evbd}, None => break }} }} }} obs_end();")
fn(f"frozen_{t}_hint", "n: &FrozenNode<Data>, m: Option<usize>", "", f"let mut it = n.{t}(m); loop {{ let (lo, hi) = it.size_hint(); obs_hint(lo, hi); if nondet_bool() {{ match it.next() {{ Some(e) => {evd}, None => break }} }} else {{ match it.next_back() {{ Some(e) => {evbd}, None => break }} }} }} obs_end();")
fn(f"frozen_{t}_skip", "n: &FrozenNode<Data>, m: Option<usize>", "", f"let mut it = n.{t}(m); match it.next() {{ Some(e) => {evd}, None => {{ obs_end(); return }} }} loop {{ if nondet_bool() {{ break }} match it.next() {{ Some(e) => {evd}, None => {{ obs_end(); return }} }} }} obs_skip_begin(); let s = it.close_current(); if let Some((_, d)) = &s {{ obs_depth(*d); }} obs_skip(&s.map(|x| x.0.plain())); match it.next() {{ Some(e) => {evd}, None => obs_end() }}")
fn(f"frozen_{t}_limit", "n: &FrozenNode<Data>, m: usize", "usize", f"n.{t}(Some(m)).max_depth()")
t = "non_allocating_breadth_first_traverse_stable"
bfs = "Some((x, d)) => { obs_depth(d); obs_node(&x.plain()) }"
fn(f"frozen_{t}", "n: &FrozenNode<Data>, s: usize", "", f"let mut it = n.{t}(s); loop {{ match it.next() {{ {bfs}, None => break }} }} obs_end(); match it.next() {{ {bfs}, None => obs_end() }} let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() {{ {bfs}, None => obs_end() }}")
fn(f"frozen_{t}_hint", "n: &FrozenNode<Data>, s: usize", "", f"let mut it = n.{t}(s); loop {{ let (lo, hi) = it.size_hint(); obs_hint(lo, hi); match it.next() {{ {bfs}, None => break }} }} obs_end();")
fn(f"frozen_{t}_max", "n: &FrozenNode<Data>", "", f"let mut it = n.{t}(usize::MAX); loop {{ match it.next() {{ {bfs}, None => break }} }} obs_end();")
t = "allocating_breadth_first_traverse_stable"
fn(f"frozen_{t}", "n: &FrozenNode<Data>, s: usize", "AllocatingBreadthFirstTraverser<Data>", f"n.{t}(s)")
fn(f"frozen_{t}_max", "n: &FrozenNode<Data>", "AllocatingBreadthFirstTraverser<Data>", f"n.{t}(usize::MAX)")
Q = "q: &mut AllocatingBreadthFirstTraverser<Data>"
fn("bfs_next", Q, "Option<(FrozenNode<Data>, usize)>", "q.next()")
fn("bfs_peek", Q, "Option<(FrozenNode<Data>, usize)>", "q.peek()")
fn("bfs_hint", Q, "(usize, Option<usize>)", "q.size_hint()")
fn("bfs_shrink", Q + ", n: usize", "", "q.capacity(); q.shrink_to(n); q.shrink_to_fit()")
fn("bfs_drop", "q: AllocatingBreadthFirstTraverser<Data>", "", "drop(q)")
# ---- clones of traversals
for t, K, e, arg in [("children", "Node", "node", 0), ("children_reverse", "Node", "node", 0), ("ancestors", "Node", "node", 0), ("depth_first_traverse", "Node", "ev", 0), ("depth_first_reverse_traverse", "Node", "ev", 0),
                     ("siblings_stable", "FrozenNode", "nodes", 1), ("depth_first_traverse_stable", "FrozenNode", "evs", 1), ("shallow_depth_first_traverse_stable", "FrozenNode", "evd", 1),
                     ("non_allocating_breadth_first_traverse_stable", "FrozenNode", "bfs", 0)]:
    both = arg
    arm = {"node": "Some(x) => obs_node(&x)", "nodes": "Some(x) => obs_node(&x.plain())", "ev": "Some(e) => " + ev, "evs": "Some(e) => " + evs, "evd": "Some(e) => " + evd, "bfs": bfs}[e]
    armb = {"nodes": "Some(x) => obs_back(&x.plain())", "evs": "Some(e) => " + evbs, "evd": "Some(e) => " + evbd}.get(e)
    a, v = (", m: Option<usize>", "m") if e == "evd" else (", s: usize", "s") if e == "bfs" else ("", "")
    step = f"match it.next() {{ {arm}, None => break }}"
    if both: step = f"if nondet_bool() {{ {step} }} else {{ match it.next_back() {{ {armb}, None => break }} }}"
    # The original goes on while the clone is advanced, or the clone goes on while the original is advanced.
    two = "it.next(); it.next_back();" if both else "it.next();"
    fork = f"if nondet_bool() {{ let mut c = it.clone(); c.next(); }} else {{ let c = it.clone(); {two} it = c; }}"
    if e in ("evs", "evd", "bfs"): fork = "it = it.clone();"
    fn(f"{'node' if K == 'Node' else 'frozen'}_{t}_cloned", f"n: &{K}<Data>{a}", "",
       f"let mut it = n.{t}({v}); loop {{ if nondet_bool() {{ {fork} }} {step} }} obs_end();")
fn("bfs_clone", "q: &AllocatingBreadthFirstTraverser<Data>", "AllocatingBreadthFirstTraverser<Data>", "q.clone()")
# ---- traversals from an event on
fn("walk_from", "n: &Node<Data>, e: &DftEvent<Node<Data>>", "", f"let mut it = DepthFirstTraverser::with_next_event(n.clone(), Some(e.clone())); loop {{ match it.next() {{ Some(e) => {ev}, None => break }} }} obs_end();")
fn("walk_from_reverse", "n: &Node<Data>, e: &DftEvent<Node<Data>>", "", f"let mut it = ReverseDepthFirstTraverser::with_next_event(n.clone(), Some(e.clone())); loop {{ match it.next() {{ Some(e) => {ev}, None => break }} }} obs_end();")
fn("walk_between", "a: &DftEvent<FrozenNode<Data>>, b: &DftEvent<FrozenNode<Data>>", "", f"let mut it = StableDepthFirstTraverser::with_first_last_event(a.clone(), b.clone()); loop {{ if nondet_bool() {{ match it.next() {{ Some(e) => {evs}, None => break }} }} else {{ match it.next_back() {{ Some(e) => {evbs}, None => break }} }} }} obs_end();")
fn("walk_between_fwd", "a: &DftEvent<FrozenNode<Data>>, b: &DftEvent<FrozenNode<Data>>", "", f"let mut it = StableDepthFirstTraverser::with_first_last_event(a.clone(), b.clone()); loop {{ match it.next() {{ Some(e) => {evs}, None => break }} }} obs_end();")
fn("walk_between_back", "a: &DftEvent<FrozenNode<Data>>, b: &DftEvent<FrozenNode<Data>>", "", f"let mut it = StableDepthFirstTraverser::with_first_last_event(a.clone(), b.clone()); loop {{ match it.next_back() {{ Some(e) => {evbs}, None => break }} }} obs_back_end();")
fn("weak_clone", "w: &NodeWeak<Data>", "NodeWeak<Data>", "w.clone()")
fn("treeweak_clone", "w: &TreeWeak<Data>", "TreeWeak<Data>", "w.clone()")
# ---- printing of the other types
FM = ", f: &mut fmt::Formatter<'_>"
fn("print_weak", "w: &NodeWeak<Data>" + FM, "fmt::Result", "fmt::Debug::fmt(w, f)")
fn("print_treeweak", "w: &TreeWeak<Data>" + FM, "fmt::Result", "fmt::Debug::fmt(w, f)")
fn("print_insertas", "d: &InsertAs<HotNode<Data>>" + FM, "fmt::Result", "fmt::Debug::fmt(d, f)")
for k, K in KINDS: fn(f"print_dftevent_{k}", f"e: &DftEvent<{K}<Data>>" + FM, "fmt::Result", "fmt::Debug::fmt(e, f)")
for t in ["depth_first_traverse", "depth_first_reverse_traverse", "children", "children_reverse", "ancestors", "ancestors_or_self", "siblings", "preceding_siblings_or_self_reverse", "to_events"]:
    fn(f"print_{t}", "n: &Node<Data>" + FM, "fmt::Result", f"let mut it = n.{t}(); if nondet_bool() {{ it.next(); }} fmt::Debug::fmt(&it, f)")
for t, a in [("depth_first_traverse_stable", ""), ("shallow_depth_first_traverse_stable", "None"), ("children_stable", ""), ("non_allocating_breadth_first_traverse_stable", "0")]:
    fn(f"print_{t}", "n: &FrozenNode<Data>" + FM, "fmt::Result", f"let it = n.{t}({a}); fmt::Debug::fmt(&it, f)")

# ---- builder
B, R = "b: &mut TreeBuilder<Data>", "Result<(), TreeBuildError>"
fn("b_new", "", "TreeBuilder<Data>", "TreeBuilder::new()")
fn("b_default", "", "TreeBuilder<Data>", "TreeBuilder::default()")
fn("b_with_root", "h: HotNode<Data>", "TreeBuilder<Data>", "TreeBuilder::with_root(h)")
fn("b_open", B, R, "b.open(nondet_data())")
fn("b_close", B + ", n: usize", R, "b.close(n)")
fn("b_push_open", B, R, "b.push_event(Event::Open(nondet_data()))")
fn("b_push_close", B + ", n: usize", R, "b.push_event(Event::Close(n))")
fn("b_pushes_open", B, R, "b.push_events(core::iter::once(Event::Open(nondet_data())))")
fn("b_pushes_close", B + ", n: usize", R, "b.push_events(core::iter::once(Event::Close(n)))")
fn("b_pushes_close_open", B + ", n: usize", R, "b.push_events(core::iter::once(Event::Close(n)).chain(core::iter::once(Event::Open(nondet_data()))))")
fn("b_pushes_nothing", B, R, "b.push_events(core::iter::empty())")
fn("b_push_dft", B + ", e: DftEvent<Node<Data>>", R, "b.push_dft_event(e)")
fn("b_pushes_dft", B + ", e: DftEvent<Node<Data>>", R, "b.push_dft_events(core::iter::once(e))")
fn("b_is_root_closed", "b: &TreeBuilder<Data>", "bool", "b.is_root_closed()")
fn("b_is_root_available", "b: &TreeBuilder<Data>", "bool", "b.is_root_available()")
fn("b_finish", "b: TreeBuilder<Data>", "Result<Node<Data>, TreeBuildError>", "b.finish()")
fn("b_finish_opt", "b: TreeBuilder<Data>", "Option<Node<Data>>", "b.finish_opt()")
for k, K in KINDS + [("tree", "Tree")]:
    fn(f"b_collect_{k}", "", f"Result<{K}<Data>, TreeBuildError>", "core::iter::once(Event::Open(nondet_data())).collect()")
    fn(f"b_collect_none_{k}", "", f"Result<{K}<Data>, TreeBuildError>", "core::iter::empty::<Event<Data>>().collect()")
    fn(f"b_collect_bad_{k}", "n: usize", f"Result<{K}<Data>, TreeBuildError>", "core::iter::once(Event::<Data>::Close(n)).collect()")
fn("b_collect_dft", "e: DftEvent<Node<Data>>", "Result<Node<Data>, TreeBuildError>", "core::iter::once(e).collect()")
for k, K in KINDS:
    fn(f"event_from_{k}", f"e: DftEvent<{K}<Data>>", "Result<Event<Data>, BorrowError>", "Event::try_from(e)")
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "lib.rs")
open(p, "w").write("\n".join(out))
print(sum(1 for o in out if o.startswith("pub fn h_") and not o.startswith("pub fn h_aux_")), "entries")
