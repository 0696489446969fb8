#!/usr/bin/env python3
"""writes props.json (what each check decides and how) and MANIFEST.json"""
import json
import subprocess

V = "contracts on the real functions, every obligation discharged by Verus/Z3 on each run (unbounded); bounded runs of the real crate supply the failing input"
BOUND = "bounded check of the stated contract on the real crate (no function of the property within the verifier's reach yet)"
R = ["replay"]


def x(cls, names):
    return ["%s::%s" % (cls, n) for n in names.split()]


def xx(classes, names):
    return [f for c in classes.split() for f in x(c, names)]


SEARCH = ["utils::binary_search_min"] + xx("Leaf Internal Node", "offset_of") + ["Storage::address_in", "RawBTree::address_of"]
GET = xx("Leaf Internal Node", "get item") + ["RawBTree::get_at"]
GETMUT = xx("Leaf Internal Node", "get_mut item_mut") + ["RawBTree::get_mut_at"]
SPLIT = (x("Leaf", "split append from_item is_overflowing is_underflowing balance item_count set_parent parent")
         + x("Internal", "split merge append binary is_overflowing is_underflowing balance item_count child_index child_count child_id child_id_opt set_parent parent")
         + x("Node", "split merge append binary leaf is_overflowing is_underflowing balance item_count child_index child_count child_id child_id_opt set_parent parent"))
ROT = x("Leaf", "push_left push_right pop_left pop_right") + x("Internal", "push_left push_right pop_left pop_right") + x("Node", "push_left push_right pop_left pop_right")
BAL = x("balancing", "rebalance try_rotate_left try_rotate_right merge") + SPLIT + ROT + ["Children::next"] + xx("Internal Node", "children")
INS = xx("Leaf Internal Node", "insert") + x("Storage", "insert_node insert_exactly_at") + BAL
REM = ["Leaf::remove", "Leaf::remove_last", "Internal::remove", "Node::leaf_remove", "Node::remove_rightmost_leaf"] + x("Storage", "remove_at remove_rightmost_leaf_of normalize") + BAL
REPL = ["Internal::replace", "Node::replace", "Leaf::item_mut", "Internal::item_mut", "Node::item_mut", "Storage::replace_at"]
NODEOPS = x("Leaf", "split append push_left push_right pop_left pop_right insert insert_by_key remove remove_last from_item balance") \
    + x("Internal", "binary split merge append push_left push_right pop_left pop_right insert insert_by_key replace remove balance") \
    + x("Node", "binary leaf split merge append push_left push_right pop_left pop_right leaf_remove remove_rightmost_leaf insert insert_by_key replace balance")
OFFSETS = x("Offset", "before is_before value unwrap incr decr PartialOrd::partial_cmp cmp PartialEq<usize>::eq PartialOrd<usize>::partial_cmp From<usize>::from")
CHILDREN = xx("Internal Node", "children children_with_separators child_index child_id child_id_opt separators child_count") + ["Internal::first_child_id", "Children::next", "ChildrenWithSeparators::next"]

ARRAY = x("Array", "default new into_raw_parts len is_empty as_slice as_slice_mut push pop insert append remove drain clear drop clone deref deref_mut extend from_iter into_iter push#refuse insert#refuse append#refuse extend#refuse from_iter#refuse") \
    + ["iter_of_array", "array::drain_then_drop"] + x("Drain", "shift size_hint next next_back drop") + x("ArrayIntoIter", "size_hint next next_back drop")

VISIT = x("RawBTree", "visit_from_leaves visit_from_leaves_mut") + x("Node", "visit_from_leaves visit_from_leaves_with visit_from_leaves_mut visit_from_leaves_mut_with")
BOX = x("BoxStorage", "allocate_node release_node start_dropping get get_mut") + ["BoxDrop::drop_node", "BoxPtr::eq", "BoxPtr::Clone::clone"]
END = x("RawBTree", "clear clear::clear_closure forget forget::forget_closure drop") + x("IntoIter", "new next next_back drop") + ["RawBTree::into_iter"] + xx("Leaf Internal Node", "forget")

P = {}


def prop(pid, note, direct, tools=R, bounded=(), level="proof", technique=V, env=None):
    d = []
    for f in direct:
        if f not in d:
            d.append(f)
    P[pid] = dict(level=level, technique=technique, note=note, direct=d, tools=list(tools), bounded=list(bounded))
    if env:
        P[pid]["env"] = env


TREE = " Proved for every tree that satisfies the invariant, of any size and height, over any storage that meets the contract stated on the Storage trait. BoxStorage is proved to meet it (C12), over assumed contracts of Box::into_raw, Box::from_raw and of dereferencing a pointer so obtained."
prop("C01", "RawBTree::insert and all it calls, against a sequence." + TREE,
     ["RawBTree::insert"] + SEARCH + INS + REPL)
prop("C02", "address_of, get and get_mut, for any comparison; under an ordering one the key is found exactly when it is stored." + TREE,
     x("RawBTree", "get get_mut") + SEARCH + GET + GETMUT)
prop("C03", "RawBTree::remove and all it calls, against a sequence." + TREE,
     ["RawBTree::remove"] + SEARCH + REM + ["Node::replace", "Internal::replace"])
prop("C04", "The invariant (one depth, fill bounds, parents, exactly the tree's nodes in the storage) is a postcondition of every insertion and removal; from the fill bounds a lemma proves that a tree of height h + 1 holds at least 2 * 4^h - 1 items, so the height is logarithmic." + TREE,
     x("RawBTree", "insert remove insert_at insert_exactly_at replace_at remove_at new") + INS + REM + ["Storage::insert_at"])
prop("C05", "len, is_empty and the four accessors, against a sequence; that the recorded length is the length of that sequence is an invariant of the tree, re-established by every operation that changes it." + TREE,
     x("RawBTree", "len is_empty first last first_mut last_mut first_item_address last_item_address get_at get_mut_at new Default::default insert remove insert_at insert_exactly_at remove_at clear forget clone") + GET + GETMUT)
WALK = xx("Storage RawBTree", "next_item_address next_back_address previous_front_address previous_item_address")
prop("C06", "Every step of the iterator, of both ends, against the ordered sequence; remaining length; cloning the iterator." + TREE,
     x("Iter", "new size_hint next next_back Clone::clone") + ["RawBTree::iter", "iter_of_ref"] + WALK + ["RawBTree::first_item_address"] + GET)
prop("C07", "Every step of both iterators, of both ends, against the ordered sequence; remaining length. Assumed besides: the effect of extending a reference's lifetime and of reading an item out bitwise. A consuming iterator that is dropped takes what is left first." + TREE,
     x("IterMut", "new size_hint next next_back") + x("IntoIter", "new size_hint next next_back") + ["RawBTree::iter_mut", "iter_of_mut", "RawBTree::into_iter", "IntoIter::drop"] + WALK + ["RawBTree::first_item_address"] + GET + GETMUT)
prop("C08", "Every step equals the adjacent position of the ordered sequence." + TREE,
     xx("Storage RawBTree", "next_item_address previous_item_address normalize") + GET + GETMUT
     + xx("Internal Node", "child_index child_id_opt") + x("Node", "item_count parent"))
prop("C09", "Every step, normalization and leaf conversion against positions of the ordered sequence." + TREE,
     xx("Storage RawBTree", "next_back_address previous_front_address next_item_or_back_address normalize leaf_address")
     + xx("Internal Node", "child_index child_id_opt") + x("Node", "item_count parent"))
prop("C10", "Both insertions, with the returned address." + TREE,
     xx("Storage RawBTree", "insert_at insert_exactly_at") + ["Storage::leaf_address"] + INS)
prop("C11", "remove_at with its returned address, replace_at." + TREE,
     xx("Storage RawBTree", "remove_at replace_at") + REM + REPL)
prop("C12", "Proved for every operation on a tree: reads, writes and releases only of active identifiers (preconditions of the storage contract), and the active identifiers are exactly the nodes of the tree after it; clearing, forgetting, dropping and consuming give every node to the dropper once, children first, none is touched after that, and the tree is empty then. BoxStorage is proved to meet the storage contract: every identifier stands for a box of its own, which exists exactly while the identifier is active. Assumed: Box::into_raw, Box::from_raw, dereferencing a pointer so obtained.",
     x("RawBTree", "insert remove insert_at insert_exactly_at replace_at remove_at get_at get_mut_at address_of node node_mut")
     + x("Storage", "next_item_address previous_item_address next_back_address previous_front_address next_item_or_back_address normalize leaf_address address_in replace_at insert_at") + INS + REM + END + VISIT + BOX)
prop("C13", "Values move or are destroyed once by the rules of the language except where the code steps outside of them, and those places are under contract: the cells of the node buffer (no cell read out twice, overwritten while full, or left full behind), the release of nodes (every node given to the dropper exactly once, and only nodes emptied without running destructors when forgetting), the items read out bitwise by the consuming iterator (each position once; dropping it takes what is left, then forgets the rest of the tree, items included, which were all handed out). Replacement and removal hand the old item out: the sequence before is the sequence after plus that item. Assumed: mem::forget and MaybeUninit as documented." + TREE,
     END + VISIT + x("RawBTree", "insert remove insert_at insert_exactly_at replace_at remove_at") + x("Storage", "insert_at insert_exactly_at remove_at replace_at") + ARRAY + BOX)
prop("C14", "clone: every node of the copy is a new node of the copy's own storage, of the same kind, with clones of the same items in order, its children the copies of the children, under the right parent; so the copy satisfies the invariant, and its item sequence is the original's, cloned item by item. The original is only read." + TREE,
     ["RawBTree::clone", "RawBTree::clone::clone_node", "Storage::insert_node", "Array::clone", "Internal::branches", "Internal::first_child_id"] + x("Leaf", "new items") + ["Internal::new", "Array::new", "Array::push"] + xx("Internal Node", "children set_parent") + ["Children::next", "Array::from_iter", "Leaf::set_parent"])
prop("C15", "All node operations are proved against sequence contracts for every node content; including those of the node buffer (C17).", NODEOPS)
prop("C16", "Proved for every ordered sequence, comparison and length.",
     ["utils::binary_search_min"] + xx("Leaf Internal Node", "get get_mut offset_of insert_by_key"), tools=["replay", "replay-array"])
prop("C17", "Every buffer operation against a sequence, over cells that hold a value or nothing: reading an empty cell, overwriting a full one or keeping one that was read out is a failed obligation. The operations that add are proved a second time with a panic as an allowed way out: they return only if the capacity sufficed. Assumed: the contracts of MaybeUninit and of the cast of initialised cells to a slice; std's default double-ended methods.",
     ARRAY, tools=["replay-array"])
prop("C18", "Proved for every pair of offsets; derived PartialEq is modelled as derived and checked bounded.", OFFSETS)
prop("C19", "The record of the calls is the children-first listing of the tree, shown to hold each node exactly once and every child before its parent; the mutable visit hands out the node bound to the identifier, and leaves each node as the callback left it." + TREE,
     x("Node", "visit_from_leaves visit_from_leaves_with visit_from_leaves_mut visit_from_leaves_mut_with") + x("RawBTree", "visit_from_leaves visit_from_leaves_mut") + ["Children::next"] + xx("Internal Node", "children"))
prop("C20", "Proved for every node content.", CHILDREN)
VALID = xx("Leaf Internal Node", "validate validate#refuse") + x("RawBTree", "validate validate_node validate#refuse validate_node#refuse")
prop("C21", "The validator is proved twice from its text: on every tree with the invariant whose items are in order it panics nowhere and returns the height; and, a panic being an allowed way out, on any nodes whatever it returns only if every node is in order, between its separators, within its size bounds, right about its parent and all leaves are equally deep (termination on a cyclic heap left aside).",
     VALID + xx("Leaf Internal Node", "balance is_overflowing parent") + xx("Node Internal", "separators children") + ["Children::next", "Internal::item_count"])
prop("C22", "For every function under contract: no reachable panic, unwrap of nothing, index out of range or overflow, and a decreasing measure on every loop and recursion. Bounded: the functions listed as such.",
     x("RawBTree", "new Default::default is_empty len address_of first_item_address last_item_address get_at get_mut_at get get_mut first first_mut last last_mut root next_item_address previous_item_address previous_front_address next_back_address next_item_or_back_address normalize leaf_address insert_at insert_exactly_at replace_at remove_at node node_mut insert remove")
     + x("Storage", "next_item_address previous_item_address next_back_address previous_front_address next_item_or_back_address leaf_address insert_at") + SEARCH + GET + GETMUT + INS + REM + REPL + NODEOPS + ARRAY + OFFSETS + CHILDREN
     + x("Iter", "new size_hint next next_back Clone::clone") + x("IterMut", "new size_hint next next_back") + x("IntoIter", "new size_hint next next_back")
     + VALID[:1] + VALID[2:3] + VALID[4:5] + x("RawBTree", "validate validate_node iter iter_mut into_iter clone clone::clone_node") + VISIT + END + BOX)
prop("C23", "Proved for every key type whose comparisons obey their specification.",
     x("Item", "new key_cmp as_pair into_pair PartialEq::eq PartialOrd::partial_cmp Ord::cmp"))
prop("C24", "What must hold if a call of user code panics is asserted before every such call, and proved like any other obligation: in an operation that compares, that the tree (or node) is still the one it was given; in clear and in the destructor of a tree, before the first node is given to the dropper, that the tree is already a valid empty one over a storage without nodes; in the destructor of a consuming iterator, that its tree is not destroyed by the language; while a buffer is copied, that the length of the copy counts only cells that hold a clone; and a copied tree that is not finished is not reachable. Each destructor call itself takes its item out of reach before it runs (C13, C17). Assumed: unwinding destroys the live local values, as the language says; the storage and the dropper, asked to destroy a node, have taken it out of their books before its items are destroyed. Bounded besides: panics injected at each call of user code.",
     x("RawBTree", "insert remove get get_mut address_of clear clear::clear_closure drop clone clone::clone_node validate validate_node") + xx("Leaf Internal Node", "get_mut insert_by_key") + ["IntoIter::drop", "Array::clone", "Array::drop"],
     env={"EXTRACT_UNWIND": "1"})

NA = {
    "C25": "the property is about the aliasing model of the language (validity of references under Stacked or Tree Borrows); the verifier assumes it for safe code and cannot express it for the raw pointer code and lifetime transmutes involved",
    "C26": "the output goes through core::fmt macros and trait objects of writers, which the verifier does not read; no contract on dot_write can be discharged",
}
if __name__ == "__main__":
    json.dump({"properties": P, "not_applicable": NA}, open("/verif/props.json", "w"), indent=1)
    subprocess.check_call(["python3", "/verif/mkmanifest.py"])
