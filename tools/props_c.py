CIN = ["cinereus/src/matching.rs", "cinereus/src/chawathe.rs", "cinereus/src/tree.rs", "cinereus/src/lib.rs"]
M, C, T, L = CIN
PAIR_Q = "all ordered pairs of ordered labelled trees (shape, node kinds, properties, texts, opaque flags), for all similarity thresholds and minimum heights, all node numberings and both tree implementations"
TECH = "explicit-state enumeration: every tree pair up to a size bound is one initial state; the real diff is run on each, its script is interpreted operation by operation on a reference tree, and every reached state is judged"
NOTE = "Exhaustive within the stated bounds (all trees of <= 5 nodes over several alphabets, all permutations/lists, every edit at every place of larger documents, wide and deep families; thorough goes to 6 nodes and pairs of edits). The implementation itself is executed for every case, so there is no model gap. Trusts the harness's reference semantics and that node hashes are exact."
WHY = "The 8 unit tests look at a handful of hand-made trees of 2-6 nodes with the default configuration; the guarantee is over every pair of trees, and the faults that matter show only for particular combinations of shape, repetition, position, threshold and opacity."
def P(id, title, statement, why=None, over=("inputs", "configurations"), q=PAIR_Q, files=(M, C, T, L), mech=(), observe=("cinereus::diff_trees", "cinereus::diff_trees_with_matching", "cinereus::compute_matching", "cinereus::generate_edit_script"), tech=TECH, note=NOTE, **kw):
    return dict(id=id, title=title, statement=statement, why=why or WHY, over=list(over), q=q, files=list(files), mech=list(mech), observe=list(observe), tech=tech, note=note, **kw)

PROPS = [
P("C01", "The edit script turns the old tree into the new tree",
  "For any two trees whose roots can correspond (same kind, same opacity, property similarity at or above the threshold), carrying out the edit script on the old tree (inserts and moves name the final parent and final index) yields exactly the new tree: same structure, order, kinds, texts and properties. Every old node that is not deleted has a place in the result and every new node is either inserted or comes from one old node. What lies strictly inside opaque nodes is exempt.",
  mech=[("matching computation", M + ":compute_matching"), ("script generation", C + ":generate_edit_script")]),
P("C02", "A matching is one-to-one and pairs only compatible nodes",
  "The matching pairs each old node with at most one new node and vice versa, pairs only nodes of the same kind and the same opacity, and pairs the root of one tree only with the root of the other. Its list of pairs, its two look-ups, its membership tests and its count all describe the same relation, over existing nodes only.",
  mech=[("top-down phase", M + ":top_down_phase"), ("bottom-up phase", M + ":bottom_up_phase"), ("lookup tables", M + ":Matching::add")]),
P("C03", "The edit script does nothing unnecessary",
  "Given the matching, the script contains exactly one insert per unmatched new node and one delete per unmatched old node (outside opaque regions and except an unmatched new root), one move exactly for each matched node whose parent or index among its siblings changed, one text update exactly where the text changed, and one property update exactly where properties (as a set of keys and values) changed. In particular diffing two equal trees gives an empty script.",
  mech=[("script generation phases", C + ":generate_edit_script")]),
P("C04", "The edit script can be executed in the order given",
  "When the roots correspond, operations come in an executable order: a node is inserted or moved only under a parent that already exists at that point, no node is moved to a place inside itself, no operation touches a node after it was deleted, and a node is deleted only once everything that was in it has been moved out or deleted.",
  mech=[("phase order: update, insert, move, delete", C + ":generate_edit_script"), ("parents are moved before their children", C + ":generate_edit_script"), ("pre-order inserts, post-order deletes", T + ":post_order")]),
P("C05", "Opaque subtrees are atomic",
  "No match and no operation ever concerns a node strictly inside an opaque node of either tree, and nothing is inserted or moved under an opaque node; an opaque node is only ever paired with an opaque node, and is kept, moved, inserted or deleted as a whole.",
  mech=[("opaque descendant sets", M + ":bottom_up_phase"), ("opaque descendant sets", C + ":generate_edit_script"), ("no recursion below opaque", M + ":match_subtrees")]),
P("C06", "Updates carry the complete final state",
  "Every property update lists all properties the node has in the new tree, in the new tree's order, each marked as unchanged exactly when the old node had the same value and otherwise carrying the new value; a property that disappears is simply absent. Every text update carries the new text, every insert the new node's kind, and the positions and nodes it names are those of the new tree.",
  mech=[("property diff emission", C + ":generate_edit_script")]),
P("C07", "The diff depends on the trees only",
  "The same two trees and configuration always give the same matching and the same script in the same order, whatever the internal numbering of the nodes (fresh, reversed, with recycled slots) and the values of their hashes (only which are equal counts), whichever implementation of the tree interface holds them (also a different one on each side), however often it is run, and through whichever public entry point.",
  over=("inputs", "configurations", "histories"),
  tech="explicit-state enumeration of tree pairs x numberings x implementations x entry points, all results of the real code compared",
  mech=[("pre-order iteration for stable order", T + ":DiffTree::iter"), ("candidate lists in document order", M + ":bottom_up_phase")]),
P("C08", "Similarity thresholds are honoured",
  "Two nodes are paired only if their hashes are equal, or they are opaque, or their properties are at least as similar as the configured threshold; if in addition they are not both leaves, not both roots and not at the same index of paired parents, at least the threshold's share (Dice coefficient) of their descendants is paired with each other. The default configuration means a threshold of one half and a minimum height of one.",
  mech=[("property similarity gate", M + ":bottom_up_phase"), ("Dice coefficient", M + ":dice_coefficient")]),
P("C09", "No node is deleted and re-created when it could be kept",
  "When the roots correspond, the script never deletes a node and inserts one of the same kind and opacity in its stead if (a) both sit at the same index under corresponding parents and their properties are similar enough, (b) both are identical leaves under corresponding parents, or (c) both are leaves, identical or similar enough, the old one's parent is itself being deleted, and the new one's parent is new or corresponds to an ancestor of the old one.",
  mech=[("position match", M + ":bottom_up_phase"), ("leaf pass with global search", M + ":bottom_up_phase"), ("ancestry constraint", M + ":ancestry_compatible")]),
P("C10", "Unchanged parts are recognised as unchanged",
  "Two identical trees at least as high as the configured minimum are paired node for node (outside opaque nodes); and in trees without opaque nodes, a subtree at least that high, all of whose parts of at least that height occur exactly once in each tree, and which has the same depth and the same kinds of ancestors in both, is paired node for node wherever its siblings and ancestors changed.",
  mech=[("top-down hash match", M + ":top_down_phase"), ("recursive pairing", M + ":match_subtrees")]),
P("C11", "One small edit gives one small script",
  "In a document in which no two nodes have equal contents (equal hashes), changing one text gives exactly one text update, changing one node's properties (staying similar) gives exactly one property update of that node, reordering properties gives nothing, and inserting a leaf, deleting a subtree or moving one child within its parent gives operations only on that parent's child list and the deleted or inserted nodes.",
  over=("inputs",),
  q="all documents with distinct contents, all places in them, all single edits, all thresholds, minimum heights 0 and 1",
  tech="explicit-state enumeration of every single edit at every place of each base document, run on the real diff",
  note="Exhaustive over every single edit of 13 base documents (up to 161 nodes, one with opaque nodes), and over the edits at the ends, the middle and around powers of two in 4 large ones (up to 667 nodes, 150 levels), at minimum heights 0 and 1 and five thresholds, with hashes that do and do not cover properties.",
  mech=[("hash-based pruning", M + ":top_down_phase"), ("same-place match", M + ":bottom_up_phase")]),
P("C12", "A correct script for any admissible matching",
  "For any one-to-one pairing that pairs the roots, respects kinds and opacity and leaves the inside of opaque nodes alone, in whatever order its pairs were added, the generated script turns the old tree into the new one, is executable in order, does nothing unnecessary and carries complete final states.",
  over=("inputs", "programs"),
  q="all pairs of trees, all admissible matchings between them (not only those the library computes), both orders of addition",
  tech="explicit-state enumeration of all (tree, tree, matching) triples up to a bound; the real script generator runs on each and its script is replayed on a reference tree",
  note="Exhaustive over all matchings of all pairs of trees up to 5 nodes (8 million states), and over seven regular matchings (in order, backwards, shifted, outside in, swapped couples, every second, roots only) of every pair of the larger spaces (lists up to 515, thorough 1030, long spines, bushy trees, edits of pages).",
  files=(C, M), mech=[("script generation", C + ":generate_edit_script")], observe=("cinereus::generate_edit_script",)),
P("C13", "The matching container behaves like a set of pairs",
  "After any sequence of one-to-one additions, in whatever order, with whatever node numbers and whatever initial capacity, the container reports exactly the added pairs in order of addition, its look-ups in both directions and membership tests answer for every node (also ones never added and beyond its capacity) as that list does, and count and emptiness agree.",
  over=("histories",), q="all histories of additions over sparse node numbers, all initial capacities, all queries after every step",
  tech="explicit-state enumeration of operation histories against a list model, all queries in every state",
  note="All histories of <= 4 additions over 6 sparse node numbers in 4 initial capacities.",
  why="No unit test addresses the container on its own; growth of its tables happens only for certain orders of node numbers.",
  files=(M,), mech=[("lookup tables grown on demand", M + ":Matching::add")], observe=("cinereus::Matching",)),
P("C14", "Tree navigation is consistent in every tree",
  "In any tree grown by any history of additions, parent, children, child count, index among siblings, height, descendants (self first, document order), document order, post-order (children before parents), node count and stored data agree with each other and with the history, through the tree type itself, through the tree interface and through the interface's default methods.",
  over=("histories", "inputs"), q="all histories of additions (each under any existing node), all shapes, all queries after every step",
  tech="explicit-state enumeration of all growth histories and tree shapes against a parent-array model, all queries in every state",
  note="All 362880 growth histories of 9 additions, all shapes up to 9 nodes in three numberings, and large stars, chains, binary trees and combs up to 300 nodes.",
  why="Two unit tests look at one tree of three or four nodes.",
  files=(T,), mech=[("tree type", T + ":Tree"), ("tree interface", T + ":DiffTree")], observe=("cinereus::Tree", "cinereus::DiffTree")),
P("C15", "A leaf that stays in place is not exchanged for another",
  "With a minimum height of at least 1, a leaf that is not opaque and whose parent is paired is paired with the leaf at the same index of the corresponding parent whenever that one has the same kind and sufficiently similar properties, even if identical twins of it exist elsewhere.",
  mech=[("position preferred over hash", M + ":bottom_up_phase")]),
P("C16", "A moved container is recognised by the share that survives in it",
  "When a container's parent is paired and the container was moved to another index and changed, it is paired with that new sibling of its kind and opacity with sufficiently similar properties which has the greatest share of its nodes in common with it (Dice coefficient over all nodes of both containers, themselves included in the totals; blocks that occur once and unchanged count as common), if that share reaches the threshold, exactly reaching it included; among equally good siblings with the first in document order, and with none if the threshold is not reached. Containers choose in document order.",
  q="all distributions of the surviving blocks of one or two containers over up to three candidate siblings, all numbers of other nodes, property variants, thresholds",
  tech="explicit-state enumeration of every distribution of surviving blocks over candidate containers, the real matching compared with the specified choice",
  note="All distributions of up to 6 blocks (quick) or 9 blocks (thorough) over 1-3 candidates with exact threshold hits, at 8 thresholds, directly under the root and one level down, moved forwards and backwards; and a container split over any two of up to 40 candidates.",
  mech=[("Dice candidates", M + ":bottom_up_phase"), ("Dice coefficient", M + ":dice_coefficient")]),
P("C17", "Changed content does not jump out of a surviving container",
  "Unless they are identical subtrees of at least the minimum height or opaque, an old and a new node are paired only within corresponding places: if the old node's parent is paired, the new node lies inside that parent's counterpart; and if the new node's parent is paired and both are leaves or that parent's counterpart precedes the old node in document order, the old node lies inside that counterpart.",
  mech=[("ancestry constraint", M + ":ancestry_compatible"), ("leaf pass", M + ":bottom_up_phase")]),
]
