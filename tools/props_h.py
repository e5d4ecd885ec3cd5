D, DOM, ST, W, S = ["hotmeal/src/diff.rs", "hotmeal/src/dom.rs", "hotmeal/src/stem.rs", "hotmeal-wasm/src/lib.rs", "hotmeal-server/src/lib.rs"]
DIFFED = [D, DOM, "cinereus/src/chawathe.rs", "cinereus/src/matching.rs"]
TECH = "explicit-state enumeration: every pair of documents up to a bound is an initial state; the real diff and the real patch application run on each, and every resulting page is judged against the new document"
NOTE = "Exhaustive within the stated bounds (forests of <= 4 nodes over several alphabets, all list permutations, every single edit of larger documents, opaque and foreign content, document frames; thorough goes deeper). The implementation itself runs for every case. facet, html5ever and the browser are replaced by stand-ins (not available offline), so the real HTML tokenizer and real browser DOM are not covered."
WHY = "hotmeal's tests sample a few documents (and cannot even be built here); the faults that matter depend on the combination of moves, displacement slots, positions and repetition, which only an exhaustive sweep of document pairs reaches."
PAIRS = "all ordered pairs of documents (body contents, attributes, texts, comments, opaque regions, foreign content, missing or present html/head/body/doctype)"
def P(id, title, statement, why=None, over=("inputs",), q=PAIRS, files=DIFFED, mech=(), observe=("hotmeal::diff", "hotmeal::Document::apply_patches"), tech=TECH, note=NOTE, **kw):
    return dict(id=id, title=title, statement=statement, why=why or WHY, over=list(over), q=q, files=list(files), mech=list(mech), observe=list(observe), tech=tech, note=note, **kw)

PROPS = [
P("H01", "Applying the diff to the old document gives the new document",
  "For any two documents, applying the patches from diff(old, new) to the old document succeeds and leaves a body with exactly the new body's content, attributes and namespaces (empty text placeholders aside; opaque regions hold the new content); doctype and head are untouched. The same holds from markup to markup (diff_html, apply, serialize).",
  mech=[("edit script to patches", D + ":convert_ops_with_shadow"), ("patch interpreter", DOM + ":Document::apply_patch")],
  observe=("hotmeal::diff", "hotmeal::diff_html", "hotmeal::Document::apply_patches", "hotmeal::Document::to_html")),
P("H02", "The diff is empty exactly when nothing visible changed",
  "diff(x, x) is empty for every document x; and when the bodies of two documents differ in content, attributes or opaque content, the diff is not empty.",
  mech=[("hashes and property comparison", D + ":DiffableDocument"), ("opaque comparison", D + ":diff")], observe=("hotmeal::diff",)),
P("H03", "A long-lived page stays in step over any history of edits",
  "A page that starts as the first document and receives, for each further version, the diff between consecutive (clean) versions accepts every patch and shows each version in turn, although it accumulates empty placeholders that the server's documents do not have.",
  over=("histories",), q="all histories of up to 4 versions over all documents of a bound",
  tech="explicit-state enumeration of all histories of documents up to a length; the real page carries its state through the whole history and is judged after every step",
  mech=[("placeholders instead of shifting", DOM + ":Document::apply_patch"), ("removals at the end", D + ":convert_ops_with_shadow")]),
P("H04", "Patches applied one at a time give the same page as in one batch",
  "Applying a diff's patches one by one with the slots carried along, in the Rust page or in the browser client, gives the same page (and the same events and counts) as applying them in one call, and no patch fails in one way but not in the other.",
  over=("inputs", "schedules"), files=(DOM, W), mech=[("external slots", DOM + ":Document::apply_patch_with_slots"), ("external slots", W + ":apply_patches_with_slots")],
  observe=("hotmeal::Document::apply_patch_with_slots", "hotmeal::Document::init_patch_slots", "hotmeal_wasm::apply_patches_with_slots")),
P("H05", "Opaque regions belong to the page; it hears about every change",
  "When a page's scripts have put arbitrary content into its opaque regions (data-hotmeal-opaque), the patches of any diff leave that content alone in every region that is kept, wherever it moves; exactly the kept regions whose source content changed get one bubbling hotmeal:opaque-changed event, on the right element and carrying the new content, key and element; and everything outside shows the new document.",
  q="all pairs of documents with opaque regions (nested, keyed, moved, inserted, removed), page contents of the regions arbitrary",
  files=DIFFED + [W], mech=[("opaque nodes are leaves", D + ":DiffableDocument::is_opaque"), ("opaque change detection", D + ":diff"), ("event dispatch", W + ":apply_patch")],
  observe=("hotmeal_wasm::apply_patches",)),
P("H06", "The browser client and the Rust page show the same document",
  "For the patches of any diff, the browser client ends with the same body as the Rust implementation (content, attributes, namespaces), reports the number of patches, and does so through every entry point: patches in memory, JSON or binary form, on the body or on a mount point chosen by a selector; over whole histories of versions; and with a mount point the rest of the page is never touched. A selector that matches nothing is an error that changes nothing.",
  over=("inputs", "histories"), files=[W, DOM, D], mech=[("browser patch interpreter", W + ":apply_patch"), ("mount point", W + ":resolve_mount_point"), ("Rust patch interpreter", DOM + ":Document::apply_patch")],
  observe=("hotmeal_wasm::apply_patches", "hotmeal_wasm::apply_patches_on", "hotmeal_wasm::apply_patches_postcard", "hotmeal_wasm::apply_patches_json")),
P("H07", "Patches mean the same everywhere, and bad patches are rejected",
  "Any sequence of patches (not only those diff produces) has the documented effect in both implementations: an insert or move puts the node at the position, a node displaced by it goes to the slot named, gaps are filled with empty text, a moved or removed node leaves an empty text behind, a move from a slot empties that slot, properties and texts are replaced as listed. A patch that names a missing slot, an index out of range, or a text or comment as the parent of something is reported as an error by both; nothing panics and no node gets into itself.",
  over=("histories", "inputs"), q="all sequences of patches of all kinds over all paths and slots of a bound, on several pages",
  tech="explicit-state exploration of all patch sequences up to a depth, the reference interpreter's valid prefixes extended by every patch; both real interpreters execute every sequence and are compared with the reference",
  note="Exhaustive over all sequences of 2 arbitrary patches over 405 and of up to 4 (thorough 5) patches over smaller alphabets, valid prefixes extended by every patch. Cases the documentation leaves open (a node displaced without a slot, a slot that is overwritten, removing the body) are not judged beyond not panicking. The browser DOM is a stand-in.",
  files=[DOM, W], mech=[("displacement", DOM + ":Document::insert_at"), ("displacement", W + ":insert_at_position"), ("slots", W + ":Slots")],
  observe=("hotmeal::Document::apply_patches", "hotmeal_wasm::apply_patches")),
P("H08", "Patches survive being owned and being sent over the wire",
  "For the patches of any diff, into_owned gives equal patches that no longer borrow from either document, and encoding and decoding them gives equal patches again.",
  files=[D, ST], mech=[("owned copies", D + ":Patch::into_owned"), ("wire proxies", D + ":QualNameProxy")], observe=("hotmeal::Patch::into_owned", "facet_postcard"),
  note=NOTE + " The byte encoding itself is the stand-in's; what is checked is hotmeal's conversions to and from the wire types."),
P("H09", "What is written as markup reads back as the same document",
  "Every document whose tree a parser can produce is serialized to markup that parses to an equal document: texts and attribute values with any characters, comments, void and raw-text elements, SVG and MathML content, doctype, head and body attributes. The partial forms (without doctype, body only, inner HTML of a node, parsing as a fragment) agree with the whole.",
  q="all documents of a bound, all strings of up to 3 markup-like pieces in every kind of place, every element name", files=[DOM],
  mech=[("escaping, void and raw-text elements", DOM + ":Document::serialize_node"), ("parsing", DOM + ":parse")],
  tech="explicit-state enumeration of all documents of a bound and all strings over a markup alphabet in every place; the real serializer and the real tree building run on each and the result is compared with the document",
  observe=("hotmeal::Document::to_html", "hotmeal::Document::to_html_without_doctype", "hotmeal::Document::to_body_html", "hotmeal::Document::serialize_inner_html", "hotmeal::parse", "hotmeal::parse_body_fragment"),
  why="A document with the one combination of element, namespace and characters that is written in a way that reads differently corrupts pages; the tests write a few.",
  note="Exhaustive within the stated bounds. html5ever 0.38 is not available offline; the stand-in implements the HTML tokenizer and tree construction in full and was compared with a real html5ever 0.26 on 1,053,819 inputs without a difference (tools/realparse). Trees that no markup can express (adjacent texts, a block in a p, misnested results of foster parenting) are outside: such a document is skipped by a precondition that does not use the code under test."),
P("H10", "Every sequence of parser instructions builds the DOM it describes",
  "Whatever instructions the HTML parser gives (create, append, insert before, foster-parent around a table, merge text, add missing attributes, remove, re-parent), in any order, the resulting document has exactly the structure, texts, attributes, doctype, body and root those instructions describe.",
  over=("histories",), q="all sequences of parser instructions up to a length over nodes of a bound", files=[DOM],
  tech="explicit-state exploration of all instruction sequences up to a depth from several starts against a reference DOM; the real TreeSink executes every sequence",
  mech=[("tree building", DOM + ":ArenaSink"), ("text merging", DOM + ":ArenaSink::append")], observe=("hotmeal::parse",),
  why="The parser's table and misnesting recovery gives unusual instruction orders (insert before, re-parent) that sample documents hardly trigger.",
  note="Exhaustive over all valid instruction sequences of 4 (thorough 5) after three starts. html5ever is a stand-in that plays instructions to the real TreeSink; which instructions a parser gives is covered by H11."),
P("H11", "Parsing keeps all of the input, in a document or bare",
  "Parsing a bare piece of body content (even with leading blanks, unclosed tags, comments or raw text at its end), the same content as a fragment, inside a document, with or without doctype, blanks or comments before it, and with body attributes all give the same body; the doctype is reported exactly when there is one; parsing what was written gives the same again; and strings are borrowed only from the input.",
  q="all inputs of up to 4 (thorough 5) pieces of markup over 18 pieces", files=[DOM, ST],
  tech="explicit-state enumeration of all inputs over a markup alphabet up to a length; the real parse functions run on each form and are compared with each other",
  mech=[("doctype and bare content", DOM + ":parse"), ("fragments", DOM + ":parse_body_fragment"), ("borrowing", DOM + ":ArenaSink")],
  observe=("hotmeal::parse", "hotmeal::parse_body_fragment", "hotmeal::Stem"),
  why="The wrapper around the parser rewrites its input by cases; a piece of content for which a case is wrong silently loses text.",
  note="Exhaustive within the stated bounds; inputs that contain a html or body tag of their own are outside. html5ever is a stand-in that implements tokenizer and tree construction in full, compared with a real html5ever 0.26 (tools/realparse); the oracle is a second sink on the same stand-in."),
P("H12", "Editing a document does what the operation says and nothing else",
  "Any sequence of document operations (create element, text, comment; append, insert before or after, remove; set or remove attributes; set text) leaves exactly the tree, attribute order and values, parents, siblings, first and last children and counts that it describes, and a copy of a document is independent of it.",
  over=("histories",), q="all sequences of document operations up to a length over nodes of a bound", files=[DOM],
  tech="explicit-state exploration of all operation sequences up to a depth from several documents against a reference DOM; the real Document executes every sequence",
  mech=[("operations", DOM + ":Document")], observe=("hotmeal::Document",),
  why="Moves of attached nodes, repeated attributes and operations on detached nodes combine in more ways than tests sample.",
  note="Exhaustive over all sequences of 4 (thorough 5) operations from an empty body and 3 (thorough 4) from a small one, on up to 5 nodes."),
P("H13", "A borrowed or owned string behaves as the string it holds",
  "However a Stem was made (borrowed, from a String, a tendril, pieces pushed), it has the string's text, length, display, equality and hash, borrowed and owned forms of one string are interchangeable as map keys, pushing changes only the one pushed to, and owned forms outlive their source.",
  over=("inputs", "histories"), q="all chains of up to 3 (thorough 4) strings over 13 strings around the inline limit", files=[ST],
  tech="explicit-state enumeration of all chains of constructions and pushes up to a length over boundary strings; the real Stem executes each and is compared with String",
  mech=[("representation", ST + ":Stem")], observe=("hotmeal::Stem",),
  why="Equality and hash across the two forms decide whether the diff sees a change; the tests compare a few strings.",
  note="Exhaustive within the stated bounds; compact_str and tendril are stand-ins."),
P("H14", "A small edit gives a small patch and the page keeps its nodes",
  "When a document without equal nodes is edited in one place, the diff touches that place only: a changed text or comment gives exactly one SetText for it, changed attributes of an element exactly one UpdateProps for it (and several such changes exactly one each), and children inserted, deleted or reordered in one list give only inserts, removes and moves in that list, with no more nodes inserted than are new. Every node that the edit keeps is still the same node afterwards, in the Rust document and in the browser (so focus, listeners and state survive).",
  q="every single edit, and every set of simultaneous text and attribute changes, of all documents of a bound without equal nodes",
  files=DIFFED + [W], mech=[("the compared tree", D + ":DiffableDocument"), ("matching", "cinereus/src/matching.rs:compute_matching"), ("in-place patches", W + ":apply_patch")],
  tech="explicit-state enumeration of all documents of a bound and every edit of each; the real diff runs on each pair, the patches are judged against the edit, and node identity is compared before and after in both real patch interpreters",
  observe=("hotmeal::diff", "hotmeal::Document::apply_patches", "hotmeal_wasm::apply_patches"),
  why="A diff that replaces more than it must still shows the right page, so tests that compare the result pass, while focus, listeners and scroll position are lost.",
  note="Exhaustive within the stated bounds (documents of <= 7, thorough 8, nodes in three fillings, and four larger pages). Documents with equal nodes are outside, because there the correspondence is not determined. facet, html5ever and the browser are stand-ins."),
]
