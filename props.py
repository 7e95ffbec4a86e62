"""The properties, and how each check is run.  mk.py writes properties.jsonl and MANIFEST.json from this."""
I = "src/mesdoc/interface/"
S = "src/mesdoc/selector/"
PROPS = {}


def P(pid, workload, title, statement, over, text, why, files, mech, rule, note, **kw):
    PROPS[pid] = dict(workload=workload, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, rule=rule, note=note, **kw)


P("C01", "css-select", "Selectors return exactly the elements CSS says they match",
  "For every document and every supported selector, searching below a set of elements returns exactly the descendants of those elements that the "
  "selector matches by the CSS/jQuery definition (types, ids, classes, attribute tests, all four combinators, comma groups, :root, :empty, the positional "
  "and of-type pseudo-classes, :not, :has, :contains, :checked, :header, :input, :submit, nested to any depth). No matching element is missing, no other element is returned, and the answer "
  "follows the current tree after any change.",
  ["inputs", "histories"], "all documents x all selectors of the supported grammar x all starting sets, also after mutations",
  "The tests use a few dozen fixed page/selector pairs; combinator backtracking, rule merging and fast paths only differ on particular tree shapes.",
  [I + "elements.rs", S + "rule.rs", S + "mod.rs", S + "pattern.rs", "src/mesdoc/rules/pseudo.rs", "src/mesdoc/rules/attr.rs", "src/mesdoc/rules/class.rs", "src/mesdoc/rules/id.rs", "src/mesdoc/rules/name.rs", "src/mesdoc/rules/all.rs"],
  [("selector parsing into query steps", S + "mod.rs"), ("pseudo-class and attribute rules", "src/mesdoc/rules/"), ("find and its combinator loop", I + "elements.rs")],
  "Random trees and random selectors drawn from the grammar (biased to names that occur in the tree); an independent matcher that tests every element "
  "against the selector right to left gives the expected list. Non-trivial: at least one element is expected; distinct by selector, starting set and answer.",
  "Differential run-time monitor against an independent matcher on random documents, selectors and starting sets.")
P("C02", "match-filter", "is/filter/not/has agree with the selector's meaning",
  "For every set of elements and every selector, filtering keeps exactly the elements that match (as the search would find them from the top of their "
  "tree), in the order of the set; excluding keeps exactly the others; the any-match and all-match tests say whether that filter keeps some or all; keeping by "
  "descendants keeps exactly the elements with a matching descendant. The variants taking a closure or another set of elements agree with the same definition.",
  ["inputs", "histories"], "all documents x sets (attached or detached) x selectors, closures and other sets",
  "Tests check single calls on small lists; agreement between the members of the family over all selectors is never stated.",
  [I + "elements.rs", S + "rule.rs"],
  [("filter/not/is/has families", I + "elements.rs"), ("whole-set rules such as :first/:eq", "src/mesdoc/rules/")],
  "Random trees (some with detached parts), sets and selectors, filter / not / is / is_all / has and their closure and set variants judged against the "
  "reference matcher. Non-trivial: at least one element is kept or excluded; distinct by selector, set and answer.",
  "Differential run-time monitor of the whole filter family against an independent matcher.")
P("C03", "nth-arith", "Positional pseudo-classes count exactly",
  "Every positional test an+b (child, last-child, of-type, last-of-type, with the even/odd keywords and the first-, last- and only- forms) selects exactly the "
  "elements at the positions n >= 0 gives, for every sign and size of a and b and every legal spelling. Combining several of them selects exactly the "
  "elements satisfying all, also in lists of any length.",
  ["inputs"], "all a, b (any sign, zero, large), all spellings, all sibling counts and tag mixes",
  "Tests use a handful of formulas on one list; the index arithmetic (rounding, sign, start, merging of several conditions) differs per sign combination.",
  ["src/mesdoc/rules/pseudo.rs", S + "rule.rs", S + "pattern.rs", "src/mesdoc/rules/mod.rs"],
  [("an+b parsing", S + "pattern.rs"), ("index sets for an+b and their intersection", S + "pattern.rs"), ("nth rules", "src/mesdoc/rules/")],
  "Sibling lists of random length and tags, formulas over a in small/large/negative ranges in random legal spellings, alone, combined and chained with :not; "
  "expected positions by direct evaluation of n. Non-trivial: a position matches; distinct by formula, list length and answer.",
  "Run-time monitor with exact arithmetic oracle over formula x sibling-list space.")
P("C04", "traverse", "Tree traversal returns exactly the related elements",
  "For every set of elements, the traversals (children, parent, ancestors, closest, siblings, next/previous one, all or until, first/last/only child helpers) return exactly "
  "the elements in that relation to some member of the set, restricted to those matching the optional selector and, for the until variants, stopping at the first that "
  "matches it, which is itself included only when asked for. The answer is the same at any history of the tree.",
  ["inputs", "histories"], "all documents x sets x traversal x selectors",
  "Tests walk a few lists from one element; several starting elements in one family, text and comments in between, and detached trees are not sampled.",
  [I + "elements.rs", I + "element.rs"],
  [("relation helpers per element", I + "element.rs"), ("set-level traversals", I + "elements.rs")],
  "Every traversal method with and without selector/until on random sets, judged against relations computed on the reference tree. Non-trivial: a non-empty "
  "answer; distinct by method, selector, set and answer.",
  "Differential run-time monitor against relations computed on a reference tree.")
P("C05", "doc-order", "Results are in document order without duplicates",
  "Every search, traversal, filter or set combination that starts from document-ordered sets yields each element at most once and in the order of the document, also for "
  "nested or overlapping starting elements, comma groups, and sibling or ancestor walks from several places.",
  ["inputs", "histories"], "all documents x overlapping sets x selectors x methods",
  "Tests compare lengths or joined text of single-start queries; duplicate and order bugs need overlapping subtrees or several starts.",
  [I + "elements.rs"], [("sorted merging and de-duplication of result sets", I + "elements.rs")],
  "All result-producing methods on overlapping/nested starting sets and selector groups; the recorded result must be strictly increasing in the order of a "
  "fresh walk over the real tree. Non-trivial: at least two elements; distinct by method, selector, set and answer.",
  "Online trace checker: strict document order of every result.")
P("C06", "set-algebra", "Element sets obey their algebra",
  "Adding sets gives their union in document order; first, last, eq, get and slice address exactly the positions of the set and answer with an empty result, "
  "never a crash, outside of it; length, iteration, mapping, collection and emptiness agree with each other. This holds for any sets, including empty ones and sets "
  "with elements of several separate trees.",
  ["inputs", "histories"], "all pairs of sets over one or several documents x all positions",
  "Tests use one list and in-range positions; merge order and range arithmetic depend on the exact interleaving of two sets.",
  [I + "elements.rs"], [("add/sort/merge", I + "elements.rs"), ("slice, eq, get, first, last", I + "elements.rs")],
  "Random pairs of sets (overlapping, nested, empty, from several trees), positions in and out of range; compared with list/set algebra on node identity. "
  "Non-trivial: both sets non-empty; distinct by the two sets and the union.",
  "Run-time monitor against list/set algebra on node identities.")
P("C07", "query-readonly", "Queries are repeatable and change nothing",
  "No query, traversal, filter or read accessor changes the document: after any of them, whatever its arguments (also invalid ones), the rendered document, its structure "
  "and the queried sets are as before. Repeating a query gives the same elements, whatever other queries ran in between.",
  ["inputs", "histories"], "all documents x interleavings of queries",
  "Tests never compare the document before and after a query or repeat one after others; shared caches make this a property of histories.",
  [I + "elements.rs", S + "rule.rs", S + "pattern.rs", "src/lib.rs"],
  [("queries take shared references; regex and rule caches are global", S + "pattern.rs")],
  "Sequences of random queries with a full structural snapshot and rendering before and after, each query repeated in shuffled order. Non-trivial: some query "
  "returned elements; distinct by method, selector and set.",
  "Snapshot monitor around query histories plus repeat-and-compare.")
P("C08", "selector-errors", "Bad selectors are reported, never crash",
  "For every string given as a selector to any method that takes one, the call returns: either the string is a selector and is used, or the error handler is called and the "
  "result is empty (a test is false). Nothing panics, overflows or fails to terminate; valid selectors are never reported; a string that is not a selector "
  "is never silently accepted on one method and reported by another.",
  ["inputs"], "all strings (truncated, mutated, unbalanced, huge numbers, any Unicode) x all selector-taking methods x empty or filled sets",
  "Tests feed three or four malformed strings.",
  [S + "mod.rs", S + "pattern.rs", S + "rule.rs", I + "elements.rs", I + "document.rs", "src/mesdoc/error.rs"],
  [("error reporting through the document's handler", I + "document.rs"), ("pattern matching of selector segments", S + "pattern.rs")],
  "Grammar-made selectors, their truncations, byte mutations and random strings given to every selector-taking method under panic capture, with an error-handler "
  "recorder. Non-trivial: every judged call; distinct by string, method and verdict.",
  "Fuzzing with panic/overflow/termination monitors and an error-handler recorder.")
P("C09", "parse-lossless", "Loading keeps the document; reading it back is exact",
  "For every well-formed document, loading and rendering it gives back the source exactly, and every element's tag, attributes, outer and inner markup and every text are those of "
  "the source. The text of an element is the concatenation of its descendants' decoded texts in order, comments and markup left out.",
  ["inputs"], "all well-formed documents (void and content tags, comments, doctype, entities, any quoting, Unicode, whitespace)",
  "Tests render a few pages; losing or duplicating a construct depends on its neighbours.",
  ["src/lib.rs", I + "elements.rs", I + "element.rs"],
  [("loading and rendering", "src/lib.rs"), ("text/html/attribute accessors", "src/lib.rs")],
  "Documents are generated as a tree first and printed; the loaded tree must mirror it node by node and render the same source; text, html, attributes "
  "compared per element and per set. Non-trivial: markup of more than one plain tag; distinct by rendered markup and text.",
  "Differential run-time monitor: generated tree vs loaded tree, character-exact rendering.")
P("C10", "serialize-roundtrip", "Rendering then loading reproduces the tree",
  "At any point of any editing history, rendering a document or element and loading the result gives the same tree: same elements, attributes with the same decoded values, "
  "comments and decoded text. Writing an element's own inner markup back changes nothing.",
  ["inputs", "histories"], "all documents x editing histories",
  "Tests compare rendered strings of one edit; that the rendering still means the same tree is never checked.",
  ["src/lib.rs"], [("inner/outer html rendering", "src/lib.rs"), ("entity and quote encoding when setting text and attributes", "src/lib.rs")],
  "Random documents, up to a dozen random edits, then render -> load -> structural comparison, for the document, single elements and inner markup. Non-trivial: more "
  "than 12-20 characters of markup; distinct by markup.",
  "Round-trip monitor after random editing histories.")
P("C11", "lenient-load", "Sloppy markup is repaired the documented way",
  "By default an end tag that is not that of the innermost open element is dropped, tags still open at the end of the input are closed there, a bare '<' is text and void elements need no slash, both when loading and when setting markup; the result is exactly the tree of the "
  "repaired source. Nothing but the faulty tag itself is lost or moved.",
  ["inputs"], "all documents x any number and nesting of missing end tags, stray end tags and self-closing spellings",
  "Tests repair two or three snippets.",
  ["src/lib.rs"], [("parse options used by default", "src/lib.rs"), ("repair of truncated or unlinked nodes", "src/lib.rs")],
  "Well-formed trees are printed with random faults injected (dropped end tags, stray end tags, slashes); loading must give the tree without them. Non-trivial: at least one "
  "fault; distinct by source.",
  "Fault-injection on the source with the clean tree as oracle.")
P("C12", "hostile-html", "Any input loads or errors; what loads is usable",
  "For every string, loading returns (a document or an error) without a panic, overflow or endless loop, and so does setting it as the markup of an element. Every document that was loaded can be "
  "searched, traversed, rendered, copied and edited without a panic, and its tree links are consistent.",
  ["inputs"], "all strings: truncations, mutations, nesting, Unicode, control characters, broken tags",
  "Tests load well-formed pages.",
  ["src/lib.rs", I + "elements.rs"], [("loading with error result", "src/lib.rs"), ("post-parse repair", "src/lib.rs")],
  "Printed documents with random cuts, splices, byte mutations and token soup; loaded trees are walked, every link cross-checked, and exercised. Non-trivial: "
  "the source loaded with elements or was refused; distinct by source.",
  "Fuzzing with panic/termination monitors and a structural-invariant walker.")
P("C13", "tree-integrity", "Edits keep the tree consistent",
  "After any history of edits every node is in exactly one place: its parent lists it exactly once, at the index it reports; neighbours point at each other; child, sibling and "
  "ancestor navigation agree; no node is its own ancestor. Nodes not touched by an edit keep their place, content and identity.",
  ["histories"], "all edit histories (insert, move, replace, remove, empty, set text/markup, text-node edits) on all documents",
  "Tests perform one or two edits and check one rendering; index bookkeeping errors only show in later edits.",
  ["src/lib.rs", I + "elements.rs", I + "element.rs"],
  [("index renumbering and parent links on insert/remove", "src/lib.rs")],
  "Long random edit histories in lock-step with a reference tree; after every edit the whole real tree is walked and every link compared. Non-trivial: every edit; "
  "distinct by operation and place.",
  "Structural-invariant monitor after every step of random edit histories, in lock-step with a reference tree.")
P("C14", "insert-semantics", "Insertion puts exactly the given nodes at the given place",
  "Inserting elements before, after, at the start or at the end of a target (in either calling direction, for any sets on both sides) leaves exactly the given elements there, all of them, in their order, and moves "
  "them out of wherever they were, also within the same parent or from another document. Everything else stays in its order, and the new elements are found by searches.",
  ["inputs", "histories"], "all sources (new, same parent, ancestor side, other document, several) x targets x positions",
  "Tests append one fresh element; moving within one parent and several nodes shift indexes.",
  ["src/lib.rs", I + "elements.rs"], [("insert_adjacent and index renumbering", "src/lib.rs"), ("append/prepend/before/after families", I + "elements.rs")],
  "Histories of insertions of fresh, existing, multiple and foreign elements at all positions; full-tree comparison with the reference list splice after each. "
  "Non-trivial: the insertion is allowed and moves nodes; distinct by operation and place.",
  "Lock-step monitor against list-splice semantics.")
P("C15", "remove-replace", "Removal and replacement take out exactly the target",
  "Removing, emptying or replacing takes exactly the addressed nodes with their subtrees out of the document, puts the replacements exactly in their place, and leaves every other node where it was. A handle replaced by a single element stands for that element afterwards. What was taken out is no longer reachable "
  "from the document by any search or navigation, and stays a usable tree of its own.",
  ["inputs", "histories"], "all documents x sets to remove/replace/empty (nested, adjacent, text in between)",
  "Tests remove one node and look at the string.",
  ["src/lib.rs", I + "elements.rs"], [("remove_child / replace_with / empty", "src/lib.rs")],
  "Removal, emptying and replacement of random sets incl. nested ones; full-tree comparison, reachability of removed nodes, and use of the removed trees. "
  "Non-trivial: every removal; distinct by operation and place.",
  "Lock-step monitor with reachability checks on the removed nodes.")
P("C16", "mutation-reject", "Impossible edits are refused and change nothing",
  "An edit that cannot be carried out (a node into itself or its own descendant, into an element that takes no children, next to a node without parent, into a text-only element) never panics and leaves "
  "the tree of both sides exactly as it was; where the library has an error channel it is reported there.",
  ["inputs", "histories"], "all impossible source/target/position combinations",
  "Tests try one such edit.",
  ["src/lib.rs"], [("validation before insertion", "src/lib.rs")],
  "Random impossible edits with a snapshot of both trees before and after. Non-trivial: every refused edit; distinct by position and document.",
  "Negative-workload monitor with before/after snapshots.")
P("C17", "text-escape", "Text set is text read, and never becomes markup",
  "Setting any string as the text of an ordinary element makes that string its text, creates no element, comment or attribute, and survives rendering and reloading. In a textarea or title it also reads back and cannot break out of the element in html() or outer_html(). (Raw-text elements such as script, and handles of text nodes, take source text as it is.) Characters with a meaning in "
  "markup, entities look-alikes and any Unicode included.",
  ["inputs"], "all strings x all ordinary elements, one or several at once",
  "Tests set a few plain strings; this is the injection-safety guarantee over all strings.",
  ["src/lib.rs"], [("entity encoding in set_text", "src/lib.rs")],
  "Strings rich in <, >, &, quotes, entity-like parts, comment and tag fragments and Unicode; read back directly and after a reload. Non-trivial: contains markup characters; distinct by string.",
  "Taint-style run-time monitor: set -> read -> render -> reload -> compare.")
P("C18", "attributes", "Attributes behave as a name-to-value map",
  "Each element's attributes behave as a map with case-insensitive names: reading gives the last value set, removing removes exactly that name, other attributes keep value and order, and existence tests agree. "
  "Any value string survives being set, rendered and reloaded, and attribute selectors see the current values.",
  ["inputs", "histories"], "all histories of set/remove/read x names x values with any characters",
  "Tests set two or three simple values.",
  ["src/lib.rs", I + "elements.rs"], [("get/set/remove attribute and quoting", "src/lib.rs")],
  "Histories of attribute edits with hostile names' case and values in lock-step with a map; read back, rendered, reloaded, and selected by value. Non-trivial: the attribute "
  "exists; distinct by name, value and markup.",
  "Lock-step monitor against an ordered map, with reload and selector cross-check.")
P("C19", "classes", "Class operations are set operations",
  "Adding, removing, toggling and testing classes act, for any list of distinct names, on the element's class list as on a set of whitespace-separated names: added names are present once, removed names are absent, all others stay, a toggle "
  "inverts each name. Tests and class selectors agree with that list at all times.",
  ["inputs", "histories"], "all class attributes (duplicates, any whitespace, prefixes of each other) x histories of operations with several names",
  "Tests add and remove one or two names on a tidy attribute.",
  [I + "elements.rs"], [("class list editing", I + "elements.rs")],
  "Histories of class operations on messy class attributes against a set; has_class and .class selectors compared. Non-trivial: positive has_class, or any edit; distinct by names and state.",
  "Lock-step monitor against set semantics.")
P("C20", "clone-independent", "Copies are equal and independent",
  "A copy of a set or element has the same markup and structure as the original at the time of copying, and belongs to no document place. No later edit of either one, at any depth (children, text, attributes, classes, "
  "removal), is visible in the other.",
  ["histories"], "all subtrees x all edit histories on either side after copying",
  "Tests copy a node and compare its string once.",
  ["src/lib.rs", I + "elements.rs"], [("deep copy of nodes", "src/lib.rs")],
  "Copies of random sets followed by interleaved edits of both sides, both compared with the reference trees after each step. Non-trivial: every copy history; distinct by copied set.",
  "Two-world lock-step monitor.")
P("C21", "text-nodes", "Text-node access sees and edits exactly the texts",
  "Collecting text nodes to a depth returns exactly the text nodes of that depth in document order, filters keep exactly those accepted, and setting, prepending, appending, setting markup and removing changes exactly "
  "the addressed text node. Positions and content of all other nodes stay as they were.",
  ["inputs", "histories"], "all documents x depths x filters x text edits",
  "Tests edit one text.",
  ["src/lib.rs", I + "texts.rs", I + "text.rs"], [("text collection by depth", "src/lib.rs"), ("text edits", "src/lib.rs")],
  "texts/texts_by/texts_by_rec with random limits and closures compared with the reference tree; then random edits through the text handles in lock-step. Non-trivial: a non-empty list; distinct by call and result.",
  "Lock-step monitor of text collections and edits.")
P("C22", "form-values", "Form state reads as the markup says",
  "The value of every form control (text inputs, checkable inputs, areas, options, single and multiple selects with groups) is the one its current markup defines, with defaults and disabled or selected options taken into "
  "account. The form-state pseudo-classes (:checked, :input, :submit) agree with it.",
  ["inputs", "histories"], "all combinations of options, groups, flags and edits",
  "Tests read two selects.",
  ["src/lib.rs", "src/mesdoc/rules/mod.rs", I + "elements.rs"], [("value of a control", "src/lib.rs"), ("form pseudo-classes", "src/mesdoc/rules/")],
  "Random forms incl. optgroups, multiple, disabled/selected flags, edited attributes; value() and pseudo-classes compared with definitions on the reference tree. Non-trivial: a non-empty value; distinct by control and value.",
  "Differential run-time monitor on generated forms.")
P("C23", "document-api", "The document answers for its current tree",
  "The document's title, head, body, root element, id lookup and source reflect the tree it holds now, after any history of edits; each attached element reports that document, and moving an element to another document changes the answer. "
  "An id lookup returns the first element in document order carrying it, and nothing for an id no element carries.",
  ["inputs", "histories"], "all documents x edit histories x moves between documents",
  "Tests ask once after loading.",
  ["src/lib.rs", I + "document.rs"], [("document accessors", I + "document.rs"), ("owner document lookup", "src/lib.rs")],
  "Random full pages and fragments with edits and moves between two documents; title/head/body/root/by-id/owner compared with the reference tree. Non-trivial: the part exists; distinct by document and answer.",
  "Lock-step monitor of document accessors.")
P("C24", "thread-safety", "Using the library from several threads is safe",
  "Threads that use the library at the same time, each on its own documents, get exactly the results they would get alone, also when they are the first to use it and start at the same moment. No call deadlocks, "
  "panics or poisons the library for others.",
  ["schedules", "inputs"], "all interleavings of first use, selector compilation and queries on 2..6 threads",
  "Tests do not control or vary the first-use interleaving.",
  ["src/mesdoc/mod.rs", S + "pattern.rs", S + "rule.rs", S + "mod.rs"],
  [("one-time initialisation", "src/mesdoc/mod.rs"), ("global pattern and regex tables behind locks", S + "pattern.rs")],
  "Fresh processes whose threads start on a barrier (with random spin delays) on an uninitialised library; each thread's queries are judged by the sequential oracles of C01-C04, C08, C10, C21, and some threads' own callbacks panic half-way. Non-trivial: every race run; distinct by recorded "
  "order of the threads' steps.",
  "Stress in fresh processes with sequential oracles per thread, deadlock watchdog and recorded interleavings.", quick_s=20)
P("C25", "memory-release", "Nothing leaks, nothing is freed too early",
  "When all handles of a document are dropped, all its memory is released, whatever was done with it before. A handle kept alone keeps its own subtree usable and nothing else, and never crashes when its document is gone; repeating the same work does not grow memory, and neither does working through ever new documents and selectors.",
  ["histories"], "all histories of queries, edits, copies and moves, and all orders of dropping handles",
  "Tests never observe memory; a reference cycle is invisible to them.",
  ["src/lib.rs", I + "elements.rs"], [("strong child links, weak parent and root links", "src/lib.rs")],
  "Weak observers on every node of random histories plus a counting allocator: after dropping, exactly the kept subtree is alive, then nothing; repeating the history leaves the heap at the same size, and hundreds of new documents and selectors leave nothing behind. Non-trivial: more than three nodes; distinct by history.",
  "Allocation and weak-reference monitors around whole histories.")
P("C26", "features", "Cargo features only decide which operations exist",
  "Every set of the features text, insertion and destroy builds, and provides the operations documented for its features: text nodes (text), insertions and replacement (insertion), remove, empty, remove_child and clone (destroy), "
  "everything else always; full means all three. An operation behaves the same in every build that has it: the same history of loads, queries and edits gives the same results, the same errors and the same tree whichever features are on.",
  ["inputs", "histories"], "all 8 feature sets (and full) x all documents x histories of the operations they share",
  "The tests are only built and run with all features on.",
  ["src/macros.rs", "src/lib.rs", I + "elements.rs", I + "element.rs", I + "text.rs", I + "mod.rs"],
  [("feature gates", "src/macros.rs"), ("gated methods", I + "elements.rs")],
  "One deterministic random workload compiled once per feature set, logging what it observes (results by place in the tree, error messages, whole trees); the logs of the parts two builds share are compared. "
  "Non-trivial: every log of a part; distinct by its contents.",
  "Offline comparison of recorded observation logs of one workload across all nine feature configurations.", quick_s=12, thorough_s=300)
P("C27", "load-options", "Parse options decide exactly which flaws are repaired",
  "A well-formed document loads to the same tree under every set of parse options and through every load call. A document with flaws (unclosed tag, unexpected end tag, bare '<', self-closing of an ordinary tag, attribute name starting with '=') "
  "loads, to the tree the plain load gives, exactly when the options allow each of its flaws; an end tag in another letter case is refused exactly when tag names are case-sensitive. "
  "A refusal is an error from the returning call; the catching call passes that same error to its handler exactly once and gives an empty set. "
  "Later errors of an accepted document (such as an invalid selector) reach the handler it was loaded with, once each, and never another document's.",
  ["inputs"], "all documents x combinations of flaws x all 64 option sets x all load calls",
  "The tests load one or two fixed pages with one option set.",
  ["src/lib.rs", I + "document.rs"],
  [("load entry points and their options", "src/lib.rs"), ("error handler of a document", I + "document.rs")],
  "Random documents with 0-3 injected flaws under option sets that allow exactly them, all but one of them, or are random (sometimes all 64): accepted or refused as the flaws say, tree equal to the plain load's (judged by C09/C11), handler calls counted; "
  "plus arbitrary tag soup. Non-trivial: the document has a flaw; distinct by flaws, options and source.",
  "Run-time monitor of load outcomes, trees and handler calls over documents with injected flaws x option sets.")
P("C28", "callbacks", "User callbacks are called exactly as promised and may use the document",
  "A function given to an iteration or closure-based filter is called with each element of the set and its position, once each and in order (until it asks to stop where that is offered, or the answer of is_by / is_all_by is settled), its answer alone "
  "decides what is kept, and the set it runs over is the one it was given. While it runs, the function may search, read and edit any part of the document, including removing the element it was called with: nothing panics, later calls still come, "
  "and the tree ends as the edits say. The same holds for handlers of text nodes and of errors when they read the document.",
  ["histories", "inputs"], "all sets x iteration and closure methods x edits made inside the calls",
  "Tests use closures that only look at their argument.",
  [I + "elements.rs", I + "texts.rs", "src/lib.rs"],
  [("for_each/each/map and the *_by filters", I + "elements.rs"), ("texts_by handlers", "src/lib.rs")],
  "Every closure-taking method on random sets; inside each call the element is read, searched and, often, a random edit of the whole tree is made and checked in lock-step with the reference tree; the recorded sequence of calls is "
  "compared with the set. Non-trivial: the set has several elements; distinct by method, set, answers and edits.",
  "Call-trace monitor with re-entrant edits checked in lock-step inside the callbacks.")
