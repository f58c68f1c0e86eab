#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
E="src/mesdoc/interface/elements.rs"; L="src/lib.rs"; EL="src/mesdoc/interface/element.rs"
SEL="src/mesdoc/selector/mod.rs"; RULE="src/mesdoc/selector/rule.rs"; PAT="src/mesdoc/selector/pattern.rs"
PS="src/mesdoc/rules/pseudo.rs"; AT="src/mesdoc/rules/attr.rs"; ID="src/mesdoc/rules/id.rs"; UT="src/mesdoc/utils.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","find() returns exactly the CSS-matching descendants, in document order",
 "For every document and every well-formed selector built from tag names, `*`, ids, classes, attribute tests (`[a]`, `=`, `~=`, `|=`, `^=`, `$=`, `*=`, `!=`), the combinators descendant, `>`, `+`, `~` and comma groups, `find` returns every element below the context set that the selector matches relative to that context and no other element. The result lists each element once, in document order. It does not depend on how the selector is spelled (spaces around combinators, order of the simple selectors in a compound, quoting of values, order of the groups).",
 ["inputs"],"every document tree, every selector of the listed grammar, every context set (the root, one element, several possibly nested elements)",
 "tests run about a hundred hand-written selectors on small fixed documents, almost always from the document root; lookup order, context reduction and combinator chains interact, and only a reference matcher over generated documents and selectors covers that product",
 [E,SEL,RULE,PAT,AT,ID],[("select_with_comb / select_by_rule: segment-by-segment evaluation",E),("find_selector / unique_parents: context reduction and group merge",E),("Selector::from_str: query splitting and combinators",SEL),("per-rule matchers","src/mesdoc/rules/")],
 ["Elements::find(..) -> length, get(i).is(..)"])
p("C02","Structural pseudo-classes select exactly the right siblings",
 "For every document, `:nth-child`, `:nth-last-child`, `:nth-of-type`, `:nth-last-of-type` with any argument `An+B`, `odd`, `even` or a plain integer, and `:first-child`, `:last-child`, `:only-child`, `:first-of-type`, `:last-of-type`, `:only-of-type`, `:empty` and `:root` match exactly the elements the CSS definition names, counting only element siblings. This holds whether the pseudo-class is used in `find` from any context set, behind any combinator, combined with other simple selectors in a compound, or through `filter`, `is` and `not`, and results stay in document order without duplicates.",
 ["inputs"],"every tree, every A and B (negative, zero, large), every placement of the pseudo-class in a selector and every method that evaluates it",
 "each pseudo-class has two or three separate implementations (whole-list, single-element, specialised) chosen by context; the tests sample a few indices on one list",
 [PS,UT,E],[("nth index arithmetic get_allowed_indexs/divide_isize",UT),("list and one-element handles","src/mesdoc/rules/pseudo.rs")],["Elements::find/filter/is/not"])
p("C03",":not, :has, :contains and the form/heading pseudo-classes match by definition",
 "`:not(S)` matches exactly the elements that do not match the selector list S, `:has(S)` exactly those with some descendant that matches S in the whole document, `:contains(t)` exactly those whose text contains t, `:header` exactly h1 to h6, `:input` exactly input/select/textarea/button, `:submit` exactly inputs and buttons of type submit, and `:checked` exactly the checked checkboxes/radios, the options with `selected`, and the first direct child option of a non-multiple select without a selected one. This holds for every document, for nested selector lists (also nested in one another), for quoted and unquoted text arguments, and in every compound and combinator position.",
 ["inputs"],"every document, every argument selector list or text, nesting, position in a compound and behind a combinator",
 "tests use one-level arguments on fixed documents; the nested argument goes through its own parser and evaluation path",
 [PS,RULE,PAT,E],[("nested selector argument parsing",PAT),("pseudo_not / pseudo_has / pseudo_contains / checked / header / input / submit","src/mesdoc/rules/pseudo.rs")],["Elements::find/filter"])
p("C04","filter, is, is_all, not, has and closest agree with per-element matching",
 "For every element set and selector, `filter` keeps exactly the elements matching the selector (evaluated against the whole document, so ancestors in the selector may lie outside the set), `not` keeps exactly the rest, `is`/`is_all` say whether some/every element matches, `has` keeps exactly the elements with some descendant that matches in the whole document, and `closest` gives the nearest matching self-or-ancestor of each element, each once, in document order. The results keep the order of the input set, and the `_by` variants agree with the same predicate applied element by element with its position.",
 ["inputs"],"every document, every element set, every selector including combinators and groups",
 "filter runs a different evaluation strategy from find (right-to-left per element), which the tests exercise on a handful of sets",
 [E,SEL],[("filter_type_handle and its per-segment ancestor checks",E),("closest",E)],["Elements::filter/is/is_all/not/has/closest and *_by"])
p("C05","Traversal returns exactly the related elements, once each, in document order",
 "For every element set, `children`, `parent`, `parents`, `siblings`, `next`, `next_all`, `prev`, `prev_all` and the `*_until` methods return exactly the elements standing in that relation to some member of the set and matching the optional selector, without duplicates and in document order. `contains` and the single-element accessors (element siblings, children, child nodes, index, parent) describe the same tree, and the `*_until` methods stop at the first match of the stop selector, including it only when asked.",
 ["inputs"],"every document, every (also nested or unordered-by-depth) element set, every optional filter and stop selector",
 "the tests call these methods on single elements or flat sibling lists; sets whose members are nested in or siblings of one another take other paths",
 [E,EL],[("select_by_rule branches per relation",E),("until loops",E),("sibling walks in the element trait",EL)],["Elements::*","IElementTrait::*"])
p("C06","Element sets behave as ordered sets",
 "For all element sets A and B of one document, `A.add(B)` is their union in document order without duplicates, `filter_in`, `not_in`, `is_in`, `is_all_in` and `has_in` are intersection, difference, overlap, inclusion and has-descendant-in, and these do not depend on the internal order in which B was built. `eq`, `first`, `last`, `slice`, `get`, `length`, `is_empty`, `map`, `for_each` and iteration agree with the sequence of elements, for every index and range, also out of bounds and on empty sets, and no operation changes its operands or the document.",
 ["inputs"],"every pair of subsets of every document, every index and range",
 "add is a merge with many position cases (before, after, interleaved, nested); tests take a few pairs",
 [E],[("add: split and merge by document position",E),("sort / unique / compare_indexs",E),("slice",E)],["Elements::add/slice/filter_in/not_in/..."])
p("C07","Loading and serialising preserve the document; loading never panics",
 "Loading well-formed HTML yields exactly the tree it denotes (elements, attributes, text, comments, doctype, in order), and `outer_html`, `html`, `htmls`, `outer_htmls` and the document's source code reproduce markup that loads back to the same tree, so serialising is a fixed point after one round (known finding: entities in the content of title and textarea). `Vis::load` also takes an unescaped `<` in a text as text, ignores stray end tags and closes what is still open at the end of the input. For every string, loading returns either a document or an error and never panics, and the returned document can be traversed, queried and serialised.",
 ["inputs"],"every well-formed tree of elements, void and content tags, attributes, texts, comments; and every string, however malformed",
 "tests parse a few dozen documents, nearly all well-formed",
 [L,E],[("Vis::load / options",L),("inner_html / outer_html / source_code",L)],["Vis::load","Elements::html/outer_html","IDocumentTrait::source_code"])
p("C08","Text in, text out: text() decodes, set_text() stores text and never markup",
 "`text()` of an element set is the concatenation of the entity-decoded text of all its text descendants in document order, and comments and attributes never contribute. For every string s, after `set_text(s)` on an element other than a void one `text()` returns s, the element has no element children, and serialising and loading the document again still gives text s there and the same tree everywhere else (in script, style, title and textarea: for every s without markup and entity characters).",
 ["inputs","histories"],"every document, every string including markup and entity look-alikes, quotes and non-ASCII characters",
 "tests set a few literal strings",
 [L,E],[("text_contents / set_text with entity encoding",L)],["Elements::text/set_text/html"])
p("C09","Attributes behave as a case-insensitive ordered map that survives serialisation",
 "After any sequence of `set_attr` and `remove_attr` calls, `attr`, `has_attr`, the attribute list, attribute selectors and the serialised-and-reloaded document all show the same name-to-value map, with names compared case-insensitively, the last value set winning (up to the entity that stands for a quote character in the markup), a valueless attribute distinct from an absent one, and every other attribute and element unchanged. Writes to a set of several elements affect all of them, `attr` reads the first, and `has_attr` says whether some element has it.",
 ["inputs","histories"],"every call sequence, attribute names in any letter case, values with spaces, quotes, `=`, `>`, `<`, `/`, empty or none",
 "tests check single calls; quoting, replacement and case handling interact across calls and with the serialiser",
 [L,E],[("set_attribute / remove_attribute / get_attribute(s)",L),("Elements::attr/set_attr/remove_attr",E)],["Elements::attr","IElementTrait::get_attributes","outer_html"],[("lc_name_map","lower-cased attribute name to index in the attribute list","rphtml Tag meta used by src/lib.rs")])
p("C10","Class operations behave as a set of class names",
 "After any sequence of `add_class`, `remove_class` and `toggle_class` calls with any whitespace-separated names, in any order and with repetitions, `has_class`, the class selector and the serialised-and-reloaded document agree with a set of class names: added names are present, removed names are absent, each distinct toggled name is flipped once, all others are untouched and no name is listed twice because it was added twice. Other attributes never change.",
 ["inputs","histories"],"every initial class attribute (absent, valueless, empty, repeated names, any ASCII whitespace) and call sequence, on sets of several elements",
 "tests use one or two calls with names in source order",
 [E,UT],[("add_class / remove_class / toggle_class",E),("retain_by_index",UT)],["Elements::has_class/attr","find(.name)"])
p("C11","Insertion and replacement move nodes exactly as the DOM model says",
 "After any sequence of `append`, `append_to`, `prepend`, `prepend_to`, `before`, `insert_before`, `after`, `insert_after` and `replace_with`, with elements of the same document, of another document or freshly loaded fragments, every node is at the position a DOM tree model gives it: moved nodes leave their old place, multi-element content keeps its order, the replaced element is gone (replacing with nothing changes nothing) and everything else stays put; with several targets existing elements end up at the last target while a fragment's content is put at every target. Operations that would create a cycle or put content where it is not allowed leave the document unchanged, and parent, child, index and sibling links always describe one consistent tree.",
 ["inputs","histories"],"every document and every operation sequence, including targets and content that contain one another, were moved before, or are siblings",
 "tests insert once into a fresh document; index maintenance and stale parents show only over sequences",
 [L,E],[("insert_adjacent / replace_with / validate_dom_change",L),("Elements::insert",E),("reset_next_siblings_index",L)],["outer_html","children/parent/index/siblings"],[("index/parent of a node","position in its parent","rphtml Node used by src/lib.rs")])
p("C12","remove, empty, set_html and set_text change exactly the named subtree",
 "After `remove`, the removed elements and their subtrees are no longer reachable from the document and all other nodes keep their order and links; after `empty` or `set_html(h)` the element's content is empty or exactly the nodes that h denotes, with nothing else changed. This holds for nested or overlapping element sets, after earlier mutations, and for handles obtained before the change: removing an element that is already out of the document changes nothing.",
 ["inputs","histories"],"every document, element set and operation sequence",
 "tests remove or replace once on fixed documents",
 [L,E],[("remove_child and index renumbering",L),("Elements::remove/empty",E),("set_html",L)],["outer_html","find","children/index"])
p("C13","A mutated document answers queries like the same document freshly loaded",
 "After any history of mutations (insertions, moves, removals, replacements, attribute, class, text and HTML changes), every query on the live document returns the elements at the same positions as the same query on the document obtained by serialising and loading it again. This includes id, class, attribute and structural selectors, traversal, filtering by selectors with ancestors, form values, texts and lookup by id through the document.",
 ["histories","inputs"],"every mutation history and every query",
 "tests never compare a mutated document to a reloaded one; caches built at load time (ids, owner document, indexes) go stale only after mutations",
 [L,E,ID],[("index and parent maintenance",L),("owner_document / root pointer",L),("id lookup","src/mesdoc/rules/id.rs")],["find/filter/closest/val/text on live vs reloaded"],[("id index of the document","id to node","rphtml Doc used by src/lib.rs")])
p("C14","Copies are deep and independent",
 "A clone or copy of an element set has the same serialisation, text, attributes and structure as the original, is not the same node as any node of the original and has no parent. Any sequence of mutations on the copy leaves the original document unchanged, and any mutation of the original leaves the copy unchanged.",
 ["inputs","histories"],"every subtree and every later mutation of either side",
 "tests clone once and check one value",
 [L,E,EL],[("copy_node / copied / clone",L),("impl Clone for Elements",E)],["outer_html of both sides"])
p("C15","Text-node collection and text-node edits touch exactly the intended text",
 "`texts(depth)` returns exactly the text nodes down to the given depth (0 meaning all), in document order, and `texts_by` and `texts_by_rec` exactly those accepted by the predicates, skipping the subtrees the recursion predicate rejects. `append_text`, `prepend_text`, `set_text`, `set_html` and `remove` on any of them, in any sequence, change that text (or replace it by the given nodes) and nothing else in the document. `texts` of a set collects for each element in turn, the content of script, style, title and textarea counting as one text.",
 ["inputs","histories"],"every document, depth limit, predicate and edit sequence",
 "tests edit all texts of one list at once",
 [L,"src/mesdoc/interface/texts.rs",E],[("texts_by_rec",L),("text remove/append/prepend/set_html",L)],["Elements::texts*","Texts::for_each/filter_by/remove","html/text"])
p("C16","val() gives the form value of the first element",
 "For every document, `val()` is the value attribute for input and option, the content for textarea, the value of the first selected option in document order (else of the first option directly inside the select) for a single select, and the list of the values of all selected options in document order for a multiple select, also when options sit in optgroups. Other elements and empty sets give an empty value.",
 ["inputs","histories"],"every form tree: options in or out of optgroups, any selected pattern, any attribute state",
 "tests use two or three selects",
 [L,E],[("value / collect_option_values",L)],["Elements::val"])
p("C17","Bad input is reported, never fatal, and leaves the library usable",
 "For every string given as a selector to any method that takes one, the call returns without panicking; if the selector is invalid the result is empty (or false), the document's error handler is told (for a non-empty set), and the document is unchanged. After any number of such calls, in the same or another thread, all later queries still give correct answers, and misuse of other operations (self-insertion, empty text, wrong node kinds) is reported the same way.",
 ["inputs","fault_sequences","histories"],"every string, every selector-taking method, every element set including the empty one, every interleaving of bad and good calls",
 "tests try a few bad selectors, once each, in a process that ends right after",
 [SEL,RULE,PAT,E],[("Selector::from_str error paths under global locks",SEL),("trigger_method_throw_error",E)],["Elements::*","Vis::load_catch handler"],[("global rule and splitter tables","shared parser state behind locks","src/mesdoc/selector/rule.rs")])
p("C18","Independent documents in different threads do not disturb one another",
 "Threads that each load and query their own documents get exactly the answers they would get alone, for every interleaving, from the first use of the library on, and none of them blocks forever. This also holds while other threads pass invalid selectors.",
 ["schedules","inputs"],"every schedule of threads that load, query and mutate their own documents, including races on first initialisation",
 "one test spawns threads with one selector",
 [RULE,PAT,SEL,"src/mesdoc/mod.rs"],[("lazy global RULES / PATTERNS / SPLITTER behind Mutex/RwLock",RULE),("mesdoc::init","src/mesdoc/mod.rs")],["results per thread"],[("RULES, PATTERNS, SPLITTER","process-wide parser tables","src/mesdoc/selector/")])
p("C19","Document accessors describe the current document",
 "For every document, at load time and after any mutation, `get_element_by_id` gives the first element in document order with that id (none when there is none), `document_element`, `head` and `body` the first html, head and body element, `title` the text of the title elements in the first head, `source_code` the current markup and `get_root_node` the root. Every element of the document leads to that same document.",
 ["inputs","histories"],"every document with or without these elements, duplicate ids, and every mutation before the call",
 "tests call the accessors once on a complete document right after loading",
 [L,"src/mesdoc/interface/document.rs",ID],[("IDocumentTrait default methods","src/mesdoc/interface/document.rs"),("Document::get_element_by_id / owner_document",L)],["Elements::document() -> IDocumentTrait"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import sys
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
