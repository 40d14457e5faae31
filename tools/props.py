TECH = "property-based testing: random generation with shrinking against "
PENDING = {}
PROPS = []

def P(id, title, statement, over, quant, why, files, mech, observe, tech, note, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, observe=observe, tech=TECH + tech, note=note, state=state or []))

LIM = " Random exploration: a violation outside the generated distribution or the case budget is not seen."

P("D01", "Parsing builds exactly the tree a well-formed document describes",
  "For every well-formed document, parsing succeeds and the tree has exactly the elements, attributes (names, values, order), text, comments, processing instructions and declaration the document spells, in document order. The spelling does not matter: quotes, white space inside tags, line-end convention, entity and character references, CDATA sections, empty-element tags and a DOCTYPE give the same tree as the plain spelling.",
  ["inputs"], "all well-formed XML documents without user-defined entities, over all XML 1.0 names and characters, in any spelling",
  "unit tests parse about a dozen fixed documents; names outside ASCII/CJK, nested references, CR line ends and most combinations are never parsed",
  ["src/dom.rs", "src/sax.rs"],
  [("new_document builds the tree from decoder tokens", "src/dom.rs new_document"), ("tokeniser and name tables", "src/sax.rs raw_token, get_name, is_letter..is_extender"), ("reference decoding", "src/sax.rs decode_entity, decode_reference")],
  ["new_document", "NodePtr::children", "NodePtr::attributes", "NodePtr::value"],
  "a model document rendered with random surface syntax",
  "Each generated model tree is rendered in a random spelling, parsed, and the DOM compared node by node with the model." + LIM)

P("D02", "Serialising a document and parsing it again gives the same document",
  "For every document tree, serialising it and parsing the text yields an equal tree; the second serialisation is identical to the first, and every subtree and inner text serialises to exactly its own markup. Characters that are special in markup survive in text and attribute values.",
  ["inputs"], "all document trees, over all XML characters in text and attribute values",
  "tests compare a few fixed serialisations; escaping must be right for every character in every position",
  ["src/dom.rs", "src/sax.rs"],
  [("serialiser", "src/dom.rs to_string_with_indent"), ("escaping", "src/dom.rs encode_entity"), ("decoding", "src/sax.rs decode_entity")],
  ["NodePtr::to_string", "NodePtr::inner_xml", "new_document"],
  "round trip parse/serialise and a canonical printer of the model",
  "Round trip plus comparison with an independent canonical printer for the document and each of its nodes." + LIM)

P("D03", "Pretty-printing changes only white space",
  "For every document and every node in it, the pretty-printed form has one node per line, indented by depth in steps of four spaces, escaped as in plain serialisation, and parses back to the same tree up to white space at the edges of text nodes.",
  ["inputs"], "all documents and all their nodes",
  "the tests pretty-print two or three fixed documents",
  ["src/dom.rs"], [("indenting serialiser", "src/dom.rs to_string_with_indent")],
  ["NodePtr::to_pretty_string"],
  "an independent pretty-printer of the model and re-parsing",
  "Exact text comparison with a reference printer, and re-parse up to edge white space." + LIM)

P("D04", "The parser never panics or hangs and rejects malformed documents",
  "For every string whatsoever, parsing terminates and returns a tree or an error, without panicking, looping or consuming unbounded memory. A document cut off inside its root element, or carrying a fatal damage such as a mismatched or stray end tag, an unclosed comment, CDATA section, processing instruction, tag or attribute value, a missing name or '=', text inside an end tag, a duplicate attribute, an instruction without a target or a NUL character, is rejected with an error.",
  ["inputs"], "all strings; all truncations and single damages of well-formed documents",
  "tests cover a handful of malformed documents; the parser must stop on every one of them",
  ["src/dom.rs", "src/sax.rs", "src/xmlerror.rs"],
  [("token loop", "src/sax.rs raw_token"), ("nesting check", "src/dom.rs new_document")],
  ["new_document", "SaxDecoder::new", "SaxDecoder::raw_token"],
  "a catalogue of fatal damages (must be rejected), mutation fuzzing (must return) and an independent recogniser of the markup structure (accepted text must be well formed by it)",
  "Crashes, hangs and memory exhaustion are caught by running cases in child processes with CPU and memory limits." + LIM)

P("D05", "The SAX decoder reports exactly the tokens of the document",
  "For every well-formed document the decoder reports, in order, exactly one event per start tag (name and attributes, decoded), end tag (also for empty-element tags), run of character data (decoded), CDATA section, comment, processing instruction and directive, then end of document, and keeps reporting end of document afterwards.",
  ["inputs"], "all well-formed documents in any spelling",
  "the tests decode a few fixed documents",
  ["src/sax.rs"], [("tokeniser", "src/sax.rs raw_token"), ("pending end tag of an empty-element tag", "src/sax.rs SaxDecoder")],
  ["SaxDecoder::raw_token"],
  "the token list recorded while rendering a model document",
  "Token by token comparison with the list produced by the renderer." + LIM)

P("D06", "Navigation, identity and document order agree with the tree",
  "For every node of every document, its parent, root, root element, children, n-th child, first child, attributes, node type, name and value are those of the tree position it denotes, equality of handles is identity of nodes, and document order is a strict total order: parents first, then attributes, then children in order.",
  ["inputs"], "all documents and all their nodes, including attribute nodes",
  "tests look at a few nodes of fixed documents",
  ["src/dom.rs"], [("navigation", "src/dom.rs root, parent, children, nth_child, root_element"), ("document order numbering", "src/dom.rs setup_document_order_sub")],
  ["NodePtr navigation methods", "NodePtr::document_order", "NodePtr =="],
  "a model tree with explicit positions",
  "All nodes of each generated document are compared with the model." + LIM)

P("D07", "Names split into prefix and local part and resolve to in-scope namespaces",
  "For every element and attribute, the name is prefix, colon and local part; the namespace URI of an element or prefixed attribute is the value of the nearest in-scope declaration of its prefix (or of the default namespace for an unprefixed element), the fixed one for the prefix xml, and empty when there is none, for unprefixed attributes and for nodes without a name. This holds again after declarations are changed and elements are moved.",
  ["inputs", "histories"], "all nestings of default and prefixed namespace declarations, redeclarations and undeclarations, and all edits of them",
  "the tests resolve two fixed prefixes",
  ["src/dom.rs"], [("lookup along ancestors", "src/dom.rs namespace_uri, space_name, local_name")],
  ["NodePtr::namespace_uri", "NodePtr::local_name", "NodePtr::space_name"],
  "a reference resolution over the model tree",
  "Every element and attribute of each generated document is resolved by the model and by the library, again after each of up to three edits." + LIM)

P("D08", "Tree editing follows a reference tree through every history",
  "Through every sequence of appending, inserting before or after, deleting and replacing nodes, the document equals what the operations say: the new node is in the requested place exactly once, deleted nodes are detached, nothing else changes, and parent, root, sibling navigation, document order and serialisation stay consistent with each other. Handles obtained earlier keep denoting their node, and operations that cannot apply have no effect; none of them panics, also when the rest of the document is gone. All of this holds in trees taken out of a document, too.",
  ["histories"], "all histories of editing operations on all documents, with handles kept across operations",
  "tests perform one or two edits on fixed documents and look only at the serialisation",
  ["src/dom.rs"], [("editing operations", "src/dom.rs append_child, insert_as_previous_sibling, insert_as_next_sibling, delete_child, replace_with"), ("order invalidation", "src/dom.rs clear_document_order")],
  ["NodePtr editing methods", "NodePtr::to_string", "NodePtr::parent", "NodePtr::document_order"],
  "a stateful model forest compared after the operations",
  "Model-based histories over several trees; all of them are compared after one or several operations." + LIM,
  [("parent", "weak link to the parent node", "src/dom.rs Node.parent"), ("document_order", "cached order number, cleared by edits", "src/dom.rs Node.document_order")])

P("D09", "Attributes of an element behave as an ordered map through every history",
  "Through every sequence of setting, deleting and reading attributes, an element's attributes are an insertion-ordered map from name to value: setting a new name appends it, setting an existing one changes only its value in place, deleting removes exactly that name, deleting a missing one and operations on other elements change nothing, nodes that are not elements never get attributes, and a removed attribute no longer has a parent.",
  ["histories"], "all histories of attribute operations on several elements, over all names and values",
  "tests set and delete one or two attributes",
  ["src/dom.rs"], [("attribute list", "src/dom.rs attribute_value, set_attribute, delete_attribute, find_attribute_index")],
  ["NodePtr::attribute_value", "NodePtr::attributes", "NodePtr::set_attribute", "NodePtr::delete_attribute"],
  "an insertion-ordered map per element",
  "Model-based histories, also observed through serialisation and XPath." + LIM)

EV = ["src/xpath_impl/eval.rs", "src/xpath_impl/parser.rs", "src/xpath_impl/lexer.rs"]
TESTED = "the tests evaluate a fixed list of short expressions on a handful of documents; "

P("X01", "Every axis selects exactly the nodes the data model says",
  "For every document, context node, axis and node test, a step selects exactly the nodes of the XPath data model on that axis (child, descendant, parent, ancestor, siblings, following, preceding, attribute, self and the or-self variants) that pass the node test (name, wildcard, prefix or local-name wildcard, kind test), each once, in document order; also from attributes, text, comments, processing instructions and the document node.",
  ["inputs"], "all documents, all context nodes of every kind, all 12 axes, all node tests",
  TESTED + "most axes are tested from one element of one document",
  EV, [("axis functions", "src/xpath_impl/eval.rs evaluate_step, axis table"), ("node tests", "src/xpath_impl/eval.rs match_node_test")],
  ["NodePtr::eval_xpath", "Sequence::get_item", "Item::as_nodeptr"],
  "set definitions of the axes over an independent model of the tree",
  "Node identity of every selected node is compared with the model." + LIM)

P("X02", "Predicates filter by position and effective boolean value",
  "For every step, path or sequence, a predicate keeps exactly the items for which it is true: a numeric value selects the item at that position (counted along the axis, so backwards on reverse axes, and in sequence order on parenthesised expressions), anything else counts by its effective boolean value; position() and last() are those of the filtered sequence, several predicates apply one after the other, and predicates nest.",
  ["inputs"], "all documents, steps, sequences and nestings of predicates",
  TESTED + "positions on reverse axes, chained predicates and predicates inside predicates combine in unboundedly many ways",
  EV, [("predicate evaluation", "src/xpath_impl/eval.rs filter_by_predicate(s)"), ("context stack for position() and last()", "src/xpath_impl/eval.rs EvalEnv")],
  ["NodePtr::eval_xpath"],
  "a reference interpreter written from the XPath recommendation",
  "Differential against the reference interpreter." + LIM)

P("X03", "Path and set expressions give nodes in document order without duplicates",
  "For every path, the result is the set of nodes reached, in document order and without duplicates, whatever order or multiplicity the steps reach them in; union, intersect and except are the set operations on node identity in document order; `is`, `<<` and `>>` compare identity and document order; a path from a value that is not a node, or mixing nodes with values, is an error.",
  ["inputs"], "all documents and all combinations of steps, // abbreviations, set operators and simple maps",
  TESTED + "duplicates and disorder only show up when several steps overlap",
  EV + ["src/xpath_impl/oper.rs"], [("path evaluation, sorting and removal of duplicates", "src/xpath_impl/eval.rs evaluate_path_expr"), ("set operators", "src/xpath_impl/oper.rs union, intersect, except"), ("node comparisons", "src/xpath_impl/oper.rs")],
  ["NodePtr::eval_xpath"],
  "a reference interpreter that works on sets of node numbers",
  "Differential against the reference interpreter, by node identity." + LIM)

P("X05", "Arithmetic follows the XPath numeric types and rules",
  "For all operands, + - * div idiv mod and unary signs give the value and the type (integer, decimal, double) the XPath recommendation prescribes, with its promotion rules, operator precedence and associativity; integer overflow and division by an integer or decimal zero are errors, doubles follow IEEE 754, an empty operand gives the empty sequence, and operands that are not single numbers are errors. Nothing panics.",
  ["inputs"], "all operand values of all types and all nestings of operators",
  TESTED + "the 64-bit bounds, zeros, infinities and mixed types are not among them",
  ["src/xpath_impl/oper.rs", "src/xpath_impl/xitem.rs"], [("operators", "src/xpath_impl/oper.rs"), ("numeric promotion", "src/xpath_impl/oper.rs")],
  ["NodePtr::eval_xpath", "Sequence::to_string"],
  "a reference interpreter with 64-bit integers and IEEE doubles",
  "Differential on values and types. Decimals are IEEE doubles, as the library documents." + LIM)

P("X06", "Value, general and node-value comparisons follow the XPath rules",
  "For all operands, value comparisons compare single atomic values of comparable types (numbers by value, strings by code point, booleans false before true; NaN is equal to nothing), give the empty sequence for an empty operand and an error for incomparable types; general comparisons are existential over both operand sequences.",
  ["inputs"], "all pairs of sequences of nodes and atomic values, all 12 operators",
  TESTED + "the tests compare a few constants",
  ["src/xpath_impl/oper.rs", "src/xpath_impl/xitem.rs"], [("value comparison", "src/xpath_impl/oper.rs value_compare"), ("general comparison", "src/xpath_impl/oper.rs general_compare")],
  ["NodePtr::eval_xpath"],
  "a reference interpreter",
  "Differential. A general comparison of values of different types is taken to be false, as the library's tests pin it." + LIM)

P("X07", "Effective boolean values, logic, conditionals and quantifiers",
  "For every value, its effective boolean value is that of the XPath recommendation (an error where there is none), and and, or, not(), boolean(), if, some and every follow from it: if evaluates to the chosen branch, some/every range over all combinations of their bindings, later bindings seeing earlier ones.",
  ["inputs"], "all sequences of all types and all nestings of the operators",
  TESTED + "mixtures of types, empty bindings and nesting are not covered",
  ["src/xpath_impl/eval.rs", "src/xpath_impl/xsequence.rs"], [("effective boolean value", "src/xpath_impl/xsequence.rs effective_boolean_value"), ("quantifiers and conditionals", "src/xpath_impl/eval.rs")],
  ["NodePtr::eval_xpath"],
  "a reference interpreter",
  "Differential against the reference interpreter." + LIM)

P("X08", "Variables are lexically scoped and functions are closures",
  "For every expression, a variable reference gives the value of the innermost enclosing for, let, some, every or parameter binding of that name, and is an error where there is none; for iterates in order over every combination; a function item keeps the bindings visible where it was written, whatever is bound where it is called, and a call binds exactly its parameters.",
  ["inputs"], "all nestings of bindings, shadowing, closures and calls",
  TESTED + "shadowing, several bindings with the same name and functions called outside their scope are not covered",
  ["src/xpath_impl/eval.rs", "src/xpath_impl/func.rs"], [("variable stack", "src/xpath_impl/eval.rs EvalEnv set_var, get_var, remove_var"), ("closures and calls", "src/xpath_impl/eval.rs call_function, new_closure"), ("for, let, quantifiers", "src/xpath_impl/eval.rs evaluate_xnode")],
  ["NodePtr::eval_xpath"],
  "a reference interpreter with linked environments",
  "Differential against the reference interpreter on integer programs that reuse few names." + LIM)

P("X09", "Sequence functions and ranges select by exact position",
  "For all sequences and positions (negative, fractional, infinite, NaN, beyond 32 bits), head, tail, reverse, insert-before, remove, subsequence, count, empty, exists, index-of, the cardinality checks, `to`, comma and positional filters give exactly the items, in the order, that the recommendation defines, nodes keeping their identity.",
  ["inputs"], "all item sequences and all numeric positions",
  TESTED + "each function has two or three constant calls",
  ["src/xpath_impl/func.rs", "src/xpath_impl/xsequence.rs", "src/xpath_impl/oper.rs"], [("sequence functions", "src/xpath_impl/func.rs fn_head .. fn_index_of"), ("range operator", "src/xpath_impl/oper.rs OperatorTo")],
  ["NodePtr::eval_xpath", "Sequence::get_item"],
  "a reference interpreter",
  "Differential; nested calls up to depth 3." + LIM)

P("X10", "String functions work on Unicode characters",
  "For all strings, the string functions (concat, ||, string-join, substring, string-length, normalize-space, upper- and lower-case, translate, contains, starts-with, ends-with, substring-before, substring-after, compare, codepoint-equal, codepoints-to-string, string-to-codepoints, string) count, cut, search and map Unicode characters, never bytes, with the rounding and empty-argument rules of the recommendation.",
  ["inputs"], "all strings over XML characters, all positions and lengths",
  TESTED + "nearly all test strings are ASCII and positions small and positive",
  ["src/xpath_impl/func.rs"], [("string functions", "src/xpath_impl/func.rs fn_concat .. fn_substring_after")],
  ["NodePtr::eval_xpath"],
  "a reference implementation over vectors of characters",
  "Differential. normalize-space is accepted in both readings (see DESIGN.md)." + LIM)

P("X11", "Numeric and aggregate functions follow the XPath numeric rules",
  "For all arguments, abs, ceiling, floor, round, number, count, sum, avg, max and min give the value and the type the recommendation defines, NaN, infinities, empty sequences, mixed types, untyped nodes and 64-bit limits included.",
  ["inputs"], "all sequences of numbers, strings, booleans, nodes and arrays",
  TESTED + "aggregates are tested with small integers only",
  ["src/xpath_impl/func.rs", "src/xpath_impl/xitem.rs"], [("numeric functions", "src/xpath_impl/func.rs fn_abs .. fn_round"), ("aggregates", "src/xpath_impl/func.rs fn_avg, fn_max, fn_min, fn_sum")],
  ["NodePtr::eval_xpath"],
  "a reference interpreter",
  "Differential on values and rendered types." + LIM)

P("X12", "Casts, castable and instance of agree with the type system",
  "For all values and the types string, integer, decimal, double and boolean, a cast gives the value of the recommendation or an error, castable is true exactly when the cast succeeds, and instance of is true exactly for sequences whose items and cardinality match the sequence type, for atomic types and their hierarchy, node kinds with names, maps and arrays with member types, and empty-sequence().",
  ["inputs"], "all values, cast targets and sequence types",
  TESTED + "the tests cast a few constants per type",
  ["src/xpath_impl/xitem.rs", "src/xpath_impl/xsequence.rs", "src/xpath_impl/func.rs"], [("casts", "src/xpath_impl/xitem.rs cast_as, parse_integer, parse_decimal, parse_double"), ("sequence types", "src/xpath_impl/eval.rs match_sequence_type")],
  ["NodePtr::eval_xpath"],
  "a reference interpreter with its own type hierarchy",
  "Differential, lexical forms generated around the border of validity." + LIM)

P("X13", "Maps and arrays hold and return exactly the members put into them",
  "For every map or array built by constructors, lookup by name, number, expression or wildcard, calls, map:keys, map:contains, map:get, map:size, array:get, array:size and array:flatten give exactly the members put in, keys compared by value and type, in constructor order, whatever expression or keyword-like name the key is written as; missing keys give nothing, positions out of range and duplicate keys are errors.",
  ["inputs"], "all nestings of maps, arrays and sequences and all keys",
  TESTED + "lookups on sequences of maps, nested members, numeric keys of several types are not covered",
  ["src/xpath_impl/xitem.rs", "src/xpath_impl/eval.rs", "src/xpath_impl/func.rs"], [("map and array items", "src/xpath_impl/xitem.rs map_get, array_get, map_append"), ("lookup", "src/xpath_impl/eval.rs lookup_by_keys, UnaryLookup"), ("constructors", "src/xpath_impl/eval.rs convert_xnode_to_map_array")],
  ["NodePtr::eval_xpath"],
  "a reference interpreter",
  "Differential." + LIM)

P("X14", "Function items, partial application, arrows and higher-order functions agree",
  "For every function item (named reference, inline function, partial application, map, array, result of another call), calling it directly, through a variable, through for-each, filter or the arrow operator applies the same function to the same arguments in the same order; placeholders are filled from left to right.",
  ["inputs"], "all combinations of function items and ways to call them",
  TESTED + "a handful of constant higher-order calls are tested",
  ["src/xpath_impl/eval.rs", "src/xpath_impl/func.rs", "src/xpath_impl/parser.rs"], [("function calls", "src/xpath_impl/eval.rs call_function, ApplyArgument, evaluate_function"), ("higher-order functions", "src/xpath_impl/func.rs fn_for_each, fn_filter"), ("arrow", "src/xpath_impl/parser.rs parse_arrow_expr")],
  ["NodePtr::eval_xpath"],
  "a reference interpreter",
  "Differential." + LIM)

P("X18", "Node functions report the node's own names, namespace, value and language",
  "For every node of every kind, name, local-name, namespace-uri, root, string, data, number, nilled and lang, with an argument or on the context item, report exactly what the document says: namespaces as in scope, xml:lang of the nearest ancestor, the empty string where a node has no name.",
  ["inputs"], "all documents with namespaces and languages, all nodes",
  TESTED + "each function is tested on one or two elements",
  ["src/xpath_impl/func.rs", "src/dom.rs"], [("node functions", "src/xpath_impl/func.rs fn_name .. fn_lang"), ("namespaces", "src/dom.rs namespace_uri")],
  ["NodePtr::eval_xpath"],
  "a reference interpreter over the model tree",
  "Differential." + LIM)

P("X15", "The way an expression is written does not change its meaning",
  "For every expression, white space, newlines, nested comments, redundant parentheses, abbreviated or full steps (@, //, .., .), quotes and names that look like keywords or operators change neither the result nor whether it is an error.",
  ["inputs"], "all expressions in all spellings, over documents whose names include keywords, operators, digits, dots, hyphens and non-ASCII letters",
  TESTED + "each is written in one way",
  EV, [("token boundaries, operator or name", "src/xpath_impl/lexer.rs Lexer::new, operator_word"), ("comments and white space", "src/xpath_impl/lexer.rs skip_spaces, skip_comment"), ("abbreviations", "src/xpath_impl/parser.rs parse_axis_step")],
  ["NodePtr::eval_xpath"],
  "metamorphic: four spellings of one expression, and a reference interpreter",
  "Differential against the reference interpreter and between spellings." + LIM)

P("X16", "Any text given as a query gives a result or an error",
  "For every text and context node, each query method returns a result or an error, all of them agree which, none panics, hangs or exhausts the stack (up to 200 levels of nesting), the document stays unchanged; a text that is not an XPath expression (unbalanced or missing brackets, missing operands or keywords, unclosed literals or comments, trailing text) is an error.",
  ["inputs"], "all texts; for the rejection part, valid expressions with one of 60 kinds of damage, and any text at all against a recogniser of the XPath 3.1 grammar",
  "the tests contain a few dozen malformed expressions",
  EV, [("lexer", "src/xpath_impl/lexer.rs"), ("parser", "src/xpath_impl/parser.rs parse_main"), ("entry points", "src/xpath_impl/eval.rs, src/xpath.rs")],
  ["NodePtr::eval_xpath", "NodePtr::get_nodeset", "NodePtr::get_first_node", "NodePtr::each_node"],
  "totality, agreement of the query methods, a catalogue of definite syntax errors and an independent recogniser of the XPath grammar (an accepted text must be grammatical)",
  "Token soup, mutation, damage of valid expressions, nesting. Not run: long ranges and functions that may call themselves without end, which XPath lets run forever." + LIM)

P("X17", "Results are rendered and accessed item by item",
  "For every result, Sequence::len and get_item give exactly its items, to_string renders each item in the documented form (strings quoted, integers, decimals, doubles, booleans, nodes as markup, maps and arrays with their members) and the sequence as their list, and as_nodeptr gives the very node for a node item and None otherwise.",
  ["inputs"], "all sequences of numbers, strings, booleans, nodes, arrays and maps, nested",
  TESTED + "and compare their renderings only",
  ["src/xpath_impl/xsequence.rs", "src/xpath_impl/xitem.rs", "src/xpath.rs"], [("rendering", "src/xpath_impl/xitem.rs fmt::Display"), ("access", "src/xpath_impl/xsequence.rs get_item")],
  ["Sequence::to_string", "Sequence::len", "Sequence::get_item", "Item::as_nodeptr"],
  "an independent renderer over the reference interpreter's values",
  "Differential." + LIM)

P("X04", "The query methods agree on the nodes of a result",
  "For every expression and context node, get_nodeset gives exactly the nodes of the result of eval_xpath in its order, get_first_node the first of them or None, each_node visits the same nodes in the same order, even when its callback edits the document; all fail together; the nodes are the document's own nodes and a query works although no other handle of the document is kept.",
  ["inputs"], "all documents, context nodes and expressions, results with nodes in any order, repeated and mixed with other items",
  TESTED + "mostly through get_nodeset or get_first_node alone",
  ["src/xpath.rs", "src/xpath_impl/eval.rs", "src/xpath_impl/xsequence.rs"], [("query methods", "src/xpath.rs XPath impl for NodePtr"), ("nodes of a sequence", "src/xpath_impl/xsequence.rs to_nodeset")],
  ["NodePtr::get_nodeset", "NodePtr::get_first_node", "NodePtr::each_node", "NodePtr::eval_xpath"],
  "agreement with eval_xpath, itself compared with a reference interpreter",
  "Differential and metamorphic." + LIM)

P("X19", "Queries are repeatable and leave the document unchanged",
  "For every document and every series of queries in any order, a query gives the same result each time it is asked, whatever was asked before; serialisations and node identities of the document are the same after the queries; an equal document gives equal results.",
  ["histories"], "all series of queries on one document and on two equal documents",
  "the tests ask each query once on a fresh document",
  ["src/xpath.rs", "src/xpath_impl/eval.rs", "src/dom.rs"], [("environment of one evaluation", "src/xpath_impl/eval.rs EvalEnv"), ("document order", "src/dom.rs document_order")],
  ["NodePtr::eval_xpath", "NodePtr::to_string"],
  "metamorphic: repetition, order, equal documents",
  "Every query is also compared with the reference interpreter." + LIM)

P("D10", "Queries see every edit of the document",
  "Through every interleaving of DOM edits (append, insert before or after, move, delete, set and delete attributes, subtrees of other documents) with queries, each query answers for the tree as it is at that moment: axes, document order, node identity, duplicates and set operators are those of the edited tree.",
  ["histories"], "all interleavings of edits and queries",
  "no test queries a document, edits it and queries again beyond a single edit",
  ["src/dom.rs", "src/xpath_impl/eval.rs"], [("edits", "src/dom.rs append_child, insert_as_previous_sibling, insert_as_next_sibling, delete_child, set_attribute"), ("document order", "src/dom.rs document_order")],
  ["NodePtr::eval_xpath", "NodePtr::append_child", "NodePtr::delete_child"],
  "a reference interpreter over a snapshot of the live tree taken through the DOM interface",
  "Stateful generation; the DOM edits themselves are decided by D06 to D09." + LIM)

P("D11", "The program prints the pretty form of its file",
  "The program, run with the name of a file that holds an XML document in UTF-8, whatever the name and the document, prints exactly the pretty form of the document and a line end, and ends with status 0. Run with a file that is malformed, is not UTF-8, does not exist or is a directory, with no argument, or with an output that cannot be written, it prints nothing but a message on the error stream and ends with status 1, without panicking. It never changes the file or leaves another one behind.",
  ["inputs"], "all files and file names",
  "no test runs the program",
  ["src/main.rs", "src/dom.rs"], [("program", "src/main.rs main, pretty_print")],
  ["amxml (program)"],
  "an own indenting serialiser over the generated document (plain spelling), the library's parser and serialiser in the same process (any spelling)",
  "Process runs in a scratch directory; the program is built from src/main.rs in a package of its own." + LIM)

P("D12", "Nothing stays behind when the last handle is gone",
  "Whatever was done with one or two documents (queries that succeed or fail, results kept or not, edits, moves between the documents, printing, navigation, parsing and decoding of good and damaged texts), and in whatever order handles, documents and results are given up: when the last of them is gone, all memory that was allocated is released. Doing the same again leaves as much allocated as before.",
  ["histories"], "all histories of operations and orders of giving up handles",
  "no test looks at memory; a cycle of nodes or a forgotten node is invisible to them",
  ["src/dom.rs", "src/xpath_impl/eval.rs", "src/xpath_impl/parser.rs"], [("nodes", "src/dom.rs Node, parent (Weak), children (Rc)"), ("syntax trees", "src/xpath_impl/parser.rs XNode")],
  ["new_document", "NodePtr::eval_xpath", "NodePtr::append_child"],
  "a counting allocator: the bytes allocated and not released, per thread, before and after the second of two equal runs",
  "Stateful generation. Memory that a first run leaves behind once (tables, caches of a fixed size) is allowed." + LIM)

P("X20", "Typed function tests follow the subtype relation",
  "For every function item (inline functions with any declared types, references to built-in functions, partial calls, arrays, maps), instance of function(P1, …) as R and matching against a parameter of such a type are true exactly when the arity agrees, R is a supertype of the result type and each Pi a subtype of the parameter type, for all item types, kind tests, nested function, map and array types and occurrence indicators; built-in functions have the signatures of Functions and Operators.",
  ["inputs"], "all pairs of function items and function types",
  TESTED + "about forty pairs of types are tested, none with kind tests",
  EV + ["src/xpath_impl/func.rs"], [("subtype relation", "src/xpath_impl/eval.rs subtype, subtype_itemtype, derives_from"), ("function tests", "src/xpath_impl/eval.rs match_sequence_typed_function_test"), ("signatures", "src/xpath_impl/func.rs FUNC_SIGNATURE_TBL")],
  ["NodePtr::eval_xpath"],
  "an independent subtype relation and signature table",
  "Differential; types are generated near the type of the function, about two thirds of the tests are true." + LIM)

P("X21", "Inline functions convert arguments and results to their declared types",
  "A call of an inline function with declared parameter and result types (by dynamic call, arrow, for-each, from a variable or an array) applies the function conversion rules: nodes and arrays are atomized for atomic types, integers and decimals promoted to double where xs:double is required, subtypes accepted, and a value that does not match the type or its occurrence indicator after conversion is an error; never a silent wrong value.",
  ["inputs"], "all declared types and all values, from the right type to any value",
  TESTED + "no test declares a type that differs from the argument",
  EV, [("conversion", "src/xpath_impl/eval.rs convert_to_sequence_type"), ("call", "src/xpath_impl/eval.rs call_inline_func")],
  ["NodePtr::eval_xpath"],
  "an independent implementation of the function conversion rules",
  "Differential; arguments are generated from the type, near it, or at random, and results are examined through instance of, data, arithmetic and arrays." + LIM)

P("X22", "Built-in functions check and convert their arguments",
  "Every built-in function, called directly, through a named reference, a partial call, the arrow operator or a variable, with arguments of the declared types, near them, or of any type at all, gives the value Functions and Operators prescribes for those arguments after conversion, or an error; whichever way it is called the outcome is the same, and it never panics.",
  ["inputs"], "all built-in functions, all five ways of calling, arguments of every kind of item and cardinality",
  TESTED + "functions are tested with well-typed arguments",
  EV + ["src/xpath_impl/func.rs"], [("functions", "src/xpath_impl/func.rs FUNC_TBL, FUNC_CONTEXT_TBL, FUNC_SIGNATURE_TBL"), ("calls", "src/xpath_impl/eval.rs call_named_func, call_partial_func, call_function")],
  ["NodePtr::eval_xpath"],
  "an independent implementation of the functions",
  "Differential; arguments are generated from the signatures." + LIM)
P("X23", "An error says of what kind it is",
  "An expression with one fault gives an error whose message begins with the kind of the fault, from every query method: `Syntax Error in XPath:` for a text that is not an expression and for a call, reference, partial call or arrow of a function that does not exist or does not take that many arguments, wherever it stands and whether or not it would be evaluated; `Dynamic Error:` for division by zero, integer overflow, an index outside an array, duplicate map keys, an unbound variable, a number that is no code point or a cardinality that is not met; `Type Error:` for operands or arguments of the wrong type; one of these two for a cast of a string that is no such value. A fault of those last two kinds in a part that is not evaluated is no error. A feature or function that is not implemented is an error and never a wrong value. No expression gives the message of a fault of the library itself.",
  ["inputs"], "single faults of 29 kinds inside up to 4 of 24 constructs, unknown calls of 24 kinds in 5 forms, broken and mutated texts",
  TESTED + "the kind of an error is not looked at",
  ["src/xmlerror.rs"] + EV, [("kinds", "src/xmlerror.rs"), ("unknown functions", "src/xpath_impl/parser.rs parse_function_call, parse_arrow_expr")],
  ["NodePtr::eval_xpath", "NodePtr::get_nodeset", "NodePtr::each_node"],
  "the kind that the fault was generated with; the reference evaluator; an independent recogniser of the grammar",
  "Faults are generated with their kind." + LIM)
P("X24", "Operators and constructs accept operands of any type",
  "Every operator and construct (arithmetic, comparisons, and, or, ||, to, is, << and >>, union, intersect, except, !, unary signs, predicates, lookups, calls, if, quantifiers, for, paths, map and array constructors, casts, castable, instance of, arrows) applied to operands of any kind (atomic values, nodes, the empty sequence, longer and mixed sequences, arrays, nested and empty arrays, maps, functions) gives the value the recommendation prescribes after atomization and conversion, or an error where it prescribes one; nested in each other they compose.",
  ["inputs"], "all operators and constructs, operands of every kind of item and cardinality, nested to depth 3",
  TESTED + "operators are tested with operands of the types they are made for",
  EV + ["src/xpath_impl/oper.rs", "src/xpath_impl/xitem.rs", "src/xpath_impl/xsequence.rs"], [("operators", "src/xpath_impl/oper.rs"), ("evaluation", "src/xpath_impl/eval.rs evaluate_xnode"), ("atomization", "src/xpath_impl/xsequence.rs atomize")],
  ["NodePtr::eval_xpath"],
  "the reference evaluator",
  "Differential; operands are generated without regard to the operator." + LIM)
