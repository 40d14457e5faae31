//! The registry of properties.

use crate::core::*;
use crate::dprops;
use crate::mem;
use crate::xprops;
use crate::xprops2;
use crate::xprops3;
use crate::xprops4;
use crate::xprops5;
use crate::xprops6;
use crate::xprops7;
use crate::xprops8;

pub struct Fixed {
    pub key: String,
    pub run: Box<dyn Fn() -> Result<(), String>>,
}

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub rule: &'static str,
    pub run: PropFn,
    pub fixed: fn() -> Vec<Fixed>,
    pub quick: u64,
    pub thorough: u64,
    pub assumptions: &'static [&'static str],
}

pub fn none() -> Vec<Fixed> {
    vec![]
}

/// An expression that the recommendation gives the value `want` (None: an error).
fn must(expr: &'static str, want: Option<&'static str>) -> Fixed {
    Fixed {
        key: expr.to_string(),
        run: Box::new(move || {
            let doc = amxml::dom::new_document("<a b=' x  y '>t</a>").map_err(|e| e.to_string())?;
            let r = doc.eval_xpath(expr).map(|s| s.to_string()).map_err(|e| e.to_string());
            match (&r, want) {
                (Ok(v), Some(w)) if v == w => Ok(()),
                (Err(_), None) => Ok(()),
                _ => Err(format!("{} gives {:?}, expected {:?}", expr, r, want)),
            }
        }),
    }
}

fn x10_fixed() -> Vec<Fixed> {
    vec![
        must("normalize-space(' abc  def ')", Some("\"abc def\"")),
        must("normalize-space('  abc ')", Some("\"abc\"")),
        must("normalize-space('')", Some("\"\"")),
    ]
}

fn x11_fixed() -> Vec<Fixed> {
    vec![
        must("sum((\"1\",\"2\",\"3\"))", None),
        must("sum((1, 2, 3))", Some("6")),
        must("sum((1, \"a\"))", None),
    ]
}

pub fn all() -> &'static [Prop] {
    PROPS
}

static PROPS: &[Prop] = &[
    Prop {
        id: "D01",
        title: "Parsing builds exactly the tree a well-formed document describes",
        rule: "random model documents (names over the XML 1.0 name tables, attributes, text, comments, PIs, declarations) rendered with random surface syntax (quotes, white space, CR/LF, entity and character references, CDATA, empty-element tags, document type declarations with literals, comments and instructions); non-trivial = at least 4 nodes and a reference, CDATA section or attribute",
        run: dprops::d01,
        fixed: none,
        quick: 2_000_000,
        thorough: 20_000_000,
        assumptions: &["literal tab/newline inside attribute values is not generated (attribute-value normalisation is not implemented and not claimed)"],
    },
    Prop {
        id: "D02",
        title: "Serialising a document and parsing it again gives the same document",
        rule: "as D01, plus trees built by parsing; non-trivial = at least 4 nodes and a character that needs escaping",
        run: dprops::d02,
        fixed: none,
        quick: 400_000,
        thorough: 8_000_000,
        assumptions: &[],
    },
    Prop {
        id: "D03",
        title: "Pretty-printing changes only white space",
        rule: "random model documents, every node of which is pretty-printed; non-trivial = nesting depth of at least 3 and at least 5 nodes",
        run: dprops::d03,
        fixed: none,
        quick: 1_000_000,
        thorough: 10_000_000,
        assumptions: &[],
    },
    Prop {
        id: "D04",
        title: "The parser never panics or hangs and rejects malformed documents",
        rule: "well-formed documents with one fatal damage from a catalogue (must be rejected), every prefix cut inside the root element, character-level mutations of documents and random token soup (must give a tree or an error), one piece of markup up to 100 000 times over (a million levels in the fixed cases); non-trivial = damaged document that still has at least 10 characters",
        run: dprops::d04,
        fixed: dprops::d04_fixed,
        quick: 1_000_000,
        thorough: 20_000_000,
        assumptions: &["violations of well-formedness the documentation says are tolerated (several root elements, directives) are not required to be rejected"],
    },
    Prop {
        id: "D05",
        title: "The SAX decoder reports exactly the tokens of the document",
        rule: "as D01, the expected token list is produced while rendering; non-trivial = at least 6 tokens",
        run: dprops::d05,
        fixed: none,
        quick: 3_000_000,
        thorough: 30_000_000,
        assumptions: &[],
    },
    Prop {
        id: "D06",
        title: "Navigation, identity and document order agree with the tree",
        rule: "random documents; every node's parent, root, root element, children, nth child, attributes, attribute values and document order are compared with the model; non-trivial = at least 3 elements",
        run: dprops::d06,
        fixed: none,
        quick: 1_000_000,
        thorough: 10_000_000,
        assumptions: &[],
    },
    Prop {
        id: "D07",
        title: "Names split into prefix and local part and resolve to in-scope namespaces",
        rule: "random nestings of namespace declarations (default, prefixed, redeclared, undeclared) with prefixed and unprefixed elements and attributes, text, comments and instructions, then up to 3 edits (set or delete a declaration, move an element); non-trivial = at least two declarations of which one is shadowed or inherited",
        run: dprops::d07,
        fixed: none,
        quick: 2_000_000,
        thorough: 20_000_000,
        assumptions: &[],
    },
    Prop {
        id: "D08",
        title: "Tree editing follows a reference tree through every history",
        rule: "histories of up to 14 operations (append new / move, insert before / after, delete, replace, set / delete attribute) on random documents, with handles kept across the history and the source documents dropped; after each operation the serialisation, navigation and order of the whole tree are compared with a model tree; non-trivial = at least 3 effective operations of 2 kinds",
        run: dprops::d08,
        fixed: none,
        quick: 500_000,
        thorough: 5_000_000,
        assumptions: &["a document node is never passed as the node to insert (the documentation forbids it)"],
    },
    Prop {
        id: "D09",
        title: "Attributes of an element behave as an ordered map through every history",
        rule: "histories of up to 20 set / delete / read operations over a small and a random name pool on several elements, against an insertion-ordered map; non-trivial = an update of an existing attribute and a deletion of one",
        run: dprops::d09,
        fixed: none,
        quick: 60_000,
        thorough: 1_500_000,
        assumptions: &[],
    },
    Prop {
        id: "D11",
        title: "The program prints the pretty form of its file",
        rule: "one run of the program on a generated file: well-formed, cut off, mutated, not UTF-8, missing, a directory, or no file named; non-trivial = a well-formed document of at least 3 nodes and depth 2, or a damaged one",
        run: dprops::d11,
        fixed: none,
        quick: 24_000,
        thorough: 400_000,
        assumptions: &["the program is built from src/main.rs with debug assertions, in a package of its own"],
    },
    Prop {
        id: "D12",
        title: "Nothing stays behind when the last handle is gone",
        rule: "1 or 2 documents and up to 14 steps (queries of any kind, edits, printing, navigation, parsing, decoding, handles given up in any order), run twice; non-trivial = at least 2 queries and an edit",
        run: mem::d12,
        fixed: none,
        quick: 100_000,
        thorough: 1_500_000,
        assumptions: &["memory is counted by the allocator of the harness, per thread"],
    },
    Prop {
        id: "X01",
        title: "Every axis selects exactly the nodes the data model says",
        rule: "random documents; 10 random (context node, axis, node test) triples each; non-trivial = at least 3 of them select something",
        run: xprops::x01,
        fixed: none,
        quick: 400_000,
        thorough: 3_000_000,
        assumptions: &[],
    },
    Prop {
        id: "X02",
        title: "Predicates filter by position and effective boolean value",
        rule: "random documents; 6 expressions each with 1-4 predicates on axis steps, on parenthesised paths and on sequences of atomic values, nested up to depth 3; non-trivial = at least 2 of them select something",
        run: xprops::x02,
        fixed: none,
        quick: 200_000,
        thorough: 3_000_000,
        assumptions: &[],
    },
    Prop {
        id: "X03",
        title: "Path and set expressions give nodes in document order without duplicates",
        rule: "random documents; 6 expressions each: multi-step paths, union/intersect/except chains, node comparisons, path steps that give values, simple maps; non-trivial = at least 2 of them give items",
        run: xprops::x03,
        fixed: none,
        quick: 200_000,
        thorough: 3_000_000,
        assumptions: &[],
    },
    Prop {
        id: "X05",
        title: "Arithmetic follows the XPath numeric types and rules",
        rule: "12 expressions per case over + - * div idiv mod and unary signs, nested up to depth 3, with operands around zero, the 64-bit bounds, infinities, NaN, empty and non-numeric operands; non-trivial = at least 5 of them give a number",
        run: xprops2::x05,
        fixed: none,
        quick: 240_000,
        thorough: 2000000,
        assumptions: &[],
    },
    Prop {
        id: "X06",
        title: "Value, general and node-value comparisons follow the XPath rules",
        rule: "12 comparisons per case, value and general, between numbers of all types, strings, booleans, nodes and sequences of them; non-trivial = at least 6 of them give a truth value",
        run: xprops2::x06,
        fixed: none,
        quick: 160_000,
        thorough: 2000000,
        assumptions: &[],
    },
    Prop {
        id: "X07",
        title: "Effective boolean values, logic, conditionals and quantifiers",
        rule: "8 expressions per case of and/or/not/boolean/if/some/every, nested up to depth 3, over operands of every kind; non-trivial = at least 4 of them give a value",
        run: xprops2::x07,
        fixed: none,
        quick: 100_000,
        thorough: 2000000,
        assumptions: &[],
    },
    Prop {
        id: "X08",
        title: "Variables are lexically scoped and functions close over them",
        rule: "6 expressions per case of for, let, quantifiers, inline functions and predicates, nested up to depth 5, with shadowing, closures and references to names that are not in scope; non-trivial = at least 3 of them give items",
        run: xprops3::x08,
        fixed: none,
        quick: 60_000,
        thorough: 2_000_000,
        assumptions: &[],
    },
    Prop {
        id: "X09",
        title: "Sequence functions, ranges and positions",
        rule: "10 expressions per case over head, tail, reverse, insert-before, remove, subsequence, count, empty, exists, cardinality checks, index-of, `to` and comma, nested up to depth 3, with positions that are negative, fractional, infinite, NaN or beyond 32 bits; non-trivial = at least 5 of them give items",
        run: xprops3::x09,
        fixed: none,
        quick: 140_000,
        thorough: 2_000_000,
        assumptions: &[],
    },
    Prop {
        id: "X10",
        title: "String functions follow their definition over all of Unicode",
        rule: "12 expressions per case over every string function, nested up to depth 3, on strings over a mixed alphabet (ASCII, accents, CJK, astral, white space, quotes) and on other values; non-trivial = at least 6 of them give items",
        run: xprops3::x10,
        fixed: x10_fixed,
        quick: 220_000,
        thorough: 2_000_000,
        assumptions: &[],
    },
    Prop {
        id: "X11",
        title: "Numeric and aggregate functions keep types and values",
        rule: "12 expressions per case over abs, ceiling, floor, round, number, sum, avg, max, min with ties, bounds, NaN, infinities, mixed types and strings; non-trivial = at least 6 of them give items",
        run: xprops3::x11,
        fixed: x11_fixed,
        quick: 220_000,
        thorough: 2_000_000,
        assumptions: &[],
    },
    Prop {
        id: "X12",
        title: "Casts, castable and instance of agree with the XPath types",
        rule: "12 expressions per case: casts of numeral-like strings and values of all types, castable, instance of with nested sequence types; non-trivial = at least 6 of them give items",
        run: xprops3::x12,
        fixed: none,
        quick: 250_000,
        thorough: 2_000_000,
        assumptions: &[],
    },
    Prop {
        id: "X13",
        title: "Maps and arrays behave as finite functions",
        rule: "10 expressions per case over map and array constructors, lookups (postfix, unary, star), calls and map:/array: functions, nested; non-trivial = at least 5 of them give items",
        run: xprops3::x13,
        fixed: none,
        quick: 80_000,
        thorough: 2_000_000,
        assumptions: &[],
    },
    Prop {
        id: "X14",
        title: "Functions are values",
        rule: "8 expressions per case over for-each, filter, named references, partial application, inline functions, function-valued variables, maps and arrays of functions, and the arrow operator; non-trivial = at least 4 of them give items",
        run: xprops3::x14,
        fixed: none,
        quick: 120_000,
        thorough: 2_000_000,
        assumptions: &[],
    },
    Prop {
        id: "X18",
        title: "Functions on nodes agree with the data model",
        rule: "random documents with xml:lang, namespace declarations and xsi:nil; 8 expressions each over name, local-name, namespace-uri, root, string, data, number, nilled, lang with and without argument; non-trivial = at least 4 of them give items",
        run: xprops3::x18,
        fixed: none,
        quick: 220_000,
        thorough: 2_000_000,
        assumptions: &[],
    },
    Prop {
        id: "X15",
        title: "The way an expression is written does not change its meaning",
        rule: "documents with names that look like keywords; 4 expressions of all kinds per case, each written in 4 ways (white space, comments, redundant parentheses, abbreviated and full steps); non-trivial = at least 2 of them give items and have different texts",
        run: xprops4::x15,
        fixed: none,
        quick: 40_000,
        thorough: 800_000,
        assumptions: &[],
    },
    Prop {
        id: "X16",
        title: "Any text given as a query gives a result or an error",
        rule: "token soup, mutated expressions, definite syntax errors made from valid expressions by 48 kinds of damage (must be rejected), nesting up to 40 levels with a known value; non-trivial = at least 4 texts of more than 2 tokens",
        run: xprops4::x16,
        fixed: none,
        quick: 150_000,
        thorough: 2_000_000,
        assumptions: &["texts with long ranges or functions that may call themselves are not run", "nesting is bounded by 40 levels"],
    },
    Prop {
        id: "X17",
        title: "Results are rendered and accessed item by item",
        rule: "8 sequences per case of numbers, strings, nodes, booleans, maps, arrays, nested; non-trivial = at least 3 have 2 or more items",
        run: xprops4::x17,
        fixed: none,
        quick: 120_000,
        thorough: 2000000,
        assumptions: &[],
    },
    Prop {
        id: "X04",
        title: "The query methods agree on the nodes of a result",
        rule: "random documents, 6 expressions each, the document handle dropped; non-trivial = at least 2 of them give 2 or more nodes",
        run: xprops4::x04,
        fixed: none,
        quick: 80000,
        thorough: 2000000,
        assumptions: &[],
    },
    Prop {
        id: "X19",
        title: "Queries are repeatable and leave the document unchanged",
        rule: "5 expressions per document, evaluated 24 times in random order and once more on an equal document; non-trivial = at least 6 evaluations give a result",
        run: xprops4::x19,
        fixed: none,
        quick: 50_000,
        thorough: 800_000,
        assumptions: &[],
    },
    Prop {
        id: "D10",
        title: "Queries see every edit of the document",
        rule: "2 to 9 DOM edits (append, insert, move, delete, set and delete attributes) interleaved with path, set-operator, axis and node-order queries; non-trivial = at least 2 edits and 2 queries after edits that give items",
        run: xprops4::d10,
        fixed: none,
        quick: 140_000,
        thorough: 2000000,
        assumptions: &[],
    },
    Prop {
        id: "X20",
        title: "Typed function tests follow the subtype relation",
        rule: "8 expressions per case: inline functions with random types, references to all built-in functions, partial calls, maps and arrays against function tests near their type, and nodes against kind tests with type names; non-trivial = at least 5 of them give items and one is true",
        run: xprops5::x20,
        fixed: none,
        quick: 120_000,
        thorough: 2_000_000,
        assumptions: &["a map tested against a typed function test is decided only where the recommendation and the reading pinned by the library's tests agree", "namespace-uri#0/1 are not used (xs:anyURI counts as xs:string in the library)"],
    },
    Prop {
        id: "X21",
        title: "Inline functions convert arguments and results to their declared types",
        rule: "8 expressions per case: inline functions with declared parameter and result types, called directly, through variables, for-each, arrows and arrays with values of the type, near it and arbitrary ones; non-trivial = at least 3 of them give items",
        run: xprops6::x21,
        fixed: none,
        quick: 120_000,
        thorough: 2_000_000,
        assumptions: &["functions passed where a function type is declared must be of a subtype (no coercion), as the library's tests require"],
    },
    Prop {
        id: "X22",
        title: "Built-in functions check, atomize and convert their arguments",
        rule: "10 calls per case of a random built-in function with arguments of the declared type, near it and arbitrary ones (sequences, nodes, arrays, maps, functions), called directly, by reference, partially applied, by arrow and through variables; non-trivial = at least 4 of them give items",
        run: xprops6::x22,
        fixed: none,
        quick: 200_000,
        thorough: 2_000_000,
        assumptions: &["strings given for numeric positions are not decided: nodes atomize to strings in this library"],
    },
    Prop {
        id: "X23",
        title: "An error says of what kind it is",
        rule: "6 expressions per case with one known fault (a failing operation, a wrong type, an unknown function, broken syntax) inside 0 to 4 constructs that evaluate or skip it, or a mutated text; non-trivial = at least 3 of them are faults that must be reported",
        run: xprops7::x23,
        fixed: none,
        quick: 100_000,
        thorough: 1_000_000,
        assumptions: &["which of two faults is reported is not decided: there is only one in each expression"],
    },
    Prop {
        id: "X24",
        title: "Operators and constructs accept operands of any type",
        rule: "12 expressions per case that apply a random operator or construct (arithmetic, comparison, logic, range, set and node operators, predicates, lookups, calls, conditionals, quantifiers, paths, constructors, casts, tests, arrows) to operands of any kind, nested up to three deep; non-trivial = at least 4 of them give items",
        run: xprops8::x24,
        fixed: none,
        quick: 200_000,
        thorough: 2_000_000,
        assumptions: &["the choices of errors and the unspecified cases listed in DESIGN.md"],
    },
];
