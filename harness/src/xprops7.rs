//! X23: the kind of an error.

use crate::core::*;
use crate::xast::*;
use crate::xgen::*;
use crate::xprops::*;
use crate::xprops2::*;
use crate::xprops4::{broken, dangerous, gexpr, mutate};

const SYNTAX: &str = "Syntax Error in XPath:";
const DYNAMIC: &str = "Dynamic Error:";
const LIBRARY: &str = "Can't Occur:";
const TYPE: &str = "Type Error:";
const EITHER: &str = "Dynamic Error: or Type Error:";

fn is(m: &str, kind: &str) -> bool {
    let f = |k: &str| m.starts_with(k) && m.len() > k.len();
    if kind == EITHER { f(DYNAMIC) || f(TYPE) } else { f(kind) }
}

/// an expression of which only the outermost operation fails, and the kind of its error
fn fault(g: &mut G) -> (E, &'static str) {
    if g.s.flip() {
        let n = g.s.range(0, 9);
        let e = match g.s.us(13) {
            0 => bin(*g.s.pick(&["div", "idiv", "mod"]), int(n), int(0)),
            1 => bin(*g.s.pick(&["div", "idiv", "mod"]), E::Dec("1.5".into()), if g.s.flip() { int(0) } else { E::Dec("0.0".into()) }),
            2 => match g.s.us(4) {
                0 => bin("+", int(9223372036854775807 - n), int(n + 1)),
                1 => bin("*", int(3037000500 + n), int(3037000500)),
                2 => bin("-", neg(int(9223372036854775807 - n)), int(n + 2)),
                _ => call("sum", vec![E::Seq(vec![int(9223372036854775807), int(1), int(n)])]),
            },
            3 => {
                let k = g.s.us(4);
                let i = if g.s.flip() { int(k as i64 + 1) } else { int(0) };
                call("array:get", vec![E::SqArr((0..k).map(|i| int(i as i64)).collect()), i])
            }
            4 => {
                let k = g.s.us(4);
                E::Dyn(b(E::SqArr((0..k).map(|i| int(i as i64)).collect())), vec![int(k as i64 + 1)])
            }
            5 => E::Map(vec![(int(n), st("a")), (int(n), st("b"))]),
            6 => var(*g.s.pick(&["nope", "no-such", "p:none"])),
            7 => call("codepoints-to-string", vec![int(*g.s.pick(&[0, 1, 55296, 65534, 1114112, -1]))]),
            8 => call("zero-or-one", vec![E::Seq(vec![int(1), int(n)])]),
            9 => call("one-or-more", vec![E::Seq(vec![])]),
            10 => call("exactly-one", vec![if g.s.flip() { E::Seq(vec![]) } else { E::Seq(vec![int(n), int(2)]) }]),
            11 => E::Big((9223372036854775808i128 + n as i128).to_string()),
            _ => bin("idiv", E::Dbl("1e0".into()), bin("div", E::Dbl("0e0".into()), int(0))),
        };
        return (e, DYNAMIC);
    }
    let s = st(*g.s.pick(&["a", "", "x y", "1"]));
    let t = call(if g.s.flip() { "true" } else { "false" }, vec![]);
    let two = E::Seq(vec![int(1), int(2)]);
    let k = g.s.us(14);
    let e = match k {
        0 => bin(*g.s.pick(&["+", "-", "*", "div", "idiv", "mod"]), s, int(1)),
        1 => bin(*g.s.pick(&["+", "-", "*"]), int(1), t),
        2 => bin(*g.s.pick(&["+", "-", "*"]), two, int(1)),
        3 => bin(*g.s.pick(&["eq", "ne", "lt", "le", "gt", "ge"]), s, int(1)),
        4 => bin(*g.s.pick(&["eq", "ne", "lt", "le", "gt", "ge"]), two, int(1)),
        5 => bin(*g.s.pick(&["=", "!=", "<"]), t, int(1)),
        6 => E::CastAs(b(st(*g.s.pick(&["a", "1x", "", "tru"]))), g.s.pick(&["xs:integer", "xs:decimal", "xs:double", "xs:boolean"]).to_string(), g.s.flip()),
        7 => call(if g.s.flip() { "boolean" } else { "not" }, vec![E::Seq(vec![s, int(1)])]),
        8 => bin(*g.s.pick(&["union", "intersect", "except"]), step(Axis::Child, Test::Star), int(1)),
        9 => E::Slash(b(E::Seq(vec![int(1)])), b(step(Axis::Child, Test::Star))),
        10 => neg(s),
        11 => call(*g.s.pick(&["upper-case", "string-length", "string-to-codepoints"]), vec![int(1)]),
        12 => {
            let f = Inline { params: vec![("v".into(), Some(ST(Some((IT::Atomic("xs:integer".into()), ' ')))))], ret: None, body: int(1) };
            E::Dyn(b(E::Seq(vec![E::Inline(Box::new(f))])), vec![s])
        }
        _ => E::Lookup(b(E::Seq(vec![int(1)])), Key::Int(1)),
    };
    // Functions and Operators calls a string that is no number a dynamic error
    (e, if k == 6 { EITHER } else { TYPE })
}

/// an expression in which x is evaluated
fn around(g: &mut G, x: E) -> E {
    let x = paren(x);
    match g.s.us(17) {
        0 => E::Let(vec![("w".into(), x)], b(var("w"))),
        1 => {
            let mut v = vec![int(1), st("k")];
            v.insert(g.s.us(3), x);
            E::Seq(v)
        }
        2 => E::If(b(call("true", vec![])), b(x), b(int(1))),
        3 => E::SqArr(vec![int(1), x]),
        4 => E::For(vec![("w".into(), bin("to", int(1), int(2)))], b(x)),
        5 => E::Slash(b(E::Root), b(E::Step(Axis::Child, Test::Star, vec![x]))),
        6 => bin("!", E::Ctx, x),
        7 => E::Dyn(b(paren(E::Inline(Box::new(Inline { params: vec![], ret: None, body: x })))), vec![]),
        8 => call(*g.s.pick(&["count", "exists", "data", "reverse"]), vec![x]),
        9 => E::Arrow(b(x), ArrowF::Name("count".into()), vec![]),
        10 => E::Quant(g.s.flip(), vec![("w".into(), int(1))], b(x)),
        11 => bin("or", call("false", vec![]), x),
        12 => bin(*g.s.pick(&["+", "=", "eq", "||", "to"]), int(1), x),
        13 => E::CastableAs(b(x), "xs:integer".into(), true),
        14 => E::InstanceOf(b(x), ST(Some((IT::Item, '*')))),
        15 => E::Map(vec![(st("k"), x)]),
        _ => call("for-each", vec![int(1), E::Inline(Box::new(Inline { params: vec![("w".into(), None)], ret: None, body: x }))]),
    }
}

/// an expression in which x is not evaluated
fn unreached(g: &mut G, x: E) -> E {
    let x = paren(x);
    match g.s.us(7) {
        0 => E::If(b(call("true", vec![])), b(int(1)), b(x)),
        1 => E::If(b(call("false", vec![])), b(x), b(int(1))),
        2 => E::For(vec![("w".into(), E::Seq(vec![]))], b(x)),
        3 => bin("!", paren(E::Seq(vec![])), x),
        4 => call("count", vec![E::Inline(Box::new(Inline { params: vec![], ret: None, body: x }))]),
        5 => call("for-each", vec![E::Seq(vec![]), E::Inline(Box::new(Inline { params: vec![("w".into(), None)], ret: None, body: x }))]),
        _ => E::Slash(b(E::Root), b(E::Step(Axis::Child, Test::Kind(Kind::Text), vec![x]))),
    }
}

/// a call that no function answers
fn unknown(g: &mut G) -> E {
    let (n, k): (&str, usize) = *g.s.pick(&[
        ("nope", 1), ("nope", 0), ("fn:nope", 1), ("coun", 1), ("countt", 1), ("Count", 1), ("map:nope", 1), ("array:nope", 1), ("xs:count", 1),
        ("count", 2), ("count", 0), ("abs", 0), ("abs", 2), ("substring", 1), ("substring", 4), ("true", 1), ("position", 1), ("contains", 1),
        ("map:get", 1), ("array:size", 0), ("for-each", 1), ("string-join", 3), ("not", 0), ("translate", 2),
    ]);
    let args: Vec<E> = (0..k).map(|_| int(1)).collect();
    match g.s.us(4) {
        0 if k > 0 => E::Arrow(b(paren(int(1))), ArrowF::Name(n.into()), args[1..].to_vec()),
        1 => E::NamedRef(n.into(), k),
        2 if k > 0 => {
            let mut a: Vec<Option<E>> = args.into_iter().map(Some).collect();
            let i = g.s.us(k);
            a[i] = None;
            arrowed(g, E::Partial(n.into(), a))
        }
        _ => E::Call(n.into(), args),
    }
}

fn begins(cx: &mut Cx, c: &Case, ctx: usize, text: &str, kind: &str) -> Result<(), String> {
    let at = |m: String| format!("{} from {}: {}", text, c.d.path(ctx), m);
    let n = &c.d.ptr[ctx];
    cx.cmp();
    match eval_lib(n, text).map_err(&at)? {
        Ok(s) => return Err(at(format!("gives {} but must be an error", s.to_string()))),
        Err(m) if !is(&m, kind) => return Err(at(format!("the error is {:?} but must be a {:?}", m, kind))),
        Err(_) => {}
    }
    let m = guard(|| n.get_nodeset(text).map(|_| ()).map_err(|e| e.to_string())).map_err(&at)?;
    let k = guard(|| n.each_node(text, |_| ()).map_err(|e| e.to_string())).map_err(&at)?;
    for r in vec![m, k] {
        match r {
            Err(m) if is(&m, kind) => {}
            r => return Err(at(format!("a query method gives {:?} but must give a {:?}", r, kind))),
        }
    }
    Ok(())
}

/// what the library does not implement: an error, or else the value it ought to have
fn missing(src: &mut Src, cx: &mut Cx, c: &Case, ctx: usize) -> Result<(), String> {
    const KNOWN: &[(&str, &str)] = &[
        ("Q{http://www.w3.org/2005/xpath-functions}abs(-1)", "1"),
        ("xs:integer('7')", "7"),
        ("xs:string(1)", "\"1\""),
        ("xs:boolean('1')", "true"),
        ("map:size(map:put(map{}, 1, 2))", "1"),
        ("map:size(map:merge((map{1:2}, map{1:3})))", "1"),
        ("map:size(map:entry(1, 2))", "1"),
        ("map:size(map:remove(map{1:2}, 1))", "0"),
        ("array:size(array:append([1], 2))", "2"),
        ("array:size(array:join(([1], [2])))", "2"),
        ("array:size(array:reverse([1, 2, 3]))", "3"),
        ("array:head([3, 1])", "3"),
        ("sort((3, 1))", "(1, 3)"),
        ("matches('a', 'b')", "false"),
        ("tokenize('a b')", "(\"a\", \"b\")"),
        ("replace('a', 'a', 'b')", "\"b\""),
        ("fold-left((1, 2), 4, function($a, $b) { $a + $b })", "7"),
        ("fold-right((1, 2), 4, function($a, $b) { $a - $b })", "3"),
        ("for-each-pair((1, 2), (3, 4), function($a, $b) { $a * $b })", "(3, 8)"),
        ("apply(function($a) { $a }, [1])", "1"),
        ("deep-equal(1, 2)", "false"),
        ("distinct-values((1, 1))", "1"),
        ("function-arity(count#1)", "1"),
        ("unordered((4))", "4"),
        ("string-length(format-integer(1, '001'))", "3"),
        ("contains('a', 'A', 'http://www.w3.org/2005/xpath-functions/collation/html-ascii-case-insensitive')", "true"),
        ("1 => (function($x) { $x })()", "1"),
        ("(1, 2) ! (. => (function($x) { $x + 1 })())", "(2, 3)"),
        ("has-children(/)", "true"),
        ("/ instance of document-node()", "true"),
        ("count(/self::document-node())", "1"),
        ("count(//ancestor::document-node())", "1"),
        ("/* instance of document-node()", "false"),
        ("count(//@*/self::document-node())", "0"),
        ("function($x as document-node()) { 1 }(/)", "1"),
        ("function($x as document-node()) { 1 } instance of function(document-node()) as item()*", "true"),
        ("/ instance of document-node(element(*))", "true"),
        ("1 instance of document-node()", "false"),
        ("() instance of document-node()*", "true"),
        ("count(//namespace-node())", "0"),
        ("(innermost(//*) except //*)", "()"),
    ];
    let (text, exp) = match src.weighted(&[5, 3, 3, 2]) {
        0 => {
            let (t, e) = *src.pick(KNOWN);
            (t.to_string(), Some(e.to_string()))
        }
        1 => {
            let (v, t) = *src.pick(&[
                ("1", "xs:integer"), ("(1, 2)", "xs:integer+"), ("()", "xs:string?"), ("()", "empty-sequence()"), ("'a'", "item()"), ("//*", "element()*"),
                ("(/)", "node()"), ("[1]", "array(*)"), ("map{1:2}", "map(*)"), ("count#1", "function(*)"), ("1.5", "xs:decimal"), ("true()", "xs:boolean"),
            ]);
            let e = eval_lib(&c.d.ptr[ctx], v)??.to_string();
            (format!("{} treat as {}", v, t), Some(e))
        }
        2 => {
            // types that are not there
            let (v, t, ok) = *src.pick(&[
                ("1", "xs:float", true), ("'x'", "xs:float", false), ("'2020-01-01'", "xs:date", true), ("'a'", "xs:date", false), ("1", "xs:int", true),
                ("300", "xs:byte", false), ("'x'", "xs:anyURI", true), ("'a'", "xs:untypedAtomic", true), ("1", "xs:nonNegativeInteger", true),
                ("-1", "xs:nonNegativeInteger", false), ("'a b'", "xs:NCName", false), ("'a'", "xs:token", true), ("()", "xs:date?", true),
                ("()", "xs:date", false), ("(1, 2)", "xs:long", false), ("true()", "xs:float?", true), ("'PT1S'", "xs:duration", true),
            ]);
            if v == "()" && ok && src.flip() {
                (format!("{} cast as {}", v, t), Some("()".into()))
            } else {
                (format!("{} castable as {}", v, t), Some(ok.to_string()))
            }
        }
        _ => {
            let a = *src.pick(&["namespace::*", "namespace::p", "namespace::node()", "//namespace::*", "@*/namespace::p", "count(namespace::*)", "'a' treat as xs:integer", "(1, 2) treat as item()", "1 cast as xs:foo", "() cast as xs:foo?", "'a' cast as xs:date", "*/schema-element(a)", "@schema-attribute(a)", "/ instance of document-node(schema-element(a))", "//*[self::schema-element(b)]"]);
            (a.to_string(), None)
        }
    };
    let text = match src.us(5) {
        0 => format!("({})", text),
        1 => format!("if (1) then ({}) else ()", text),
        2 => format!("let $v := ({}) return $v", text),
        3 => format!("(({}), ())", text),
        _ => text,
    };
    let at = |m: String| format!("{} from {}: {}", text, c.d.path(ctx), m);
    cx.add_case(&format!(" | {} from {}", text, c.d.path(ctx)));
    cx.cmp();
    match eval_lib(&c.d.ptr[ctx], &text).map_err(&at)? {
        Ok(s) => {
            let s = s.to_string();
            if exp.as_ref().map_or(false, |e| *e != s) {
                return Err(at(format!("gives {} instead of {} or an error", s, exp.unwrap())));
            }
            cx.label("not implemented: a value");
        }
        Err(m) if m.is_empty() || m.starts_with(LIBRARY) => return Err(at(format!("the error is {:?}", m))),
        Err(_) => cx.label("not implemented: an error"),
    }
    Ok(())
}

pub fn x23(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let c = start(src, cx, 6)?;
    let mut full = 0;
    for _ in 0..6 {
        let ctx = ctx_node(src, &c.d);
        match src.weighted(&[16, 8, 8, 6, 3]) {
            0 => {
                let (mut e, kind) = fault(&mut G::new(src, &c.d));
                let mut n = 0;
                let hidden = src.chance(1, 5);
                while src.more(n, 4, 2, 3) {
                    n += 1;
                    e = around(&mut G::new(src, &c.d), e);
                }
                if hidden {
                    e = unreached(&mut G::new(src, &c.d), e);
                    if src.flip() {
                        e = around(&mut G::new(src, &c.d), e);
                    }
                }
                let text = print(src, &e);
                cx.add_case(&format!(" | {} from {}", text, c.d.path(ctx)));
                match check(cx, &c.d, ctx, &e, &text)? {
                    Out::Err if !hidden => {
                        begins(cx, &c, ctx, &text, kind)?;
                        cx.label(kind);
                        full += 1;
                    }
                    Out::Ok if hidden => cx.label("not evaluated, no error"),
                    _ => {}
                }
            }
            1 => {
                // not a function, wherever it stands
                let mut e = unknown(&mut G::new(src, &c.d));
                let mut n = 0;
                while src.more(n, 4, 2, 3) {
                    n += 1;
                    let mut g = G::new(src, &c.d);
                    e = if g.s.chance(1, 3) { unreached(&mut g, e) } else { around(&mut g, e) };
                }
                let text = print(src, &e);
                cx.add_case(&format!(" | {} from {}", text, c.d.path(ctx)));
                begins(cx, &c, ctx, &text, SYNTAX)?;
                cx.label("unknown function or number of arguments");
                full += 1;
            }
            2 => {
                let e = gexpr(src, &c.d);
                let mut t = broken(src, &e);
                if src.chance(1, 3) {
                    t = format!("if (true()) then 1 else ({})", t);
                }
                if dangerous(&t) || crate::xgram::accepts(&t) != Some(false) {
                    cx.label("not run");
                    continue;
                }
                cx.add_case(&format!(" | {:?} from {}", t, c.d.path(ctx)));
                begins(cx, &c, ctx, &t, SYNTAX)?;
                cx.label("not an expression");
                full += 1;
            }
            4 => missing(src, cx, &c, ctx)?,
            _ => {
                // whatever is wrong, it is not the library
                let e = gexpr(src, &c.d);
                let t = mutate(src, &e);
                if dangerous(&t) {
                    cx.label("not run");
                    continue;
                }
                cx.add_case(&format!(" | {:?} from {}", t, c.d.path(ctx)));
                cx.cmp();
                match eval_lib(&c.d.ptr[ctx], &t).map_err(|m| format!("{:?}: {}", t, m))? {
                    Ok(_) => cx.label("mutated: accepted"),
                    Err(m) => {
                        if m.is_empty() || m.starts_with(LIBRARY) {
                            return Err(format!("{:?}: the error is {:?}", t, m));
                        }
                        // with a feature that is not there the text has two faults
                        let two = m.starts_with("Feature not") && ["namespace", "document-node", "schema-"].iter().any(|w| t.contains(w));
                        if crate::xgram::accepts(&t) == Some(false) && !m.starts_with(SYNTAX) && !two {
                            return Err(format!("{:?} is not an XPath expression; the error is {:?}", t, m));
                        }
                        cx.label("mutated: error");
                    }
                }
            }
        }
    }
    cx.nontrivial = full >= 3;
    Ok(())
}
