//! XPath properties about whole expressions: syntax, robustness, rendering,
//! the query methods, repeatability, documents that were edited.

use crate::core::*;
use crate::doc::*;
use crate::xast::*;
use crate::xdoc::*;
use crate::xgen::*;
use crate::xprops::*;
use crate::xprops2::*;
use crate::xprops3::*;
use crate::xref::*;
use amxml::dom::*;
use amxml::xpath::*;

/// an expression of any kind
pub fn anyexpr(g: &mut G) -> E {
    match g.s.weighted(&[8, 3, 2, 2, 2, 3, 3, 3, 3, 3, 3, 2, 2]) {
        0 => g.nodes(2),
        1 => g.any(2),
        2 => g.boolean(3),
        3 => g.number(3),
        4 => g.string(3),
        5 => seqfn(g, 2),
        6 => strfn(g, 2),
        7 => mexp(g, 2),
        8 => hof(g, 2),
        9 => closure_e(g),
        10 => logic(g, 2),
        11 => arith_e(g, 3),
        _ => {
            let x = typed(g, 2);
            if g.s.flip() {
                let t = seqtype(g, 2);
                E::InstanceOf(b(x), t)
            } else {
                let t = tname(g);
                E::CastableAs(b(x), t, g.s.flip())
            }
        }
    }
}

/// How a result looks when nothing is known about it.
fn shown(d: &XD, r: &Result<Sequence, String>) -> Vec<String> {
    match r {
        Err(_) => vec!["error".into()],
        Ok(s) => {
            let mut v = vec![format!("{} items", s.len())];
            for i in 0..s.len() {
                let it = s.get_item(i);
                match it.as_nodeptr() {
                    Some(p) => v.push(match d.find(&p) {
                        Some(n) => format!("node {}", d.path(n)),
                        None => "node outside the document".into(),
                    }),
                    None => {
                        let t = it.to_string();
                        // functions have no agreed form
                        v.push(if t.contains("XNode") || t.contains("unction") { "?".into() } else { t })
                    }
                }
            }
            v
        }
    }
}

// ------------------------------------------------------------------ X15

const WORDS: &[&str] = &[
    "div", "and", "or", "mod", "idiv", "if", "for", "in", "return", "let", "to", "cast", "castable", "as", "instance", "of", "some", "every",
    "satisfies", "union", "intersect", "except", "eq", "ne", "is", "map", "array", "function", "element", "text", "node", "item", "then", "else",
    "child", "self", "parent", "treat", "x-1", "a.b", "_", "名", "last", "position", "true", "not", "e1", "E", "a-b", "comment",
];

/// give some names of the document other, awkward, names
fn rename(src: &mut Src, d: &mut Doc) {
    let mut map: Vec<(String, String)> = vec![];
    for n in ENAMES.iter().chain(ANAMES.iter()) {
        if src.flip() {
            let w = if src.chance(1, 6) { crate::doc::gen_ncname(src) } else { src.pick(WORDS).to_string() };
            let w = match n.split_once(':') {
                Some((p, _)) => format!("{}:{}", p, w),
                None => w,
            };
            if map.iter().any(|m| m.1 == w) || ANAMES.contains(&w.as_str()) || ENAMES.contains(&w.as_str()) {
                continue;
            }
            map.push((n.to_string(), w));
        }
    }
    fn go(m: &mut M, map: &[(String, String)]) {
        if let M::E(n, attrs, kids) = m {
            let f = |n: &mut String| {
                if let Some(x) = map.iter().find(|x| x.0 == *n) {
                    *n = x.1.clone();
                }
            };
            f(n);
            for a in attrs {
                f(&mut a.0);
            }
            for k in kids {
                go(k, map);
            }
        }
    }
    for m in d.iter_mut() {
        go(m, &map);
    }
}

fn style(src: &mut Src) -> (Style, u64, Option<bool>) {
    (
        *src.pick(&[Style::Natural, Style::Tight, Style::Spaced, Style::Wild]),
        *src.pick(&[0, 3, 16]),
        *src.pick(&[None, Some(true), Some(false)]),
    )
}

pub fn x15(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let mut doc = gen_xdoc(src, 12);
    if src.chance(2, 3) {
        rename(src, &mut doc);
    }
    let (d, _root, xml) = open(&doc)?;
    cx.case(xml);
    let mut full = 0;
    for _ in 0..4 {
        let ctx = ctx_node(src, &d);
        let e = anyexpr(&mut G::new(src, &d));
        let text = print_with(src, &e, Style::Natural, 0, Some(true));
        cx.add_case(&format!(" | {} from {}", text, d.path(ctx)));
        let o = check(cx, &d, ctx, &e, &text)?;
        if o == Out::Huge {
            continue;
        }
        let mut variants: Vec<String> = vec![];
        for _ in 0..3 {
            let (s, extra, ab) = style(src);
            variants.push(print_with(src, &e, s, extra, ab));
        }
        let plain = shown(&d, &eval_lib(&d.ptr[ctx], &text).map_err(|m| format!("{}: {}", text, m))?);
        let mut differ = false;
        for v in &variants {
            cx.cmp();
            differ |= *v != text;
            cx.add_case(&format!(" | {}", v));
            if crate::xgram::accepts(v) == Some(false) {
                return Err(format!("harness: the recognizer rejects {}", v));
            }
            let r = shown(&d, &eval_lib(&d.ptr[ctx], v).map_err(|m| format!("{}: {}", v, m))?);
            if r != plain {
                return Err(format!("from {}: {} gives {:?}, but the same expression written {} gives {:?}", d.path(ctx), text, plain, v, r));
            }
        }
        if o == Out::Ok && differ {
            full += 1;
        }
    }
    cx.nontrivial = full >= 2;
    Ok(())
}

// ------------------------------------------------------------------ X16

const SOUP: &[&str] = &[
    "a", "b", "p:a", "*", "p:*", "*:a", ".", "..", "/", "//", "@", "@x", "::", "child::", "ancestor::", "self::node()", "text()", "node()",
    "(", ")", "[", "]", "{", "}", ",", "$", "$x", "$y", ":=", "=", "!=", "<", "<=", ">", ">=", "<<", ">>", "eq", "ne", "lt", "is", "+", "-", "*",
    "div", "idiv", "mod", "to", "|", "union", "intersect", "except", "||", "!", "=>", "?", "#", "#1", ":", "1", "2", "0", "1.5", "1e0", ".5", "1e", "'s'",
    "\"t\"", "'", "\"", "(:", ":)", "if", "then", "else", "for", "in", "return", "let", "some", "every", "satisfies", "and", "or", "not", "instance", "of", "cast",
    "castable", "as", "treat", "xs:integer", "xs:string", "item()", "element()", "empty-sequence()", "map", "array", "function", "map{", "array{", "function(", "count(",
    "position()", "last()", "concat(", "string(", "true()", "nope()", "fn:abs(", "map:get(", "array:get(", "-", "日本", "é", "\u{0}", "\\", "&", "%", ";", "\t", "\n",
    "processing-instruction(", "element(", "attribute(", "document-node()", "schema-element(a)", "Q{u}a", "1.", "..5", "9999999999999999999999", "1e999", "function(*)",
];

/// Not run: ranges that may be long, functions that may call themselves.
pub fn dangerous(t: &str) -> bool {
    let c: Vec<char> = t.chars().collect();
    if t.contains("to") {
        let mut run = 0;
        for x in &c {
            if x.is_ascii_digit() {
                run += 1;
                if run >= 2 {
                    return true;
                }
            } else {
                run = 0;
            }
        }
    }
    if t.contains("function") {
        // a variable that is called
        let mut i = 0;
        while i < c.len() {
            if c[i] == '$' {
                i += 1;
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '-' || c[i] == '_' || c[i].is_whitespace()) {
                    i += 1;
                }
                if i < c.len() && (c[i] == '(' || c[i] == ')') {
                    return true;
                }
            } else {
                i += 1;
            }
        }
    }
    false
}

/// The query methods agree and nothing breaks.
fn survives(cx: &mut Cx, d: &XD, ctx: usize, t: &str) -> Result<bool, String> {
    cx.cmp();
    let n = &d.ptr[ctx];
    let r = eval_lib(n, t).map_err(|m| format!("eval_xpath {:?}: {}", t, m))?;
    let s = guard(|| n.get_nodeset(t).map(|v| v.len()).map_err(|e| e.to_string())).map_err(|m| format!("get_nodeset {:?}: {}", t, m))?;
    let f = guard(|| n.get_first_node(t).is_some()).map_err(|m| format!("get_first_node {:?}: {}", t, m))?;
    let mut k = 0;
    let e = guard(|| n.each_node(t, |_| k += 1).is_ok()).map_err(|m| format!("each_node {:?}: {}", t, m))?;
    if r.is_ok() != s.is_ok() || e != r.is_ok() || f != (s.clone().unwrap_or(0) > 0) || k != s.unwrap_or(0) {
        return Err(format!("the query methods disagree on {:?}", t));
    }
    if let Ok(s) = &r {
        guard(|| s.to_string()).map_err(|m| format!("{:?}: to_string {}", t, m))?;
        if crate::xgram::accepts(t) == Some(false) {
            return Err(format!("{:?} is not an XPath expression but is accepted", t));
        }
    }
    Ok(r.is_ok())
}

/// Texts that are no expression, also where one of several expressions is expected.
const BAD: &[&str] = &[
    "1e", "1e+", "1.5e", "1.5e3e4", "1.2.3", "1..2", "1.5.", ".e1", "1e1.5", "1 = 2 = 3", "1 eq 2 eq 3", "1 < 2 < 3", "(1 to 2 to 3)",
    "1 cast as xs:integer cast as xs:string", "1 instance of xs:integer instance of xs:boolean",
    "1 castable as xs:integer castable as xs:boolean", "1 cast as xs:integer*", "1 cast as xs:integer+", "1 castable as xs:integer*", "//",
    "a//", "@child::a", "child::@x", "a::b", "@@x", "..x", "...", ".a", "self::", "a b", "for $x in 1, return $x",
    "for $x in 1 let $y := 2 return 3", "for $x in 1 $y in 2 return 3", "for $x in (1) for $y in (2) return 3",
    "let $x := 1 $y := 2 return 3", "some $x in 1 satisfies", "some $x in 1, satisfies 1", "if (1) then 2 else", "if 1 then 2 else 3",
    "if () then 2 else 3", "map{1}", "map{1:2 3:4}", "map{1:2,,3:4}", "map{,}", "array{", "[1", "[1,,2]", "[,1]", "?", "#1", "1 => 2()",
    "1 => abs", "1 => abs()()", "=> abs()", "function($x,){1}", "function($x $y){1}", "function($x){1", "function($x as){1}",
    "function($x) as {1}", "\"a\"\"", "'a''", "\"a'", "$x y", "processing-instruction(1)", "processing-instruction(a b)", "text(a)", "text(",
    "node(1)", "comment('x')", "element(a b)", "a[1]]", "a[]", "a[1 2]", "a[,]", "{1}", "1 + ", "+ ", "- ", "1 + * 2", "1 div div 2", "a/(b",
    "a/b)", "a///b", "a/ /b", "/ /a", "/a/", "a|", "|a", "a||", "a union", "a intersect intersect b", "not(", "1 is", "a is b is c",
    "a << b >> c", "!a", "a!", "a!!b", "a!=", "1 ! = 2", ": ", ":= 1", "1 :", "(: ", ":)", "let $x = 1 return 2", "let x := 1 return 2",
    "let $x := return 2", "for x in 1 return 2", "every $x satisfies 1", "every $x in 1 return 1", "instance of xs:integer",
    "1 instance xs:integer", "1 instance of", "1 cast xs:integer", "1 castable of xs:integer", "abs#1#1", "abs#", "abs#1.0", "abs#1e0",
    "a:b:c", "a:", ":a", "a:*:b", "*:*", "*:", "@", "@1",
    "function($) { 1 }", "function($, $b) { 1 }", "function($a, $) { 1 }", "function($ as item()) as { 1 }", "function() as { 1 }", "1 instance of map(, item())", "1 instance of map(xs:string)", "1 instance of map(xs:string,)", "1 instance of map(xs:string item())", "1 instance of map(*, item())", "1 instance of map(item(), item())", "1 instance of array(,)", "1 instance of array()", "1 instance of array(* )*)", "1 instance of function(, item()) as item()", "1 instance of function(item(),) as item()", "1 instance of function(item())", "1 instance of function(item()) as", "1 instance of function(* , item())", "1 instance of element(,)", "1 instance of element(a,,)", "1 instance of attribute(a b)", "1 instance of ()", "1 instance of (item()", "1 instance of (,)", "1 instance of ?", "1 instance of *", "1 instance of empty-sequence()?", "1 instance of empty-sequence()*", "for $ in 1 return 1", "let $ := 1 return 1", "some $ in 1 satisfies 1", "for $x, $y in 1 return 1", "let $x, $y := 1 return 1", "1 cast as ?", "1 castable as ", "1 castable as ?", "1 cast as item()", "1 cast as (xs:integer)", "1 treat as ", "1 treat as ?", "map{:1}", "map{1:}", "map{1 2}", "map{'a':1 , :2}", "map{1:2", "map 1:2}", "abs(,)", "abs(1,)", "concat(,1,2)", "concat(1,,2)", "concat(1 2)", "[1 , , 2]", "[1", "1]", "array{1", "array{1,}", "array{,1}", "array 1}", "(1 , , 2)", "a/@", "..a", "child::", "child:: /a", "child::child::a", "/child::", "descendant::", "@*:", "a/*:", "$a:", "$:a", "$$a", "$ a b", "?a?", "1?", "[1]?", "[1]?-1", "[1]?1.5", "[1]?'a'", "[1]?@a", "[1]?()?", "[1]?(1", "1!", "!1", "1 to", "to 1 2", "1 to to 2", "if (1) 2 else 3", "if (1) then else 3", "if (1) then 2 else", "if (1,) then 2 else 3", "1 satisfies 1", "every $x in satisfies 1", "every in 1 satisfies 1", "for $x in return 1", "for $x in 1 return", "for in 1 return 1", "let $x := 1", "let $x := 1 return", "let := 1 return 1", "1 union union 2", "1 intersect", "except 1 1", "1 | | 2", "1 << ", "<< 1", "1 is is 1", "1 and", "1 or", "and 1 1", "1 or or 1", "or 1 1",
    "function($x \"as\" item()){1}", "1 \"instance\" of item()", "1 instance \"of\" item()", "for $x \"in\" 1 return 1", "for $x in 1 \"return\" 1", "if (1) \"then\" 2 else 3", "if (1) then 2 \"else\" 3", "some $x in 1 \"satisfies\" 1", "every $x \"in\" 1 satisfies 1", "let $x \":=\" 1 return 1", "let $x := 1 \"return\" 1", "function() \"as\" item() {1}", "1 cast \"as\" xs:integer", "1 \"castable\" as xs:integer", "1 cast as \"xs:integer\"", "1 \"div\" 1", "1 \"eq\" 1", "1 \"and\" 1", "1 \"to\" 1", "1 \"is\" 1", "\"child\"::a", "$\"x\"", "@\"x\"", "1 instance of \"item\"()", "1 instance of element(\"a\")", "1 instance of function(*) \"as\" item()", "1 instance of function(item()) \"as\" item()", "\"map\"{1:2}", "\"array\"{1}", "\"function\"($x){1}", "1 \"=>\" abs()", "1 => \"abs\"()", "map{\"a\":1}?\"a\"", "\"abs\"#1", "\"a\":b", "a:\"b\"", "a:\"*\"", "\"*\":b", "1 \"|\" 2", "1 instance of map(\"xs:string\", item())",
];

/// A text that is not an expression, made from one (`t`, which stands alone)
/// that is.
pub fn broken(src: &mut Src, t: &str) -> String {
    let k = src.us(61);
    let sym = *src.pick(&["+", "=", ",", "||", "!", "=>", "<=", "|", "!=", ":="]);
    match k {
        0 => format!("{})", t),
        1 => format!("{}]", t),
        2 => format!("{}}}", t),
        3 => format!("({}", t),
        4 => format!("[{}", t),
        5 => format!("({}) {}", t, sym),
        6 => format!("({}) {}", t, src.pick(&["and", "or", "to", "eq", "union", "div", "instance of", "cast as", "castable as", "is"])),
        7 => format!("{} {}", *src.pick(&["=", ",", "||", "!", "=>", "<=", "|", "]", ")", "}", "<", ":", "#", ":="]), t),
        8 => format!("({}) 1", t),
        9 => format!("({}) 'x'", t),
        10 => format!("({}) || 'abc", t),
        11 => format!("({}) || \"abc", t),
        12 => format!("({}) (: x", t),
        13 => format!("({}) (: x (: y :)", t),
        14 => format!("({})[", t),
        15 => format!("({})[1", t),
        16 => format!("({})[]", t),
        17 => src.pick(&["", " ", "\n", "(: only :)", "()()", ",", "(", ")"]).to_string().replace("()()", "(),"),
        18 => format!("if ({}) then 1", t),
        19 => format!("if ({}) 1 else 2", t),
        20 => format!("for $x in {}", t),
        21 => format!("let $x = ({}) return 1", t),
        22 => format!("some $x in ({})", t),
        23 => format!("({}) {} {} ({})", t, sym, *src.pick(&["=", "|", "!", ","]), t),
        24 => format!("({},)", t),
        25 => format!("(,{})", t),
        26 => format!("count({},)", t),
        27 => format!("concat(({}),,({}))", t, t),
        28 => format!("({})//", t),
        29 => format!("({})/", t),
        30 => format!("({})/child::", t),
        31 => format!("({})/nope::a", t),
        32 => format!("({})/@", t),
        33 => format!("map {{ 1 : ({}), }}", t),
        34 => format!("map {{ ({}) }}", t),
        35 => format!("[({}),]", t),
        36 => format!("[({}) 1]", t),
        37 => format!("function($x) ({})", t),
        38 => format!("function(x) {{ {} }}", t),
        39 => format!("({}) cast as", t),
        40 => format!("({}) cast as 5", t),
        41 => format!("({}) instance of", t),
        42 => format!("({})?", t),
        43 => format!("${}", src.pick(&["", " ", "1", "$x", "("])),
        44 => format!("abs#{}", src.pick(&["", "x", "-1", " ", "1.5"])),
        45 => format!("for $x ({}) return 1", t),
        46 => format!("for $x in ({}) retrun 1", t),
        47 => format!("let $x := ({})", t),
        48 => format!("({}, {})", t, src.pick(&["nope#1", "abs#7", "fn:count#0", "map:get#1", "nope:abs#1"])),
        49 => format!("({}, {})", t, src.pick(&["nope(1)", "abs()", "count(1, 2)", "map:get(1)", "nope:abs(1)", "abs(1, 2)"])),
        50 => format!("({}) instance of {}", t, src.pick(&["function(", "function()", "function(xs:integer)", "function(*) as item()", "function() as", "map(", "map(xs:string)", "map(*", "array(", "array()", "element(a", "element(a,)", "(xs:integer", "()", "item(", "item(a)", "array(*", "array(item()", "array(array(*)", "map(*", "map(xs:string, item()", "map(xs:string, array(*)", "map(xs:string item())", "function(*", "function(item() as item()", "function(item()) as array(*", "function(item()) as (item()", "function(array(*) as item()", "element(", "element(*", "node(", "text(", "comment(", "processing-instruction(", "processing-instruction('a'", "processing-instruction(a", "attribute(", "attribute(*", "attribute(a", "empty-sequence(", "((item())", "(item()))"])),
        51 => format!("some $x in ({}) return 1", t),
        52 => src.pick(BAD).to_string(),
        53 => format!("({}, {})", t, src.pick(BAD)),
        54 => format!("({}) = ({})", src.pick(BAD), t),
        55 => format!("[{}, ({})]", src.pick(BAD), t),
        59 | 60 => {
            let n = crate::doc::gen_nonname(src);
            match src.us(6) {
                0 => format!("let ${} := ({}) return 1", n, t),
                1 => format!("({})/{}", t, n),
                2 => format!("({}, ${})", t, n),
                3 => format!("for $a in ({}), ${} in 1 return ${}", t, n, n),
                4 => format!("function(${}) {{ {} }}", n, t),
                _ => format!("({}, map {{}}?{})", t, n),
            }
        }
        56 | 57 => {
            // characters that begin no token, among them white space XPath does not know
            let odd = *src.pick(&['\u{a0}', '\u{85}', '\u{3000}', '\u{2028}', '\u{2003}', '\u{c}', '\u{b}', '%', '&', '^', '~', '`', ';', '\\', '×', '÷']);
            match src.us(4) {
                0 => format!("({}){}+ 1", t, odd),
                1 => format!("{}({})", odd, t),
                2 => format!("({}){}", t, odd),
                _ => format!("({}, {}a)", t, odd),
            }
        }
        _ => format!("for $x := ({}) return 1", t),
    }
}

pub fn x16(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let c = start(src, cx, 6)?;
    let before = c.root.to_string();
    let mut full = 0;
    for _ in 0..6 {
        let ctx = ctx_node(src, &c.d);
        match src.weighted(&[3, 4, 4, 2]) {
            0 => {
                let mut t = String::new();
                let mut n = 0;
                while src.more(n, 14, 9, 10) {
                    n += 1;
                    t.push_str(src.pick(SOUP));
                    if src.flip() {
                        t.push(' ');
                    }
                }
                if dangerous(&t) {
                    cx.label("not run");
                    continue;
                }
                cx.add_case(&format!(" | {:?} from {}", t, c.d.path(ctx)));
                let ok = survives(cx, &c.d, ctx, &t)?;
                cx.label(if ok { "soup: accepted" } else { "soup: rejected" });
                full += (n > 2) as usize;
            }
            1 => {
                let e = gexpr(src, &c.d);
                let t = mutate(src, &e);
                if dangerous(&t) {
                    cx.label("not run");
                    continue;
                }
                cx.add_case(&format!(" | {:?} from {}", t, c.d.path(ctx)));
                let ok = survives(cx, &c.d, ctx, &t)?;
                cx.label(if ok { "mutated: accepted" } else { "mutated: rejected" });
                full += 1;
            }
            2 => {
                let e = gexpr(src, &c.d);
                let t = broken(src, &e);
                if dangerous(&t) {
                    cx.label("not run");
                    continue;
                }
                cx.add_case(&format!(" | {:?} from {}", t, c.d.path(ctx)));
                if survives(cx, &c.d, ctx, &t)? {
                    return Err(format!("{:?} is not an XPath expression but is accepted", t));
                }
                cx.label("broken: rejected");
                full += 1;
            }
            _ => {
                // deep nesting
                let n = if src.chance(1, 16) { 40 + src.us(160) } else { 1 + src.us(40) };
                let (t, w) = deep(src.us(DEEP), n);
                if n > 1 && src.chance(1, 4) {
                    // one bracket or operand is missing at the end or in the middle
                    let s = if src.flip() { src.us(n - 1) } else { n - 1 };
                    let t = deep_broken(src, n, s);
                    cx.add_case(&format!(" | {:?} from {}", t, c.d.path(ctx)));
                    if survives(cx, &c.d, ctx, &t)? {
                        return Err(format!("{:?} is not an XPath expression but is accepted", t));
                    }
                    cx.label("deep, broken: rejected");
                    full += 1;
                    continue;
                }
                cx.add_case(&format!(" | {:?}", t));
                cx.cmp();
                match eval_lib(&c.d.ptr[ctx], &t).map_err(|m| format!("{:?}: {}", t, m))? {
                    Ok(s) if s.to_string() == w => {}
                    Ok(s) => return Err(format!("{:?} gives {} but must be {}", t, s.to_string(), w)),
                    Err(m) => return Err(format!("{:?} gives the error {:?} but must be {}", t, m, w)),
                }
                cx.label("deep");
            }
        }
    }
    if c.root.to_string() != before {
        return Err("the document was changed by a query".into());
    }
    cx.nontrivial = full >= 4;
    Ok(())
}

const DEEP: usize = 30;

/// an expression of n levels and its value
fn deep(k: usize, n: usize) -> (String, String) {
    let r = |s: &str| s.repeat(n);
    let num = n.to_string();
    let one = "1".to_string();
    let yes = "true".to_string();
    match k {
        0 => (format!("{}1{}", r("("), r(")")), one),
        1 => (format!("1{}", " + 1".repeat(n * 4)), (n * 4 + 1).to_string()),
        2 => (format!("{}1{}", r("["), r("]")), format!("{}1{}", r("["), r("]"))),
        3 => (format!("{}1", "-".repeat(2 * n)), one),
        4 => (format!("{}0{}", r("if (1) then "), r(" else 2")), "0".to_string()),
        5 => (format!("count((1){})", r("[1]")), one),
        6 => (format!("let $x := 0 return {}$x", r("let $x := $x + 1 return ")), num),
        7 => (format!("let $x := 0{} return $x", r(", $x := $x + 1")), num),
        8 => (format!("for $x in 0 return {}$x", r("for $x in $x + 1 return ")), num),
        9 => (format!("for $x in 0{} return $x", r(", $x in $x + 1")), num),
        10 => (format!("{}1 = 1", r("some $x in (1, 2)[2] satisfies ")), yes),
        11 => (format!("{}$x = {}", "every $x in 0 satisfies ".to_string() + &r("every $x in $x + 1 satisfies "), n), yes),
        12 => (format!("-1{}", r(" => abs()")), one),
        13 => (format!("string-length({}''{})", r("concat('a', "), r(")")), num),
        14 => (format!("0{}", r(" ! (. + 1)")), num),
        15 => (format!("{}7{}{}", r("["), r("]"), r("?1")), "7".to_string()),
        16 => (format!("{}5{}{}", r("map{1:"), r("}"), r("?1")), "5".to_string()),
        17 => (format!("{}3{}{}", r("function() {"), r("}"), r("()")), "3".to_string()),
        18 => (format!("{}{} 1", r("(:"), r(":)")), one),
        19 => (format!("string-length('a'{})", r(" || 'b'")), (n + 1).to_string()),
        20 => (format!("{}1{}", r("("), r(" instance of item())")), yes),
        21 => (format!("count(.{})", r("/.")), one),
        22 => (format!("count({}1{})", r(".["), r("]")), one),
        23 => (format!("{}1 = 1", r("1 = 2 or ")), yes),
        24 => (format!("{}1 = 1", r("1 = 1 and ")), yes),
        25 => (format!("count((1{}))", r(", 1")), (n + 1).to_string()),
        26 => (format!("count(.{})", r(" | .")), one),
        27 => (format!("{}7", r("if (1 = 2) then 0 else ")), "7".to_string()),
        28 => (format!("{}1{}", r("("), r(" cast as xs:integer)")), one),
        _ => (format!("let $f := function($n) {{ $n + 1 }} return {}0{}", r("$f("), r(")")), num),
    }
}

/// n levels of which level s is not closed, or has no operand
fn deep_broken(src: &mut Src, n: usize, s: usize) -> String {
    // (before, after, what is left of "after" at level s)
    let l: &[(&str, &str, &str)] = &[
        ("(", ")", ""),
        ("(", ")", "]"),
        ("[", "]", ""),
        ("[", "]", ")"),
        ("map{1:", "}", ""),
        ("function() {", "}", ""),
        ("abs(", ")", ""),
        (".[", "]", ""),
        ("if (1) then ", " else 2", ""),
        ("(", " + 1)", " + )"),
        ("(", " instance of item())", " instance of )"),
        ("(", " cast as xs:integer)", " cast as )"),
        ("(", " => abs())", " => abs)"),
        ("[", "]?1", "]?"),
        ("(", " || '')", " || ')"),
        ("(", "[1])", "[])"),
        ("(", ", 1)", ", )"),
        ("(", "/.)", "/ )"),
    ];
    let (a, z, x) = *src.pick(l);
    let mut t = a.repeat(n);
    t.push('1');
    for i in 0..n {
        t.push_str(if i == s { x } else { z });
    }
    t
}

/// a valid expression without long ranges
pub fn gexpr(src: &mut Src, d: &XD) -> String {
    let e = {
        let mut g = G::new(src, d);
        match g.s.weighted(&[4, 2, 2, 1, 1, 2, 2, 2, 2]) {
            8 => {
                let t = crate::xprops5::rtype(&mut g, 2);
                let r = if g.s.flip() { Some(crate::xprops5::rtype(&mut g, 1)) } else { None };
                match g.s.us(3) {
                    0 => E::InstanceOf(b(int(1)), t),
                    1 => E::Inline(Box::new(Inline { params: vec![("v".into(), Some(t)), ("w".into(), None)], ret: r, body: int(1) })),
                    _ => call("count", vec![E::Inline(Box::new(Inline { params: vec![], ret: Some(t), body: E::Seq(vec![]) }))]),
                }
            }
            0 => g.nodes(2),
            1 => g.boolean(2),
            2 => g.string(2),
            3 => g.number(2),
            4 => strfn(&mut g, 1),
            5 => mexp(&mut g, 1),
            6 => hof(&mut g, 1),
            _ => logic(&mut g, 1),
        }
    };
    let (s, x, a) = style(src);
    print_with(src, &e, s, x, a)
}

/// One or two tokens removed, repeated, swapped or replaced.
fn mutate_tokens(src: &mut Src, t: &str) -> String {
    let mut v: Vec<String> = vec![];
    for c in t.chars() {
        let word = c.is_alphanumeric() || c == '_' || c == '-';
        match v.last_mut() {
            Some(w) if word && w.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-') => w.push(c),
            _ => v.push(c.to_string()),
        }
    }
    let mut n = 0;
    while n == 0 || src.more(n, 2, 1, 3) {
        n += 1;
        let at: Vec<usize> = (0..v.len()).filter(|i| !v[*i].trim().is_empty()).collect();
        if at.is_empty() {
            break;
        }
        let i = *src.pick(&at);
        let j = *src.pick(&at);
        match src.us(6) {
            0 | 1 => {
                v.remove(i);
            }
            5 => v[i] = format!("'{}'", v[i].replace('\'', "''")),
            2 => {
                let w = v[j].clone();
                v.insert(i, format!(" {} ", w));
            }
            3 => v.swap(i, j),
            _ => v[i] = if src.flip() { v[j].clone() } else { format!(" {} ", src.pick(SOUP)) },
        }
    }
    v.concat()
}

pub fn mutate(src: &mut Src, t: &str) -> String {
    if src.chance(2, 5) {
        return mutate_tokens(src, t);
    }
    let mut c: Vec<char> = t.chars().collect();
    let mut n = 0;
    while n == 0 || src.more(n, 4, 1, 2) {
        n += 1;
        let len = c.len();
        match src.us(6) {
            0 if len > 0 => {
                let i = src.us(len);
                c.remove(i);
            }
            1 => {
                let i = src.us(len + 1);
                let x: Vec<char> = src.pick(SOUP).chars().collect();
                for (k, ch) in x.into_iter().enumerate() {
                    c.insert(i + k, ch);
                }
            }
            2 if len > 1 => {
                let i = src.us(len - 1);
                c.swap(i, i + 1);
            }
            3 if len > 0 => {
                let i = src.us(len);
                c.truncate(i);
            }
            4 if len > 0 => {
                let i = src.us(len);
                let j = (i + 1 + src.us(6)).min(len);
                let x: Vec<char> = c[i..j].to_vec();
                let at = src.us(len + 1);
                for (k, ch) in x.into_iter().enumerate() {
                    c.insert(at + k, ch);
                }
            }
            _ if len > 0 => {
                let i = src.us(len);
                let j = (i + 1 + src.us(8)).min(len);
                c.drain(i..j);
            }
            _ => {}
        }
    }
    c.into_iter().collect()
}

// ------------------------------------------------------------------ X17

fn rendered(g: &mut G, d: usize) -> E {
    match g.s.weighted(&[5, 3, 3, 2, 2, 2, 1, 2]) {
        0 => num(g),
        1 => {
            let s = crate::doc::gen_text(g.s, 0, 6);
            E::Str(s)
        }
        2 => g.path(0),
        3 => call(if g.s.flip() { "true" } else { "false" }, vec![]),
        4 if d > 0 => {
            let mut v = vec![];
            while g.s.more(v.len(), 4, 4, 5) {
                let x = rendered(g, d - 1);
                v.push(x);
            }
            E::SqArr(v)
        }
        5 if d > 0 => {
            let mut v: Vec<(E, E)> = vec![];
            while g.s.more(v.len(), 3, 3, 4) {
                let k = if g.s.flip() { int(v.len() as i64) } else { st(&format!("k{}", v.len())) };
                let x = rendered(g, d - 1);
                v.push((k, x));
            }
            E::Map(v)
        }
        6 => arith_e(g, 1),
        _ if d > 0 => {
            let mut v = vec![];
            while g.s.more(v.len(), 5, 4, 5) {
                let x = rendered(g, d - 1);
                v.push(x);
            }
            E::Seq(v)
        }
        _ => int(0),
    }
}

pub fn x17(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let c = start(src, cx, 8)?;
    let mut full = 0;
    for _ in 0..8 {
        let ctx = ctx_node(src, &c.d);
        let e = {
            let mut g = G::new(src, &c.d);
            let mut v = vec![];
            while g.s.more(v.len(), 5, 5, 6) {
                let x = rendered(&mut g, 2);
                v.push(x);
            }
            E::Seq(v)
        };
        let text = print(src, &e);
        cx.add_case(&format!(" | {} from {}", text, c.d.path(ctx)));
        let ri = Interp::new(&c.d);
        let w = match ri.run(ctx, &e) {
            Ok(w) => w,
            Err(_) => continue,
        };
        let s = match eval_lib(&c.d.ptr[ctx], &text).map_err(|m| format!("{}: {}", text, m))? {
            Ok(s) => s,
            Err(m) => return Err(format!("{} gives the error {}", text, m)),
        };
        cx.cmp();
        let (ws, gs) = (show_seq(&c.d, &w), guard(|| s.to_string())?);
        if ws != gs {
            return Err(format!("{} is shown as {:?} but must be {:?}", text, gs, ws));
        }
        if s.len() != w.len() {
            return Err(format!("{} has length {} but must have {}", text, s.len(), w.len()));
        }
        for (i, it) in w.iter().enumerate() {
            let x = guard(|| s.get_item(i))?;
            let t = guard(|| x.to_string())?;
            if t != show(&c.d, it) {
                return Err(format!("item {} of {} is shown as {:?} but must be {:?}", i, text, t, show(&c.d, it)));
            }
            let p = guard(|| x.as_nodeptr())?;
            match (it, p) {
                (It::N(n), Some(p)) if p == c.d.ptr[*n] => {}
                (It::N(_), _) => return Err(format!("item {} of {} is not the node", i, text)),
                (_, None) => {}
                (_, Some(_)) => return Err(format!("item {} of {} is not a node but as_nodeptr gives one", i, text)),
            }
        }
        if w.len() >= 2 {
            full += 1;
        }
    }
    cx.nontrivial = full >= 3;
    Ok(())
}

// ------------------------------------------------------------------ X04

pub fn x04(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let doc = gen_xdoc(src, 20);
    let (d, root, xml) = open(&doc)?;
    cx.case(xml);
    // the queries work without a handle of the document node
    drop(root);
    let mut full = 0;
    let mut edit: Option<(usize, String)> = None;
    let mut k = 0;
    for _ in 0..6 {
        let ctx = ctx_node(src, &d);
        let e = {
            let mut g = G::new(src, &d);
            match g.s.weighted(&[4, 2, 1, 2, 3, 4]) {
                0 => g.path(2),
                1 => g.nodes(2),
                2 => g.any(1),
                3 => anyexpr(&mut g),
                4 => {
                    // nodes in any order, more than once, among other items
                    let mut v = vec![];
                    while g.s.more(v.len(), 4, 4, 5) {
                        let x = if g.s.chance(1, 4) { g.any(0) } else { g.path(1) };
                        v.push(x);
                    }
                    E::Seq(v)
                }
                _ => {
                    let ax = *g.s.pick(&[Axis::Child, Axis::Attribute, Axis::Descendant, Axis::Following, Axis::Ancestor, Axis::Preceding]);
                    let t = g.test(ax);
                    E::DSlash(b(E::Root), b(step(ax, t)))
                }
            }
        };
        let text = print(src, &e);
        cx.add_case(&format!(" | {} from {}", text, d.path(ctx)));
        let o = check(cx, &d, ctx, &e, &text)?;
        if o == Out::Huge {
            continue;
        }
        let n = &d.ptr[ctx];
        let at = |m: String| format!("{} from {}: {}", text, d.path(ctx), m);
        let base = eval_lib(n, &text).map_err(&at)?;
        let exp: Result<Vec<NodePtr>, ()> = match &base {
            Ok(s) => Ok((0..s.len()).filter_map(|i| s.get_item(i).as_nodeptr()).collect()),
            Err(_) => Err(()),
        };
        cx.cmp();
        let set = guard(|| n.get_nodeset(&text).map_err(|_| ())).map_err(&at)?;
        let id = |v: &Vec<NodePtr>| -> Vec<String> { v.iter().map(|p| d.find(p).map(|i| d.path(i)).unwrap_or("?".into())).collect() };
        match (&exp, &set) {
            (Ok(a), Ok(b)) if a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x == y) => {}
            (Err(_), Err(_)) => {}
            _ => return Err(at(format!("get_nodeset gives {:?}, eval_xpath {:?}", set.as_ref().map(&id), exp.as_ref().map(&id)))),
        }
        let first = guard(|| n.get_first_node(&text)).map_err(&at)?;
        match (&exp, &first) {
            (Ok(v), Some(p)) if !v.is_empty() && v[0] == *p => {}
            (Ok(v), None) if v.is_empty() => {}
            (Err(_), None) => {}
            _ => return Err(at("get_first_node is not the first node".into())),
        }
        let mut seen: Vec<NodePtr> = vec![];
        let r = guard(|| n.each_node(&text, |p| seen.push(p)).is_ok()).map_err(&at)?;
        match &exp {
            Ok(v) if r && v.len() == seen.len() && v.iter().zip(seen.iter()).all(|(x, y)| x == y) => {}
            Err(_) if !r && seen.is_empty() => {}
            _ => return Err(at("each_node does not visit the nodes of the result in order".into())),
        }
        if let Ok(v) = &exp {
            if v.len() >= 2 {
                full += 1;
                if edit.is_none() || k >= 3 {
                    edit = Some((ctx, text.clone()));
                }
            }
        }
        k += 1;
    }
    // the callback may edit the document: every node of the result is visited all the same
    if let Some((ctx, text)) = edit {
        let how = src.us(4);
        cx.add_case(&format!(" | each_node {} from {} editing ({})", text, d.path(ctx), ["deleting the nodes", "deleting what follows", "setting attributes", "adding children"][how]));
        let n = d.ptr[ctx].rc_clone();
        let at = |m: String| format!("{} from {}: {}", text, d.path(ctx), m);
        if let Ok(v) = guard(|| n.get_nodeset(&text).map_err(|_| ())).map_err(&at)? {
            let mut seen: Vec<NodePtr> = vec![];
            let mut tick = 0;
            guard(|| {
                n.each_node(&text, |mut p| {
                    let ty = p.node_type();
                    let elem = ty == NodeType::Element;
                    match how {
                        0 | 1 => {
                            let victim = if how == 0 || seen.len() + 1 >= v.len() { &v[seen.len().min(v.len() - 1)] } else { &v[seen.len() + 1] };
                            let vt = victim.node_type();
                            if let Some(q) = victim.parent() {
                                if vt == NodeType::Attribute {
                                    let mut q = q;
                                    q.delete_attribute(&victim.name());
                                } else if vt != NodeType::DocumentRoot {
                                    q.delete_child(victim);
                                }
                            }
                        }
                        2 => {
                            if elem {
                                tick += 1;
                                p.set_attribute("zz", &format!("{}", tick));
                            }
                        }
                        _ => {
                            if elem {
                                if let Ok(o) = new_document("<zz><zz/></zz>") {
                                    p.append_child(&o.root_element());
                                }
                            }
                        }
                    }
                    seen.push(p);
                })
                .is_ok()
            })
            .map_err(&at)?;
            cx.cmp();
            if v.len() != seen.len() || !v.iter().zip(seen.iter()).all(|(x, y)| x == y) {
                return Err(at(format!("each_node whose callback edits the document visits {} nodes, not the {} of the result in order", seen.len(), v.len())));
            }
        }
    }
    cx.nontrivial = full >= 2;
    Ok(())
}

// ------------------------------------------------------------------ X19

/// an expression that depends on the text of a literal
fn textual(g: &mut G) -> E {
    const T: &[&str] = &["a b", "a  b", " a", "a ", "a(b", "(: a :)", "it's", "\"q\"", "A b", "1 + 1", "a\tb", "x,y", "é b"];
    let t = st(*g.s.pick(T));
    match g.s.us(5) {
        0 => t,
        1 => call("string-length", vec![t]),
        2 => {
            let n = g.nodes(0);
            bin("=", n, t)
        }
        3 => {
            let p = g.path(0);
            E::Filter(b(E::Seq(vec![p])), b(bin("!=", E::Ctx, t)))
        }
        _ => {
            let u = st(*g.s.pick(T));
            call("concat", vec![t, u])
        }
    }
}

pub fn x19(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let doc = gen_xdoc(src, 16);
    let (d, root, xml) = open(&doc)?;
    cx.case(xml.clone());
    let before = (root.to_string(), root.to_pretty_string());
    let mut ex: Vec<(usize, String)> = vec![];
    let mut made: Vec<(usize, E)> = vec![];
    for _ in 0..6 {
        // a new query, one that is nearly an earlier one, or an earlier one from another node
        let how = if made.is_empty() { 0 } else { src.weighted(&[4, 4, 1]) };
        let (ctx, e) = match how {
            0 => {
                let ctx = ctx_node(src, &d);
                let e = if src.chance(1, 3) { textual(&mut G::new(src, &d)) } else { anyexpr(&mut G::new(src, &d)) };
                (ctx, e)
            }
            1 => {
                let (ctx, e) = src.pick(&made).clone();
                match tweak(src, &e) {
                    Some(t) => (ctx, t),
                    None => continue,
                }
            }
            _ => {
                let e = src.pick(&made).1.clone();
                (ctx_node(src, &d), e)
            }
        };
        let text = if src.flip() { print_with(src, &e, Style::Natural, 0, Some(true)) } else { print(src, &e) };
        cx.add_case(&format!(" | {} from {}", text, d.path(ctx)));
        if check(cx, &d, ctx, &e, &text)? != Out::Huge {
            ex.push((ctx, text));
        }
        made.push((ctx, e));
    }
    let mut first: Vec<Option<Vec<String>>> = vec![None; ex.len()];
    let mut ok = 0;
    let order: Vec<usize> = if ex.is_empty() { vec![] } else { (0..12).map(|_| src.us(ex.len())).collect() };
    cx.add_case(&format!(" | order {:?}", order));
    for i in order.iter().chain(order.iter().rev()) {
        let (ctx, text) = &ex[*i];
        let r = eval_lib(&d.ptr[*ctx], text).map_err(|m| format!("{}: {}", text, m))?;
        ok += r.is_ok() as usize;
        let r = shown(&d, &r);
        cx.cmp();
        match &first[*i] {
            None => first[*i] = Some(r),
            Some(f) if *f == r => {}
            Some(f) => return Err(format!("{} from {} gives {:?} the first time and {:?} later", text, d.path(*ctx), f, r)),
        }
    }
    if (root.to_string(), root.to_pretty_string()) != before {
        return Err("the document was changed by the queries".into());
    }
    let again = all(&root);
    if again.len() != d.ptr.len() || again.iter().zip(d.ptr.iter()).any(|(a, b)| a != b) {
        return Err("the nodes of the document are not the same after the queries".into());
    }
    // a second document with the same text gives the same results
    let (d2, _root2, _) = open(&doc)?;
    for i in (0..ex.len()).rev() {
        if let Some(f) = &first[i] {
            let (ctx, text) = &ex[i];
            let r = shown(&d2, &eval_lib(&d2.ptr[*ctx], text).map_err(|m| format!("{}: {}", text, m))?);
            cx.cmp();
            if r != *f {
                return Err(format!("{} from {} gives {:?}, and {:?} on an equal document", text, d.path(*ctx), f, r));
            }
        }
    }
    cx.nontrivial = ok >= 6;
    Ok(())
}

fn all(n: &NodePtr) -> Vec<NodePtr> {
    crate::dprops::all_nodes(n)
}

// ------------------------------------------------------------------ D10

/// The arena of a document that exists already.
pub fn arena(root: &NodePtr) -> XD {
    let mut x = XD { n: vec![], ptr: vec![] };
    fn go(x: &mut XD, p: &NodePtr, parent: Option<usize>) -> usize {
        let k = match p.node_type() {
            NodeType::DocumentRoot => K::Doc,
            NodeType::Element => K::Elem,
            NodeType::Attribute => K::Attr,
            NodeType::Text => K::Text,
            NodeType::Comment => K::Comment,
            NodeType::Instruction => K::Pi,
            NodeType::XMLDecl => K::Decl,
            NodeType::Directive => panic!("directive"),
        };
        let i = x.n.len();
        let name = if matches!(k, K::Elem | K::Attr | K::Pi | K::Decl) { p.name() } else { String::new() };
        let value = if matches!(k, K::Elem | K::Doc) { String::new() } else { p.value() };
        x.n.push(Nd { k, name, value, parent, kids: vec![], attrs: vec![], end: 0 });
        x.ptr.push(p.clone());
        for a in p.attributes() {
            let j = go(x, &a, Some(i));
            x.n[i].attrs.push(j);
        }
        for c in p.children() {
            let j = go(x, &c, Some(i));
            x.n[i].kids.push(j);
        }
        x.n[i].end = x.n.len();
        i
    }
    go(&mut x, root, None);
    x
}

fn query(src: &mut Src, cx: &mut Cx, d: &XD) -> Result<Out, String> {
    let ctx = ctx_node(src, d);
    let e = {
        let mut g = G::new(src, d);
        match g.s.weighted(&[4, 3, 2, 1]) {
            0 => g.path(1),
            1 => {
                let op = *g.s.pick(&["union", "|", "intersect", "except"]);
                let l = g.path(0);
                let r = g.path(0);
                bin(op, l, r)
            }
            2 => {
                let ax = *g.s.pick(&[Axis::Following, Axis::Preceding, Axis::FollowingSibling, Axis::PrecedingSibling, Axis::Descendant]);
                let t = g.test(ax);
                E::DSlash(b(E::Root), b(E::Slash(b(step(Axis::Child, Test::Star)), b(step(ax, t)))))
            }
            _ => {
                let op = *g.s.pick(&["is", "<<", ">>"]);
                let l = g.path(0);
                let r = g.path(0);
                let i = int(g.s.range(1, 3));
                let j = int(g.s.range(1, 3));
                bin(op, E::Filter(b(E::Seq(vec![l])), b(i)), E::Filter(b(E::Seq(vec![r])), b(j)))
            }
        }
    };
    let text = print(src, &e);
    cx.add_case(&format!(" | {} from {}", text, d.path(ctx)));
    check(cx, d, ctx, &e, &text)
}

pub fn d10(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let doc = gen_xdoc(src, 14);
    let (_, root, xml) = open(&doc)?;
    cx.case(xml);
    let mut full = 0;
    let mut edits = 0;
    let mut n = 0;
    let mut gone: Vec<NodePtr> = vec![];
    while n < 2 || src.more(n, 9, 5, 6) {
        n += 1;
        // mostly the document, sometimes a tree that was taken out of it
        let cur = if gone.is_empty() || !src.chance(1, 4) { root.clone() } else { src.pick(&gone).clone() };
        let d = arena(&cur);
        cx.label_if(d.n[0].k != K::Doc, "tree without a document node");
        let mut k = 0;
        while src.more(k, 3, 2, 3) {
            k += 1;
            if query(src, cx, &d)? == Out::Ok && edits > 0 {
                full += 1;
            }
        }
        // one edit
        let elems: Vec<usize> = (0..d.n.len()).filter(|i| d.n[*i].k == K::Elem).collect();
        let movable: Vec<usize> =
            (1..d.n.len()).filter(|i| !matches!(d.n[*i].k, K::Attr | K::Decl) && (d.n[0].k == K::Elem || d.n[*i].parent != Some(0))).collect();
        if elems.is_empty() {
            continue;
        }
        let at = *src.pick(&elems);
        let mut a = d.ptr[at].clone();
        let fresh = |src: &mut Src| -> NodePtr {
            let mut budget = 4;
            let m = crate::xdoc::xelem(src, 2, &mut budget);
            let x = new_document(&canonical(&vec![m])).expect("fragment");
            x.root_element()
        };
        let op = src.us(9);
        match op {
            0 => {
                let f = fresh(src);
                cx.add_case(&format!(" | append {} to {}", f, d.path(at)));
                guard(|| a.append_child(&f))?;
            }
            1 | 2 if d.n[at].parent.map_or(false, |p| d.n[p].k != K::Doc) => {
                let f = fresh(src);
                cx.add_case(&format!(" | insert {} {} {}", f, if op == 1 { "before" } else { "after" }, d.path(at)));
                guard(|| if op == 1 { a.insert_as_previous_sibling(&f) } else { a.insert_as_next_sibling(&f) })?;
            }
            3 | 4 if !movable.is_empty() => {
                // move an existing node
                let m = *src.pick(&movable);
                if m == at || d.is_ancestor(m, at) {
                    continue;
                }
                let p = d.ptr[m].clone();
                if op == 3 || d.n[at].parent.map_or(true, |p| d.n[p].k == K::Doc) {
                    cx.add_case(&format!(" | move {} to the end of {}", d.path(m), d.path(at)));
                    guard(|| a.append_child(&p))?;
                } else {
                    let next = src.flip();
                    cx.add_case(&format!(" | move {} {} {}", d.path(m), if next { "behind" } else { "before" }, d.path(at)));
                    guard(|| if next { a.insert_as_next_sibling(&p) } else { a.insert_as_previous_sibling(&p) })?;
                }
            }
            5 if !movable.is_empty() => {
                let m = *src.pick(&movable);
                cx.add_case(&format!(" | delete {}", d.path(m)));
                let up = d.ptr[d.n[m].parent.unwrap()].clone();
                let mut up = up;
                guard(|| up.delete_child(&d.ptr[m]))?;
                gone.push(d.ptr[m].clone());
            }
            8 if !gone.is_empty() => {
                // back into the document, or into another such tree
                let k = src.us(gone.len());
                let h = gone[k].clone();
                if h == d.ptr[0] {
                    continue;
                }
                if h.node_type() == NodeType::Attribute {
                    continue;
                }
                gone.remove(k);
                cx.add_case(&format!(" | put {} back into {}", h, d.path(at)));
                guard(|| a.append_child(&h))?;
            }
            6 => {
                let k = src.pick(ANAMES).to_string();
                let v = src.pick(VALUES).to_string();
                cx.add_case(&format!(" | set {} = {:?} on {}", k, v, d.path(at)));
                if let Some(i) = d.n[at].attrs.iter().find(|i| d.n[**i].name == k) {
                    gone.push(d.ptr[*i].clone());
                }
                guard(|| a.set_attribute(&k, &v))?;
            }
            7 => {
                let k = src.pick(ANAMES).to_string();
                if let Some(i) = d.n[at].attrs.iter().find(|i| d.n[**i].name == k) {
                    gone.push(d.ptr[*i].clone());
                }
                cx.add_case(&format!(" | delete {} of {}", k, d.path(at)));
                guard(|| a.delete_attribute(&k))?;
            }
            _ => continue,
        }
        edits += 1;
    }
    let d = arena(&root);
    for _ in 0..3 {
        if query(src, cx, &d)? == Out::Ok {
            full += 1;
        }
    }
    cx.nontrivial = edits >= 2 && full >= 2;
    Ok(())
}
