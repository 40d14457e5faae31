//! Types of functions: signatures and the subtype relation, written from the
//! recommendations (XPath 3.1, 2.5.6; Functions and Operators 3.1).

use crate::xast::*;
use crate::xref::derives;

/// Signatures as printed in Functions and Operators, for the functions the
/// library has.
pub const SIGNATURES: &[&str] = &[
    "nilled() as xs:boolean?",
    "nilled(node()?) as xs:boolean?",
    "string() as xs:string",
    "string(item()?) as xs:string",
    "data() as xs:anyAtomicType*",
    "data(item()*) as xs:anyAtomicType*",
    "abs(xs:numeric?) as xs:numeric?",
    "ceiling(xs:numeric?) as xs:numeric?",
    "floor(xs:numeric?) as xs:numeric?",
    "round(xs:numeric?) as xs:numeric?",
    "number() as xs:double",
    "number(xs:anyAtomicType?) as xs:double",
    "codepoints-to-string(xs:integer*) as xs:string",
    "string-to-codepoints(xs:string?) as xs:integer*",
    "compare(xs:string?, xs:string?) as xs:integer?",
    "codepoint-equal(xs:string?, xs:string?) as xs:boolean?",
    "concat(xs:anyAtomicType?, xs:anyAtomicType?) as xs:string",
    "concat(xs:anyAtomicType?, xs:anyAtomicType?, xs:anyAtomicType?) as xs:string",
    "concat(xs:anyAtomicType?, xs:anyAtomicType?, xs:anyAtomicType?, xs:anyAtomicType?) as xs:string",
    "string-join(xs:string*, xs:string) as xs:string",
    "substring(xs:string?, xs:double) as xs:string",
    "substring(xs:string?, xs:double, xs:double) as xs:string",
    "string-length() as xs:integer",
    "string-length(xs:string?) as xs:integer",
    "normalize-space() as xs:string",
    "normalize-space(xs:string?) as xs:string",
    "upper-case(xs:string?) as xs:string",
    "lower-case(xs:string?) as xs:string",
    "translate(xs:string?, xs:string, xs:string) as xs:string",
    "contains(xs:string?, xs:string?) as xs:boolean",
    "starts-with(xs:string?, xs:string?) as xs:boolean",
    "ends-with(xs:string?, xs:string?) as xs:boolean",
    "substring-before(xs:string?, xs:string?) as xs:string",
    "substring-after(xs:string?, xs:string?) as xs:string",
    "true() as xs:boolean",
    "false() as xs:boolean",
    "boolean(item()*) as xs:boolean",
    "not(item()*) as xs:boolean",
    "name() as xs:string",
    "name(node()?) as xs:string",
    "local-name() as xs:string",
    "local-name(node()?) as xs:string",
    "lang(xs:string?) as xs:boolean",
    "lang(xs:string?, node()) as xs:boolean",
    "root() as node()",
    "root(node()?) as node()?",
    "empty(item()*) as xs:boolean",
    "exists(item()*) as xs:boolean",
    "head(item()*) as item()?",
    "tail(item()*) as item()*",
    "insert-before(item()*, xs:integer, item()*) as item()*",
    "remove(item()*, xs:integer) as item()*",
    "reverse(item()*) as item()*",
    "subsequence(item()*, xs:double) as item()*",
    "subsequence(item()*, xs:double, xs:double) as item()*",
    "index-of(xs:anyAtomicType*, xs:anyAtomicType) as xs:integer*",
    "zero-or-one(item()*) as item()?",
    "one-or-more(item()*) as item()+",
    "exactly-one(item()*) as item()",
    "count(item()*) as xs:integer",
    "avg(xs:anyAtomicType*) as xs:anyAtomicType?",
    "max(xs:anyAtomicType*) as xs:anyAtomicType?",
    "min(xs:anyAtomicType*) as xs:anyAtomicType?",
    "sum(xs:anyAtomicType*, xs:anyAtomicType?) as xs:anyAtomicType?",
    "position() as xs:integer",
    "last() as xs:integer",
    "for-each(item()*, function(item()) as item()*) as item()*",
    "filter(item()*, function(item()) as xs:boolean) as item()*",
    "map:size(map(*)) as xs:integer",
    "map:keys(map(*)) as xs:anyAtomicType*",
    "map:contains(map(*), xs:anyAtomicType) as xs:boolean",
    "map:get(map(*), xs:anyAtomicType) as item()*",
    "array:size(array(*)) as xs:integer",
    "array:get(array(*), xs:integer) as item()*",
    "array:flatten(item()*) as item()*",
];

pub type Sig = (Vec<ST>, ST);

fn parse_st(s: &str) -> ST {
    let s = s.trim();
    let (t, occ) = match s.chars().last() {
        Some(c @ ('?' | '*' | '+')) => (&s[..s.len() - 1], c),
        _ => (s, ' '),
    };
    let it = match t {
        "item()" => IT::Item,
        "node()" => IT::Kind(Kind::Node),
        "map(*)" => IT::AnyMap,
        "array(*)" => IT::AnyArr,
        "function(item()) as item()" => return ST(Some((IT::Fn(vec![one(IT::Item)], Box::new(ST(Some((IT::Item, occ))))), ' '))),
        "function(item()) as xs:boolean" => IT::Fn(vec![one(IT::Item)], Box::new(one(IT::Atomic("xs:boolean".into())))),
        a => IT::Atomic(a.to_string()),
    };
    ST(Some((it, occ)))
}

pub fn one(it: IT) -> ST {
    ST(Some((it, ' ')))
}

pub fn parse_sig(s: &str) -> (String, Sig) {
    let open = s.find('(').unwrap();
    // the parenthesis that closes the list
    let mut depth = 0;
    let mut close = 0;
    for (i, c) in s.char_indices() {
        match c {
            '(' => depth += 1,
            ')' => {
                depth -= 1;
                if depth == 0 {
                    close = i;
                    break;
                }
            }
            _ => {}
        }
    }
    let inner = &s[open + 1..close];
    let params = if inner.is_empty() { vec![] } else { inner.split(", ").map(parse_st).collect() };
    (s[..open].to_string(), (params, parse_st(s[close + 1..].trim().strip_prefix("as ").unwrap())))
}

pub fn signature(name: &str, arity: usize) -> Option<Sig> {
    SIGNATURES.iter().map(|s| parse_sig(s)).find(|(n, s)| n == name && s.0.len() == arity).map(|x| x.1)
}

pub fn any() -> ST {
    ST(Some((IT::Item, '*')))
}

/// true, false, or not specified here
pub type T3 = Option<bool>;

fn and(a: T3, b: impl FnOnce() -> T3) -> T3 {
    match a {
        Some(false) => Some(false),
        Some(true) => b(),
        None => match b() {
            Some(false) => Some(false),
            _ => None,
        },
    }
}

/// 2.5.6.1
pub fn subtype(a: &ST, b: &ST) -> T3 {
    // xs:error has no values: with ? and * only the empty sequence is left
    let never = |t: &ST| matches!(&t.0, Some((IT::Atomic(n), ' ' | '+')) if n == "xs:error");
    let void = |t: &ST| matches!(&t.0, Some((IT::Atomic(n), '?' | '*')) if n == "xs:error");
    if never(a) {
        return Some(true);
    }
    if never(b) {
        return Some(false);
    }
    if void(a) {
        return subtype(&ST(None), b);
    }
    if void(b) {
        return subtype(a, &ST(None));
    }
    let (x, y) = match (&a.0, &b.0) {
        (None, None) => return Some(true),
        (None, Some((_, o))) => return Some(matches!(o, '?' | '*')),
        (Some(_), None) => return Some(false),
        (Some(x), Some(y)) => (x, y),
    };
    let card = match (x.1, y.1) {
        (_, '*') | (' ', _) => true,
        ('?', '?') | ('+', '+') => true,
        _ => false,
    };
    and(Some(card), || subtype_item(&x.0, &y.0))
}

/// 2.5.6.2
pub fn subtype_item(a: &IT, b: &IT) -> T3 {
    match (a, b) {
        (_, IT::Item) => Some(true),
        (IT::Item, _) => Some(false),
        (IT::Atomic(x), IT::Atomic(y)) => Some(derives(x, y)),
        (IT::Kind(x), IT::Kind(y)) => Some(subkind(x, y)),
        (IT::AnyFn | IT::Fn(..) | IT::AnyMap | IT::Map(..) | IT::AnyArr | IT::Arr(_), IT::AnyFn) => Some(true),
        (IT::AnyFn, _) => Some(false),
        (IT::Fn(p, r), IT::Fn(q, s)) => sub_sig(&(p.clone(), (**r).clone()), &(q.clone(), (**s).clone())),
        (IT::AnyMap | IT::Map(..), IT::AnyMap) => Some(true),
        (IT::AnyArr | IT::Arr(_), IT::AnyArr) => Some(true),
        (IT::AnyMap, IT::Map(k, v)) => and(Some(k == "xs:anyAtomicType"), || subtype(&any(), v)),
        (IT::AnyArr, IT::Arr(v)) => subtype(&any(), v),
        (IT::Map(k, v), IT::Map(l, w)) => and(Some(derives(k, l)), || subtype(v, w)),
        (IT::Arr(v), IT::Arr(w)) => subtype(v, w),
        (IT::AnyMap, IT::Fn(q, s)) => map_fn("xs:anyAtomicType", &any(), q, s),
        (IT::Map(k, v), IT::Fn(q, s)) => map_fn(k, v, q, s),
        (IT::AnyArr, IT::Fn(q, s)) => arr_fn(&any(), q, s),
        (IT::Arr(v), IT::Fn(q, s)) => arr_fn(v, q, s),
        _ => Some(false),
    }
}

/// A map is a function(xs:anyAtomicType) as V?, in the recommendation; the
/// library (and its tests) take the key type of the map and V. Decided here
/// when both agree.
fn map_fn(k: &str, v: &ST, q: &[ST], s: &ST) -> T3 {
    if error_param(q) {
        return None;
    }
    if q.len() != 1 {
        return Some(false);
    }
    let rec = {
        let v0 = match &v.0 {
            None => ST(None),
            Some((t, o)) => ST(Some((t.clone(), if matches!(o, ' ' | '?') { '?' } else { '*' }))),
        };
        and(subtype(&q[0], &one(IT::Atomic("xs:anyAtomicType".into()))), || subtype(&v0, s))
    };
    let lib = match &q[0].0 {
        Some((t, _)) => and(subtype_item(&IT::Atomic(k.into()), t), || subtype(v, s)),
        None => None,
    };
    if rec == lib {
        rec
    } else {
        None
    }
}

fn arr_fn(v: &ST, q: &[ST], s: &ST) -> T3 {
    if error_param(q) {
        return None;
    }
    if q.len() != 1 {
        return Some(false);
    }
    and(subtype(&q[0], &one(IT::Atomic("xs:integer".into()))), || subtype(v, s))
}

/// whether the parameter of a map or array used as a function is xs:error
pub fn error_param(q: &[ST]) -> bool {
    q.len() == 1 && matches!(&q[0].0, Some((IT::Atomic(n), _)) if n == "xs:error")
}

pub fn sub_sig(a: &Sig, b: &Sig) -> T3 {
    if a.0.len() != b.0.len() {
        return Some(false);
    }
    let mut r = subtype(&a.1, &b.1);
    for (x, y) in a.0.iter().zip(b.0.iter()) {
        r = and(r, || subtype(y, x));
    }
    r
}

fn ty_anc(t: &str) -> &'static [&'static str] {
    match t {
        "xs:untyped" => &["xs:untyped", "xs:anyType"],
        "xs:untypedAtomic" => &["xs:untypedAtomic", "xs:anyAtomicType", "xs:anySimpleType", "xs:anyType"],
        "xs:anyAtomicType" => &["xs:anyAtomicType", "xs:anySimpleType", "xs:anyType"],
        "xs:string" => &["xs:string", "xs:anyAtomicType", "xs:anySimpleType", "xs:anyType"],
        "xs:anySimpleType" => &["xs:anySimpleType", "xs:anyType"],
        _ => &["xs:anyType"],
    }
}

fn subkind(a: &Kind, b: &Kind) -> bool {
    match (a, b) {
        (_, Kind::Node) => true,
        (Kind::Text, Kind::Text) | (Kind::Comment, Kind::Comment) => true,
        (Kind::Pi(_), Kind::Pi(None)) => true,
        (Kind::Pi(x), Kind::Pi(y)) => x == y,
        (Kind::Elem(n, t), Kind::Elem(m, u)) => {
            let dflt = ("xs:anyType".to_string(), true);
            let (tn, tq) = t.as_ref().unwrap_or(&dflt);
            let (un, uq) = u.as_ref().unwrap_or(&dflt);
            (m.is_none() || n == m) && ty_anc(tn).contains(&un.as_str()) && (*uq || !*tq)
        }
        (Kind::Attr(n, t), Kind::Attr(m, u)) => {
            let dflt = "xs:anyType".to_string();
            let tn = t.as_ref().unwrap_or(&dflt);
            let un = u.as_ref().unwrap_or(&dflt);
            (m.is_none() || n == m) && ty_anc(tn).contains(&un.as_str())
        }
        _ => false,
    }
}
