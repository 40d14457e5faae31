//! Reference versions of the built-in functions (XPath Functions 3.1).

use crate::xdoc::K;
use crate::xref::*;
use std::rc::Rc;

fn atom_opt(x: &Interp, a: &Seq) -> Result<Option<It>, Er> {
    let v = x.atomize(a)?;
    match v.len() {
        0 => Ok(None),
        1 => Ok(Some(v[0].clone())),
        _ => ty("more than one item"),
    }
}

fn str_opt(x: &Interp, a: &Seq) -> Result<Option<String>, Er> {
    match atom_opt(x, a)? {
        None => Ok(None),
        Some(It::S(s)) | Some(It::U(s)) => Ok(Some(s)),
        Some(_) => ty("not a string"),
    }
}
fn str_or_empty(x: &Interp, a: &Seq) -> Result<String, Er> {
    Ok(str_opt(x, a)?.unwrap_or_default())
}
fn str_req(x: &Interp, a: &Seq) -> Result<String, Er> {
    match str_opt(x, a)? {
        Some(s) => Ok(s),
        None => ty("a string is required"),
    }
}
fn num_opt(x: &Interp, a: &Seq) -> Result<Option<It>, Er> {
    match atom_opt(x, a)? {
        None => Ok(None),
        Some(It::U(s)) => Ok(Some(It::F(str_to_double(&s)?))),
        Some(v @ (It::I(_) | It::D(_) | It::F(_))) => Ok(Some(v)),
        Some(_) => ty("not a number"),
    }
}
fn dbl_req(x: &Interp, a: &Seq) -> Result<f64, Er> {
    // a node is untyped and cast, a string is an error (but not in the library)
    let node = matches!(a.as_slice(), [It::N(_)]);
    match x.atomize(a)?.as_slice() {
        [v @ (It::I(_) | It::D(_) | It::F(_))] => Ok(to_f(v)),
        [It::S(s)] if node => str_to_double(s),
        [_] => unspec("position that is not a number"),
        _ => ty("one number is required"),
    }
}
fn int_req(x: &Interp, a: &Seq) -> Result<i64, Er> {
    match atom_opt(x, a)? {
        Some(It::I(i)) => Ok(i),
        None => ty("an integer is required"),
        _ => unspec("position that is not an integer"),
    }
}
fn node_opt(a: &Seq) -> Result<Option<usize>, Er> {
    match a.as_slice() {
        [] => Ok(None),
        [It::N(n)] => Ok(Some(*n)),
        _ => ty("a node is required"),
    }
}

pub fn round_half_up(f: f64) -> f64 {
    if f.is_nan() || f.is_infinite() || f == 0.0 {
        return f;
    }
    let fl = f.floor();
    let r = if f - fl >= 0.5 { fl + 1.0 } else { fl };
    if r == 0.0 && f < 0.0 {
        -0.0
    } else {
        r
    }
}

fn is_xml_char(c: i64) -> bool {
    matches!(c, 0x9 | 0xA | 0xD | 0x20..=0xD7FF | 0xE000..=0xFFFD | 0x10000..=0x10FFFF)
}

pub fn normalize(s: &str) -> String {
    s.split(|c| matches!(c, ' ' | '\t' | '\n' | '\r')).filter(|p| !p.is_empty()).collect::<Vec<_>>().join(" ")
}

fn one(i: It) -> R {
    Ok(vec![i])
}
fn s1(s: String) -> R {
    one(It::S(s))
}
fn b1(v: bool) -> R {
    one(It::B(v))
}
fn i1(v: usize) -> R {
    one(It::I(v as i64))
}

fn map_arg(a: &Seq) -> Result<Rc<Vec<(It, Seq)>>, Er> {
    match a.as_slice() {
        [It::M(m)] => Ok(m.clone()),
        _ => ty("a map is required"),
    }
}
fn arr_arg(a: &Seq) -> Result<Rc<Vec<Seq>>, Er> {
    match a.as_slice() {
        [It::A(m)] => Ok(m.clone()),
        _ => ty("an array is required"),
    }
}
fn fn_arg(a: &Seq) -> Result<It, Er> {
    match a.as_slice() {
        [f @ (It::Fn(_) | It::M(_) | It::A(_))] => Ok(f.clone()),
        _ => ty("a function is required"),
    }
}

fn string_fn(x: &Interp, a: &Seq) -> Result<String, Er> {
    match a.as_slice() {
        [] => Ok(String::new()),
        [It::N(n)] => x.sv(*n),
        [i] => string_of(i),
        _ => ty("string() of a sequence"),
    }
}

fn flatten(a: &Seq, out: &mut Seq) {
    for i in a {
        match i {
            It::A(m) => m.iter().for_each(|s| flatten(s, out)),
            x => out.push(x.clone()),
        }
    }
}

/// the arguments of avg/sum: untyped values become doubles
fn numbers(x: &Interp, a: &Seq) -> R {
    let mut v = vec![];
    for i in x.atomize(a)? {
        v.push(match i {
            // the library has no untyped values: strings are numbers here
            It::U(s) | It::S(s) => It::F(str_to_double(&s)?),
            n @ (It::I(_) | It::D(_) | It::F(_)) => n,
            _ => return ty("not a number"),
        });
    }
    Ok(v)
}

fn total(v: &Seq) -> Result<It, Er> {
    let mut t = v[0].clone();
    for y in &v[1..] {
        t = arith("+", &t, y)?;
    }
    Ok(t)
}

/// namespace URI of an element or attribute name
pub fn ns_uri(x: &Interp, n: usize) -> String {
    let d = x.d;
    let nd = &d.n[n];
    let prefix = nd.name.split_once(':').map(|p| p.0);
    let key = match (nd.k, prefix) {
        (K::Elem, None) => "xmlns".to_string(),
        (K::Elem | K::Attr, Some("xml")) => return "http://www.w3.org/XML/1998/namespace".into(),
        (K::Elem | K::Attr, Some(p)) => format!("xmlns:{}", p),
        _ => return String::new(),
    };
    let mut p = if nd.k == K::Attr { nd.parent } else { Some(n) };
    while let Some(i) = p {
        if let Some(v) = d.attr(i, &key) {
            return v.to_string();
        }
        p = d.n[i].parent;
    }
    String::new()
}

pub fn call(x: &Interp, name: &str, args: Vec<Seq>, c: &Cxt) -> R {
    let empty = args.len() >= 2 && args.iter().any(|a| a.is_empty() || x.atomize(a).is_ok_and(|v| v.is_empty()));
    match call0(x, name, args, c) {
        // whether an error in one argument is noticed when another one is
        // empty is open for the functions that give an empty result then
        Err(Er::E(_)) if empty && EMPTY_FIRST.contains(&name.strip_prefix("fn:").unwrap_or(name)) => unspec("an empty argument and an error"),
        r => r,
    }
}

const EMPTY_FIRST: &[&str] = &["substring", "subsequence", "compare", "codepoint-equal", "index-of", "translate", "filter", "for-each"];

fn call0(x: &Interp, name: &str, mut args: Vec<Seq>, c: &Cxt) -> R {
    // functions whose first argument defaults to the context item
    const CTX: &[&str] = &["string", "data", "number", "string-length", "normalize-space", "name", "local-name", "namespace-uri", "root", "nilled"];
    let name = name.strip_prefix("fn:").unwrap_or(name);
    if args.is_empty() && CTX.contains(&name) {
        match &c.item {
            None => return unspec("no context item"),
            Some(i) => {
                let i = i.clone();
                if name == "string-length" || name == "normalize-space" {
                    let s = string_fn(x, &vec![i])?;
                    args.push(vec![It::S(s)]);
                } else {
                    args.push(vec![i]);
                }
            }
        }
    }
    let n = args.len();
    let a = &args;
    match (name, n) {
        ("true", 0) => b1(true),
        ("false", 0) => b1(false),
        ("position", 0) => {
            if c.item.is_none() || c.pos == 0 {
                return unspec("no context position");
            }
            i1(c.pos)
        }
        ("last", 0) => {
            if c.item.is_none() || c.pos == 0 {
                return unspec("no context size");
            }
            i1(c.size)
        }
        // --------------------------------------------------------- nodes
        ("string", 1) => s1(string_fn(x, &a[0])?),
        ("data", 1) => x.atomize(&a[0]),
        ("name", 1) => s1(node_opt(&a[0])?.map(|i| x.d.n[i].name.clone()).unwrap_or_default()),
        ("local-name", 1) => s1(node_opt(&a[0])?
            .map(|i| {
                let nm = &x.d.n[i].name;
                nm.split_once(':').map(|p| p.1).unwrap_or(nm).to_string()
            })
            .unwrap_or_default()),
        ("namespace-uri", 1) => {
            let i = node_opt(&a[0])?;
            if let Some(i) = i {
                // the recommendation knows no such attributes
                if x.d.n[i].k == K::Attr && x.d.n[i].name.starts_with("xmlns") {
                    return unspec("namespace of a namespace declaration");
                }
            }
            s1(i.map(|i| ns_uri(x, i)).unwrap_or_default())
        }
        ("root", 1) => Ok(node_opt(&a[0])?.map(|_| It::N(0)).into_iter().collect()),
        ("nilled", 1) => match node_opt(&a[0])? {
            Some(i) if x.d.n[i].k == K::Elem => b1(x.d.attr(i, "xsi:nil") == Some("true")),
            _ => Ok(vec![]),
        },
        ("lang", 1) | ("lang", 2) => {
            let t = str_or_empty(x, &a[0])?.to_lowercase();
            let i = if n == 2 {
                match a[1].as_slice() {
                    [It::N(i)] => *i,
                    _ => return ty("a node is required"),
                }
            } else {
                match &c.item {
                    Some(It::N(i)) => *i,
                    None => return unspec("no context item"),
                    _ => return ty("a node is required"),
                }
            };
            let mut p = Some(i);
            while let Some(i) = p {
                if let Some(v) = x.d.attr(i, "xml:lang") {
                    let v = v.to_lowercase();
                    return b1(v == t || v.starts_with(&format!("{}-", t)));
                }
                p = x.d.n[i].parent;
            }
            b1(false)
        }
        // --------------------------------------------------------- booleans
        ("boolean", 1) => b1(x.ebv(&a[0])?),
        ("not", 1) => b1(!x.ebv(&a[0])?),
        // --------------------------------------------------------- numbers
        ("number", 1) => match atom_opt(x, &a[0])? {
            None => one(It::F(f64::NAN)),
            Some(v) => match cast(&v, "xs:double") {
                Ok(v) => one(v),
                Err(_) => one(It::F(f64::NAN)),
            },
        },
        ("abs" | "ceiling" | "floor" | "round", 1) => match num_opt(x, &a[0])? {
            None => Ok(vec![]),
            Some(It::I(i)) => {
                if name == "abs" {
                    match i.checked_abs() {
                        Some(i) => one(It::I(i)),
                        None => ty("integer overflow"),
                    }
                } else {
                    one(It::I(i))
                }
            }
            Some(v) => {
                let f = to_f(&v);
                let r = match name {
                    "abs" => f.abs(),
                    "ceiling" => f.ceil(),
                    "floor" => f.floor(),
                    _ => round_half_up(f),
                };
                one(match v {
                    It::D(_) => It::D(if r == 0.0 { 0.0 } else { r }),
                    _ => It::F(r),
                })
            }
        },
        ("sum", 1) | ("sum", 2) => {
            let v = numbers(x, &a[0])?;
            if v.is_empty() {
                if n == 2 {
                    return Ok(atom_opt(x, &a[1])?.into_iter().collect());
                }
                return one(It::I(0));
            }
            one(total(&v)?)
        }
        ("avg", 1) => {
            let v = numbers(x, &a[0])?;
            if v.is_empty() {
                return Ok(vec![]);
            }
            let t = total(&v)?;
            one(arith("div", &t, &It::I(v.len() as i64))?)
        }
        ("max" | "min", 1) => {
            let mut v = vec![];
            for i in x.atomize(&a[0])? {
                v.push(match i {
                    It::U(s) => It::F(str_to_double(&s)?),
                    i => i,
                });
            }
            if v.is_empty() {
                return Ok(vec![]);
            }
            let dbl = v.iter().any(|i| matches!(i, It::F(_)));
            let dec = v.iter().any(|i| matches!(i, It::D(_)));
            let num = v.iter().all(|i| matches!(i, It::F(_) | It::D(_) | It::I(_)));
            if num {
                if dbl {
                    if v.iter().any(|i| to_f(i).is_nan()) {
                        return one(It::F(f64::NAN));
                    }
                    v = v.iter().map(|i| It::F(to_f(i))).collect();
                } else if dec && v.iter().any(|i| matches!(i, It::I(_))) {
                    return unspec("type of the extreme of integers and decimals");
                }
            }
            let mut m = v[0].clone();
            for i in &v[1..] {
                if compare(if name == "max" { "gt" } else { "lt" }, i, &m)? {
                    m = i.clone();
                }
            }
            if let It::F(f) = m {
                if f == 0.0 && v.len() > 1 {
                    return unspec("sign of an extreme zero");
                }
            }
            one(m)
        }
        ("count", 1) => i1(a[0].len()),
        // --------------------------------------------------------- strings
        ("codepoints-to-string", 1) => {
            let mut s = String::new();
            for i in x.atomize(&a[0])? {
                let v = match i {
                    It::I(i) => i,
                    _ => return unspec("code point that is not an integer"),
                };
                if !is_xml_char(v) {
                    return ty("not an XML character");
                }
                s.push(char::from_u32(v as u32).unwrap());
            }
            s1(s)
        }
        ("string-to-codepoints", 1) => Ok(str_or_empty(x, &a[0])?.chars().map(|c| It::I(c as i64)).collect()),
        ("compare", 2) => match (str_opt(x, &a[0])?, str_opt(x, &a[1])?) {
            (Some(p), Some(q)) => one(It::I(match p.chars().cmp(q.chars()) {
                std::cmp::Ordering::Less => -1,
                std::cmp::Ordering::Equal => 0,
                _ => 1,
            })),
            _ => Ok(vec![]),
        },
        ("codepoint-equal", 2) => match (str_opt(x, &a[0])?, str_opt(x, &a[1])?) {
            (Some(p), Some(q)) => b1(p == q),
            _ => Ok(vec![]),
        },
        ("concat", _) if n >= 2 => {
            let mut s = String::new();
            for v in a {
                if let Some(i) = atom_opt(x, v)? {
                    s.push_str(&string_of(&i)?);
                }
            }
            s1(s)
        }
        ("string-join", 1) | ("string-join", 2) => {
            let sep = if n == 2 { str_req(x, &a[1])? } else { String::new() };
            let mut v = vec![];
            for i in x.atomize(&a[0])? {
                v.push(string_of(&i)?);
            }
            s1(v.join(&sep))
        }
        ("substring", 2) | ("substring", 3) => {
            let s = str_or_empty(x, &a[0])?;
            let beg = round_half_up(dbl_req(x, &a[1])?);
            let end = if n == 3 { beg + round_half_up(dbl_req(x, &a[2])?) } else { f64::INFINITY };
            s1(s.chars().enumerate().filter(|(i, _)| (*i + 1) as f64 >= beg && ((*i + 1) as f64) < end).map(|x| x.1).collect())
        }
        ("string-length", 1) => i1(str_or_empty(x, &a[0])?.chars().count()),
        ("normalize-space", 1) => {
            let s = normalize(&str_or_empty(x, &a[0])?);
            if s.contains(' ') {
                x.used_space.set(true);
                if x.pinned_space {
                    return s1(s.replace(' ', ""));
                }
            }
            s1(s)
        }
        ("upper-case", 1) => s1(str_or_empty(x, &a[0])?.to_uppercase()),
        ("lower-case", 1) => s1(str_or_empty(x, &a[0])?.to_lowercase()),
        ("translate", 3) => {
            let s = str_or_empty(x, &a[0])?;
            let from: Vec<char> = str_req(x, &a[1])?.chars().collect();
            let to: Vec<char> = str_req(x, &a[2])?.chars().collect();
            s1(s.chars()
                .filter_map(|ch| match from.iter().position(|f| *f == ch) {
                    None => Some(ch),
                    Some(i) => to.get(i).copied(),
                })
                .collect())
        }
        ("contains" | "starts-with" | "ends-with", 2) => {
            let s = str_or_empty(x, &a[0])?;
            let t = str_or_empty(x, &a[1])?;
            b1(match name {
                "contains" => s.contains(&t),
                "starts-with" => s.starts_with(&t),
                _ => s.ends_with(&t),
            })
        }
        ("substring-before", 2) => {
            let s = str_or_empty(x, &a[0])?;
            let t = str_or_empty(x, &a[1])?;
            s1(s.find(&t).map(|i| s[..i].to_string()).unwrap_or_default())
        }
        ("substring-after", 2) => {
            let s = str_or_empty(x, &a[0])?;
            let t = str_or_empty(x, &a[1])?;
            s1(s.find(&t).map(|i| s[i + t.len()..].to_string()).unwrap_or_default())
        }
        // --------------------------------------------------------- sequences
        ("empty", 1) => b1(a[0].is_empty()),
        ("exists", 1) => b1(!a[0].is_empty()),
        ("head", 1) => Ok(a[0].iter().take(1).cloned().collect()),
        ("tail", 1) => Ok(a[0].iter().skip(1).cloned().collect()),
        ("insert-before", 3) => {
            let p = int_req(x, &a[1])?.max(1) as u64;
            let at = (p - 1).min(a[0].len() as u64) as usize;
            let mut v = a[0].clone();
            v.splice(at..at, a[2].iter().cloned());
            Ok(v)
        }
        ("remove", 2) => {
            let p = int_req(x, &a[1])?;
            Ok(a[0].iter().enumerate().filter(|(i, _)| (*i + 1) as i64 != p).map(|x| x.1.clone()).collect())
        }
        ("reverse", 1) => Ok(a[0].iter().rev().cloned().collect()),
        ("subsequence", 2) | ("subsequence", 3) => {
            let beg = round_half_up(dbl_req(x, &a[1])?);
            let end = if n == 3 { beg + round_half_up(dbl_req(x, &a[2])?) } else { f64::INFINITY };
            Ok(a[0]
                .iter()
                .enumerate()
                .filter(|(i, _)| (*i + 1) as f64 >= beg && (n == 2 || ((*i + 1) as f64) < end))
                .map(|x| x.1.clone())
                .collect())
        }
        ("index-of", 2) => {
            let v = x.atomize(&a[0])?;
            let s = |i: &It| if let It::U(s) = i { It::S(s.clone()) } else { i.clone() };
            let t = match atom_opt(x, &a[1])? {
                Some(t) => s(&t),
                None => return ty("one item is required"),
            };
            Ok(v.iter()
                .enumerate()
                .filter(|(_, i)| compare("eq", &s(i), &t).unwrap_or(false))
                .map(|(i, _)| It::I(i as i64 + 1))
                .collect())
        }
        ("zero-or-one", 1) if a[0].len() <= 1 => Ok(a[0].clone()),
        ("one-or-more", 1) if !a[0].is_empty() => Ok(a[0].clone()),
        ("exactly-one", 1) if a[0].len() == 1 => Ok(a[0].clone()),
        ("zero-or-one" | "one-or-more" | "exactly-one", 1) => ty("wrong number of items"),
        // --------------------------------------------------------- higher order
        ("for-each", 2) => {
            let f = fn_arg(&a[1])?;
            let mut out = vec![];
            for i in &a[0] {
                out.append(&mut x.apply(&f, vec![vec![i.clone()]], c)?);
            }
            Ok(out)
        }
        ("filter", 2) => {
            let f = fn_arg(&a[1])?;
            let mut out = vec![];
            for i in &a[0] {
                match x.apply(&f, vec![vec![i.clone()]], c)?.as_slice() {
                    [It::B(true)] => out.push(i.clone()),
                    [It::B(false)] => {}
                    _ => return unspec("the filter function must return one boolean"),
                }
            }
            Ok(out)
        }
        // --------------------------------------------------------- maps and arrays
        ("map:size", 1) => i1(map_arg(&a[0])?.len()),
        ("map:keys", 1) => Ok(map_arg(&a[0])?.iter().map(|x| x.0.clone()).collect()),
        ("map:contains", 2) => {
            let m = map_arg(&a[0])?;
            match atom_opt(x, &a[1])? {
                Some(k) => b1(m.iter().any(|e| same_key(&e.0, &k))),
                None => ty("one key is required"),
            }
        }
        ("map:get", 2) => {
            map_arg(&a[0])?;
            x.apply(&a[0][0], vec![a[1].clone()], c)
        }
        ("array:size", 1) => i1(arr_arg(&a[0])?.len()),
        ("array:get", 2) => {
            arr_arg(&a[0])?;
            x.apply(&a[0][0], vec![a[1].clone()], c)
        }
        ("array:flatten", 1) => {
            let mut out = vec![];
            flatten(&a[0], &mut out);
            Ok(out)
        }
        _ => ty("unknown function or wrong number of arguments"),
    }
}
