//! X20: the types of functions.

use crate::core::*;
use crate::xast::*;
use crate::xgen::*;
use crate::xprops::*;
use crate::xprops2::*;
use crate::xprops3::*;
use crate::xtypes::*;

const ATOMS: &[&str] = &["xs:string", "xs:integer", "xs:decimal", "xs:double", "xs:boolean", "xs:anyAtomicType", "xs:numeric"];
const ETYPES: &[&str] = &["xs:untyped", "xs:anyType", "xs:string"];
const ATYPES: &[&str] = &["xs:untypedAtomic", "xs:anyAtomicType", "xs:anySimpleType", "xs:anyType", "xs:string"];

pub fn kind(g: &mut G) -> Kind {
    match g.s.us(9) {
        0 => Kind::Node,
        1 => Kind::Text,
        2 => Kind::Comment,
        3 => Kind::Pi(match g.s.us(3) {
            0 => None,
            1 => Some("t".into()),
            _ => Some("style".into()),
        }),
        4 | 5 => {
            let n = if g.s.flip() { Some(g.aname()) } else { None };
            let t = if g.s.chance(1, 3) { Some(g.s.pick(ATYPES).to_string()) } else { None };
            Kind::Attr(n, t)
        }
        _ => {
            let n = if g.s.flip() { Some(g.ename()) } else { None };
            let t = if g.s.chance(1, 3) { Some((g.s.pick(ETYPES).to_string(), g.s.flip())) } else { None };
            Kind::Elem(n, t)
        }
    }
}

fn occ(g: &mut G) -> char {
    *g.s.pick(&[' ', ' ', '?', '*', '+'])
}

pub fn rtype(g: &mut G, d: usize) -> ST {
    if g.s.chance(1, 16) {
        return ST(None);
    }
    if g.s.chance(1, 20) {
        return ST(Some((IT::Atomic("xs:error".into()), occ(g))));
    }
    let it = ritem(g, d);
    ST(Some((it, occ(g))))
}

fn ritem(g: &mut G, d: usize) -> IT {
    match g.s.weighted(&[8, 2, 4, 1, if d > 0 { 5 } else { 0 }, 1, 2, 1, 2]) {
        0 => IT::Atomic(g.s.pick(ATOMS).to_string()),
        1 => IT::Item,
        2 => IT::Kind(kind(g)),
        3 => IT::AnyFn,
        4 => {
            let mut p = vec![];
            while g.s.more(p.len(), 3, 1, 2) {
                let t = rtype(g, d - 1);
                p.push(t);
            }
            IT::Fn(p, b2(rtype(g, d - 1)))
        }
        5 => IT::AnyMap,
        6 if d > 0 => {
            let k = g.s.pick(ATOMS).to_string();
            IT::Map(k, b2(rtype(g, d - 1)))
        }
        7 => IT::AnyArr,
        8 if d > 0 => IT::Arr(b2(rtype(g, d - 1))),
        _ => IT::Item,
    }
}

fn b2(t: ST) -> Box<ST> {
    Box::new(t)
}

/// a type near `t`: the same, a wider (up) or a narrower one, or, rarely,
/// changed the other way
pub fn near(g: &mut G, t: &ST, up: bool) -> ST {
    let up = if g.s.chance(1, 12) { !up } else { up };
    if g.s.chance(1, 24) {
        return rtype(g, 1);
    }
    match &t.0 {
        None => {
            if up && g.s.flip() {
                let it = ritem(g, 0);
                ST(Some((it, *g.s.pick(&['?', '*']))))
            } else {
                t.clone()
            }
        }
        Some((it, o)) => {
            if !up && matches!(o, '?' | '*') && g.s.chance(1, 10) {
                return ST(None);
            }
            let o = if g.s.chance(1, 3) {
                if up {
                    *g.s.pick(match o {
                        ' ' => &[' ', '?', '+', '*'],
                        '?' => &['?', '*'],
                        '+' => &['+', '*'],
                        _ => &['*'],
                    })
                } else {
                    *g.s.pick(match o {
                        '*' => &['*', '+', '?', ' '],
                        '?' => &['?', ' '],
                        '+' => &['+', ' '],
                        _ => &[' '],
                    })
                }
            } else {
                *o
            };
            let it = if g.s.chance(1, 2) { near_item(g, it, up) } else { it.clone() };
            ST(Some((it, o)))
        }
    }
}

fn near_item(g: &mut G, t: &IT, up: bool) -> IT {
    if up && g.s.chance(1, 8) {
        return IT::Item;
    }
    match t {
        IT::Item => {
            if up {
                IT::Item
            } else {
                ritem(g, 1)
            }
        }
        IT::Atomic(n) => {
            let c: &[&str] = match (n.as_str(), up) {
                ("xs:integer", true) => &["xs:decimal", "xs:numeric", "xs:anyAtomicType"],
                ("xs:decimal", true) | ("xs:double", true) => &["xs:numeric", "xs:anyAtomicType"],
                ("xs:string", true) | ("xs:boolean", true) | ("xs:numeric", true) => &["xs:anyAtomicType"],
                ("xs:decimal", false) => &["xs:integer"],
                ("xs:numeric", false) => &["xs:integer", "xs:decimal", "xs:double"],
                ("xs:anyAtomicType", false) => &["xs:integer", "xs:string", "xs:boolean", "xs:numeric", "xs:double"],
                _ => return t.clone(),
            };
            IT::Atomic(g.s.pick(c).to_string())
        }
        IT::Kind(k) => IT::Kind(match (k, up) {
            (_, true) if g.s.chance(1, 4) => Kind::Node,
            (Kind::Node, false) => kind(g),
            (Kind::Pi(_), true) => Kind::Pi(None),
            (Kind::Pi(None), false) => Kind::Pi(Some("t".into())),
            (Kind::Elem(n, t), true) => match g.s.us(4) {
                0 => Kind::Elem(None, t.clone()),
                1 => Kind::Elem(n.clone(), None),
                2 => Kind::Elem(n.clone(), t.as_ref().map(|t| (t.0.clone(), true))),
                _ => Kind::Elem(n.clone(), t.as_ref().map(|t| ("xs:anyType".into(), t.1))),
            },
            (Kind::Elem(n, t), false) => match g.s.us(4) {
                0 => Kind::Elem(Some(g.ename()), t.clone()),
                1 => Kind::Elem(n.clone(), Some((g.s.pick(ETYPES).to_string(), g.s.flip()))),
                _ => Kind::Elem(n.clone(), t.as_ref().map(|t| (t.0.clone(), false))),
            },
            (Kind::Attr(n, t), true) => match g.s.us(3) {
                0 => Kind::Attr(None, t.clone()),
                1 => Kind::Attr(n.clone(), None),
                _ => Kind::Attr(n.clone(), Some(g.s.pick(&["xs:anyType", "xs:anySimpleType", "xs:anyAtomicType"]).to_string())),
            },
            (Kind::Attr(n, t), false) => match g.s.us(2) {
                0 => Kind::Attr(Some(g.aname()), t.clone()),
                _ => Kind::Attr(n.clone(), Some(g.s.pick(ATYPES).to_string())),
            },
            _ => k.clone(),
        }),
        IT::AnyFn => {
            if up {
                IT::AnyFn
            } else {
                ritem(g, 1)
            }
        }
        IT::Fn(p, r) => {
            if up && g.s.chance(1, 6) {
                return IT::AnyFn;
            }
            let mut p: Vec<ST> = p.iter().map(|t| near(g, t, !up)).collect();
            if g.s.chance(1, 20) {
                // another arity
                if p.is_empty() || g.s.flip() {
                    let t = rtype(g, 0);
                    p.push(t);
                } else {
                    p.pop();
                }
            }
            IT::Fn(p, b2(near(g, r, up)))
        }
        IT::AnyMap => {
            if up {
                if g.s.flip() {
                    IT::AnyMap
                } else {
                    IT::AnyFn
                }
            } else {
                let k = g.s.pick(ATOMS).to_string();
                IT::Map(k, b2(rtype(g, 0)))
            }
        }
        IT::Map(k, v) => {
            if up && g.s.chance(1, 5) {
                return if g.s.flip() { IT::AnyMap } else { IT::AnyFn };
            }
            if up && g.s.chance(1, 5) {
                let a = rtype(g, 0);
                let v = ST(v.0.as_ref().map(|x| (x.0.clone(), '*')));
                return IT::Fn(vec![a], b2(v));
            }
            let k2 = match near_item(g, &IT::Atomic(k.clone()), up) {
                IT::Atomic(k) => k,
                _ => k.clone(),
            };
            IT::Map(k2, b2(near(g, v, up)))
        }
        IT::AnyArr => {
            if up {
                IT::AnyArr
            } else {
                IT::Arr(b2(rtype(g, 0)))
            }
        }
        IT::Arr(v) => {
            if up && g.s.chance(1, 5) {
                return if g.s.flip() { IT::AnyArr } else { IT::AnyFn };
            }
            if up && g.s.chance(1, 3) {
                let a = if g.s.flip() { one(IT::Atomic("xs:integer".into())) } else { rtype(g, 0) };
                return IT::Fn(vec![a], b2(near(g, v, up)));
            }
            IT::Arr(b2(near(g, v, up)))
        }
    }
}

/// a function item with its type
fn fun(g: &mut G, d: usize) -> (E, IT) {
    match g.s.weighted(&[6, 5, 4, 2, 2]) {
        0 => {
            let mut params = vec![];
            let mut p = vec![];
            while g.s.more(params.len(), 3, 2, 3) {
                let t = if g.s.chance(1, 6) { None } else { Some(rtype(g, d)) };
                p.push(t.clone().unwrap_or_else(any));
                params.push((format!("v{}", params.len()), t));
            }
            let ret = if g.s.chance(1, 6) { None } else { Some(rtype(g, d)) };
            let r = ret.clone().unwrap_or_else(any);
            let body = int(1);
            (E::Inline(Box::new(Inline { params, ret, body })), IT::Fn(p, b2(r)))
        }
        1 => {
            let (n, (p, r)) = parse_sig(g.s.pick(SIGNATURES));
            let n = if !n.contains(':') && g.s.chance(1, 3) { format!("fn:{}", n) } else { n };
            (E::NamedRef(n, p.len()), IT::Fn(p, b2(r)))
        }
        2 => {
            let (n, (p, r)) = loop {
                let x = parse_sig(g.s.pick(SIGNATURES));
                if !x.1 .0.is_empty() {
                    break x;
                }
            };
            let mut args = vec![];
            for _ in 0..p.len() {
                args.push(if g.s.flip() { None } else { Some(int(1)) });
            }
            if args.iter().all(|a| a.is_some()) {
                let i = g.s.us(p.len());
                args[i] = None;
            }
            let q = p.into_iter().zip(args.iter()).filter(|(_, a)| a.is_none()).map(|(p, _)| p).collect();
            (arrowed(g, E::Partial(n, args)), IT::Fn(q, b2(r)))
        }
        3 => {
            let v = items(g, 2);
            let t = match g.s.us(3) {
                0 => "xs:integer",
                1 => "xs:numeric",
                _ => "xs:string",
            };
            (E::SqArr(vec![v]), IT::Fn(vec![one(IT::Atomic("xs:integer".into()))], b2(ST(Some((IT::Atomic(t.into()), '*'))))))
        }
        _ => {
            let k = if g.s.flip() { int(1) } else { st("k") };
            let v = val(g);
            (
                E::Map(vec![(k, v)]),
                IT::Fn(vec![one(IT::Atomic("xs:anyAtomicType".into()))], b2(any())),
            )
        }
    }
}

fn fexp(g: &mut G) -> E {
    let (f, t) = fun(g, 2);
    // a test near the type of the function
    let IT::Fn(p, r) = &t else { unreachable!() };
    let test = if g.s.chance(1, 12) {
        near_item(g, &t, true)
    } else {
        let mut p: Vec<ST> = p.iter().map(|t| near(g, t, false)).collect();
        if g.s.chance(1, 20) {
            if p.is_empty() || g.s.flip() {
                let t = rtype(g, 0);
                p.push(t);
            } else {
                p.pop();
            }
        }
        IT::Fn(p, b2(near(g, r, true)))
    };
    match g.s.weighted(&[8, 2, 1, 1, 2, 2]) {
        0 => {
            let o = occ(g);
            E::InstanceOf(b(f), ST(Some((test, o))))
        }
        1 => {
            let (f2, _) = fun(g, 1);
            let o = *g.s.pick(&['*', '+']);
            let mut v = if g.s.chance(1, 3) { vec![f2, f] } else { vec![f.clone(), f] };
            if g.s.chance(1, 6) {
                // the one that may not match is far out
                let n = 5 + g.s.us(20);
                let last = v[1].clone();
                v.splice(1..1, std::iter::repeat(last).take(n));
                v.reverse();
            }
            E::InstanceOf(b(E::Seq(v)), ST(Some((test, o))))
        }
        2 => E::InstanceOf(b(E::SqArr(vec![f])), one(IT::Arr(b2(one(test))))),
        3 => E::InstanceOf(b(E::Map(vec![(int(1), f)])), one(IT::Map("xs:integer".into(), b2(one(test))))),
        4 => {
            // as the type of a parameter
            let g2 = Inline { params: vec![("f".into(), Some(one(test)))], ret: None, body: int(1) };
            E::Dyn(b(E::Seq(vec![E::Inline(Box::new(g2))])), vec![f])
        }
        _ => {
            // through a variable
            E::Let(vec![("f".into(), f)], b(E::InstanceOf(b(var("f")), one(test))))
        }
    }
}

pub fn x20(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let c = start(src, cx, 8)?;
    let mut full = 0;
    let mut yes = 0;
    for _ in 0..8 {
        let ctx = ctx_node(src, &c.d);
        let e = {
            let mut g = G::new(src, &c.d);
            match g.s.weighted(&[10, 2]) {
                0 => fexp(&mut g),
                _ => {
                    // nodes and kind tests with types
                    let x = if g.s.flip() { g.nodes(0) } else { g.path(0) };
                    let k = kind(&mut g);
                    let o = occ(&mut g);
                    E::InstanceOf(b(x), ST(Some((IT::Kind(k), o))))
                }
            }
        };
        let (x, n) = (*src.pick(&[0, 0, 6]), *src.pick(&[Style::Natural, Style::Wild]));
        let text = print_with(src, &e, n, x, None);
        cx.add_case(&format!(" | {} from {}", text, c.d.path(ctx)));
        if check(cx, &c.d, ctx, &e, &text)? == Out::Ok {
            full += 1;
            let t = crate::xref::Interp::new(&c.d).run(ctx, &e);
            match t.as_deref() {
                Ok([crate::xref::It::B(true)]) => {
                    yes += 1;
                    cx.label("true")
                }
                Ok([crate::xref::It::B(false)]) => cx.label("false"),
                _ => {}
            }
        }
    }
    cx.nontrivial = full >= 5 && yes >= 1;
    Ok(())
}
