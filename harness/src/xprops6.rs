//! X21, X22: values passed to and returned from functions.

use crate::core::*;
use crate::xast::*;
use crate::xgen::*;
use crate::xprops::*;
use crate::xprops2::*;
use crate::xprops3::*;
use crate::xprops5::{kind, near, rtype};
use crate::xtypes::*;

/// any value at all
pub fn wild(g: &mut G) -> E {
    match g.s.weighted(&[4, 3, 2, 4, 2, 2, 2, 2, 2, 2]) {
        0 => num(g),
        1 => st(*g.s.pick(&["", "a", "1", " 2 ", "-1.5", "INF", "true", "x y"])),
        2 => call(if g.s.flip() { "true" } else { "false" }, vec![]),
        3 => g.path(0),
        4 => E::Seq(vec![]),
        5 => {
            let n = 2 + g.s.us(2);
            E::Seq((0..n).map(|_| wild(g)).collect())
        }
        6 => {
            let n = g.s.us(3);
            E::SqArr((0..n).map(|_| wild(g)).collect())
        }
        7 => {
            let v = wild(g);
            let k = if g.s.flip() { int(1) } else { st("k") };
            E::Map(vec![(k, v)])
        }
        8 => fun1(g, 0),
        _ => {
            let p = g.path(0);
            call("head", vec![p])
        }
    }
}

fn single(g: &mut G, t: &IT) -> E {
    match t {
        IT::Atomic(n) => match n.as_str() {
            "xs:string" => match g.s.us(4) {
                0 => {
                    let p = g.path(0);
                    call("head", vec![p])
                }
                1 => call("string", vec![num(g)]),
                _ => st(*g.s.pick(&["", "a", "ab", "1", "b a", "xyz", "é", "\u{20000}b", "A"])),
            },
            "xs:integer" => match g.s.us(8) {
                0 => E::Ctx,
                1 => crate::xprops2::neg(int(g.s.range(0, 3))),
                2 => E::SqArr(vec![int(g.s.range(0, 5))]),
                _ => int(g.s.range(0, 5)),
            },
            "xs:decimal" => {
                if g.s.flip() {
                    int(g.s.range(0, 5))
                } else {
                    E::Dec(g.s.pick(&["1.0", "2.5", "0.5", "3.0"]).to_string())
                }
            }
            "xs:double" | "xs:numeric" => num(g),
            "xs:boolean" => call(if g.s.flip() { "true" } else { "false" }, vec![]),
            _ => val(g),
        },
        IT::Kind(k) => {
            let t = Test::Kind(k.clone());
            let p = match k {
                Kind::Attr(..) => E::DSlash(b(E::Root), b(step(Axis::Attribute, t))),
                _ => E::DSlash(b(E::Root), b(step(Axis::Child, t))),
            };
            call("head", vec![p])
        }
        IT::AnyMap | IT::Map(..) => mmap(g, 1),
        IT::AnyArr | IT::Arr(_) => marr(g, 1),
        IT::AnyFn => fun1(g, 0),
        IT::Fn(p, _) => match p.len() {
            1 => fun1(g, 1),
            n => E::Inline(Box::new(Inline { params: (0..n).map(|i| (format!("q{}", i), None)).collect(), ret: None, body: int(1) })),
        },
        _ => item(g),
    }
}

/// usually a value of the type, sometimes one near it, sometimes any
pub fn arg(g: &mut G, t: &ST) -> E {
    let t = match g.s.weighted(&[9, 2, 2]) {
        0 => t.clone(),
        1 => {
            let up = g.s.flip();
            near(g, t, up)
        }
        _ => return wild(g),
    };
    match &t.0 {
        None => E::Seq(vec![]),
        Some((it, o)) => {
            let n = match o {
                '*' | '+' if g.s.chance(1, 20) => 5 + g.s.us(40),
                '?' => g.s.us(2),
                '*' => g.s.us(4),
                '+' => 1 + g.s.us(3),
                _ => 1,
            };
            if n == 1 {
                single(g, it)
            } else {
                E::Seq((0..n).map(|_| single(g, it)).collect())
            }
        }
    }
}

/// a type for which conversions matter
fn ctype(g: &mut G) -> ST {
    if g.s.chance(1, 4) {
        return rtype(g, 1);
    }
    let n = *g.s.pick(&["xs:string", "xs:integer", "xs:decimal", "xs:double", "xs:boolean", "xs:anyAtomicType", "xs:numeric"]);
    let it = if g.s.chance(1, 8) { IT::Kind(kind(g)) } else { IT::Atomic(n.into()) };
    ST(Some((it, *g.s.pick(&[' ', ' ', '?', '*', '+']))))
}

/// a call of an inline function with declared types
fn typed_call(g: &mut G, d: usize) -> E {
    let n = g.s.weighted(&[1, 6, 3]);
    let mut params = vec![];
    let mut args = vec![];
    for i in 0..n {
        let t = if g.s.chance(1, 8) { None } else { Some(ctype(g)) };
        let a = if d > 0 && g.s.chance(1, 6) { typed_call(g, d - 1) } else { arg(g, t.as_ref().unwrap_or(&any())) };
        args.push(a);
        params.push((["v", "w"][i].to_string(), t));
    }
    let ret = match g.s.weighted(&[4, 2, 2]) {
        1 if n > 0 => params[0].1.clone(),
        2 => Some(ctype(g)),
        _ => None,
    };
    let v = |g: &mut G| if n == 0 { val0(g) } else { var(["v", "w"][g.s.us(n)]) };
    // bodies must not depend on a context item
    let body = match g.s.weighted(&[6, 2, 2, 2, 2, 1, 1]) {
        0 => v(g),
        1 => {
            let x = v(g);
            let y = v(g);
            E::Seq(vec![x, y])
        }
        2 => {
            let x = v(g);
            let t = ctype(g);
            E::InstanceOf(b(x), t)
        }
        3 => {
            let x = v(g);
            call("count", vec![x])
        }
        4 => {
            let x = v(g);
            bin("+", x, int(1))
        }
        5 => {
            let x = v(g);
            E::SqArr(vec![x])
        }
        _ => {
            let x = v(g);
            call("data", vec![x])
        }
    };
    let f = E::Inline(Box::new(Inline { params, ret, body }));
    match g.s.weighted(&[6, 2, 2, 1, 1]) {
        0 => E::Dyn(b(E::Seq(vec![f])), args),
        1 => E::Let(vec![("f".into(), f)], b(E::Dyn(b(var("f")), args))),
        2 if n == 1 => call("for-each", vec![args.remove(0), f]),
        3 if n == 1 => E::Let(vec![("f".into(), f)], b(E::Arrow(b(E::Seq(vec![args.remove(0)])), ArrowF::Var("f".into()), vec![]))),
        4 if n > 0 => E::Dyn(b(E::Lookup(b(E::SqArr(vec![f])), Key::Int(1))), args),
        _ => E::Dyn(b(E::Seq(vec![f])), args),
    }
}

pub fn x21(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    batch(src, cx, 8, 8, 3, &|g| {
        let e = typed_call(g, 2);
        match g.s.weighted(&[4, 2]) {
            0 => e,
            _ => E::InstanceOf(b(E::Seq(vec![e])), ctype(g)),
        }
    })
}

/// a call of a built-in function
fn builtin(g: &mut G) -> E {
    let (n, p) = match g.s.us(20) {
        0 => ("concat".to_string(), (0..2 + g.s.us(3)).map(|_| ST(Some((IT::Atomic("xs:anyAtomicType".into()), '?')))).collect()),
        1 => ("sum".to_string(), vec![ST(Some((IT::Atomic("xs:anyAtomicType".into()), '*')))]),
        _ => {
            let (n, (p, _)) = parse_sig(g.s.pick(SIGNATURES));
            (n, p)
        }
    };
    let mut args: Vec<E> = p.iter().map(|t| arg(g, t)).collect();
    let n = if !n.contains(':') && g.s.chance(1, 8) { format!("fn:{}", n) } else { n };
    if args.is_empty() {
        let e = E::Call(n, args);
        return match g.s.us(3) {
            0 => {
                let w = wild(g);
                bin("!", E::Seq(vec![w]), e)
            }
            1 => {
                let p = g.path(0);
                bin("!", p, e)
            }
            _ => {
                let p = g.path(0);
                E::Slash(b(p), b(e))
            }
        };
    }
    let k = args.len();
    match g.s.weighted(&[6, 2, 2, 2, 1]) {
        0 => E::Call(n, args),
        1 => E::Dyn(b(E::Seq(vec![E::NamedRef(n, k)])), args),
        2 => {
            let i = g.s.us(k);
            let a = std::mem::replace(&mut args[i], E::Ctx);
            let part = args.into_iter().enumerate().map(|(j, e)| if j == i { None } else { Some(e) }).collect();
            E::Dyn(b(E::Seq(vec![arrowed(g, E::Partial(n, part))])), vec![a])
        }
        3 => {
            let a = args.remove(0);
            E::Arrow(b(E::Seq(vec![a])), ArrowF::Name(n), args)
        }
        _ => {
            let mut v = vec![("f".to_string(), E::NamedRef(n, k))];
            let mut w = vec![];
            for (i, a) in args.into_iter().enumerate() {
                let nm = format!("a{}", i);
                v.push((nm.clone(), a));
                w.push(var(&nm));
            }
            E::Let(v, b(E::Dyn(b(var("f")), w)))
        }
    }
}

pub fn x22(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    batch(src, cx, 8, 10, 4, &|g| {
        let e = builtin(g);
        match g.s.weighted(&[5, 1]) {
            0 => e,
            _ => {
                let t = ctype(g);
                E::InstanceOf(b(E::Seq(vec![e])), t)
            }
        }
    })
}
