//! X24: operators and constructs applied to values of any kind.

use crate::core::*;
use crate::xast::*;
use crate::xgen::*;
use crate::xprops::*;
use crate::xprops2::*;
use crate::xprops3::*;
use crate::xprops5::rtype;
use crate::xprops6::wild;

const OPS: &[&str] = &[
    "+", "-", "*", "div", "idiv", "mod", "eq", "ne", "lt", "le", "gt", "ge", "=", "!=", "<", "<=", ">", ">=", "and", "or", "||", "to", "is", "<<",
    ">>", "union", "|", "intersect", "except", "!", "to", "to",
];

/// a value of one item, or of any kind
fn operand(g: &mut G, d: usize) -> E {
    match g.s.weighted(&[6, 2, 2, 2, 2]) {
        1 => int(g.s.range(0, 4)),
        2 => {
            let x = wild(g);
            E::SqArr(vec![x])
        }
        3 => {
            let k = g.s.us(2);
            E::SqArr((0..k).map(|_| E::SqArr(vec![])).collect())
        }
        4 if d > 0 => paren(applied(g, d - 1)),
        _ => wild(g),
    }
}

/// the same with small numbers only: a range is built in memory
fn small(mut x: E) -> E {
    each(&mut x, &mut |e| match e {
        E::Int(n) => *n %= 7,
        E::Big(_) | E::Ctx => *e = E::Int(2),
        E::Dec(_) => *e = E::Dec("1.5".into()),
        E::Dbl(_) => *e = E::Dbl("2e0".into()),
        _ => {}
    });
    x
}

fn step_of(g: &mut G) -> E {
    match g.s.us(4) {
        0 => step(Axis::Child, Test::Star),
        1 => step(Axis::SelfAx, Test::Kind(Kind::Node)),
        2 => step(Axis::Parent, Test::Kind(Kind::Node)),
        _ => step(Axis::Attribute, Test::Star),
    }
}

/// an operator or a construct with operands
fn applied(g: &mut G, d: usize) -> E {
    let x = paren(operand(g, d));
    match g.s.weighted(&[12, 1, 2, 2, 2, 1, 1, 2, 1, 1, 1, 2, 1, 1, 2, 1, 1]) {
        0 => {
            let op = *g.s.pick(OPS);
            let y = paren(operand(g, d));
            if op == "to" {
                return bin(op, small(x), small(y));
            }
            bin(op, x, y)
        }
        1 => E::Un((0..1 + g.s.us(2)).map(|_| *g.s.pick(&['-', '+'])).collect(), b(x)),
        2 => {
            let y = operand(g, d);
            E::Filter(b(x), b(y))
        }
        3 => {
            let y = operand(g, d);
            match g.s.us(4) {
                0 => E::Lookup(b(x), Key::Star),
                1 => E::Lookup(b(x), Key::Int(1)),
                2 => E::Lookup(b(x), Key::Name("k".into())),
                _ => E::Lookup(b(x), Key::Expr(b(y))),
            }
        }
        4 => {
            let n = g.s.us(3);
            let a = (0..n).map(|_| operand(g, 0)).collect();
            E::Dyn(b(x), a)
        }
        5 => E::If(b(x), b(int(1)), b(int(2))),
        6 => {
            let y = operand(g, 0);
            E::Quant(g.s.flip(), vec![("v".into(), x)], b(if g.s.flip() { var("v") } else { bin("=", var("v"), paren(y)) }))
        }
        7 => {
            let s = step_of(g);
            if g.s.chance(1, 4) {
                E::DSlash(b(x), b(s))
            } else {
                E::Slash(b(x), b(s))
            }
        }
        8 => {
            let y = operand(g, 0);
            E::Slash(b(g.path(0)), b(if g.s.flip() { x } else { paren(y) }))
        }
        9 => E::Step(Axis::Descendant, Test::Star, vec![x]),
        10 => {
            let y = operand(g, 0);
            E::Map(vec![(x, y)])
        }
        11 => E::CastAs(b(x), tname(g), g.s.flip()),
        12 => E::CastableAs(b(x), tname(g), g.s.flip()),
        13 => {
            let t = rtype(g, 1);
            E::InstanceOf(b(x), t)
        }
        14 => {
            let y = operand(g, 0);
            match g.s.us(3) {
                0 => E::Arrow(b(x), ArrowF::Name(g.s.pick(&["count", "data", "string", "head", "boolean"]).to_string()), vec![]),
                1 => E::Let(vec![("f".into(), y)], b(E::Arrow(b(x), ArrowF::Var("f".into()), vec![]))),
                _ => E::CurArr(b(x)),
            }
        }
        15 => {
            let y = operand(g, 0);
            E::Map(vec![(int(1), x), (y, int(2))])
        }
        _ => {
            let y = operand(g, 0);
            E::For(vec![("v".into(), x)], b(E::Seq(vec![var("v"), y])))
        }
    }
}

pub fn x24(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    batch(src, cx, 8, 12, 4, &|g| {
        let e = applied(g, 2);
        match g.s.weighted(&[6, 1, 1]) {
            0 => e,
            1 => call("count", vec![e]),
            _ => {
                let t = rtype(g, 1);
                E::InstanceOf(b(paren(e)), t)
            }
        }
    })
}
