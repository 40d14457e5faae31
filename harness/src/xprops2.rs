//! XPath properties about values: operators, functions, types.

use crate::core::*;
use crate::xast::*;
use crate::xgen::*;
use crate::xprops::*;

/// `count` expressions over one small document; at least `need` of them have
/// to give items for the case to be non-trivial.
pub fn batch(src: &mut Src, cx: &mut Cx, size: usize, count: usize, need: usize, mk: &dyn Fn(&mut G) -> E) -> Result<(), String> {
    let c = start(src, cx, size)?;
    let mut full = 0;
    for _ in 0..count {
        let ctx = ctx_node(src, &c.d);
        let e = mk(&mut G::new(src, &c.d));
        let text = print(src, &e);
        cx.add_case(&format!(" | {} from {}", text, c.d.path(ctx)));
        if check(cx, &c.d, ctx, &e, &text)? == Out::Ok {
            full += 1;
        }
    }
    cx.nontrivial = full >= need;
    Ok(())
}

pub fn neg(e: E) -> E {
    E::Un(vec!['-'], b(e))
}
pub fn paren(e: E) -> E {
    E::Seq(vec![e])
}

/// a number, often a special one
pub fn num(g: &mut G) -> E {
    let e = match g.s.weighted(&[6, 3, 4, 4, 3, 1]) {
        0 => int(g.s.range(0, 20)),
        1 => {
            let k = g.s.range(0, 3);
            match g.s.us(6) {
                5 => E::Big((9223372036854775808i128 * 10i128.pow(g.s.us(3) as u32 * 4) + k as i128).to_string()),
                0 => int(9223372036854775807 - k),
                1 => bin("-", neg(int(9223372036854775807 - k)), int(1)),
                2 => int(4294967296 + k),
                3 => int(3037000500 - k),
                _ => int(9007199254740993 - k),
            }
        }
        2 => {
            if g.s.chance(1, 10) {
                return big_dec(g);
            }
            E::Dec(g.s.pick(DECS).to_string())
        }
        3 => E::Dbl(g.s.pick(DBLS).to_string()),
        4 => match g.s.us(5) {
            0 => bin("div", E::Dbl("0e0".into()), int(0)),
            1 => bin("div", int(1), E::Dbl("0e0".into())),
            2 => bin("div", neg(int(1)), E::Dbl("0e0".into())),
            3 => neg(E::Dbl("0e0".into())),
            _ => call("number", vec![st(*g.s.pick(STRS))]),
        },
        _ => {
            let n = g.s.range(0, 40) as f64 / 4.0 + 0.25;
            E::Dec(format!("{:.2}", n))
        }
    };
    if g.s.chance(1, 4) {
        neg(paren(e))
    } else {
        e
    }
}

/// a decimal at or beyond the ends of the integers
pub fn big_dec(g: &mut G) -> E {
    if g.s.chance(1, 6) {
        // near the end of the decimals, which overflow with an error
        let n = *g.s.pick(&[150, 200, 305, 308, 309]);
        let e = E::Dec(format!("{}{}.0", g.s.range(1, 9), "0".repeat(n)));
        return if g.s.flip() { neg(e) } else { e };
    }
    let e = E::Dec(
        g.s.pick(&[
            "100000000000000000000.0",
            "9223372036854775808.0",
            "9223372036854775807.0",
            "18446744073709551616.0",
            "12345678901234567890.5",
            "9007199254740993.0",
            "4503599627370496.5",
            "4503599627370497.0",
            "2251799813685249.5",
            "0.49999999999999994",
            "1000000000000000000000000000000.0",
        ])
        .to_string(),
    );
    if g.s.flip() {
        neg(e)
    } else {
        e
    }
}

/// one value of any atomic kind, sometimes a node, () or a longer sequence
pub fn val(g: &mut G) -> E {
    match g.s.weighted(&[10, 5, 2, 3, 2, 1, 1]) {
        0 => num(g),
        1 => st(*g.s.pick(STRS)),
        2 => call(if g.s.flip() { "true" } else { "false" }, vec![]),
        3 => g.path(0),
        4 => E::Seq(vec![]),
        5 => {
            let x = num(g);
            let y = num(g);
            E::Seq(vec![x, y])
        }
        _ => {
            let x = val0(g);
            E::SqArr(vec![x])
        }
    }
}
pub fn val0(g: &mut G) -> E {
    if g.s.flip() {
        num(g)
    } else {
        st(*g.s.pick(STRS))
    }
}

/// a sequence of up to n values
pub fn vals(g: &mut G, n: usize) -> E {
    match g.s.weighted(&[6, 2, 2, 1]) {
        0 => {
            let mut v = vec![];
            while g.s.more(v.len(), n, 3, 4) {
                let x = val(g);
                v.push(x);
            }
            E::Seq(v)
        }
        1 => g.ints(1),
        2 => g.nodes(1),
        _ => g.strs(1),
    }
}

const ARITH: &[&str] = &["+", "-", "*", "div", "idiv", "mod"];

pub fn arith_e(g: &mut G, d: usize) -> E {
    if d == 0 {
        return if g.s.chance(1, 8) { val(g) } else { num(g) };
    }
    match g.s.weighted(&[6, 1, 1]) {
        0 => {
            let op = *g.s.pick(ARITH);
            let dx = g.s.us(d);
            let dy = g.s.us(d);
            let x = arith_e(g, dx);
            let y = arith_e(g, dy);
            bin(op, x, y)
        }
        1 => {
            let mut s = vec![];
            while s.is_empty() || g.s.more(s.len(), 3, 1, 3) {
                s.push(*g.s.pick(&['-', '+']));
            }
            let x = arith_e(g, d - 1);
            E::Un(s, b(x))
        }
        _ => arith_e(g, 0),
    }
}

pub fn x05(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    batch(src, cx, 6, 12, 5, &|g| {
        let d = 1 + g.s.us(3);
        arith_e(g, d)
    })
}

/// two numbers that are equal or close together, of any types
fn near_nums(g: &mut G) -> (E, E) {
    let n: i64 = *g.s.pick(&[0, 1, 10, 255, 65535, 16777216, 2147483647, 4294967295, 9007199254740992, 1000000000000000, 9223372036854775806, 9223372036854773760]);
    let neg1 = g.s.chance(1, 4);
    let one = |g: &mut G| {
        let k = n + g.s.range(0, 1);
        let e = match g.s.us(4) {
            0 => E::Dec(format!("{}.0", k)),
            1 => E::Dbl(format!("{}e0", k)),
            _ => int(k),
        };
        if neg1 { neg(e) } else { e }
    };
    (one(g), one(g))
}

/// two strings that are equal or differ a little
fn near_strs(g: &mut G) -> (E, E) {
    const P: &[[&str; 4]] = &[
        ["a", "A", "á", "a\u{301}"],
        ["ab", "ab ", " ab", "a b"],
        ["\u{FF21}", "\u{20000}", "\u{D7FF}", "\u{E000}"],
        ["", " ", "0", "\u{1}"],
        ["10", "9", "010", "10.0"],
        ["xyz", "xyzz", "xy", "xyZ"],
        ["ß", "ss", "SS", "ẞ"],
    ];
    let r = g.s.us(P.len());
    let pre = if g.s.chance(1, 5) { "w".repeat(g.s.us(40)) } else { String::new() };
    let f = |g: &mut G| st(&format!("{}{}", pre, g.s.pick(&P[r])));
    (f(g), f(g))
}

pub fn x06(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    batch(src, cx, 10, 12, 6, &|g| {
        if g.s.flip() {
            let op = *g.s.pick(OPS_VAL);
            // mostly values of one type
            let (x, y) = match g.s.weighted(&[4, 4, 1, 2, 2, 2]) {
                4 => near_nums(g),
                5 => near_strs(g),
                0 => (num(g), num(g)),
                1 => (g.string(1), g.string(1)),
                2 => (g.boolean(0), g.boolean(0)),
                _ => (val(g), val(g)),
            };
            bin(op, x, y)
        } else {
            let op = *g.s.pick(OPS_CMP);
            let (x, y) = match g.s.weighted(&[9, 6, 6, 9, 2, 2, 2]) {
                4 => {
                    // of many pairs perhaps one holds, anywhere
                    let (x, y) = if g.s.flip() { near_nums(g) } else { near_strs(g) };
                    let mut v = vec![x; 6 + g.s.us(30)];
                    if g.s.flip() {
                        let i = g.s.us(v.len());
                        v[i] = y.clone();
                    }
                    let y = if g.s.chance(1, 3) { E::SqArr(vec![y]) } else { y };
                    if g.s.flip() { (E::Seq(v), y) } else { (y, E::Seq(v)) }
                }
                5 => near_nums(g),
                6 => near_strs(g),
                0 => (g.nodes(1), g.strs(0)),
                1 => (g.nodes(1), g.nodes(1)),
                2 => (g.ints(1), g.ints(1)),
                _ => (vals(g, 4), vals(g, 4)),
            };
            bin(op, x, y)
        }
    })
}

pub fn cond(g: &mut G, d: usize) -> E {
    match g.s.weighted(&[3, 3, 3, 2, 1]) {
        0 => val(g),
        1 => g.nodes(1),
        2 => g.boolean(d.min(1)),
        3 => vals(g, 2),
        _ => match g.s.us(3) {
            0 => E::Map(vec![]),
            1 => E::SqArr(vec![]),
            _ => call("boolean", vec![val(g)]),
        },
    }
}

pub fn logic(g: &mut G, d: usize) -> E {
    if d == 0 {
        return cond(g, 1);
    }
    match g.s.weighted(&[4, 2, 3, 3, 1]) {
        0 => {
            let op = if g.s.flip() { "and" } else { "or" };
            let x = logic(g, d - 1);
            let y = logic(g, d - 1);
            bin(op, x, y)
        }
        1 => {
            let f = if g.s.flip() { "not" } else { "boolean" };
            let x = logic(g, d - 1);
            call(f, vec![x])
        }
        2 => {
            let c = logic(g, d - 1);
            let x = logic(g, d - 1);
            let y = logic(g, d - 1);
            E::If(b(c), b(x), b(y))
        }
        3 => {
            let some = g.s.flip();
            let mut bs = vec![];
            let depth = g.vars.len();
            while bs.is_empty() || g.s.more(bs.len(), 3, 1, 3) {
                let (t, s) = match g.s.us(3) {
                    0 => (T::Int, g.ints(0)),
                    1 => (T::Node, g.path(0)),
                    _ => (T::Str, g.strs(0)),
                };
                let n = g.bind_name();
                g.vars.push((n.clone(), t));
                bs.push((n, s));
            }
            let body = if g.s.flip() { logic(g, d - 1) } else { g.boolean(1) };
            g.vars.truncate(depth);
            E::Quant(some, bs, b(body))
        }
        _ => cond(g, d),
    }
}

pub fn x07(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    batch(src, cx, 10, 8, 4, &|g| {
        let d = 1 + g.s.us(3);
        logic(g, d)
    })
}
