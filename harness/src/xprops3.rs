//! XPath properties about variables, functions and the function library.

use crate::core::*;
use crate::doc::any_char;
use crate::xast::*;
use crate::xdoc::*;
use crate::xgen::*;
use crate::xprops2::*;

pub fn neg(e: E) -> E {
    E::Un(vec!['-'], b(e))
}
fn sint(i: i64) -> E {
    if i < 0 {
        neg(int(-i))
    } else {
        int(i)
    }
}
fn inf(g: &mut G) -> E {
    let d = bin("div", int(1), E::Dbl("0e0".into()));
    if g.s.flip() {
        E::Seq(vec![d])
    } else {
        neg(E::Seq(vec![d]))
    }
}
fn nan() -> E {
    E::Seq(vec![bin("div", E::Dbl("0e0".into()), int(0))])
}
fn fncall(g: &mut G, n: &str, a: Vec<E>) -> E {
    if g.s.chance(1, 12) {
        call(&format!("fn:{}", n), a)
    } else {
        call(n, a)
    }
}

// ------------------------------------------------------------------ X08

/// integer sequences with variables, closures and shadowing
struct V<'a, 'b, 'd> {
    g: &'a mut G<'b, 'd>,
    fv: Vec<(String, usize)>,
    /// the context item is an integer
    item: bool,
    in_fn: bool,
}

const FVARS: &[&str] = &["f", "g", "x"];

impl<'a, 'b, 'd> V<'a, 'b, 'd> {
    fn name(&mut self) -> String {
        self.g.s.pick(VARS).to_string()
    }
    fn var(&mut self) -> E {
        if self.g.s.chance(1, 30) {
            return var(*self.g.s.pick(&["undefined", "x", "z", "v1"]));
        }
        let v: Vec<String> = self.g.vars.iter().map(|x| x.0.clone()).filter(|n| !self.fv.iter().any(|f| f.0 == *n)).collect();
        if v.is_empty() {
            return int(self.g.s.range(0, 9));
        }
        var(self.g.s.pick(&v))
    }
    fn seq(&mut self, d: usize) -> E {
        if d == 0 {
            return match self.g.s.weighted(&[4, 2, 1, 1]) {
                0 => self.var(),
                1 => int(self.g.s.range(0, 9)),
                2 if self.item => E::Ctx,
                3 => {
                    let a = self.g.s.range(0, 3);
                    bin("to", int(a), int(a + self.g.s.range(0, 3)))
                }
                _ => self.var(),
            };
        }
        let d = d - 1;
        match self.g.s.weighted(&[3, 3, 4, 4, 3, 4, 4, 2, 2, 2, 1]) {
            0 => self.seq(0),
            1 => {
                let x = self.seq(d);
                let y = self.seq(d);
                E::Seq(vec![x, y])
            }
            2 => self.binding(d, true),
            3 => self.binding(d, false),
            4 => {
                // sums keep values small and single
                let x = self.seq(d);
                let y = self.seq(d);
                let op = *self.g.s.pick(&["+", "-", "*"]);
                bin(op, call("sum", vec![x]), call("count", vec![y]))
            }
            5 => {
                // define a function, use it
                let n = self.g.s.pick(FVARS).to_string();
                let f = self.func(d);
                let ar = f.params.len();
                let shadow = self.g.vars.iter().any(|v| v.0 == n);
                self.fv.push((n.clone(), ar));
                let body = self.seq(d);
                self.fv.pop();
                let body = if self.g.s.flip() {
                    let c = self.callv(&n, ar, d);
                    E::Seq(vec![body, c])
                } else {
                    body
                };
                let _ = shadow;
                E::Let(vec![(n, E::Inline(Box::new(f)))], b(body))
            }
            6 => {
                if self.fv.is_empty() {
                    // immediate call
                    let f = self.func(d);
                    let mut args = vec![];
                    for _ in 0..f.params.len() {
                        args.push(self.seq(d));
                    }
                    if self.g.s.chance(1, 15) {
                        args.push(int(1));
                    }
                    return E::Dyn(b(E::Inline(Box::new(f))), args);
                }
                let fv = self.fv.clone();
                let (n, ar) = self.g.s.pick(&fv).clone();
                self.callv(&n, ar, d)
            }
            7 => {
                let x = self.seq(d);
                let save = self.item;
                self.item = true;
                let y = self.seq(d);
                self.item = save;
                bin("!", E::Seq(vec![x]), E::Seq(vec![y]))
            }
            8 => {
                let x = self.seq(d);
                let save = self.item;
                self.item = true;
                let y = self.seq(0);
                let op = *self.g.s.pick(OPS_CMP);
                let p = bin(op, E::Ctx, y);
                self.item = save;
                E::Filter(b(E::Seq(vec![x])), b(p))
            }
            9 => {
                let some = self.g.s.flip();
                let depth = self.g.vars.len();
                let mut bs = vec![];
                while bs.is_empty() || self.g.s.more(bs.len(), 2, 1, 3) {
                    let e = self.seq(d);
                    let n = self.name();
                    self.g.vars.push((n.clone(), T::Ints));
                    bs.push((n, e));
                }
                let x = self.seq(0);
                let y = self.seq(0);
                let op = *self.g.s.pick(OPS_CMP);
                self.g.vars.truncate(depth);
                let q = E::Quant(some, bs, b(bin(op, x, y)));
                let t = self.seq(d.min(1));
                let u = self.seq(0);
                E::If(b(q), b(t), b(u))
            }
            _ => {
                if self.in_fn || self.item {
                    return self.seq(d);
                }
                let n = self.g.aname();
                let v = self.seq(0);
                let p = bin("=", call("count", vec![step(Axis::Child, Test::Star)]), v);
                let _ = n;
                call("count", vec![E::DSlash(b(E::Root), b(E::Step(Axis::Child, Test::Star, vec![p])))])
            }
        }
    }

    fn binding(&mut self, d: usize, is_let: bool) -> E {
        let depth = self.g.vars.len();
        let fdepth = self.fv.clone();
        let mut bs = vec![];
        while bs.is_empty() || self.g.s.more(bs.len(), 3, 1, 3) {
            let e = self.seq(d);
            let n = self.name();
            // an integer variable hides a function of the same name
            self.fv.retain(|f| f.0 != n);
            self.g.vars.push((n.clone(), T::Ints));
            bs.push((n, e));
        }
        let body = self.seq(d);
        self.g.vars.truncate(depth);
        self.fv = fdepth;
        if is_let {
            E::Let(bs, b(body))
        } else {
            E::For(bs, b(body))
        }
    }

    fn func(&mut self, d: usize) -> Inline {
        let depth = self.g.vars.len();
        let fdepth = self.fv.clone();
        let save = (self.item, self.in_fn);
        self.item = false;
        self.in_fn = true;
        let mut params = vec![];
        while self.g.s.more(params.len(), 2, 2, 3) {
            let n = self.name();
            if params.iter().any(|p: &(String, Option<ST>)| p.0 == n) {
                break;
            }
            self.fv.retain(|f| f.0 != n);
            self.g.vars.push((n.clone(), T::Ints));
            let t = if self.g.s.chance(1, 4) { Some(ST(Some((IT::Item, '*')))) } else { None };
            params.push((n, t));
        }
        let body = self.seq(d);
        self.g.vars.truncate(depth);
        self.fv = fdepth;
        self.item = save.0;
        self.in_fn = save.1;
        Inline { params, ret: None, body }
    }

    fn callv(&mut self, n: &str, ar: usize, d: usize) -> E {
        let mut args = vec![];
        for _ in 0..ar {
            args.push(self.seq(d));
        }
        E::Dyn(b(var(n)), args)
    }
}

pub fn x08(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    batch(src, cx, 6, 6, 3, &|g| closure_e(g))
}

/// an expression with variables and functions
pub fn closure_e(g: &mut G) -> E {
        let d = 2 + g.s.us(4);
        let mut v = V { g, fv: vec![], item: false, in_fn: false };
        let n = v.name();
        v.g.vars.push((n.clone(), T::Ints));
        let first = if v.g.s.flip() { int(v.g.s.range(0, 9)) } else { bin("to", int(1), int(v.g.s.range(1, 4))) };
        let body = v.seq(d);
        v.g.vars.pop();
        let e = E::Let(vec![(n, first)], b(body));
        if v.g.s.chance(1, 6) {
            // the variable ends with its expression
            let again = v.var();
            return E::Seq(vec![e, again]);
        }
        e
}

// ------------------------------------------------------------------ X09

/// a position argument
pub fn posn(g: &mut G) -> E {
    match g.s.weighted(&[12, 3, 2, 1, 1, 1, 1]) {
        0 if g.s.chance(1, 10) => sint(g.s.range(240, 300)),
        0 => sint(g.s.range(-2, 7)),
        1 => {
            let k = g.s.range(-4, 12);
            let e = E::Dec(format!("{:.2}", (k as f64).abs() / 2.0));
            if k < 0 {
                neg(e)
            } else {
                e
            }
        }
        2 => E::Dbl(g.s.pick(&["0e0", "1e0", "2e0", "1.5e0", "2.5e0", "3.4999e0", "1e18", "1e300"]).to_string()),
        3 => inf(g),
        4 => nan(),
        5 => {
            let big = [9223372036854775807, 4294967297, 4294967296, 2147483648];
            let i = *g.s.pick(&big);
            sint(if g.s.flip() { -i } else { i })
        }
        _ => {
            if g.s.flip() {
                E::Seq(vec![])
            } else {
                E::Seq(vec![int(1), int(2)])
            }
        }
    }
}
fn intpos(g: &mut G) -> E {
    match g.s.weighted(&[12, 1, 1, 1]) {
        0 if g.s.chance(1, 10) => sint(g.s.range(240, 300)),
        0 => sint(g.s.range(-2, 7)),
        1 => {
            let big = [9223372036854775807, 4294967297, 4294967296, 2147483648];
            let i = *g.s.pick(&big);
            sint(if g.s.flip() { -i } else { i })
        }
        2 => bin("-", neg(int(9223372036854775807)), int(1)),
        _ => E::Seq(vec![]),
    }
}

pub fn item(g: &mut G) -> E {
    match g.s.weighted(&[6, 4, 2, 2, 1, 3, 1, 1]) {
        0 => int(g.s.range(0, 4)),
        1 => st(*g.s.pick(&["a", "b", "", "1", "A", "日本"])),
        2 => E::Dec(g.s.pick(&["1.0", "2.0", "0.5", "0.0"]).to_string()),
        3 => E::Dbl(g.s.pick(&["1e0", "2e0", "0e0", "5E-1"]).to_string()),
        4 => call(if g.s.flip() { "true" } else { "false" }, vec![]),
        5 => g.path(0),
        6 => nan(),
        _ => {
            let x = int(g.s.range(0, 3));
            if g.s.flip() {
                E::SqArr(vec![x, int(1)])
            } else {
                E::Map(vec![(st("k"), x)])
            }
        }
    }
}
pub fn items(g: &mut G, n: usize) -> E {
    match g.s.weighted(&[40, 13, 6, 1]) {
        3 => {
            let n = 250 + g.s.range(0, 50);
            bin("to", int(1), int(n))
        }
        0 => {
            let mut v = vec![];
            while g.s.more(v.len(), n, 5, 6) {
                let x = item(g);
                v.push(x);
            }
            E::Seq(v)
        }
        1 => g.nodes(1),
        _ => g.ints(0),
    }
}

pub fn seqfn(g: &mut G, d: usize) -> E {
    if d == 0 {
        return items(g, 6);
    }
    let x = seqfn(g, d - 1);
    match g.s.weighted(&[2, 2, 3, 4, 3, 6, 2, 2, 1, 1, 1, 2, 2, 2, 1]) {
        0 => fncall(g, "head", vec![x]),
        1 => fncall(g, "tail", vec![x]),
        2 => fncall(g, "reverse", vec![x]),
        3 => {
            let p = intpos(g);
            let y = seqfn(g, d - 1);
            fncall(g, "insert-before", vec![x, p, y])
        }
        4 => {
            let p = intpos(g);
            fncall(g, "remove", vec![x, p])
        }
        5 => {
            let p = posn(g);
            if g.s.flip() {
                fncall(g, "subsequence", vec![x, p])
            } else {
                let l = posn(g);
                fncall(g, "subsequence", vec![x, p, l])
            }
        }
        6 => fncall(g, "count", vec![x]),
        7 => {
            let n = if g.s.flip() { "empty" } else { "exists" };
            fncall(g, n, vec![x])
        }
        8 => fncall(g, "zero-or-one", vec![x]),
        9 => fncall(g, "one-or-more", vec![x]),
        10 => fncall(g, "exactly-one", vec![x]),
        11 => {
            let y = seqfn(g, d - 1);
            E::Seq(vec![x, y])
        }
        12 => {
            let lo = g.s.range(-2, 6);
            let hi = lo + g.s.range(-1, 5);
            if g.s.chance(1, 5) {
                // a range around a limit, or a long one
                let base = *g.s.pick(&[9223372036854775803i64, -9223372036854775807, 4294967294, 2147483645, -2147483650, 9007199254740990, 0, 250]);
                if base < 300 && base >= 0 {
                    return bin("to", int(base), int(base + 240 + g.s.range(0, 40)));
                }
                return bin("to", sint(base + g.s.range(0, 4)), sint(base + g.s.range(0, 4)));
            }
            let l = match g.s.us(6) {
                0 => call("count", vec![x]),
                1 => E::Seq(vec![]),
                _ => sint(lo),
            };
            bin("to", l, sint(hi))
        }
        13 => {
            let i = posn(g);
            if g.s.chance(1, 3) {
                // the position and the size of the focus, far out
                let p = call(if g.s.flip() { "position" } else { "last" }, vec![]);
                let e = match g.s.us(3) {
                    0 => return E::Filter(b(E::Seq(vec![x])), b(bin(*g.s.pick(&["eq", "ge", "<", "ne"]), p, i))),
                    1 => bin("-", p, i),
                    _ => p,
                };
                if g.s.flip() {
                    return bin("!", E::Seq(vec![x]), e);
                }
                return E::Filter(b(E::Seq(vec![x])), b(e));
            }
            E::Filter(b(E::Seq(vec![x])), b(i))
        }
        _ => {
            let t = item(g);
            fncall(g, "index-of", vec![x, t])
        }
    }
}

pub fn x09(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    batch(src, cx, 10, 10, 5, &|g| {
        if g.s.chance(1, 6) {
            let x = items(g, 8);
            let t = item(g);
            return call("index-of", vec![x, t]);
        }
        let d = 1 + g.s.weighted(&[4, 3, 1]);
        seqfn(g, d)
    })
}

// ------------------------------------------------------------------ X10

const ALPHA: &[char] = &[
    'a', 'b', 'c', 'A', 'B', ' ', '1', '0', 'é', '日', '本', '-', '.', '\'', '"', '\t', '\n', 'ß', 'É', '𝄞', '\u{301}', 'ア', '<', '&', '{', '?',
];

fn raw(g: &mut G, max: usize) -> String {
    let n = if g.s.flip() { 3 } else { ALPHA.len() };
    let mut s = String::new();
    let mut k = 0;
    while g.s.more(k, max, 5, 6) {
        k += 1;
        if g.s.chance(1, 24) {
            s.push(any_char(g.s));
        } else {
            s.push(*g.s.pick(&ALPHA[..n]));
        }
    }
    if max > 3 && k > 0 && g.s.chance(1, 60) {
        // longer than 255 characters
        s = s.repeat(256 / k + 1 + g.s.us(3));
    }
    s
}

/// a string argument
fn sarg(g: &mut G, d: usize) -> E {
    match g.s.weighted(&[12, 4, 2, 1, 1, 1]) {
        0 => {
            let s = raw(g, 8);
            E::Str(s)
        }
        1 if d > 0 => strfn(g, d - 1),
        2 => {
            let p = g.path(0);
            call("head", vec![p])
        }
        3 => E::Seq(vec![]),
        4 => val(g),
        _ => {
            let s = raw(g, 3);
            E::SqArr(vec![E::Str(s)])
        }
    }
}
/// a pattern that occurs in many strings
fn parg(g: &mut G) -> E {
    match g.s.weighted(&[8, 1, 1]) {
        0 => {
            let s = raw(g, 2);
            E::Str(s)
        }
        1 => E::Seq(vec![]),
        _ => val(g),
    }
}

pub fn strfn(g: &mut G, d: usize) -> E {
    match g.s.weighted(&[3, 3, 6, 2, 2, 3, 4, 3, 3, 4, 3, 2, 2, 2, 5]) {
        0 => {
            let mut v = vec![];
            while v.len() < 2 || g.s.more(v.len(), 4, 1, 3) {
                let x = if g.s.flip() { sarg(g, d) } else { val(g) };
                v.push(x);
            }
            fncall(g, "concat", v)
        }
        1 => {
            let x = sarg(g, d);
            let y = val(g);
            bin("||", x, y)
        }
        2 => {
            let x = sarg(g, d);
            let p = posn(g);
            if g.s.flip() {
                fncall(g, "substring", vec![x, p])
            } else {
                let l = posn(g);
                fncall(g, "substring", vec![x, p, l])
            }
        }
        3 => {
            let x = sarg(g, d);
            fncall(g, "string-length", vec![x])
        }
        4 => {
            let x = sarg(g, d);
            fncall(g, "normalize-space", vec![x])
        }
        5 => {
            let x = sarg(g, d);
            let n = if g.s.flip() { "upper-case" } else { "lower-case" };
            fncall(g, n, vec![x])
        }
        6 => {
            let x = sarg(g, d);
            let f = raw(g, 5);
            let t = raw(g, 5);
            fncall(g, "translate", vec![x, E::Str(f), E::Str(t)])
        }
        7 => {
            let x = sarg(g, d);
            let y = parg(g);
            let n = *g.s.pick(&["contains", "starts-with", "ends-with"]);
            fncall(g, n, vec![x, y])
        }
        8 => {
            let x = sarg(g, d);
            let y = parg(g);
            let n = *g.s.pick(&["substring-before", "substring-after"]);
            fncall(g, n, vec![x, y])
        }
        9 => {
            let x = sarg(g, d);
            let y = if g.s.flip() { sarg(g, 0) } else { x.clone() };
            let n = *g.s.pick(&["compare", "codepoint-equal"]);
            fncall(g, n, vec![x, y])
        }
        10 => {
            let mut v = vec![];
            while g.s.more(v.len(), 5, 4, 5) {
                let x = val(g);
                v.push(x);
            }
            if g.s.flip() {
                let y = parg(g);
                fncall(g, "string-join", vec![E::Seq(v), y])
            } else {
                fncall(g, "string-join", vec![E::Seq(v)])
            }
        }
        11 => {
            let x = sarg(g, d);
            fncall(g, "string-to-codepoints", vec![x])
        }
        12 => {
            let mut v = vec![];
            while g.s.more(v.len(), 5, 4, 5) {
                let c = match g.s.weighted(&[8, 1, 1, 1, 1, 1]) {
                    0 => *g.s.pick(ALPHA) as i64,
                    1 => 0x10FFFF,
                    2 => *g.s.pick(&[0, 1, 8, 11, 0xFFFE, 0xFFFF, 0x110000, -1, 4294967361, 9223372036854775807]),
                    3 => 0xD800 + g.s.range(0, 0x7FF),
                    4 => *g.s.pick(&[9, 10, 13, 0xE000, 0xFFFD, 0x10000, 0xD7FF]),
                    _ => g.s.range(32, 0x2FFF),
                };
                v.push(sint(c));
            }
            fncall(g, "codepoints-to-string", vec![E::Seq(v)])
        }
        13 => {
            let x = sarg(g, d);
            fncall(g, "codepoints-to-string", vec![call("string-to-codepoints", vec![x])])
        }
        _ => {
            // string form of any value
            let x = match g.s.weighted(&[2, 2, 1]) {
                0 => val(g),
                1 => {
                    let m = g.s.range(1, 99999);
                    let x = g.s.range(-12, 12);
                    let e = E::Dbl(format!("{}e{}", m, x));
                    if g.s.flip() {
                        neg(e)
                    } else {
                        e
                    }
                }
                _ => {
                    let x = num(g);
                    let y = num(g);
                    bin(*g.s.pick(&["+", "-", "*", "div"]), x, y)
                }
            };
            if g.s.flip() {
                fncall(g, "string", vec![x])
            } else {
                E::CastAs(b(x), "xs:string".into(), true)
            }
        }
    }
}

pub fn x10(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    batch(src, cx, 8, 12, 6, &|g| {
        if g.s.chance(1, 8) {
            // the functions that take the context item
            let p = g.path(0);
            let f = *g.s.pick(&["string", "string-length", "normalize-space"]);
            return bin("!", p, call(f, vec![]));
        }
        let d = g.s.us(3);
        strfn(g, d)
    })
}

// ------------------------------------------------------------------ X11

pub fn numarg(g: &mut G) -> E {
    match g.s.weighted(&[6, 4, 1, 1, 1]) {
        4 => big_dec(g),
        0 => num(g),
        1 => {
            // ties and their neighbours
            let k = g.s.range(-9, 9);
            let a = k.abs();
            let t = match g.s.us(4) {
                0 => format!("{}.5", a),
                1 => format!("{}.49999", a),
                2 => format!("{}.50001", a),
                _ => format!("{}.0", a),
            };
            let e = if g.s.flip() { E::Dec(t) } else { E::Dbl(t + "e0") };
            if k < 0 {
                neg(e)
            } else {
                e
            }
        }
        2 => E::Seq(vec![]),
        _ => val(g),
    }
}

pub fn numseq(g: &mut G) -> E {
    let kind = g.s.weighted(&[4, 4, 3, 1, 2]);
    let mut v = vec![];
    let long = if g.s.chance(1, 25) { 8 + g.s.us(30) } else { 0 };
    while v.len() < long || g.s.more(v.len(), 6, 5, 6) {
        let x = match kind {
            0 => sint(g.s.range(-9, 9)),
            1 => num(g),
            2 => match g.s.us(3) {
                0 => sint(g.s.range(-3, 3)),
                1 => E::Dec(g.s.pick(&["1.0", "2.5", "0.5", "3.0"]).to_string()),
                _ => E::Dbl(g.s.pick(&["1e0", "2.5e0", "-1e0", "0e0"]).trim_start_matches('-').to_string()),
            },
            3 => val(g),
            _ => st(*g.s.pick(STRS)),
        };
        v.push(x);
    }
    if long > 0 && g.s.flip() {
        // one of another kind, anywhere
        let i = g.s.us(v.len() + 1);
        let x = match g.s.us(4) {
            0 => st("1"),
            1 => bin("div", E::Dbl("0e0".into()), int(0)),
            2 => E::Dbl("1.5e0".into()),
            _ => call("true", vec![]),
        };
        v.insert(i, x);
    }
    if g.s.chance(1, 10) {
        return E::SqArr(v);
    }
    E::Seq(v)
}

pub fn x11(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    batch(src, cx, 8, 12, 6, &|g| match g.s.weighted(&[5, 5, 1, 1]) {
        0 => {
            let x = numarg(g);
            let n = *g.s.pick(&["abs", "ceiling", "floor", "round", "number", "round", "number"]);
            fncall(g, n, vec![x])
        }
        1 => {
            let n = *g.s.pick(&["sum", "avg", "max", "min"]);
            let x = if n == "max" || n == "min" {
                match g.s.us(3) {
                    0 => g.strs(0),
                    1 => g.nodes(0),
                    _ => numseq(g),
                }
            } else {
                numseq(g)
            };
            if n == "sum" && g.s.chance(1, 4) {
                let z = match g.s.us(4) {
                    0 => E::Seq(vec![]),
                    1 => int(5),
                    2 => E::Dbl("0e0".into()),
                    _ => st("none"),
                };
                return fncall(g, n, vec![x, z]);
            }
            fncall(g, n, vec![x])
        }
        2 => {
            let x = g.nodes(0);
            let n = *g.s.pick(&["sum", "avg"]);
            fncall(g, n, vec![x])
        }
        _ => {
            let p = g.path(0);
            bin("!", p, call("number", vec![]))
        }
    })
}

// ------------------------------------------------------------------ X12

const TYPES: &[&str] = &["xs:string", "xs:integer", "xs:decimal", "xs:double", "xs:boolean"];

fn numeral(g: &mut G) -> String {
    let mut s = String::new();
    if g.s.chance(1, 6) {
        s.push_str(g.s.pick(&[" ", "\n", "\t ", "\u{a0}"]));
    }
    match g.s.weighted(&[6, 2, 2]) {
        0 => {
            if g.s.chance(1, 3) {
                s.push_str(g.s.pick(&["-", "+", "--", "- "]));
            }
            let n = match g.s.us(5) {
                0 => "9223372036854775807".to_string(),
                1 => "9223372036854775808".to_string(),
                _ => g.s.range(0, 120).to_string(),
            };
            if g.s.chance(1, 6) {
                s.push_str("00");
            }
            if !g.s.chance(1, 8) {
                s.push_str(&n);
            }
            if g.s.chance(1, 3) {
                s.push('.');
                if !g.s.chance(1, 5) {
                    s.push_str(&g.s.range(0, 50).to_string());
                }
            }
            if g.s.chance(1, 4) {
                s.push_str(g.s.pick(&["e", "E"]));
                s.push_str(g.s.pick(&["1", "-2", "+3", "", "0", "300", "1.5"]));
            }
        }
        1 => s.push_str(g.s.pick(&["true", "false", "TRUE", "1", "0", "yes", "tru", "01"])),
        _ => s.push_str(g.s.pick(&["NaN", "INF", "-INF", "+INF", "nan", "inf", "Infinity", "0x10", "1_000", "١", "", "a", "1a", "1 2"])),
    }
    if g.s.chance(1, 6) {
        s.push_str(g.s.pick(&[" ", "\n", "x", "\r"]).trim_end_matches('\r'));
    }
    s
}

pub fn castarg(g: &mut G) -> E {
    match g.s.weighted(&[6, 5, 3, 1]) {
        0 => {
            let mut s = numeral(g);
            if g.s.chance(1, 30) {
                // more digits than any number has room for
                let z = (*g.s.pick(&["0", "9", "1"])).repeat(*g.s.pick(&[17, 40, 308, 310, 400]));
                let i = g.s.us(s.chars().count() + 1);
                let i: usize = s.chars().take(i).map(|c| c.len_utf8()).sum();
                s.insert_str(i, &z);
            }
            E::Str(s)
        }
        1 => num(g),
        2 => val(g),
        _ => {
            let x = castarg(g);
            let t = *g.s.pick(TYPES);
            E::CastAs(b(x), t.into(), g.s.flip())
        }
    }
}

pub fn tname(g: &mut G) -> String {
    let t = *g.s.pick(TYPES);
    if g.s.chance(1, 8) {
        return t[3..].to_string();
    }
    t.to_string()
}

fn occ(g: &mut G) -> char {
    *g.s.pick(&[' ', '?', '*', '+'])
}

pub fn seqtype(g: &mut G, d: usize) -> ST {
    if g.s.chance(1, 12) {
        return ST(None);
    }
    let it = match g.s.weighted(&[8, 2, 5, 1, 2, 2]) {
        0 => IT::Atomic(g.s.pick(&["xs:string", "xs:integer", "xs:decimal", "xs:double", "xs:boolean", "xs:anyAtomicType"]).to_string()),
        1 => IT::Item,
        2 => IT::Kind(kindtest(g)),
        3 => IT::AnyFn,
        4 => {
            if d == 0 || g.s.chance(1, 3) {
                IT::AnyMap
            } else {
                let k = g.s.pick(&["xs:string", "xs:integer", "xs:anyAtomicType", "xs:decimal"]).to_string();
                IT::Map(k, Box::new(seqtype(g, d - 1)))
            }
        }
        _ => {
            if d == 0 || g.s.chance(1, 3) {
                IT::AnyArr
            } else {
                IT::Arr(Box::new(seqtype(g, d - 1)))
            }
        }
    };
    ST(Some((it, occ(g))))
}

fn kindtest(g: &mut G) -> Kind {
    if g.s.chance(1, 3) {
        return crate::xprops5::kind(g);
    }
    match g.s.us(7) {
        0 => Kind::Node,
        1 => Kind::Text,
        2 => Kind::Comment,
        3 => Kind::Pi(if g.s.flip() { None } else { Some("t".into()) }),
        4 => {
            let n = if g.s.flip() { Some(g.aname()) } else { None };
            Kind::Attr(n, None)
        }
        _ => {
            let n = if g.s.flip() { Some(g.ename()) } else { None };
            Kind::Elem(n, None)
        }
    }
}

pub fn typed(g: &mut G, d: usize) -> E {
    match g.s.weighted(&[6, 3, 3, 2, 2]) {
        0 => val(g),
        1 => g.nodes(0),
        2 => items(g, 3),
        3 if d > 0 => {
            let mut v = vec![];
            while g.s.more(v.len(), 3, 2, 3) {
                let x = typed(g, d - 1);
                v.push(x);
            }
            E::SqArr(v)
        }
        _ if d > 0 => {
            let mut v = vec![];
            let n = g.s.us(3) as i64;
            let strs = g.s.flip();
            for i in 0..n {
                let k = if strs { st(*g.s.pick(&["a", "b", "c"])) } else { int(i) };
                if v.iter().any(|x: &(E, E)| x.0 == k) {
                    continue;
                }
                let x = typed(g, d - 1);
                v.push((k, x));
            }
            E::Map(v)
        }
        _ => num(g),
    }
}

pub fn x12(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    batch(src, cx, 8, 12, 6, &|g| match g.s.weighted(&[4, 4, 5]) {
        0 => {
            let x = castarg(g);
            let t = tname(g);
            E::CastAs(b(x), t, g.s.flip())
        }
        1 => {
            let x = castarg(g);
            let t = tname(g);
            E::CastableAs(b(x), t, g.s.flip())
        }
        _ => {
            let x = if g.s.chance(1, 10) {
                // many of one type, perhaps one of another, anywhere
                let x = typed(g, 1);
                let mut v = vec![x; 6 + g.s.us(25)];
                if g.s.flip() {
                    let i = g.s.us(v.len());
                    v[i] = typed(g, 1);
                }
                match g.s.us(4) {
                    0 => E::SqArr(v),
                    1 => E::Map(v.into_iter().enumerate().map(|(i, x)| (int(i as i64), x)).collect()),
                    _ => E::Seq(v),
                }
            } else {
                typed(g, 2)
            };
            let t = seqtype(g, 2);
            E::InstanceOf(b(x), t)
        }
    })
}

// ------------------------------------------------------------------ X13

/// names that mean something elsewhere
const KEYWORDS: &[&str] = &["div", "to", "and", "is", "node", "text", "if", "map", "for", "child", "instance", "union", "item", "return"];

/// a number of entries that no test has
fn many(g: &mut G) -> i64 {
    match g.s.weighted(&[3, 2, 1]) {
        0 => g.s.range(8, 40),
        1 => g.s.range(40, 140),
        _ => g.s.range(240, 300),
    }
}

pub fn mkey(g: &mut G) -> E {
    match g.s.weighted(&[12, 10, 2, 2, 2, 1, 3, 2]) {
        0 => st(*g.s.pick(&["a", "b", "1", "", "日本", "x-1"])),
        6 => st(*g.s.pick(KEYWORDS)),
        7 => match g.s.us(4) {
            0 => g.atom(0),
            1 => {
                let n = g.aname();
                E::Step(Axis::Attribute, Test::Name(n), vec![])
            }
            2 => E::Ctx,
            _ => {
                let n = g.ename();
                E::Step(Axis::Child, Test::Name(n), vec![int(1)])
            }
        },
        1 => int(g.s.range(0, 3)),
        2 => E::Dec(g.s.pick(&["1.0", "2.0", "0.5"]).to_string()),
        3 => E::Dbl(g.s.pick(&["1e0", "2e0", "5E-1", "0e0"]).to_string()),
        4 => call(if g.s.flip() { "true" } else { "false" }, vec![]),
        _ => match g.s.us(4) {
            0 => nan(),
            1 => E::Seq(vec![]),
            2 => E::Seq(vec![int(1), int(2)]),
            _ => {
                let p = g.path(0);
                call("head", vec![p])
            }
        },
    }
}

fn mapval(g: &mut G, d: usize) -> E {
    match g.s.weighted(&[5, 2, 3, 3, 1]) {
        0 => item(g),
        1 => items(g, 3),
        2 if d > 0 => mmap(g, d - 1),
        3 if d > 0 => marr(g, d - 1),
        _ => int(g.s.range(0, 9)),
    }
}
pub fn mmap(g: &mut G, d: usize) -> E {
    if g.s.chance(1, 80) {
        // a large one
        let n = many(g);
        let strs = g.s.flip();
        let at = g.s.range(0, 40);
        return E::Map((0..n).map(|i| (if strs { st(&format!("k{}", i + at)) } else { int(i + at) }, int(i))).collect());
    }
    let mut v: Vec<(E, E)> = vec![];
    while g.s.more(v.len(), 4, 4, 5) {
        let k = mkey(g);
        // duplicates are errors: keep them rare
        let same = |x: &E, y: &E| crate::xprops::same_number(x, y);
        if v.iter().any(|x| x.0 == k || same(&x.0, &k)) && !g.s.chance(1, 20) {
            continue;
        }
        let x = mapval(g, d);
        v.push((k, x));
    }
    E::Map(v)
}
pub fn marr(g: &mut G, d: usize) -> E {
    if g.s.chance(1, 80) {
        let n = many(g);
        if g.s.flip() {
            return E::CurArr(b(bin("to", int(1), int(n))));
        }
        return E::SqArr((0..n).map(|i| if i % 7 == 3 { E::Seq(vec![]) } else { int(i) }).collect());
    }
    if g.s.chance(1, 3) {
        let x = if g.s.flip() { items(g, 4) } else { mapval(g, d) };
        return E::CurArr(b(x));
    }
    let mut v = vec![];
    while g.s.more(v.len(), 4, 4, 5) {
        let x = mapval(g, d);
        v.push(x);
    }
    E::SqArr(v)
}

/// is the string a name that may stand after `?` (the names the generator
/// writes are all within this)
fn is_ncname(s: &str) -> bool {
    let start = |c: char| c.is_ascii_alphabetic() || c == '_' || (c as u32) >= 0xC0 && c.is_alphabetic();
    let mut it = s.chars();
    it.next().map_or(false, start) && it.all(|c| start(c) || c.is_ascii_digit() || "-._".contains(c))
}

/// 'm' map, 'a' array, '?' unknown
fn lkey(g: &mut G, k: char, x: &E) -> Key {
    if k == 'a' {
        let n = match x {
            E::SqArr(v) => v.len() as i64,
            _ => 2,
        };
        return match g.s.weighted(&[6, 3, 3, 1]) {
            0 => Key::Int(g.s.range(1, n.max(1))),
            1 => Key::Star,
            2 => {
                let i = int(g.s.range(1, n.max(1)));
                let k = match g.s.us(4) {
                    0 => i,
                    1 => bin("to", int(1), i),
                    2 => E::Seq(vec![i, int(1)]),
                    _ => mkey(g),
                };
                Key::Expr(b(k))
            }
            _ => Key::Int(g.s.range(0, n + 1)),
        };
    }
    // a key that is there
    if let E::Map(v) = x {
        if !v.is_empty() && g.s.chance(2, 3) {
            let k = g.s.pick(v).0.clone();
            match &k {
                E::Str(s) if is_ncname(s) && g.s.flip() => return Key::Name(s.clone()),
                E::Int(i) if g.s.flip() => return Key::Int(*i),
                _ => {}
            }
            let k = match g.s.us(4) {
                0 => {
                    let k2 = g.s.pick(v).0.clone();
                    E::Seq(vec![k, k2])
                }
                _ => k,
            };
            return Key::Expr(b(k));
        }
    }
    match g.s.weighted(&[4, 2, 4, 3]) {
        0 => Key::Name(if g.s.chance(1, 4) { g.s.pick(KEYWORDS) } else { g.s.pick(&["a", "b", "日本", "x-1", "zz"]) }.to_string()),
        1 => Key::Int(g.s.range(0, 4)),
        2 => Key::Star,
        _ => {
            let k = if g.s.flip() { mkey(g) } else { E::Seq(vec![mkey(g), mkey(g)]) };
            Key::Expr(b(k))
        }
    }
}

/// a map or array (kind), mostly a constructor, sometimes taken out of another one
fn mbase(g: &mut G, kind: char, d: usize) -> E {
    let x = if kind == 'm' { mmap(g, 2) } else { marr(g, 2) };
    if d == 0 || !g.s.chance(1, 5) {
        return x;
    }
    match g.s.us(3) {
        0 => E::Lookup(b(E::Map(vec![(st("a"), x), (int(1), int(2))])), Key::Name("a".into())),
        1 => E::Dyn(b(E::SqArr(vec![int(0), x])), vec![int(2)]),
        _ => {
            let n = g.bind_name();
            E::Let(vec![(n.clone(), x)], b(var(&n)))
        }
    }
}

/// a key for a function call
fn fkey(g: &mut G, x: &E) -> E {
    match x {
        E::Map(v) if !v.is_empty() && g.s.chance(3, 4) => g.s.pick(v).0.clone(),
        E::SqArr(v) if g.s.chance(7, 8) => int(g.s.range(1, (v.len() as i64).max(1))),
        E::CurArr(x) if matches!(**x, E::Bin(..)) => int(g.s.range(1, 300)),
        E::CurArr(_) if g.s.chance(7, 8) => int(g.s.range(1, 2)),
        _ => mkey(g),
    }
}

pub fn mexp(g: &mut G, d: usize) -> E {
    if d == 0 {
        return if g.s.flip() { mmap(g, 2) } else { marr(g, 2) };
    }
    let f = g.s.weighted(&[8, 4, 3, 2, 3, 3, 3, 2, 3, 3, 2]);
    let mut kind = match f {
        3 | 4 | 5 => 'm',
        6 | 7 => 'a',
        _ => *g.s.pick(&['m', 'a']),
    };
    if g.s.chance(1, 25) {
        kind = if kind == 'm' { 'a' } else { 'm' };
    }
    let x = mbase(g, kind, d - 1);
    match f {
        0 => {
            let k = lkey(g, kind, &x);
            let mut e = E::Lookup(b(x), k);
            while g.s.chance(1, 4) {
                let k = lkey(g, '?', &E::Ctx);
                e = E::Lookup(b(e), k);
            }
            e
        }
        1 => {
            let k = fkey(g, &x);
            E::Dyn(b(x), vec![k])
        }
        2 => call(if kind == 'm' { "map:size" } else { "array:size" }, vec![x]),
        3 => call("map:keys", vec![x]),
        4 => {
            let k = fkey(g, &x);
            call("map:contains", vec![x, k])
        }
        5 => {
            let k = fkey(g, &x);
            call("map:get", vec![x, k])
        }
        6 => {
            let i = fkey(g, &x);
            call("array:get", vec![x, i])
        }
        7 => {
            if g.s.flip() {
                let y = marr(g, 1);
                return call("array:flatten", vec![E::Seq(vec![x, y, int(1)])]);
            }
            call("array:flatten", vec![x])
        }
        8 => {
            // unary lookup, context item is a map or an array
            let k = lkey(g, kind, &x);
            bin("!", x, E::ULookup(k))
        }
        9 => {
            let k = lkey(g, kind, &x);
            let op = *g.s.pick(OPS_CMP);
            let v = item(g);
            let p = if g.s.flip() { E::ULookup(k) } else { bin(op, E::ULookup(k), v) };
            let y = if kind == 'm' { mmap(g, 1) } else { marr(g, 1) };
            E::Filter(b(E::Seq(vec![x, y])), b(p))
        }
        _ => {
            let n = g.bind_name();
            let k = lkey(g, kind, &x);
            let k2 = lkey(g, kind, &x);
            E::Let(vec![(n.clone(), x)], b(E::Seq(vec![E::Lookup(b(var(&n)), k), E::Lookup(b(var(&n)), k2)])))
        }
    }
}

pub fn x13(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    batch(src, cx, 8, 10, 5, &|g| {
        let d = g.s.weighted(&[1, 5, 2]);
        mexp(g, d)
    })
}

// ------------------------------------------------------------------ X14

/// a function of one argument: (expression, argument generator kind)
pub fn fun1(g: &mut G, d: usize) -> E {
    match g.s.weighted(&[4, 4, 5, 2, 2, 2]) {
        0 => E::NamedRef(
            {
                let n = g
                    .s
                    .pick(&["abs", "string", "string-length", "upper-case", "not", "count", "boolean", "number", "head", "reverse", "exists", "data", "string-to-codepoints", "normalize-space"])
                    .to_string();
                if g.s.chance(1, 6) {
                    format!("fn:{}", n)
                } else {
                    n
                }
            },
            1,
        ),
        1 => {
            let s = st(*g.s.pick(&["a", "b", "1", ""]));
            let e = match g.s.us(7) {
                0 => E::Partial("concat".into(), vec![Some(s), None]),
                1 => E::Partial("concat".into(), vec![None, Some(s)]),
                2 => E::Partial("contains".into(), vec![None, Some(s)]),
                3 => E::Partial("substring".into(), vec![Some(st("abcdef")), None]),
                4 => E::Partial("string-join".into(), vec![None, Some(s)]),
                5 => {
                    let x = items(g, 3);
                    E::Partial("insert-before".into(), vec![Some(x), Some(int(2)), None])
                }
                _ => {
                    let x = items(g, 3);
                    E::Partial("index-of".into(), vec![Some(x), None])
                }
            };
            arrowed(g, e)
        }
        2 => {
            let n = g.bind_name();
            let depth = g.vars.len();
            g.vars.push((n.clone(), T::Int));
            let save = (g.node_ctx, g.pos);
            g.node_ctx = false;
            g.pos = false;
            let body = match g.s.us(5) {
                0 => bin("+", var(&n), int(1)),
                1 => E::Seq(vec![var(&n), var(&n)]),
                2 => g.integer(1),
                3 => bin("||", var(&n), st("!")),
                _ if d > 0 => {
                    let f = fun1(g, d - 1);
                    E::Dyn(b(E::Seq(vec![f])), vec![var(&n)])
                }
                _ => call("string", vec![var(&n)]),
            };
            g.node_ctx = save.0;
            g.pos = save.1;
            g.vars.truncate(depth);
            let t = match g.s.us(6) {
                0 => Some(ST(Some((IT::Atomic("xs:integer".into()), ' ')))),
                1 => Some(ST(Some((IT::Item, '*')))),
                _ => None,
            };
            E::Inline(Box::new(Inline { params: vec![(n, t)], ret: None, body }))
        }
        3 => E::Map(vec![(int(1), st("one")), (int(2), st("two")), (st("a"), int(1))]),
        4 => E::SqArr(vec![int(10), int(20), E::Seq(vec![int(3), int(4)])]),
        _ => {
            if d == 0 {
                return E::NamedRef("string".into(), 1);
            }
            // a function that returns a function
            let n = g.bind_name();
            let m = g.bind_name();
            let body = if n == m { var(&m) } else { bin("||", var(&n), var(&m)) };
            let inner = E::Inline(Box::new(Inline { params: vec![(m, None)], ret: None, body }));
            let outer = E::Inline(Box::new(Inline { params: vec![(n, None)], ret: None, body: inner }));
            let x = item(g);
            E::Dyn(b(outer), vec![x])
        }
    }
}

fn predf(g: &mut G) -> E {
    let n = g.bind_name();
    let p = match g.s.us(6) {
        0 => return E::NamedRef(g.s.pick(&["boolean", "not", "exists", "empty"]).to_string(), 1),
        1 => return E::Partial("contains".into(), vec![None, Some(st("a"))]),
        2 => bin(*g.s.pick(OPS_CMP), var(&n), int(g.s.range(0, 4))),
        3 => bin("=", bin("mod", var(&n), int(2)), int(g.s.range(0, 1))),
        4 => bin("instance of-", var(&n), int(0)),
        _ => bin(*g.s.pick(OPS_CMP), var(&n), st("a")),
    };
    let p = match p {
        E::Bin("instance of-", x, _) => E::InstanceOf(x, ST(Some((IT::Atomic("xs:integer".into()), ' ')))),
        p => p,
    };
    E::Inline(Box::new(Inline { params: vec![(n, None)], ret: None, body: p }))
}

pub fn hof(g: &mut G, d: usize) -> E {
    if d == 0 {
        return items(g, 4);
    }
    match g.s.weighted(&[5, 4, 4, 3, 4, 2, 2, 2]) {
        0 => {
            let x = hof(g, d - 1);
            let f = fun1(g, d - 1);
            fncall(g, "for-each", vec![x, f])
        }
        1 => {
            let x = hof(g, d - 1);
            let f = predf(g);
            fncall(g, "filter", vec![x, f])
        }
        2 => {
            let f = fun1(g, d - 1);
            let x = item(g);
            let f = if matches!(f, E::Inline(_) | E::Map(_) | E::SqArr(_) | E::Dyn(..)) { f } else { E::Seq(vec![f]) };
            E::Dyn(b(f), vec![x])
        }
        3 => {
            // functions stored in a variable
            let n = g.bind_name();
            let f = fun1(g, d - 1);
            let x = item(g);
            let y = item(g);
            E::Let(vec![(n.clone(), f)], b(E::Seq(vec![E::Dyn(b(var(&n)), vec![x]), E::Dyn(b(var(&n)), vec![y])])))
        }
        4 => {
            // arrows
            let x = E::Seq(vec![hof(g, d - 1)]);
            let mut e = x;
            let mut lets: Vec<(String, E, usize)> = vec![];
            while g.s.more(lets.len(), 2, 1, 2) {
                let n = g.bind_name();
                if lets.iter().any(|l| l.0 == n) {
                    break;
                }
                let (f, args) = if g.s.chance(1, 3) {
                    let m = g.bind_name();
                    let k = format!("{}2", m);
                    let body = match g.s.us(3) {
                        0 => E::Seq(vec![var(&k), var(&m)]),
                        1 => bin("||", var(&m), var(&k)),
                        _ => call("count", vec![E::Seq(vec![var(&m), var(&k)])]),
                    };
                    (E::Inline(Box::new(Inline { params: vec![(m, None), (k, None)], ret: None, body })), 1)
                } else if g.s.flip() {
                    (E::NamedRef(g.s.pick(&["count", "reverse", "head", "tail", "string", "data", "exists"]).to_string(), 1), 0)
                } else {
                    (fun1(g, 0), 0)
                };
                lets.push((n, f, args));
            }
            loop {
                let stop = if lets.is_empty() { (2, 3) } else { (1, 2) };
                if !lets.is_empty() && g.s.flip() {
                    let (n, _, k) = lets[g.s.us(lets.len())].clone();
                    let args = (0..k).map(|_| item(g)).collect();
                    e = E::Arrow(b(e), ArrowF::Var(n), args);
                    if g.s.chance(stop.0, stop.1) {
                        break;
                    }
                    continue;
                }
                e = match g.s.us(7) {
                    0 => E::Arrow(b(e), ArrowF::Name("count".into()), vec![]),
                    1 => E::Arrow(b(e), ArrowF::Name("reverse".into()), vec![]),
                    2 => {
                        let p = int(g.s.range(0, 4));
                        E::Arrow(b(e), ArrowF::Name("subsequence".into()), vec![p])
                    }
                    3 => {
                        let f = fun1(g, 0);
                        E::Arrow(b(e), ArrowF::Name("for-each".into()), vec![f])
                    }
                    4 => E::Arrow(b(e), ArrowF::Name("string-join".into()), vec![st(*g.s.pick(&["-", ""]))]),
                    5 => {
                        let y = items(g, 2);
                        E::Arrow(b(e), ArrowF::Name("insert-before".into()), vec![int(g.s.range(0, 3)), y])
                    }
                    _ => E::Arrow(b(e), ArrowF::Name("head".into()), vec![]),
                };
                if g.s.chance(stop.0, stop.1) {
                    break;
                }
            }
            if lets.is_empty() {
                e
            } else {
                E::Let(lets.into_iter().map(|l| (l.0, l.1)).collect(), b(e))
            }
        }
        5 => {
            let n = g.bind_name();
            let f = fun1(g, d - 1);
            let x = E::Seq(vec![item(g)]);
            E::Let(vec![(n.clone(), f)], b(E::Arrow(b(x), ArrowF::Var(n), vec![])))
        }
        6 => {
            // functions in arrays and maps
            let f = fun1(g, d - 1);
            let f2 = fun1(g, 0);
            let x = item(g);
            match g.s.us(3) {
                0 => {
                    let n = if g.s.flip() { "f" } else { *g.s.pick(KEYWORDS) };
                    E::Dyn(b(E::Lookup(b(E::Map(vec![(st(n), f), (st("g"), f2)])), Key::Name(g.s.pick(&[n, "g"]).to_string()))), vec![x])
                }
                1 => E::Dyn(b(E::Dyn(b(E::SqArr(vec![f, f2])), vec![int(g.s.range(1, 2))])), vec![x]),
                _ => bin("!", E::Seq(vec![f, f2]), E::Dyn(b(E::Ctx), vec![x])),
            }
        }
        _ => {
            let f = fun1(g, d - 1);
            match g.s.us(2) {
                0 => E::InstanceOf(b(E::Seq(vec![f])), ST(Some((g.s.pick(&[IT::AnyFn, IT::AnyMap, IT::AnyArr, IT::Item]).clone(), ' ')))),
                _ => call("count", vec![E::Seq(vec![f])]),
            }
        }
    }
}

pub fn x14(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    batch(src, cx, 8, 8, 4, &|g| {
        let d = 1 + g.s.weighted(&[3, 3, 1]);
        hof(g, d)
    })
}

// ------------------------------------------------------------------ X18

pub fn nodefn(g: &mut G) -> E {
    let n = *g.s.pick(&["name", "local-name", "namespace-uri", "root", "string", "data", "number", "nilled", "lang", "string-length", "normalize-space"]);
    if n == "lang" {
        let l = match g.s.us(12) {
            10 => E::Seq(vec![]),
            11 => {
                let p = g.path(0);
                if g.s.flip() { call("head", vec![p]) } else { p }
            }
            _ => st(*g.s.pick(&["en", "EN", "en-US", "fr", "e", "", "en-", "de", "ja"])),
        };
        return match g.s.us(3) {
            0 => {
                let p = g.path(0);
                bin("!", p, call("lang", vec![l]))
            }
            1 => {
                let p = g.path(0);
                call("lang", vec![l, call("head", vec![p])])
            }
            _ => {
                let s = g.step(0);
                match s {
                    E::Step(ax, t, _) => E::DSlash(b(E::Root), b(E::Step(ax, t, vec![call("lang", vec![l])]))),
                    _ => unreachable!(),
                }
            }
        };
    }
    let n = if g.s.chance(1, 10) { format!("fn:{}", n) } else { n.to_string() };
    match g.s.weighted(&[4, 3, 3, 1]) {
        0 => {
            let p = g.path(0);
            bin("!", p, call(&n, vec![]))
        }
        1 => {
            let p = g.path(0);
            bin("!", p, call(&n, vec![E::Ctx]))
        }
        2 => {
            let p = g.path(0);
            call(&n, vec![E::Filter(b(E::Seq(vec![p])), b(int(g.s.range(1, 3))))])
        }
        _ => {
            let v = val(g);
            call(&n, vec![v])
        }
    }
}

pub fn gen_nsdoc(src: &mut Src, d: &mut crate::doc::Doc) {
    use crate::doc::M;
    fn go(src: &mut Src, m: &mut M) {
        if let M::E(_, attrs, kids) = m {
            if src.chance(1, 4) {
                attrs.push(("xml:lang".into(), src.pick(&["en", "en-US", "EN", "fr", "", "ja-JP", "english", "de"]).to_string()));
            }
            if src.chance(1, 5) {
                attrs.push(("xmlns".into(), src.pick(&["http://u", "http://v", ""]).to_string()));
            }
            if src.chance(1, 5) {
                attrs.push(("xmlns:p".into(), src.pick(&["http://p", "http://q"]).to_string()));
            }
            if src.chance(1, 6) {
                attrs.push(("xsi:nil".into(), src.pick(&["true", "false", "1"]).to_string()));
            }
            for k in kids {
                go(src, k);
            }
        }
    }
    for m in d.iter_mut() {
        go(src, m);
    }
}

pub fn x18(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let mut doc = gen_xdoc(src, 14);
    gen_nsdoc(src, &mut doc);
    let (d, root, xml) = open(&doc)?;
    cx.case(xml);
    let mut full = 0;
    for _ in 0..8 {
        let ctx = crate::xprops::ctx_node(src, &d);
        let e = nodefn(&mut G::new(src, &d));
        let text = print(src, &e);
        cx.add_case(&format!(" | {} from {}", text, d.path(ctx)));
        if crate::xprops::check(cx, &d, ctx, &e, &text)? == crate::xprops::Out::Ok {
            full += 1;
        }
    }
    let _ = root;
    cx.nontrivial = full >= 4;
    Ok(())
}
