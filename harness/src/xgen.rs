//! Typed generators of XPath expressions over a given document.

use crate::core::*;
use crate::xast::*;
use crate::xdoc::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T {
    Int,
    Num,
    Str,
    Bool,
    /// exactly one node
    Node,
    Nodes,
    Ints,
    Strs,
    /// any sequence of atomic values
    Atoms,
}

pub struct G<'a, 'd> {
    pub s: &'a mut Src,
    pub d: &'d XD,
    pub vars: Vec<(String, T)>,
    /// the context item is a node
    pub node_ctx: bool,
    /// position() and last() are defined
    pub pos: bool,
    enames: Vec<String>,
    anames: Vec<String>,
}

pub const OPS_CMP: &[&str] = &["=", "!=", "<", "<=", ">", ">="];
pub const OPS_VAL: &[&str] = &["eq", "ne", "lt", "le", "gt", "ge"];
pub const STRS: &[&str] = &["", "a", "b", "ab", "abc", "1", "10", "x y", " 7 ", "B", "日本", "é", "ba", "true", "-3", "it's", "\"", "aa", "2.5", "𝄞", "\u{FF21}", "1e400", "\u{FF21}b", "𝄞b"];
pub const DECS: &[&str] = &["0.5", "1.5", "2.5", "0.0", "1.0", "3.25", "10.0", "0.1", "2.", ".5", "100.75", "7.999"];
pub const DBLS: &[&str] = &["0e0", "1e0", "2.5e0", "1e3", "1.5E-2", "3e0", "1e10", "5E-1", "1e300", "4.5e0", "1E2", "1e6", "1e21", "0.49999999999999994e0", "4503599627370497e0", "2251799813685249.5e0", "9007199254740993e0", "1e-7", "1e-6", "1.7976931348623157e308", "5e-324", "9.999999999999999e22", "999999.9e0"];
pub const VARS: &[&str] = &["x", "y", "z", "v1", "変", "x-1"];

impl<'a, 'd> G<'a, 'd> {
    pub fn new(s: &'a mut Src, d: &'d XD) -> G<'a, 'd> {
        let mut enames: Vec<String> = d.n.iter().filter(|n| n.k == K::Elem).map(|n| n.name.clone()).collect();
        enames.sort();
        enames.dedup();
        let mut anames: Vec<String> = d.n.iter().filter(|n| n.k == K::Attr).map(|n| n.name.clone()).collect();
        anames.sort();
        anames.dedup();
        G { s, d, vars: vec![], node_ctx: true, pos: false, enames, anames }
    }

    pub fn ename(&mut self) -> String {
        if !self.enames.is_empty() && !self.s.chance(1, 6) {
            self.s.pick(&self.enames.clone()).clone()
        } else {
            self.s.pick(ENAMES).to_string()
        }
    }
    pub fn aname(&mut self) -> String {
        if !self.anames.is_empty() && !self.s.chance(1, 6) {
            self.s.pick(&self.anames.clone()).clone()
        } else {
            self.s.pick(ANAMES).to_string()
        }
    }

    pub fn axis(&mut self) -> Axis {
        AXES[self.s.weighted(&[8, 4, 4, 2, 3, 2, 2, 2, 2, 2, 2, 2])]
    }

    pub fn test(&mut self, ax: Axis) -> Test {
        let attr = ax == Axis::Attribute;
        match self.s.weighted(&[8, 5, 4, 2, 2, 1, 2, 1, 1]) {
            0 => Test::Name(if attr { self.aname() } else { self.ename() }),
            1 => Test::Star,
            2 => Test::Kind(Kind::Node),
            3 => Test::Kind(Kind::Text),
            4 => match self.s.us(4) {
                0 => Test::Kind(Kind::Comment),
                1 => Test::Kind(Kind::Pi(None)),
                2 => Test::Kind(Kind::Pi(Some(self.s.pick(&["t", "u", "a", "zz"]).to_string()))),
                _ => Test::Kind(Kind::Text),
            },
            5 => Test::Prefix(self.s.pick(&["p", "p", "pq", "q"]).to_string()),
            6 => {
                if attr {
                    let n = if self.s.flip() { Some(self.aname()) } else { None };
                    Test::Kind(Kind::Attr(n, None))
                } else {
                    let n = if self.s.flip() { Some(self.ename()) } else { None };
                    Test::Kind(Kind::Elem(n, None))
                }
            }
            7 => {
                let n = if attr { self.aname() } else { self.ename() };
                Test::Local(n.split_once(':').map(|x| x.1.to_string()).unwrap_or(n))
            }
            _ => Test::Star,
        }
    }

    pub fn step(&mut self, d: usize) -> E {
        let ax = self.axis();
        let t = self.test(ax);
        let mut preds = vec![];
        if d > 0 {
            while self.s.more(preds.len(), 3, 1, 4) {
                preds.push(self.pred(d - 1));
            }
        }
        E::Step(ax, t, preds)
    }

    /// child or attribute step, mostly matching something
    pub fn down(&mut self) -> E {
        if self.s.chance(1, 3) {
            let n = self.aname();
            step(Axis::Attribute, Test::Name(n))
        } else {
            match self.s.weighted(&[4, 2, 1, 1]) {
                0 => {
                    let n = self.ename();
                    step(Axis::Child, Test::Name(n))
                }
                1 => step(Axis::Child, Test::Star),
                2 => step(Axis::Child, Test::Kind(Kind::Text)),
                _ => step(Axis::Child, Test::Kind(Kind::Node)),
            }
        }
    }

    /// a predicate
    pub fn pred(&mut self, d: usize) -> E {
        let save = (self.node_ctx, self.pos);
        self.node_ctx = true;
        self.pos = true;
        let e = self.pred0(d);
        self.node_ctx = save.0;
        self.pos = save.1;
        e
    }

    /// something that selects nothing, not always in a way the parser can see
    fn nothing(&mut self) -> E {
        match self.s.us(5) {
            0 => E::Seq(vec![]),
            1 => step(Axis::Child, name("nosuch")),
            2 => E::DSlash(b(E::Root), b(step(Axis::Child, name("nosuch")))),
            3 => step(Axis::Attribute, name("nosuch")),
            _ => E::Filter(b(E::Seq(vec![int(1), int(2)])), b(int(7))),
        }
    }

    /// An expression that evaluates something with a context item, position
    /// and size of its own (zero or more times), to be put next to one that
    /// looks at those of the expression around it.
    pub fn refocus(&mut self, d: usize) -> E {
        let base = match self.s.weighted(&[3, 3, 3]) {
            0 => self.path(0),
            1 => {
                let n = self.s.range(1, 4);
                E::Seq((1..=n).map(int).collect())
            }
            _ => self.nothing(),
        };
        let focus = match self.s.us(5) {
            0 => call("position", vec![]),
            1 => call("last", vec![]),
            2 => bin("=", call("position", vec![]), call("last", vec![])),
            3 => E::Ctx,
            _ => int(self.s.range(1, 3)),
        };
        let base = E::Seq(vec![base]);
        match self.s.us(9) {
            0 => self.nested_filter(d),
            1 => bin("!", base, focus),
            2 => E::Slash(b(base), b(self.step(d.min(1)))),
            3 => E::Filter(b(base), b(focus)),
            4 => {
                let l = E::Filter(b(base), b(focus));
                let n = self.bind_name();
                E::Quant(self.s.flip(), vec![(n, l)], b(bin("=", call("last", vec![]), call("position", vec![]))))
            }
            5 => {
                let l = E::Filter(b(base), b(focus));
                let n = self.bind_name();
                E::For(vec![(n, l)], b(call("last", vec![])))
            }
            6 => {
                let f = E::Inline(Box::new(Inline { params: vec![("q".into(), None)], ret: None, body: bin("!", var("q"), focus) }));
                call("for-each", vec![base, f])
            }
            7 => {
                let f = E::Inline(Box::new(Inline { params: vec![("q".into(), None)], ret: None, body: call("exists", vec![E::Filter(b(var("q")), b(focus))]) }));
                call("filter", vec![base, f])
            }
            _ => {
                let x = bin("!", base, E::Seq(vec![focus]));
                let y = self.nothing();
                if self.s.flip() {
                    bin("!", x, y)
                } else {
                    bin("!", y, x)
                }
            }
        }
    }

    /// a filter on a sequence that has nothing to do with the context
    fn nested_filter(&mut self, d: usize) -> E {
        let base = if self.s.flip() {
            self.path(0)
        } else {
            let n = self.s.range(1, 4);
            E::Seq((1..=n).map(int).collect())
        };
        let p = match self.s.us(4) {
            0 => bin(*self.s.pick(OPS_CMP), call("position", vec![]), call("last", vec![])),
            1 => call("last", vec![]),
            2 => int(self.s.range(1, 3)),
            _ => self.pred0(d.min(1)),
        };
        E::Filter(Box::new(E::Seq(vec![base])), Box::new(p))
    }

    fn pred0(&mut self, d: usize) -> E {
        match self.s.weighted(&[6, 3, 4, 5, 4, 3, 2, 1, 2, 2]) {
            0 => int(1 + self.s.weighted(&[4, 4, 2, 1, 1]) as i64 - if self.s.chance(1, 12) { 1 } else { 0 }),
            1 => match self.s.us(4) {
                0 => call("last", vec![]),
                1 => bin("-", call("last", vec![]), int(self.s.range(0, 2))),
                2 => bin("idiv", bin("+", call("last", vec![]), int(1)), int(2)),
                _ => call("position", vec![]),
            },
            2 => {
                let op = *self.s.pick(OPS_CMP);
                match self.s.us(4) {
                    0 => bin(op, call("position", vec![]), int(self.s.range(1, 4))),
                    1 => bin(op, call("position", vec![]), call("last", vec![])),
                    2 => bin(op, bin("mod", call("position", vec![]), int(2)), int(self.s.range(0, 1))),
                    _ => bin(*self.s.pick(OPS_VAL), int(self.s.range(1, 4)), call("last", vec![])),
                }
            }
            3 => self.down(),
            4 => {
                let l = match self.s.us(4) {
                    0 => E::Ctx,
                    1 => {
                        let n = self.aname();
                        step(Axis::Attribute, Test::Name(n))
                    }
                    2 => self.down(),
                    _ => call("name", vec![]),
                };
                let r = st(*self.s.pick(VALUES));
                bin(*self.s.pick(OPS_CMP), l, r)
            }
            5 if d > 0 => self.boolean(d - 1),
            6 if d > 0 => self.path(d - 1),
            7 => match self.s.us(6) {
                0 => st(*self.s.pick(STRS)),
                1 => E::Dec(self.s.pick(&["1.0", "2.0", "1.5", "0.0", "3.0"]).to_string()),
                2 => E::Dbl(self.s.pick(&["1e0", "2e0", "1.5e0", "0e0"]).to_string()),
                3 => E::Seq(vec![]),
                4 => call(if self.s.flip() { "true" } else { "false" }, vec![]),
                _ => E::Seq(vec![int(1), int(2)]),
            },
            8 if d > 0 => call("not", vec![self.pred0(d - 1)]),
            9 if d > 0 => {
                // the position and size of this predicate, next to those of one inside it
                let inner = self.refocus(d - 1);
                let op = *self.s.pick(OPS_CMP);
                let here = match self.s.us(4) {
                    0 => call("last", vec![]),
                    1 => call("position", vec![]),
                    2 => bin("-", call("last", vec![]), call("position", vec![])),
                    _ => int(self.s.range(1, 3)),
                };
                let other = match self.s.us(3) {
                    0 => bin(op, call("position", vec![]), call("last", vec![])),
                    1 => bin(op, call("last", vec![]), int(self.s.range(1, 4))),
                    _ => bin(op, int(self.s.range(1, 4)), call("position", vec![])),
                };
                match self.s.us(4) {
                    0 => bin("=", call("count", vec![inner]), here),
                    1 => bin("-", here, call("count", vec![inner])),
                    2 => bin("and", call("exists", vec![inner]), other),
                    _ => bin("or", call("empty", vec![inner]), other),
                }
            }
            _ => int(self.s.range(1, 3)),
        }
    }

    fn var_of(&mut self, t: &[T]) -> Option<E> {
        // the innermost binding of a name counts
        let mut seen: Vec<&str> = vec![];
        let mut v: Vec<String> = vec![];
        for (n, vt) in self.vars.iter().rev() {
            if seen.contains(&n.as_str()) {
                continue;
            }
            seen.push(n);
            if t.contains(vt) {
                v.push(n.clone());
            }
        }
        if v.is_empty() {
            return None;
        }
        Some(var(self.s.pick(&v)))
    }

    /// a path from the context node (or the root)
    pub fn path(&mut self, d: usize) -> E {
        let rooted = !self.node_ctx || self.s.chance(1, 3);
        let mut e = if rooted {
            match self.s.weighted(&[4, 2, 1]) {
                0 => {
                    let r = self.step(d);
                    E::DSlash(b(E::Root), b(r))
                }
                1 => {
                    let r = self.step(d);
                    E::Slash(b(E::Root), b(r))
                }
                _ => E::Root,
            }
        } else {
            match self.s.weighted(&[6, 2]) {
                0 => self.step(d),
                _ => E::Ctx,
            }
        };
        if !rooted && self.s.chance(1, 8) {
            if let Some(v) = self.var_of(&[T::Node, T::Nodes]) {
                e = v;
            }
        }
        let mut n = 0;
        while self.s.more(n, 3, 1, 2) {
            n += 1;
            if e == E::Root {
                let r = self.step(d);
                e = if self.s.flip() { E::Slash(b(e), b(r)) } else { E::DSlash(b(e), b(r)) };
                continue;
            }
            let r = match self.s.weighted(&[10, 1, 1]) {
                0 => self.step(d),
                1 => E::Ctx,
                _ => {
                    let x = self.step(0);
                    let y = self.step(0);
                    E::Seq(vec![x, y])
                }
            };
            e = if self.s.chance(1, 3) { E::DSlash(b(e), b(r)) } else { E::Slash(b(e), b(r)) };
        }
        e
    }

    /// an expression that gives nodes
    pub fn nodes(&mut self, d: usize) -> E {
        if d == 0 {
            return self.path(0);
        }
        match self.s.weighted(&[8, 2, 2, 1, 1, 1, 1]) {
            0 => self.path(d - 1),
            1 => {
                let l = self.path(d - 1);
                let p = self.pred(d - 1);
                E::Filter(b(E::Seq(vec![l])), b(p))
            }
            2 => {
                let op = *self.s.pick(&["union", "|", "intersect", "except"]);
                let l = self.nodes(d - 1);
                let r = self.nodes(d - 1);
                bin(op, l, r)
            }
            3 => {
                let c = self.boolean(d - 1);
                let x = self.nodes(d - 1);
                let y = self.nodes(d - 1);
                E::If(b(c), b(x), b(y))
            }
            4 => {
                let f = *self.s.pick(&["head", "tail", "reverse", "root"]);
                let x = self.nodes(d - 1);
                if f == "root" {
                    return call("root", vec![call("head", vec![x])]);
                }
                call(f, vec![x])
            }
            5 => self.var_of(&[T::Node, T::Nodes]).unwrap_or(E::Seq(vec![])),
            _ => {
                let x = self.nodes(d - 1);
                let y = self.nodes(d - 1);
                E::Seq(vec![x, y])
            }
        }
    }

    pub fn bind_name(&mut self) -> String {
        if self.s.chance(1, 16) {
            return crate::doc::gen_ncname5(self.s);
        }
        self.s.pick(VARS).to_string()
    }

    pub fn integer(&mut self, d: usize) -> E {
        if d == 0 {
            return match self.s.weighted(&[6, 2, 1]) {
                0 => int(self.s.range(0, 12)),
                1 => match self.var_of(&[T::Int]) {
                    Some(v) => v,
                    None => int(self.s.range(0, 5)),
                },
                _ => {
                    if self.pos {
                        call(if self.s.flip() { "position" } else { "last" }, vec![])
                    } else {
                        int(self.s.range(0, 1000))
                    }
                }
            };
        }
        match self.s.weighted(&[3, 5, 2, 2, 1, 1, 1]) {
            0 => self.integer(0),
            1 => {
                let op = *self.s.pick(&["+", "-", "*", "idiv", "mod"]);
                let x = self.integer(d - 1);
                let y = self.integer(d - 1);
                bin(op, x, y)
            }
            2 => {
                let x = self.any(d - 1);
                call("count", vec![x])
            }
            3 => {
                let x = self.string(d - 1);
                call("string-length", vec![x])
            }
            4 => {
                let x = self.integer(d - 1);
                E::Un(vec!['-'], b(x))
            }
            5 => {
                let c = self.boolean(d - 1);
                let x = self.integer(d - 1);
                let y = self.integer(d - 1);
                E::If(b(c), b(x), b(y))
            }
            _ => {
                let x = self.ints(d - 1);
                call(*self.s.pick(&["sum", "max", "min"]), vec![E::Seq(vec![int(1), x])])
            }
        }
    }

    pub fn number(&mut self, d: usize) -> E {
        if d == 0 {
            return match self.s.weighted(&[4, 3, 3, 1]) {
                0 => self.integer(0),
                1 => E::Dec(self.s.pick(DECS).to_string()),
                2 => E::Dbl(self.s.pick(DBLS).to_string()),
                _ => self.var_of(&[T::Int, T::Num]).unwrap_or(int(1)),
            };
        }
        match self.s.weighted(&[2, 2, 5, 2, 2, 1, 1]) {
            0 => self.number(0),
            1 => self.integer(d),
            2 => {
                let op = *self.s.pick(&["+", "-", "*", "div", "mod", "idiv"]);
                let x = self.number(d - 1);
                let y = self.number(d - 1);
                bin(op, x, y)
            }
            3 => {
                let x = self.number(d - 1);
                call(*self.s.pick(&["abs", "ceiling", "floor", "round"]), vec![x])
            }
            4 => {
                let x = self.string(d - 1);
                call("number", vec![x])
            }
            5 => {
                let x = self.number(d - 1);
                E::Un(vec![*self.s.pick(&['-', '+'])], b(x))
            }
            _ => {
                let c = self.boolean(d - 1);
                let x = self.number(d - 1);
                let y = self.number(d - 1);
                E::If(b(c), b(x), b(y))
            }
        }
    }

    pub fn string(&mut self, d: usize) -> E {
        if d == 0 {
            return match self.s.weighted(&[6, 2]) {
                0 => st(*self.s.pick(STRS)),
                _ => self.var_of(&[T::Str]).unwrap_or(st("a")),
            };
        }
        match self.s.weighted(&[3, 3, 3, 2, 2, 2, 1, 1, 1]) {
            0 => self.string(0),
            1 => {
                let x = self.nodes(d - 1);
                call("string", vec![call("head", vec![x])])
            }
            2 => {
                let x = self.string(d - 1);
                let y = self.string(d - 1);
                if self.s.flip() {
                    bin("||", x, y)
                } else {
                    call("concat", vec![x, y])
                }
            }
            3 => {
                let x = self.string(d - 1);
                let i = self.integer(0);
                let j = self.integer(0);
                if self.s.flip() {
                    call("substring", vec![x, i])
                } else {
                    call("substring", vec![x, i, j])
                }
            }
            4 => {
                let x = self.string(d - 1);
                let y = self.string(d - 1);
                call(*self.s.pick(&["substring-before", "substring-after"]), vec![x, y])
            }
            5 => {
                let x = self.string(d - 1);
                call(*self.s.pick(&["upper-case", "lower-case", "string"]), vec![x])
            }
            6 => {
                let x = self.integer(d - 1);
                call("string", vec![x])
            }
            7 => {
                let x = self.nodes(d - 1);
                call(*self.s.pick(&["name", "local-name"]), vec![call("head", vec![x])])
            }
            _ => {
                let x = self.strs(d - 1);
                let y = self.string(0);
                call("string-join", vec![x, y])
            }
        }
    }

    pub fn boolean(&mut self, d: usize) -> E {
        if d == 0 {
            return match self.s.weighted(&[2, 2, 3, 1]) {
                0 => call("true", vec![]),
                1 => call("false", vec![]),
                2 => {
                    if self.node_ctx {
                        let x = self.down();
                        call(if self.s.flip() { "exists" } else { "empty" }, vec![x])
                    } else {
                        let x = self.integer(0);
                        bin(*self.s.pick(OPS_CMP), x, int(3))
                    }
                }
                _ => self.var_of(&[T::Bool]).unwrap_or(call("false", vec![])),
            };
        }
        match self.s.weighted(&[1, 4, 3, 3, 2, 2, 2, 2, 1]) {
            0 => self.boolean(0),
            1 => {
                let op = *self.s.pick(OPS_CMP);
                let x = self.integer(d - 1);
                let y = self.integer(d - 1);
                bin(op, x, y)
            }
            2 => {
                let op = if self.s.flip() { *self.s.pick(OPS_CMP) } else { *self.s.pick(OPS_VAL) };
                let x = self.string(d - 1);
                let y = self.string(d - 1);
                bin(op, x, y)
            }
            3 => {
                let x = self.nodes(d - 1);
                let y = self.strs(d - 1);
                bin(*self.s.pick(OPS_CMP), x, y)
            }
            4 => {
                let op = if self.s.flip() { "and" } else { "or" };
                let x = self.boolean(d - 1);
                let y = self.boolean(d - 1);
                bin(op, x, y)
            }
            5 => {
                let x = self.boolean(d - 1);
                call("not", vec![x])
            }
            6 => {
                let x = self.string(d - 1);
                let y = self.string(d - 1);
                call(*self.s.pick(&["contains", "starts-with", "ends-with"]), vec![x, y])
            }
            7 => {
                let some = self.s.flip();
                let (t, src) = if self.s.flip() { (T::Int, self.ints(d - 1)) } else { (T::Node, self.nodes(d - 1)) };
                let n = self.bind_name();
                self.vars.push((n.clone(), t));
                let body = self.boolean(d - 1);
                self.vars.pop();
                E::Quant(some, vec![(n, src)], b(body))
            }
            _ => {
                let x = self.nodes(d - 1);
                call("boolean", vec![x])
            }
        }
    }

    pub fn ints(&mut self, d: usize) -> E {
        match self.s.weighted(&[3, 3, 1, 1, 1, 1]) {
            0 => {
                let a = self.s.range(-2, 5);
                let z = a + self.s.range(-1, 6);
                let lo = if a < 0 { E::Un(vec!['-'], b(int(-a))) } else { int(a) };
                let hi = if z < 0 { E::Un(vec!['-'], b(int(-z))) } else { int(z) };
                bin("to", lo, hi)
            }
            1 => {
                let mut v = vec![];
                while self.s.more(v.len(), 5, 2, 3) {
                    v.push(int(self.s.range(0, 9)));
                }
                E::Seq(v)
            }
            2 if d > 0 => {
                let x = self.ints(d - 1);
                call(*self.s.pick(&["reverse", "tail", "head"]), vec![x])
            }
            3 if d > 0 => {
                let n = self.bind_name();
                let src = self.ints(d - 1);
                self.vars.push((n.clone(), T::Int));
                let body = self.integer(d - 1);
                self.vars.pop();
                E::For(vec![(n, src)], b(body))
            }
            4 if d > 0 => {
                let x = self.ints(d - 1);
                let y = self.ints(d - 1);
                E::Seq(vec![x, y])
            }
            _ => self.var_of(&[T::Ints, T::Int]).unwrap_or(E::Seq(vec![])),
        }
    }

    pub fn strs(&mut self, d: usize) -> E {
        let mut v = vec![];
        while self.s.more(v.len(), 4, 2, 3) {
            let x = if d > 0 && self.s.chance(1, 4) { self.string(d - 1) } else { st(*self.s.pick(STRS)) };
            v.push(x);
        }
        E::Seq(v)
    }

    pub fn atom(&mut self, d: usize) -> E {
        match self.s.weighted(&[3, 2, 3, 1]) {
            0 => self.integer(d),
            1 => self.number(d),
            2 => self.string(d),
            _ => self.boolean(d),
        }
    }

    pub fn atoms(&mut self, d: usize) -> E {
        match self.s.weighted(&[4, 2, 2, 1]) {
            0 => {
                let mut v = vec![];
                while self.s.more(v.len(), 5, 2, 3) {
                    let x = self.atom(d.min(1));
                    v.push(x);
                }
                E::Seq(v)
            }
            1 => self.ints(d),
            2 => self.strs(d),
            _ => self.var_of(&[T::Ints, T::Strs, T::Atoms, T::Str, T::Int, T::Bool, T::Num]).unwrap_or(E::Seq(vec![])),
        }
    }

    /// any sequence
    pub fn any(&mut self, d: usize) -> E {
        match self.s.weighted(&[4, 2, 2, 2, 1]) {
            0 => self.nodes(d),
            1 => self.ints(d),
            2 => self.atoms(d),
            3 => self.atom(d),
            _ => {
                if d == 0 {
                    return E::Seq(vec![]);
                }
                let x = self.any(d - 1);
                let y = self.any(d - 1);
                E::Seq(vec![x, y])
            }
        }
    }

    pub fn of(&mut self, t: T, d: usize) -> E {
        match t {
            T::Int => self.integer(d),
            T::Num => self.number(d),
            T::Str => self.string(d),
            T::Bool => self.boolean(d),
            T::Node => {
                let x = self.nodes(d);
                call("head", vec![x])
            }
            T::Nodes => self.nodes(d),
            T::Ints => self.ints(d),
            T::Strs => self.strs(d),
            T::Atoms => self.atoms(d),
        }
    }
}

/// A partial call may have its first argument before an arrow.
pub fn arrowed(g: &mut G, e: E) -> E {
    match e {
        E::Partial(n, a) if matches!(a[0], Some(_)) && g.s.chance(1, 3) => E::Partial(format!("=>{}", n), a),
        e => e,
    }
}
