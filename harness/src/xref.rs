//! Reference interpreter for XPath 3.1 expressions over the arena.
//!
//! Written from the W3C recommendation.  Integers are 64-bit, decimals are
//! IEEE doubles (the library documents this); everything the recommendation
//! leaves to the implementation, or that the library does not claim, is
//! `Er::Unspec`.

use crate::xast::*;
use crate::xdoc::*;
use crate::xtypes;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum It {
    N(usize),
    S(String),
    /// xs:untypedAtomic
    U(String),
    I(i64),
    D(f64),
    F(f64),
    B(bool),
    M(Rc<Vec<(It, Seq)>>),
    A(Rc<Vec<Seq>>),
    Fn(Rc<FnV>),
}

#[derive(Debug)]
pub enum FnV {
    Inline(Inline, Env),
    Named(String, usize),
    Partial(String, Vec<Option<Seq>>),
}

pub type Seq = Vec<It>;

#[derive(Clone, Debug)]
pub enum Er {
    /// the recommendation requires an error
    E(&'static str),
    /// outside what is claimed: either outcome is accepted
    Unspec(&'static str),
}

pub type R = Result<Seq, Er>;

pub fn ty<T>(s: &'static str) -> Result<T, Er> {
    Err(Er::E(s))
}
pub fn unspec<T>(s: &'static str) -> Result<T, Er> {
    Err(Er::Unspec(s))
}

#[derive(Debug)]
pub struct EnvN {
    name: String,
    val: Seq,
    next: Env,
}
pub type Env = Option<Rc<EnvN>>;

pub fn bind(env: &Env, name: &str, val: Seq) -> Env {
    Some(Rc::new(EnvN { name: name.into(), val, next: env.clone() }))
}

#[derive(Clone)]
pub struct Cxt {
    pub item: Option<It>,
    pub pos: usize,
    pub size: usize,
    pub env: Env,
}

pub struct Interp<'a> {
    pub d: &'a XD,
    pub steps: std::cell::Cell<u64>,
    /// normalize-space() as the library's own tests pin it: inner white
    /// space is deleted
    pub pinned_space: bool,
    pub used_space: std::cell::Cell<bool>,
}

/// beyond this an expression is not given to the library at all
pub const MAX_STEPS: u64 = 20_000;

impl<'a> Interp<'a> {
    pub fn new(d: &'a XD) -> Interp<'a> {
        Interp { d, steps: std::cell::Cell::new(0), pinned_space: false, used_space: std::cell::Cell::new(false) }
    }

    pub fn run(&self, ctx: usize, e: &E) -> R {
        let c = Cxt { item: Some(It::N(ctx)), pos: 0, size: 0, env: None };
        self.eval(e, &c)
    }

    fn nodes(&self, s: &Seq) -> Option<Vec<usize>> {
        s.iter().map(|i| if let It::N(n) = i { Some(*n) } else { None }).collect()
    }

    pub fn eval(&self, e: &E, c: &Cxt) -> R {
        self.steps.set(self.steps.get() + 1);
        if self.steps.get() > MAX_STEPS {
            return unspec("too many steps");
        }
        let r = self.eval0(e, c)?;
        // the size of the values counts as well
        self.steps.set(self.steps.get() + r.len() as u64);
        Ok(r)
    }

    fn eval0(&self, e: &E, c: &Cxt) -> R {
        Ok(match e {
            E::Int(i) => vec![It::I(*i)],
            E::Big(_) => return ty("integer literal out of range"),
            E::Dec(s) => match s.parse::<f64>() {
                Ok(f) if f.is_finite() => vec![It::D(f)],
                _ => return ty("decimal literal out of range"),
            },
            E::Dbl(s) => vec![It::F(s.parse().unwrap())],
            E::Str(s) => vec![It::S(s.clone())],
            E::Var(v) => {
                let mut p = &c.env;
                while let Some(n) = p {
                    if n.name == *v {
                        return Ok(n.val.clone());
                    }
                    p = &n.next;
                }
                return ty("unbound variable");
            }
            E::Ctx => match &c.item {
                Some(i) => vec![i.clone()],
                None => return unspec("no context item"),
            },
            E::Seq(v) => {
                let mut r = vec![];
                for x in v {
                    r.append(&mut self.eval(x, c)?);
                }
                r
            }
            // a tree whose topmost node is not a document node
            E::Root if self.d.n[0].k != K::Doc => return unspec("no document node"),
            E::Root => match &c.item {
                Some(It::N(_)) => vec![It::N(0)],
                Some(_) => return ty("root of an atomic value"),
                None => return unspec("no context item"),
            },
            E::Step(ax, t, preds) => {
                let n = match &c.item {
                    Some(It::N(n)) => *n,
                    Some(_) => return ty("step from an atomic value"),
                    None => return unspec("no context item"),
                };
                // axis order: position 1 is nearest
                let mut v: Vec<usize> = self.axis(*ax, n).into_iter().filter(|m| self.test(*ax, t, *m)).collect();
                for p in preds {
                    let seq: Seq = v.iter().map(|i| It::N(*i)).collect();
                    v = self.nodes(&self.filter(&seq, p, c)?).unwrap();
                }
                v.sort();
                v.into_iter().map(It::N).collect()
            }
            E::Slash(l, r) => self.slash(l, r, c)?,
            E::DSlash(l, r) => {
                let mid = E::Slash(l.clone(), b(step(Axis::DescendantOrSelf, Test::Kind(Kind::Node))));
                self.slash(&mid, r, c)?
            }
            E::Filter(l, p) => {
                let s = self.eval(l, c)?;
                self.filter(&s, p, c)?
            }
            E::Bin(op, x, y) => return self.bin(op, x, y, c),
            E::Un(signs, x) => {
                let v = self.arith_arg(&self.eval(x, c)?)?;
                let neg = signs.iter().filter(|s| **s == '-').count() % 2 == 1;
                match v {
                    None => vec![],
                    Some(v) => {
                        if matches!(v, It::I(i64::MIN)) && signs.contains(&'-') {
                            return ty("integer overflow");
                        }
                        if !neg {
                            vec![v]
                        } else {
                            vec![match v {
                                It::I(i) => match i.checked_neg() {
                                    Some(i) => It::I(i),
                                    None => return ty("integer overflow"),
                                },
                                It::D(d) => It::D(if d == 0.0 { 0.0 } else { -d }),
                                It::F(f) => It::F(-f),
                                _ => unreachable!(),
                            }]
                        }
                    }
                }
            }
            E::If(p, x, y) => {
                if self.ebv(&self.eval(p, c)?)? {
                    self.eval(x, c)?
                } else {
                    self.eval(y, c)?
                }
            }
            E::For(v, r) => {
                let mut out = vec![];
                self.for_loop(v, r, c, &mut out)?;
                out
            }
            E::Let(v, r) => {
                let mut c = c.clone();
                for (n, x) in v {
                    let val = self.eval(x, &c)?;
                    c.env = bind(&c.env, n, val);
                }
                self.eval(r, &c)?
            }
            E::Quant(some, v, r) => vec![It::B(self.quant(*some, v, r, c)?)],
            E::InstanceOf(x, t) => {
                let v = self.eval(x, c)?;
                vec![It::B(self.matches(&v, t)?)]
            }
            E::CastAs(x, t, q) => {
                let v = self.atomize(&self.eval(x, c)?)?;
                match v.len() {
                    0 if *q => vec![],
                    1 => vec![cast(&v[0], t)?],
                    _ => return ty("cast of a sequence that is not a singleton"),
                }
            }
            E::CastableAs(x, t, q) => {
                let v = match self.atomize(&self.eval(x, c)?) {
                    Ok(v) => v,
                    Err(Er::E(_)) => return unspec("castable on a value that cannot be atomized"),
                    Err(e) => return Err(e),
                };
                vec![It::B(match v.len() {
                    0 => *q,
                    1 => match cast(&v[0], t) {
                        Ok(_) => true,
                        Err(Er::E(_)) => false,
                        Err(e) => return Err(e),
                    },
                    _ => false,
                })]
            }
            E::Arrow(x, f, args) => {
                let first = self.eval(x, c)?;
                let mut a = vec![first];
                match f {
                    ArrowF::Name(n) => {
                        for y in args {
                            a.push(self.eval(y, c)?);
                        }
                        self.call(n, a, c)?
                    }
                    ArrowF::Var(_) | ArrowF::Paren(_) => {
                        let fe = match f {
                            ArrowF::Var(v) => E::Var(v.clone()),
                            ArrowF::Paren(p) => (**p).clone(),
                            _ => unreachable!(),
                        };
                        let fv = self.eval(&fe, c)?;
                        for y in args {
                            a.push(self.eval(y, c)?);
                        }
                        self.apply(&self.one_fn(&fv)?, a, c)?
                    }
                }
            }
            E::Call(n, args) => {
                let mut a = vec![];
                for x in args {
                    a.push(self.eval(x, c)?);
                }
                self.call(n, a, c)?
            }
            E::Dyn(f, args) => {
                let fv = self.eval(f, c)?;
                let f = self.one_fn(&fv)?;
                let mut a = vec![];
                for x in args {
                    a.push(self.eval(x, c)?);
                }
                self.apply(&f, a, c)?
            }
            E::Lookup(x, k) => {
                let v = self.eval(x, c)?;
                self.lookup(&v, k, c)?
            }
            E::ULookup(k) => match &c.item {
                Some(i) => self.lookup(&vec![i.clone()], k, c)?,
                None => return unspec("no context item"),
            },
            E::Inline(f) => vec![It::Fn(Rc::new(FnV::Inline((**f).clone(), c.env.clone())))],
            E::NamedRef(n, a) => vec![It::Fn(Rc::new(FnV::Named(n.clone(), *a)))],
            E::Partial(n, args) => {
                let mut v = vec![];
                for x in args {
                    v.push(match x {
                        None => None,
                        Some(x) => Some(self.eval(x, c)?),
                    });
                }
                let n = n.strip_prefix("=>").unwrap_or(n).to_string();
                vec![It::Fn(Rc::new(FnV::Partial(n, v)))]
            }
            E::Map(v) => {
                let mut m: Vec<(It, Seq)> = vec![];
                for (k, x) in v {
                    let kv = self.atomize(&self.eval(k, c)?)?;
                    if kv.len() != 1 {
                        return ty("a map key must be one atomic value");
                    }
                    let xv = self.eval(x, c)?;
                    if m.iter().any(|(o, _)| same_key(o, &kv[0])) {
                        return ty("duplicate map key");
                    }
                    m.push((kv[0].clone(), xv));
                }
                vec![It::M(Rc::new(m))]
            }
            E::SqArr(v) => {
                let mut a = vec![];
                for x in v {
                    a.push(self.eval(x, c)?);
                }
                vec![It::A(Rc::new(a))]
            }
            E::CurArr(x) => {
                let v = self.eval(x, c)?;
                vec![It::A(Rc::new(v.into_iter().map(|i| vec![i]).collect()))]
            }
        })
    }

    fn one_fn(&self, v: &Seq) -> Result<It, Er> {
        if v.len() == 1 && matches!(v[0], It::Fn(_) | It::M(_) | It::A(_)) {
            return Ok(v[0].clone());
        }
        ty("not a function")
    }

    fn slash(&self, l: &E, r: &E, c: &Cxt) -> R {
        let lv = self.eval(l, c)?;
        if self.nodes(&lv).is_none() {
            return ty("a path step from a value that is not a node");
        }
        let mut out: Seq = vec![];
        let n = lv.len();
        for (i, it) in lv.into_iter().enumerate() {
            let c2 = Cxt { item: Some(it), pos: i + 1, size: n, env: c.env.clone() };
            out.append(&mut self.eval(r, &c2)?);
        }
        let nn = out.iter().filter(|i| matches!(i, It::N(_))).count();
        if nn == out.len() {
            let mut v = self.nodes(&out).unwrap();
            v.sort();
            v.dedup();
            Ok(v.into_iter().map(It::N).collect())
        } else if nn == 0 {
            Ok(out)
        } else {
            ty("a path step that mixes nodes and other values")
        }
    }

    pub fn filter(&self, s: &Seq, p: &E, c: &Cxt) -> R {
        let mut out = vec![];
        for (i, it) in s.iter().enumerate() {
            let c2 = Cxt { item: Some(it.clone()), pos: i + 1, size: s.len(), env: c.env.clone() };
            let v = self.eval(p, &c2)?;
            let keep = match v.as_slice() {
                [It::I(n)] => *n == (i + 1) as i64,
                [It::D(n)] | [It::F(n)] => *n == (i + 1) as f64,
                _ => self.ebv(&v)?,
            };
            if keep {
                out.push(it.clone());
            }
        }
        Ok(out)
    }

    fn for_loop(&self, v: &[(String, E)], r: &E, c: &Cxt, out: &mut Seq) -> Result<(), Er> {
        if v.is_empty() {
            out.append(&mut self.eval(r, c)?);
            return Ok(());
        }
        for it in self.eval(&v[0].1, c)? {
            let mut c2 = c.clone();
            c2.env = bind(&c.env, &v[0].0, vec![it]);
            self.for_loop(&v[1..], r, &c2, out)?;
        }
        Ok(())
    }

    fn quant(&self, some: bool, v: &[(String, E)], r: &E, c: &Cxt) -> Result<bool, Er> {
        if v.is_empty() {
            return self.ebv(&self.eval(r, c)?);
        }
        for it in self.eval(&v[0].1, c)? {
            let mut c2 = c.clone();
            c2.env = bind(&c.env, &v[0].0, vec![it]);
            if self.quant(some, &v[1..], r, &c2)? == some {
                return Ok(some);
            }
        }
        Ok(!some)
    }

    /// string value of a node
    pub fn sv(&self, n: usize) -> Result<String, Er> {
        if self.d.n[n].k == K::Decl {
            return unspec("value of the XML declaration");
        }
        Ok(self.d.string_value(n))
    }

    pub fn ebv(&self, v: &Seq) -> Result<bool, Er> {
        Ok(match v.as_slice() {
            [] => false,
            [It::N(_), ..] => true,
            [It::B(b)] => *b,
            [It::S(s)] | [It::U(s)] => !s.is_empty(),
            [It::I(i)] => *i != 0,
            [It::D(f)] | [It::F(f)] => *f != 0.0 && !f.is_nan(),
            _ => return ty("no effective boolean value"),
        })
    }

    pub fn atomize(&self, v: &Seq) -> R {
        let mut out = vec![];
        for i in v {
            match i {
                // the library documents: no type annotations, so always a string
                It::N(n) => out.push(It::S(self.sv(*n)?)),
                It::A(a) => {
                    for s in a.iter() {
                        out.append(&mut self.atomize(s)?);
                    }
                }
                It::M(_) | It::Fn(_) => return ty("atomizing a function"),
                x => out.push(x.clone()),
            }
        }
        Ok(out)
    }

    // ------------------------------------------------------------- operators

    /// None = empty
    fn arith_arg(&self, v: &Seq) -> Result<Option<It>, Er> {
        let v = self.atomize(v)?;
        match v.as_slice() {
            [] => Ok(None),
            [It::U(s)] => Ok(Some(It::F(str_to_double(s)?))),
            [x @ (It::I(_) | It::D(_) | It::F(_))] => Ok(Some(x.clone())),
            [_] => ty("arithmetic on a value that is not a number"),
            _ => ty("arithmetic on a sequence"),
        }
    }

    fn single_node(&self, v: &Seq) -> Result<Option<usize>, Er> {
        match v.as_slice() {
            [] => Ok(None),
            [It::N(n)] => Ok(Some(*n)),
            _ => ty("node comparison of something that is not one node"),
        }
    }

    fn bin(&self, op: &str, x: &E, y: &E, c: &Cxt) -> R {
        match op {
            "or" | "and" => {
                let l = self.ebv(&self.eval(x, c)?)?;
                if l == (op == "or") {
                    return Ok(vec![It::B(l)]);
                }
                return Ok(vec![It::B(self.ebv(&self.eval(y, c)?)?)]);
            }
            "!" => {
                let l = self.eval(x, c)?;
                let n = l.len();
                let mut out = vec![];
                for (i, it) in l.into_iter().enumerate() {
                    let c2 = Cxt { item: Some(it), pos: i + 1, size: n, env: c.env.clone() };
                    out.append(&mut self.eval(y, &c2)?);
                }
                return Ok(out);
            }
            _ => {}
        }
        let l = self.eval(x, c)?;
        let r = self.eval(y, c)?;
        match op {
            "is" | "<<" | ">>" => {
                Ok(match both(self.single_node(&l), self.single_node(&r))? {
                    (Some(a), Some(b)) => vec![It::B(match op {
                        "is" => a == b,
                        "<<" => a < b,
                        _ => a > b,
                    })],
                    _ => vec![],
                })
            }
            "union" | "|" | "intersect" | "except" => {
                let (a, b) = match (self.nodes(&l), self.nodes(&r)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return ty("a set operator on something that is not a node"),
                };
                let mut v: Vec<usize> = match op {
                    "intersect" => a.into_iter().filter(|i| b.contains(i)).collect(),
                    "except" => a.into_iter().filter(|i| !b.contains(i)).collect(),
                    _ => a.into_iter().chain(b).collect(),
                };
                v.sort();
                v.dedup();
                Ok(v.into_iter().map(It::N).collect())
            }
            "to" => {
                let f = |v: &Seq| -> Result<Option<i64>, Er> {
                    match self.atomize(v)?.as_slice() {
                        [] => Ok(None),
                        [It::I(i)] => Ok(Some(*i)),
                        [It::U(s)] => match cast(&It::U(s.clone()), "xs:integer")? {
                            It::I(i) => Ok(Some(i)),
                            _ => unreachable!(),
                        },
                        _ => ty("range operand is not one integer"),
                    }
                };
                match both(f(&l), f(&r))? {
                    (Some(a), Some(b)) => {
                        if b.saturating_sub(a) > MAX_STEPS as i64 {
                            self.steps.set(MAX_STEPS + 1);
                            return unspec("long sequence");
                        }
                        Ok((a..=b).map(It::I).collect())
                    }
                    _ => Ok(vec![]),
                }
            }
            "||" => {
                let f = |v: &Seq| -> Result<String, Er> {
                    match self.atomize(v)?.as_slice() {
                        [] => Ok(String::new()),
                        [x] => string_of(x),
                        _ => ty("string concatenation of a sequence"),
                    }
                };
                Ok(vec![It::S(format!("{}{}", f(&l)?, f(&r)?))])
            }
            "+" | "-" | "*" | "div" | "idiv" | "mod" => {
                match both(self.arith_arg(&l), self.arith_arg(&r))? {
                    (Some(a), Some(b)) => Ok(vec![arith(op, &a, &b)?]),
                    _ => Ok(vec![]),
                }
            }
            "eq" | "ne" | "lt" | "le" | "gt" | "ge" => {
                let f = |v: &Seq| -> Result<Option<It>, Er> {
                    match self.atomize(v)?.as_slice() {
                        [] => Ok(None),
                        [It::U(s)] => Ok(Some(It::S(s.clone()))),
                        [x] => Ok(Some(x.clone())),
                        _ => ty("value comparison of a sequence"),
                    }
                };
                match both(f(&l), f(&r))? {
                    (Some(a), Some(b)) => Ok(vec![It::B(compare(op, &a, &b)?)]),
                    _ => Ok(vec![]),
                }
            }
            _ => {
                let vop = match op {
                    "=" => "eq",
                    "!=" => "ne",
                    "<" => "lt",
                    "<=" => "le",
                    ">" => "gt",
                    ">=" => "ge",
                    _ => panic!("operator {}", op),
                };
                let a = self.atomize(&l)?;
                let b = self.atomize(&r)?;
                let mut yes = false;
                // the library documents (and its tests pin) that values of
                // different types are simply not related
                for p in &a {
                    for q in &b {
                        match general_pair(vop, p, q) {
                            Ok(t) => yes |= t,
                            Err(Er::E(_)) => {}
                            Err(e) => return Err(e),
                        }
                    }
                }
                Ok(vec![It::B(yes)])
            }
        }
    }

    // ------------------------------------------------------------- steps

    /// Nodes of the axis in axis order.
    pub fn axis(&self, ax: Axis, n: usize) -> Vec<usize> {
        let d = self.d;
        let nd = &d.n[n];
        let attr = |i: &usize| d.n[*i].k == K::Attr;
        let sib: Vec<usize> = match (nd.k, nd.parent) {
            (K::Attr, _) | (_, None) => vec![],
            (_, Some(p)) => d.n[p].kids.clone(),
        };
        let anc = || {
            let mut v = vec![];
            let mut p = nd.parent;
            while let Some(i) = p {
                v.push(i);
                p = d.n[i].parent;
            }
            v
        };
        let v: Vec<usize> = match ax {
            Axis::Child => nd.kids.clone(),
            Axis::Attribute => nd.attrs.clone(),
            Axis::SelfAx => vec![n],
            Axis::Descendant => (n + 1..nd.end).filter(|i| !attr(i)).collect(),
            Axis::DescendantOrSelf => (n..nd.end).filter(|i| *i == n || !attr(i)).collect(),
            Axis::Parent => nd.parent.into_iter().collect(),
            Axis::Ancestor => anc(),
            Axis::AncestorOrSelf => {
                let mut v = vec![n];
                v.extend(anc());
                v
            }
            Axis::FollowingSibling => sib.into_iter().filter(|i| *i > n).collect(),
            Axis::PrecedingSibling => sib.into_iter().filter(|i| *i < n).rev().collect(),
            // an attribute is followed by the content of its element
            Axis::Following => {
                let from = if nd.k == K::Attr { n + 1 } else { nd.end };
                (from..d.n.len()).filter(|i| !attr(i)).collect()
            }
            Axis::Preceding => (0..n).rev().filter(|i| !attr(i) && !d.is_ancestor(*i, n)).collect(),
        };
        // the DOM keeps the XML declaration as a node before the root element
        v
    }

    fn test(&self, ax: Axis, t: &Test, n: usize) -> bool {
        let nd = &self.d.n[n];
        let main = if ax == Axis::Attribute { K::Attr } else { K::Elem };
        match t {
            Test::Name(s) => nd.k == main && nd.name == *s,
            Test::Star => nd.k == main,
            Test::Prefix(p) => nd.k == main && nd.name.split_once(':').map(|x| x.0) == Some(p),
            Test::Local(l) => nd.k == main && nd.name.split_once(':').map(|x| x.1).unwrap_or(&nd.name) == l,
            Test::Kind(k) => self.kind(k, n),
        }
    }

    fn kind(&self, k: &Kind, n: usize) -> bool {
        let nd = &self.d.n[n];
        match k {
            Kind::Node => true,
            Kind::Text => nd.k == K::Text,
            Kind::Comment => nd.k == K::Comment,
            Kind::Pi(t) => nd.k == K::Pi && t.as_ref().map_or(true, |t| *t == nd.name),
            Kind::Elem(name, t) => {
                nd.k == K::Elem
                    && name.as_ref().map_or(true, |t| *t == nd.name)
                    && match t {
                        None => true,
                        Some((t, q)) => {
                            matches!(t.as_str(), "xs:untyped" | "xs:anyType") && (*q || self.d.attr(n, "xsi:nil") != Some("true"))
                        }
                    }
            }
            Kind::Attr(name, t) => {
                nd.k == K::Attr
                    && name.as_ref().map_or(true, |t| *t == nd.name)
                    && t.as_ref()
                        .map_or(true, |t| matches!(t.as_str(), "xs:untypedAtomic" | "xs:anyAtomicType" | "xs:anySimpleType" | "xs:anyType"))
            }
        }
    }

    // ------------------------------------------------------------- types

    pub fn matches(&self, v: &Seq, t: &ST) -> Result<bool, Er> {
        let (it, occ) = match &t.0 {
            None => return Ok(v.is_empty()),
            Some(x) => x,
        };
        let ok = match occ {
            '?' => v.len() <= 1,
            '*' => true,
            '+' => !v.is_empty(),
            _ => v.len() == 1,
        };
        if !ok {
            return Ok(false);
        }
        for i in v {
            if !self.item_matches(i, it)? {
                return Ok(false);
            }
        }
        Ok(true)
    }

    fn item_matches(&self, i: &It, t: &IT) -> Result<bool, Er> {
        Ok(match t {
            IT::Item => true,
            IT::Kind(k) => matches!(i, It::N(n) if self.kind(k, *n)),
            IT::Atomic(n) => derives(type_name(i), n),
            IT::AnyFn => matches!(i, It::Fn(_) | It::M(_) | It::A(_)),
            IT::AnyMap => matches!(i, It::M(_)),
            IT::AnyArr => matches!(i, It::A(_)),
            IT::Map(k, v) => match i {
                It::M(m) => {
                    for (mk, mv) in m.iter() {
                        if !derives(type_name(mk), k) || !self.matches(mv, v)? {
                            return Ok(false);
                        }
                    }
                    true
                }
                _ => false,
            },
            IT::Arr(v) => match i {
                It::A(a) => {
                    for s in a.iter() {
                        if !self.matches(s, v)? {
                            return Ok(false);
                        }
                    }
                    true
                }
                _ => false,
            },
            IT::Fn(q, s) => {
                let r = match i {
                    It::Fn(f) => {
                        let sig = match &**f {
                            FnV::Inline(f, _) => Some((
                                f.params.iter().map(|p| p.1.clone().unwrap_or_else(xtypes::any)).collect(),
                                f.ret.clone().unwrap_or_else(xtypes::any),
                            )),
                            FnV::Named(n, a) => xtypes::signature(n.strip_prefix("fn:").unwrap_or(n), *a),
                            FnV::Partial(n, a) => xtypes::signature(n.strip_prefix("fn:").unwrap_or(n), a.len()).map(|(p, r)| {
                                (p.into_iter().zip(a.iter()).filter(|(_, a)| a.is_none()).map(|(p, _)| p).collect(), r)
                            }),
                        };
                        match sig {
                            Some(g) => xtypes::sub_sig(&g, &(q.clone(), (**s).clone())),
                            None => None,
                        }
                    }
                    It::M(_) | It::A(_) if xtypes::error_param(q) => None,
                    It::M(m) => {
                        if q.len() != 1 {
                            Some(false)
                        } else {
                            // see xtypes::map_fn
                            let mut vals = true;
                            let mut keys = true;
                            for (k, v) in m.iter() {
                                vals &= self.matches(v, s)?;
                                keys &= match &q[0].0 {
                                    Some((IT::Atomic(n), _)) => derives(type_name(k), n),
                                    _ => false,
                                };
                            }
                            let rec = match (xtypes::subtype(&q[0], &xtypes::one(IT::Atomic("xs:anyAtomicType".into()))), self.matches(&vec![], s)?) {
                                (Some(x), y) => Some(x && y && vals),
                                _ => None,
                            };
                            if rec == Some(vals && keys) {
                                rec
                            } else {
                                None
                            }
                        }
                    }
                    It::A(a) => {
                        if q.len() != 1 {
                            Some(false)
                        } else {
                            let mut vals = true;
                            for v in a.iter() {
                                vals &= self.matches(v, s)?;
                            }
                            xtypes::subtype(&q[0], &xtypes::one(IT::Atomic("xs:integer".into()))).map(|x| x && vals)
                        }
                    }
                    _ => Some(false),
                };
                match r {
                    Some(b) => b,
                    None => return unspec("typed function test"),
                }
            }
        })
    }

    // ------------------------------------------------------------- functions

    /// The function conversion rules.
    fn convert(&self, a: Seq, t: &ST) -> R {
        if self.matches(&a, t)? {
            return Ok(a);
        }
        let n = match &t.0 {
            Some((IT::Atomic(n), _)) => n.as_str(),
            _ => return ty("value of the wrong type"),
        };
        // nodes are untyped, also inside arrays
        fn flat(a: &Seq, out: &mut Seq) {
            for i in a {
                match i {
                    It::A(v) => v.iter().for_each(|s| flat(s, out)),
                    i => out.push(i.clone()),
                }
            }
        }
        let mut v = vec![];
        flat(&a, &mut v);
        let mut out = vec![];
        for i in v {
            out.push(match (&i, n) {
                (It::N(_), _) => {
                    let s = self.atomize(&vec![i])?.remove(0);
                    match n {
                        _ if derives("xs:string", n) => s,
                        "xs:numeric" | "xs:double" => cast(&s, "xs:double")?,
                        "xs:integer" | "xs:decimal" | "xs:boolean" => cast(&s, n)?,
                        _ => return unspec("cast to a type that is not supported"),
                    }
                }
                (It::I(_) | It::D(_), "xs:double") => cast(&i, n)?,
                _ => i,
            });
        }
        if self.matches(&out, t)? {
            Ok(out)
        } else {
            ty("value of the wrong type")
        }
    }

    pub fn apply(&self, f: &It, args: Vec<Seq>, c: &Cxt) -> R {
        match f {
            It::M(m) => {
                if args.len() != 1 {
                    return ty("a map takes one argument");
                }
                let k = self.atomize(&args[0])?;
                if k.len() != 1 {
                    return ty("a map key must be one atomic value");
                }
                // calling a map with a missing key: the empty sequence
                Ok(m.iter().find(|(x, _)| same_key(x, &k[0])).map(|(_, v)| v.clone()).unwrap_or_default())
            }
            It::A(a) => {
                if args.len() != 1 {
                    return ty("an array takes one argument");
                }
                let k = self.atomize(&args[0])?;
                match k.as_slice() {
                    [It::I(i)] => {
                        if *i >= 1 && *i <= a.len() as i64 {
                            Ok(a[*i as usize - 1].clone())
                        } else {
                            ty("array index out of bounds")
                        }
                    }
                    // strings are accepted because nodes atomize to them
                    [It::S(_)] => unspec("array index that is a string"),
                    _ => ty("an array index must be one integer"),
                }
            }
            It::Fn(f) => match &**f {
                FnV::Inline(f, env) => {
                    if args.len() != f.params.len() {
                        return ty("wrong number of arguments");
                    }
                    let mut env = env.clone();
                    for ((n, t), a) in f.params.iter().zip(args) {
                        let a = match t {
                            Some(t) => self.convert(a, t)?,
                            None => a,
                        };
                        env = bind(&env, n, a);
                    }
                    let c2 = Cxt { item: None, pos: 0, size: 0, env };
                    let r = self.eval(&f.body, &c2)?;
                    if let Some(t) = &f.ret {
                        return self.convert(r, t);
                    }
                    Ok(r)
                }
                FnV::Named(n, a) => {
                    if args.len() != *a {
                        return ty("wrong number of arguments");
                    }
                    self.call(n, args, c)
                }
                FnV::Partial(n, a) => {
                    if args.len() != a.iter().filter(|x| x.is_none()).count() {
                        return ty("wrong number of arguments");
                    }
                    let mut it = args.into_iter();
                    let full = a.iter().map(|x| x.clone().unwrap_or_else(|| it.next().unwrap())).collect();
                    self.call(n, full, c)
                }
            },
            _ => ty("not a function"),
        }
    }

    fn lookup(&self, v: &Seq, k: &Key, c: &Cxt) -> R {
        let mut out = vec![];
        if let (true, Key::Expr(e)) = (v.is_empty(), k) {
            // whether the key is looked at then is open
            if let Err(_) = self.eval(e, c).and_then(|s| self.atomize(&s)) {
                return unspec("a failing key for no map");
            }
        }
        for i in v {
            let keys: Option<Seq> = match k {
                Key::Star => None,
                Key::Name(n) => Some(vec![It::S(n.clone())]),
                Key::Int(n) => Some(vec![It::I(*n)]),
                Key::Expr(e) => Some(self.atomize(&self.eval(e, c)?)?),
            };
            match (i, keys) {
                (It::M(m), None) => m.iter().for_each(|(_, v)| out.extend(v.iter().cloned())),
                (It::A(a), None) => a.iter().for_each(|v| out.extend(v.iter().cloned())),
                (It::M(_) | It::A(_), Some(ks)) => {
                    for key in ks {
                        out.append(&mut self.apply(i, vec![vec![key]], c)?);
                    }
                }
                _ => return ty("lookup in something that is neither map nor array"),
            }
        }
        Ok(out)
    }

    pub fn call(&self, name: &str, args: Vec<Seq>, c: &Cxt) -> R {
        crate::xfun::call(self, name, args, c)
    }
}

/// Two operands of an operator that gives () for an empty operand: whether an
/// error in the other operand is noticed is open.
fn both<T>(a: Result<Option<T>, Er>, b: Result<Option<T>, Er>) -> Result<(Option<T>, Option<T>), Er> {
    match (a, b) {
        (Ok(None), Err(Er::E(_))) | (Err(Er::E(_)), Ok(None)) => unspec("an empty operand and an error"),
        (a, b) => Ok((a?, b?)),
    }
}

// ----------------------------------------------------------------- atomic values

pub fn type_name(i: &It) -> &'static str {
    match i {
        It::S(_) => "xs:string",
        It::U(_) => "xs:untypedAtomic",
        It::I(_) => "xs:integer",
        It::D(_) => "xs:decimal",
        It::F(_) => "xs:double",
        It::B(_) => "xs:boolean",
        It::N(_) => "node",
        It::M(_) => "map",
        It::A(_) => "array",
        It::Fn(_) => "function",
    }
}

pub fn derives(a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    match b {
        "xs:anyAtomicType" => a.starts_with("xs:"),
        "xs:decimal" => a == "xs:integer",
        "xs:string" => a == "xs:anyURI",
        "xs:numeric" => matches!(a, "xs:integer" | "xs:decimal" | "xs:double"),
        _ => false,
    }
}

pub fn same_key(a: &It, b: &It) -> bool {
    let num = |x: &It| match x {
        It::I(i) => Some(*i as f64),
        It::D(f) | It::F(f) => Some(*f),
        _ => None,
    };
    match (a, b) {
        (It::I(x), It::I(y)) => x == y,
        (It::S(x) | It::U(x), It::S(y) | It::U(y)) => x == y,
        (It::B(x), It::B(y)) => x == y,
        _ => match (num(a), num(b)) {
            (Some(x), Some(y)) => x == y || x.is_nan() && y.is_nan(),
            _ => false,
        },
    }
}

pub fn to_f(x: &It) -> f64 {
    match x {
        It::I(i) => *i as f64,
        It::D(f) | It::F(f) => *f,
        _ => f64::NAN,
    }
}

pub fn arith(op: &str, a: &It, b: &It) -> Result<It, Er> {
    if let (It::I(x), It::I(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let of = |r: Option<i64>| match r {
            Some(r) => Ok(It::I(r)),
            None => ty("integer overflow"),
        };
        return match op {
            "+" => of(x.checked_add(y)),
            "-" => of(x.checked_sub(y)),
            "*" => of(x.checked_mul(y)),
            "div" => {
                if y == 0 {
                    ty("division by zero")
                } else {
                    let q = x as f64 / y as f64;
                    Ok(It::D(if q == 0.0 { 0.0 } else { q }))
                }
            }
            "idiv" => {
                if y == 0 {
                    ty("division by zero")
                } else {
                    of(x.checked_div(y))
                }
            }
            _ => {
                if y == 0 {
                    ty("division by zero")
                } else {
                    Ok(It::I(x.wrapping_rem(y)))
                }
            }
        };
    }
    let dbl = matches!(a, It::F(_)) || matches!(b, It::F(_));
    let (x, y) = (to_f(a), to_f(b));
    if !dbl && y == 0.0 && matches!(op, "div" | "idiv" | "mod") {
        return ty("division by zero");
    }
    let r = match op {
        "+" => x + y,
        "-" => x - y,
        "*" => x * y,
        "div" => x / y,
        "mod" => x % y,
        _ => {
            // idiv
            if y == 0.0 {
                return ty("division by zero");
            }
            if x.is_nan() || y.is_nan() || x.is_infinite() {
                return ty("idiv of NaN or infinity");
            }
            let q = if y.is_infinite() { 0.0 } else { (x / y).trunc() };
            if !(q >= -9223372036854775808.0 && q < 9223372036854775808.0) {
                return ty("integer overflow");
            }
            return Ok(It::I(q as i64));
        }
    };
    if dbl {
        Ok(It::F(r))
    } else if r.is_finite() {
        // a decimal has no negative zero
        Ok(It::D(if r == 0.0 { 0.0 } else { r }))
    } else {
        ty("decimal overflow")
    }
}

/// Value comparison of two atomic values (no untyped ones).
pub fn compare(op: &str, a: &It, b: &It) -> Result<bool, Er> {
    use std::cmp::Ordering::*;
    let o = match (a, b) {
        (It::I(x), It::I(y)) => Some(x.cmp(y)),
        (It::I(_) | It::D(_) | It::F(_), It::I(_) | It::D(_) | It::F(_)) => to_f(a).partial_cmp(&to_f(b)),
        (It::S(x), It::S(y)) => Some(x.chars().map(|c| c as u32).cmp(y.chars().map(|c| c as u32))),
        (It::B(x), It::B(y)) => Some(x.cmp(y)),
        _ => return ty("comparison of values of different types"),
    };
    Ok(match op {
        "eq" => o == Some(Equal),
        "ne" => o != Some(Equal),
        "lt" => o == Some(Less),
        "le" => matches!(o, Some(Less | Equal)),
        "gt" => o == Some(Greater),
        _ => matches!(o, Some(Greater | Equal)),
    })
}

fn general_pair(op: &str, a: &It, b: &It) -> Result<bool, Er> {
    let conv = |u: &str, other: &It| -> Result<It, Er> {
        Ok(match other {
            It::I(_) | It::D(_) | It::F(_) => It::F(str_to_double(u)?),
            It::B(_) => cast(&It::U(u.into()), "xs:boolean")?,
            _ => It::S(u.into()),
        })
    };
    let x = if let It::U(s) = a { conv(s, b)? } else { a.clone() };
    let y = if let It::U(s) = b { conv(s, a)? } else { b.clone() };
    compare(op, &x, &y)
}

fn xws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

pub fn str_to_double(s: &str) -> Result<f64, Er> {
    let t = s.trim_matches(xws);
    match t {
        "NaN" => return Ok(f64::NAN),
        "INF" | "+INF" => return Ok(f64::INFINITY),
        "-INF" => return Ok(f64::NEG_INFINITY),
        _ => {}
    }
    let (m, e) = match t.find(|c| c == 'e' || c == 'E') {
        Some(i) => (&t[..i], Some(&t[i + 1..])),
        None => (t, None),
    };
    if !is_decimal(m) || e.map_or(false, |e| !is_int(e)) {
        return ty("not a number");
    }
    Ok(t.parse().unwrap())
}

fn unsigned(s: &str) -> &str {
    s.strip_prefix(|c| c == '+' || c == '-').unwrap_or(s)
}
pub fn is_int(s: &str) -> bool {
    let d = unsigned(s);
    !d.is_empty() && d.bytes().all(|c| c.is_ascii_digit())
}
pub fn is_decimal(s: &str) -> bool {
    let d = unsigned(s);
    let (a, b) = d.split_once('.').unwrap_or((d, ""));
    !(a.is_empty() && b.is_empty()) && a.bytes().all(|c| c.is_ascii_digit()) && b.bytes().all(|c| c.is_ascii_digit())
}

/// xs:double to xs:string
pub fn double_string(f: f64) -> String {
    if f.is_nan() {
        return "NaN".into();
    }
    if f.is_infinite() {
        return if f > 0.0 { "INF".into() } else { "-INF".into() };
    }
    if f == 0.0 {
        return if f.is_sign_negative() { "-0".into() } else { "0".into() };
    }
    let a = f.abs();
    if (1e-6..1e6).contains(&a) {
        return format!("{}", f);
    }
    let s = format!("{:E}", f);
    let (m, e) = s.split_once('E').unwrap();
    if m.contains('.') {
        format!("{}E{}", m, e)
    } else {
        format!("{}.0E{}", m, e)
    }
}

pub fn string_of(i: &It) -> Result<String, Er> {
    Ok(match i {
        It::S(s) | It::U(s) => s.clone(),
        It::I(i) => i.to_string(),
        It::D(f) => format!("{}", f),
        It::F(f) => double_string(*f),
        It::B(b) => b.to_string(),
        _ => return ty("no string value"),
    })
}

pub fn cast(i: &It, t: &str) -> Result<It, Er> {
    let s = match i {
        It::S(s) | It::U(s) => Some(s.trim_matches(xws)),
        _ => None,
    };
    match t {
        "xs:string" => return Ok(It::S(string_of(i)?)),
        "xs:double" => {
            return Ok(It::F(match (i, s) {
                (_, Some(s)) => str_to_double(s)?,
                (It::B(b), _) => *b as i32 as f64,
                _ => to_f(i),
            }))
        }
        "xs:decimal" => {
            return Ok(It::D(match (i, s) {
                (_, Some(s)) => {
                    if !is_decimal(s) {
                        return ty("not a decimal");
                    }
                    let f: f64 = s.parse().unwrap();
                    if !f.is_finite() {
                        return ty("decimal out of range");
                    }
                    if f == 0.0 { 0.0 } else { f }
                }
                (It::B(b), _) => *b as i32 as f64,
                _ => {
                    let f = to_f(i);
                    if !f.is_finite() {
                        return ty("NaN and infinity are not decimals");
                    }
                    if f == 0.0 { 0.0 } else { f }
                }
            }))
        }
        "xs:integer" => {
            return Ok(It::I(match (i, s) {
                (_, Some(s)) => {
                    if !is_int(s) {
                        return ty("not an integer");
                    }
                    match s.parse() {
                        Ok(i) => i,
                        Err(_) => return ty("integer out of range"),
                    }
                }
                (It::B(b), _) => *b as i64,
                (It::I(i), _) => *i,
                _ => {
                    let f = to_f(i).trunc();
                    if !(f >= -9223372036854775808.0 && f < 9223372036854775808.0) {
                        return ty("integer out of range");
                    }
                    f as i64
                }
            }))
        }
        "xs:boolean" => {
            return Ok(It::B(match (i, s) {
                (_, Some("true" | "1")) => true,
                (_, Some("false" | "0")) => false,
                (_, Some(_)) => return ty("not a boolean"),
                (It::B(b), _) => *b,
                _ => {
                    let f = to_f(i);
                    f != 0.0 && !f.is_nan()
                }
            }))
        }
        _ => {}
    }
    match t {
        "string" | "integer" | "decimal" | "double" | "boolean" => unspec("type name without a prefix"),
        _ => ty("cast to a type that is not supported"),
    }
}
