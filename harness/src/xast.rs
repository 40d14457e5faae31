//! XPath expressions: syntax tree and printer with surface variation.

use crate::core::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Axis {
    Child,
    Descendant,
    Attribute,
    SelfAx,
    DescendantOrSelf,
    FollowingSibling,
    Following,
    Parent,
    Ancestor,
    PrecedingSibling,
    Preceding,
    AncestorOrSelf,
}

pub const AXES: &[Axis] = &[
    Axis::Child,
    Axis::Descendant,
    Axis::Attribute,
    Axis::SelfAx,
    Axis::DescendantOrSelf,
    Axis::FollowingSibling,
    Axis::Following,
    Axis::Parent,
    Axis::Ancestor,
    Axis::PrecedingSibling,
    Axis::Preceding,
    Axis::AncestorOrSelf,
];

impl Axis {
    pub fn name(self) -> &'static str {
        match self {
            Axis::Child => "child",
            Axis::Descendant => "descendant",
            Axis::Attribute => "attribute",
            Axis::SelfAx => "self",
            Axis::DescendantOrSelf => "descendant-or-self",
            Axis::FollowingSibling => "following-sibling",
            Axis::Following => "following",
            Axis::Parent => "parent",
            Axis::Ancestor => "ancestor",
            Axis::PrecedingSibling => "preceding-sibling",
            Axis::Preceding => "preceding",
            Axis::AncestorOrSelf => "ancestor-or-self",
        }
    }
    pub fn reverse(self) -> bool {
        matches!(self, Axis::Parent | Axis::Ancestor | Axis::PrecedingSibling | Axis::Preceding | Axis::AncestorOrSelf)
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Test {
    /// a QName
    Name(String),
    Star,
    /// p:*
    Prefix(String),
    /// *:a
    Local(String),
    Kind(Kind),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Kind {
    Node,
    Text,
    Comment,
    Pi(Option<String>),
    /// name (None = element()), type name and '?'
    Elem(Option<String>, Option<(String, bool)>),
    Attr(Option<String>, Option<String>),
}

#[derive(Clone, PartialEq, Debug)]
pub enum IT {
    Item,
    Kind(Kind),
    Atomic(String),
    AnyFn,
    Fn(Vec<ST>, Box<ST>),
    AnyMap,
    Map(String, Box<ST>),
    AnyArr,
    Arr(Box<ST>),
}

/// Sequence type: None = empty-sequence()
#[derive(Clone, PartialEq, Debug)]
pub struct ST(pub Option<(IT, char)>); // occurrence ' ', '?', '*', '+'

#[derive(Clone, PartialEq, Debug)]
pub enum Key {
    Name(String),
    Int(i64),
    Star,
    Expr(Box<E>),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Inline {
    pub params: Vec<(String, Option<ST>)>,
    pub ret: Option<ST>,
    pub body: E,
}

#[derive(Clone, PartialEq, Debug)]
pub enum ArrowF {
    Name(String),
    Var(String),
    Paren(Box<E>),
}

#[derive(Clone, PartialEq, Debug)]
pub enum E {
    Int(i64),
    /// digits that are no 64-bit integer
    Big(String),
    Dec(String),
    Dbl(String),
    Str(String),
    Var(String),
    Ctx,
    Seq(Vec<E>),
    Root,
    Step(Axis, Test, Vec<E>),
    /// abbreviated ".."
    Slash(Box<E>, Box<E>),
    DSlash(Box<E>, Box<E>),
    Filter(Box<E>, Box<E>),
    Call(String, Vec<E>),
    Dyn(Box<E>, Vec<E>),
    Lookup(Box<E>, Key),
    ULookup(Key),
    Inline(Box<Inline>),
    NamedRef(String, usize),
    Partial(String, Vec<Option<E>>),
    Map(Vec<(E, E)>),
    SqArr(Vec<E>),
    CurArr(Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
    Un(Vec<char>, Box<E>),
    If(Box<E>, Box<E>, Box<E>),
    For(Vec<(String, E)>, Box<E>),
    Let(Vec<(String, E)>, Box<E>),
    Quant(bool, Vec<(String, E)>, Box<E>),
    InstanceOf(Box<E>, ST),
    CastAs(Box<E>, String, bool),
    CastableAs(Box<E>, String, bool),
    Arrow(Box<E>, ArrowF, Vec<E>),
}

pub fn b(e: E) -> Box<E> {
    Box::new(e)
}
pub fn int(i: i64) -> E {
    E::Int(i)
}
pub fn st(s: &str) -> E {
    E::Str(s.into())
}
pub fn var(s: &str) -> E {
    E::Var(s.into())
}
pub fn call(n: &str, a: Vec<E>) -> E {
    E::Call(n.into(), a)
}
pub fn bin(op: &'static str, x: E, y: E) -> E {
    E::Bin(op, b(x), b(y))
}
pub fn step(a: Axis, t: Test) -> E {
    E::Step(a, t, vec![])
}
pub fn name(s: &str) -> Test {
    Test::Name(s.into())
}

/// every part of an expression, itself first
pub fn each(e: &mut E, f: &mut dyn FnMut(&mut E)) {
    f(e);
    match e {
        E::Int(_) | E::Big(_) | E::Dec(_) | E::Dbl(_) | E::Str(_) | E::Var(_) | E::Ctx | E::Root | E::NamedRef(..) | E::ULookup(_) => {
            if let E::ULookup(Key::Expr(x)) = e {
                each(x, f)
            }
        }
        E::Seq(v) | E::Step(_, _, v) | E::Call(_, v) | E::SqArr(v) => v.iter_mut().for_each(|x| each(x, f)),
        E::Slash(x, y) | E::DSlash(x, y) | E::Filter(x, y) | E::Bin(_, x, y) => {
            each(x, f);
            each(y, f)
        }
        E::Dyn(x, v) => {
            each(x, f);
            v.iter_mut().for_each(|x| each(x, f))
        }
        E::Lookup(x, k) => {
            each(x, f);
            if let Key::Expr(x) = k {
                each(x, f)
            }
        }
        E::Inline(i) => each(&mut i.body, f),
        E::Partial(_, v) => v.iter_mut().flatten().for_each(|x| each(x, f)),
        E::Map(v) => v.iter_mut().for_each(|(x, y)| {
            each(x, f);
            each(y, f)
        }),
        E::CurArr(x) | E::Un(_, x) | E::InstanceOf(x, _) | E::CastAs(x, ..) | E::CastableAs(x, ..) => each(x, f),
        E::If(x, y, z) => {
            each(x, f);
            each(y, f);
            each(z, f)
        }
        E::For(v, x) | E::Let(v, x) | E::Quant(_, v, x) => {
            v.iter_mut().for_each(|b| each(&mut b.1, f));
            each(x, f)
        }
        E::Arrow(x, a, v) => {
            each(x, f);
            if let ArrowF::Paren(p) = a {
                each(p, f)
            }
            v.iter_mut().for_each(|x| each(x, f))
        }
    }
}

/// An expression that differs from `e` in one detail, if it has any to change.
pub fn tweak(src: &mut Src, e: &E) -> Option<E> {
    let can = |x: &E| matches!(x, E::Int(_) | E::Str(_) | E::Dec(_) | E::Dbl(_) | E::Step(..) | E::Bin(..) | E::Call(..) | E::Quant(..));
    let mut r = e.clone();
    let mut n = 0;
    each(&mut r, &mut |x| n += can(x) as usize);
    if n == 0 {
        return None;
    }
    let (k, how) = (src.us(n), src.us(12));
    let mut i = 0;
    each(&mut r, &mut |x| {
        if !can(x) {
            return;
        }
        i += 1;
        if i - 1 != k {
            return;
        }
        match x {
            E::Int(v) => *v = if how < 6 { *v % 1000 + 1 } else { *v % 1000 * 10 },
            E::Dec(t) => t.push('5'),
            E::Dbl(t) => t.insert(0, '1'),
            E::Str(t) => match how {
                0 => t.push(' '),
                1 => t.insert(0, ' '),
                2 | 3 => *t = t.replace(' ', "  "),
                4 => *t = t.replace(' ', "\t"),
                5 => *t = t.to_uppercase(),
                6 => *t = t.to_lowercase(),
                7 => *t = t.replace('"', "'"),
                8 => *t = t.replace('\'', "\""),
                9 => t.push_str("(::)"),
                10 => *t = t.trim().to_string(),
                _ => t.push('x'),
            },
            E::Step(ax, t, _) => match (how, t) {
                (0..=5, t) => *t = if *t == Test::Star { Test::Kind(Kind::Node) } else { Test::Star },
                (6..=7, Test::Name(n)) => *n = n.to_uppercase(),
                _ => *ax = if *ax == Axis::Attribute { Axis::Child } else { Axis::Attribute },
            },
            E::Bin(op, ..) => {
                *op = match *op {
                    "=" => "eq",
                    "<" => "<=",
                    "+" => "-",
                    "-" => "+",
                    "or" => "and",
                    "and" => "or",
                    "union" | "|" => "except",
                    "!=" => "=",
                    o => o,
                }
            }
            E::Call(n, _) => {
                *n = match n.as_str() {
                    "head" => "tail",
                    "exists" => "empty",
                    "empty" => "exists",
                    "true" => "false",
                    "false" => "true",
                    "floor" => "ceiling",
                    "max" => "min",
                    "upper-case" => "lower-case",
                    "position" => "last",
                    "last" => "position",
                    o => o,
                }
                .to_string()
            }
            E::Quant(some, ..) => *some = !*some,
            _ => {}
        }
    });
    if r == *e {
        None
    } else {
        Some(r)
    }
}

pub fn op_prec(op: &str) -> u32 {
    match op {
        "or" => 30,
        "and" => 40,
        "=" | "!=" | "<" | "<=" | ">" | ">=" | "eq" | "ne" | "lt" | "le" | "gt" | "ge" | "is" | "<<" | ">>" => 50,
        "||" => 60,
        "to" => 70,
        "+" | "-" => 80,
        "*" | "div" | "idiv" | "mod" => 90,
        "union" | "|" => 100,
        "intersect" | "except" => 110,
        "!" => 180,
        _ => panic!("unknown operator {}", op),
    }
}

fn prec(e: &E) -> u32 {
    match e {
        E::Seq(v) if v.len() != 1 && !v.is_empty() => 10,
        E::If(..) | E::For(..) | E::Let(..) | E::Quant(..) => 20,
        E::Bin(op, ..) => op_prec(op),
        E::InstanceOf(_, t) => match &t.0 {
            Some((_, ' ')) | None => 120,
            _ => 45,
        },
        E::CastableAs(_, _, q) => {
            if *q {
                45
            } else {
                140
            }
        }
        E::CastAs(_, _, q) => {
            if *q {
                45
            } else {
                150
            }
        }
        E::Arrow(..) => 160,
        E::Partial(n, _) if n.starts_with("=>") => 160,
        E::Un(..) => 170,
        // a lone '/' must not be followed by a name or '*'
        E::Root => 15,
        E::Slash(..) | E::DSlash(..) => 190,
        E::Step(..) => 200,
        E::Filter(..) | E::Dyn(..) | E::Lookup(..) => 210,
        _ => 220,
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    /// single spaces where a person would write them
    Natural,
    /// only the spaces that are needed
    Tight,
    /// white space between all tokens
    Spaced,
    /// random white space and comments between tokens
    Wild,
}

pub struct Printer<'a> {
    src: &'a mut Src,
    toks: Vec<(String, bool)>,
    /// probability (of 16) of redundant parentheses
    pub extra: u64,
    /// write abbreviated forms: always / never / random
    pub abbrev: Option<bool>,
}

impl<'a> Printer<'a> {
    pub fn new(src: &'a mut Src) -> Printer<'a> {
        Printer { src, toks: vec![], extra: 0, abbrev: None }
    }

    fn t(&mut self, s: &str) {
        self.toks.push((s.to_string(), false));
    }
    /// token with a natural space before and after it
    fn op(&mut self, s: &str) {
        self.toks.push((s.to_string(), true));
        self.toks.push((String::new(), true));
    }
    fn sp(&mut self) {
        self.toks.push((String::new(), true));
    }

    fn short(&mut self) -> bool {
        match self.abbrev {
            Some(v) => v,
            None => !self.src.chance(1, 4),
        }
    }

    pub fn e(&mut self, e: &E, min: u32) {
        let need = prec(e) < min;
        let extra = self.extra > 0 && self.src.chance(self.extra, 16) && !matches!(e, E::Step(..));
        if need || extra {
            self.t("(");
            self.e0(e);
            self.t(")");
        } else {
            self.e0(e);
        }
    }

    fn list(&mut self, v: &[E]) {
        for (i, a) in v.iter().enumerate() {
            if i > 0 {
                self.t(",");
                self.sp();
            }
            self.e(a, if *a == E::Root { 15 } else { 20 });
        }
    }

    fn binds(&mut self, v: &[(String, E)], sep: &str) {
        for (i, (n, e)) in v.iter().enumerate() {
            if i > 0 {
                self.t(",");
                self.sp();
            }
            self.t(&format!("${}", n));
            self.op(sep);
            self.e(e, 20);
        }
    }

    fn strlit(&mut self, s: &str) {
        let q = if self.src.flip() { '\'' } else { '"' };
        let mut o = String::new();
        o.push(q);
        for c in s.chars() {
            if c == q {
                o.push(c);
            }
            o.push(c);
        }
        o.push(q);
        self.t(&o);
    }

    fn test(&mut self, t: &Test) {
        match t {
            Test::Name(n) => self.t(n),
            Test::Star => self.t("*"),
            Test::Prefix(p) => self.t(&format!("{}:*", p)),
            Test::Local(l) => self.t(&format!("*:{}", l)),
            Test::Kind(k) => self.kind(k),
        }
    }

    fn kind(&mut self, k: &Kind) {
        match k {
            Kind::Node => self.fun0("node"),
            Kind::Text => self.fun0("text"),
            Kind::Comment => self.fun0("comment"),
            Kind::Pi(None) => self.fun0("processing-instruction"),
            Kind::Pi(Some(n)) => {
                self.t("processing-instruction");
                self.t("(");
                if self.src.flip() {
                    self.t(n)
                } else {
                    self.strlit(n)
                }
                self.t(")");
            }
            Kind::Elem(n, ty) => {
                self.t("element");
                self.t("(");
                match (n, ty) {
                    (None, None) => {
                        if self.src.flip() {
                            self.t("*")
                        }
                    }
                    (Some(n), None) => self.t(n),
                    (n, Some((ty, q))) => {
                        self.t(n.as_deref().unwrap_or("*"));
                        self.t(",");
                        self.sp();
                        self.t(ty);
                        if *q {
                            self.t("?");
                        }
                    }
                }
                self.t(")");
            }
            Kind::Attr(n, ty) => {
                self.t("attribute");
                self.t("(");
                match (n, ty) {
                    (None, None) => {
                        if self.src.flip() {
                            self.t("*")
                        }
                    }
                    (Some(n), None) => self.t(n),
                    (n, Some(ty)) => {
                        self.t(n.as_deref().unwrap_or("*"));
                        self.t(",");
                        self.sp();
                        self.t(ty);
                    }
                }
                self.t(")");
            }
        }
    }

    fn fun0(&mut self, n: &str) {
        self.t(n);
        self.t("(");
        self.t(")");
    }

    pub fn seqtype(&mut self, s: &ST) {
        match &s.0 {
            None => self.fun0("empty-sequence"),
            Some((it, occ)) => {
                let paren = *occ != ' ' && matches!(it, IT::Fn(..)) || self.extra > 0 && self.src.chance(self.extra, 32);
                if paren {
                    self.t("(");
                }
                self.item_type(it);
                if paren {
                    self.t(")");
                }
                if *occ != ' ' {
                    self.t(&occ.to_string());
                }
            }
        }
    }

    fn item_type(&mut self, it: &IT) {
        match it {
            IT::Item => self.fun0("item"),
            IT::Kind(k) => self.kind(k),
            IT::Atomic(n) => self.t(n),
            IT::AnyFn => {
                self.t("function");
                self.t("(");
                self.t("*");
                self.t(")");
            }
            IT::AnyMap => {
                self.t("map");
                self.t("(");
                self.t("*");
                self.t(")");
            }
            IT::AnyArr => {
                self.t("array");
                self.t("(");
                self.t("*");
                self.t(")");
            }
            IT::Fn(args, ret) => {
                self.t("function");
                self.t("(");
                for (i, a) in args.iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                        self.sp();
                    }
                    self.seqtype(a);
                }
                self.t(")");
                self.op("as");
                self.seqtype(ret);
            }
            IT::Map(k, v) => {
                self.t("map");
                self.t("(");
                self.t(k);
                self.t(",");
                self.sp();
                self.seqtype(v);
                self.t(")");
            }
            IT::Arr(v) => {
                self.t("array");
                self.t("(");
                self.seqtype(v);
                self.t(")");
            }
        }
    }

    fn key(&mut self, k: &Key) {
        match k {
            Key::Name(n) => self.t(n),
            Key::Int(i) => self.t(&i.to_string()),
            Key::Star => self.t("*"),
            Key::Expr(e) => {
                self.t("(");
                self.e(e, 10);
                self.t(")");
            }
        }
    }

    fn args(&mut self, v: &[E]) {
        self.t("(");
        self.list(v);
        self.t(")");
    }

    /// the step `e` after a '/'
    fn e0(&mut self, e: &E) {
        match e {
            E::Int(i) => self.t(&i.to_string()),
            E::Big(s) | E::Dec(s) | E::Dbl(s) => self.t(s),
            E::Str(s) => self.strlit(s),
            E::Var(v) => self.t(&format!("${}", v)),
            E::Ctx => self.t("."),
            E::Seq(v) => {
                if v.is_empty() {
                    self.t("(");
                    self.t(")");
                } else if v.len() == 1 {
                    self.e(&v[0], 220);
                } else {
                    self.list(v)
                }
            }
            E::Root => self.t("/"),
            E::Step(ax, t, preds) => {
                let node = *t == Test::Kind(Kind::Node);
                if *ax == Axis::Parent && node && preds.is_empty() && self.short() {
                    self.t("..");
                } else {
                    if *ax == Axis::Child && !matches!(t, Test::Kind(Kind::Attr(..))) && self.short() {
                    } else if *ax == Axis::Attribute && self.short() {
                        self.t("@");
                    } else {
                        self.t(ax.name());
                        self.t("::");
                    }
                    self.test(t);
                }
                for p in preds {
                    self.t("[");
                    self.e(p, 10);
                    self.t("]");
                }
            }
            E::Slash(l, r) => {
                if **l == E::Root {
                    self.t("/");
                } else {
                    self.e(l, 190);
                    self.t("/");
                }
                self.e(r, 200);
            }
            E::DSlash(l, r) => {
                let short = self.short();
                if **l == E::Root {
                } else {
                    self.e(l, 190);
                }
                if short {
                    self.t("//");
                } else {
                    self.t("/");
                    self.t("descendant-or-self");
                    self.t("::");
                    self.fun0("node");
                    self.t("/");
                }
                self.e(r, 200);
            }
            E::Filter(l, p) => {
                self.e(l, 210);
                self.t("[");
                self.e(p, 10);
                self.t("]");
            }
            E::Call(n, a) => {
                self.t(n);
                self.args(a);
            }
            E::Dyn(f, a) => {
                self.e(f, 210);
                self.args(a);
            }
            E::Lookup(l, k) => {
                self.e(l, 210);
                self.t("?");
                self.key(k);
            }
            E::ULookup(k) => {
                self.t("?");
                self.key(k);
            }
            E::Inline(f) => {
                self.t("function");
                self.t("(");
                for (i, (n, ty)) in f.params.iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                        self.sp();
                    }
                    self.t(&format!("${}", n));
                    if let Some(ty) = ty {
                        self.op("as");
                        self.seqtype(ty);
                    }
                }
                self.t(")");
                if let Some(ty) = &f.ret {
                    self.op("as");
                    self.seqtype(ty);
                }
                self.op("{");
                if f.body != E::Seq(vec![]) || self.src.flip() {
                    self.e(&f.body, 10);
                }
                self.sp();
                self.t("}");
            }
            E::NamedRef(n, a) => self.t(&format!("{}#{}", n, a)),
            E::Partial(n, a) => {
                // "=>f": the first argument stands before an arrow
                let mut a = &a[..];
                match (n.strip_prefix("=>"), a) {
                    (Some(n), [Some(x), rest @ ..]) => {
                        self.e(x, 160);
                        self.op("=>");
                        self.t(n);
                        a = rest;
                    }
                    _ => self.t(n),
                }
                self.t("(");
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                        self.sp();
                    }
                    match x {
                        None => self.t("?"),
                        Some(x) => self.e(x, 20),
                    }
                }
                self.t(")");
            }
            E::Map(v) => {
                self.t("map");
                self.op("{");
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                        self.sp();
                    }
                    self.e(k, 20);
                    self.op(":");
                    self.e(x, 20);
                }
                self.sp();
                self.t("}");
            }
            E::SqArr(v) => {
                self.t("[");
                self.list(v);
                self.t("]");
            }
            E::CurArr(x) => {
                self.t("array");
                self.op("{");
                if **x != E::Seq(vec![]) || self.src.flip() {
                    self.e(x, 10);
                }
                self.sp();
                self.t("}");
            }
            E::Bin(op, x, y) => {
                let p = op_prec(op);
                // comparison and range operators do not chain
                let lmin = if p == 50 || p == 70 { p + 1 } else { p };
                self.e(x, lmin);
                self.op(op);
                self.e(y, p + 1);
            }
            E::Un(s, x) => {
                for c in s {
                    self.t(&c.to_string());
                }
                self.e(x, 180);
            }
            E::If(c, x, y) => {
                self.t("if");
                self.sp();
                self.t("(");
                self.e(c, 10);
                self.t(")");
                self.op("then");
                self.e(x, 20);
                self.op("else");
                self.e(y, 20);
            }
            E::For(v, r) => {
                self.t("for");
                self.sp();
                self.binds(v, "in");
                self.op("return");
                self.e(r, 20);
            }
            E::Let(v, r) => {
                self.t("let");
                self.sp();
                self.binds(v, ":=");
                self.op("return");
                self.e(r, 20);
            }
            E::Quant(some, v, r) => {
                self.t(if *some { "some" } else { "every" });
                self.sp();
                self.binds(v, "in");
                self.op("satisfies");
                self.e(r, 20);
            }
            E::InstanceOf(x, t) => {
                self.e(x, 130);
                self.op("instance");
                self.op("of");
                self.seqtype(t);
            }
            E::CastAs(x, t, q) | E::CastableAs(x, t, q) => {
                let cast = matches!(e, E::CastAs(..));
                self.e(x, if cast { 160 } else { 150 });
                self.op(if cast { "cast" } else { "castable" });
                self.op("as");
                self.t(t);
                if *q {
                    self.t("?");
                }
            }
            E::Arrow(x, f, a) => {
                self.e(x, 160);
                self.op("=>");
                match f {
                    ArrowF::Name(n) => self.t(n),
                    ArrowF::Var(v) => self.t(&format!("${}", v)),
                    ArrowF::Paren(p) => {
                        self.t("(");
                        self.e(p, 10);
                        self.t(")");
                    }
                }
                self.args(a);
            }
        }
    }

    pub fn finish(self, style: Style) -> String {
        join(self.src, &self.toks, style)
    }
}

fn word_start(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || c as u32 > 0x7f
}

/// whether two adjacent tokens need white space between them
fn need_space(a: &str, c: &str) -> bool {
    let la = a.chars().last().unwrap_or(' ');
    let fa = a.chars().next().unwrap_or(' ');
    let fc = c.chars().next().unwrap_or(' ');
    let a_word = fa == '$' || word_start(fa) || (fa == '.' && a.len() > 1 && a != "..") || (fa == '*' && a.len() > 1);
    let a_word = a_word && fa != '"' && fa != '\'';
    let c_word = word_start(fc) || (fc == '.' && c.len() > 1);
    let a_num = fa.is_ascii_digit() || (fa == '.' && a.len() > 1 && a != "..");
    if a == ":" && matches!(fc, ':' | '=' | ')') {
        return true;
    }
    if (fa == '"' || fa == '\'') && fa == fc {
        return true;
    }
    if a_word && (c_word || fc == '.') {
        return true;
    }
    if a_word && !a_num && fc == '-' {
        return true;
    }
    if a == "." && (c_word || fc == '.') || a == ".." && (c_word || fc == '.') {
        return true;
    }
    // "(:" would open a comment, "*:" a wildcard, "<<" another operator
    if a == "(" && fc == ':' || la == '*' && fc == ':' {
        return true;
    }
    if a == "/" && (fc == '/' || c == "*") {
        return true;
    }
    matches!((la, fc), ('<', '<') | ('<', '=') | ('>', '>') | ('>', '=') | ('=', '>') | ('|', '|') | ('!', '='))
}

fn blank(src: &mut Src) -> String {
    let mut s = String::new();
    let mut n = 0;
    while n == 0 || src.more(n, 3, 1, 4) {
        n += 1;
        match src.weighted(&[5, 2, 2, 1, 3]) {
            0 => s.push(' '),
            1 => s.push('\n'),
            2 => s.push('\t'),
            3 => s.push_str("\r\n"),
            _ => s.push_str(&comment(src)),
        }
    }
    s
}

/// a comment, its text often of the characters that make comments
fn comment(src: &mut Src) -> String {
    if src.flip() {
        return src.pick(&["(: c :)", "(::)", "(: a (: b :) c :)", "(: \" ' 1 :)", "(: ) :)", "(:*:)"]).to_string();
    }
    let mut s = String::from("(:");
    while src.more(s.len(), 14, 9, 10) {
        s.push_str(src.pick(&["(", ")", ":", "(:", ":)", "(:(:", ":):)", " ", "a", "'", "\"", "*", "]", "\n", "{", "é"]));
    }
    // complete it
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut depth) = (0, 0);
    while i < c.len() {
        let two = (c[i], c.get(i + 1).copied().unwrap_or(' '));
        match two {
            ('(', ':') => depth += 1,
            (':', ')') => depth -= 1,
            _ => {
                i += 1;
                continue;
            }
        }
        i += 2;
        if depth == 0 {
            return c[..i].iter().collect();
        }
    }
    // "(" or ":" at the end would combine with what follows
    s.push(' ');
    for _ in 0..depth {
        s.push_str(":)");
    }
    s
}

pub fn join(src: &mut Src, toks: &[(String, bool)], style: Style) -> String {
    let mut out = String::new();
    if style == Style::Wild && src.chance(1, 4) {
        out.push_str(&blank(src));
    }
    let mut last = String::new();
    let mut before = String::new();
    let mut natural = false;
    for (t, sp) in toks {
        natural |= *sp;
        if t.is_empty() {
            continue;
        }
        if !last.is_empty() {
            // a colon between two names would make one name of them
            let fb = before.chars().next().unwrap_or(' ');
            let named = fb == '$' || fb == '*' || word_start(fb) && !fb.is_ascii_digit();
            let fc = t.chars().next().unwrap_or(' ');
            let need = need_space(&last, t) || last == ":" && named && (word_start(fc) && !fc.is_ascii_digit() || fc == '*');
            match style {
                Style::Natural => {
                    if natural || need {
                        out.push(' ')
                    }
                }
                Style::Tight => {
                    if need {
                        out.push(' ')
                    }
                }
                Style::Spaced => out.push(' '),
                Style::Wild => {
                    if need || src.chance(1, 3) {
                        let mut s = blank(src);
                        // a comment alone separates, but keep it readable
                        if need && s.starts_with('(') {
                            s.insert(0, ' ');
                        }
                        // "(" directly followed by a comment's ":" is avoided by the blank itself
                        out.push_str(&s);
                    }
                }
            }
        }
        natural = false;
        out.push_str(t);
        before = std::mem::replace(&mut last, t.clone());
    }
    if style == Style::Wild && src.chance(1, 4) {
        out.push_str(&blank(src));
    }
    out
}

pub fn print(src: &mut Src, e: &E) -> String {
    let mut p = Printer::new(src);
    p.e(e, 10);
    p.finish(Style::Natural)
}

/// Print with redundant parentheses, and any white space style.
pub fn print_with(src: &mut Src, e: &E, style: Style, extra: u64, abbrev: Option<bool>) -> String {
    let mut p = Printer::new(src);
    p.extra = extra;
    p.abbrev = abbrev;
    p.e(e, 10);
    p.finish(style)
}
