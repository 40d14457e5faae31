//! A recognizer for XPath 3.1: which texts are expressions at all.
//!
//! It follows the grammar of the recommendation, and where it deviates it
//! accepts more (white space in names, no limit on what a `/` may be followed
//! by, any name characters beyond ASCII), so a text it rejects is certainly
//! not an expression.  Every nonterminal gives all ends it can reach, so no
//! decision depends on the order of alternatives.

use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq)]
enum Tk {
    Name(String),
    Int,
    Num,
    Str,
    S(&'static str),
}

const SYMS: &[&str] = &[
    "::", ":=", "//", "..", "<<", ">>", "<=", ">=", "!=", "||", "=>", "(", ")", "[", "]", "{", "}", ",", "$", "@", "#", "?", "!", "|", "+", "-", "*",
    "/", ".", "=", "<", ">", ":",
];

const RESERVED: &[&str] = &[
    "array", "attribute", "comment", "document-node", "element", "empty-sequence", "function", "if", "item", "map", "namespace-node", "node",
    "processing-instruction", "schema-attribute", "schema-element", "switch", "text", "typeswitch",
];

const AXES: &[&str] = &[
    "ancestor", "ancestor-or-self", "attribute", "child", "descendant", "descendant-or-self", "following", "following-sibling", "namespace", "parent",
    "preceding", "preceding-sibling", "self",
];

fn start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || (c as u32) >= 0x80
}

fn part(c: char) -> bool {
    start(c) || c.is_ascii_digit() || c == '-' || c == '.'
}

fn tokens(t: &str) -> Option<Vec<Tk>> {
    let c: Vec<char> = t.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    let dig = |i: usize| i < c.len() && c[i].is_ascii_digit();
    'all: while i < c.len() {
        let ch = c[i];
        if matches!(ch, ' ' | '\t' | '\n' | '\r') {
            i += 1;
            continue;
        }
        if ch == '(' && i + 1 < c.len() && c[i + 1] == ':' {
            let mut depth = 1;
            i += 2;
            while depth > 0 {
                if i + 1 >= c.len() {
                    return None;
                }
                if c[i] == '(' && c[i + 1] == ':' {
                    depth += 1;
                    i += 2;
                } else if c[i] == ':' && c[i + 1] == ')' {
                    depth -= 1;
                    i += 2;
                } else {
                    i += 1;
                }
            }
            continue;
        }
        if ch == '"' || ch == '\'' {
            i += 1;
            loop {
                if i >= c.len() {
                    return None;
                }
                if c[i] == ch {
                    if i + 1 < c.len() && c[i + 1] == ch {
                        i += 2;
                        continue;
                    }
                    i += 1;
                    break;
                }
                i += 1;
            }
            v.push(Tk::Str);
            continue;
        }
        if ch.is_ascii_digit() || (ch == '.' && dig(i + 1)) {
            let mut int = true;
            while dig(i) {
                i += 1;
            }
            if i < c.len() && c[i] == '.' {
                int = false;
                i += 1;
                while dig(i) {
                    i += 1;
                }
            }
            if i < c.len() && (c[i] == 'e' || c[i] == 'E') {
                let j = if i + 1 < c.len() && (c[i + 1] == '+' || c[i + 1] == '-') { i + 2 } else { i + 1 };
                if dig(j) {
                    int = false;
                    i = j;
                    while dig(i) {
                        i += 1;
                    }
                }
            }
            v.push(if int { Tk::Int } else { Tk::Num });
            continue;
        }
        if start(ch) {
            if ch == 'Q' && i + 1 < c.len() && c[i + 1] == '{' {
                if let Some(n) = c[i + 2..].iter().position(|x| *x == '}' || *x == '{') {
                    let j = i + 2 + n;
                    if c[j] == '}' && j + 1 < c.len() && (start(c[j + 1]) || c[j + 1] == '*') {
                        i = j + 1;
                        if c[i] == '*' {
                            i += 1;
                            v.push(Tk::Name("Q{}*".into()));
                            continue 'all;
                        }
                        // the local name follows; the braced part leaves no trace
                    }
                }
            }
            let s = i;
            while i < c.len() && part(c[i]) {
                i += 1;
            }
            v.push(Tk::Name(c[s..i].iter().collect()));
            continue;
        }
        for s in SYMS {
            let n = s.chars().count();
            if i + n <= c.len() && s.chars().eq(c[i..i + n].iter().cloned()) {
                v.push(Tk::S(s));
                i += n;
                continue 'all;
            }
        }
        return None;
    }
    Some(v)
}

type Ends = BTreeSet<usize>;

struct P {
    t: Vec<Tk>,
    memo: HashMap<(u8, usize), Ends>,
    steps: usize,
}

#[derive(Clone, Copy)]
enum N {
    Expr = 0,
    Single,
    Or,
    And,
    Cmp,
    Concat,
    Range,
    Add,
    Mul,
    Union,
    Inter,
    Inst,
    Treat,
    Castable,
    Cast,
    Arrow,
    Unary,
    Simple,
    Path,
    Rel,
    Step,
    Primary,
    SeqType,
    ItemType,
}

fn one(i: usize) -> Ends {
    let mut e = Ends::new();
    e.insert(i);
    e
}

impl P {
    fn sym(&self, i: usize, s: &str) -> bool {
        matches!(self.t.get(i), Some(Tk::S(x)) if *x == s)
    }
    fn word(&self, i: usize, s: &str) -> bool {
        matches!(self.t.get(i), Some(Tk::Name(x)) if x == s)
    }
    fn name(&self, i: usize) -> Option<&str> {
        match self.t.get(i) {
            Some(Tk::Name(x)) if x != "Q{}*" => Some(x),
            _ => None,
        }
    }
    fn lit(&self, from: Ends, s: &str) -> Ends {
        from.into_iter().filter(|i| self.sym(*i, s) || self.word(*i, s)).map(|i| i + 1).collect()
    }
    /// EQName
    fn eq(&self, from: Ends) -> Ends {
        let mut r = Ends::new();
        for i in from {
            if self.name(i).is_some() {
                r.insert(i + 1);
                if self.sym(i + 1, ":") && self.name(i + 2).is_some() {
                    r.insert(i + 3);
                }
            }
        }
        r
    }
    fn then(&mut self, from: Ends, n: N) -> Ends {
        let mut r = Ends::new();
        for i in from {
            r.extend(self.nt(n, i));
        }
        r
    }
    fn opt(&mut self, from: Ends, f: &dyn Fn(&mut P, Ends) -> Ends) -> Ends {
        let mut r = from.clone();
        r.extend(f(self, from));
        r
    }
    fn many(&mut self, from: Ends, f: &dyn Fn(&mut P, Ends) -> Ends) -> Ends {
        let mut r = from.clone();
        let mut new = from;
        while !new.is_empty() {
            let n = f(self, new);
            new = n.difference(&r).cloned().collect();
            r.extend(new.iter().cloned());
        }
        r
    }
    /// n (op n)*
    fn chain(&mut self, i: usize, n: N, ops: &'static [&'static str]) -> Ends {
        let a = self.nt(n, i);
        self.many(a, &|p, e| {
            let mut r = Ends::new();
            for o in ops {
                r.extend(p.lit(e.clone(), o));
            }
            p.then(r, n)
        })
    }
    fn nt(&mut self, n: N, i: usize) -> Ends {
        if i >= self.t.len() || self.steps > 400_000 {
            return Ends::new();
        }
        if let Some(e) = self.memo.get(&(n as u8, i)) {
            return e.clone();
        }
        self.steps += 1;
        let e = self.nt0(n, i);
        self.memo.insert((n as u8, i), e.clone());
        e
    }
    fn bind(&mut self, i: usize, word: &str, end: &str) -> Ends {
        // $x WORD Single (, $x WORD Single)* END Single
        let b = |p: &mut P, e: Ends| {
            let e = p.lit(e, "$");
            let e = p.eq(e);
            let e = p.lit(e, word);
            p.then(e, N::Single)
        };
        let e = b(self, one(i));
        let e = self.many(e, &|p, e| {
            let e = p.lit(e, ",");
            b(p, e)
        });
        let e = self.lit(e, end);
        self.then(e, N::Single)
    }
    fn suffix(&mut self, e: Ends, a: &str, b: &str, single: bool) -> Ends {
        self.opt(e, &|p, e| {
            let e = p.lit(e, a);
            let e = p.lit(e, b);
            if single {
                let e = p.eq(e);
                p.opt(e, &|p, e| p.lit(e, "?"))
            } else {
                p.then(e, N::SeqType)
            }
        })
    }
    fn list(&mut self, e: Ends, n: N) -> Ends {
        let e = self.then(e, n);
        self.many(e, &|p, e| {
            let e = p.lit(e, ",");
            p.then(e, n)
        })
    }
    fn args(&mut self, e: Ends) -> Ends {
        let arg = |p: &mut P, e: Ends| {
            let mut r = p.lit(e.clone(), "?");
            r.extend(p.then(e, N::Single));
            r
        };
        let e = self.lit(e, "(");
        let e = self.opt(e, &|p, e| {
            let e = arg(p, e);
            p.many(e, &|p, e| {
                let e = p.lit(e, ",");
                arg(p, e)
            })
        });
        self.lit(e, ")")
    }
    fn paren(&mut self, e: Ends) -> Ends {
        let e = self.lit(e, "(");
        let e = self.opt(e, &|p, e| p.then(e, N::Expr));
        self.lit(e, ")")
    }
    fn pred(&mut self, e: Ends) -> Ends {
        let e = self.lit(e, "[");
        let e = self.then(e, N::Expr);
        self.lit(e, "]")
    }
    fn lookup(&mut self, e: Ends) -> Ends {
        let e = self.lit(e, "?");
        let mut r = self.lit(e.clone(), "*");
        r.extend(e.iter().filter(|i| self.name(**i).is_some() || self.t.get(**i) == Some(&Tk::Int)).map(|i| i + 1));
        r.extend(self.paren(e));
        r
    }
    fn kind(&mut self, i: usize) -> Ends {
        let k = match self.name(i) {
            Some(k) => k.to_string(),
            None => return Ends::new(),
        };
        let e = self.lit(one(i + 1), "(");
        let e = match k.as_str() {
            "node" | "text" | "comment" | "namespace-node" => e,
            "processing-instruction" => {
                let mut r = e.clone();
                r.extend(e.iter().filter(|i| self.name(**i).is_some() || self.t.get(**i) == Some(&Tk::Str)).map(|i| i + 1));
                r
            }
            "element" | "attribute" => self.opt(e, &|p, e| {
                let mut r = p.lit(e.clone(), "*");
                r.extend(p.eq(e));
                p.opt(r, &|p, e| {
                    let e = p.lit(e, ",");
                    let e = p.eq(e);
                    p.opt(e, &|p, e| p.lit(e, "?"))
                })
            }),
            "document-node" => self.opt(e, &|p, e| {
                let mut r = Ends::new();
                for i in e {
                    if p.word(i, "element") || p.word(i, "schema-element") {
                        r.extend(p.kind(i));
                    }
                }
                r
            }),
            "schema-element" | "schema-attribute" => self.eq(e),
            _ => return Ends::new(),
        };
        self.lit(e, ")")
    }
    fn node_test(&mut self, e: Ends) -> Ends {
        let mut r = self.eq(e.clone());
        for i in e {
            r.extend(self.kind(i));
            if matches!(self.t.get(i), Some(Tk::Name(n)) if n == "Q{}*") {
                r.insert(i + 1);
            }
            if self.sym(i, "*") {
                r.insert(i + 1);
                if self.sym(i + 1, ":") && self.name(i + 2).is_some() {
                    r.insert(i + 3);
                }
            }
            if self.name(i).is_some() && self.sym(i + 1, ":") && self.sym(i + 2, "*") {
                r.insert(i + 3);
            }
        }
        r
    }
    fn nt0(&mut self, n: N, i: usize) -> Ends {
        match n {
            N::Expr => self.list(one(i), N::Single),
            N::Single => {
                let mut r = self.nt(N::Or, i);
                match self.name(i).unwrap_or("").to_string().as_str() {
                    "for" => r.extend(self.bind(i + 1, "in", "return")),
                    "let" => r.extend(self.bind(i + 1, ":=", "return")),
                    "some" | "every" => r.extend(self.bind(i + 1, "in", "satisfies")),
                    "if" => {
                        let e = self.lit(one(i + 1), "(");
                        let e = self.then(e, N::Expr);
                        let e = self.lit(e, ")");
                        let e = self.lit(e, "then");
                        let e = self.then(e, N::Single);
                        let e = self.lit(e, "else");
                        r.extend(self.then(e, N::Single));
                    }
                    _ => {}
                }
                r
            }
            N::Or => self.chain(i, N::And, &["or"]),
            N::And => self.chain(i, N::Cmp, &["and"]),
            N::Cmp => {
                let e = self.nt(N::Concat, i);
                self.opt(e, &|p, e| {
                    let mut r = Ends::new();
                    for o in ["=", "!=", "<", "<=", ">", ">=", "eq", "ne", "lt", "le", "gt", "ge", "is", "<<", ">>"] {
                        r.extend(p.lit(e.clone(), o));
                    }
                    p.then(r, N::Concat)
                })
            }
            N::Concat => self.chain(i, N::Range, &["||"]),
            N::Range => {
                let e = self.nt(N::Add, i);
                self.opt(e, &|p, e| {
                    let e = p.lit(e, "to");
                    p.then(e, N::Add)
                })
            }
            N::Add => self.chain(i, N::Mul, &["+", "-"]),
            N::Mul => self.chain(i, N::Union, &["*", "div", "idiv", "mod"]),
            N::Union => self.chain(i, N::Inter, &["union", "|"]),
            N::Inter => self.chain(i, N::Inst, &["intersect", "except"]),
            N::Inst => {
                let e = self.nt(N::Treat, i);
                self.suffix(e, "instance", "of", false)
            }
            N::Treat => {
                let e = self.nt(N::Castable, i);
                self.suffix(e, "treat", "as", false)
            }
            N::Castable => {
                let e = self.nt(N::Cast, i);
                self.suffix(e, "castable", "as", true)
            }
            N::Cast => {
                let e = self.nt(N::Arrow, i);
                self.suffix(e, "cast", "as", true)
            }
            N::Arrow => {
                let e = self.nt(N::Unary, i);
                self.many(e, &|p, e| {
                    let e = p.lit(e, "=>");
                    let mut r = p.eq(e.clone());
                    let v = p.lit(e.clone(), "$");
                    r.extend(p.eq(v));
                    r.extend(p.paren(e));
                    p.args(r)
                })
            }
            N::Unary => {
                let mut j = i;
                while self.sym(j, "+") || self.sym(j, "-") {
                    j += 1;
                }
                self.nt(N::Simple, j)
            }
            N::Simple => self.chain(i, N::Path, &["!"]),
            N::Path => {
                let mut r = self.nt(N::Rel, i);
                if self.sym(i, "/") {
                    r.insert(i + 1);
                    r.extend(self.nt(N::Rel, i + 1));
                }
                if self.sym(i, "//") {
                    r.extend(self.nt(N::Rel, i + 1));
                }
                r
            }
            N::Rel => self.chain(i, N::Step, &["/", "//"]),
            N::Step => {
                let p0 = self.nt(N::Primary, i);
                let mut r = self.many(p0, &|p, e| {
                    let mut r = p.pred(e.clone());
                    r.extend(p.args(e.clone()));
                    r.extend(p.lookup(e));
                    r
                });
                let mut s = self.node_test(one(i));
                if self.sym(i, "@") {
                    s.extend(self.node_test(one(i + 1)));
                }
                if self.sym(i, "..") {
                    s.insert(i + 1);
                }
                if self.name(i).map_or(false, |n| AXES.contains(&n)) && self.sym(i + 1, "::") {
                    s.extend(self.node_test(one(i + 2)));
                }
                r.extend(self.many(s, &|p, e| p.pred(e)));
                r
            }
            N::Primary => {
                let mut r = Ends::new();
                match self.t[i].clone() {
                    Tk::Int | Tk::Num | Tk::Str | Tk::S(".") => {
                        r.insert(i + 1);
                    }
                    Tk::S("$") => r.extend(self.eq(one(i + 1))),
                    Tk::S("(") => r.extend(self.paren(one(i))),
                    Tk::S("?") => r.extend(self.lookup(one(i))),
                    Tk::S("[") => {
                        let e = self.opt(one(i + 1), &|p, e| p.list(e, N::Single));
                        r.extend(self.lit(e, "]"));
                    }
                    Tk::Name(w) => {
                        for e in self.eq(one(i)) {
                            if e > i + 1 || !RESERVED.contains(&w.as_str()) {
                                r.extend(self.args(one(e)));
                                if self.sym(e, "#") && self.t.get(e + 1) == Some(&Tk::Int) {
                                    r.insert(e + 2);
                                }
                            }
                        }
                        match w.as_str() {
                            "function" => {
                                let param = |p: &mut P, e: Ends| {
                                    let e = p.lit(e, "$");
                                    let e = p.eq(e);
                                    p.opt(e, &|p, e| {
                                        let e = p.lit(e, "as");
                                        p.then(e, N::SeqType)
                                    })
                                };
                                let e = self.lit(one(i + 1), "(");
                                let e = self.opt(e, &|p, e| {
                                    let e = param(p, e);
                                    p.many(e, &|p, e| {
                                        let e = p.lit(e, ",");
                                        param(p, e)
                                    })
                                });
                                let e = self.lit(e, ")");
                                let e = self.opt(e, &|p, e| {
                                    let e = p.lit(e, "as");
                                    p.then(e, N::SeqType)
                                });
                                let e = self.lit(e, "{");
                                let e = self.opt(e, &|p, e| p.then(e, N::Expr));
                                r.extend(self.lit(e, "}"));
                            }
                            "map" => {
                                let pair = |p: &mut P, e: Ends| {
                                    let e = p.then(e, N::Single);
                                    let e = p.lit(e, ":");
                                    p.then(e, N::Single)
                                };
                                let e = self.lit(one(i + 1), "{");
                                let e = self.opt(e, &|p, e| {
                                    let e = pair(p, e);
                                    p.many(e, &|p, e| {
                                        let e = p.lit(e, ",");
                                        pair(p, e)
                                    })
                                });
                                r.extend(self.lit(e, "}"));
                            }
                            "array" => {
                                let e = self.lit(one(i + 1), "{");
                                let e = self.opt(e, &|p, e| p.then(e, N::Expr));
                                r.extend(self.lit(e, "}"));
                            }
                            _ => {}
                        }
                    }
                    _ => {}
                }
                r
            }
            N::SeqType => {
                let e = self.nt(N::ItemType, i);
                let mut r = e.clone();
                for o in ["?", "*", "+"] {
                    r.extend(self.lit(e.clone(), o));
                }
                if self.word(i, "empty-sequence") {
                    let e = self.lit(one(i + 1), "(");
                    r.extend(self.lit(e, ")"));
                }
                r
            }
            N::ItemType => {
                let mut r = self.eq(one(i));
                r.extend(self.kind(i));
                if self.sym(i, "(") {
                    let e = self.nt(N::ItemType, i + 1);
                    r.extend(self.lit(e, ")"));
                }
                let w = self.name(i).unwrap_or("").to_string();
                let e = self.lit(one(i + 1), "(");
                match w.as_str() {
                    "item" => r.extend(self.lit(e, ")")),
                    "function" | "map" | "array" => {
                        let s = self.lit(e.clone(), "*");
                        r.extend(self.lit(s, ")"));
                        match w.as_str() {
                            "function" => {
                                let e = self.opt(e, &|p, e| p.list(e, N::SeqType));
                                let e = self.lit(e, ")");
                                let e = self.lit(e, "as");
                                r.extend(self.then(e, N::SeqType));
                            }
                            "map" => {
                                let e = self.eq(e);
                                let e = self.lit(e, ",");
                                let e = self.then(e, N::SeqType);
                                r.extend(self.lit(e, ")"));
                            }
                            _ => {
                                let e = self.then(e, N::SeqType);
                                r.extend(self.lit(e, ")"));
                            }
                        }
                    }
                    _ => {}
                }
                r
            }
        }
    }
}

/// Whether the text can be an expression; `None` where this was given up.
pub fn accepts(t: &str) -> Option<bool> {
    let t = match tokens(t) {
        Some(t) => t,
        None => return Some(false),
    };
    let n = t.len();
    if n > 1500 {
        return None;
    }
    let mut p = P { t, memo: HashMap::new(), steps: 0 };
    let r = p.nt(N::Expr, 0).contains(&n);
    if p.steps > 400_000 {
        return None;
    }
    Some(r)
}
