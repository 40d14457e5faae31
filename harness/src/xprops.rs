//! The XPath properties.

use crate::core::*;
use crate::xast::*;
use crate::xdoc::*;
use crate::xgen::*;
use crate::xref::*;
use amxml::dom::*;
use amxml::xpath::*;

// ------------------------------------------------------------------ oracle

/// How the library shows an item.
pub fn show(d: &XD, i: &It) -> String {
    match i {
        It::N(n) => format!("{}", d.ptr[*n]),
        It::S(s) | It::U(s) => format!("\"{}\"", s),
        It::I(i) => i.to_string(),
        It::D(f) => {
            let s = format!("{}", f);
            if s.contains('.') {
                s
            } else {
                s + ".0"
            }
        }
        It::F(f) => {
            if f.is_nan() {
                "NaN".into()
            } else if f.is_infinite() {
                if *f > 0.0 { "+Infinity".into() } else { "-Infinity".into() }
            } else {
                format!("{:e}", f)
            }
        }
        It::B(v) => v.to_string(),
        It::M(m) => {
            let v: Vec<String> = m.iter().map(|(k, v)| format!("{} => {}", show(d, k), show_seq(d, v))).collect();
            format!("{{{}}}", v.join(", "))
        }
        It::A(a) => {
            let v: Vec<String> = a.iter().map(|v| show_seq(d, v)).collect();
            format!("[{}]", v.join(", "))
        }
        It::Fn(_) => "(function)".into(),
    }
}

pub fn show_seq(d: &XD, s: &Seq) -> String {
    if s.len() == 1 {
        return show(d, &s[0]);
    }
    let v: Vec<String> = s.iter().map(|i| show(d, i)).collect();
    format!("({})", v.join(", "))
}

/// Items with nodes told apart.
pub fn want(d: &XD, s: &Seq) -> Vec<String> {
    s.iter()
        .map(|i| match i {
            It::N(n) => format!("node {}", d.path(*n)),
            It::Fn(_) => "function".into(),
            i => show(d, i),
        })
        .collect()
}

pub fn got(d: &XD, s: &Sequence, want: &Seq) -> Vec<String> {
    (0..s.len())
        .map(|i| {
            let it = s.get_item(i);
            match it.as_nodeptr() {
                Some(p) => match d.find(&p) {
                    Some(n) => format!("node {}", d.path(n)),
                    None => "node outside the document".into(),
                },
                None => match want.get(i) {
                    // functions have no agreed form
                    Some(It::Fn(_)) => "function".into(),
                    _ => it.to_string(),
                },
            }
        })
        .collect()
}

/// two literals with the same numeric value
pub fn same_number(a: &E, b: &E) -> bool {
    let v = |e: &E| match e {
        E::Int(i) => Some(*i as f64),
        E::Dec(s) | E::Dbl(s) => s.parse().ok(),
        _ => None,
    };
    match (v(a), v(b)) {
        (Some(a), Some(b)) => a == b,
        _ => false,
    }
}

pub fn eval_lib(p: &NodePtr, x: &str) -> Result<Result<Sequence, String>, String> {
    guard(|| p.eval_xpath(x).map_err(|e| e.to_string()))
}

fn has_fn(s: &Seq) -> bool {
    s.iter().any(|i| match i {
        It::Fn(_) => true,
        It::M(m) => m.iter().any(|(_, v)| has_fn(v)),
        It::A(a) => a.iter().any(has_fn),
        _ => false,
    })
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Out {
    Ok,
    Empty,
    Err,
    Skip,
    Huge,
}

/// Evaluate with both and compare.
pub fn check(cx: &mut Cx, d: &XD, ctx: usize, e: &E, text: &str) -> Result<Out, String> {
    let ri = Interp::new(d);
    let mut r = ri.run(ctx, e);
    if ri.steps.get() > MAX_STEPS {
        cx.label("too large, not run");
        return Ok(Out::Huge);
    }
    let l = eval_lib(&d.ptr[ctx], text).map_err(|m| format!("{} from {}: {}", text, d.path(ctx), m))?;
    if ri.used_space.get() {
        let mut ri = Interp::new(d);
        ri.pinned_space = true;
        let r2 = ri.run(ctx, e);
        if agree(d, &r2, &l).is_ok() {
            r = r2;
        }
    }
    cx.cmp();
    let out = match &r {
        Ok(v) if v.is_empty() => Out::Empty,
        Ok(_) => Out::Ok,
        Err(Er::E(_)) => Out::Err,
        Err(Er::Unspec(_)) => Out::Skip,
    };
    cx.label(match out {
        Out::Ok => "result: items",
        Out::Empty => "result: empty",
        Out::Err => "result: error",
        Out::Skip | Out::Huge => "result: not specified",
    });
    if let Err(Er::Unspec(w)) = &r {
        cx.label(w);
    }
    match agree(d, &r, &l) {
        Ok(()) => Ok(out),
        Err(m) => Err(format!("{} from {}: {}", text, d.path(ctx), m)),
    }
}

fn agree(d: &XD, r: &R, l: &Result<Sequence, String>) -> Result<(), String> {
    match (r, l) {
        (Err(Er::Unspec(_)), _) => Ok(()),
        (Err(Er::E(_)), Err(_)) => Ok(()),
        (Err(Er::E(m)), Ok(s)) => Err(format!("gives {} but must be an error ({})", s.to_string(), m)),
        (Ok(v), Err(m)) => Err(format!("gives the error {:?} but must be {:?}", m, want(d, v))),
        (Ok(v), Ok(s)) => {
            let g = got(d, s, v);
            let w = want(d, v);
            if v.iter().any(|i| !matches!(i, It::Fn(_)) && has_fn(&vec![i.clone()])) {
                return if g.len() == w.len() { Ok(()) } else { Err(format!("gives {} items but must give {}", g.len(), w.len())) };
            }
            if g == w {
                Ok(())
            } else {
                Err(format!("gives {:?} but must be {:?}", g, w))
            }
        }
    }
}

/// A document, and expressions over it.
pub struct Case {
    pub d: XD,
    pub root: NodePtr,
}

pub fn start(src: &mut Src, cx: &mut Cx, max: usize) -> Result<Case, String> {
    let doc = gen_xdoc(src, max);
    let (d, root, xml) = open(&doc)?;
    cx.case(xml);
    Ok(Case { d, root })
}

pub fn ctx_node(src: &mut Src, d: &XD) -> usize {
    match src.weighted(&[2, 2, 4, 2]) {
        0 => 0,
        1 => d.root_elem(),
        2 => {
            let v: Vec<usize> = (0..d.n.len()).filter(|i| d.n[*i].k == K::Elem).collect();
            if v.is_empty() {
                0
            } else {
                *src.pick(&v)
            }
        }
        _ => src.us(d.n.len()),
    }
}

// ------------------------------------------------------------------ axes

pub fn x01(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let c = start(src, cx, 24)?;
    let mut full = 0;
    for _ in 0..10 {
        let ctx = if src.flip() { ctx_node(src, &c.d) } else { src.us(c.d.n.len()) };
        let e = {
            let mut g = G::new(src, &c.d);
            let mut ax = AXES[g.s.us(AXES.len())];
            if ax == Axis::Attribute && c.d.n[ctx].attrs.is_empty() {
                ax = Axis::Child;
            }
            let t = g.test(ax);
            match g.s.weighted(&[12, 1, 1]) {
                0 => step(ax, t),
                1 => E::Root,
                _ => E::Ctx,
            }
        };
        let text = print(src, &e);
        cx.add_case(&format!(" | {} from {}", text, c.d.path(ctx)));
        let o = check(cx, &c.d, ctx, &e, &text)?;
        if let E::Step(ax, ..) = e {
            if o == Out::Ok {
                full += 1;
                cx.label(ax.name());
            }
        }
    }
    cx.nontrivial = full >= 3;
    let _ = &c.root;
    Ok(())
}

// ------------------------------------------------------------------ predicates

pub fn x02(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let c = start(src, cx, 24)?;
    let mut full = 0;
    for _ in 0..6 {
        let ctx = ctx_node(src, &c.d);
        let e = {
            let mut g = G::new(src, &c.d);
            match g.s.weighted(&[5, 3, 2, 2, 3]) {
                4 => {
                    // what has a focus of its own between two looks at this one
                    let base = if g.s.chance(2, 3) { g.path(0) } else { E::Seq((1..=g.s.range(1, 4)).map(int).collect()) };
                    g.pos = true;
                    let inner = g.refocus(1);
                    let own = |g: &mut G| match g.s.us(4) {
                        0 => call("position", vec![]),
                        1 => call("last", vec![]),
                        2 => bin("-", call("last", vec![]), call("position", vec![])),
                        _ => call("count", vec![E::Ctx]),
                    };
                    let x = own(&mut g);
                    let y = own(&mut g);
                    let inner = if g.s.flip() { inner } else { call("count", vec![inner]) };
                    match g.s.us(3) {
                        0 => bin("!", E::Seq(vec![base]), E::Seq(vec![x, inner, y])),
                        1 => E::Filter(b(E::Seq(vec![base])), b(bin("=", E::Seq(vec![inner, x]), y))),
                        _ => E::Slash(b(E::Seq(vec![base])), b(E::Seq(vec![x, inner, y]))),
                    }
                }
                0 => {
                    let base = if g.s.flip() { Some(g.path(0)) } else { None };
                    let ax = g.axis();
                    let t = if g.s.flip() { Test::Star } else { g.test(ax) };
                    let mut preds = vec![g.pred(2)];
                    while g.s.more(preds.len(), 3, 1, 3) {
                        preds.push(g.pred(1));
                    }
                    let s = E::Step(ax, t, preds);
                    match base {
                        Some(bs) if bs != E::Root => E::Slash(b(bs), b(s)),
                        _ => s,
                    }
                }
                1 => {
                    let l = g.path(1);
                    let p = g.pred(2);
                    let mut e = E::Filter(b(E::Seq(vec![l])), b(p));
                    while g.s.chance(1, 3) {
                        let p = g.pred(1);
                        e = E::Filter(b(e), b(p));
                    }
                    e
                }
                2 => {
                    // a filter on atomic values
                    let l = g.atoms(1);
                    let p = atom_pred(&mut g);
                    E::Filter(b(E::Seq(vec![l])), b(p))
                }
                _ => g.path(3),
            }
        };
        let text = print(src, &e);
        cx.add_case(&format!(" | {} from {}", text, c.d.path(ctx)));
        if check(cx, &c.d, ctx, &e, &text)? == Out::Ok {
            full += 1;
        }
    }
    cx.nontrivial = full >= 2;
    Ok(())
}

fn atom_pred(g: &mut G) -> E {
    match g.s.weighted(&[4, 3, 3, 1, 1]) {
        0 => int(g.s.range(0, 5)),
        1 => {
            let op = *g.s.pick(OPS_CMP);
            match g.s.us(3) {
                0 => bin(op, call("position", vec![]), int(g.s.range(1, 4))),
                1 => bin(op, call("last", vec![]), int(g.s.range(1, 4))),
                _ => call("last", vec![]),
            }
        }
        2 => {
            let op = *g.s.pick(OPS_CMP);
            let r = g.atom(0);
            bin(op, E::Ctx, r)
        }
        3 => E::Ctx,
        _ => call("not", vec![bin("=", E::Ctx, int(g.s.range(0, 5)))]),
    }
}

// ------------------------------------------------------------------ paths

pub fn x03(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let c = start(src, cx, 24)?;
    let mut full = 0;
    for _ in 0..6 {
        let ctx = ctx_node(src, &c.d);
        let e = {
            let mut g = G::new(src, &c.d);
            match g.s.weighted(&[4, 4, 2, 1, 1]) {
                0 => g.path(1),
                1 => {
                    let mut e = if g.s.flip() { g.path(0) } else { g.nodes(1) };
                    while {
                        let op = *g.s.pick(&["union", "|", "intersect", "except"]);
                        let r = if g.s.flip() { g.path(0) } else { g.nodes(1) };
                        e = bin(op, e, r);
                        g.s.chance(1, 3)
                    } {}
                    if g.s.chance(1, 4) {
                        let s = g.step(0);
                        e = E::Slash(b(E::Seq(vec![e])), b(s));
                    }
                    e
                }
                2 => {
                    let op = *g.s.pick(&["is", "<<", ">>"]);
                    let mut one = || {
                        let p = g.path(0);
                        if g.s.chance(1, 8) {
                            return p;
                        }
                        let i = int(g.s.range(1, 3));
                        E::Filter(b(E::Seq(vec![p])), b(i))
                    };
                    let l = one();
                    let r = one();
                    bin(op, l, r)
                }
                3 => {
                    // a last step that gives atomic values
                    let p = g.path(0);
                    let p = if p == E::Root { E::Ctx } else { p };
                    let f = match g.s.us(4) {
                        0 => call("name", vec![]),
                        1 => call("position", vec![]),
                        2 => call("string", vec![]),
                        _ => call("last", vec![]),
                    };
                    if g.s.flip() {
                        E::Slash(b(p), b(f))
                    } else {
                        bin("!", p, f)
                    }
                }
                _ => {
                    let l = g.nodes(1);
                    let r = g.path(0);
                    if g.s.flip() {
                        bin("!", l, r)
                    } else {
                        E::Seq(vec![l, r])
                    }
                }
            }
        };
        let text = print(src, &e);
        cx.add_case(&format!(" | {} from {}", text, c.d.path(ctx)));
        if check(cx, &c.d, ctx, &e, &text)? == Out::Ok {
            full += 1;
        }
    }
    cx.nontrivial = full >= 2;
    Ok(())
}
