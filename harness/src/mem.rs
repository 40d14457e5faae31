//! D12: nothing stays behind.  An allocator that counts, per thread, the bytes
//! that are allocated and not released.

use crate::core::*;
use crate::doc::*;
use crate::xdoc::*;
use crate::xprops4::{broken, dangerous, gexpr, mutate};
use amxml::dom::*;
use amxml::sax::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
}

fn add(n: isize) {
    let _ = LIVE.try_with(|l| l.set(l.get().wrapping_add(n)));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as isize);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as isize));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as isize - l.size() as isize);
        }
        q
    }
}

fn live() -> isize {
    LIVE.with(|l| l.get())
}

#[derive(Debug)]
enum Step {
    Eval(usize, String),
    Keep(usize, String),
    Nodeset(usize, String),
    First(usize, String),
    Each(usize, String),
    Append(usize, usize),
    Before(usize, usize),
    After(usize, usize),
    Delete(usize, usize),
    Replace(usize, usize),
    Set(usize, String, String),
    Unset(usize, String),
    Print(usize),
    Walk(usize),
    Parse(String),
    Sax(String),
    Forget(usize),
    ForgetAll,
}

struct Plan {
    docs: Vec<String>,
    steps: Vec<Step>,
}

/// the nodes of a tree, attributes included
fn nodes(n: &NodePtr, v: &mut Vec<NodePtr>) {
    v.push(n.rc_clone());
    v.extend(n.attributes());
    for c in n.children() {
        nodes(&c, v);
    }
}

fn run(p: &Plan) {
    let mut h: Vec<NodePtr> = vec![];
    let mut results = vec![];
    for d in &p.docs {
        if let Ok(d) = new_document(d) {
            nodes(&d, &mut h);
        }
    }
    for s in &p.steps {
        if let Step::Parse(t) = s {
            if let Ok(d) = new_document(t) {
                let _ = d.to_string();
            }
            continue;
        }
        if let Step::Sax(t) = s {
            if let Ok(mut d) = SaxDecoder::new(t) {
                for _ in 0..t.len() + 2 {
                    match d.raw_token() {
                        Ok(XmlToken::EOF) | Err(_) => break,
                        _ => {}
                    }
                }
            }
            continue;
        }
        if let Step::ForgetAll = s {
            h.truncate(1);
            continue;
        }
        if h.is_empty() {
            continue;
        }
        let at = |i: usize| h[i % h.len()].rc_clone();
        match s {
            Step::Eval(i, x) => {
                if let Ok(r) = at(*i).eval_xpath(x) {
                    let _ = r.to_string();
                }
            }
            Step::Keep(i, x) => {
                if let Ok(r) = at(*i).eval_xpath(x) {
                    results.push(r);
                }
            }
            Step::Nodeset(i, x) => {
                let _ = at(*i).get_nodeset(x);
            }
            Step::First(i, x) => {
                let _ = at(*i).get_first_node(x);
            }
            Step::Each(i, x) => {
                let _ = at(*i).each_node(x, |n| {
                    let _ = n.value();
                });
            }
            Step::Append(i, j) => at(*i).append_child(&at(*j)),
            Step::Before(i, j) => at(*i).insert_as_previous_sibling(&at(*j)),
            Step::After(i, j) => at(*i).insert_as_next_sibling(&at(*j)),
            Step::Delete(i, j) => at(*i).delete_child(&at(*j)),
            Step::Replace(i, j) => at(*i).replace_with(&at(*j)),
            Step::Set(i, n, v) => at(*i).set_attribute(n, v),
            Step::Unset(i, n) => at(*i).delete_attribute(n),
            Step::Print(i) => {
                let n = at(*i);
                let _ = (n.to_string(), n.to_pretty_string(), n.inner_xml(), format!("{:?}", n));
            }
            Step::Walk(i) => {
                let n = at(*i);
                let _ = (n.root(), n.parent(), n.first_child(), n.nth_child(1), n.document_order(), n.namespace_uri(), n.name());
            }
            Step::Forget(i) => {
                let k = h.len();
                h.swap_remove(i % k);
            }
            _ => {}
        }
    }
}

/// Appending or inserting a document node is not decided (D08).
fn harmless(p: &Plan) -> bool {
    let mut docs = vec![];
    let mut n = 0;
    for d in &p.docs {
        if let Ok(d) = new_document(d) {
            docs.push(n);
            let mut v = vec![];
            nodes(&d, &mut v);
            n += v.len();
        }
    }
    if n == 0 {
        return true;
    }
    let mut len = n;
    // the positions of the documents, as the handles are forgotten
    let mut h: Vec<bool> = (0..n).map(|i| docs.contains(&i)).collect();
    for s in &p.steps {
        if len == 0 {
            break;
        }
        match s {
            Step::Append(_, j) | Step::Before(_, j) | Step::After(_, j) | Step::Replace(_, j) => {
                if h[j % len] {
                    return false;
                }
            }
            Step::Forget(i) => {
                h.swap_remove(i % len);
                len -= 1;
            }
            Step::ForgetAll => {
                h.truncate(1);
                len = h.len();
            }
            _ => {}
        }
    }
    true
}

pub fn d12(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let m = if src.chance(1, 8) { 40 } else { 8 };
    let doc = gen_xdoc(src, m);
    let xd = XD::new(&doc);
    let mut p = Plan { docs: vec![canonical(&doc)], steps: vec![] };
    if src.flip() {
        p.docs.push(canonical(&gen_xdoc(src, 5)));
    }
    let big = 60;
    let mut edits = 0;
    let mut queries = 0;
    let mut n = 0;
    while src.more(n, 14, 7, 8) {
        n += 1;
        let i = src.us(big);
        let j = src.us(big);
        let s = match src.weighted(&[12, 12, 3, 2, 2, 1, 1]) {
            0 => {
                let mut x = gexpr(src, &xd);
                match src.us(8) {
                    0 => x = broken(src, &x),
                    1 => x = mutate(src, &x),
                    _ => {}
                }
                if dangerous(&x) {
                    continue;
                }
                queries += 1;
                match src.us(6) {
                    0 => Step::Nodeset(i, x),
                    1 => Step::First(i, x),
                    2 => Step::Each(i, x),
                    3 => Step::Keep(i, x),
                    _ => Step::Eval(i, x),
                }
            }
            1 => {
                edits += 1;
                match src.us(8) {
                    0 | 1 => Step::Append(i, j),
                    2 => Step::Before(i, j),
                    3 => Step::After(i, j),
                    4 => Step::Delete(i, j),
                    5 => Step::Replace(i, j),
                    6 => Step::Set(i, gen_name(src), gen_text(src, 0, 5)),
                    _ => Step::Unset(i, src.pick(&["id", "x", "y", "a"]).to_string()),
                }
            }
            2 => Step::Print(i),
            3 => Step::Walk(i),
            4 => {
                let mut r = Render::new(true);
                let d = gen_xdoc(src, 6);
                r.doc(src, &d);
                let mut t = r.out;
                if src.flip() {
                    t = crate::dprops::mutated(src, &t);
                }
                if src.flip() {
                    Step::Parse(t)
                } else {
                    Step::Sax(t)
                }
            }
            5 => Step::Forget(i),
            _ => Step::ForgetAll,
        };
        p.steps.push(s);
    }
    cx.case(format!("{:?}, then {:?}", p.docs, p.steps));
    if !harmless(&p) {
        cx.label("moves a document node, not run");
        return Ok(());
    }
    cx.nontrivial = queries >= 2 && edits >= 1;
    // whatever is set up once and for all is set up by the first run
    guard(|| run(&p))?;
    let before = live();
    guard(|| run(&p))?;
    let after = live();
    cx.cmp();
    cx.label_if(edits > 0, "with edits");
    cx.label_if(queries > 0, "with queries");
    if after != before {
        return Err(format!("{} bytes are still allocated after the last handle is gone", after - before));
    }
    Ok(())
}
