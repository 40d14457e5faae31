//! Documents for the XPath properties: an arena in document order, the
//! library's node for each position, and small document generators.

use crate::core::*;
use crate::doc::*;
use amxml::dom::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Doc,
    Elem,
    Attr,
    Text,
    Comment,
    Pi,
    Decl,
}

#[derive(Clone, Debug)]
pub struct Nd {
    pub k: K,
    pub name: String,
    pub value: String,
    pub parent: Option<usize>,
    pub kids: Vec<usize>,
    pub attrs: Vec<usize>,
    /// index after the last node of the subtree
    pub end: usize,
}

pub struct XD {
    pub n: Vec<Nd>,
    pub ptr: Vec<NodePtr>,
}

impl XD {
    pub fn new(d: &Doc) -> XD {
        let mut x = XD { n: vec![], ptr: vec![] };
        x.push(K::Doc, "", "", None);
        x.add(0, d);
        x.n[0].end = x.n.len();
        x
    }

    fn push(&mut self, k: K, name: &str, value: &str, parent: Option<usize>) -> usize {
        self.n.push(Nd { k, name: name.into(), value: value.into(), parent, kids: vec![], attrs: vec![], end: 0 });
        let i = self.n.len() - 1;
        self.n[i].end = i + 1;
        i
    }

    fn add(&mut self, p: usize, kids: &[M]) {
        for m in kids {
            let i = match m {
                M::T(t) => self.push(K::Text, "", t, Some(p)),
                M::C(t) => self.push(K::Comment, "", t, Some(p)),
                M::P(n, t) => self.push(K::Pi, n, t, Some(p)),
                M::X(t) => self.push(K::Decl, "xml", t, Some(p)),
                M::E(n, attrs, kids) => {
                    let i = self.push(K::Elem, n, "", Some(p));
                    for (an, av) in attrs {
                        let a = self.push(K::Attr, an, av, Some(i));
                        self.n[i].attrs.push(a);
                    }
                    self.add(i, kids);
                    i
                }
            };
            self.n[i].end = self.n.len();
            self.n[p].kids.push(i);
        }
    }

    /// Find the library's node for every position.
    pub fn attach(&mut self, root: &NodePtr) -> Result<(), String> {
        let mut v = vec![];
        self.walk(0, root, &mut v)?;
        self.ptr = v;
        Ok(())
    }

    fn walk(&self, i: usize, p: &NodePtr, out: &mut Vec<NodePtr>) -> Result<(), String> {
        let exp = match self.n[i].k {
            K::Doc => NodeType::DocumentRoot,
            K::Elem => NodeType::Element,
            K::Attr => NodeType::Attribute,
            K::Text => NodeType::Text,
            K::Comment => NodeType::Comment,
            K::Pi => NodeType::Instruction,
            K::Decl => NodeType::XMLDecl,
        };
        if p.node_type() != exp {
            return Err(format!("the DOM has a {:?} node where {:?} is expected", p.node_type(), exp));
        }
        assert!(out.len() == i);
        out.push(p.rc_clone());
        let attrs = p.attributes();
        let kids = p.children();
        let nd = &self.n[i];
        if attrs.len() != nd.attrs.len() || kids.len() != nd.kids.len() {
            return Err("the DOM has another shape than the document".into());
        }
        for (j, q) in nd.attrs.iter().zip(attrs.iter()) {
            self.walk(*j, q, out)?;
        }
        for (j, q) in nd.kids.iter().zip(kids.iter()) {
            self.walk(*j, q, out)?;
        }
        Ok(())
    }

    pub fn find(&self, p: &NodePtr) -> Option<usize> {
        self.ptr.iter().position(|q| q == p)
    }

    pub fn string_value(&self, i: usize) -> String {
        match self.n[i].k {
            K::Doc | K::Elem => (i..self.n[i].end).filter(|j| self.n[*j].k == K::Text).map(|j| self.n[j].value.as_str()).collect(),
            _ => self.n[i].value.clone(),
        }
    }

    pub fn root_elem(&self) -> usize {
        self.n[0].kids.iter().copied().find(|i| self.n[*i].k == K::Elem).unwrap_or(0)
    }

    pub fn attr(&self, i: usize, name: &str) -> Option<&str> {
        self.n[i].attrs.iter().find(|a| self.n[**a].name == name).map(|a| self.n[*a].value.as_str())
    }

    pub fn is_ancestor(&self, a: usize, d: usize) -> bool {
        a < d && d < self.n[a].end
    }

    /// A short way to say which node this is.
    pub fn path(&self, i: usize) -> String {
        match self.n[i].parent {
            None => "/".into(),
            Some(p) => {
                let pre = if p == 0 { String::new() } else { self.path(p) };
                match self.n[i].k {
                    K::Attr => format!("{}/@{}", pre, self.n[i].name),
                    k => {
                        let pos = self.n[p].kids.iter().position(|j| *j == i).unwrap_or(0) + 1;
                        let what = match k {
                            K::Elem => self.n[i].name.clone(),
                            K::Text => "text()".into(),
                            K::Comment => "comment()".into(),
                            _ => "pi()".into(),
                        };
                        format!("{}/{}#{}", pre, what, pos)
                    }
                }
            }
        }
    }
}

/// Parse the canonical rendering of a model document and line both up.
pub fn open(d: &Doc) -> Result<(XD, NodePtr, String), String> {
    let xml = canonical(d);
    let mut x = XD::new(d);
    let root = match guard(|| new_document(&xml).map_err(|e| e.to_string()))? {
        Ok(r) => r,
        Err(e) => return Err(format!("well-formed document rejected: {}", e)),
    };
    x.attach(&root)?;
    Ok((x, root, xml))
}

pub const ENAMES: &[&str] = &["a", "b", "c", "p:a", "d", "p:e", "pq:a", "q:b"];
pub const ANAMES: &[&str] = &["x", "y", "p:x", "id", "pq:x", "p:y"];
pub const VALUES: &[&str] = &[
    "1", "2", "a", "b", "", "10", "2.5", "ab", "-3", " 7 ", "x y", "true", "0", "1e1", "B", "日本", "false", "é", "abc", "9", "NaN",
    "007", "1.0", "+4", "INF", "a b  c",
];

fn value(src: &mut Src) -> String {
    src.pick(VALUES).to_string()
}

pub fn xelem(src: &mut Src, depth: usize, budget: &mut usize) -> M {
    let name = ENAMES[src.weighted(&[12, 10, 6, 4, 2, 2, 2, 1])].to_string();
    let mut attrs: Vec<(String, String)> = vec![];
    while src.more(attrs.len(), 3, 2, 5) {
        let n = ANAMES[src.weighted(&[4, 4, 4, 4, 2, 1])].to_string();
        if attrs.iter().any(|(m, _)| *m == n) {
            break;
        }
        attrs.push((n, value(src)));
    }
    let mut kids = vec![];
    while *budget > 0 && src.more(kids.len(), 6, 7, 8) {
        *budget -= 1;
        let w: &[u64] = if depth > 0 { &[8, 3, 1, 1] } else { &[0, 3, 1, 1] };
        match src.weighted(w) {
            0 => {
                let e = xelem(src, depth - 1, budget);
                kids.push(e)
            }
            1 => {
                if !matches!(kids.last(), Some(M::T(_))) {
                    let t = value(src);
                    kids.push(M::T(if t.is_empty() { " ".into() } else { t }));
                }
            }
            2 => kids.push(M::C(value(src))),
            _ => kids.push(M::P(src.pick(&["t", "u", "a"]).to_string(), value(src).trim_start().to_string())),
        }
    }
    M::E(name, attrs, kids)
}

/// A document for XPath queries: few names, values that collide.
pub fn gen_xdoc(src: &mut Src, max: usize) -> Doc {
    let mut d = vec![];
    if src.chance(1, 6) {
        d.push(M::X("version=\"1.0\"".into()));
    }
    if src.chance(1, 8) {
        d.push(M::C("top".into()));
    }
    if src.chance(1, 8) {
        d.push(M::P("t".into(), "top".into()));
    }
    let mut budget = max;
    let depth = 1 + src.weighted(&[1, 3, 4, 3, 2]);
    d.push(xelem(src, depth, &mut budget));
    if src.chance(1, 8) {
        d.push(M::C("end".into()));
    }
    enlarge(src, &mut d);
    d
}
