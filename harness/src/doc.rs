//! Model documents: generation, rendering with surface variation, comparison
//! with the DOM the library builds.

use crate::chars::*;
use crate::core::*;
use amxml::dom::*;

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    E(String, Vec<(String, String)>, Vec<M>),
    T(String),
    C(String),
    P(String, String),
    X(String),
}

pub type Doc = Vec<M>;

/// Expected SAX token.
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Start(String, Vec<(String, String)>),
    End(String),
    Chars(String),
    Pi(String, String),
    Comment(String),
    Directive(String),
    Eof,
}

pub const NAMES: &[&str] = &[
    "a", "b", "c", "item", "sub-item", "x.y", "_u", "段落", "é1", "ns:a", "p:b", "B", "a1", "属性", "Ab_c-d.9",
];

fn from_table(src: &mut Src, t: &[(u32, u32)]) -> char {
    let (lo, hi) = t[src.us(t.len())];
    // range ends are where an off-by-one shows
    let v = match src.below(3) {
        0 => lo,
        1 => hi,
        _ => lo + src.below((hi - lo + 1) as u64) as u32,
    };
    char::from_u32(v).unwrap_or('a')
}

pub fn gen_name(src: &mut Src) -> String {
    if !src.chance(1, 4) {
        return NAMES[src.us(NAMES.len())].to_string();
    }
    gen_ncname(src)
}

/// a name without a colon, of the characters XML 1.0 allowed up to its fourth edition
pub fn gen_ncname(src: &mut Src) -> String {
    let mut s = String::new();
    s.push(match src.below(8) {
        0 => '_',
        1..=3 => (b'a' + src.below(26) as u8) as char,
        4 => (b'A' + src.below(26) as u8) as char,
        _ => from_table(src, LETTER),
    });
    let mut n = 0;
    while src.more(n, 6, 1, 2) {
        n += 1;
        s.push(match src.below(10) {
            0 => '-',
            1 => '.',
            2 => '_',
            3 => (b'0' + src.below(10) as u8) as char,
            4 => (b'a' + src.below(26) as u8) as char,
            5 => (b'A' + src.below(26) as u8) as char,
            6 => from_table(src, LETTER),
            7 => from_table(src, COMBINING),
            8 => from_table(src, DIGIT),
            _ => from_table(src, EXTENDER),
        });
    }
    s
}

/// NameStartChar of XML 1.0 (fifth edition), without the colon
const START5: &[(u32, u32)] = &[
    (0x41, 0x5A), (0x5F, 0x5F), (0x61, 0x7A), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D), (0x37F, 0x1FFF), (0x200C, 0x200D),
    (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF),
];
/// what NameChar adds to it
const PART5: &[(u32, u32)] = &[(0x2D, 0x2E), (0x30, 0x39), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040)];
/// next to these ranges, and in none of them (nor the start of any token)
const NONAME5: &[u32] = &[
    0xD7, 0xF7, 0x37E, 0x2000, 0x200B, 0x200E, 0x203E, 0x2041, 0x206F, 0x2190, 0x2BFF, 0x2FF0, 0x3000, 0xE000, 0xF8FF, 0xFDD0, 0xFDEF, 0xF0000,
    0x10FFFD, 0xB6, 0xB8, 0xBF, 0x60, 0x5E, 0x7F, 0x25,
];

/// a name of the characters of the fifth edition, which XPath names are made of
pub fn gen_ncname5(src: &mut Src) -> String {
    let mut s = String::new();
    s.push(from_table(src, START5));
    let mut n = 0;
    while src.more(n, 4, 1, 2) {
        n += 1;
        let t = if src.flip() { START5 } else { PART5 };
        s.push(from_table(src, t));
    }
    s
}

/// something that is not a name, but almost
pub fn gen_nonname(src: &mut Src) -> String {
    let bad = char::from_u32(*src.pick(NONAME5)).unwrap();
    match src.us(3) {
        0 => format!("{}{}", bad, gen_ncname5(src)),
        1 => format!("{}{}", gen_ncname5(src), bad),
        _ => format!("{}{}", from_table(src, &PART5[2..]), gen_ncname5(src)),
    }
}

const TEXT_CHARS: &[char] = &[
    'a', 'b', '1', ' ', '\n', '<', '&', '>', '"', '\'', ';', '#', '日', '本', 'é', '\t', '😀', ']', '-', '?', '!', '/', '=',
    'x', 'l', 't', 'g', '3', '8', '\u{10FFFD}', '\u{FFFD}', '\u{0301}', '\r', '(', '{', '$', '\\', '%',
];

/// any character of XML, with the edges of its encodings and odd kinds of white space
pub fn any_char(s: &mut Src) -> char {
    let c = match s.us(7) {
        0 => *s.pick(&[0x7F, 0x80, 0x85, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0x10000, 0x103FF, 0x10400, 0x1FFFF, 0x20000, 0x10FFFF, 0xFEFF]),
        1 => *s.pick(&[0xA0, 0x1680, 0x2003, 0x2028, 0x202F, 0x3000, 0x200B, 0x180E, 0xD]),
        2 => s.range(0x20, 0x24F) as u32,
        3 => s.range(0x370, 0x1FFF) as u32,
        4 => s.range(0x2000, 0xD7FF) as u32,
        5 => s.range(0x10000, 0x10FFFD) as u32,
        _ => *s.pick(&[0x130, 0x131, 0x149, 0x1F0, 0x3A3, 0x3C2, 0x587, 0x1E9E, 0x1FB3, 0xFB01, 0x212A, 0x10428, 0x1C5]),
    };
    char::from_u32(c).unwrap()
}

pub fn gen_text(src: &mut Src, min: usize, max: usize) -> String {
    const FRAG: &[&str] = &[
        "&lt;", "&amp;", "&#60;", "&#x26;", "]]>", "-->", "<!--", "&amp;lt;", "]]", "?>", "<a>", "</a>", "&", "&#", "&#x", "&x;", "amp;",
        "lt;", "#60;", "&quot;", "&apos;", "&gt;", "<![CDATA[",
    ];
    let mut s = String::new();
    let mut n = 0;
    while n < min || src.more(n, max, 4, 5) {
        n += 1;
        match src.below(8) {
            0..=2 => s.push(*src.pick(&['a', 'b', 'c', 'd', ' ', '1', '2'])),
            3..=5 => s.push(*src.pick(TEXT_CHARS)),
            6 => s.push_str(src.pick(FRAG)),
            _ => {
                let v = match src.below(8) {
                    0 => src.range(0x20, 0x7E),
                    1 | 2 => src.range(0xA0, 0xD7FF),
                    3 => src.range(0xE000, 0xFFFD),
                    4 => src.range(0x10000, 0x10FFFF),
                    _ => any_char(src) as i64,
                };
                if let Some(c) = char::from_u32(v as u32) {
                    s.push(c)
                }
            }
        }
    }
    s
}

fn gen_comment(src: &mut Src) -> String {
    let t = gen_text(src, 0, 8).replace('\r', " ");
    // a comment may contain neither "--" nor a final '-'
    let mut s = String::new();
    for c in t.chars() {
        if c == '-' && s.ends_with('-') {
            s.push(' ');
        }
        s.push(c);
    }
    if s.ends_with('-') {
        s.push(' ');
    }
    s
}

fn gen_pi(src: &mut Src) -> M {
    let mut name = gen_name(src);
    if name.to_lowercase() == "xml" {
        name.push('1');
    }
    let mut d = gen_text(src, 0, 8).replace('\r', " ").replace("?>", "? >");
    d = d.trim_start_matches(|c| c == ' ' || c == '\n' || c == '\t').to_string();
    M::P(name, d)
}

fn gen_attrs(src: &mut Src) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    while src.more(v.len(), 4, 2, 5) {
        let n = gen_name(src);
        if v.iter().any(|(m, _)| *m == n) {
            break;
        }
        let val = gen_text(src, 0, 6);
        v.push((n, val));
    }
    v
}

pub fn gen_elem(src: &mut Src, depth: usize, budget: &mut usize) -> M {
    let name = gen_name(src);
    let attrs = gen_attrs(src);
    let mut kids = vec![];
    while *budget > 0 && src.more(kids.len(), 8, 3, 4) {
        *budget -= 1;
        let w: &[u64] = if depth > 0 { &[5, 4, 1, 1] } else { &[0, 4, 1, 1] };
        match src.weighted(w) {
            0 => {
                let e = gen_elem(src, depth - 1, budget);
                kids.push(e)
            }
            1 => {
                if !matches!(kids.last(), Some(M::T(_))) {
                    let t = if src.chance(1, 4) { ws(src, 1) } else { gen_text(src, 1, 10) };
                    kids.push(M::T(t));
                }
            }
            2 => kids.push(M::C(gen_comment(src))),
            _ => {
                let p = gen_pi(src);
                kids.push(p)
            }
        }
    }
    M::E(name, attrs, kids)
}

pub fn ws(src: &mut Src, min: usize) -> String {
    let mut s = String::new();
    while s.len() < min || src.more(s.len(), 4, 1, 4) {
        s.push(*src.pick(&[' ', '\n', '\t']));
    }
    s
}

/// A complete document: declaration, misc, root element, misc.
pub fn gen_doc(src: &mut Src) -> Doc {
    let mut d = vec![];
    if src.chance(1, 3) {
        d.push(M::X(
            src.pick(&["version=\"1.0\"", "version='1.0' encoding=\"UTF-8\"", "version=\"1.0\" standalone='yes'", "version=\"1.0\" "])
                .to_string(),
        ));
    }
    misc(src, &mut d);
    let mut budget = *src.pick(&[6usize, 14, 40]);
    let depth = src.us(8);
    d.push(gen_elem(src, depth, &mut budget));
    misc(src, &mut d);
    enlarge(src, &mut d);
    d
}

/// the element with this number, in document order
fn nth_elem<'a>(d: &'a mut [M], n: &mut usize) -> Option<&'a mut M> {
    for m in d.iter_mut() {
        if let M::E(..) = m {
            if *n == 0 {
                return Some(m);
            }
            *n -= 1;
            if let M::E(_, _, k) = m {
                if let Some(r) = nth_elem(k, n) {
                    return Some(r);
                }
            }
        }
    }
    None
}

/// Once in a while: a document with many children, attributes or levels, or
/// with a long text somewhere.
pub fn enlarge(src: &mut Src, d: &mut Doc) {
    if !src.chance(1, 60) {
        return;
    }
    let mut k = src.us(elems(d).max(1));
    // beyond 255 nodes, children, attributes, levels or characters
    let huge = src.chance(1, 8);
    let room = (if huge { 600usize } else { 200 }).saturating_sub(size(d));
    if let Some(m) = nth_elem(d, &mut k) {
        let how = src.us(4);
        let n = if huge { 258 + src.us(20) } else { 6 + src.us(50) };
        match (how, m) {
            (0, M::E(name, _, kids)) => {
                let seed: Vec<M> = kids.clone();
                let per = size(&seed) + 1;
                let times = if huge { n } else { n.min(room / per) };
                for i in 0..times {
                    kids.push(M::E(name.clone(), vec![], vec![M::T(format!("{}", i + 1))]));
                    if i < if huge { 2 } else { 20 } {
                        kids.extend(seed.clone());
                    }
                }
            }
            (1, m) => {
                if let M::E(name, _, _) = m.clone() {
                    for _ in 0..n.min(room) {
                        let inner = std::mem::replace(m, M::T(String::new()));
                        *m = M::E(name.clone(), vec![], vec![inner]);
                    }
                }
            }
            (2, M::E(_, attrs, _)) => {
                for i in 0..n {
                    let a = format!("k{}", (i * 7) % 311);
                    if attrs.iter().all(|x| x.0 != a) {
                        attrs.push((a, format!("{}", i)));
                    }
                }
            }
            (_, M::E(_, _, kids)) => {
                for m in kids.iter_mut() {
                    match m {
                        M::T(t) if !t.is_empty() => *t = t.repeat(n),
                        M::C(t) if !t.starts_with('-') && !t.ends_with('-') => *t = t.repeat(n),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
}

fn misc(src: &mut Src, d: &mut Doc) {
    let mut n = 0;
    let k = if src.chance(1, 120) { 12 + src.us(20) } else { 0 };
    while n < k || src.more(n, 3, 1, 4) {
        n += 1;
        match src.below(3) {
            0 => {
                if !matches!(d.last(), Some(M::T(_))) {
                    d.push(M::T(ws(src, 1)))
                }
            }
            1 => d.push(M::C(gen_comment(src))),
            _ => {
                let p = gen_pi(src);
                d.push(p)
            }
        }
    }
}

// ------------------------------------------------------------------ rendering

pub struct Render {
    pub out: String,
    pub toks: Vec<Tok>,
    pub cdata: bool,
    pub charref: bool,
    pub crlf: bool,
    pub standalone: bool,
    pub directive: bool,
    /// surface variation on
    pub vary: bool,
}

impl Render {
    pub fn new(vary: bool) -> Render {
        Render { out: String::new(), toks: vec![], cdata: false, charref: false, crlf: false, standalone: false, directive: false, vary }
    }

    fn ws(&mut self, src: &mut Src, min: usize) {
        if !self.vary {
            if min > 0 {
                self.out.push(' ');
            }
            return;
        }
        let w = if min == 0 && !src.chance(1, 4) { String::new() } else { ws(src, min) };
        for c in w.chars() {
            if c == '\n' && src.chance(1, 4) {
                self.out.push_str("\r\n");
            } else {
                self.out.push(c);
            }
        }
    }

    fn ch(&mut self, src: &mut Src, c: char, quote: Option<char>) {
        if !self.vary {
            // the library's own canonical escaping
            match c {
                '&' => self.out.push_str("&amp;"),
                '<' => self.out.push_str("&lt;"),
                '>' => self.out.push_str("&gt;"),
                '"' => self.out.push_str("&quot;"),
                '\'' => self.out.push_str("&apos;"),
                '\r' => self.out.push_str("&#13;"),
                c => self.out.push(c),
            }
            return;
        }
        let must = c == '<' || c == '&' || quote == Some(c) || (quote.is_some() && (c == '\n' || c == '\t')) || c == '\r'
            // "]]>" may not appear literally in character data
            || (quote.is_none() && c == '>' && self.out.ends_with(']'));
        let named = match c {
            '<' => Some("&lt;"),
            '&' => Some("&amp;"),
            '>' => Some("&gt;"),
            '"' => Some("&quot;"),
            '\'' => Some("&apos;"),
            _ => None,
        };
        let how = if must {
            if named.is_some() {
                1 + src.weighted(&[6, 1, 1, 1])
            } else {
                2 + src.us(3)
            }
        } else {
            src.weighted(&[30, 2, 1, 1, 1])
        };
        match (how, named) {
            (1, Some(n)) => self.out.push_str(n),
            (2, _) => {
                self.charref = true;
                self.out.push_str(&format!("&#{};", c as u32))
            }
            (3, _) => {
                self.charref = true;
                self.out.push_str(&format!("&#x{:X};", c as u32))
            }
            (4, _) => {
                self.charref = true;
                self.out.push_str(&format!("&#x00{:x};", c as u32))
            }
            _ => {
                if c == '\n' && src.chance(1, 6) {
                    self.crlf = true;
                    self.out.push_str(if src.flip() { "\r" } else { "\r\n" });
                } else {
                    self.out.push(c)
                }
            }
        }
    }

    fn text(&mut self, src: &mut Src, t: &str) {
        let cs: Vec<char> = t.chars().collect();
        let mut i = 0;
        let mut cur = String::new();
        while i < cs.len() {
            if self.vary && src.chance(1, 10) {
                // a CDATA section
                let n = 1 + src.us(cs.len() - i);
                let part: String = cs[i..i + n].iter().collect();
                let ends_cr = self.out.ends_with('\r');
                if !part.contains("]]>") && !part.contains('\r') && !ends_cr {
                    if !cur.is_empty() {
                        self.toks.push(Tok::Chars(std::mem::take(&mut cur)));
                    }
                    self.out.push_str("<![CDATA[");
                    self.out.push_str(&part);
                    self.out.push_str("]]>");
                    self.toks.push(Tok::Chars(part));
                    self.cdata = true;
                    i += n;
                    continue;
                }
            }
            // a lone CR directly before a literal LF would read as one newline
            if cs[i] == '\n' && self.out.ends_with('\r') {
                self.out.push_str("&#10;");
            } else {
                self.ch(src, cs[i], None);
            }
            cur.push(cs[i]);
            i += 1;
        }
        if !cur.is_empty() {
            self.toks.push(Tok::Chars(cur));
        }
    }

    pub fn node(&mut self, src: &mut Src, m: &M) {
        match m {
            M::T(t) => self.text(src, t),
            M::C(c) => {
                self.out.push_str(&format!("<!--{}-->", c));
                self.toks.push(Tok::Comment(c.clone()));
            }
            M::P(n, d) => {
                self.out.push_str(&format!("<?{}", n));
                if !d.is_empty() {
                    self.ws(src, 1);
                    self.out.push_str(d);
                } else if !self.vary {
                    self.out.push(' ');
                }
                self.out.push_str("?>");
                self.toks.push(Tok::Pi(n.clone(), d.clone()));
            }
            M::X(d) => {
                self.out.push_str(&format!("<?xml {}?>", d));
                self.toks.push(Tok::Pi("xml".into(), d.clone()));
            }
            M::E(n, attrs, kids) => {
                self.out.push('<');
                self.out.push_str(n);
                for (an, av) in attrs {
                    self.ws(src, 1);
                    self.out.push_str(an);
                    self.ws(src, 0);
                    self.out.push('=');
                    self.ws(src, 0);
                    let q = if self.vary && src.flip() { '\'' } else { '"' };
                    self.out.push(q);
                    for c in av.chars() {
                        self.ch(src, c, Some(q));
                    }
                    self.out.push(q);
                }
                self.ws(src, 0);
                self.toks.push(Tok::Start(n.clone(), attrs.clone()));
                if kids.is_empty() && (!self.vary || src.flip()) {
                    self.out.push_str("/>");
                    self.standalone = true;
                } else {
                    self.out.push('>');
                    for k in kids {
                        self.node(src, k);
                    }
                    self.out.push_str("</");
                    self.out.push_str(n);
                    self.ws(src, 0);
                    self.out.push('>');
                }
                self.toks.push(Tok::End(n.clone()));
            }
        }
    }

    pub fn doc(&mut self, src: &mut Src, d: &Doc) {
        let mut dt = self.vary && src.chance(1, 5);
        for m in d {
            if dt && matches!(m, M::E(..)) {
                dt = false;
                let t = doctype(src);
                self.out.push_str(&t);
                self.toks.push(Tok::Directive(t));
                self.directive = true;
            }
            self.node(src, m);
        }
    }
}

/// a quoted literal in which markup characters mean nothing
fn literal(src: &mut Src) -> String {
    let q = *src.pick(&['"', '\'']);
    let mut s = q.to_string();
    while src.more(s.len(), 8, 2, 3) {
        s.push_str(match src.us(12) {
            0 => ">",
            1 => "<",
            2 => "]>",
            3 => "[",
            4 => "]]>",
            5 => "<!--",
            6 => "-->",
            7 => "&#60;b>",
            8 => "<?p",
            9 if q == '"' => "'",
            9 => "\"",
            10 => "a.dtd",
            _ => "x y",
        });
    }
    s.push(q);
    s
}

/// A document type declaration: external identifier, declarations, comments
/// and instructions in any mixture.
pub fn doctype(src: &mut Src) -> String {
    let mut t = format!("<!DOCTYPE {}", src.pick(&["a", "html", "p:a"]));
    match src.us(4) {
        1 => t += &format!(" SYSTEM {}", literal(src)),
        2 => t += &format!(" PUBLIC '-//W3C//DTD' {}", literal(src)),
        _ => {}
    }
    if src.flip() {
        t += *src.pick(&[" [", "[", "\n[\n"]);
        let mut n = 0;
        while src.more(n, 5, 2, 3) {
            n += 1;
            match src.us(8) {
                0 => t += "<!ELEMENT a (b|c)*>",
                1 => t += &format!("<!ENTITY e{} {}>", n, literal(src)),
                2 => t += &format!("<!ENTITY % p SYSTEM {}>", literal(src)),
                3 => t += &format!("<!ATTLIST a x CDATA #IMPLIED y (u|v) {}>", src.pick(&["\"u\"", "'v'"])),
                4 => {
                    t += "<!--";
                    t += *src.pick(&["", "x", " > ", " < ", "'", " it's \" ", "]>", "<!ENTITY", "]]>", "<?", "?>", "- -"]);
                    t += "-->";
                }
                5 => {
                    t += "<?t";
                    t += *src.pick(&["", " x", " > ", " <", " '", " don\"t", " ]>", " <!--", " -->"]);
                    t += "?>";
                }
                6 => t += &format!("<!NOTATION n{} SYSTEM {}>", n, literal(src)),
                _ => t += "%p;",
            }
            t += *src.pick(&["", " ", "\n", "\t"]);
        }
        t += "]";
        t += *src.pick(&["", " "]);
    }
    t += ">";
    t
}

pub fn canonical(d: &Doc) -> String {
    let mut r = Render::new(false);
    let mut s = Src::replay(&[]);
    r.doc(&mut s, d);
    r.out
}

pub fn canon_node(m: &M) -> String {
    let mut r = Render::new(false);
    let mut s = Src::replay(&[]);
    r.node(&mut s, m);
    r.out
}

// ----------------------------------------------------------------- comparison

/// What the library's DOM says, as a model (adjacent character data merged;
/// the data model has no adjacent text nodes).
pub fn to_model(n: &NodePtr) -> Vec<M> {
    let mut v: Vec<M> = vec![];
    for c in n.children().iter() {
        match c.node_type() {
            NodeType::Element => {
                let attrs = c.attributes().iter().map(|a| (a.name(), a.value())).collect();
                v.push(M::E(c.name(), attrs, to_model(c)));
            }
            NodeType::Text => {
                if let Some(M::T(t)) = v.last_mut() {
                    t.push_str(&c.value());
                } else if !c.value().is_empty() {
                    v.push(M::T(c.value()));
                }
            }
            NodeType::Comment => v.push(M::C(c.value())),
            NodeType::Instruction => v.push(M::P(c.name(), c.value())),
            NodeType::XMLDecl => v.push(M::X(c.value())),
            t => v.push(M::P(format!("unexpected {:?}", t), String::new())),
        }
    }
    v
}

pub fn diff(exp: &[M], got: &[M], path: &str) -> Result<(), String> {
    for (i, e) in exp.iter().enumerate() {
        let p = format!("{}/{}", path, i);
        let g = match got.get(i) {
            Some(g) => g,
            None => return Err(format!("{}: missing {:?}", p, e)),
        };
        match (e, g) {
            (M::E(n, a, k), M::E(n2, a2, k2)) => {
                if n != n2 {
                    return Err(format!("{}: element name {:?}, expected {:?}", p, n2, n));
                }
                if a != a2 {
                    return Err(format!("{}: attributes {:?}, expected {:?}", p, a2, a));
                }
                diff(k, k2, &p)?;
            }
            (e, g) => {
                if e != g {
                    return Err(format!("{}: got {:?}, expected {:?}", p, g, e));
                }
            }
        }
    }
    if got.len() > exp.len() {
        return Err(format!("{}: unexpected {:?}", path, got[exp.len()]));
    }
    Ok(())
}

pub fn size(d: &[M]) -> usize {
    d.iter()
        .map(|m| match m {
            M::E(_, a, k) => 1 + a.len() + size(k),
            _ => 1,
        })
        .sum()
}

pub fn elems(d: &[M]) -> usize {
    d.iter()
        .map(|m| match m {
            M::E(_, _, k) => 1 + elems(k),
            _ => 0,
        })
        .sum()
}

/// Whether the tags, attributes, comments, sections and instructions of a text
/// are put together as in a document.  It looks at nothing else (no entities,
/// no character ranges beyond ASCII, nothing about what surrounds the root
/// element), so `Some(false)` means certainly malformed; `None`: undecided.
pub fn structured(xml: &str) -> Option<bool> {
    if xml.contains('\0') {
        return Some(false);
    }
    let c: Vec<char> = xml.chars().collect();
    let find = |i: usize, s: &str| -> Option<usize> {
        let p: Vec<char> = s.chars().collect();
        (i..=c.len().checked_sub(p.len())?).find(|k| c[*k..*k + p.len()] == p[..]).map(|k| k + p.len())
    };
    let first = |i: usize| i < c.len() && (c[i].is_ascii_alphabetic() || c[i] == '_' || c[i] == ':' || c[i] as u32 >= 0x80);
    let name = |i: usize| -> usize {
        let mut k = i;
        if first(i) {
            while first(k) || (k < c.len() && (c[k].is_ascii_digit() || c[k] == '-' || c[k] == '.')) {
                k += 1;
            }
        }
        k
    };
    let space = |i: usize| -> usize {
        let mut k = i;
        while k < c.len() && matches!(c[k], ' ' | '\t' | '\n' | '\r') {
            k += 1;
        }
        k
    };
    let at = |i: usize| c.get(i).cloned().unwrap_or('\0');
    macro_rules! bad_if {
        ($e:expr) => {
            if $e {
                return Some(false);
            }
        };
    }
    macro_rules! find {
        ($i:expr, $s:expr) => {
            match find($i, $s) {
                Some(k) => k,
                None => return Some(false),
            }
        };
    }
    let mut open: Vec<String> = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i] != '<' {
            i += 1;
            continue;
        }
        match at(i + 1) {
            '?' => {
                let k = name(i + 2);
                bad_if!(k == i + 2);
                i = find!(k, "?>");
            }
            '!' if at(i + 2) == '-' => {
                bad_if!(at(i + 3) != '-');
                i = find!(i + 4, "-->");
            }
            '!' if at(i + 2) == '[' => {
                bad_if!(c.len() < i + 9 || c[i + 3..i + 9].iter().collect::<String>() != "CDATA[");
                i = find!(i + 9, "]]>");
            }
            '!' => {
                // a declaration: only plain ones are followed
                bad_if!(!first(i + 2));
                let mut depth = 1;
                let mut k = i + 2;
                while depth > 0 {
                    bad_if!(k >= c.len());
                    match c[k] {
                        '<' => depth += 1,
                        '>' => depth -= 1,
                        '"' | '\'' | '-' | '?' => return None,
                        _ => {}
                    }
                    k += 1;
                }
                i = k;
            }
            '/' => {
                let k = name(i + 2);
                let n: String = c[i + 2..k].iter().collect();
                bad_if!(open.pop() != Some(n));
                let e = space(k);
                bad_if!(at(e) != '>');
                i = e + 1;
            }
            _ => {
                let mut k = name(i + 1);
                bad_if!(k == i + 1);
                let n: String = c[i + 1..k].iter().collect();
                let mut seen: Vec<String> = vec![];
                loop {
                    let s = space(k);
                    if at(s) == '>' {
                        open.push(n);
                        i = s + 1;
                        break;
                    }
                    if at(s) == '/' {
                        bad_if!(at(s + 1) != '>');
                        i = s + 2;
                        break;
                    }
                    bad_if!(s == k);
                    let e = name(s);
                    bad_if!(e == s);
                    let a: String = c[s..e].iter().collect();
                    bad_if!(seen.contains(&a));
                    seen.push(a);
                    let q = space(e);
                    bad_if!(at(q) != '=');
                    let q = space(q + 1);
                    bad_if!(at(q) != '"' && at(q) != '\'');
                    k = find!(q + 1, &c[q].to_string());
                }
            }
        }
    }
    Some(open.is_empty())
}
