//! Properties of parsing, serialising, navigating and editing documents.

use crate::core::*;
use crate::doc::*;
use amxml::dom::*;
use amxml::sax::*;

fn parse(cx: &mut Cx, xml: &str) -> Result<NodePtr, String> {
    cx.cmp();
    match guard(|| new_document(xml).map_err(|e| e.to_string()))? {
        Ok(d) => Ok(d),
        Err(e) => Err(format!("well-formed document rejected: {}", e)),
    }
}

fn label_doc(cx: &mut Cx, r: &Render) {
    cx.label_if(r.cdata, "with CDATA");
    cx.label_if(r.charref, "with character reference");
    cx.label_if(r.crlf, "with CR line ends");
    cx.label_if(r.standalone, "with empty-element tag");
    cx.label_if(r.directive, "with DOCTYPE");
}

pub fn d01(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let d = gen_doc(src);
    let mut r = Render::new(true);
    r.doc(src, &d);
    cx.case(r.out.clone());
    label_doc(cx, &r);
    cx.nontrivial = size(&d) >= 4 && (r.charref || r.cdata || r.out.contains('='));
    let doc = parse(cx, &r.out)?;
    if doc.node_type() != NodeType::DocumentRoot {
        return Err("new_document did not return the document node".into());
    }
    diff(&d, &to_model(&doc), "")
}

pub fn d02(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let d = gen_doc(src);
    let mut r = Render::new(true);
    r.doc(src, &d);
    cx.case(r.out.clone());
    cx.nontrivial = size(&d) >= 4 && r.out.contains('&');
    let doc = parse(cx, &r.out)?;
    let s1 = guard(|| doc.to_string())?;
    let doc2 = parse(cx, &s1).map_err(|e| format!("{} (serialised form {:?})", e, s1))?;
    // the comparison is with the model, not with the first parse
    diff(&d, &to_model(&doc2), "").map_err(|e| format!("{} (serialised form {:?})", e, s1))?;
    let s2 = guard(|| doc2.to_string())?;
    cx.cmp();
    if s1 != s2 {
        return Err(format!("serialisation is not stable: {:?} then {:?}", s1, s2));
    }
    // a document in the canonical surface form is reproduced exactly
    let c = canonical(&d);
    let doc3 = parse(cx, &c)?;
    let s3 = guard(|| doc3.to_string())?;
    cx.cmp();
    if s3 != c {
        return Err(format!("canonical document {:?} serialised as {:?}", c, s3));
    }
    // each subtree serialises on its own; inner_xml is the children's text
    sub_strings(cx, &doc3, &d)?;
    let inner = guard(|| doc3.inner_xml())?;
    if inner != c {
        return Err(format!("inner_xml of the document: {:?}, expected {:?}", inner, c));
    }
    Ok(())
}

fn sub_strings(cx: &mut Cx, n: &NodePtr, kids: &[M]) -> Result<(), String> {
    let ch = n.children();
    for (i, k) in kids.iter().enumerate() {
        let c = match ch.get(i) {
            Some(c) => c,
            None => return Err("missing child".into()),
        };
        let exp = canon_node(k);
        let got = guard(|| c.to_string())?;
        cx.cmp();
        if got != exp {
            return Err(format!("to_string of a node: {:?}, expected {:?}", got, exp));
        }
        if let M::E(_, _, kk) = k {
            let exp: String = kk.iter().map(canon_node).collect();
            let got = guard(|| c.inner_xml())?;
            if got != exp {
                return Err(format!("inner_xml of a node: {:?}, expected {:?}", got, exp));
            }
            sub_strings(cx, c, kk)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------ D03

fn pretty(m: &M, ind: usize, out: &mut String) {
    let pad = " ".repeat(ind);
    match m {
        M::E(n, a, k) => {
            out.push_str(&pad);
            let open = canon_node(&M::E(n.clone(), a.clone(), vec![]));
            if k.is_empty() {
                out.push_str(&open);
            } else {
                out.push_str(open.strip_suffix("/>").unwrap());
                out.push_str(">\n");
                for c in k {
                    pretty(c, ind + 4, out);
                }
                out.push_str(&format!("{}</{}>", pad, n));
            }
            out.push('\n');
        }
        m => {
            out.push_str(&pad);
            out.push_str(&canon_node(m));
            out.push('\n');
        }
    }
}

/// Text stripped at the edges, white-space-only text dropped.
fn strip(d: &[M]) -> Vec<M> {
    let mut v = vec![];
    for m in d {
        match m {
            M::T(t) => {
                let t = t.trim_matches(|c| c == ' ' || c == '\n' || c == '\t');
                if !t.is_empty() {
                    v.push(M::T(t.to_string()))
                }
            }
            M::E(n, a, k) => v.push(M::E(n.clone(), a.clone(), strip(k))),
            m => v.push(m.clone()),
        }
    }
    v
}

fn depth(d: &[M]) -> usize {
    d.iter()
        .map(|m| match m {
            M::E(_, _, k) => 1 + depth(k),
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}

pub fn d03(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let d = gen_doc(src);
    let c = canonical(&d);
    cx.case(c.clone());
    cx.nontrivial = depth(&d) >= 3 && size(&d) >= 5;
    let doc = parse(cx, &c)?;
    let p = guard(|| doc.to_pretty_string())?;
    let mut exp = String::new();
    for m in d.iter() {
        pretty(m, 0, &mut exp);
    }
    cx.cmp();
    if p != exp {
        return Err(format!("pretty form {:?}, expected {:?}", p, exp));
    }
    let doc2 = parse(cx, &p).map_err(|e| format!("{} (pretty form {:?})", e, p))?;
    diff(&strip(&d), &strip(&to_model(&doc2)), "").map_err(|e| format!("{} (pretty form {:?})", e, p))?;
    // printing is read-only
    let again = guard(|| doc.to_string())?;
    if again != c {
        return Err("to_pretty_string changed the document".into());
    }
    // sub-nodes start at the left margin
    for (i, m) in d.iter().enumerate() {
        if let M::E(_, _, k) = m {
            for (j, mm) in k.iter().enumerate() {
                let mut exp = String::new();
                pretty(mm, 0, &mut exp);
                let n = match doc.nth_child(i).and_then(|e| e.nth_child(j)) {
                    Some(n) => n,
                    None => return Err("missing node".into()),
                };
                let got = guard(|| n.to_pretty_string())?;
                cx.cmp();
                if got != exp {
                    return Err(format!("pretty form of a node {:?}, expected {:?}", got, exp));
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------ D04

const SOUP: &[&str] = &[
    "<", ">", "</", "/>", "<a", "<a>", "</a>", "<b", "</b>", "<!--", "-->", "--", "<![CDATA[", "]]>", "<?", "?>", "<?x", "<!", "<!D",
    "[", "]", "=", "\"", "'", " ", "\n", "\r", "&", "&lt;", "&#", "&#x", "&#x0;", ";", "&#99999999999;", "&#x110000;", "a", "b", "1", "日",
    "é", "/", "!", "?", "-", "x=\"1\"", "y='2'", "\0", "&amp;", "&#-1;", "&#+6;", "&#xD800;", "xml", "<a/>", "\u{FEFF}", ":",
];

fn must_reject(cx: &mut Cx, xml: &str, why: &'static str) -> Result<(), String> {
    cx.case(format!("[{}] {}", why, xml));
    cx.label(why);
    cx.cmp();
    match guard(|| new_document(xml).map_err(|e| e.to_string()))? {
        Ok(d) => Err(format!("malformed document ({}) accepted as {:?}", why, guard(|| d.to_string())?)),
        Err(e) => {
            if e.contains("Syntax Error in XML") {
                Ok(())
            } else {
                Err(format!("error is not a syntax error: {:?}", e))
            }
        }
    }
}

/// Whatever was accepted must be a usable tree.
fn usable(cx: &mut Cx, xml: &str) -> Result<bool, String> {
    cx.cmp();
    match guard(|| new_document(xml).map_err(|e| e.to_string()))? {
        Err(e) => {
            if e.is_empty() {
                return Err("empty error".into());
            }
            Ok(false)
        }
        Ok(d) => {
            let s = guard(|| d.to_string())?;
            let _ = guard(|| d.to_pretty_string())?;
            check_nav(cx, &d)?;
            if structured(xml) == Some(false) {
                return Err(format!("malformed document accepted as {:?}", s));
            }
            Ok(true)
        }
    }
}

pub fn d04(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let which = if src.chance(1, 3000) { 4 } else { src.weighted(&[4, 4, 4, 2]) };
    if which == 4 {
        return long(src, cx);
    }
    if which == 3 {
        let mut s = String::new();
        let mut n = 0;
        while src.more(n, 24, 15, 16) {
            n += 1;
            s.push_str(src.pick(SOUP));
        }
        cx.case(format!("[soup] {}", s));
        let ok = usable(cx, &s)?;
        sax_total(cx, &s)?;
        cx.label(if ok { "soup accepted" } else { "soup rejected" });
        cx.nontrivial = n >= 4;
        return Ok(());
    }
    let d = gen_doc(src);
    let mut r = Render::new(true);
    r.doc(src, &d);
    let xml = r.out.clone();
    cx.nontrivial = xml.chars().count() >= 10;
    if which == 0 {
        // cut anywhere inside the root element
        let (lo, hi) = root_span(&d, &r, &xml);
        let cuts: Vec<usize> = (lo + 1..hi).filter(|i| xml.is_char_boundary(*i)).collect();
        if cuts.is_empty() {
            return Ok(());
        }
        let i = *src.pick(&cuts);
        return must_reject(cx, &xml[..i], "cut inside the root element");
    }
    if which == 1 {
        // one damage from a catalogue
        return damage(src, cx, &d);
    }
    let s = mutated(src, &xml);
    cx.case(format!("[mutated] {}", s));
    let ok = usable(cx, &s)?;
    sax_total(cx, &s)?;
    cx.label(if ok { "mutation accepted" } else { "mutation rejected" });
    Ok(())
}

/// A few changes of single characters, insertions and repetitions.
pub fn mutated(src: &mut Src, xml: &str) -> String {
    let mut cs: Vec<char> = xml.chars().collect();
    let mut n = 0;
    while n == 0 || src.more(n, 4, 1, 2) {
        n += 1;
        let i = src.us(cs.len().max(1));
        match src.below(4) {
            0 => {
                if i < cs.len() {
                    cs.remove(i);
                }
            }
            1 => {
                let t: Vec<char> = src.pick(SOUP).chars().collect();
                for (k, c) in t.into_iter().enumerate() {
                    cs.insert((i + k).min(cs.len()), c);
                }
            }
            2 => {
                if i < cs.len() {
                    cs[i] = *src.pick(&['<', '>', '/', '"', '\'', '=', '&', ';', ' ', 'a', '-', '!', '?', '\0', '[', ']', '1']);
                }
            }
            _ => {
                let j = src.us(cs.len().max(1));
                let (a, b) = (i.min(j), i.max(j));
                if b <= cs.len() {
                    let part: Vec<char> = cs[a..b].to_vec();
                    let at = src.us(cs.len() + 1);
                    for (k, c) in part.into_iter().take(30).enumerate() {
                        cs.insert(at + k, c);
                    }
                }
            }
        }
    }
    cs.into_iter().collect()
}

/// Documents that are a piece of markup many times over.
fn long(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let k = src.us(LONG.len());
    let n = match src.weighted(&[3, 2, 1]) {
        0 => 100 + src.us(1000),
        1 => 2000 + src.us(10000),
        _ => 65530 + src.us(40000),
    };
    cx.case(format!("{} {:?} {}", n, LONG[k], long_xml(k, n).chars().take(60).collect::<String>()));
    cx.nontrivial = true;
    cx.label("a piece of markup many times over");
    cx.cmp();
    on_stack(move || long_check(k, n))
}

/// with the stack that a thread gets
fn on_stack<F: FnOnce() -> Result<(), String> + Send + 'static>(f: F) -> Result<(), String> {
    match std::thread::Builder::new().stack_size(2 << 20).spawn(f).unwrap().join() {
        Ok(r) => r,
        Err(_) => Err("panic".to_string()),
    }
}

/// (before, piece, after, piece after it, is it well-formed)
const LONG: &[(&str, &str, &str, &str, bool)] = &[
    ("", "<a>", "", "", false),
    ("", "<a>", "x", "</a>", true),
    ("", "<p:a x='1'>", "", "</p:a>", true),
    ("<r>", "<a/>", "</r>", "", true),
    ("<r>", "<a></a>\n", "</r>", "", true),
    ("<r>", "<a>", "</r>", "", false),
    ("<r>", "x", "</r>", "", true),
    ("<r>", "日", "</r>", "", true),
    ("<r>", "&amp;", "</r>", "", true),
    ("<r>", "&#65;", "</r>", "", true),
    ("<r>", "\r\n", "</r>", "", true),
    ("<r><!--", "-x", "--></r>", "", true),
    ("<r><!--", "- ", "", "", false),
    ("<r><![CDATA[", "]", "]]></r>", "", true),
    ("<r><![CDATA[", "]] ", "", "", false),
    ("<r>", "<![CDATA[x]]>", "</r>", "", true),
    ("<r><?p ", "?", "?></r>", "", true),
    ("<r>", "<?p?>", "</r>", "", true),
    ("<r>", "<!--c-->", "</r>", "", true),
    ("<r", " ", "/>", "", true),
    ("<", "r", "/>", "", true),
    ("<r a='", "&lt;", "'/>", "", true),
    ("<r a='", "é", "'/>", "", true),
    ("<r a='", "<", "", "", false),
    ("<!DOCTYPE r [", "<!ELEMENT r ANY>", "]><r/>", "", true),
    ("", "<!DOCTYPE r [", "", "", false),
    ("<!DOCTYPE r [", "<!--", "", "", false),
    ("<a>", "</a>", "", "", false),
    ("<a/>", "</a>", "", "", false),
    ("<a><b>", "<", "", "", false),
    ("<a>", "\0", "</a>", "", false),
];

fn long_xml(k: usize, n: usize) -> String {
    let l = LONG[k];
    format!("{}{}{}{}", l.0, l.1.repeat(n), l.2, l.3.repeat(n))
}

fn long_check(k: usize, n: usize) -> Result<(), String> {
    let (_, piece, _, _, ok) = LONG[k];
    let xml = long_xml(k, n);
    let what = || format!("{} times {:?}", n, LONG[k]);
    match guard(|| new_document(&xml).map_err(|e| e.to_string()))? {
        Ok(_) if !ok => Err(format!("malformed document accepted ({})", what())),
        Err(e) if ok => Err(format!("well-formed document rejected ({}): {}", what(), e.chars().take(200).collect::<String>())),
        Err(_) => Ok(()),
        Ok(d) => {
            // the number of pieces that came out
            let want = |n: usize| -> Option<usize> {
                Some(match (piece, LONG[k].0) {
                    ("<a>", _) | ("<p:a x='1'>", _) => n,
                    ("<a/>", _) | ("<![CDATA[x]]>", _) | ("<?p?>", _) | ("<!--c-->", _) => n,
                    ("<a></a>\n", _) => 2 * n,
                    _ => return None,
                })
            };
            let got = if LONG[k].3 != "" {
                let mut m = 0;
                let mut cur = d.first_child();
                while let Some(c) = cur {
                    m += if c.node_type() == NodeType::Element { 1 } else { 0 };
                    cur = c.first_child();
                }
                m
            } else {
                d.root_element().children().len()
            };
            if let Some(w) = want(n) {
                // adjacent CDATA sections may be one node
                if got != w && !(piece == "<![CDATA[x]]>") {
                    return Err(format!("{} nodes instead of {} ({})", got, w, what()));
                }
            }
            let r = d.root_element();
            let text = match piece {
                "x" | "日" => Some(piece.repeat(n)),
                "&amp;" => Some("&".repeat(n)),
                "&#65;" => Some("A".repeat(n)),
                "\r\n" => Some("\n".repeat(n)),
                "<![CDATA[x]]>" => Some("x".repeat(n)),
                "]" | "-x" | "?" => Some(piece.repeat(n)),
                _ => None,
            };
            if let Some(t) = text {
                let got: String = r.children().iter().map(|c| c.value()).collect();
                if got != t {
                    return Err(format!("the text is not as written ({}): {} characters", what(), got.chars().count()));
                }
            }
            let att = match piece {
                "&lt;" => Some("<".repeat(n)),
                "é" => Some(piece.repeat(n)),
                _ => None,
            };
            if let Some(t) = att {
                if r.attribute_value("a") != Some(t) {
                    return Err(format!("the attribute is not as written ({})", what()));
                }
            }
            if piece == "r" && r.name().len() != n {
                return Err(format!("a name of {} characters ({})", r.name().len(), what()));
            }
            Ok(())
        }
    }
}

/// a million levels, which the stack does not hold
pub fn d04_fixed() -> Vec<crate::props::Fixed> {
    [0usize, 1, 2, 5]
        .iter()
        .map(|k| {
            let k = *k;
            crate::props::Fixed {
                key: format!("1000000 levels of {:?}", LONG[k].1),
                run: Box::new(move || on_stack(move || long_check(k, 1_000_000))),
            }
        })
        .collect()
}

/// The token reader ends for every input; after the end it stays there.
fn sax_total(cx: &mut Cx, s: &str) -> Result<(), String> {
    cx.cmp();
    let n = s.chars().count();
    let r: Result<(), String> = guard(|| {
        // a document that cannot be one at all may be refused at once
        let mut dec = match SaxDecoder::new(s) {
            Ok(dec) => dec,
            Err(_) => return Ok(()),
        };
        // each call consumes at least one character, except end-of-element
        // reports of empty-element tags
        for _ in 0..(2 * n + 4) {
            match dec.raw_token() {
                Ok(XmlToken::EOF) => return Ok(()),
                _ => {}
            }
        }
        Err(format!("no end of input after {} tokens", 2 * n + 4))
    })?;
    r
}

/// Byte range from the '<' of the root element up to its last character.
fn root_span(d: &Doc, r: &Render, xml: &str) -> (usize, usize) {
    let _ = r;
    // the root element is the last M::E; locate it by rendering order: find the
    // first "<" + name after the prolog whose preceding markup is complete.
    let name = d
        .iter()
        .filter_map(|m| match m {
            M::E(n, _, _) => Some(n.clone()),
            _ => None,
        })
        .next()
        .unwrap();
    // scan markup
    let b: Vec<char> = xml.chars().collect();
    let mut i = 0;
    let mut start = 0;
    let at = |i: usize, p: &str| -> bool { b[i..].iter().take(p.chars().count()).collect::<String>() == p };
    while i < b.len() {
        if at(i, "<!--") {
            i += 4;
            while !at(i, "-->") {
                i += 1;
            }
            i += 3;
        } else if at(i, "<?") {
            while !at(i, "?>") {
                i += 1;
            }
            i += 2;
        } else if at(i, "<!") {
            let mut lv = 0;
            loop {
                if at(i, "<!--") {
                    i += 4;
                    while !at(i, "-->") {
                        i += 1;
                    }
                    i += 3;
                    continue;
                }
                if at(i, "<?") {
                    i += 2;
                    while !at(i, "?>") {
                        i += 1;
                    }
                    i += 2;
                    continue;
                }
                match b[i] {
                    '<' => lv += 1,
                    '>' => lv -= 1,
                    q @ ('"' | '\'') => {
                        i += 1;
                        while b[i] != q {
                            i += 1;
                        }
                    }
                    _ => {}
                }
                i += 1;
                if lv == 0 {
                    break;
                }
            }
        } else if b[i] == '<' {
            start = i;
            break;
        } else {
            i += 1;
        }
    }
    let s: usize = b[..start].iter().map(|c| c.len_utf8()).sum();
    // the end: last "</name ws >" or "/>" belonging to the root: rerun a tiny
    // tag-level scanner
    let mut lv = 0i64;
    let mut i = start;
    loop {
        if at(i, "<!--") {
            i += 4;
            while !at(i, "-->") {
                i += 1;
            }
            i += 3;
        } else if at(i, "<![CDATA[") {
            while !at(i, "]]>") {
                i += 1;
            }
            i += 3;
        } else if at(i, "<?") {
            while !at(i, "?>") {
                i += 1;
            }
            i += 2;
        } else if at(i, "</") {
            while b[i] != '>' {
                i += 1;
            }
            i += 1;
            lv -= 1;
        } else if b[i] == '<' {
            let mut q: Option<char> = None;
            loop {
                let c = b[i];
                match q {
                    Some(x) => {
                        if c == x {
                            q = None
                        }
                    }
                    None => {
                        if c == '"' || c == '\'' {
                            q = Some(c)
                        } else if c == '>' {
                            break;
                        }
                    }
                }
                i += 1;
            }
            if b[i - 1] != '/' {
                lv += 1;
            }
            i += 1;
        } else {
            i += 1;
        }
        if lv == 0 {
            break;
        }
    }
    let _ = name;
    let e: usize = b[..i].iter().map(|c| c.len_utf8()).sum();
    (s, e)
}

fn damage(src: &mut Src, cx: &mut Cx, d: &Doc) -> Result<(), String> {
    // Insert a raw fragment as a child at a random place of the tree.
    let raw = |m: &Doc, src: &mut Src, frag: &str| -> String {
        let mut d2 = m.clone();
        let marker = "\u{E123}\u{E124}";
        insert_marker(&mut d2, src, marker);
        canonical(&d2).replace(marker, frag)
    };
    let n = gen_name(src);
    let n2 = format!("{}x", n);
    let k = src.us(27);
    let k2 = src.us(30);
    let (why, s): (&'static str, String) = match k {
        0 => ("mismatched end tag", raw(d, src, &format!("<{}></{}>", n, n2))),
        1 => ("crossed elements", raw(d, src, &format!("<{}><{}></{}></{}>", n, n2, n, n2))),
        2 => ("missing end tag", raw(d, src, &format!("<{}>", n))),
        3 => ("surplus end tag", raw(d, src, &format!("</{}>", n2))),
        4 => ("unquoted attribute value", raw(d, src, &format!("<{} p=q/>", n))),
        5 => ("attribute without value", raw(d, src, &format!("<{} p/>", n))),
        6 => ("attribute without value", raw(d, src, &format!("<{} p ></{}>", n, n))),
        7 => ("'<' without a name", raw(d, src, "< ")),
        8 => ("'<' without a name", raw(d, src, "<1a/>")),
        9 => ("'<' without a name", raw(d, src, "<>")),
        10 => ("bad markup declaration", raw(d, src, "<!-x-->")),
        11 => ("bad markup declaration", raw(d, src, ["<![CDAT[x]]>", "<![cdata[x]]>", "<!>", "<!<p>", "<! x>", "<!1>"][k2 % 6])),
        12 => ("stray character in a tag", raw(d, src, &format!("<{} , p='q'/>", n))),
        13 => ("no space between attributes", raw(d, src, &format!("<{} p='q'r='s'/>", n))),
        14 => ("'/' inside a start tag", raw(d, src, &format!("<{} / p='q'></{}>", n, n))),
        15 => ("case differs in end tag", raw(d, src, "<Qq></qQ>")),
        16 => ("end tag without a name", raw(d, src, "</>")),
        17 => ("end tag without an element", format!("</{}>{}", n, canonical(d))),
        18 => ("end tag without an element", format!("{}</{}>", canonical(d), n)),
        19 => ("unterminated comment", format!("{}<!-- x --", canonical(d))),
        20 => ("unterminated instruction", format!("{}<?{} x ?", canonical(d), n)),
        21 => ("text after the name in an end tag", raw(d, src, &format!("<{}></{} {}>", n, n, ["x", "p='q'", "/", "<", "\"", n.as_str()][k2 % 6]))),
        22 => ("instruction without a target", raw(d, src, ["<? x?>", "<??>", "<?1 x?>", "<?-a?>"][k2 % 4])),
        23 => ("duplicate attribute", raw(d, src, &format!("<{} q='1' p='1' {}='2'/>", n, ["p", "q"][k2 % 2]))),
        24 => ("NUL character", raw(d, src, "\0")),
        25 => ("NUL character", format!("{}\0{}", canonical(d), ["", "<", "text", "<a>", "</a>"][k2 % 5])),
        _ => ("unterminated CDATA", {
            let r = raw(d, src, "\u{E125}<![CDATA[ x ]]");
            // nothing behind may close it
            let i = r.find("\u{E125}<![CDATA[ x ]]").unwrap();
            format!("{}", &r[..i + "\u{E125}<![CDATA[ x ]]".len()])
        }),
    };
    must_reject(cx, &s, why)
}

fn insert_marker(d: &mut Doc, src: &mut Src, marker: &str) {
    let root = d.iter_mut().filter(|m| matches!(m, M::E(..))).next().unwrap();
    let mut cur = root;
    loop {
        let kids = match cur {
            M::E(_, _, k) => k,
            _ => unreachable!(),
        };
        let es: Vec<usize> = (0..kids.len()).filter(|i| matches!(kids[*i], M::E(..))).collect();
        if es.is_empty() || src.chance(1, 3) {
            let at = src.us(kids.len() + 1);
            kids.insert(at, M::T(marker.to_string()));
            return;
        }
        let i = es[src.us(es.len())];
        cur = &mut kids[i];
    }
}

// ------------------------------------------------------------------------ D05

pub fn d05(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let d = gen_doc(src);
    let mut r = Render::new(true);
    r.doc(src, &d);
    cx.case(r.out.clone());
    label_doc(cx, &r);
    let mut exp = r.toks.clone();
    exp.push(Tok::Eof);
    exp.push(Tok::Eof);
    cx.nontrivial = exp.len() >= 8;
    let mut dec = match guard(|| SaxDecoder::new(&r.out).map_err(|e| e.to_string()))? {
        Ok(d) => d,
        Err(e) => return Err(format!("SaxDecoder::new: {}", e)),
    };
    for (i, e) in exp.iter().enumerate() {
        cx.cmp();
        let t = guard(|| dec.raw_token().map_err(|e| e.to_string()))?;
        let g = match t {
            Ok(XmlToken::StartElement { name, attr }) => {
                Tok::Start(name, attr.iter().map(|a| (a.name().to_string(), a.value().to_string())).collect())
            }
            Ok(XmlToken::EndElement { name }) => Tok::End(name),
            Ok(XmlToken::CharData { chardata }) => Tok::Chars(chardata),
            Ok(XmlToken::ProcInst { target, inst }) => Tok::Pi(target, inst),
            Ok(XmlToken::Comment { comment }) => Tok::Comment(comment),
            Ok(XmlToken::Directive { directive }) => Tok::Directive(directive),
            Ok(XmlToken::EOF) => Tok::Eof,
            Err(e) => return Err(format!("token {}: error {}, expected {:?}", i, e, exp[i])),
        };
        if g != *e {
            return Err(format!("token {}: {:?}, expected {:?}", i, g, e));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------ D06

/// Self-consistency of navigation over the whole tree under the root of `n`.
pub fn check_nav(cx: &mut Cx, doc: &NodePtr) -> Result<(), String> {
    cx.cmp();
    guard(|| nav(doc))?
}

fn nav(doc: &NodePtr) -> Result<(), String> {
    if doc.parent().is_some() {
        return Err("the document node has a parent".into());
    }
    let re = doc.children().into_iter().find(|c| c.node_type() == NodeType::Element).unwrap_or(doc.clone());
    nav_tree(doc, Some(&re))
}

/// A tree without a document node has no root element.
fn nav_detached(top: &NodePtr) -> Result<(), String> {
    if top.parent().is_some() {
        return Err("the topmost node has a parent".into());
    }
    nav_tree(top, None)
}

fn nav_tree(doc: &NodePtr, re: Option<&NodePtr>) -> Result<(), String> {
    let mut order: Vec<(i64, String)> = vec![];
    nav_sub(doc, doc, re, &mut order)?;
    for w in order.windows(2) {
        if w[0].0 >= w[1].0 {
            return Err(format!("document order: {} ({}) does not precede {} ({})", w[0].1, w[0].0, w[1].1, w[1].0));
        }
    }
    Ok(())
}

fn nav_sub(doc: &NodePtr, n: &NodePtr, re: Option<&NodePtr>, order: &mut Vec<(i64, String)>) -> Result<(), String> {
    let show = |n: &NodePtr| format!("{:?} {:?} {:?}", n.node_type(), n.name(), n.value());
    if n.root() != *doc {
        return Err(format!("root() of {} is not the document", show(n)));
    }
    if re.map_or(false, |re| n.root_element() != *re) {
        return Err(format!("root_element() of {} is {}", show(n), show(&n.root_element())));
    }
    order.push((n.document_order(), show(n)));
    let attrs = n.attributes();
    for (i, a) in attrs.iter().enumerate() {
        if a.node_type() != NodeType::Attribute {
            return Err(format!("attribute list holds {}", show(a)));
        }
        match a.parent() {
            Some(ref p) if p == n => {}
            p => return Err(format!("parent of attribute {} of {} is {:?}", show(a), show(n), p.map(|p| show(&p)))),
        }
        if a.root() != *doc || re.map_or(false, |re| a.root_element() != *re) {
            return Err(format!("root of attribute {}", show(a)));
        }
        if !a.children().is_empty() || !a.attributes().is_empty() {
            return Err("an attribute has children or attributes".into());
        }
        if attrs.iter().position(|b| b.name() == a.name()) == Some(i) && n.attribute_value(&a.name()) != Some(a.value()) {
            return Err(format!("attribute_value({:?}) is {:?}", a.name(), n.attribute_value(&a.name())));
        }
        order.push((a.document_order(), show(a)));
    }
    if n.attribute_value("no-such-attribute").is_some() {
        return Err("attribute_value of a missing attribute".into());
    }
    let kids = n.children();
    if n.first_child() != kids.get(0).cloned() {
        return Err(format!("first_child of {}", show(n)));
    }
    for k in [kids.len(), kids.len() + 1, usize::MAX] {
        if n.nth_child(k).is_some() {
            return Err(format!("nth_child({}) of {} with {} children", k, show(n), kids.len()));
        }
    }
    for (i, c) in kids.iter().enumerate() {
        if n.nth_child(i).as_ref() != Some(c) {
            return Err(format!("nth_child({}) of {}", i, show(n)));
        }
        match c.parent() {
            Some(ref p) if p == n => {}
            p => return Err(format!("parent of child {} of {} is {:?}", show(c), show(n), p.map(|p| show(&p)))),
        }
        for (j, e) in kids.iter().enumerate() {
            if (i == j) != (c == e) {
                return Err(format!("node identity of children {} and {} of {}", i, j, show(n)));
            }
        }
        nav_sub(doc, c, re, order)?;
    }
    Ok(())
}

pub fn d06(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let d = gen_doc(src);
    let mut r = Render::new(true);
    r.doc(src, &d);
    cx.case(r.out.clone());
    cx.nontrivial = elems(&d) >= 3;
    let doc = parse(cx, &r.out)?;
    diff(&d, &to_model(&doc), "")?;
    check_nav(cx, &doc)?;
    // the same questions again, asked of an arbitrary node first, so that the
    // answer does not depend on the order in which they are asked
    let doc2 = parse(cx, &r.out)?;
    let all = all_nodes(&doc2);
    let i = src.us(all.len());
    let j = src.us(all.len());
    cx.add_case(&format!(" @nodes {} {}", i, j));
    cx.cmp();
    let lt = guard(|| all[i].document_order() < all[j].document_order())?;
    if lt != (i < j) {
        return Err(format!("document order of nodes {} and {}", i, j));
    }
    check_nav(cx, &doc2)?;
    // A node stays usable when the document handle is gone.
    let keep = all[i].clone();
    let name = keep.name();
    drop(all);
    drop(doc2);
    guard(|| {
        let _ = keep.parent();
        let _ = keep.root();
        let _ = keep.root_element();
        let _ = keep.document_order();
        let _ = keep.namespace_uri();
        let _ = keep.to_string();
    })?;
    if keep.name() != name {
        return Err("name changed".into());
    }
    Ok(())
}

/// All nodes in document order (attributes after their element).
pub fn all_nodes(n: &NodePtr) -> Vec<NodePtr> {
    let mut v = vec![n.clone()];
    v.extend(n.attributes());
    for c in n.children() {
        v.extend(all_nodes(&c));
    }
    v
}

// ------------------------------------------------------------------------ D07

#[derive(Clone)]
struct NsElem {
    name: String,
    decl: Vec<(String, String)>,
    attrs: Vec<String>,
    kids: Vec<NsElem>,
    /// what follows the child elements: text, comment, instruction
    tail: usize,
}

fn gen_ns(src: &mut Src, depth: usize, budget: &mut usize) -> NsElem {
    const PX: &[&str] = &["", "p", "q", "p2", "xmlnsx"];
    const URI: &[&str] = &["http://u1", "http://u2", "urn:x", "", "http://u1/"];
    let pre = if src.chance(1, 20) { "xml" } else { *src.pick(PX) };
    let local = *src.pick(&["a", "b", "p", "xmlns1"]);
    let name = if pre.is_empty() { local.to_string() } else { format!("{}:{}", pre, local) };
    let mut decl: Vec<(String, String)> = vec![];
    while src.more(decl.len(), 3, 2, 5) {
        let p = src.pick(PX).to_string();
        if decl.iter().any(|(x, _)| *x == p) {
            break;
        }
        decl.push((p, src.pick(URI).to_string()));
    }
    let mut attrs: Vec<String> = vec![];
    while src.more(attrs.len(), 2, 1, 3) {
        let p = *src.pick(&["p", "q", "p2", "xmlnsx", "", "xml"]);
        let n = format!("{}{}{}", p, if p.is_empty() { "" } else { ":" }, src.pick(&["k", "a"]));
        if attrs.contains(&n) {
            break;
        }
        attrs.push(n);
    }
    let mut kids = vec![];
    while depth > 0 && *budget > 0 && src.more(kids.len(), 3, 3, 5) {
        *budget -= 1;
        kids.push(gen_ns(src, depth - 1, budget));
    }
    let tail = if src.chance(1, 4) { 1 + src.us(3) } else { 0 };
    NsElem { name, decl, attrs, kids, tail }
}

fn ns_xml(e: &NsElem, first_decl: bool, out: &mut String) {
    out.push_str(&format!("<{}", e.name));
    let mut a: Vec<String> = e.attrs.iter().map(|n| format!(" {}=\"v\"", n)).collect();
    let d: Vec<String> = e
        .decl
        .iter()
        .map(|(p, u)| if p.is_empty() { format!(" xmlns=\"{}\"", u) } else { format!(" xmlns:{}=\"{}\"", p, u) })
        .collect();
    if first_decl {
        let mut d = d;
        d.extend(a);
        a = d;
    } else {
        a.extend(d);
    }
    for x in a {
        out.push_str(&x);
    }
    out.push('>');
    for k in &e.kids {
        ns_xml(k, !first_decl, out);
    }
    out.push_str(["", "text", "<!--comment-->", "<?p:i data?>"][e.tail]);
    out.push_str(&format!("</{}>", e.name));
}

fn split(n: &str) -> (String, String) {
    match n.find(':') {
        Some(i) => (n[..i].to_string(), n[i + 1..].to_string()),
        None => (String::new(), n.to_string()),
    }
}

fn ns_check(cx: &mut Cx, e: &NsElem, n: &NodePtr, scope: &mut Vec<(String, String)>, stat: &mut (usize, usize)) -> Result<(), String> {
    let keep = scope.len();
    for d in &e.decl {
        stat.0 += 1;
        scope.push(d.clone());
    }
    let look = |scope: &Vec<(String, String)>, p: &str| -> String {
        if p == "xml" {
            return "http://www.w3.org/XML/1998/namespace".into();
        }
        scope.iter().rev().find(|(x, _)| x == p).map(|(_, u)| u.clone()).unwrap_or_default()
    };
    let check = |n: &NodePtr, name: &str| -> Result<(), String> {
        let (p, l) = split(name);
        // the default namespace is not for attributes
        let uri = if p.is_empty() && n.node_type() == NodeType::Attribute { String::new() } else { look(scope, &p) };
        let exp = (name.to_string(), l, p.clone(), uri);
        let got = guard(|| (n.name(), n.local_name(), n.space_name(), n.namespace_uri()))?;
        if exp != got {
            return Err(format!("(name, local, prefix, uri) = {:?}, expected {:?}", got, exp));
        }
        Ok(())
    };
    cx.cmp();
    check(n, &e.name)?;
    let inherited = scope[..keep].iter().any(|(x, _)| *x == split(&e.name).0);
    if inherited {
        stat.1 += 1;
    }
    for a in &e.attrs {
        let at = match n.attributes().into_iter().find(|x| x.name() == *a) {
            Some(x) => x,
            None => return Err(format!("attribute {} missing", a)),
        };
        cx.cmp();
        check(&at, a)?;
    }
    for (i, k) in e.kids.iter().enumerate() {
        match n.nth_child(i) {
            Some(c) => ns_check(cx, k, &c, scope, stat)?,
            None => return Err("missing child".into()),
        }
    }
    if e.tail > 0 {
        match n.nth_child(e.kids.len()) {
            Some(c) => {
                let u = guard(|| c.namespace_uri())?;
                if u != "" {
                    return Err(format!("namespace of the node {} is {:?}", c, u));
                }
            }
            None => return Err("missing child".into()),
        }
    }
    scope.truncate(keep);
    Ok(())
}

fn ns_at<'a>(e: &'a mut NsElem, path: &[usize]) -> &'a mut NsElem {
    match path.split_first() {
        None => e,
        Some((i, r)) => ns_at(&mut e.kids[*i], r),
    }
}
fn ns_paths(e: &NsElem, at: Vec<usize>, out: &mut Vec<Vec<usize>>) {
    for (i, k) in e.kids.iter().enumerate() {
        let mut p = at.clone();
        p.push(i);
        ns_paths(k, p, out);
    }
    out.push(at);
}
fn ns_node(root: &NodePtr, path: &[usize]) -> NodePtr {
    let mut n = root.clone();
    for i in path {
        n = n.nth_child(*i).expect("child");
    }
    n
}

/// Change declarations or move an element; the names are resolved again.
fn ns_edit(src: &mut Src, cx: &mut Cx, e: &mut NsElem, root: &NodePtr) -> Result<(), String> {
    let mut all = vec![];
    ns_paths(e, vec![], &mut all);
    let at = src.pick(&all).clone();
    let mut n = ns_node(root, &at);
    let p = *src.pick(&["", "p", "q", "p2"]);
    let key = if p.is_empty() { "xmlns".to_string() } else { format!("xmlns:{}", p) };
    match src.us(3) {
        0 => {
            let u = src.pick(&["http://u1", "urn:y", ""]).to_string();
            cx.add_case(&format!(" | at {:?} set {}={}", at, key, u));
            guard(|| n.set_attribute(&key, &u))?;
            let m = ns_at(e, &at);
            match m.decl.iter_mut().find(|d| d.0 == p) {
                Some(d) => d.1 = u,
                None => m.decl.push((p.to_string(), u)),
            }
        }
        1 => {
            cx.add_case(&format!(" | at {:?} delete {}", at, key));
            guard(|| n.delete_attribute(&key))?;
            ns_at(e, &at).decl.retain(|d| d.0 != p);
        }
        _ => {
            let to = src.pick(&all).clone();
            if at.is_empty() || to.starts_with(&at) {
                return Ok(());
            }
            // the model keeps elements before the tail: only targets without one
            if ns_at(e, &to).tail > 0 {
                return Ok(());
            }
            cx.add_case(&format!(" | move {:?} to the end of {:?}", at, to));
            let t = ns_node(root, &to);
            guard(|| t.append_child(&n))?;
            cx.label("moved");
            let m = ns_at(e, &at).clone();
            ns_at(e, &to).kids.push(m);
            let (last, up) = at.split_last().unwrap();
            ns_at(e, up).kids.remove(*last);
        }
    }
    Ok(())
}

pub fn d07(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let mut budget = 12;
    let mut e = gen_ns(src, 5, &mut budget);
    let mut xml = String::new();
    ns_xml(&e, src.flip(), &mut xml);
    cx.case(xml.clone());
    let doc = parse(cx, &xml)?;
    let root = doc.root_element();
    let mut stat = (0, 0);
    ns_check(cx, &e, &root, &mut vec![], &mut stat)?;
    let mut k = 0;
    while src.more(k, 3, 1, 2) {
        k += 1;
        ns_edit(src, cx, &mut e, &root)?;
        ns_check(cx, &e, &root, &mut vec![], &mut (0, 0))?;
    }
    cx.nontrivial = stat.0 >= 2 && stat.1 >= 1;
    Ok(())
}

// ------------------------------------------------------------------------ D08

#[derive(Clone, Debug)]
struct TN {
    kind: u8, // 0 document, 1 element, 2 other leaf
    leaf: Option<M>,
    name: String,
    attrs: Vec<(String, String)>,
    kids: Vec<usize>,
    parent: Option<usize>,
}

/// Model trees (the document, other documents, deleted subtrees) with stable
/// ids, and the handles of their nodes.
struct Tree {
    n: Vec<TN>,
    h: Vec<Option<NodePtr>>,
    /// the topmost nodes of all trees
    roots: Vec<usize>,
    /// handles of attributes: element (while it has the attribute), name, value
    at: Vec<(NodePtr, Option<usize>, String, String)>,
}

impl Tree {
    fn add(&mut self, m: &M, parent: Option<usize>, h: &NodePtr) -> Result<usize, String> {
        let id = self.n.len();
        self.h.push(Some(h.clone()));
        match m {
            M::E(name, attrs, kids) => {
                self.n.push(TN { kind: 1, leaf: None, name: name.clone(), attrs: attrs.clone(), kids: vec![], parent });
                for (i, k) in kids.iter().enumerate() {
                    let ch = match h.nth_child(i) {
                        Some(c) => c,
                        None => return Err(format!("inserted tree lacks child {}", i)),
                    };
                    let c = self.add(k, Some(id), &ch)?;
                    self.n[id].kids.push(c);
                }
            }
            m => self.n.push(TN { kind: 2, leaf: Some(m.clone()), name: String::new(), attrs: vec![], kids: vec![], parent }),
        }
        Ok(id)
    }
    fn add_doc(&mut self, d: &[M], h: &NodePtr) -> Result<usize, String> {
        let id = self.n.len();
        self.n.push(TN { kind: 0, leaf: None, name: String::new(), attrs: vec![], kids: vec![], parent: None });
        self.h.push(Some(h.clone()));
        for (i, m) in d.iter().enumerate() {
            let c = h.nth_child(i).ok_or("missing child")?;
            let k = self.add(m, Some(id), &c)?;
            self.n[id].kids.push(k);
        }
        self.roots.push(id);
        Ok(id)
    }
    fn hd(&self, id: usize) -> NodePtr {
        match self.h[id] {
            Some(ref h) => h.clone(),
            None => panic!("handle was dropped"),
        }
    }
    fn model(&self, id: usize) -> M {
        let t = &self.n[id];
        match t.leaf {
            Some(ref m) => m.clone(),
            None => M::E(t.name.clone(), t.attrs.clone(), t.kids.iter().map(|k| self.model(*k)).collect()),
        }
    }
    fn text(&self, root: usize) -> String {
        if self.n[root].kind == 0 {
            let d: Doc = self.n[root].kids.iter().map(|k| self.model(*k)).collect();
            canonical(&d)
        } else {
            canon_node(&self.model(root))
        }
    }
    fn below(&self, id: usize) -> Vec<usize> {
        let mut v = vec![];
        let mut st = vec![id];
        while let Some(i) = st.pop() {
            v.push(i);
            for k in self.n[i].kids.iter().rev() {
                st.push(*k);
            }
        }
        v
    }
    fn is_anc(&self, a: usize, d: usize) -> bool {
        let mut c = Some(d);
        while let Some(x) = c {
            if x == a {
                return true;
            }
            c = self.n[x].parent;
        }
        false
    }
    /// the node becomes the top of a tree of its own
    fn detach(&mut self, id: usize) {
        if let Some(p) = self.n[id].parent {
            self.n[p].kids.retain(|k| *k != id);
            self.n[id].parent = None;
            self.roots.push(id);
        }
    }
    fn attach(&mut self, id: usize, p: usize, at: usize) {
        self.roots.retain(|r| *r != id);
        self.n[id].parent = Some(p);
        self.n[p].kids.insert(at, id);
    }
    fn pos(&self, id: usize) -> Option<(usize, usize)> {
        let p = self.n[id].parent?;
        let i = self.n[p].kids.iter().position(|k| *k == id)?;
        Some((p, i))
    }
}

fn small_name(src: &mut Src) -> String {
    src.pick(&["a", "b", "c", "x", "ns:a"]).to_string()
}

fn small_elem(src: &mut Src, depth: usize, budget: &mut usize) -> M {
    let mut attrs: Vec<(String, String)> = vec![];
    while src.more(attrs.len(), 3, 1, 3) {
        let n = src.pick(&["k", "id", "v", "w"]).to_string();
        if attrs.iter().any(|(m, _)| *m == n) {
            break;
        }
        attrs.push((n, src.pick(&["1", "2", "<&>", "x y", ""]).to_string()));
    }
    let mut kids: Vec<M> = vec![];
    while *budget > 0 && src.more(kids.len(), 4, 3, 5) {
        *budget -= 1;
        match src.weighted(&[6, 3, 1, 1]) {
            0 if depth > 0 => kids.push(small_elem(src, depth - 1, budget)),
            1 => kids.push(M::T(src.pick(&["t", "u&v", "10", " "]).to_string())),
            2 => kids.push(M::C(src.pick(&["c", "d e"]).to_string())),
            3 => kids.push(M::P("pi".into(), src.pick(&["", "z"]).to_string())),
            _ => {}
        }
        if kids.len() >= 2 {
            if let (M::T(_), M::T(_)) = (&kids[kids.len() - 2], &kids[kids.len() - 1]) {
                kids.pop();
            }
        }
    }
    M::E(small_name(src), attrs, kids)
}

pub fn small_doc(src: &mut Src, n: usize) -> Doc {
    let mut d = vec![];
    if src.chance(1, 4) {
        d.push(M::C("pre".into()));
    }
    let mut b = n;
    d.push(small_elem(src, 4, &mut b));
    if src.chance(1, 6) {
        d.push(M::P("post".into(), "1".into()));
    }
    enlarge(src, &mut d);
    d
}

/// A fresh one-element document; its root element.
fn fresh(src: &mut Src, cx: &mut Cx) -> Result<(M, NodePtr), String> {
    let mut b = 4;
    let m = small_elem(src, 2, &mut b);
    let doc = parse(cx, &canon_node(&m))?;
    Ok((m, doc))
}

const ANM: &[&str] = &["k", "id", "v", "new", "ns:z"];

pub fn d08(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let d = small_doc(src, 10);
    let xml = canonical(&d);
    cx.case(format!("{} ;", xml));
    let mut t = Tree { n: vec![], h: vec![], roots: vec![], at: vec![] };
    {
        let doc = parse(cx, &xml)?;
        t.add_doc(&d, &doc)?;
    }
    let mut kinds = [0usize; 12];
    let mut step = 0;
    while src.more(step, 14, 9, 10) {
        step += 1;
        // mostly in the document, sometimes in what was deleted or in another one
        let main: Vec<usize> = t.below(t.roots[0]);
        let every: Vec<usize> = t.roots.iter().flat_map(|r| t.below(*r)).collect();
        if every.len() > 700 {
            break;
        }
        let any = |src: &mut Src| -> usize {
            if src.chance(1, 4) {
                every[src.us(every.len())]
            } else {
                main[src.us(main.len())]
            }
        };
        let elem = |src: &mut Src, t: &Tree| -> usize {
            for _ in 0..4 {
                let i = any(src);
                if t.n[i].kind == 1 {
                    return i;
                }
            }
            any(src)
        };
        if src.chance(1, 3) {
            // reading the order in between must not freeze it
            let h = t.hd(any(src));
            guard(|| h.document_order())?;
        }
        if src.chance(1, 6) {
            // keep the handle of an attribute
            let e = elem(src, &t);
            let a = t.n[e].attrs.clone();
            if !a.is_empty() {
                let i = src.us(a.len());
                let h = t.hd(e).attributes().get(i).cloned().ok_or("attribute not found")?;
                t.at.push((h, Some(e), a[i].0.clone(), a[i].1.clone()));
            }
        }
        let op = src.weighted(&[4, 5, 3, 3, 4, 3, 2, 3, 3, 1, 2]);
        // what is put somewhere: an existing node or one of a new document
        let mut put = |src: &mut Src, cx: &mut Cx, t: &mut Tree, old: bool| -> Result<Option<usize>, String> {
            if old {
                let c = any(src);
                return Ok(if t.n[c].kind == 0 { None } else { Some(c) });
            }
            let (m, sdoc) = fresh(src, cx)?;
            let id = t.add_doc(&[m], &sdoc)?;
            cx.add_case(&format!(" new {} as #{};", t.text(id), id));
            let all = t.below(id);
            Ok(Some(if src.chance(1, 3) { all[1 + src.us(all.len() - 1)] } else { all[1] }))
        };
        match op {
            0 | 1 => {
                let c = match put(src, cx, &mut t, op == 1)? {
                    Some(c) => c,
                    None => continue,
                };
                let e = elem(src, &t);
                cx.add_case(&format!(" append #{} to #{};", c, e));
                let (h, hc) = (t.hd(e), t.hd(c));
                guard(|| h.append_child(&hc))?;
                if t.n[e].kind == 2 || t.is_anc(c, e) {
                    // not possible
                    kinds[9] += 1;
                } else {
                    t.detach(c);
                    let k = t.n[e].kids.len();
                    t.attach(c, e, k);
                    kinds[op] += 1;
                }
            }
            2 | 3 | 5 => {
                let old = src.chance(1, 3);
                let m = match put(src, cx, &mut t, old)? {
                    Some(c) => c,
                    None => continue,
                };
                if t.below(m).len() > 60 {
                    continue;
                }
                let c = any(src);
                cx.add_case(&format!(" {} #{} {} #{};", if op == 5 { "replace" } else { "insert" }, if op == 5 { c } else { m }, if op == 5 { "with" } else if op == 2 { "before" } else { "after" }, if op == 5 { m } else { c }));
                let model = t.model(m);
                let (h, hm) = (t.hd(c), t.hd(m));
                guard(|| match op {
                    2 => h.insert_as_previous_sibling(&hm),
                    3 => h.insert_as_next_sibling(&hm),
                    _ => h.replace_with(&hm),
                })?;
                match t.pos(c) {
                    // the topmost node has no siblings
                    None => kinds[9] += 1,
                    Some((p, i)) => {
                        let at = if op == 3 { i + 1 } else { i };
                        if op == 5 {
                            t.detach(c);
                        }
                        // what was inserted is a copy
                        let nh = t.hd(p).nth_child(at).ok_or("inserted node not found")?;
                        let id = t.add(&model, Some(p), &nh)?;
                        t.n[p].kids.insert(at, id);
                        kinds[op] += 1;
                    }
                }
            }
            4 => {
                let c = any(src);
                if let Some((p, _)) = t.pos(c) {
                    cx.add_case(&format!(" delete #{};", c));
                    let (hp, hc) = (t.hd(p), t.hd(c));
                    guard(|| hp.delete_child(&hc))?;
                    t.detach(c);
                    kinds[4] += 1;
                }
            }
            6 => {
                // not a child: nothing may happen
                let (a, c) = (any(src), any(src));
                if t.n[c].parent == Some(a) {
                    continue;
                }
                cx.add_case(&format!(" delete non-child #{} from #{};", c, a));
                let (ha, hc) = (t.hd(a), t.hd(c));
                guard(|| ha.delete_child(&hc))?;
                kinds[6] += 1;
            }
            7 => {
                let e = elem(src, &t);
                let n = src.pick(ANM).to_string();
                let v = gen_text(src, 0, 3);
                cx.add_case(&format!(" set #{} {}={:?};", e, n, v));
                let mut h = t.hd(e);
                guard(|| h.set_attribute(&n, &v))?;
                if t.n[e].kind == 1 {
                    for a in t.at.iter_mut().filter(|a| a.1 == Some(e) && a.2 == n) {
                        a.1 = None;
                    }
                    match t.n[e].attrs.iter().position(|(x, _)| *x == n) {
                        Some(i) => t.n[e].attrs[i].1 = v,
                        None => t.n[e].attrs.push((n, v)),
                    }
                    kinds[7] += 1;
                }
            }
            8 => {
                let e = elem(src, &t);
                let n = src.pick(ANM).to_string();
                cx.add_case(&format!(" unset #{} {};", e, n));
                let mut h = t.hd(e);
                guard(|| h.delete_attribute(&n))?;
                if t.n[e].attrs.iter().any(|(x, _)| *x == n) {
                    kinds[8] += 1;
                    for a in t.at.iter_mut().filter(|a| a.1 == Some(e) && a.2 == n) {
                        a.1 = None;
                    }
                }
                t.n[e].attrs.retain(|(x, _)| *x != n);
            }
            9 => {
                // what has no place among children: no effect
                let c = any(src);
                let m = any(src);
                if t.n[m].kind == 0 || t.at.is_empty() {
                    continue;
                }
                let k = src.us(t.at.len());
                let mut a = t.at[k].0.clone();
                cx.add_case(&format!(" attribute {:?} beside and below #{}, #{} beside and below it;", t.at[k].2, c, m));
                let (h, hm) = (t.hd(c), t.hd(m));
                guard(|| {
                    h.append_child(&a);
                    h.insert_as_previous_sibling(&a);
                    h.insert_as_next_sibling(&a);
                    h.replace_with(&a);
                    h.delete_child(&a);
                    a.append_child(&hm);
                    a.insert_as_previous_sibling(&hm);
                    a.insert_as_next_sibling(&hm);
                    a.replace_with(&hm);
                    a.delete_child(&hm);
                    a.set_attribute("k", "v");
                    a.delete_attribute("k");
                })?;
                kinds[9] += 1;
            }
            _ => {
                // the last handle of the top of a tree goes away
                let i = src.us(t.roots.len());
                if t.roots.len() < 2 || i == 0 && !src.chance(1, 4) {
                    continue;
                }
                let r = t.roots.remove(i);
                cx.add_case(&format!(" drop #{};", r));
                let kids = std::mem::replace(&mut t.n[r].kids, vec![]);
                for (j, k) in kids.iter().enumerate() {
                    t.n[*k].parent = None;
                    t.roots.insert(i + j, *k);
                }
                for a in t.at.iter_mut().filter(|a| a.1 == Some(r)) {
                    a.1 = None;
                }
                guard(|| t.h[r] = None)?;
                if t.roots.is_empty() {
                    break;
                }
                kinds[10] += 1;
            }
        }
        // looking at everything after every step would hide what goes wrong
        // when several edits come between two looks
        if src.chance(2, 3) {
            verify(cx, &t)?;
        }
    }
    verify(cx, &t)?;
    for (i, k) in kinds.iter().enumerate() {
        if *k > 0 {
            cx.label(
                [
                    "op append", "op move", "op insert before", "op insert after", "op delete", "op replace", "op delete non-child",
                    "op set attribute", "op delete attribute", "op that cannot apply", "op drop", "",
                ][i],
            );
        }
    }
    let eff: usize = kinds.iter().sum();
    cx.nontrivial = eff >= 3 && kinds.iter().filter(|k| **k > 0).count() >= 2;
    Ok(())
}

fn verify(cx: &mut Cx, t: &Tree) -> Result<(), String> {
    for r in t.roots.iter() {
        let exp = t.text(*r);
        let h = t.hd(*r);
        let got = guard(|| h.to_string())?;
        cx.cmp();
        if exp != got {
            return Err(format!("tree #{} is {:?}, expected {:?}", r, got, exp));
        }
        cx.cmp();
        guard(|| if t.n[*r].kind == 0 { nav(&h) } else { nav_detached(&h) })??;
        // handles kept across the history still denote their nodes
        guard(|| -> Result<(), String> {
            for i in t.below(*r) {
                for (j, k) in t.n[i].kids.iter().enumerate() {
                    if t.h[i].as_ref().and_then(|h| h.nth_child(j)) != t.h[*k] {
                        return Err(format!("handle of node #{} no longer denotes child {} of #{}", k, j, i));
                    }
                }
                let p = t.hd(i).parent();
                if p != t.n[i].parent.and_then(|p| t.h[p].clone()) {
                    return Err(format!("parent of handle #{}", i));
                }
            }
            Ok(())
        })??;
    }
    for (a, e, n, v) in t.at.iter() {
        let (p, nm, val) = guard(|| (a.parent(), a.name(), a.value()))?;
        if p != e.and_then(|e| t.h[e].clone()) {
            return Err(format!("parent of the attribute {:?} of {:?}", n, e));
        }
        if nm != *n || val != *v {
            return Err(format!("the attribute {:?} of {:?} became {:?}={:?}", n, e, nm, val));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------ D09

pub fn d09(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let xml = "<r><a k='1' id='x'/><b/><c v='&lt;' k='2' w=''>t</c></r>";
    cx.case(xml);
    let doc = parse(cx, xml)?;
    let root = doc.root_element();
    let mut maps: Vec<Vec<(String, String)>> = vec![
        vec![],
        vec![("k".into(), "1".into()), ("id".into(), "x".into())],
        vec![],
        vec![("v".into(), "<".into()), ("k".into(), "2".into()), ("w".into(), "".into())],
    ];
    let mut hs: Vec<NodePtr> = vec![root.clone()];
    hs.extend(root.children());
    let names: Vec<String> = {
        let mut v: Vec<String> = ["k", "id", "v", "w", "K", "ns:k", "kk"].iter().map(|s| s.to_string()).collect();
        v.push(gen_name(src));
        if src.chance(1, 12) {
            v.extend((0..40).map(|i| format!("{}{}", ["n", "and", "div", "x-"][i % 4], i / 4)));
        }
        v
    };
    let many = names.len() > 20;
    // handles of attributes: element while it has it, name, value
    let mut kept: Vec<(NodePtr, Option<usize>, String, String)> = vec![];
    let (mut upd, mut del) = (0, 0);
    let mut n = 0;
    while src.more(n, if many { 80 } else { 20 }, if many { 59 } else { 11 }, if many { 60 } else { 12 }) {
        n += 1;
        let e = if many && src.chance(3, 4) { 1 } else { src.us(4) };
        let name = if !maps[e].is_empty() && src.flip() { maps[e][src.us(maps[e].len())].0.clone() } else { names[src.us(names.len())].clone() };
        if src.chance(1, 6) && !maps[e].is_empty() {
            let i = src.us(maps[e].len());
            let h = guard(|| hs[e].attributes())?.get(i).cloned().ok_or("attribute not found")?;
            kept.push((h, Some(e), maps[e][i].0.clone(), maps[e][i].1.clone()));
        }
        let op = src.weighted(&[if many { 9 } else { 4 }, 3, 1, 1]);
        if op < 2 {
            for a in kept.iter_mut().filter(|a| a.1 == Some(e) && a.2 == name) {
                a.1 = None;
            }
        }
        match op {
            0 => {
                let v = gen_text(src, 0, 5);
                cx.add_case(&format!(" set {} {}={:?};", e, name, v));
                let mut h = hs[e].clone();
                guard(|| h.set_attribute(&name, &v))?;
                match maps[e].iter().position(|(x, _)| *x == name) {
                    Some(i) => {
                        upd += 1;
                        maps[e][i].1 = v
                    }
                    None => maps[e].push((name.clone(), v)),
                }
            }
            1 => {
                cx.add_case(&format!(" del {} {};", e, name));
                let mut h = hs[e].clone();
                guard(|| h.delete_attribute(&name))?;
                if maps[e].iter().any(|(x, _)| *x == name) {
                    del += 1;
                }
                maps[e].retain(|(x, _)| *x != name);
            }
            2 => {
                cx.add_case(" order;");
                let h = hs[e].clone();
                guard(|| h.document_order())?;
            }
            _ => {
                // nodes that are not elements have no attributes
                let mut others = vec![doc.clone(), hs[3].nth_child(0).ok_or("missing text")?];
                others.extend(kept.iter().map(|a| a.0.clone()));
                let mut h = others[src.us(others.len())].clone();
                cx.add_case(&format!(" set and delete {:?} at a {:?} node;", name, h.node_type()));
                guard(|| {
                    h.set_attribute(&name, "v");
                    let r = h.attributes().is_empty() && h.attribute_value(&name).is_none();
                    h.delete_attribute(&name);
                    r
                })?
                .then(|| ())
                .ok_or("a node that is not an element got an attribute")?;
            }
        }
        for (a, e, nm, v) in kept.iter() {
            let p = guard(|| a.parent())?;
            if p != e.map(|e| hs[e].clone()) {
                return Err(format!("parent of the attribute {:?}, belonging to {:?}", nm, e));
            }
            if a.name() != *nm || a.value() != *v {
                return Err(format!("the attribute {:?}={:?} became {:?}={:?}", nm, v, a.name(), a.value()));
            }
        }
        for (i, m) in maps.iter().enumerate() {
            cx.cmp();
            let h = hs[i].clone();
            let got: Vec<(String, String)> = guard(|| h.attributes().iter().map(|a| (a.name(), a.value())).collect())?;
            if got != *m {
                return Err(format!("attributes of element {}: {:?}, expected {:?}", i, got, m));
            }
            if i == e {
                let got: Vec<(String, String)> =
                    guard(|| h.get_nodeset("@*").map(|v| v.iter().map(|a| (a.name(), a.value())).collect()).map_err(|e| e.to_string()))??;
                if got != *m {
                    return Err(format!("@* of element {}: {:?}, expected {:?}", i, got, m));
                }
            }
            for nm in names.iter() {
                let exp = m.iter().find(|(x, _)| x == nm).map(|(_, v)| v.clone());
                if guard(|| h.attribute_value(nm))? != exp {
                    return Err(format!("attribute_value({:?}) of element {}, expected {:?}", nm, i, exp));
                }
                // and through XPath
                if i != e || many && *nm != name {
                    continue;
                }
                let got = guard(|| h.get_first_node(&format!("@{}", nm)).map(|a| a.value()))?;
                if got != exp {
                    return Err(format!("@{} of element {} is {:?}, expected {:?}", nm, i, got, exp));
                }
            }
        }
        let s = guard(|| doc.to_string())?;
        let exp = {
            let e = |n: &str, i: usize, k: Vec<M>| M::E(n.into(), maps[i].clone(), k);
            canon_node(&e("r", 0, vec![e("a", 1, vec![]), e("b", 2, vec![]), e("c", 3, vec![M::T("t".into())])]))
        };
        if s != exp {
            return Err(format!("document is {:?}, expected {:?}", s, exp));
        }
        if src.chance(2, 3) {
            check_nav(cx, &doc)?;
        }
    }
    check_nav(cx, &doc)?;
    cx.nontrivial = upd > 0 && del > 0;
    Ok(())
}

// ------------------------------------------------------------------------ D11

struct Scratch(std::path::PathBuf);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn program() -> std::path::PathBuf {
    let p = crate::verif_dir().join("program/target/release/amxml-program");
    if !p.exists() {
        eprintln!("{} is missing: run check.sh --build", p.display());
        std::process::exit(4);
    }
    p
}

pub fn d11(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    use std::process::*;
    let dir = Scratch(std::env::temp_dir().join(format!("pbt-d11-{}", std::process::id())));
    let _ = std::fs::remove_dir_all(&dir.0);
    std::fs::create_dir_all(&dir.0).map_err(|e| e.to_string())?;
    let name = *src.pick(&["a.xml", "a", "a b.xml", "\u{e9}\u{6587}.xml", "-x", ".hidden", "sub/a.xml", "a.XML.txt", "it's \"q\" $x;*.xml"]);
    let mut name = std::ffi::OsString::from(name);
    if src.chance(1, 12) {
        use std::os::unix::ffi::OsStrExt;
        name.push(std::ffi::OsStr::from_bytes(src.pick(&[&b"\xff"[..], &b"\x82\xa0.xml"[..], &b"\xc3"[..]])));
        cx.label("name is not UTF-8");
    }
    let d = gen_doc(src);
    let mut r = Render::new(true);
    r.doc(src, &d);
    let xml = r.out.clone();
    // what the file holds, and what has to be printed
    let mut exp: Option<String> = None;
    let mut bytes: Option<Vec<u8>> = None;
    let mut no_arg = false;
    let which = src.weighted(&[10, 4, 4, 2, 2, 1]);
    let mut why = String::new();
    match which {
        0 => {
            let mut p = String::new();
            if src.flip() {
                for m in d.iter() {
                    pretty(m, 0, &mut p);
                }
                bytes = Some(canonical(&d).into_bytes());
            } else {
                // text and CDATA sections next to each other may be one node or several
                p = guard(|| new_document(&xml).map(|d| d.to_pretty_string()).map_err(|e| e.to_string()))??;
                bytes = Some(xml.clone().into_bytes());
            }
            exp = Some(p + "\n");
            cx.label("well-formed");
            cx.nontrivial = depth(&d) >= 2 && size(&d) >= 3;
        }
        1 => {
            let (lo, hi) = root_span(&d, &r, &xml);
            let cuts: Vec<usize> = (lo + 1..hi).filter(|i| xml.is_char_boundary(*i)).collect();
            if cuts.is_empty() {
                return Ok(());
            }
            let i = *src.pick(&cuts);
            bytes = Some(xml[..i].as_bytes().to_vec());
            why = guard(|| new_document(&xml[..i]).map(|_| String::new()).unwrap_or_else(|e| e.to_string()))?;
            cx.label("cut off");
            cx.nontrivial = true;
        }
        2 => {
            let s = mutated(src, &xml);
            match guard(|| new_document(&s).map(|d| d.to_pretty_string()).map_err(|e| e.to_string()))? {
                Ok(p) => exp = Some(p + "\n"),
                Err(e) => why = e,
            }
            bytes = Some(s.into_bytes());
            cx.label(if exp.is_some() { "mutated, accepted" } else { "mutated, rejected" });
            cx.nontrivial = true;
        }
        3 => {
            // not UTF-8
            let mut v = xml.clone().into_bytes();
            let at: Vec<usize> = (0..xml.len() + 1).filter(|i| xml.is_char_boundary(*i)).collect();
            let at = *src.pick(&at);
            let bad: &[u8] = *src.pick(&[&b"\xff"[..], &b"\x80"[..], &b"\xc3"[..], &b"\xe3\x81"[..], &b"\xed\xa0\x80"[..], &b"\xf4\x90\x80\x80"[..], &b"\xc0\xaf"[..]]);
            for (k, b) in bad.iter().enumerate() {
                v.insert(at + k, *b);
            }
            if std::str::from_utf8(&v).is_ok() {
                return Ok(());
            }
            bytes = Some(v);
            cx.label("not UTF-8");
        }
        4 => cx.label("no such file"),
        _ => {
            no_arg = true;
            bytes = Some(xml.clone().into_bytes());
            cx.label("no argument");
        }
    }
    let f = dir.0.join(&name);
    std::fs::create_dir_all(f.parent().unwrap()).map_err(|e| e.to_string())?;
    if let Some(v) = &bytes {
        std::fs::write(&f, v).map_err(|e| e.to_string())?;
    } else if src.chance(1, 3) {
        // a directory is no file to be read
        std::fs::create_dir_all(&f).map_err(|e| e.to_string())?;
    }
    cx.case(format!("{:?}: {:?}", name, bytes.as_ref().map(|v| String::from_utf8_lossy(v).to_string())));
    let mut c = Command::new(program());
    c.current_dir(&dir.0).stdin(Stdio::null());
    if !no_arg {
        if src.flip() {
            c.arg(&f);
        } else {
            c.arg(&name);
        }
    }
    if src.chance(1, 12) {
        // nothing can be written
        if let Ok(full) = std::fs::OpenOptions::new().write(true).open("/dev/full") {
            c.stdout(full);
            if exp.take().is_some() {
                why = "about the output".into();
            }
            cx.label("output is full");
        }
    }
    let o = c.stderr(Stdio::piped()).output().map_err(|e| e.to_string())?;
    let out = String::from_utf8(o.stdout).map_err(|e| format!("the output is not UTF-8: {}", e))?;
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    let code = o.status.code();
    cx.cmp();
    match exp {
        Some(p) => {
            if code != Some(0) || out != p || !err.is_empty() {
                return Err(format!("status {:?}, output {:?}, messages {:?}; expected status 0 and the output {:?}", code, out, err, p));
            }
        }
        None => {
            if code != Some(1) || !out.is_empty() || err.is_empty() || err.contains("panicked") {
                return Err(format!("status {:?}, output {:?}, messages {:?}; expected status 1, no output and a message {:?}", code, out, err, why));
            }
        }
    }
    cx.cmp();
    if let Some(v) = &bytes {
        if std::fs::read(&f).ok().as_ref() != Some(v) {
            return Err("the file was changed".into());
        }
    }
    let n = std::fs::read_dir(&dir.0).map(|d| d.count()).unwrap_or(0);
    if n > 1 {
        return Err("the program left files behind".into());
    }
    Ok(())
}
