From 8b11480be1815c387246926c8723654d9f465543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 01/81] fix: keep parent links consistent when subtrees are
 appended, inserted or deleted

append_child left the appended node pointing to its old parent, and the
insert methods shared the child and attribute nodes of the source tree, so
parent(), root(), document order and XPath went wrong on the result and
panicked once the source document was dropped. append_child now moves the
node, the insert methods insert a real copy, and delete_child detaches.
---
 src/dom.rs | 88 +++++++++++++++++++++++++++++++++---------------------
 1 file changed, 54 insertions(+), 34 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 196d2d4..c401209 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -119,7 +119,7 @@ struct Node {
     order: Cell<i64>,
     name: String,
     value: String,
-    parent: Option<RefCell<Weak<Node>>>,
+    parent: RefCell<Option<Weak<Node>>>,
     children: RefCell<Vec<RcNode>>,
     attributes: RefCell<Vec<RcNode>>,
 }
@@ -136,8 +136,8 @@ fn make_new_rc_node(node_type: NodeType,
         name: String::from(name),
         value: String::from(value),
         parent: match parent {
-            Some(p) => Some(RefCell::new(Rc::downgrade(p))),
-            None => None,
+            Some(p) => RefCell::new(Some(Rc::downgrade(p))),
+            None => RefCell::new(None),
         },
         children: RefCell::new(vec!{}),
         attributes: RefCell::new(vec!{}),
@@ -203,8 +203,8 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
                         "Element name mismatch: {} and {}",
                         curr_node.name.as_str(), name));
                 }
-                curr_node = match curr_node.parent {
-                    Some(ref p) => p.borrow().upgrade().unwrap(),
+                curr_node = match parent_rc_node(&curr_node) {
+                    Some(p) => p,
                     None => Rc::clone(&curr_node),
                 };
             },
@@ -240,14 +240,30 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
 }
 
 // ---------------------------------------------------------------------
+// 親ノードを返す。親がない場合や、親を含む木が既に破棄されている場合は None。
 //
-fn shallow_copy_rc_rels(target: &mut RcNode, source: &RcNode) {
-    for ch in source.children.borrow().iter() {
-        target.children.borrow_mut().push(Rc::clone(ch));
-    }
+fn parent_rc_node(rc_node: &RcNode) -> Option<RcNode> {
+    return match *rc_node.parent.borrow() {
+        Some(ref p) => p.upgrade(),
+        None => None,
+    };
+}
+
+// ---------------------------------------------------------------------
+// ノードを、属性・子孫も含めて複製する。
+//
+fn deep_copy_rc_node(source: &RcNode, parent: &mut RcNode) -> RcNode {
+    let mut dup = make_new_rc_node(source.node_type.clone(), Some(parent),
+                &source.name, &source.value);
     for at in source.attributes.borrow().iter() {
-        target.attributes.borrow_mut().push(Rc::clone(at));
+        let at_dup = deep_copy_rc_node(at, &mut dup);
+        dup.attributes.borrow_mut().push(at_dup);
+    }
+    for ch in source.children.borrow().iter() {
+        let ch_dup = deep_copy_rc_node(ch, &mut dup);
+        dup.children.borrow_mut().push(ch_dup);
     }
+    return dup;
 }
 
 // =====================================================================
@@ -440,8 +456,8 @@ impl NodePtr {
             if let Some(value) = val {
                 return value.clone();
             }
-            curr = match (*curr).parent {
-                Some(ref p) => p.borrow().upgrade().unwrap(),
+            curr = match parent_rc_node(&curr) {
+                Some(p) => p,
                 None => return String::new(),
             };
         }
@@ -466,8 +482,8 @@ impl NodePtr {
     pub fn root(&self) -> NodePtr {
         let mut curr = self.unwrap_rc();
         loop {
-            curr = match (*curr).parent {
-                Some(ref p) => p.borrow().upgrade().unwrap(),
+            curr = match parent_rc_node(&curr) {
+                Some(p) => p,
                 None => return wrap_rc_clone(&curr),
             };
         }
@@ -515,11 +531,8 @@ impl NodePtr {
     /// ```
     ///
     pub fn parent(&self) -> Option<NodePtr> {
-        match self.unwrap_rc().parent {
-            Some(ref p) => {
-                let parent_node = p.borrow().upgrade().unwrap();
-                return Some(wrap_rc_clone(&parent_node));
-            },
+        match parent_rc_node(&self.rc_node) {
+            Some(p) => return Some(wrap_rc_clone(&p)),
             None => return None,
         }
     }
@@ -614,6 +627,20 @@ impl NodePtr {
     pub fn append_child(&self, new_child: &NodePtr) {
         let rc_self = self.unwrap_rc();
         let rc_new_child = new_child.unwrap_rc();
+
+        // 自分自身や祖先を子にすると木でなくなるので、何もしない。
+        let mut curr = Some(Rc::clone(&rc_self));
+        while let Some(rc_node) = curr {
+            if Rc::ptr_eq(&rc_node, &rc_new_child) {
+                return;
+            }
+            curr = parent_rc_node(&rc_node);
+        }
+
+        if let Some(old_parent) = new_child.parent() {
+            old_parent.delete_child(new_child);
+        }
+        *rc_new_child.parent.borrow_mut() = Some(Rc::downgrade(&rc_self));
         rc_self.children.borrow_mut().push(Rc::clone(&rc_new_child));
         self.clear_document_order();
     }
@@ -651,13 +678,9 @@ impl NodePtr {
             let mut rc_parent = parent.unwrap_rc();
             let rc_new_node = new_node.unwrap_rc();
 
-            let mut rc_new_node_dup = make_new_child_rc_node(
-                rc_new_node.node_type.clone(),
-                &mut rc_parent,
-                &rc_new_node.name,
-                &rc_new_node.value,
-                n);
-            shallow_copy_rc_rels(&mut rc_new_node_dup, &rc_new_node);
+            let rc_new_node_dup = deep_copy_rc_node(
+                &rc_new_node, &mut rc_parent);
+            rc_parent.children.borrow_mut().insert(n, rc_new_node_dup);
         }
         self.clear_document_order();
     }
@@ -695,13 +718,9 @@ impl NodePtr {
             let mut rc_parent = parent.unwrap_rc();
             let rc_new_node = new_node.unwrap_rc();
 
-            let mut rc_new_node_dup = make_new_child_rc_node(
-                rc_new_node.node_type.clone(),
-                &mut rc_parent,
-                &rc_new_node.name,
-                &rc_new_node.value,
-                n + 1);
-            shallow_copy_rc_rels(&mut rc_new_node_dup, &rc_new_node);
+            let rc_new_node_dup = deep_copy_rc_node(
+                &rc_new_node, &mut rc_parent);
+            rc_parent.children.borrow_mut().insert(n + 1, rc_new_node_dup);
         }
         self.clear_document_order();
     }
@@ -731,7 +750,8 @@ impl NodePtr {
         let n = self.find_child_index(target);
         if n != usize::MAX {
             let rc_node = self.unwrap_rc();
-            (*rc_node).children.borrow_mut().remove(n);
+            let rc_child = (*rc_node).children.borrow_mut().remove(n);
+            *rc_child.parent.borrow_mut() = None;
         }
         self.clear_document_order();
     }
-- 
2.43.0


From 306d1bbc55b74639f4592efc8c84b2a011f89b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 02/81] fix: reject malformed start tags instead of looping or
 skipping characters

An input ending inside a start tag made the decoder loop forever, a '<' not
followed by a name produced an element without a name, and stray characters
between attributes were skipped silently.
---
 src/sax.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sax.rs b/src/sax.rs
index 6c8d53b..21bb91a 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -246,6 +246,9 @@ impl SaxDecoder {
             } else {                    // Start Element
                 self.ungetchar();
                 let name = self.get_name();
+                if name == "" {
+                    return Err(xml_syntax_error!("no element name after <"));
+                }
                 let mut attr = vec!{};
                 loop {
                     self.skip_spaces();
@@ -282,6 +285,10 @@ impl SaxDecoder {
                         } else {
                             return Err(xml_syntax_error!("illegal char after /"));
                         }
+                    } else if ch == EOF {
+                        return Err(xml_syntax_error!("Unexpected EOF in start tag"));
+                    } else if ! is_space(ch) {
+                        return Err(xml_syntax_error!("illegal char in start tag"));
                     }
                 }
                 return Ok(XmlToken::StartElement{name, attr});
-- 
2.43.0


From 782307e0b9ba6ad6b8b8339e13e56546c9908bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 03/81] fix: decode entity and character references in a single
 pass

Replacing the references one kind after another decoded text twice:
'&#38;lt;' became '<' instead of '&lt;'.
---
 src/sax.rs | 84 +++++++++++++++++++++++++++++-------------------------
 1 file changed, 45 insertions(+), 39 deletions(-)

diff --git a/src/sax.rs b/src/sax.rs
index 21bb91a..3970ccb 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -878,50 +878,56 @@ fn char_is_in_ranges(ch: char, ch_ranges: &[(u32, u32)]) -> bool {
 // [68] EntityRef ::= '&' Name ';'              // 実体参照
 //
 fn decode_entity(s: &String) -> String {
-
-    // -----------------------------------------------------------------
-    //
-    let mut buf = s.clone();
-    for (pattern, radix) in [("&#x", 16), ("&#", 10)].iter() {
-        loop {
-            let ss = buf.clone();
-            let v: Vec<&str> = ss.splitn(2, pattern).collect();
-            if v.len() != 2 {
-                break;
-            }
-
-            let w: Vec<&str> = v[1].splitn(2, ";").collect();
-            if w.len() != 2 {
-                break;
-            }
-
-            let head = v[0];
-            let entity = w[0];
-            let tail = w[1];
-
-            let u = u32::from_str_radix(&entity, *radix as u32).unwrap_or(0x3013);
-                                                            // \u3013 = '〓'
-            let ch = char::from_u32(u).unwrap_or('〓');
-            buf = format!("{}{}{}", &head, ch, &tail);
+    // 一度デコードした結果を再びデコードすることのないよう、先頭から順に調べる。
+    let mut buf = String::new();
+    let mut rest = s.as_str();
+    while let Some(amp) = rest.find('&') {
+        buf += &rest[.. amp];
+        rest = &rest[amp ..];
+        let decoded = match rest.find(';') {
+            Some(semicolon) => decode_reference(&rest[1 .. semicolon])
+                                .map(|ch| (ch, semicolon + 1)),
+            None => None,
+        };
+        match decoded {
+            Some((ch, len)) => {
+                buf.push(ch);
+                rest = &rest[len ..];
+            },
+            None => {
+                buf.push('&');
+                rest = &rest[1 ..];
+            },
         }
     }
-
-    // -----------------------------------------------------------------
-    //
-    let entity_specs = [
-        [ "&gt;", ">" ],
-        [ "&lt;", "<" ],
-        [ "&quot;", "\"" ],
-        [ "&apos;", "'" ],
-        [ "&amp;", "&" ],
-    ];
-    for spec in entity_specs.iter() {
-        buf = buf.replace(spec[0], spec[1]);
-    }
-
+    buf += rest;
     return buf;
 }
 
+// ---------------------------------------------------------------------
+// '&' と ';' の間の文字列が参照する文字を返す。
+// キャラクター参照として不正ならば '〓' (\u3013) とし、
+// 定義済み実体でなければ None を返す。
+//
+fn decode_reference(name: &str) -> Option<char> {
+    let (digits, radix) = if name.starts_with("#x") {
+        (&name[2 ..], 16)
+    } else if name.starts_with("#") {
+        (&name[1 ..], 10)
+    } else {
+        return match name {
+            "gt" => Some('>'),
+            "lt" => Some('<'),
+            "quot" => Some('"'),
+            "apos" => Some('\''),
+            "amp" => Some('&'),
+            _ => None,
+        };
+    };
+    let ch = u32::from_str_radix(digits, radix).ok().and_then(char::from_u32);
+    return Some(ch.unwrap_or('〓'));
+}
+
 
 // =====================================================================
 //
-- 
2.43.0


From cf837fc9bb7934da07c7ceb5aa035839ed7660b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 04/81] fix: keep carriage returns

A lone CR in a document is a line end and becomes LF instead of vanishing,
and a CR in a value (from a character reference) is serialised as a
reference, since a literal one would be read back as a line end.
---
 src/dom.rs | 1 +
 src/sax.rs | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index c401209..c933148 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1023,6 +1023,7 @@ fn encode_entity(s: &String) -> String {
         [ "<", "&lt;" ],
         [ "\"", "&quot;" ],
         [ "'", "&apos;" ],
+        [ "\r", "&#13;" ],
     ];
     let mut str = s.clone();
     for spec in specs.iter() {
diff --git a/src/sax.rs b/src/sax.rs
index 3970ccb..4e074a4 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -151,7 +151,7 @@ impl SaxDecoder {
     ///
     pub fn new(xml_string: &str) -> Result<SaxDecoder, Box<Error>> {
         return Ok(SaxDecoder{
-            char_vec: xml_string.chars().filter(|x| *x != '\r').collect(),
+            char_vec: xml_string.replace("\r\n", "\n").replace("\r", "\n").chars().collect(),
                 // XML 1.0: 行末の処理
                 // 解析前に改行すべてを #x0A に標準化する。
             index: 0,
-- 
2.43.0


From 96e2ace783f5953accf1f6e7b29605423458b867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 05/81] fix: report unclosed elements and stray end tags

A document ending before its elements are closed was accepted silently, and
so was an end tag without a name outside any element.
---
 src/dom.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index c933148..c2e18c2 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -183,6 +183,11 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
     loop {
         match dec.raw_token() {
             Ok(XmlToken::EOF) => {
+                if curr_node.node_type == NodeType::Element {
+                    return Err(xml_syntax_error!(
+                        "Unexpected EOF: element {} not closed",
+                        curr_node.name));
+                }
                 break;
             },
             Ok(XmlToken::StartElement{name, attr}) => {
@@ -198,7 +203,8 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
                 }
             },
             Ok(XmlToken::EndElement{name}) => {
-                if curr_node.name.as_str() != name {
+                if curr_node.node_type != NodeType::Element ||
+                   curr_node.name.as_str() != name {
                     return Err(xml_syntax_error!(
                         "Element name mismatch: {} and {}",
                         curr_node.name.as_str(), name));
-- 
2.43.0


From 0788017c33371a811659ca4850b227babdd1aade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 06/81] fix: following and preceding axes from an attribute
 node

---
 src/xpath_impl/eval.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 7361426..21cec96 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -938,7 +938,13 @@ fn array_descendant_or_self(node: &NodePtr) -> Vec<NodePtr> {
 //
 fn array_following(node: &NodePtr) -> Vec<NodePtr> {
     let mut node_array: Vec<NodePtr> = vec!{};
-    if node.node_type() != NodeType::Attribute {
+    if node.node_type() == NodeType::Attribute {
+        // 属性ノードの後には、所属する要素の子孫、その要素のfollowingの順に続く。
+        if let Some(parent) = node.parent() {
+            node_array.append(&mut array_descendant(&parent));
+            node_array.append(&mut array_following(&parent));
+        }
+    } else {
         let all_nodes = array_descendant_or_self(&node.root());
         let descendant_or_self_nodes = array_descendant_or_self(&node);
         let mut self_occured = false;
@@ -980,7 +986,12 @@ fn array_following_sibling(node: &NodePtr) -> Vec<NodePtr> {
 //
 fn array_preceding(node: &NodePtr) -> Vec<NodePtr> {
     let mut node_array: Vec<NodePtr> = vec!{};
-    if node.node_type() != NodeType::Attribute {
+    if node.node_type() == NodeType::Attribute {
+        // 属性ノードに先立つノードは、所属する要素のprecedingに等しい。
+        if let Some(parent) = node.parent() {
+            node_array.append(&mut array_preceding(&parent));
+        }
+    } else {
         let all_nodes = array_descendant_or_self(&node.root());
         let ancestor_nodes = array_ancestor(&node);
         let mut self_occured = false;
-- 
2.43.0


From 5e84758126e3e8715d36db357a236ae4917038d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 07/81] fix: match the *:name node test

---
 src/xpath_impl/eval.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 21cec96..0e9caad 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1104,6 +1104,15 @@ fn match_name_test(node: &NodePtr, xnode: &XNodePtr) -> bool {
         }
     }
 
+    // -------------------------------------------------------------
+    // 「*:na」との照合にもとづく判定
+    //
+    if v.len() == 2 && v[0] == "*" {
+        if node.local_name() == v[1] {
+            return true;
+        }
+    }
+
     return false;
 }
 
-- 
2.43.0


From 1d90d636a37b05e990290223f6932182f2d0f881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 08/81] fix: predicates use the effective boolean value

---
 src/xpath_impl/eval.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 0e9caad..d16e03b 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1325,19 +1325,16 @@ fn filter_by_predicate(xseq: &XSequence, xnode: &XNodePtr,
         eval_env.set_position(old_position);
 
         // 評価結果をもとに、このアイテムを残すかどうか判定する。
-        let mut do_push = false;
-        match val.get_singleton_item() {
+        // 数値であれば文脈位置と比較し、それ以外の場合は実効ブール値による。
+        let do_push = match val.get_singleton_item() {
             Ok(XItem::XIInteger{value}) => {
-                do_push = value == usize_to_i64(position);
+                value == usize_to_i64(position)
             },
-            Ok(XItem::XINode{value: _}) => {
-                do_push = true;
+            Ok(XItem::XIDecimal{value}) | Ok(XItem::XIDouble{value}) => {
+                value == position as f64
             },
-            Ok(XItem::XIBoolean{value}) => {
-                do_push = value;
-            },
-            _ => {},
-        }
+            _ => val.effective_boolean_value()?,
+        };
         if do_push {
             result.push(&xitem.clone());
         }
-- 
2.43.0


From e8ffefc08766228d61c1bf62b11015161d2fbe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 09/81] fix: string values do not include comments and
 processing instructions

---
 src/xpath_impl/xitem.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 573f0a8..f618607 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -297,20 +297,33 @@ impl NodePtr {
             NodeType::DocumentRoot | NodeType::Element => {
                 let mut s = String::new();
                 for ch in self.children().iter() {
-                    s += &ch.string_value();
+                    if ch.contributes_to_string_value() {
+                        s += &ch.string_value();
+                    }
                 }
                 return s;
             },
-            NodeType::Text | NodeType::Attribute | NodeType::Comment => {
+            NodeType::Text | NodeType::Attribute |
+            NodeType::Comment | NodeType::Instruction => {
                 return format!("{}", self.value());
             },
-            NodeType::XMLDecl | NodeType::Instruction => {
+            NodeType::XMLDecl => {
                 return format!("{} {}", self.name(), self.value());
             },
             _ => return String::new(),
         }
     }
 
+    // =================================================================
+    // 文書ノードや要素ノードの文字列値は、子孫のテキスト・ノードのみから成る。
+    //
+    fn contributes_to_string_value(&self) -> bool {
+        match self.node_type() {
+            NodeType::Element | NodeType::Text => return true,
+            _ => return false,
+        }
+    }
+
     // =================================================================
     // Returns the typed value of DOM node.
     // 型註釈がないとすれば、string_valueと同じ結果になる。
@@ -343,7 +356,9 @@ impl NodePtr {
             NodeType::DocumentRoot => {             // xs:untypedAtomic
                 let mut s = String::new();
                 for ch in self.children().iter() {
-                    s += &ch.typed_value();
+                    if ch.contributes_to_string_value() {
+                        s += &ch.typed_value();
+                    }
                 }
                 return s;
             },
@@ -351,7 +366,7 @@ impl NodePtr {
                 return format!("{}", self.value());
             },
             NodeType::Instruction => {              // xs:string
-                return format!("{} {}", self.name(), self.value());
+                return format!("{}", self.value());
             },
             NodeType::Attribute => {                // xs:untypedAtomic
                 return format!("{}", self.value());
@@ -359,7 +374,9 @@ impl NodePtr {
             NodeType::Element => {                  // xs:untypedAtomic
                 let mut s = String::new();
                 for ch in self.children().iter() {
-                    s += &ch.typed_value();
+                    if ch.contributes_to_string_value() {
+                        s += &ch.typed_value();
+                    }
                 }
                 return s;
             },
-- 
2.43.0


From 4237b0b1c850b379ad277de0edf14d527fd5c885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 10/81] fix: a step from an item that is not a node is an error

---
 src/xpath_impl/eval.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index d16e03b..3cdc48d 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -776,6 +776,10 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
 //
 fn match_location_path(xseq: &XSequence, xnode: &XNodePtr,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
+    if ! xseq.is_no_atom() {
+        return Err(type_error!("Location Step: 文脈アイテムがノードでない。"));
+    }
+
     let mut new_node_array: Vec<NodePtr> = vec!{};
     for node in xseq.to_nodeset().iter() {
         let mut matched_xseq = match_loc_step(node, xnode, eval_env)?;
-- 
2.43.0


From b5e9a11d22eb591047486e6afb57efba99362782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 11/81] fix: integer overflow is an error and idiv truncates
 the quotient, not the operands

---
 src/xpath_impl/xitem.rs | 64 ++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index f618607..286e17a 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -830,21 +830,21 @@ pub fn xitem_compare(lhs: &XItem, rhs: &XItem) -> Result<i64, Box<Error>> {
 //
 pub fn xitem_numeric_add(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a + b },
+                |a, b| { a.checked_add(b) },
                 |a, b| { a + b },
                 |a, b| { a + b });
 }
 
 pub fn xitem_numeric_subtract(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a - b },
+                |a, b| { a.checked_sub(b) },
                 |a, b| { a - b },
                 |a, b| { a - b });
 }
 
 pub fn xitem_numeric_multiply(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a * b },
+                |a, b| { a.checked_mul(b) },
                 |a, b| { a * b },
                 |a, b| { a * b });
 }
@@ -870,7 +870,7 @@ pub fn xitem_numeric_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error
         _ => return Err(cant_occur!("xitem_numeric_divide: rhs_a")),
     };
     return xitem_numeric_operation(lhs, &rhs_a,
-                |a, b| { a / b },
+                |a, b| { a.checked_div(b) },
                 |a, b| { a / b },
                 |a, b| { a / b });
 }
@@ -898,23 +898,33 @@ pub fn xitem_numeric_integer_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, B
         _ => {},
     }
 
-    let lhs = match lhs {
-        XItem::XIInteger{value} => *value,
-        XItem::XIDecimal{value} => f64_to_i64(*value),
-        XItem::XIDouble{value} => f64_to_i64(*value),
-        _ => 0,
-    };
-    let rhs = match rhs {
-        XItem::XIInteger{value} => *value,
-        XItem::XIDecimal{value} => f64_to_i64(*value),
-        XItem::XIDouble{value} => f64_to_i64(*value),
-        _ => 0,
-    };
-    if rhs != 0 {
-        return Ok(new_xitem_integer(lhs / rhs));
-    } else {
+    // 整数どうしであれば、そのまま除算する (精度を失わない)。
+    if let XItem::XIInteger{value: lhs} = lhs {
+        if let XItem::XIInteger{value: rhs} = rhs {
+            if *rhs == 0 {
+                return Err(dynamic_error!("Division by zero"));
+            }
+            match lhs.checked_div(*rhs) {
+                Some(v) => return Ok(new_xitem_integer(v)),
+                None => return Err(dynamic_error!("Numeric operation overflow/underflow.")),
+            }
+        }
+    }
+
+    // そうでなければ、商を求めてから小数部を切り捨てる。
+    if ! lhs.is_numeric() || ! rhs.is_numeric() {
+        return Err(type_error!("xitem_numeric_integer_divide: Not numeric"));
+    }
+    let lhs = lhs.get_as_raw_double()?;
+    let rhs = rhs.get_as_raw_double()?;
+    if rhs == 0.0 {
         return Err(dynamic_error!("Division by zero"));
     }
+    let quotient = (lhs / rhs).trunc();
+    if quotient < i64::MIN as f64 || - (i64::MIN as f64) <= quotient {
+        return Err(dynamic_error!("Numeric operation overflow/underflow."));
+    }
+    return Ok(new_xitem_integer(f64_to_i64(quotient)));
 }
 
 // ---------------------------------------------------------------------
@@ -935,7 +945,7 @@ pub fn xitem_numeric_mod(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>>
     }
 
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a.rem(b) },
+                |a, b| { Some(a.wrapping_rem(b)) },
                 |a, b| { a.rem(b) },
                 |a, b| { a.rem(b) });
 }
@@ -955,7 +965,12 @@ pub fn xitem_numeric_unary_plus(arg: &XItem) -> Result<XItem, Box<Error>> {
 //
 pub fn xitem_numeric_unary_minus(arg: &XItem) -> Result<XItem, Box<Error>> {
     match arg {
-        XItem::XIInteger{value} => return Ok(new_xitem_integer(value.neg())),
+        XItem::XIInteger{value} => {
+            match value.checked_neg() {
+                Some(v) => return Ok(new_xitem_integer(v)),
+                None => return Err(dynamic_error!("Numeric operation overflow/underflow.")),
+            }
+        },
         XItem::XIDecimal{value} => return Ok(new_xitem_decimal(value.neg())),
         XItem::XIDouble{value} => return Ok(new_xitem_double(value.neg())),
         _ => return Err(type_error!("xitem_numeric_operation: Not numeric")),
@@ -968,7 +983,7 @@ pub fn xitem_numeric_unary_minus(arg: &XItem) -> Result<XItem, Box<Error>> {
 //
 fn xitem_numeric_operation<FINT, FDEC, FDBL>(lhs: &XItem, rhs: &XItem,
         mut int_op: FINT, mut dec_op: FDEC, mut dbl_op: FDBL) -> Result<XItem, Box<Error>>
-        where FINT: FnMut(i64, i64) -> i64,
+        where FINT: FnMut(i64, i64) -> Option<i64>,
               FDEC: FnMut(f64, f64) -> f64,
               FDBL: FnMut(f64, f64) -> f64 {
 
@@ -976,7 +991,10 @@ fn xitem_numeric_operation<FINT, FDEC, FDBL>(lhs: &XItem, rhs: &XItem,
         XItem::XIInteger{value: lhs} => {
             match rhs {
                 XItem::XIInteger{value: rhs} => {
-                    return Ok(new_xitem_integer(int_op(*lhs, *rhs)));
+                    match int_op(*lhs, *rhs) {
+                        Some(v) => return Ok(new_xitem_integer(v)),
+                        None => return Err(dynamic_error!("Numeric operation overflow/underflow.")),
+                    }
                 },
                 XItem::XIDecimal{value: rhs} => {
                     return Ok(new_xitem_decimal(dec_op(int_to_dec(*lhs), *rhs)));
-- 
2.43.0


From 4bbf5bf72e9bebfa59e2193f0f948597dc5b0225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 12/81] fix: dividing a double by zero is infinity or NaN
 whatever type the zero has

---
 src/xpath_impl/xitem.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 286e17a..eefee5c 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -852,6 +852,12 @@ pub fn xitem_numeric_multiply(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Err
 // ---------------------------------------------------------------------
 //
 pub fn xitem_numeric_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
+    // 一方がDoubleならば、もう一方もDoubleに昇格するので、ゼロ除算にはならない。
+    if let XItem::XIDouble{value: lhs} = lhs {
+        if rhs.is_numeric() {
+            return Ok(new_xitem_double(lhs / rhs.get_as_raw_double()?));
+        }
+    }
     let rhs_a = match rhs {
         XItem::XIInteger{value: rhs} => {
             if *rhs == 0 {
@@ -867,7 +873,7 @@ pub fn xitem_numeric_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error
             new_xitem_decimal(*rhs)
         },
         XItem::XIDouble{value: rhs} => new_xitem_double(*rhs),
-        _ => return Err(cant_occur!("xitem_numeric_divide: rhs_a")),
+        _ => return Err(type_error!("xitem_numeric_divide: Not numeric")),
     };
     return xitem_numeric_operation(lhs, &rhs_a,
                 |a, b| { a.checked_div(b) },
@@ -930,6 +936,11 @@ pub fn xitem_numeric_integer_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, B
 // ---------------------------------------------------------------------
 //
 pub fn xitem_numeric_mod(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
+    if let XItem::XIDouble{value: lhs} = lhs {
+        if rhs.is_numeric() {
+            return Ok(new_xitem_double(lhs.rem(rhs.get_as_raw_double()?)));
+        }
+    }
     match rhs {
         XItem::XIInteger{value: rhs} => {
             if *rhs == 0 {
-- 
2.43.0


From a9bf887a9b3e71b7ae0e9a3121c1eac63fc94ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 13/81] fix: an empty operand of an arithmetic, range or node
 comparison operator gives the empty sequence

---
 src/xpath_impl/oper.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index ca093de..603abcc 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -50,12 +50,18 @@ pub fn op_numeric_mod(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
 }
 
 pub fn op_numeric_unary_plus(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
+    if args[0].is_empty() {
+        return Ok(new_xsequence());
+    }
     let arg = args[0].get_singleton_item()?;
     let result = xitem_numeric_unary_plus(&arg)?;
     return Ok(new_singleton(&result));
 }
 
 pub fn op_numeric_unary_minus(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
+    if args[0].is_empty() {
+        return Ok(new_xsequence());
+    }
     let arg = args[0].get_singleton_item()?;
     let result = xitem_numeric_unary_minus(&arg)?;
     return Ok(new_singleton(&result));
@@ -66,6 +72,9 @@ pub fn op_numeric_unary_minus(args: &Vec<XSequence>) -> Result<XSequence, Box<Er
 fn op_numeric_operation<F>(args: &Vec<XSequence>, mut func_op: F) -> Result<XSequence, Box<Error>>
     where F: FnMut(&XItem, &XItem) -> Result<XItem, Box<Error>> {
 
+    if args[0].is_empty() || args[1].is_empty() {
+        return Ok(new_xsequence());
+    }
     let lhs = args[0].get_singleton_item()?;
     let rhs = args[1].get_singleton_item()?;
     let result = func_op(&lhs, &rhs)?;
@@ -182,6 +191,9 @@ pub fn op_node_after(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSeque
 
 fn op_node_compare(args: &Vec<XSequence>, eval_env: &EvalEnv,
                     ordering: Ordering) -> Result<XSequence, Box<Error>> {
+    if args[0].is_empty() || args[1].is_empty() {
+        return Ok(new_xsequence());
+    }
     let node1 = args[0].get_singleton_node()?;
     let node2 = args[1].get_singleton_node()?;
     let result = eval_env.compare_by_doc_order(&node1, &node2);
@@ -249,6 +261,9 @@ pub fn op_except(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence
 //   (XPath 3.1 では演算子の項に載っていない)
 //
 pub fn op_to(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
+    if args[0].is_empty() || args[1].is_empty() {
+        return Ok(new_xsequence());
+    }
     let firstval = args[0].get_singleton_integer()?;
     let lastval = args[1].get_singleton_integer()?;
     let mut seq = new_xsequence();
-- 
2.43.0


From 83ee9ef9d1eb276be049850d13ab44c3a878825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 14/81] fix: intersect and except give nodes in document order,
 set operators reject other items

---
 src/xpath_impl/oper.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index 603abcc..f521bab 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -9,6 +9,7 @@ use std::cmp::Ordering;
 use std::error::Error;
 
 use dom::*;
+use xmlerror::*;
 use xpath_impl::eval::*;
 use xpath_impl::xitem::*;
 use xpath_impl::xsequence::*;
@@ -219,7 +220,15 @@ pub fn op_concatenate(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
 // Equals, Union, Intersection and Except
 //   (XPath 3.1 では演算子の項に載っていない)
 //
+fn check_node_operands(args: &Vec<XSequence>) -> Result<(), Box<Error>> {
+    if ! args[0].is_no_atom() || ! args[1].is_no_atom() {
+        return Err(type_error!("union/intersect/except: ノード以外のアイテムがある。"));
+    }
+    return Ok(());
+}
+
 pub fn op_union(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+    check_node_operands(args)?;
     let mut node_array: Vec<NodePtr> = vec!{};
     for n in args[0].to_nodeset().iter() {          // lhs
         node_array.push(n.rc_clone());
@@ -231,7 +240,8 @@ pub fn op_union(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence,
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-pub fn op_intersect(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+pub fn op_intersect(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+    check_node_operands(args)?;
     let mut node_array: Vec<NodePtr> = vec!{};
     let rhs = args[1].to_nodeset();
     for n in args[0].to_nodeset().iter() {          // lhs
@@ -239,11 +249,12 @@ pub fn op_intersect(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSeque
             node_array.push(n.rc_clone());
         }
     }
-    // eval_env.sort_by_doc_order(&mut node_array);
+    eval_env.sort_by_doc_order(&mut node_array);
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-pub fn op_except(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+pub fn op_except(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+    check_node_operands(args)?;
     let mut node_array: Vec<NodePtr> = vec!{};
     let rhs = args[1].to_nodeset();
     for n in args[0].to_nodeset().iter() {          // lhs
@@ -251,7 +262,7 @@ pub fn op_except(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence
             node_array.push(n.rc_clone());
         }
     }
-    // eval_env.sort_by_doc_order(&mut node_array);
+    eval_env.sort_by_doc_order(&mut node_array);
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-- 
2.43.0


From 3845680bb43026a31e18c07284bb52fdf9cc358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 15/81] fix: no negative zero among decimals

---
 src/xpath_impl/xitem.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index eefee5c..97900c6 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -274,6 +274,7 @@ pub fn new_xitem_integer(value: i64) -> XItem {
 }
 
 pub fn new_xitem_decimal(value: f64) -> XItem {
+    let value = if value == 0.0 { 0.0 } else { value };  // No negative zero.
     return XItem::XIDecimal{value};
 }
 
-- 
2.43.0


From 2ff58760155bd7a0c99c655fe6c655dda7bb21a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 16/81] fix: position() and last() on the right side of the
 path and map operators

---
 src/xpath_impl/eval.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 3cdc48d..0cd93c3 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -224,8 +224,11 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             let mut atom_exists = false;
             let mut result_seq = new_xsequence();
 
-            for item in lhs.iter() {
+            let old_position = eval_env.get_position();
+            let old_last = eval_env.set_last(lhs.len());
+            for (i, item) in lhs.iter().enumerate() {
                 let xseq = new_singleton(&item);
+                eval_env.set_position(i + 1);
                 let val_seq = evaluate_xnode(&xseq, &right_xnode, eval_env)?;
 
                 if val_seq.is_empty() {
@@ -251,6 +254,8 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
                     return Err(type_error!("Path演算子: ノードと非ノードが混在している。"));
                 }
             }
+            eval_env.set_last(old_last);
+            eval_env.set_position(old_position);
 
             // ---------------------------------------------------------
             // (3) 最後に、ノードのみのシーケンスであれば、整列、重複排除する。
@@ -289,11 +294,16 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             //     整列や重複排除はしない。
             //
             let mut result_seq = new_xsequence();
-            for item in lhs.iter() {
+            let old_position = eval_env.get_position();
+            let old_last = eval_env.set_last(lhs.len());
+            for (i, item) in lhs.iter().enumerate() {
                 let xseq = new_singleton(&item);
+                eval_env.set_position(i + 1);
                 let val_seq = evaluate_xnode(&xseq, &right_xnode, eval_env)?;
                 result_seq.append(&val_seq);
             }
+            eval_env.set_last(old_last);
+            eval_env.set_position(old_position);
 
             return Ok(result_seq);
         },
-- 
2.43.0


From a6beb0014c4e502c5a91aa60b88c39bbafadf99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 17/81] fix: the variable of a quantified expression ends with
 the expression

---
 src/xpath_impl/eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 0cd93c3..30603ec 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -603,10 +603,10 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             for xitem in range.iter() {
                 eval_env.set_var_item(var_name.as_str(), xitem);
                 let rhs = evaluate_xnode(xseq, &get_right(xnode), eval_env)?;
+                eval_env.remove_var(var_name.as_str());
                 if rhs.effective_boolean_value()? == true {
                     return Ok(new_singleton_boolean(true));
                 }
-                eval_env.remove_var(var_name.as_str());
             }
             return Ok(new_singleton_boolean(false));
         },
@@ -621,10 +621,10 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             for xitem in range.iter() {
                 eval_env.set_var_item(var_name.as_str(), xitem);
                 let rhs = evaluate_xnode(xseq, &get_right(xnode), eval_env)?;
+                eval_env.remove_var(var_name.as_str());
                 if rhs.effective_boolean_value()? == false {
                     return Ok(new_singleton_boolean(false));
                 }
-                eval_env.remove_var(var_name.as_str());
             }
             return Ok(new_singleton_boolean(true));
         },
-- 
2.43.0


From 1f079da7f8171bc7bffb662f34a20150341a5e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 18/81] fix: a reference to an undefined variable is an error

---
 src/xpath_impl/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 30603ec..f69062d 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -760,7 +760,7 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             if let Some(xseq) = eval_env.get_var(var_name.as_str()) {
                 return Ok(xseq);
             } else {
-                return Ok(new_xsequence());
+                return Err(dynamic_error!("変数 ${} が未定義である。", var_name));
             }
         },
 
-- 
2.43.0


From 2c98225c6b124ccf3b27aea06a8fffa8b6c4ced1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 19/81] fix: comparisons with NaN are false and value
 comparisons with an empty operand are empty

---
 src/xpath_impl/xsequence.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index 4005ef6..e6d8052 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -382,6 +382,9 @@ pub fn value_compare_eq(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, B
 
 pub fn value_compare_ne(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
     let result = value_compare_eq(lhs, rhs)?;
+    if result.is_empty() {
+        return Ok(result);
+    }
     return fn_not(&vec!{&result});
 }
 
@@ -393,8 +396,11 @@ pub fn value_compare_lt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, B
 }
 
 pub fn value_compare_le(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
-    let result = value_compare_gt(lhs, rhs)?;
-    return fn_not(&vec!{&result});
+    let result = value_compare_lt(lhs, rhs)?;
+    if result.is_empty() || result.effective_boolean_value()? {
+        return Ok(result);
+    }
+    return value_compare_eq(lhs, rhs);
 }
 
 pub fn value_compare_gt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
@@ -405,8 +411,11 @@ pub fn value_compare_gt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, B
 }
 
 pub fn value_compare_ge(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
-    let result = value_compare_lt(lhs, rhs)?;
-    return fn_not(&vec!{&result});
+    let result = value_compare_gt(lhs, rhs)?;
+    if result.is_empty() || result.effective_boolean_value()? {
+        return Ok(result);
+    }
+    return value_compare_eq(lhs, rhs);
 }
 
 // ---------------------------------------------------------------------
@@ -476,7 +485,7 @@ pub fn general_compare_lt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence,
 
 pub fn general_compare_le(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
     return general_comparison(lhs, rhs,
-        |s, t| { let b = xitem_numeric_greater_than(s, t)?; return Ok(! b); },
+        |s, t| { return Ok(xitem_numeric_less_than(s, t)? || xitem_numeric_equal(s, t)?); },
         |arg| { arg <= 0 },
         |s, t| { let b = xitem_boolean_greater_than(s, t)?; return Ok(! b); });
 }
@@ -490,7 +499,7 @@ pub fn general_compare_gt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence,
 
 pub fn general_compare_ge(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
     return general_comparison(lhs, rhs,
-        |s, t| { let b = xitem_numeric_less_than(s, t)?; return Ok(! b); },
+        |s, t| { return Ok(xitem_numeric_greater_than(s, t)? || xitem_numeric_equal(s, t)?); },
         |arg| { arg >= 0 },
         |s, t| { let b = xitem_boolean_less_than(s, t)?; return Ok(! b); });
 }
-- 
2.43.0


From 2d223ffe856b3995780946b8a9f0b9d94e37e8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 20/81] fix: casts reject values outside the target type
 instead of giving zero or NaN

---
 src/xpath_impl/func.rs      |  7 ++-
 src/xpath_impl/xitem.rs     | 87 +++++++++++++++++++++++++++----------
 src/xpath_impl/xsequence.rs |  2 +-
 3 files changed, 68 insertions(+), 28 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index e7e956d..8b9f529 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -546,10 +546,9 @@ fn fn_number(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     if args[0].is_empty() {
         return Ok(new_singleton_double(f64::NAN));
     }
-    let mut result = 0.0;
-    if let Ok(arg) = args[0].get_singleton_item() {
-        result = arg.get_as_raw_double()?;
-    }
+    let arg = args[0].get_singleton_item()?;
+    arg.get_as_raw_string()?;           // 原子化できない値 (函数など) はエラー。
+    let result = arg.get_as_raw_double().unwrap_or(f64::NAN);
     return Ok(new_singleton_double(result));
 }
 
diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 97900c6..5f2d501 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -24,8 +24,57 @@ fn atof(s: &str) -> f64 {
     return f64::from_str(s.trim()).unwrap_or(f64::NAN);
 }
 
-fn atoi(s: &str) -> i64 {
-    return i64::from_str(s.trim()).unwrap_or(0);
+// ---------------------------------------------------------------------
+// 字句形式が正しければ数値を返す。
+//
+fn parse_integer(s: &str) -> Result<i64, Box<Error>> {
+    match i64::from_str(s.trim()) {
+        Ok(v) => return Ok(v),
+        Err(_) => return Err(type_error!("{}: Not an integer", s)),
+    }
+}
+
+fn parse_decimal(s: &str) -> Result<f64, Box<Error>> {
+    let s = s.trim();
+    if s.chars().all(|ch| ch.is_ascii_digit() || "+-.".contains(ch)) {
+        if let Ok(v) = f64::from_str(s) {
+            return Ok(v);
+        }
+    }
+    return Err(type_error!("{}: Not a decimal", s));
+}
+
+fn parse_double(s: &str) -> Result<f64, Box<Error>> {
+    let s = s.trim();
+    match s {
+        "INF" | "+INF" => return Ok(f64::INFINITY),
+        "-INF" => return Ok(f64::NEG_INFINITY),
+        "NaN" => return Ok(f64::NAN),
+        _ => {},
+    }
+    if s.chars().all(|ch| ch.is_ascii_digit() || "+-.eE".contains(ch)) {
+        if let Ok(v) = f64::from_str(s) {
+            return Ok(v);
+        }
+    }
+    return Err(type_error!("{}: Not a double", s));
+}
+
+fn parse_boolean(s: &str) -> Result<bool, Box<Error>> {
+    match s.trim() {
+        "true" | "1" => return Ok(true),
+        "false" | "0" => return Ok(false),
+        _ => return Err(type_error!("{}: Not a boolean", s)),
+    }
+}
+
+// 小数部を切り捨てて整数にする。
+fn double_to_integer(f: f64) -> Result<i64, Box<Error>> {
+    let f = f.trunc();
+    if i64::MIN as f64 <= f && f < - (i64::MIN as f64) {
+        return Ok(f64_to_i64(f));
+    }
+    return Err(dynamic_error!("{}: can't cast to integer", f));
 }
 
 fn f64_to_i64(f: f64) -> i64 {
@@ -681,10 +730,10 @@ impl XItem {
     pub fn get_as_raw_double(&self) -> Result<f64, Box<Error>> {
         match self {
             XItem::XINode{value} => {
-                return Ok(atof(&value.string_value()));
+                return parse_double(&value.string_value());
             },
             XItem::XIString{ref value} => {
-                return Ok(atof(value.as_str()));
+                return parse_double(value.as_str());
             },
             XItem::XIInteger{ref value} => {
                 return Ok(i64_to_f64(*value));
@@ -709,10 +758,10 @@ impl XItem {
     pub fn get_as_raw_decimal(&self) -> Result<f64, Box<Error>> {
         match self {
             XItem::XINode{value} => {
-                return Ok(atof(&value.string_value()));
+                return parse_decimal(&value.string_value());
             },
             XItem::XIString{ref value} => {
-                return Ok(atof(value.as_str()));
+                return parse_decimal(value.as_str());
             },
             XItem::XIInteger{ref value} => {
                 return Ok(i64_to_f64(*value));
@@ -721,7 +770,9 @@ impl XItem {
                 return Ok(*value);
             },
             XItem::XIDouble{ref value} => {
-                return Ok(*value);
+                if value.is_finite() {
+                    return Ok(*value);
+                }
             },
             XItem::XIBoolean{value} => {
                 return Ok(if *value == true { 1.0 } else { 0.0 });
@@ -737,16 +788,14 @@ impl XItem {
     pub fn get_as_raw_integer(&self) -> Result<i64, Box<Error>> {
         match self {
             XItem::XINode{value} => {
-                return Ok(atoi(&value.string_value()));
+                return parse_integer(&value.string_value());
             },
             XItem::XIInteger{value} => return Ok(*value),
             XItem::XIString{value} => {
-                return Ok(atoi(value));
+                return parse_integer(value);
             },
-            XItem::XIDecimal{value} => return Ok(f64_to_i64(*value)),
-            XItem::XIDouble{value} => return Ok(f64_to_i64(*value)),
-                        // dbl->intはキャストできない場合がある。
-                        // NaNなど?
+            XItem::XIDecimal{value} => return double_to_integer(*value),
+            XItem::XIDouble{value} => return double_to_integer(*value),
             XItem::XIBoolean{value} => {
                 if *value == true {
                     return Ok(1);
@@ -765,19 +814,11 @@ impl XItem {
     pub fn get_as_raw_boolean(&self) -> Result<bool, Box<Error>> {
         match self {
             XItem::XINode{value} => {
-                match value.string_value().as_str() {
-                    "true" | "1" => return Ok(true),
-                    "false" | "0" => return Ok(false),
-                    _ => {},
-                }
+                return parse_boolean(&value.string_value());
             },
             XItem::XIInteger{value} => return Ok(*value != 0),
             XItem::XIString{value} => {
-                match value.as_str() {
-                    "true" | "1" => return Ok(true),
-                    "false" | "0" => return Ok(false),
-                    _ => {},
-                }
+                return parse_boolean(value);
             },
             XItem::XIDecimal{value} => {
                 if *value == 0.0 || value.is_nan() {
diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index e6d8052..8bf5b5c 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -323,7 +323,7 @@ impl XSequence {
         }
 
         if let Ok(xitem) = self.get_singleton_item() {
-            return xitem.castable_as(type_name.trim_right_matches('?'));
+            return xitem.atomize().castable_as(type_name.trim_right_matches('?'));
         }
 
         return false;
-- 
2.43.0


From ca51e5142ba997c74e7ccf9b44a0ac1ba07488ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 21/81] fix: compare map keys by type and value, not by their
 text

---
 src/xpath_impl/xitem.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 5f2d501..53b431c 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -566,9 +566,6 @@ impl XItem {
     }
 
     // -----------------------------------------------------------------
-    // 若干厳密さに欠ける (例えば、"3" と3が同じになってしまう) が、
-    // 当面、raw_stringとして比較する。
-    //
     // (1) string (、anyURI、untypedAtomic) どうしの場合:
     //     fn:codepoint-equal($k1, $k2) で比較する。
     // (2) decimal、double (、float) どうしの場合:
@@ -581,19 +578,25 @@ impl XItem {
     //     fn:deep-equal($k1, $k2) で比較する。
     //
     pub fn op_same_key(&self, other: &XItem) -> bool {
-        let k1 = self.get_as_raw_string();
-        if let Err(_) = k1 {
-            return false;
+        let k1 = self.atomize();
+        let k2 = other.atomize();
+        if let XItem::XIDouble{value: v1} = k1 {
+            if let XItem::XIDouble{value: v2} = k2 {
+                if v1.is_nan() && v2.is_nan() {
+                    return true;
+                }
+            }
         }
-        let k1 = k1.unwrap();
-
-        let k2 = other.get_as_raw_string();
-        if let Err(_) = k2 {
-            return false;
+        if let Ok(b) = xitem_numeric_equal(&k1, &k2) {
+            return b;
         }
-        let k2 = k2.unwrap();
-
-        return k1 == k2;
+        if let Ok(n) = xitem_compare(&k1, &k2) {
+            return n == 0;
+        }
+        if let Ok(b) = xitem_boolean_equal(&k1, &k2) {
+            return b;
+        }
+        return false;
     }
 
     // -----------------------------------------------------------------
-- 
2.43.0


From 3c4b4ff4e83e9c51d5e6c8eaa7bed47ba0e9277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 22/81] fix: the string form of doubles

---
 src/xpath_impl/xitem.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 53b431c..806ecb5 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -707,10 +707,18 @@ impl XItem {
                     return Ok(String::from("NaN"));
                 } else if value.is_infinite() {
                     if value.signum() == 1.0 {
-                        return Ok(String::from("+Infinity"));
+                        return Ok(String::from("INF"));
                     } else {
-                        return Ok(String::from("-Infinity"));
+                        return Ok(String::from("-INF"));
                     }
+                } else if *value != 0.0 && (value.abs() < 1e-6 || 1e6 <= value.abs()) {
+                    let s = format!("{:E}", value);
+                    if s.contains(".") {
+                        return Ok(s);
+                    }
+                    return Ok(s.replace("E", ".0E"));
+                } else if *value == 0.0 && value.is_sign_negative() {
+                    return Ok(String::from("-0"));
                 } else {
                     return Ok(String::from(format!("{}", value)));
                 }
-- 
2.43.0


From ccc6b35283ca61e8115faae04ddb11deeeded3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 23/81] fix: decide between operators and names by position

---
 src/xpath_impl/lexer.rs  | 93 ++++++++++++++++++++++++++++------------
 src/xpath_impl/parser.rs | 16 +++----
 2 files changed, 74 insertions(+), 35 deletions(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index c37ca3d..94893ab 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -5,7 +5,6 @@
 // Copyright (C) 2018 KOYAMA Hiro <tac@amris.co.jp>
 //
 
-use std::collections::HashMap;
 use std::error::Error;
 
 use xmlerror::*;
@@ -189,6 +188,35 @@ impl Lexer {
         return tok;
     }
 
+    // -----------------------------------------------------------------
+    // 演算子が現れ得る箇所での、次のトークンのトークン種。
+    // 特別なトークン規則 (1) で名前とみなしたものも、この箇所では演算子である。
+    //      例: 「* and a」の「and」
+    //
+    pub fn next_operator_type(&self) -> TType {
+        let tok = &self.tokens[self.index];
+        if tok.t_type == TType::Name {
+            if let Some(op_type) = operator_word(&tok.name) {
+                return op_type;
+            }
+        }
+        return tok.t_type.clone();
+    }
+
+    // -----------------------------------------------------------------
+    // 名前が現れ得る箇所での、次のトークンのトークン種。
+    // 特別なトークン規則 (1) で演算子とみなしたものも、この箇所では名前である。
+    //      例: 「$div」「return div」
+    //
+    pub fn next_name_type(&self) -> TType {
+        let tok = &self.tokens[self.index];
+        if tok.t_type != TType::StringLiteral &&
+           operator_word(&tok.name).is_some() {
+            return TType::Name;
+        }
+        return tok.t_type.clone();
+    }
+
     // -----------------------------------------------------------------
     //
     pub fn unget_token(&mut self) {
@@ -445,31 +473,12 @@ impl Lexer {
             TType::Colon,           // (註1)
         ];
 
-        let operator_words: HashMap<&str, TType> = [
-            ( "and",       TType::And ),
-            ( "or",        TType::Or ),
-            ( "div",       TType::Div ),
-            ( "mod",       TType::Mod ),
-            ( "idiv",      TType::IDiv ),           // (註2)
-            ( "eq",        TType::ValueEQ ),        // (註2)
-            ( "ne",        TType::ValueNE ),        // (註2)
-            ( "lt",        TType::ValueLT ),        // (註2)
-            ( "le",        TType::ValueLE ),        // (註2)
-            ( "gt",        TType::ValueGT ),        // (註2)
-            ( "ge",        TType::ValueGE ),        // (註2)
-            ( "is",        TType::IsSameNode ),     // (註2)
-            ( "to",        TType::To ),             // (註2)
-            ( "union",     TType::Union ),          // (註2)
-            ( "intersect", TType::Intersect ),      // (註2)
-            ( "except",    TType::Except ),         // (註2)
-        ].iter().cloned().collect();
-
         let mut i = 1;
         while self.tokens[i].t_type != TType::EOF {
             if ! prev_t_types.contains(&self.tokens[i-1].t_type) &&
                self.tokens[i].t_type == TType::InnerName {
-                if let Some(op_type) = operator_words.get(self.tokens[i].name.as_str()) {
-                    self.tokens[i].t_type = op_type.clone();
+                if let Some(op_type) = operator_word(&self.tokens[i].name) {
+                    self.tokens[i].t_type = op_type;
                 }
             }
             i += 1;
@@ -488,7 +497,8 @@ impl Lexer {
             ( "cast",     "as", TType::CastAs ),
         ];
         let mut i = 1;
-        while self.tokens[i+1].t_type != TType::EOF {
+        while self.tokens[i].t_type != TType::EOF &&
+              self.tokens[i+1].t_type != TType::EOF {
             if self.tokens[i].t_type == TType::InnerName &&
                self.tokens[i+1].t_type == TType::InnerName {
                 for (str1, str2, t_type) in operator_pair_words.iter() {
@@ -553,7 +563,8 @@ impl Lexer {
         while self.tokens[i].t_type != TType::EOF {
             if self.tokens[i].t_type == TType::InnerName {
                 for (name, next_t_type, new_t_type) in name_and_symbol_tbl.iter() {
-                    if self.tokens[i].name.as_str() == *name &&
+                    if self.tokens[i-1].t_type != TType::Dollar &&  // 変数名
+                       self.tokens[i].name.as_str() == *name &&
                        self.tokens[i+1].t_type == *next_t_type {
                         self.tokens[i].t_type = new_t_type.clone();
                     }
@@ -679,13 +690,15 @@ impl Lexer {
             ch1 = self.read_rune();
             if ch1 == '+' || ch1 == '-' {
                 numeric_after_e.push(ch1);
-            } else if is_digit(ch1) {
-                self.unread_rune();
             } else {
+                self.unread_rune();
+            }
+            let digits = self.fetch_digits();
+            if digits == "" {
                 return Err(xpath_syntax_error!(
                         "指数を表す [eE] の後には数字が必要。"));
             }
-            numeric_after_e.push_str(&self.fetch_digits());
+            numeric_after_e.push_str(&digits);
         } else {
             self.unread_rune();
         }
@@ -824,6 +837,32 @@ impl Lexer {
     }
 }
 
+// =====================================================================
+// 演算子となり得る名前。
+//
+const OPERATOR_WORDS: [(&str, TType); 16] = [
+    ( "and",       TType::And ),
+    ( "or",        TType::Or ),
+    ( "div",       TType::Div ),
+    ( "mod",       TType::Mod ),
+    ( "idiv",      TType::IDiv ),           // (註2)
+    ( "eq",        TType::ValueEQ ),        // (註2)
+    ( "ne",        TType::ValueNE ),        // (註2)
+    ( "lt",        TType::ValueLT ),        // (註2)
+    ( "le",        TType::ValueLE ),        // (註2)
+    ( "gt",        TType::ValueGT ),        // (註2)
+    ( "ge",        TType::ValueGE ),        // (註2)
+    ( "is",        TType::IsSameNode ),     // (註2)
+    ( "to",        TType::To ),             // (註2)
+    ( "union",     TType::Union ),          // (註2)
+    ( "intersect", TType::Intersect ),      // (註2)
+    ( "except",    TType::Except ),         // (註2)
+];
+
+fn operator_word(name: &str) -> Option<TType> {
+    return OPERATOR_WORDS.iter().find(|w| w.0 == name).map(|w| w.1.clone());
+}
+
 // =====================================================================
 // 空白
 //
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 71ad020..d0083c3 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -224,7 +224,7 @@ macro_rules! error_if_not_ttype {
 //
 macro_rules! error_if_not_name {
     ( $lex: expr, $name: expr, $msg: expr ) => {
-        if $lex.next_token().get_type() != TType::Name &&
+        if $lex.next_token().get_type() != TType::Name ||
            $lex.next_token().get_name() != $name {
             return Err(xpath_syntax_error!($msg,
                 $lex.around_tokens().as_str()));
@@ -1743,7 +1743,7 @@ fn parse_bin_op_sub(lex: &mut Lexer,
     let mut xnode = sub_parser(lex)?;
     loop {
         let tok = lex.next_token();
-        let n_type = match token_node_map.get(&tok.get_type()) {
+        let n_type = match token_node_map.get(&lex.next_operator_type()) {
             Some(t) => t,
             None => break,
         };
@@ -2693,7 +2693,7 @@ fn parse_eqname(lex: &mut Lexer, default_prefix: &str) -> Result<String, Box<Err
     match lex.next_token().get_type() {
         TType::BracedURILiteral => {
             uri_qualified_name += lex.get_token().get_name();
-            match lex.next_token().get_type() {
+            match lex.next_name_type() {
                 TType::Name => {
                     uri_qualified_name += lex.get_token().get_name();
                     return Ok(uri_qualified_name);
@@ -2724,7 +2724,7 @@ fn parse_eqname(lex: &mut Lexer, default_prefix: &str) -> Result<String, Box<Err
 //
 fn parse_qname(lex: &mut Lexer, default_prefix: &str) -> Result<String, Box<Error>> {
     let tok = lex.next_token();
-    if tok.get_type() != TType::Name {
+    if lex.next_name_type() != TType::Name {
         return Ok(String::new());
     }
 
@@ -2762,14 +2762,14 @@ fn parse_wildcard(lex: &mut Lexer) -> Result<String, Box<Error>> {
 
     let mut qname = String::new();
 
-    match lex.next_token().get_type() {
+    match lex.next_name_type() {
         TType::Asterisk => {
             qname += lex.get_token().get_name();
             return Ok(qname);
         },
         TType::Name => {
             qname += lex.get_token().get_name();
-            match lex.next_token().get_type() {
+            match lex.next_name_type() {
                 TType::ColonAsterisk => {
                     qname += lex.get_token().get_name();
                     return Ok(qname);
@@ -2781,7 +2781,7 @@ fn parse_wildcard(lex: &mut Lexer) -> Result<String, Box<Error>> {
         },
         TType::AsteriskColon => {
             qname += lex.get_token().get_name();
-            match lex.next_token().get_type() {
+            match lex.next_name_type() {
                 TType::Name => {
                     qname += lex.get_token().get_name();
                     return Ok(qname);
@@ -2793,7 +2793,7 @@ fn parse_wildcard(lex: &mut Lexer) -> Result<String, Box<Error>> {
         },
         TType::BracedURILiteral => {
             qname += lex.get_token().get_name();
-            match lex.next_token().get_type() {
+            match lex.next_name_type() {
                 TType::Asterisk => {
                     qname += lex.get_token().get_name();
                     return Ok(qname);
-- 
2.43.0


From 3918c3c9f8b61663682fa9651a0777d54cfb089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 24/81] fix: report missing operands and list members instead
 of ignoring them or panicking

---
 src/xpath_impl/parser.rs | 50 +++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index d0083c3..b89962a 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -293,6 +293,7 @@ pub fn compile_xpath(xpath: &String) -> Result<XNodePtr, Box<Error>> {
 //
 fn parse_main(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_expr(lex)?;
+    error_if_nil!(lex, xnode, "{}: 式がない。");
 
     error_if_not_ttype!(lex, TType::EOF, "{}: 余分な字句が継続。");
 
@@ -796,6 +797,7 @@ fn parse_predicate(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let xnode = parse_expr(lex)?;
+    error_if_nil!(lex, xnode, "{}: 述語の式がない。");
 
     error_if_not_ttype!(lex, TType::RightBracket, "{}: 述語を閉じる「]」が必要。");
     lex.get_token();
@@ -864,9 +866,7 @@ fn parse_for_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let mut curr_xnode = for_expr_xnode.clone();
     loop {
         let var_bind_xnode = parse_simple_for_binding(lex)?;
-        if is_nil_xnode(&var_bind_xnode) {
-            break;
-        }
+        error_if_nil!(lex, var_bind_xnode, "{}: 変数束縛が必要。");
         assign_as_right(&curr_xnode, &var_bind_xnode);
         curr_xnode = get_right(&curr_xnode);
 
@@ -881,6 +881,7 @@ fn parse_for_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     assign_as_right(&curr_xnode, &expr_single_xnode);
 
     return Ok(for_expr_xnode);
@@ -917,9 +918,7 @@ fn parse_let_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let mut curr_xnode = let_expr_xnode.clone();
     loop {
         let var_bind_xnode = parse_simple_let_binding(lex)?;
-        if is_nil_xnode(&var_bind_xnode) {
-            break;
-        }
+        error_if_nil!(lex, var_bind_xnode, "{}: 変数束縛が必要。");
         assign_as_right(&curr_xnode, &var_bind_xnode);
         curr_xnode = get_right(&curr_xnode);
 
@@ -934,6 +933,7 @@ fn parse_let_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     assign_as_right(&curr_xnode, &expr_single_xnode);
 
     return Ok(let_expr_xnode);
@@ -964,6 +964,7 @@ fn parse_simple_let_binding(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     let var_bind_xnode = new_xnode(XNodeType::LetVarBind, &var_name);
     assign_as_left(&var_bind_xnode, &expr_single_xnode);
 
@@ -1006,9 +1007,7 @@ fn parse_quantified_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let mut curr_xnode = quantified_expr_xnode.clone();
     loop {
         let xnode_var_bind = parse_simple_binding(lex, &xnode_ttype)?;
-        if is_nil_xnode(&xnode_var_bind) {
-            break;
-        }
+        error_if_nil!(lex, xnode_var_bind, "{}: 変数束縛が必要。");
         assign_as_right(&curr_xnode, &xnode_var_bind);
         curr_xnode = get_right(&curr_xnode);
 
@@ -1023,6 +1022,7 @@ fn parse_quantified_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     assign_as_right(&curr_xnode, &expr_single_xnode);
 
     return Ok(quantified_expr_xnode);
@@ -1054,6 +1054,7 @@ fn parse_simple_binding(lex: &mut Lexer, xnode_type: &XNodeType) -> Result<XNode
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     let var_bind_xnode = new_xnode(xnode_type.clone(), &var_name);
     assign_as_left(&var_bind_xnode, &expr_single_xnode);
 
@@ -1245,6 +1246,7 @@ fn parse_instanceof_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_treat_expr(lex)?;
     let tok = lex.next_token();
     if tok.get_type() == TType::InstanceOf {
+        error_if_nil!(lex, xnode, "{}: 演算子の左に式が必要。");
         lex.get_token();
         let seq_type_xnode = parse_sequence_type(lex)?;
         if is_nil_xnode(&seq_type_xnode) {
@@ -1268,6 +1270,7 @@ fn parse_treat_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_castable_expr(lex)?;
     let tok = lex.next_token();
     if tok.get_type() == TType::TreatAs {
+        error_if_nil!(lex, xnode, "{}: 演算子の左に式が必要。");
         lex.get_token();
         let seq_type_xnode = parse_sequence_type(lex)?;
         if is_nil_xnode(&seq_type_xnode) {
@@ -1408,6 +1411,7 @@ pub fn parse_function_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let sequence_type_xnode = parse_sequence_type(lex)?;
+    error_if_nil!(lex, sequence_type_xnode, "{}: 型が必要。");
     let return_type_xnode = new_xnode(XNodeType::ReturnType, "");
     assign_as_left(&return_type_xnode, &sequence_type_xnode);
     assign_as_right(&return_type_xnode, &sequence_type_list_xnode);
@@ -1427,6 +1431,7 @@ fn parse_sequence_type_list(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let sequence_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, sequence_type_xnode, "{}: 型が必要。");
         let param_xnode = new_xnode(XNodeType::Param, "");
         assign_as_left(&param_xnode, &sequence_type_xnode);
         assign_as_right(&curr, &param_xnode);
@@ -1481,6 +1486,7 @@ fn parse_map_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         lex.get_token();
 
         let sequence_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, sequence_type_xnode, "{}: 型が必要。");
         assign_as_right(&xnode, &sequence_type_xnode);
 
     }
@@ -1519,6 +1525,7 @@ fn parse_array_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         assign_as_left(&sequence_type_xnode, &item_test_xnode);
     } else {
         let sequence_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, sequence_type_xnode, "{}: 型が必要。");
         assign_as_left(&xnode, &sequence_type_xnode);
     }
 
@@ -1536,6 +1543,7 @@ fn parse_parenthesized_item_type(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>
     lex.get_token();
 
     let xnode = parse_item_type(lex)?;
+    error_if_nil!(lex, xnode, "{}: 型が必要。");
 
     error_if_not_ttype!(lex, TType::RightParen, "{}: 閉じ括弧が必要。");
     lex.get_token();
@@ -1558,6 +1566,7 @@ fn parse_castable_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_cast_expr(lex)?;
     let tok = lex.next_token();
     if tok.get_type() == TType::CastableAs {
+        error_if_nil!(lex, xnode, "{}: 演算子の左に式が必要。");
         lex.get_token();
         let single_type_xnode = parse_single_type(lex)?;
         if is_nil_xnode(&single_type_xnode) {
@@ -1587,6 +1596,7 @@ fn parse_cast_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_arrow_expr(lex)?;
     let tok = lex.next_token();
     if tok.get_type() == TType::CastAs {
+        error_if_nil!(lex, xnode, "{}: 演算子の左に式が必要。");
         lex.get_token();
         let single_type_xnode = parse_single_type(lex)?;
         if is_nil_xnode(&single_type_xnode) {
@@ -1653,6 +1663,7 @@ fn parse_arrow_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_unary_expr(lex)?;
     let mut curr_xnode = xnode.clone();
     while lex.next_token().get_type() == TType::Arrow {
+        error_if_nil!(lex, curr_xnode, "{}: 演算子の左に式が必要。");
         lex.get_token();
 
         let func_name = parse_static_func_name(lex)?;
@@ -1700,14 +1711,16 @@ fn parse_unary_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     match tok.get_type() {
         TType::Minus => {
             lex.get_token();
-            let next_node = parse_value_expr(lex)?;
+            let next_node = parse_unary_expr(lex)?;
+            error_if_nil!(lex, next_node, "{}: 符号の後に式が必要。");
             let xnode_op = new_xnode(XNodeType::OperatorUnaryMinus, "-");
             assign_as_right(&xnode_op, &next_node);
             return Ok(xnode_op);
         },
         TType::Plus => {
             lex.get_token();
-            let next_node = parse_value_expr(lex)?;
+            let next_node = parse_unary_expr(lex)?;
+            error_if_nil!(lex, next_node, "{}: 符号の後に式が必要。");
             let xnode_op = new_xnode(XNodeType::OperatorUnaryPlus, "+");
             assign_as_right(&xnode_op, &next_node);
             return Ok(xnode_op);
@@ -1747,8 +1760,10 @@ fn parse_bin_op_sub(lex: &mut Lexer,
             Some(t) => t,
             None => break,
         };
+        error_if_nil!(lex, xnode, "{}: 演算子の左に式が必要。");
         lex.get_token();
         let next_node = sub_parser(lex)?;
+        error_if_nil!(lex, next_node, "{}: 演算子の右に式が必要。");
 
         let xnode_op = new_xnode(n_type.clone(), tok.get_name());
         assign_as_left(&xnode_op, &xnode);
@@ -1807,9 +1822,8 @@ fn parse_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             assign_as_left(&op_path_xnode_l, &ds_xnode);
 
             let rel_xnode = parse_relative_path_expr(lex)?;
-            if ! is_nil_xnode(&rel_xnode) {
-                assign_as_right(&op_path_xnode_l, &rel_xnode);
-            }
+            error_if_nil!(lex, rel_xnode, "{}: // の後にステップが必要。");
+            assign_as_right(&op_path_xnode_l, &rel_xnode);
             return Ok(op_path_xnode_u);
         },
         _ => {
@@ -1847,6 +1861,7 @@ fn parse_relative_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             TType::Slash => {
                 lex.get_token();
                 let step_expr_xnode = parse_step_expr(lex)?;
+                error_if_nil!(lex, step_expr_xnode, "{}: / の後にステップが必要。");
                 let op_path_xnode = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr Slash");
                 assign_as_left(&op_path_xnode, &step_expr_xnode);
                 assign_as_right(&curr_xnode, &op_path_xnode);
@@ -1855,6 +1870,7 @@ fn parse_relative_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             TType::SlashSlash => {
                 lex.get_token();
                 let step_expr_xnode = parse_step_expr(lex)?;
+                error_if_nil!(lex, step_expr_xnode, "{}: / の後にステップが必要。");
 
                 let op_path_xnode_u = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr SlashSlash 1");
                 let ds_xnode = new_xnode(XNodeType::AxisDescendantOrSelf, "node()");
@@ -2210,6 +2226,7 @@ fn parse_inline_function_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     if tok.get_type() == TType::Name && tok.get_name() == "as" {
         lex.get_token();
         let xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, xnode, "{}: 型が必要。");
         assign_as_left(&return_type_xnode, &xnode);
     } else {        // 型の省略時は「item()*」
         assign_as_left(&return_type_xnode, &default_sequence_type());
@@ -2236,6 +2253,7 @@ fn parse_param_list(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let param_xnode = parse_param(lex)?;
+        error_if_nil!(lex, param_xnode, "{}: 引数名が必要。");
         assign_as_right(&curr, &param_xnode);
         curr = param_xnode.clone();
     }
@@ -2261,6 +2279,7 @@ fn parse_param(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     if tok.get_type() == TType::Name && tok.get_name() == "as" {
         lex.get_token();
         let seq_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, seq_type_xnode, "{}: 型が必要。");
         let param_xnode = new_xnode(XNodeType::Param, &param_name);
         assign_as_left(&param_xnode, &seq_type_xnode);
         return Ok(param_xnode);
@@ -2344,6 +2363,7 @@ fn parse_map_constructor_entries(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let entry_xnode = parse_map_constructor_entry(lex)?;
+        error_if_nil!(lex, entry_xnode, "{}: カンマの後に式が必要。");
         let entry_list_xnode = new_xnode(XNodeType::MapConstruct, "");
         assign_as_left(&entry_list_xnode, &entry_xnode);
         assign_as_right(&curr_xnode, &entry_list_xnode);
@@ -2448,6 +2468,7 @@ fn parse_expr_in_array(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let expr_xnode = parse_expr_single(lex)?;
+        error_if_nil!(lex, expr_xnode, "{}: カンマの後に式が必要。");
         let entry_xnode = new_xnode(XNodeType::ArrayEntry, "");
         assign_as_left(&entry_xnode, &expr_xnode);
         assign_as_right(&curr_xnode, &entry_xnode);
@@ -2633,6 +2654,7 @@ fn parse_argument_list_sub(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let next_arg_xnode = parse_argument(lex)?;
+        error_if_nil!(lex, next_arg_xnode, "{}: カンマの後に引数が必要。");
         assign_as_right(&curr, &next_arg_xnode);
         curr = next_arg_xnode.clone();
     }
-- 
2.43.0


From 344d626fc4c7c390610ca789ff7e2d00105b4f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 25/81] fix: empty function bodies, empty curly arrays and
 predicates after ..

---
 src/xpath_impl/parser.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index b89962a..37ea9dd 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -377,7 +377,11 @@ fn parse_axis_step(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         },
         TType::DotDot => {// 「..」は「parent::node()」の省略形
             lex.get_token();
-            return Ok(new_xnode(XNodeType::AxisParent, "node()"));
+            let axis_xnode = new_xnode(XNodeType::AxisParent, "node()");
+            let predicates_xnode = parse_predicate_list(lex,
+                        is_xnode_reverse_axis(&XNodeType::AxisParent))?;
+            assign_as_right(&axis_xnode, &predicates_xnode);
+            return Ok(axis_xnode);
         },
         _ => {  // 「空」は「child::」の省略形
             return parse_node_test(lex, &XNodeType::AxisChild);
@@ -2308,7 +2312,10 @@ fn parse_function_body(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     error_if_not_ttype!(lex, TType::LeftCurly, "{}: 函数本体を始める左波括弧が必要。");
     lex.get_token();
 
-    let xnode = parse_expr(lex)?;
+    let mut xnode = parse_expr(lex)?;
+    if is_nil_xnode(&xnode) {       // 空の函数本体は空シーケンス「()」
+        xnode = new_xnode(XNodeType::ParenthesizedExpr, "");
+    }
 
     error_if_not_ttype!(lex, TType::RightCurly, "{}: 函数本体を閉じる右波括弧が必要。");
     lex.get_token();
@@ -2439,7 +2446,10 @@ fn parse_curly_array_constructor(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>
     error_if_not_ttype!(lex, TType::LeftCurly, "{}: 配列を開く左波括弧が必要。");
     lex.get_token();
 
-    let array_top_xnode = parse_expr(lex)?;
+    let mut array_top_xnode = parse_expr(lex)?;
+    if is_nil_xnode(&array_top_xnode) {     // 空の配列
+        array_top_xnode = new_xnode(XNodeType::ParenthesizedExpr, "");
+    }
 
     error_if_not_ttype!(lex, TType::RightCurly, "{}: 配列を閉じる右波括弧が必要。");
     lex.get_token();
-- 
2.43.0


From f67ca14ae050dac674480d83b6f45c298f30865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 26/81] fix: a path removes duplicates after every step

---
 src/xpath_impl/eval.rs | 131 ++++++++++++++++++++++++-----------------
 1 file changed, 77 insertions(+), 54 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index f69062d..98b201f 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -210,64 +210,20 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             }
 
             // ---------------------------------------------------------
-            // (1b) 左辺値がノードのみのシーケンスでなければ
-            //      エラー (空シーケンスは可)。
+            // (2) 右辺のステップを順に適用する。
+            //     ステップごとに整列、重複排除した上で次のステップに進む。
             //
-            if ! lhs.is_no_atom() {
-                return Err(type_error!("Path演算子: ノード以外のアイテムがある。"));
-            }
-
-            // ---------------------------------------------------------
-            // (2) lhsの各ノードについて、右辺値を評価する。
-            //
-            let mut node_exists = false;
-            let mut atom_exists = false;
-            let mut result_seq = new_xsequence();
-
-            let old_position = eval_env.get_position();
-            let old_last = eval_env.set_last(lhs.len());
-            for (i, item) in lhs.iter().enumerate() {
-                let xseq = new_singleton(&item);
-                eval_env.set_position(i + 1);
-                let val_seq = evaluate_xnode(&xseq, &right_xnode, eval_env)?;
-
-                if val_seq.is_empty() {
-                    continue;
-                }
-
-                // -----------------------------------------------------
-                // (2-1) ノードごとの評価値を合併していく。
-                //       評価値がすべてノードのみのシーケンスか否かを
-                //       調べておく。
-                //
-                if val_seq.is_no_atom() {
-                    node_exists = true;
+            let mut result = lhs;
+            let mut curr_xnode = right_xnode;
+            while ! is_nil_xnode(&curr_xnode) {
+                if get_xnode_type(&curr_xnode) == XNodeType::OperatorPath {
+                    result = evaluate_path_step(&result, &get_left(&curr_xnode), eval_env)?;
+                    curr_xnode = get_right(&curr_xnode);
                 } else {
-                    atom_exists = true;
-                }
-                result_seq.append(&val_seq);
-
-                // -----------------------------------------------------
-                // (2-3) ノードと非ノードが混在していればエラー。
-                //
-                if node_exists && atom_exists {
-                    return Err(type_error!("Path演算子: ノードと非ノードが混在している。"));
+                    return evaluate_path_step(&result, &curr_xnode, eval_env);
                 }
             }
-            eval_env.set_last(old_last);
-            eval_env.set_position(old_position);
-
-            // ---------------------------------------------------------
-            // (3) 最後に、ノードのみのシーケンスであれば、整列、重複排除する。
-            //
-            if node_exists {
-                let mut nodeset = result_seq.to_nodeset();
-                eval_env.sort_by_doc_order(&mut nodeset);
-                let sorted_seq = new_xsequence_from_node_array(&nodeset);
-                return Ok(sorted_seq);
-            } else {
-                return Ok(result_seq);
-            }
+            return Ok(result);
         },
 
         XNodeType::OperatorMap => {
@@ -780,6 +736,73 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
     }
 }
 
+// ---------------------------------------------------------------------
+// lhsの各ノードについてxnodeを評価し、合併する。
+//
+fn evaluate_path_step(lhs: &XSequence, xnode: &XNodePtr,
+                eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
+
+    // ---------------------------------------------------------
+    // (1) 左辺値がノードのみのシーケンスでなければ
+    //      エラー (空シーケンスは可)。
+    //
+    if ! lhs.is_no_atom() {
+        return Err(type_error!("Path演算子: ノード以外のアイテムがある。"));
+    }
+
+    // ---------------------------------------------------------
+    // (2) lhsの各ノードについて、右辺値を評価する。
+    //
+    let mut node_exists = false;
+    let mut atom_exists = false;
+    let mut result_seq = new_xsequence();
+
+    let old_position = eval_env.get_position();
+    let old_last = eval_env.set_last(lhs.len());
+    for (i, item) in lhs.iter().enumerate() {
+        let xseq = new_singleton(&item);
+        eval_env.set_position(i + 1);
+        let val_seq = evaluate_xnode(&xseq, xnode, eval_env)?;
+
+        if val_seq.is_empty() {
+            continue;
+        }
+
+        // -----------------------------------------------------
+        // (2-1) ノードごとの評価値を合併していく。
+        //       評価値がすべてノードのみのシーケンスか否かを
+        //       調べておく。
+        //
+        if val_seq.is_no_atom() {
+            node_exists = true;
+        } else {
+            atom_exists = true;
+        }
+        result_seq.append(&val_seq);
+
+        // -----------------------------------------------------
+        // (2-3) ノードと非ノードが混在していればエラー。
+        //
+        if node_exists && atom_exists {
+            return Err(type_error!("Path演算子: ノードと非ノードが混在している。"));
+        }
+    }
+    eval_env.set_last(old_last);
+    eval_env.set_position(old_position);
+
+    // ---------------------------------------------------------
+    // (3) 最後に、ノードのみのシーケンスであれば、整列、重複排除する。
+    //
+    if node_exists {
+        let mut nodeset = result_seq.to_nodeset();
+        eval_env.sort_by_doc_order(&mut nodeset);
+        let sorted_seq = new_xsequence_from_node_array(&nodeset);
+        return Ok(sorted_seq);
+    } else {
+        return Ok(result_seq);
+    }
+}
+
 // ---------------------------------------------------------------------
 // XSequence中の各ノードに対し、xnodeで示されるLocStepを適用して
 // 合致するノード集合を取得し、その合併をXSequenceとして返す。
-- 
2.43.0


From d89e3afa3485d003904e00d7efea0e889ca0dc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 27/81] fix: atomize arrays in operands, casts and data()

---
 src/xpath_impl/oper.rs      | 22 +++++++++++++---------
 src/xpath_impl/xsequence.rs | 24 +++++++++++++++---------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index f521bab..b83d9e7 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -51,19 +51,21 @@ pub fn op_numeric_mod(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
 }
 
 pub fn op_numeric_unary_plus(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
-    if args[0].is_empty() {
+    let arg = args[0].atomize();
+    if arg.is_empty() {
         return Ok(new_xsequence());
     }
-    let arg = args[0].get_singleton_item()?;
+    let arg = arg.get_singleton_item()?;
     let result = xitem_numeric_unary_plus(&arg)?;
     return Ok(new_singleton(&result));
 }
 
 pub fn op_numeric_unary_minus(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
-    if args[0].is_empty() {
+    let arg = args[0].atomize();
+    if arg.is_empty() {
         return Ok(new_xsequence());
     }
-    let arg = args[0].get_singleton_item()?;
+    let arg = arg.get_singleton_item()?;
     let result = xitem_numeric_unary_minus(&arg)?;
     return Ok(new_singleton(&result));
 }
@@ -73,11 +75,13 @@ pub fn op_numeric_unary_minus(args: &Vec<XSequence>) -> Result<XSequence, Box<Er
 fn op_numeric_operation<F>(args: &Vec<XSequence>, mut func_op: F) -> Result<XSequence, Box<Error>>
     where F: FnMut(&XItem, &XItem) -> Result<XItem, Box<Error>> {
 
-    if args[0].is_empty() || args[1].is_empty() {
+    let lhs = args[0].atomize();
+    let rhs = args[1].atomize();
+    if lhs.is_empty() || rhs.is_empty() {
         return Ok(new_xsequence());
     }
-    let lhs = args[0].get_singleton_item()?;
-    let rhs = args[1].get_singleton_item()?;
+    let lhs = lhs.get_singleton_item()?;
+    let rhs = rhs.get_singleton_item()?;
     let result = func_op(&lhs, &rhs)?;
     return Ok(new_singleton(&result));
 }
@@ -275,8 +279,8 @@ pub fn op_to(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
     if args[0].is_empty() || args[1].is_empty() {
         return Ok(new_xsequence());
     }
-    let firstval = args[0].get_singleton_integer()?;
-    let lastval = args[1].get_singleton_integer()?;
+    let firstval = args[0].atomize().get_singleton_integer()?;
+    let lastval = args[1].atomize().get_singleton_integer()?;
     let mut seq = new_xsequence();
     for n in firstval ..= lastval {
         seq.push(&new_xitem_integer(n));
diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index 8bf5b5c..4399880 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -242,7 +242,11 @@ impl XSequence {
     pub fn atomize(&self) -> XSequence {
         let mut seq = new_xsequence();
         for v in self.value.iter() {
-            seq.push(&v.atomize());
+            match v {
+                // 配列は、その要素を原子化して連結する。
+                XItem::XIArray{value} => seq.append(&value.array_flatten().atomize()),
+                _ => seq.push(&v.atomize()),
+            }
         }
         return seq;
     }
@@ -318,12 +322,13 @@ impl XSequence {
     //     キャスト指定の末尾が "?" であれば、空シーケンスもキャスト可能。
     //
     pub fn castable_as(&self, type_name: &str) -> bool {
-        if self.is_empty() {
+        let xseq = self.atomize();
+        if xseq.is_empty() {
             return type_name.ends_with("?");
         }
 
-        if let Ok(xitem) = self.get_singleton_item() {
-            return xitem.atomize().castable_as(type_name.trim_right_matches('?'));
+        if let Ok(xitem) = xseq.get_singleton_item() {
+            return xitem.castable_as(type_name.trim_right_matches('?'));
         }
 
         return false;
@@ -338,14 +343,15 @@ impl XSequence {
     //      キャスト指定の末尾が "?" でなければエラー。
     //
     pub fn cast_as(&self, type_name: &str) -> Result<XSequence, Box<Error>> {
-        if self.is_empty() {
+        let xseq = self.atomize();
+        if xseq.is_empty() {
             if type_name.ends_with("?") {
                 return Ok(new_xsequence());
             }
         }
 
-        if let Ok(xitem) = self.get_singleton_item() {
-            if let Ok(result) = xitem.atomize().cast_as(type_name.trim_right_matches('?')) {
+        if let Ok(xitem) = xseq.get_singleton_item() {
+            if let Ok(result) = xitem.cast_as(type_name.trim_right_matches('?')) {
                 return Ok(new_singleton(&result));
             }
         }
@@ -427,6 +433,8 @@ fn value_comparison<FNUM, FSTR, FBOOL>(lhs: &XSequence, rhs: &XSequence,
           FSTR: FnMut(i64) -> bool,
           FBOOL: FnMut(&Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 
+    let lhs = lhs.atomize();
+    let rhs = rhs.atomize();
     if lhs.is_empty() || rhs.is_empty() {
         return Ok(new_xsequence());
     }
@@ -435,8 +443,6 @@ fn value_comparison<FNUM, FSTR, FBOOL>(lhs: &XSequence, rhs: &XSequence,
                     "value_compare: operand is not singleton: {} : {}",
                     lhs.to_string(), rhs.to_string()));
     }
-    let lhs = lhs.atomize();
-    let rhs = rhs.atomize();
     if let Ok(result) = num_op(&vec!{&lhs, &rhs}) {
         return Ok(result);
     }
-- 
2.43.0


From 14382288d2e6332879cab3fa696e5f0178f05e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 28/81] fix: string and integer arguments are atomized

---
 src/xpath_impl/func.rs      | 15 +++++++++++----
 src/xpath_impl/xsequence.rs |  8 ++++----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 8b9f529..110cbee 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -546,7 +546,11 @@ fn fn_number(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     if args[0].is_empty() {
         return Ok(new_singleton_double(f64::NAN));
     }
-    let arg = args[0].get_singleton_item()?;
+    let arg = args[0].atomize();
+    if arg.is_empty() {
+        return Ok(new_singleton_double(f64::NAN));
+    }
+    let arg = arg.get_singleton_item()?;
     arg.get_as_raw_string()?;           // 原子化できない値 (函数など) はエラー。
     let result = arg.get_as_raw_double().unwrap_or(f64::NAN);
     return Ok(new_singleton_double(result));
@@ -713,6 +717,7 @@ fn codepoint_equal_sub(str1: &String, str2: &String) -> bool {
 pub fn fn_concat(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let mut val = String::new();
     for arg in args.iter() {
+        let arg = arg.atomize();
         if ! arg.is_empty() {
             val += &arg.get_singleton_item()?.get_as_raw_string()?;
         }
@@ -733,7 +738,7 @@ fn fn_string_join(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
         };
 
     let mut result = String::new();
-    for (i, s) in args[0].iter().enumerate() {
+    for (i, s) in args[0].atomize().iter().enumerate() {
         if i != 0 {
             result += &separator;
         }
@@ -788,7 +793,8 @@ fn fn_substring(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_string_length_0(_args: &Vec<&XSequence>, context_xseq: &XSequence,
                _eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
-    return fn_string_length(&vec!{context_xseq});
+    let arg = fn_string(&vec!{context_xseq})?;
+    return fn_string_length(&vec!{&arg});
 }
 
 fn fn_string_length(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
@@ -809,7 +815,8 @@ fn fn_string_length(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_normalize_space_0(_args: &Vec<&XSequence>, context_xseq: &XSequence,
                _eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
-    return fn_normalize_space(&vec!{context_xseq});
+    let arg = fn_string(&vec!{context_xseq})?;
+    return fn_normalize_space(&vec!{&arg});
 }
 
 fn fn_normalize_space(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index 4399880..b0c0d60 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -165,10 +165,10 @@ impl XSequence {
     }
 
     // -----------------------------------------------------------------
-    // シングルトンかつ文字列であれば、その文字列を返す。
+    // (原子化して) シングルトンかつ文字列であれば、その文字列を返す。
     //
     pub fn get_singleton_string(&self) -> Result<String, Box<Error>> {
-        let item = self.get_singleton_item()?;
+        let item = self.atomize().get_singleton_item()?;
         match item {
             XItem::XIString{value} => return Ok(value),
             _ => {},
@@ -178,10 +178,10 @@ impl XSequence {
     }
 
     // -----------------------------------------------------------------
-    // シングルトンかつ整数であれば、その整数を返す。
+    // (原子化して) シングルトンかつ整数であれば、その整数を返す。
     //
     pub fn get_singleton_integer(&self) -> Result<i64, Box<Error>> {
-        let item = self.get_singleton_item()?;
+        let item = self.atomize().get_singleton_item()?;
         match item {
             XItem::XIInteger{value} => return Ok(value),
             _ => {},
-- 
2.43.0


From 7a248f86af030b96214d4f66042a2e9b7ad19e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 29/81] fix: abs, ceiling, floor and round: overflow, precision
 and arguments that are not numbers

---
 src/xpath_impl/func.rs | 56 ++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 110cbee..8dacccb 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -436,7 +436,7 @@ fn fn_data(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_abs(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a.abs() },
+                |a| { a.checked_abs() },
                 |a| { a.abs() },
                 |a| { a.abs() });
 }
@@ -448,7 +448,7 @@ fn fn_abs(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_ceiling(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a },
+                |a| { Some(a) },
                 |a| { a.ceil() },
                 |a| { ceil_x(a) });
 }
@@ -460,7 +460,7 @@ fn fn_ceiling(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_floor(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a },
+                |a| { Some(a) },
                 |a| { a.floor() },
                 |a| { floor_x(a) });
 }
@@ -472,8 +472,8 @@ fn fn_floor(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_round(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a },
-                |a| { (a + 0.5).floor() },
+                |a| { Some(a) },
+                |a| { round_half_up(a) },
                         // a.round() ではない。
                         // round(-2.5) => -2 となるようにするため。
                 |a| { round_x(a) });
@@ -504,7 +504,17 @@ fn round_x(num: f64) -> f64 {
        (-0.5 <= num && num < 0.0) {
         return 1.0 / f64::NEG_INFINITY;                 // 負のゼロ
     } else {
-        return (num + 0.5).floor();
+        return round_half_up(num);
+    }
+}
+
+// (num + 0.5).floor() では、加算の際に丸められて値がずれることがある。
+fn round_half_up(num: f64) -> f64 {
+    let floor = num.floor();
+    if num - floor < 0.5 {
+        return floor;
+    } else {
+        return num.ceil();
     }
 }
 
@@ -512,24 +522,28 @@ fn round_x(num: f64) -> f64 {
 //
 fn fn_numeric_unary<FINT, FDEC, FDBL>(args: &Vec<&XSequence>,
         mut int_op: FINT, mut dec_op: FDEC, mut dbl_op: FDBL) -> Result<XSequence, Box<Error>>
-        where FINT: FnMut(i64) -> i64,
+        where FINT: FnMut(i64) -> Option<i64>,
               FDEC: FnMut(f64) -> f64,
               FDBL: FnMut(f64) -> f64 {
-    if let Ok(arg) = args[0].get_singleton_item() {
-        match arg {
-            XItem::XIInteger{value: arg} => {
-                return Ok(new_singleton_integer(int_op(arg)));
-            },
-            XItem::XIDecimal{value: arg} => {
-                return Ok(new_singleton_decimal(dec_op(arg)));
-            },
-            XItem::XIDouble{value: arg} => {
-                return Ok(new_singleton_double(dbl_op(arg)));
-            },
-            _ => {},
-        }
+    let arg = args[0].atomize();
+    if arg.is_empty() {
+        return Ok(new_xsequence());
+    }
+    match arg.get_singleton_item()? {
+        XItem::XIInteger{value: arg} => {
+            match int_op(arg) {
+                Some(v) => return Ok(new_singleton_integer(v)),
+                None => return Err(dynamic_error!("Numeric operation overflow/underflow.")),
+            }
+        },
+        XItem::XIDecimal{value: arg} => {
+            return Ok(new_singleton_decimal(dec_op(arg)));
+        },
+        XItem::XIDouble{value: arg} => {
+            return Ok(new_singleton_double(dbl_op(arg)));
+        },
+        _ => return Err(type_error!("{}: Not numeric", args[0].to_string())),
     }
-    return Ok(new_xsequence());
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From 3a8eb9511860005a044d0fa246e96d6685e09db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 30/81] fix: codepoints-to-string rejects code points that are
 not XML characters

---
 src/xpath_impl/func.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 8dacccb..b654a6e 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -5,6 +5,7 @@
 // Copyright (C) 2018 KOYAMA Hiro <tac@amris.co.jp>
 //
 
+use std::char;
 use std::error::Error;
 use std::f64;
 use std::i64;
@@ -581,22 +582,26 @@ fn fn_number(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 // fn:codepoints-to-string($arg as xs:integer*) as xs:string
 //
 fn fn_codepoints_to_string(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    let mut v: Vec<u16> = vec!{};
-    for item in args[0].iter() {
-        let uni = item.get_as_raw_integer()? as u64;
-        if 0x10000 <= uni {                             // 代用対
-            let hi = (uni - 0x10000) / 0x0400 + 0xD800;
-            let lo = (uni - 0x10000) % 0x0400 + 0xDC00;
-            v.push(hi as u16);
-            v.push(lo as u16);
-        } else {
-            v.push(uni as u16);
+    let mut result = String::new();
+    for item in args[0].atomize().iter() {
+        let uni = item.get_as_raw_integer()?;
+        let ch = if 0 <= uni && uni <= 0x10FFFF {
+                char::from_u32(uni as u32)
+            } else {
+                None
+            };
+        match ch {
+            Some(ch) if is_xml_char(ch) => result.push(ch),
+            _ => return Err(dynamic_error!("Code point not valid.")),
         }
     }
-    match String::from_utf16(&v) {
-        Ok(s) => return Ok(new_singleton_string(&s)),
-        Err(_) => return Err(dynamic_error!("Code point not valid.")),
-    }
+    return Ok(new_singleton_string(&result));
+}
+
+// XMLの文字 (Char) であることを判定する。
+fn is_xml_char(ch: char) -> bool {
+    return ch == '\t' || ch == '\n' || ch == '\r' ||
+           (' ' <= ch && ch != '\u{FFFE}' && ch != '\u{FFFF}');
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From c4fe7cc324ef38031e33551b63addaa3b22ff4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 31/81] fix: translate uses the first occurrence in the map
 string

---
 src/xpath_impl/func.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index b654a6e..59ea203 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -903,6 +903,7 @@ fn fn_translate(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
         for (i, c) in from_runes.iter().enumerate() {
             if ch == c {
                 index = i;
+                break;              // 同じ文字があれば最初のものを採る。
             }
         }
         if index != usize::MAX {
-- 
2.43.0


From 20d0359901de7aba4b98ab4fad1485c3803b5c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 32/81] fix: lang takes the nearest xml:lang and compares it by
 prefix

---
 src/xpath_impl/func.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 59ea203..68d70ca 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1181,24 +1181,23 @@ fn fn_lang_1(args: &Vec<&XSequence>, context_xseq: &XSequence,
 }
 
 fn fn_lang(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    if args[0].is_empty() {
-        return Ok(new_singleton_string(&""));
+    let mut testlang = String::new();
+    if ! args[0].is_empty() {
+        testlang = args[0].get_singleton_string()?.to_lowercase();
     }
-    let testlang = args[0].get_singleton_string()?;
     let node = args[1].get_singleton_node()?;
 
-    let mut xmllang = String::new();
-    for n in array_ancestor_or_self(&node).iter() {
-                                // array_ancestor_or_self() !!!!!!!!!!!!
+    // array_ancestor_or_self() は文書順なので、逆順に (近い方から) 調べる。
+    for n in array_ancestor_or_self(&node).iter().rev() {
         if let Some(val) = n.attribute_value("xml:lang") {
-            xmllang = val.to_lowercase();
-            break;
+            let xmllang = val.to_lowercase();
+            let result = xmllang == testlang ||
+                         xmllang.starts_with(&format!("{}-", testlang));
+            return Ok(new_singleton_boolean(result));
         }
     }
-    let v: Vec<&str> = xmllang.splitn(2, "-").collect();
-    let result = v[0] == testlang;
 
-    return Ok(new_singleton_boolean(result));
+    return Ok(new_singleton_boolean(false));
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From 8197b842423ca2186d5888bffea88a5d05356a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 33/81] fix: positions beyond the integer range and infinite
 bounds in substring, subsequence and insert-before

---
 src/xpath_impl/func.rs | 55 ++++++++++++++----------------------------
 1 file changed, 18 insertions(+), 37 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 68d70ca..56107db 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -792,9 +792,9 @@ fn fn_substring(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 
     let starting_loc = args[1].get_singleton_item()?.get_as_raw_double()?;
     let length = if args.len() == 2 {
-            f64::INFINITY
+            None
         } else {
-            args[2].get_singleton_item()?.get_as_raw_double()?
+            Some(args[2].get_singleton_item()?.get_as_raw_double()?)
         };
     let (b, e) = subcollection_index_sub(sv.len(), starting_loc, length);
 
@@ -1283,7 +1283,7 @@ fn fn_tail(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_insert_before(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let target = args[0];
-    let mut position = args[1].get_singleton_integer()? - 1;
+    let mut position = args[1].get_singleton_integer()?.saturating_sub(1);
     let inserts = args[2];
     if position <= 0 {
         position = 0;
@@ -1348,9 +1348,9 @@ fn fn_subsequence(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 
     let starting_loc = args[1].get_singleton_item()?.get_as_raw_double()?;
     let length = if args.len() == 2 {
-            f64::INFINITY
+            None
         } else {
-            args[2].get_singleton_item()?.get_as_raw_double()?
+            Some(args[2].get_singleton_item()?.get_as_raw_double()?)
         };
     let (b, e) = subcollection_index_sub(
                     source_sequence.len(), starting_loc, length);
@@ -1717,48 +1717,29 @@ fn array_flatten(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 // Cの要素 (番号 i := [b, e)、0起点の値) から成る部分集合を
 // 取得すればよいよう、bとe (usize型) を求めて返す。
 // 空集合を取得するべき場合は、b = 0、e = 0 を返す。
+// length = None は、長さの指定がないことを表す。
 //
 //                  7.4.3 fn:substring
 //                  15.1.10 fn:subsequence
 //
 fn subcollection_index_sub(source_length: usize,
-                           starting_loc: f64, length: f64) -> (usize, usize) {
+                starting_loc: f64, length: Option<f64>) -> (usize, usize) {
 
-    if starting_loc.is_nan() || starting_loc.is_infinite() {
+    // 1起点の位置 p について、beg_pos <= p かつ p < end_pos。
+    let beg_pos = round_x(starting_loc);
+    let end_pos = match length {
+            Some(length) => beg_pos + round_x(length),
+            None => f64::INFINITY,
+        };
+    if beg_pos.is_nan() || end_pos.is_nan() {
         return (0, 0);
     }
-    let beg_pos = round_x(starting_loc) as i64;     // 有限値
-    let mut b = beg_pos - 1;                        // 0起点の値に補正
-    if b < 0 {
-        b = 0;
-    }
-    if source_length as i64 <= b {
-        b = source_length as i64;
-    }
-
-    let mut e: i64;
-    if length.is_infinite() && length.is_sign_positive() {
-        e = source_length as i64;
-    } else {
-        if length.is_nan() || length.is_sign_negative() {
-            return (0, 0);
-        }
-        let len_str = if length.is_infinite() {
-                source_length as i64
-            } else {
-                round_x(length) as i64                 // 非負の有限値
-            };
-        e = beg_pos + len_str - 1;
-        if e < b {
-            e = b;
-        }
-        if source_length as i64 <= e {
-            e = source_length as i64;
-        }
-    }
 
+    // 0起点の値に補正し、Cの範囲に収める。
+    let source_length = source_length as f64;
+    let b = (beg_pos - 1.0).max(0.0).min(source_length);
+    let e = (end_pos - 1.0).max(b).min(source_length);
     return (b as usize, e as usize);
-
 }
 
 // =====================================================================
-- 
2.43.0


From 00950a12014626c68d7816b42907446dd6db27ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:25 +0000
Subject: [PATCH 34/81] fix: index-of treats values that cannot be compared as
 different

---
 src/xpath_impl/func.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 56107db..753f694 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1374,12 +1374,15 @@ fn fn_subsequence(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //             $collation as xs:string) as xs:integer*
 //
 fn fn_index_of(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    let seq_param = args[0];
-    let srch_param = args[1];
+    let seq_param = args[0].atomize();
+    let srch_param = new_singleton(&args[1].atomize().get_singleton_item()?);
     let mut result = new_xsequence();
     for (i, v) in seq_param.iter().enumerate() {
-        if value_compare_eq(&new_singleton(v), srch_param)?.get_singleton_boolean()? == true {
-            result.push(&new_xitem_integer(usize_to_i64(i + 1)));
+        // 比較できない値は、等しくないものとして扱う。
+        if let Ok(b) = value_compare_eq(&new_singleton(v), &srch_param) {
+            if b.effective_boolean_value()? == true {
+                result.push(&new_xitem_integer(usize_to_i64(i + 1)));
+            }
         }
     }
     return Ok(result);
-- 
2.43.0


From faf45bec61a2eafeaa553e8d97fd427b0fc1d4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:31 +0000
Subject: [PATCH 35/81] fix: aggregate functions: NaN, mixed numeric types,
 arrays and booleans

---
 src/xpath_impl/func.rs | 80 ++++++++++++++++++++++++++++++++----------
 1 file changed, 62 insertions(+), 18 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 753f694..b51735f 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1451,25 +1451,59 @@ fn fn_avg(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
         return Ok(new_xsequence());
     }
 
-    let sum = fn_sum(args)?;
-    let divider = new_xitem_integer(usize_to_i64(args[0].len()));
+    let arg = args[0].atomize();
+    if arg.is_empty() {
+        return Ok(new_xsequence());
+    }
+
+    let sum = fn_sum(&vec!{&arg})?;
+    let divider = new_xitem_integer(usize_to_i64(arg.len()));
     let avg = xitem_numeric_divide(&sum.get_item(0), &divider)?;
 
     return Ok(new_singleton(&avg));
 }
 
+// ---------------------------------------------------------------------
+// max/minの引数を原子化する。
+// 数値のみから成り、xs:doubleを含むならば、すべてxs:doubleに揃える。
+// NaNがあれば、最大値も最小値もNaNである。
+//
+fn comparable_items(arg: &XSequence) -> Result<XSequence, Box<Error>> {
+    let arg = arg.atomize();
+    let has_double = arg.iter().any(|item| {
+        match item {
+            XItem::XIDouble{value: _} => true,
+            _ => false,
+        }
+    });
+    if ! has_double || ! arg.iter().all(|item| item.is_numeric()) {
+        return Ok(arg);
+    }
+
+    let mut result = new_xsequence();
+    for item in arg.iter() {
+        let v = item.get_as_raw_double()?;
+        if v.is_nan() {
+            return Ok(new_singleton_double(f64::NAN));
+        }
+        result.push(&new_xitem_double(v));
+    }
+    return Ok(result);
+}
+
 // ---------------------------------------------------------------------
 // 14.4.3 fn:max
 // fn:max($arg as xs:anyAtomicType*) as xs:anyAtomicType?
 // fn:max($arg as xs:anyAtomicType*, $collation as string) as xs:anyAtomicType?
 //
 fn fn_max(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    if args[0].is_empty() {
+    let arg = comparable_items(args[0])?;
+    if arg.is_empty() {
         return Ok(new_xsequence());
     }
 
-    let mut max_item = args[0].get_item(0).clone();
-    for item in args[0].iter() {
+    let mut max_item = arg.get_item(0).clone();
+    for item in arg.iter() {
         let b = value_compare_lt(&new_singleton(&max_item), &new_singleton(item))?;
         if b.effective_boolean_value()? == true {
             max_item = item.clone();
@@ -1485,12 +1519,13 @@ fn fn_max(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 // fn:min($arg as xs:anyAtomicType*, $collation as string) as xs:anyAtomicType?
 //
 fn fn_min(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    if args[0].is_empty() {
+    let arg = comparable_items(args[0])?;
+    if arg.is_empty() {
         return Ok(new_xsequence());
     }
 
-    let mut max_item = args[0].get_item(0).clone();
-    for item in args[0].iter() {
+    let mut max_item = arg.get_item(0).clone();
+    for item in arg.iter() {
         let b = value_compare_gt(&new_singleton(&max_item), &new_singleton(item))?;
         if b.effective_boolean_value()? == true {
             max_item = item.clone();
@@ -1509,7 +1544,8 @@ fn fn_min(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 // $argが空シーケンスのとき: $zeroがあれば$zero、なければ整数0を返す。
 //
 fn fn_sum(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    if args[0].is_empty() {
+    let arg = args[0].atomize();
+    if arg.is_empty() {
         if args.len() <= 1 {
             return Ok(new_singleton_integer(0));
         } else {
@@ -1517,17 +1553,25 @@ fn fn_sum(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
         }
     }
 
-    let mut val = new_xitem_integer(0);
-    for n in args[0].iter() {
-        if n.is_numeric() {
-            val = xitem_numeric_add(&val, &n)?;
-        } else {
-            let n_double = n.cast_as("double")?;
-            val = xitem_numeric_add(&val, &n_double)?;
-        }
+    let mut val: Option<XItem> = None;
+    for n in arg.iter() {
+        let n = match n {
+            XItem::XIBoolean{value: _} => {
+                return Err(type_error!("{}: Not numeric", n.to_string()));
+            },
+            _ if n.is_numeric() => n.clone(),
+            _ => n.cast_as("double")?,
+        };
+        val = match val {
+            Some(val) => Some(xitem_numeric_add(&val, &n)?),
+            None => Some(n),
+        };
                         // 必要に応じて型の昇格をしながら加算していく。
     }
-    return Ok(new_singleton(&val));
+    match val {
+        Some(val) => return Ok(new_singleton(&val)),
+        None => return Ok(new_xsequence()),
+    }
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From c6913d092459c9a423a72ea2ca27c6b33cd8e25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 36/81] fix: function items keep the variables and arguments of
 their definition, every kind of function can be called

---
 src/xpath_impl/eval.rs      | 185 ++++++++++++++++++++++--------------
 src/xpath_impl/func.rs      |   6 +-
 src/xpath_impl/xitem.rs     |  14 ++-
 src/xpath_impl/xsequence.rs |  18 +---
 4 files changed, 127 insertions(+), 96 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 98b201f..4631995 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -10,6 +10,7 @@ use std::cmp::Ordering;
 use std::error::Error;
 use std::f64;
 use std::i64;
+use std::mem;
 use std::str::FromStr;
 use std::usize;
 
@@ -52,6 +53,15 @@ struct VarNameValue {
     value: XSequence,
 }
 
+// 函数アイテムが、定義された時点の評価環境から引き継ぐもの。
+//
+#[derive(Debug, PartialEq, Clone)]
+pub struct Closure {
+    var_vec: Vec<VarNameValue>,             // インライン函数: 変数表
+    args: Vec<Option<XSequence>>,           // 部分函数呼び出し: 引数
+                                            //   ("?" の位置はNone)
+}
+
 #[derive(Debug, PartialEq, Clone)]
 pub struct EvalEnv {
     position: usize,                        // 組み込み函数 position() の値
@@ -648,9 +658,10 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
         XNodeType::InlineFunction |
         XNodeType::NamedFunctionRef |
         XNodeType::PartialFunctionCall => {
-            // インライン函数 | 名前付き函数参照:
+            // インライン函数 | 名前付き函数参照 | 部分函数呼び出し:
             // この時点では評価せず、シングルトンとして包んで返す。
-            return Ok(new_singleton_xnodeptr(&xnode));
+            let closure = new_closure(xseq, xnode, eval_env)?;
+            return Ok(new_singleton_xnodeptr(&xnode, closure));
         },
 
         XNodeType::Map |
@@ -1426,53 +1437,52 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
         curr_arg_top = get_right(&curr_arg_top);
     }
 
-    // -----------------------------------------------------------------
-    // インライン函数
-    //
-    if let Ok(inline_func_xnode) = curr_xseq.get_singleton_xnodeptr() {
-        match get_xnode_type(&inline_func_xnode) {
-            XNodeType::InlineFunction => {
-                return call_inline_func(&inline_func_xnode,
-                            argument_xseq, xseq, eval_env);
-            },
-            _ => {}
-        }
-    }
+    return call_function(curr_xseq, argument_xseq, xseq, eval_env);
+}
 
-    // -----------------------------------------------------------------
-    // マップ
-    //
-    if let Ok(map_item) = curr_xseq.get_singleton_map() {
-        let key = argument_xseq[0].get_singleton_item()?;
-        if let Some(v) = map_item.map_get(&key) {
-            return Ok(v);
-        } else {
-            return Err(dynamic_error!(
-                    "map_lookup: key = {}: 値が見つからない。", key));
-        }
-    }
+// ---------------------------------------------------------------------
+// 函数アイテムを作る時点の変数や引数を保存する。
+//
+fn new_closure(context_xseq: &XSequence, func_xnode: &XNodePtr,
+                eval_env: &mut EvalEnv) -> Result<Closure, Box<Error>> {
+    let mut closure = Closure{
+        var_vec: vec!{},
+        args: vec!{},
+    };
 
-    // -----------------------------------------------------------------
-    // 配列
-    //
-    if let Ok(array_item) = curr_xseq.get_singleton_array() {
-        let index_item = argument_xseq[0].get_singleton_item()?;
-        if let Some(v) = array_item.array_get(&index_item) {
-            return Ok(v);
-        } else {
-            return Err(dynamic_error!(
-                "Array index ({}) out of bounds.", index_item));
-        }
+    match get_xnode_type(&func_xnode) {
+        XNodeType::InlineFunction => {
+            closure.var_vec = eval_env.var_vec.clone();
+        },
+        XNodeType::PartialFunctionCall => {
+            let mut curr_xnode = get_right(&func_xnode);
+            while ! is_nil_xnode(&curr_xnode) {
+                match get_xnode_type(&curr_xnode) {
+                    XNodeType::ArgumentTop => {
+                        let arg = evaluate_xnode(context_xseq,
+                                    &get_left(&curr_xnode), eval_env)?;
+                        closure.args.push(Some(arg));
+                    },
+                    XNodeType::ArgumentPlaceholder => {
+                        closure.args.push(None);
+                    },
+                    _ => {
+                        return Err(cant_occur!("new_closure: ArgumentTopでもArgumentPlaceholderでもでない。"));
+                    }
+                }
+                curr_xnode = get_right(&curr_xnode);
+            }
+        },
+        _ => {},
     }
 
-    return Err(cant_occur!(
-                "apply_argument: インライン函数/マップ/配列でない。"));
-
+    return Ok(closure);
 }
 
 // ---------------------------------------------------------------------
 //
 fn call_inline_func(inline_func_xnode: &XNodePtr,
+                closure: &Closure,
                 argument_xseq: Vec<XSequence>,
                 context_xseq: &XSequence,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
@@ -1484,7 +1494,6 @@ fn call_inline_func(inline_func_xnode: &XNodePtr,
 
     // -----------------------------------------------------------------
     // 仮引数名を調べる。
-    // // 個数、引数型も照合すること。
     //
     let mut param_names: Vec<String> = vec!{};
     let mut sequence_types: Vec<XNodePtr> = vec!{};
@@ -1496,9 +1505,17 @@ fn call_inline_func(inline_func_xnode: &XNodePtr,
         param_xnode = get_right(&param_xnode);
     }
 
+    if param_names.len() != argument_xseq.len() {
+        return Err(type_error!(
+                "インライン函数: 引数の個数が合致しない: {}。",
+                argument_xseq.len()));
+    }
+
     // -----------------------------------------------------------------
+    // 函数を定義した時点の変数表に切り替えた上で、
     // 実引数の値を変数 (仮引数) に束縛する。
     //
+    let old_var_vec = mem::replace(&mut eval_env.var_vec, closure.var_vec.clone());
     for (i, val) in argument_xseq.iter().enumerate() {
         if match_sequence_type(&val, &sequence_types[i])? == false {
             return Err(type_error!(
@@ -1514,13 +1531,9 @@ fn call_inline_func(inline_func_xnode: &XNodePtr,
     let value = evaluate_xnode(context_xseq, &func_body_xnode, eval_env)?;
 
     // -----------------------------------------------------------------
-    // 変数 (仮引数) を削除する。
+    // 変数表を元に戻す。
     //
-    let mut i: i64 = (param_names.len() as i64) - 1;
-    while 0 <= i {
-        eval_env.remove_var(&param_names[i as usize]);
-        i -= 1;
-    }
+    eval_env.var_vec = old_var_vec;
 
     return Ok(value);
 }
@@ -1561,42 +1574,40 @@ fn call_named_func(func_xnode: &XNodePtr,
 //    (func_name)               |                  (第2引数)
 //                             ... (第1引数)
 //
+// closure: ArgumentTopである引数の値。
+//
 // argument_xseq: 長さはArgumentPlaceholderの個数と同じ。
 //                argument_xseq[i]をArgumentPlaceholder部分の引数として
 //                函数に渡す。
 //
 // context_xseq: 文脈シーケンス。
-//               ArgumentTopである引数は、文脈シーケンスに対して評価する。
-//               関数の評価も文脈シーケンスに対しておこなう。
+//               関数の評価は文脈シーケンスに対しておこなう。
 //
 // eval_env: 評価環境 (変数の値など)。
 //
 fn call_partial_func(func_xnode: &XNodePtr,
+                closure: &Closure,
                 argument_xseq: Vec<XSequence>,
                 context_xseq: &XSequence,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
 
     let mut args_array: Vec<XSequence> = vec!{};
-    let mut curr_xnode = get_right(&func_xnode);
     let mut i = 0;
-    while ! is_nil_xnode(&curr_xnode) {
-        match get_xnode_type(&curr_xnode) {
-            XNodeType::ArgumentTop => {
-                let arg = evaluate_xnode(context_xseq, &get_left(&curr_xnode), eval_env)?;
-                args_array.push(arg);
-            },
-            XNodeType::ArgumentPlaceholder => {
+    for arg in closure.args.iter() {
+        match arg {
+            Some(arg) => args_array.push(arg.clone()),
+            None => {
                 if i >= argument_xseq.len() {
                     return Err(dynamic_error!("函数呼び出しの「?」に渡すべき引数が足りない。"));
                 }
                 args_array.push(argument_xseq[i].clone());
                 i += 1;
             },
-            _ => {
-                return Err(cant_occur!("call_partial_func: ArgumentTopでもArgumentPlaceholderでもでない。"));
-            }
         }
-        curr_xnode = get_right(&curr_xnode);
+    }
+    if i != argument_xseq.len() {
+        return Err(type_error!(
+                "部分函数: 引数の個数が合致しない: {}。", argument_xseq.len()));
     }
 
     return evaluate_function(&get_xnode_name(&func_xnode),
@@ -1606,26 +1617,56 @@ fn call_partial_func(func_xnode: &XNodePtr,
 
 // ---------------------------------------------------------------------
 // 函数呼び出し。
-// インライン函数、名前付き函数参照、部分函数。
+// インライン函数、名前付き函数参照、部分函数、マップ、配列。
 //
-pub fn call_function(func_xnode: &XNodePtr,
+pub fn call_function(func_xseq: &XSequence,
                 argument_xseq: Vec<XSequence>,
                 context_xseq: &XSequence,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
 
-    match get_xnode_type(&func_xnode) {
-        XNodeType::InlineFunction => {
-            return call_inline_func(func_xnode, argument_xseq, context_xseq, eval_env);
+    match func_xseq.get_singleton_item()? {
+        XItem::XItemXNodePtr{value: func_xnode, closure} => {
+            match get_xnode_type(&func_xnode) {
+                XNodeType::InlineFunction => {
+                    return call_inline_func(&func_xnode, &closure, argument_xseq, context_xseq, eval_env);
+                },
+                XNodeType::NamedFunctionRef => {
+                    return call_named_func(&func_xnode, argument_xseq, context_xseq, eval_env);
+                },
+                XNodeType::PartialFunctionCall => {
+                    return call_partial_func(&func_xnode, &closure, argument_xseq, context_xseq, eval_env);
+                },
+                _ => {
+                    return Err(cant_occur!("call_h_function: XNodeType = {:?}",
+                            get_xnode_type(&func_xnode)));
+                },
+            }
         },
-        XNodeType::NamedFunctionRef => {
-            return call_named_func(func_xnode, argument_xseq, context_xseq, eval_env);
+
+        XItem::XIMap{value: map_item} => {
+            if argument_xseq.len() != 1 {
+                return Err(type_error!("マップ: 引数は1個でなければならない。"));
+            }
+            let key = argument_xseq[0].atomize().get_singleton_item()?;
+            return Ok(map_item.map_get(&key).unwrap_or(new_xsequence()));
         },
-        XNodeType::PartialFunctionCall => {
-            return call_partial_func(func_xnode, argument_xseq, context_xseq, eval_env);
+
+        XItem::XIArray{value: array_item} => {
+            if argument_xseq.len() != 1 {
+                return Err(type_error!("配列: 引数は1個でなければならない。"));
+            }
+            let index_item = argument_xseq[0].atomize().get_singleton_item()?;
+            if let Some(v) = array_item.array_get(&index_item) {
+                return Ok(v);
+            } else {
+                return Err(dynamic_error!(
+                    "Array index ({}) out of bounds.", index_item));
+            }
         },
+
         _ => {
-            return Err(cant_occur!("call_h_function: XNodeType = {:?}",
-                    get_xnode_type(&func_xnode)));
+            return Err(type_error!(
+                "{}: インライン函数/マップ/配列でない。", func_xseq.to_string()));
         },
     }
 }
diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index b51735f..fb05a98 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1615,12 +1615,11 @@ fn fn_last(_args: &Vec<&XSequence>, _xseq: &XSequence,
 fn fn_for_each(args: &Vec<&XSequence>, context_xseq: &XSequence,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
 
-    let action_xnode = args[1].get_singleton_xnodeptr()?;
     let mut result = new_xsequence();
     for xitem in args[0].iter() {
         let argument_xseq = new_singleton(xitem);
         let result_xseq = call_function(
-                &action_xnode, vec!{argument_xseq}, context_xseq, eval_env)?;
+                args[1], vec!{argument_xseq}, context_xseq, eval_env)?;
         result.append(&result_xseq);
     }
     return Ok(result);
@@ -1634,12 +1633,11 @@ fn fn_for_each(args: &Vec<&XSequence>, context_xseq: &XSequence,
 fn fn_filter(args: &Vec<&XSequence>, context_xseq: &XSequence,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
 
-    let func_xnode = args[1].get_singleton_xnodeptr()?;
     let mut result = new_xsequence();
     for xitem in args[0].iter() {
         let argument_xseq = new_singleton(xitem);
         let result_xseq = call_function(
-                &func_xnode, vec!{argument_xseq}, context_xseq, eval_env)?;
+                args[1], vec!{argument_xseq}, context_xseq, eval_env)?;
         if result_xseq.effective_boolean_value()? == true {
             result.push(&xitem);
         }
diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 806ecb5..160dcc9 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -11,10 +11,12 @@ use std::f64;
 use std::i64;
 use std::ops::Neg;
 use std::ops::Rem;
+use std::rc::Rc;
 use std::str::FromStr;
 
 use dom::*;
 use xmlerror::*;
+use xpath_impl::eval::*;
 use xpath_impl::parser::*;
 use xpath_impl::xsequence::*;
 
@@ -108,6 +110,8 @@ pub enum XItem {
     XItemXNodePtr {
         value: XNodePtr,
             // (内部処理用) インライン函数をXItemとして扱う。
+        closure: Rc<Closure>,
+            // 函数を定義した時点の変数など。
     },
     XIMap {
         value: XSeqMap,
@@ -286,9 +290,10 @@ impl XSeqArray {
 
 // =====================================================================
 //
-pub fn new_xitem_xnodeptr(xnode: &XNodePtr) -> XItem {
+pub fn new_xitem_xnodeptr(xnode: &XNodePtr, closure: Closure) -> XItem {
     return XItem::XItemXNodePtr {
         value: xnode.clone(),
+        closure: Rc::new(closure),
     }
 }
 
@@ -480,7 +485,7 @@ impl fmt::Display for XItem {
                     return write!(f, "false");
                 }
             },
-            XItem::XItemXNodePtr{value} => {
+            XItem::XItemXNodePtr{value, ..} => {
                 return write!(f, "{}", value);
             },
             XItem::XIMap{value} => {
@@ -501,7 +506,7 @@ impl XItem {
     //
     pub fn xs_type(&self) -> String {
         match self {
-            XItem::XItemXNodePtr{value: _} => return String::from("function(*)"),
+            XItem::XItemXNodePtr{..} => return String::from("function(*)"),
             XItem::XIMap{value: _} => return String::from("map(*)"),
             XItem::XIArray{value: _} => return String::from("array(*)"),
             XItem::XINode{value: _} => return String::from("node"),
@@ -549,7 +554,6 @@ impl XItem {
     //
     pub fn is_item(&self) -> bool {
         match self {
-            XItem::XItemXNodePtr{value: _} => return false,
             _ => return true,
         }
     }
@@ -651,7 +655,7 @@ impl XItem {
     //
     pub fn get_as_raw_xnodeptr(&self) -> Result<XNodePtr, Box<Error>> {
         match self {
-            XItem::XItemXNodePtr{value} => {
+            XItem::XItemXNodePtr{value, ..} => {
                 return Ok(value.clone());
             },
             _ => {
diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index b0c0d60..0e73ec5 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -11,6 +11,7 @@ use std::slice::Iter;
 
 use dom::*;
 use xmlerror::*;
+use xpath_impl::eval::*;
 use xpath_impl::xitem::*;
 use xpath_impl::func::*;
 use xpath_impl::oper::*;
@@ -47,8 +48,8 @@ pub fn new_xsequence_from_node_array(node_array: &Vec<NodePtr>) -> XSequence {
     return xsequence;
 }
 
-pub fn new_singleton_xnodeptr(xnode: &XNodePtr) -> XSequence {
-    return new_singleton(&new_xitem_xnodeptr(xnode));
+pub fn new_singleton_xnodeptr(xnode: &XNodePtr, closure: Closure) -> XSequence {
+    return new_singleton(&new_xitem_xnodeptr(xnode, closure));
 }
 
 pub fn new_singleton_node(node: &NodePtr) -> XSequence {
@@ -112,19 +113,6 @@ impl XSequence {
         }
     }
 
-    // -----------------------------------------------------------------
-    // シングルトンかつXNodePtrであれば、そのノードを返す。
-    //
-    pub fn get_singleton_xnodeptr(&self) -> Result<XNodePtr, Box<Error>> {
-        let item = self.get_singleton_item()?;
-        match item {
-            XItem::XItemXNodePtr{value} => return Ok(value.clone()),
-            _ => {},
-        }
-
-        return Err(type_error!("This sequence must be singleton xnodeptr."));
-    }
-
     // -----------------------------------------------------------------
     // シングルトンかつノードであれば、そのノードを返す。
     //
-- 
2.43.0


From c59aabbfb6bf6abd4433c1a20b59341a5d6f6af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 37/81] fix: duplicate map keys and array positions out of
 range are errors, keys are atomized

---
 src/xpath_impl/eval.rs | 9 +++++++--
 src/xpath_impl/func.rs | 9 +++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 4631995..2b9aed7 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -695,7 +695,7 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
         },
 
         XNodeType::UnaryLookupByExpr => {
-            let expr = evaluate_xnode(xseq, &get_left(xnode), eval_env)?;
+            let expr = evaluate_xnode(xseq, &get_left(xnode), eval_env)?.atomize();
 
             if let Ok(xitem_map) = xseq.get_singleton_map() {
                 let mut result = new_xsequence();
@@ -713,6 +713,8 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
                     if let Some(v) = xitem_array.array_get(index) {
                         result.append(&v);
                     } else {
+                        return Err(dynamic_error!(
+                            "Array index ({}) out of bounds.", index));
                     }
                 }
                 return Ok(result);
@@ -2501,7 +2503,10 @@ fn convert_xnode_to_map_array(xnode: &XNodePtr,
                 }
 
                 let map_key_xnode = get_left(&map_entry_xnode);
-                let key = evaluate_xnode(context_xseq, &map_key_xnode, eval_env)?.get_singleton_item()?;
+                let key = evaluate_xnode(context_xseq, &map_key_xnode, eval_env)?.atomize().get_singleton_item()?;
+                if vec_item.iter().any(|(k, _)| k.op_same_key(&key)) {
+                    return Err(dynamic_error!("map: duplicate key: {}", key));
+                }
 
                 let map_value_xnode = get_right(&map_entry_xnode);
                 let val = evaluate_xnode(context_xseq, &map_value_xnode, eval_env)?;
diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index fb05a98..272cc2c 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1681,7 +1681,7 @@ fn map_keys(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn map_contains(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let xseq_map = args[0].get_singleton_map()?;
-    let key = args[1].get_singleton_item()?;
+    let key = args[1].atomize().get_singleton_item()?;
     let result = xseq_map.map_contains(&key);
     return Ok(new_singleton_boolean(result));
 }
@@ -1692,7 +1692,7 @@ fn map_contains(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn map_get(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let xseq_map = args[0].get_singleton_map()?;
-    let key = args[1].get_singleton_item()?;
+    let key = args[1].atomize().get_singleton_item()?;
     match xseq_map.map_get(&key) {
         Some(v) => return Ok(v),
         None => return Ok(new_xsequence()),
@@ -1719,10 +1719,11 @@ fn array_size(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn array_get(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let xseq_array = args[0].get_singleton_array()?;
-    let index = args[1].get_singleton_item()?;
+    let index = args[1].atomize().get_singleton_item()?;
     match xseq_array.array_get(&index) {
         Some(v) => return Ok(v),
-        None => return Ok(new_xsequence()),
+        None => return Err(dynamic_error!(
+                    "Array index ({}) out of bounds.", index)),
     }
 }
 
-- 
2.43.0


From 4b6c488058983dee54daa28449a4c64be2835804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 38/81] fix: only XML white space is ignored around numbers and
 booleans in casts

---
 src/xpath_impl/xitem.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 160dcc9..1ed845c 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -26,18 +26,25 @@ fn atof(s: &str) -> f64 {
     return f64::from_str(s.trim()).unwrap_or(f64::NAN);
 }
 
+// ---------------------------------------------------------------------
+// XMLの空白文字 (U+0020, U+0009, U+000A, U+000D) だけを前後から取り除く。
+//
+fn trim_space(s: &str) -> &str {
+    return s.trim_matches(|ch| " \t\n\r".contains(ch));
+}
+
 // ---------------------------------------------------------------------
 // 字句形式が正しければ数値を返す。
 //
 fn parse_integer(s: &str) -> Result<i64, Box<Error>> {
-    match i64::from_str(s.trim()) {
+    match i64::from_str(trim_space(s)) {
         Ok(v) => return Ok(v),
         Err(_) => return Err(type_error!("{}: Not an integer", s)),
     }
 }
 
 fn parse_decimal(s: &str) -> Result<f64, Box<Error>> {
-    let s = s.trim();
+    let s = trim_space(s);
     if s.chars().all(|ch| ch.is_ascii_digit() || "+-.".contains(ch)) {
         if let Ok(v) = f64::from_str(s) {
             return Ok(v);
@@ -47,7 +54,7 @@ fn parse_decimal(s: &str) -> Result<f64, Box<Error>> {
 }
 
 fn parse_double(s: &str) -> Result<f64, Box<Error>> {
-    let s = s.trim();
+    let s = trim_space(s);
     match s {
         "INF" | "+INF" => return Ok(f64::INFINITY),
         "-INF" => return Ok(f64::NEG_INFINITY),
@@ -63,7 +70,7 @@ fn parse_double(s: &str) -> Result<f64, Box<Error>> {
 }
 
 fn parse_boolean(s: &str) -> Result<bool, Box<Error>> {
-    match s.trim() {
+    match trim_space(s) {
         "true" | "1" => return Ok(true),
         "false" | "0" => return Ok(false),
         _ => return Err(type_error!("{}: Not a boolean", s)),
-- 
2.43.0


From 47ba1e7ab67ebf2c2a71a53e86ddd205a7c18d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:20 +0000
Subject: [PATCH 39/81] fix: the key expression of a postfix lookup is
 evaluated in the context of the lookup

---
 src/xpath_impl/eval.rs   | 70 ++++++++++++++++++++++++++--------------
 src/xpath_impl/parser.rs |  5 +++
 2 files changed, 50 insertions(+), 25 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 2b9aed7..6585ea2 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -695,33 +695,22 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
         },
 
         XNodeType::UnaryLookupByExpr => {
-            let expr = evaluate_xnode(xseq, &get_left(xnode), eval_env)?.atomize();
-
-            if let Ok(xitem_map) = xseq.get_singleton_map() {
-                let mut result = new_xsequence();
-                for key in expr.iter() {
-                    if let Some(v) = xitem_map.map_get(key) {
-                        result.append(&v);
-                    } else {
-                    }
-                }
-                return Ok(result);
-
-            } else if let Ok(xitem_array) = xseq.get_singleton_array() {
-                let mut result = new_xsequence();
-                for index in expr.iter() {
-                    if let Some(v) = xitem_array.array_get(index) {
-                        result.append(&v);
-                    } else {
-                        return Err(dynamic_error!(
-                            "Array index ({}) out of bounds.", index));
-                    }
-                }
-                return Ok(result);
+            let keys = evaluate_xnode(xseq, &get_left(xnode), eval_env)?.atomize();
+            return lookup_by_keys(xseq, &keys);
+        },
 
-            } else {
-                return Err(type_error!("lookup: マップ/配列でない。"));
+        XNodeType::ApplyLookup => {
+            // キーの式は、左辺値の各アイテムではなく、
+            // この式全体の文脈において評価する。
+            //
+            let lhs = evaluate_xnode(xseq, &get_left(xnode), eval_env)?;
+            let key_xnode = get_left(&get_right(xnode));
+            let keys = evaluate_xnode(xseq, &key_xnode, eval_env)?.atomize();
+            let mut result = new_xsequence();
+            for item in lhs.iter() {
+                result.append(&lookup_by_keys(&new_singleton(&item), &keys)?);
             }
+            return Ok(result);
         },
 
         XNodeType::VarRef => {
@@ -749,6 +738,37 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
     }
 }
 
+// ---------------------------------------------------------------------
+// マップまたは配列 (xseq) から、各キーに対応する値を取り出す。
+//
+fn lookup_by_keys(xseq: &XSequence, keys: &XSequence)
+                                    -> Result<XSequence, Box<Error>> {
+    if let Ok(xitem_map) = xseq.get_singleton_map() {
+        let mut result = new_xsequence();
+        for key in keys.iter() {
+            if let Some(v) = xitem_map.map_get(key) {
+                result.append(&v);
+            }
+        }
+        return Ok(result);
+
+    } else if let Ok(xitem_array) = xseq.get_singleton_array() {
+        let mut result = new_xsequence();
+        for index in keys.iter() {
+            if let Some(v) = xitem_array.array_get(index) {
+                result.append(&v);
+            } else {
+                return Err(dynamic_error!(
+                    "Array index ({}) out of bounds.", index));
+            }
+        }
+        return Ok(result);
+
+    } else {
+        return Err(type_error!("lookup: マップ/配列でない。"));
+    }
+}
+
 // ---------------------------------------------------------------------
 // lhsの各ノードについてxnodeを評価し、合併する。
 //
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 37ea9dd..2cbc0e3 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -132,6 +132,7 @@ pub enum XNodeType {
     ArrayEntry,
     UnaryLookupByExpr,
     UnaryLookupByWildcard,
+    ApplyLookup,
     ParenthesizedExpr,
 }
 
@@ -1939,6 +1940,7 @@ fn parse_step_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 // (Postfix Lookup)
 // KeySpacifierがNCName、IntegerLiteral、Wildcard ("*") の場合、
 // E?S は、単項検索子を使った式 E ! ?S と同等。
+// ParenthesizedExprの場合、式の文脈はEの文脈と同じ (ApplyLookup)。
 //
 fn parse_postfix_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let primary_xnode = parse_primary_expr(lex)?;
@@ -1958,6 +1960,9 @@ fn parse_postfix_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
                 XNodeType::ArgumentListTop => {
                     new_xnode(XNodeType::ApplyArgument, "")
                 },
+                XNodeType::UnaryLookupByExpr => {
+                    new_xnode(XNodeType::ApplyLookup, "")
+                },
                 _ => {
                     new_xnode(XNodeType::OperatorMap, "")
                 },
-- 
2.43.0


From 650b0145ecc627e89645f62f81d53d7b03b9b243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 40/81] fix: namespace_uri() of unprefixed attributes, of the
 prefix xml and of nodes without a name

---
 src/dom.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index c2e18c2..4820594 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -451,6 +451,19 @@ impl NodePtr {
     pub fn namespace_uri(&self) -> String {
         let mut xmlns_attr = String::from("xmlns");
         let space = self.space_name();
+        match self.node_type() {
+            NodeType::Element => {},
+            NodeType::Attribute => {
+                // The default namespace doesn't apply to attributes.
+                if space.as_str() == "" {
+                    return String::new();
+                }
+            },
+            _ => return String::new(),
+        }
+        if space.as_str() == "xml" {
+            return String::from("http://www.w3.org/XML/1998/namespace");
+        }
         if space.as_str() != "" {
             xmlns_attr += &":";
             xmlns_attr += &space;
-- 
2.43.0


From e5b438980cb21b87e0dce6d751570cdba18d0b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:52 +0000
Subject: [PATCH 41/81] fix: parenthesized item types match what the type
 inside the parentheses matches

---
 src/xpath_impl/eval.rs   | 5 -----
 src/xpath_impl/parser.rs | 6 ++----
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 6585ea2..41600cd 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1768,11 +1768,6 @@ fn match_sequence_type(xseq: &XSequence, xnode: &XNodePtr) -> Result<bool, Box<E
             return Ok(match_sequence_atomic_or_union_type(xseq, &type_xnode));
         },
 
-        XNodeType::ParenthesizedItemType => {
-            // =====================================================
-            return Ok(false);
-        },
-
         _ => {
             return Err(cant_occur!(
                 "match_sequence_type: xnodeの左辺値のxnode_typeが想定外: {:?}",
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 2cbc0e3..ed12970 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -110,7 +110,6 @@ pub enum XNodeType {
     MapTest,
     ArrayTest,
     AtomicOrUnionType,
-    ParenthesizedItemType,
     SingleType,
     SequenceType,
     OperatorConcat,
@@ -1553,9 +1552,8 @@ fn parse_parenthesized_item_type(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>
     error_if_not_ttype!(lex, TType::RightParen, "{}: 閉じ括弧が必要。");
     lex.get_token();
 
-    let paren_xnode = new_xnode(XNodeType::ParenthesizedItemType, "");
-    assign_as_left(&paren_xnode, &xnode);
-    return Ok(paren_xnode);
+    // 括弧は優先順位を示すだけなので、ItemType自体を返せばよい。
+    return Ok(xnode);
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From 0ee6d43c4478e1361f59fb0437d144ee1ef88db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:55 +0000
Subject: [PATCH 42/81] fix: element, attribute and processing-instruction
 tests in the subtype relation

---
 src/xpath_impl/eval.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 41600cd..5990d01 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2239,7 +2239,7 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
                 }
             },
             XNodeType::PITest => {                          // 9. 10.
-                let pi_name = get_xnode_name(bi);
+                let pi_name = get_xnode_name(&get_left(bi));
                 if pi_name == "" {
                     if get_xnode_type(ai) == XNodeType::KindTest &&
                        get_xnode_type(&get_left(ai)) == XNodeType::PITest {
@@ -2253,6 +2253,23 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
                     }
                 }
             },
+            XNodeType::ElementTest |                        // 13. 〜 18.
+            XNodeType::AttributeTest => {                   // 20. 〜 23.
+                if get_xnode_type(ai) == XNodeType::KindTest &&
+                   get_xnode_type(&get_left(ai)) == get_xnode_type(&get_left(bi)) {
+                    let a_name = get_xnode_name(&get_left(ai));
+                    let b_name = get_xnode_name(&get_left(bi));
+                    let a_type_ex = get_xnode_name(&get_left(&get_left(ai)));
+                    let b_type_ex = get_xnode_name(&get_left(&get_left(bi)));
+                    let a_type = a_type_ex.trim_right_matches('?');
+                    let b_type = b_type_ex.trim_right_matches('?');
+                    if (b_name == "*" || a_name == b_name) &&
+                       derives_from(a_type, b_type) &&
+                       (b_type_ex.ends_with("?") || ! a_type_ex.ends_with("?")) {
+                        return true;
+                    }
+                }
+            },
             _ => {},
         }
     }
-- 
2.43.0


From 449657e162db1e146c0a0b4163b3d3a0102d7f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 43/81] fix: arrays as functions take exactly one argument of
 type xs:integer

---
 src/xpath_impl/eval.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 5990d01..39bfa92 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1956,8 +1956,7 @@ fn match_sequence_typed_function_test(xseq: &XSequence, type_xnode: &XNodePtr) -
             if signature_xnode.len() != 2 {
                 return Ok(false);
             }
-            let xseq_int_1 = new_singleton_integer(1);
-            if ! match_sequence_type(&xseq_int_1, &signature_xnode[1])? {
+            if ! is_array_index_type(&signature_xnode[1]) {
                 return Ok(false);
             }
 
@@ -2146,6 +2145,18 @@ fn subtype_entry(xnode: &XNodePtr) -> usize {
     }
 }
 
+// ---------------------------------------------------------------------
+// 引数型が param_xnode である函数として配列を使えるか否か判定する。
+// 配列は、xs:integerを引数とする函数であり、引数型は反変であるから、
+// param_xnodeがxs:integerのサブタイプでなければならない。
+//
+fn is_array_index_type(param_xnode: &XNodePtr) -> bool {
+    let type_xnode = get_left(param_xnode);
+    return get_xnode_name(param_xnode) == "" &&
+           get_xnode_type(&type_xnode) == XNodeType::AtomicOrUnionType &&
+           derives_from(&get_xnode_name(&type_xnode), "xs:integer");
+}
+
 // ---------------------------------------------------------------------
 // 2.5.6.2 The judgement subtype-itemtype(Ai, Bi)
 //
@@ -2396,11 +2407,14 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
         let ret_xnode = get_right(&bi);           // ReturnType
         let bi_val = get_left(&ret_xnode);          // SequenceType
         let param_xnode = get_right(&ret_xnode);  // Param
-        let seq_xnode = get_left(&param_xnode);   // SequenceType
-        let bi_key = get_left(&seq_xnode);          // AtomicOrUnionType
-        if subtype_itemtype(&ai_key, &bi_key) &&
-           subtype(&ai_val, &bi_val) {
-            return true;
+        if ! is_nil_xnode(&param_xnode) &&
+           is_nil_xnode(&get_right(&param_xnode)) {     // 引数は1個
+            let seq_xnode = get_left(&param_xnode); // SequenceType
+            let bi_key = get_left(&seq_xnode);      // AtomicOrUnionType
+            if subtype_itemtype(&ai_key, &bi_key) &&
+               subtype(&ai_val, &bi_val) {
+                return true;
+            }
         }
     }
 
@@ -2453,9 +2467,9 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
         let ret_xnode = get_right(&bi);           // ReturnType
         let bi_elem = get_left(&ret_xnode);         // SequenceType
         let param_xnode = get_right(&ret_xnode);  // Param
-        let seq_xnode = get_left(&param_xnode);   // SequenceType
-        let bi_arg = get_left(&seq_xnode);          // AtomicOrUnitonType
-        if derives_from("xs:integer", &get_xnode_name(&bi_arg)) &&
+        if ! is_nil_xnode(&param_xnode) &&
+           is_nil_xnode(&get_right(&param_xnode)) &&    // 引数は1個
+           is_array_index_type(&get_left(&param_xnode)) &&
            subtype(&ai_elem, &bi_elem) {
             return true;
         }
-- 
2.43.0


From f20869bf102129ddfc1812bd7cb34f26e8fdd75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:14 +0000
Subject: [PATCH 44/81] fix: typed function tests on partial function calls

---
 src/xpath_impl/eval.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 39bfa92..d927189 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1872,6 +1872,7 @@ fn match_sequence_typed_function_test(xseq: &XSequence, type_xnode: &XNodePtr) -
         if let Ok(xnode) = xitem.get_as_raw_xnodeptr() {
 
             let sig_xnode: XNodePtr;
+            let mut placeholders: Vec<bool> = vec!{};
 
             match get_xnode_type(&xnode) {
 
@@ -1897,8 +1898,26 @@ fn match_sequence_typed_function_test(xseq: &XSequence, type_xnode: &XNodePtr) -
                     sig_xnode = xnode.clone();
                 },
 
+                // -----------------------------------------------------
+                // (部分函数呼び出し)
+                // 呼び出す函数のシグニチャーを調べる。
+                //
                 XNodeType::PartialFunctionCall => {
-                    sig_xnode = xnode.clone();
+                    let mut arity = 0;
+                    let mut curr = get_right(&xnode);
+                    while ! is_nil_xnode(&curr) {
+                        placeholders.push(
+                            get_xnode_type(&curr) == XNodeType::ArgumentPlaceholder);
+                        arity += 1;
+                        curr = get_right(&curr);
+                    }
+                    let func_name = format!("{}#{}", get_xnode_name(&xnode), arity);
+                    let signature = get_function_signature(func_name.as_str());
+                    if signature == "" {
+                        return Ok(false);
+                    }
+                    let mut lex = Lexer::new(&signature)?;
+                    sig_xnode = parse_function_test(&mut lex)?;
                 },
                 _ => {
                     return Ok(false);
@@ -1906,8 +1925,15 @@ fn match_sequence_typed_function_test(xseq: &XSequence, type_xnode: &XNodePtr) -
             }
 
             let mut i = 0;
+            let mut n = 0;
             let mut curr = get_right(&sig_xnode);
             while ! is_nil_xnode(&curr) {
+                n += 1;
+                if 2 <= n && n - 2 < placeholders.len() &&
+                   ! placeholders[n - 2] {      // 部分函数: 指定ずみの引数。
+                    curr = get_right(&curr);
+                    continue;
+                }
                 if signature_xnode.len() <= i {     // 引数が多い。
                     return Ok(false);
                 }
-- 
2.43.0


From e09c29ec8dc99220c1e58bb70af1d5699fa74835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 45/81] fix: signatures of concat, normalize-space,
 string-to-codepoints, one-or-more and exactly-one

---
 src/xpath_impl/func.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 272cc2c..fbf9cb5 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -29,7 +29,7 @@ fn usize_to_i64(n: usize) -> i64 {
 const FUNC_SIGNATURE_TBL: [(
         &str,               // NamedFunctionRef形式の函数名
         &str);              // シグニチャー
-        86] = [
+        85] = [
     ( "fn:nilled#0", "function() as xs:boolean?" ),
     ( "fn:nilled#1", "function(node()?) as xs:boolean?" ),
     ( "fn:string#0", "function() as xs:string" ),
@@ -43,20 +43,18 @@ const FUNC_SIGNATURE_TBL: [(
     ( "fn:number#0", "function() as xs:double" ),
     ( "fn:number#1", "function(xs:anyAtomicType?) as xs:double" ),
     ( "fn:codepoints-to-string#1", "function(xs:integer*) as xs:string" ),
-    ( "fn:string-to-codepoints#1", "function(xs:string*) as xs:integer*" ),
+    ( "fn:string-to-codepoints#1", "function(xs:string?) as xs:integer*" ),
     ( "fn:compare#2", "function(xs:string?, xs:string?) as xs:integer?" ),
     ( "fn:compare#3", "function(xs:string?, xs:string?, xs:string) as xs:integer?" ),
     ( "fn:codepoint-equal#2", "function(xs:string?, xs:string?) as xs:boolean?" ),
-    ( "fn:concat#2", "function(xs:anyAtomicType?, xs:anyAtomicType?) as xs:string" ),
-        // concatの引数は2個以上 (上限なし)
     ( "fn:string-join#1", "function(xs:string*) as xs:string" ),
     ( "fn:string-join#2", "function(xs:string*, xs:string) as xs:string" ),
     ( "fn:substring#2", "function(xs:string?, xs:double) as xs:string" ),
     ( "fn:substring#3", "function(xs:string?, xs:double, xs:double) as xs:string" ),
     ( "fn:string-length#0", "function() as xs:integer" ),
     ( "fn:string-length#1", "function(xs:string?) as xs:integer" ),
-    ( "fn:normalize-space#0", "function() as xs:integer" ),
-    ( "fn:normalize-space#1", "function(xs:string?) as xs:integer" ),
+    ( "fn:normalize-space#0", "function() as xs:string" ),
+    ( "fn:normalize-space#1", "function(xs:string?) as xs:string" ),
     ( "fn:upper-case#1", "function(xs:string?) as xs:string" ),
     ( "fn:lower-case#1", "function(xs:string?) as xs:string" ),
     ( "fn:translate#3", "function(xs:string?, xs:string, xs:string) as xs:string" ),
@@ -96,8 +94,8 @@ const FUNC_SIGNATURE_TBL: [(
     ( "fn:index-of#2", "function(xs:anyAtomicType*, xs:anyAtomicType) as xs:integer*" ),
     ( "fn:index-of#3", "function(xs:anyAtomicType*, xs:anyAtomicType, xs:string) as xs:integer*" ),
     ( "fn:zero-or-one#1", "function(item()*) as item()?" ),
-    ( "fn:one-or-more#1", "function(item()*) as item()?" ),
-    ( "fn:exactly-one#1", "function(item()*) as item()?" ),
+    ( "fn:one-or-more#1", "function(item()*) as item()+" ),
+    ( "fn:exactly-one#1", "function(item()*) as item()" ),
     ( "fn:count#1", "function(item()*) as xs:integer" ),
     ( "fn:avg#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?" ),
     ( "fn:max#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?" ),
@@ -122,6 +120,16 @@ const FUNC_SIGNATURE_TBL: [(
 // ---------------------------------------------------------------------
 //
 pub fn get_function_signature(func_name: &str) -> String {
+    // concatの引数は2個以上 (上限なし)
+    if func_name.starts_with("fn:concat#") {
+        let n = func_name["fn:concat#".len() ..].parse::<usize>().unwrap_or(0);
+        if n < 2 {
+            return String::new();
+        }
+        return format!("function({}) as xs:string",
+                        vec!["xs:anyAtomicType?"; n].join(", "));
+    }
+
     for (t_func_name, t_signature) in FUNC_SIGNATURE_TBL.iter() {
         if *t_func_name == func_name {
             return String::from(*t_signature);
-- 
2.43.0


From e58c6410c009945ea1bbdf5e413c1c92a69e6a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 46/81] fix: references to unknown functions or arities are
 syntax errors, as calls are

---
 src/xpath_impl/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index ed12970..c40e0eb 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -2196,6 +2196,16 @@ fn parse_named_function_ref(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let arity = tok.get_name();
     lex.get_token();
 
+    let is_known = match arity.parse::<usize>() {
+        Ok(n) => func::check_function_spec(&func_name, n),
+        Err(_) => false,
+    };
+    if ! is_known {
+        return Err(xpath_syntax_error!(
+            "{}: 函数が未実装、または引数の数 ({}) が不適切。",
+            func_name, arity));
+    }
+
     let xnode = new_xnode(XNodeType::NamedFunctionRef,
                     &(func_name + &"#" + &arity));
     return Ok(xnode);
-- 
2.43.0


From 0936f63e7f68ed018ef56a3c89e95da72361b744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:23 +0000
Subject: [PATCH 47/81] fix: an integer literal out of range is an error, not 0

---
 src/xpath_impl/eval.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index d927189..4c56b0c 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -646,7 +646,12 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             return Ok(new_singleton_string(&get_xnode_name(&xnode)));
         },
         XNodeType::IntegerLiteral => {
-            return Ok(new_singleton_integer(atoi(&get_xnode_name(&xnode))));
+            let literal = get_xnode_name(&xnode);
+            return match i64::from_str(&literal) {
+                Ok(n) => Ok(new_singleton_integer(n)),
+                Err(_) => Err(dynamic_error!(
+                            "{}: 整数として表せる範囲を超えている。", literal)),
+            };
         },
         XNodeType::DecimalLiteral => {
             return Ok(new_singleton_decimal(atof(&get_xnode_name(&xnode))));
-- 
2.43.0


From 2e5ce8762ea49472c0a5148b445529c0645d8a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 48/81] fix: atomizing a map or a function is an error

---
 src/xpath_impl/eval.rs      | 10 +++++-----
 src/xpath_impl/func.rs      | 28 ++++++++++++++--------------
 src/xpath_impl/oper.rs      | 12 ++++++------
 src/xpath_impl/xsequence.rs | 33 +++++++++++++++++++++------------
 4 files changed, 46 insertions(+), 37 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 4c56b0c..7190699 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -700,7 +700,7 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
         },
 
         XNodeType::UnaryLookupByExpr => {
-            let keys = evaluate_xnode(xseq, &get_left(xnode), eval_env)?.atomize();
+            let keys = evaluate_xnode(xseq, &get_left(xnode), eval_env)?.atomize()?;
             return lookup_by_keys(xseq, &keys);
         },
 
@@ -710,7 +710,7 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             //
             let lhs = evaluate_xnode(xseq, &get_left(xnode), eval_env)?;
             let key_xnode = get_left(&get_right(xnode));
-            let keys = evaluate_xnode(xseq, &key_xnode, eval_env)?.atomize();
+            let keys = evaluate_xnode(xseq, &key_xnode, eval_env)?.atomize()?;
             let mut result = new_xsequence();
             for item in lhs.iter() {
                 result.append(&lookup_by_keys(&new_singleton(&item), &keys)?);
@@ -1674,7 +1674,7 @@ pub fn call_function(func_xseq: &XSequence,
             if argument_xseq.len() != 1 {
                 return Err(type_error!("マップ: 引数は1個でなければならない。"));
             }
-            let key = argument_xseq[0].atomize().get_singleton_item()?;
+            let key = argument_xseq[0].atomize()?.get_singleton_item()?;
             return Ok(map_item.map_get(&key).unwrap_or(new_xsequence()));
         },
 
@@ -1682,7 +1682,7 @@ pub fn call_function(func_xseq: &XSequence,
             if argument_xseq.len() != 1 {
                 return Err(type_error!("配列: 引数は1個でなければならない。"));
             }
-            let index_item = argument_xseq[0].atomize().get_singleton_item()?;
+            let index_item = argument_xseq[0].atomize()?.get_singleton_item()?;
             if let Some(v) = array_item.array_get(&index_item) {
                 return Ok(v);
             } else {
@@ -2580,7 +2580,7 @@ fn convert_xnode_to_map_array(xnode: &XNodePtr,
                 }
 
                 let map_key_xnode = get_left(&map_entry_xnode);
-                let key = evaluate_xnode(context_xseq, &map_key_xnode, eval_env)?.atomize().get_singleton_item()?;
+                let key = evaluate_xnode(context_xseq, &map_key_xnode, eval_env)?.atomize()?.get_singleton_item()?;
                 if vec_item.iter().any(|(k, _)| k.op_same_key(&key)) {
                     return Err(dynamic_error!("map: duplicate key: {}", key));
                 }
diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index fbf9cb5..00b2659 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -421,7 +421,7 @@ fn fn_data_0(_args: &Vec<&XSequence>, context_xseq: &XSequence,
 }
 
 fn fn_data(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    return Ok(args[0].atomize());
+    return args[0].atomize();
 }
 
 // ---------------------------------------------------------------------
@@ -534,7 +534,7 @@ fn fn_numeric_unary<FINT, FDEC, FDBL>(args: &Vec<&XSequence>,
         where FINT: FnMut(i64) -> Option<i64>,
               FDEC: FnMut(f64) -> f64,
               FDBL: FnMut(f64) -> f64 {
-    let arg = args[0].atomize();
+    let arg = args[0].atomize()?;
     if arg.is_empty() {
         return Ok(new_xsequence());
     }
@@ -569,7 +569,7 @@ fn fn_number(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     if args[0].is_empty() {
         return Ok(new_singleton_double(f64::NAN));
     }
-    let arg = args[0].atomize();
+    let arg = args[0].atomize()?;
     if arg.is_empty() {
         return Ok(new_singleton_double(f64::NAN));
     }
@@ -591,7 +591,7 @@ fn fn_number(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_codepoints_to_string(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let mut result = String::new();
-    for item in args[0].atomize().iter() {
+    for item in args[0].atomize()?.iter() {
         let uni = item.get_as_raw_integer()?;
         let ch = if 0 <= uni && uni <= 0x10FFFF {
                 char::from_u32(uni as u32)
@@ -744,7 +744,7 @@ fn codepoint_equal_sub(str1: &String, str2: &String) -> bool {
 pub fn fn_concat(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let mut val = String::new();
     for arg in args.iter() {
-        let arg = arg.atomize();
+        let arg = arg.atomize()?;
         if ! arg.is_empty() {
             val += &arg.get_singleton_item()?.get_as_raw_string()?;
         }
@@ -765,7 +765,7 @@ fn fn_string_join(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
         };
 
     let mut result = String::new();
-    for (i, s) in args[0].atomize().iter().enumerate() {
+    for (i, s) in args[0].atomize()?.iter().enumerate() {
         if i != 0 {
             result += &separator;
         }
@@ -1382,8 +1382,8 @@ fn fn_subsequence(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //             $collation as xs:string) as xs:integer*
 //
 fn fn_index_of(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    let seq_param = args[0].atomize();
-    let srch_param = new_singleton(&args[1].atomize().get_singleton_item()?);
+    let seq_param = args[0].atomize()?;
+    let srch_param = new_singleton(&args[1].atomize()?.get_singleton_item()?);
     let mut result = new_xsequence();
     for (i, v) in seq_param.iter().enumerate() {
         // 比較できない値は、等しくないものとして扱う。
@@ -1459,7 +1459,7 @@ fn fn_avg(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
         return Ok(new_xsequence());
     }
 
-    let arg = args[0].atomize();
+    let arg = args[0].atomize()?;
     if arg.is_empty() {
         return Ok(new_xsequence());
     }
@@ -1477,7 +1477,7 @@ fn fn_avg(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 // NaNがあれば、最大値も最小値もNaNである。
 //
 fn comparable_items(arg: &XSequence) -> Result<XSequence, Box<Error>> {
-    let arg = arg.atomize();
+    let arg = arg.atomize()?;
     let has_double = arg.iter().any(|item| {
         match item {
             XItem::XIDouble{value: _} => true,
@@ -1552,7 +1552,7 @@ fn fn_min(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 // $argが空シーケンスのとき: $zeroがあれば$zero、なければ整数0を返す。
 //
 fn fn_sum(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    let arg = args[0].atomize();
+    let arg = args[0].atomize()?;
     if arg.is_empty() {
         if args.len() <= 1 {
             return Ok(new_singleton_integer(0));
@@ -1689,7 +1689,7 @@ fn map_keys(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn map_contains(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let xseq_map = args[0].get_singleton_map()?;
-    let key = args[1].atomize().get_singleton_item()?;
+    let key = args[1].atomize()?.get_singleton_item()?;
     let result = xseq_map.map_contains(&key);
     return Ok(new_singleton_boolean(result));
 }
@@ -1700,7 +1700,7 @@ fn map_contains(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn map_get(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let xseq_map = args[0].get_singleton_map()?;
-    let key = args[1].atomize().get_singleton_item()?;
+    let key = args[1].atomize()?.get_singleton_item()?;
     match xseq_map.map_get(&key) {
         Some(v) => return Ok(v),
         None => return Ok(new_xsequence()),
@@ -1727,7 +1727,7 @@ fn array_size(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn array_get(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let xseq_array = args[0].get_singleton_array()?;
-    let index = args[1].atomize().get_singleton_item()?;
+    let index = args[1].atomize()?.get_singleton_item()?;
     match xseq_array.array_get(&index) {
         Some(v) => return Ok(v),
         None => return Err(dynamic_error!(
diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index b83d9e7..a8612a5 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -51,7 +51,7 @@ pub fn op_numeric_mod(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
 }
 
 pub fn op_numeric_unary_plus(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
-    let arg = args[0].atomize();
+    let arg = args[0].atomize()?;
     if arg.is_empty() {
         return Ok(new_xsequence());
     }
@@ -61,7 +61,7 @@ pub fn op_numeric_unary_plus(args: &Vec<XSequence>) -> Result<XSequence, Box<Err
 }
 
 pub fn op_numeric_unary_minus(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
-    let arg = args[0].atomize();
+    let arg = args[0].atomize()?;
     if arg.is_empty() {
         return Ok(new_xsequence());
     }
@@ -75,8 +75,8 @@ pub fn op_numeric_unary_minus(args: &Vec<XSequence>) -> Result<XSequence, Box<Er
 fn op_numeric_operation<F>(args: &Vec<XSequence>, mut func_op: F) -> Result<XSequence, Box<Error>>
     where F: FnMut(&XItem, &XItem) -> Result<XItem, Box<Error>> {
 
-    let lhs = args[0].atomize();
-    let rhs = args[1].atomize();
+    let lhs = args[0].atomize()?;
+    let rhs = args[1].atomize()?;
     if lhs.is_empty() || rhs.is_empty() {
         return Ok(new_xsequence());
     }
@@ -279,8 +279,8 @@ pub fn op_to(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
     if args[0].is_empty() || args[1].is_empty() {
         return Ok(new_xsequence());
     }
-    let firstval = args[0].atomize().get_singleton_integer()?;
-    let lastval = args[1].atomize().get_singleton_integer()?;
+    let firstval = args[0].atomize()?.get_singleton_integer()?;
+    let lastval = args[1].atomize()?.get_singleton_integer()?;
     let mut seq = new_xsequence();
     for n in firstval ..= lastval {
         seq.push(&new_xitem_integer(n));
diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index 0e73ec5..9067c86 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -156,7 +156,7 @@ impl XSequence {
     // (原子化して) シングルトンかつ文字列であれば、その文字列を返す。
     //
     pub fn get_singleton_string(&self) -> Result<String, Box<Error>> {
-        let item = self.atomize().get_singleton_item()?;
+        let item = self.atomize()?.get_singleton_item()?;
         match item {
             XItem::XIString{value} => return Ok(value),
             _ => {},
@@ -169,7 +169,7 @@ impl XSequence {
     // (原子化して) シングルトンかつ整数であれば、その整数を返す。
     //
     pub fn get_singleton_integer(&self) -> Result<i64, Box<Error>> {
-        let item = self.atomize().get_singleton_item()?;
+        let item = self.atomize()?.get_singleton_item()?;
         match item {
             XItem::XIInteger{value} => return Ok(value),
             _ => {},
@@ -226,17 +226,21 @@ impl XSequence {
 
     // -----------------------------------------------------------------
     // 原子化
+    // 配列は、その要素を原子化して連結する。
+    // マップと (配列以外の) 函数は、原子化できない。
     //
-    pub fn atomize(&self) -> XSequence {
+    pub fn atomize(&self) -> Result<XSequence, Box<Error>> {
         let mut seq = new_xsequence();
         for v in self.value.iter() {
             match v {
-                // 配列は、その要素を原子化して連結する。
-                XItem::XIArray{value} => seq.append(&value.array_flatten().atomize()),
+                XItem::XIArray{value} => seq.append(&value.array_flatten().atomize()?),
+                XItem::XIMap{value: _} | XItem::XItemXNodePtr{value: _, closure: _} => {
+                    return Err(type_error!("{}: can't atomize", v));
+                },
                 _ => seq.push(&v.atomize()),
             }
         }
-        return seq;
+        return Ok(seq);
     }
 
     // -----------------------------------------------------------------
@@ -310,7 +314,10 @@ impl XSequence {
     //     キャスト指定の末尾が "?" であれば、空シーケンスもキャスト可能。
     //
     pub fn castable_as(&self, type_name: &str) -> bool {
-        let xseq = self.atomize();
+        let xseq = match self.atomize() {
+            Ok(v) => v,
+            Err(_) => return false,
+        };
         if xseq.is_empty() {
             return type_name.ends_with("?");
         }
@@ -331,7 +338,7 @@ impl XSequence {
     //      キャスト指定の末尾が "?" でなければエラー。
     //
     pub fn cast_as(&self, type_name: &str) -> Result<XSequence, Box<Error>> {
-        let xseq = self.atomize();
+        let xseq = self.atomize()?;
         if xseq.is_empty() {
             if type_name.ends_with("?") {
                 return Ok(new_xsequence());
@@ -421,8 +428,8 @@ fn value_comparison<FNUM, FSTR, FBOOL>(lhs: &XSequence, rhs: &XSequence,
           FSTR: FnMut(i64) -> bool,
           FBOOL: FnMut(&Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 
-    let lhs = lhs.atomize();
-    let rhs = rhs.atomize();
+    let lhs = lhs.atomize()?;
+    let rhs = rhs.atomize()?;
     if lhs.is_empty() || rhs.is_empty() {
         return Ok(new_xsequence());
     }
@@ -507,8 +514,10 @@ fn general_comparison<FNUM, FSTR, FBOOL>(lhs: &XSequence, rhs: &XSequence,
           FSTR: FnMut(i64) -> bool,
           FBOOL: FnMut(&XItem, &XItem) -> Result<bool, Box<Error>> {
 
-    for xitem_lhs in lhs.atomize().iter() {
-        for xitem_rhs in rhs.atomize().iter() {
+    let lhs = lhs.atomize()?;
+    let rhs = rhs.atomize()?;
+    for xitem_lhs in lhs.iter() {
+        for xitem_rhs in rhs.iter() {
             if let Ok(b) = num_op(&xitem_lhs, &xitem_rhs) {
                 if b == true {
                     return Ok(new_singleton_boolean(true));
-- 
2.43.0


From 42da1500f338d764944b392b2a0f3c4fba82dc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:05 +0000
Subject: [PATCH 49/81] fix: inline functions convert arguments and results to
 their declared types

---
 src/xpath_impl/eval.rs | 70 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 65 insertions(+), 5 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 7190699..1a5aa65 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1544,12 +1544,12 @@ fn call_inline_func(inline_func_xnode: &XNodePtr,
     //
     let old_var_vec = mem::replace(&mut eval_env.var_vec, closure.var_vec.clone());
     for (i, val) in argument_xseq.iter().enumerate() {
-        if match_sequence_type(&val, &sequence_types[i])? == false {
-            return Err(type_error!(
+        match convert_to_sequence_type(&val, &sequence_types[i])? {
+            Some(v) => eval_env.set_var(&param_names[i], &v),
+            None => return Err(type_error!(
                     "インライン函数: 引数の型が合致していない: {}。",
-                    val.to_string()));
+                    val.to_string())),
         }
-        eval_env.set_var(&param_names[i], &val);
     }
 
     // -----------------------------------------------------------------
@@ -1562,7 +1562,67 @@ fn call_inline_func(inline_func_xnode: &XNodePtr,
     //
     eval_env.var_vec = old_var_vec;
 
-    return Ok(value);
+    match convert_to_sequence_type(&value, &get_left(&return_type))? {
+        Some(v) => return Ok(v),
+        None => return Err(type_error!(
+                    "インライン函数: 戻り値の型が合致していない: {}。",
+                    value.to_string())),
+    }
+}
+
+// ---------------------------------------------------------------------
+// 函数変換規則 (3.1.5.2) により、xseqをシーケンス型に変換する。
+// 合致せず、変換もできないときはNoneを返す。
+//
+// 原子型が期待されているとき:
+// - 原子化を施す。
+// - ノードの値 (型註釈なし) は、期待されている型にキャストする。
+// - 整数および小数は、xs:doubleに昇格できる。
+//
+fn convert_to_sequence_type(xseq: &XSequence,
+                xnode: &XNodePtr) -> Result<Option<XSequence>, Box<Error>> {
+    if match_sequence_type(xseq, xnode)? {
+        return Ok(Some(xseq.clone()));
+    }
+
+    let type_xnode = get_left(xnode);
+    if get_xnode_type(&type_xnode) != XNodeType::AtomicOrUnionType {
+        return Ok(None);
+    }
+    let type_name = get_xnode_name(&type_xnode);
+    let untyped_as = if type_name == "xs:numeric" { "xs:double" } else { type_name.as_str() };
+
+    let mut flattened = new_xsequence();
+    for xitem in xseq.iter() {
+        match xitem {
+            XItem::XIArray{value} => flattened.append(&value.array_flatten()),
+            _ => flattened.push(xitem),
+        }
+    }
+
+    let mut result = new_xsequence();
+    for xitem in flattened.iter() {
+        match xitem {
+            XItem::XINode{value: _} => {
+                let v = xitem.atomize();
+                if derives_from("xs:string", &type_name) {
+                    result.push(&v);
+                } else {
+                    result.push(&v.cast_as(untyped_as)?);
+                }
+            },
+            XItem::XIInteger{value: _} | XItem::XIDecimal{value: _}
+                    if type_name == "xs:double" => {
+                result.push(&xitem.cast_as("xs:double")?);
+            },
+            _ => result.push(xitem),
+        }
+    }
+
+    if match_sequence_type(&result, xnode)? {
+        return Ok(Some(result));
+    }
+    return Ok(None);
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From 5eb7e6477d1ea8b4e904d8b7025f714114775660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 50/81] fix: positions of substring and subsequence given as
 arrays are atomized

---
 src/xpath_impl/func.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 00b2659..c3819a1 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -798,11 +798,11 @@ fn fn_substring(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let source_string = args[0].get_singleton_string()?;
     let sv: Vec<char> = source_string.chars().collect();
 
-    let starting_loc = args[1].get_singleton_item()?.get_as_raw_double()?;
+    let starting_loc = args[1].atomize()?.get_singleton_item()?.get_as_raw_double()?;
     let length = if args.len() == 2 {
             None
         } else {
-            Some(args[2].get_singleton_item()?.get_as_raw_double()?)
+            Some(args[2].atomize()?.get_singleton_item()?.get_as_raw_double()?)
         };
     let (b, e) = subcollection_index_sub(sv.len(), starting_loc, length);
 
@@ -1354,11 +1354,11 @@ fn fn_subsequence(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 
     let source_sequence = args[0];
 
-    let starting_loc = args[1].get_singleton_item()?.get_as_raw_double()?;
+    let starting_loc = args[1].atomize()?.get_singleton_item()?.get_as_raw_double()?;
     let length = if args.len() == 2 {
             None
         } else {
-            Some(args[2].get_singleton_item()?.get_as_raw_double()?)
+            Some(args[2].atomize()?.get_singleton_item()?.get_as_raw_double()?)
         };
     let (b, e) = subcollection_index_sub(
                     source_sequence.len(), starting_loc, length);
-- 
2.43.0


From 6d5d2a7e2f70a4b6a32aa6c1668967f9aaee45e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:44 +0000
Subject: [PATCH 51/81] fix: decimals, doubles and booleans are no array
 positions

---
 src/xpath_impl/xitem.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 1ed845c..adccf73 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -264,8 +264,15 @@ impl XSeqArray {
         return self.v.len();
     }
 
+    // indexは原子化されているものとする。
+    // 文字列は、ノードを原子化したものかも知れないので、整数にキャストする。
+    //
     pub fn array_get(&self, index: &XItem) -> Option<XSequence> {
-        let i = index.get_as_raw_integer();
+        let i = match index {
+            XItem::XIInteger{value: _} |
+            XItem::XIString{value: _} => index.get_as_raw_integer(),
+            _ => return None,
+        };
         match i {
             Ok(i) => {
                 if 1 <= i && i <= self.v.len() as i64 {
-- 
2.43.0


From 0bf5ea25e036155cea02459866112f2572708cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:26 +0000
Subject: [PATCH 52/81] fix: the second argument of sum is atomized and must be
 at most one item

---
 src/xpath_impl/func.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index c3819a1..3654b09 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1557,7 +1557,11 @@ fn fn_sum(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
         if args.len() <= 1 {
             return Ok(new_singleton_integer(0));
         } else {
-            return Ok(args[1].clone());
+            let zero = args[1].atomize()?;
+            if 1 < zero.len() {
+                return Err(type_error!("fn:sum: 空のシーケンスに対する値が単一でない。"));
+            }
+            return Ok(zero);
         }
     }
 
-- 
2.43.0


From 65dc72ef24cc742eb4304d97ba65fd61d609e87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:27 +0000
Subject: [PATCH 53/81] fix: an empty array is an empty argument for the string
 functions

---
 src/xpath_impl/func.rs | 47 ++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 3654b09..1424268 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -340,6 +340,13 @@ pub fn evaluate_function(func_name: &str, args: &Vec<XSequence>,
                     func_name));
 }
 
+// ---------------------------------------------------------------------
+// 引数を原子化した結果が空シーケンスか否かを返す (空の配列に対してもtrue)。
+//
+fn is_empty_arg(arg: &XSequence) -> Result<bool, Box<Error>> {
+    return Ok(arg.is_empty() || arg.atomize()?.is_empty());
+}
+
 // ---------------------------------------------------------------------
 // 2 Accessors
 //      node-name
@@ -617,7 +624,7 @@ fn is_xml_char(ch: char) -> bool {
 // fn:string-to-codepoints($arg as xs:string?) as xs:integer*
 //
 fn fn_string_to_codepoints(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    if args[0].is_empty() {
+    if is_empty_arg(args[0])? {
         return Ok(new_xsequence());
     }
 
@@ -668,7 +675,7 @@ pub fn fn_compare(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
         panic!("fn_compare: args.len() != 2.");
             // 実際には第3引数 collation も指定できる。
     }
-    if args[0].is_empty() || args[1].is_empty() {
+    if is_empty_arg(args[0])? || is_empty_arg(args[1])? {
         return Ok(new_xsequence());
     }
 
@@ -690,7 +697,7 @@ pub fn fn_compare(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 // いずれかの引数が空シーケンスの場合、空シーケンスを返す。
 //
 fn fn_codepoint_equal(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    if args[0].is_empty() || args[1].is_empty() {
+    if is_empty_arg(args[0])? || is_empty_arg(args[1])? {
         return Ok(new_xsequence());
     }
 
@@ -791,7 +798,7 @@ fn fn_string_join(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_substring(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 
-    if args[0].len() == 0 {
+    if is_empty_arg(args[0])? {
         return Ok(new_singleton_string(&""));
     }
 
@@ -825,7 +832,7 @@ fn fn_string_length_0(_args: &Vec<&XSequence>, context_xseq: &XSequence,
 }
 
 fn fn_string_length(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    if args[0].is_empty() {
+    if is_empty_arg(args[0])? {
         return Ok(new_singleton_integer(0));
     }
 
@@ -847,7 +854,7 @@ fn fn_normalize_space_0(_args: &Vec<&XSequence>, context_xseq: &XSequence,
 }
 
 fn fn_normalize_space(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    if args[0].is_empty() {
+    if is_empty_arg(args[0])? {
         return Ok(new_singleton_string(&""));
     }
 
@@ -865,7 +872,7 @@ fn fn_normalize_space(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 // fn:upper-case($arg as xs:string?) as xs:string
 //
 fn fn_upper_case(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    if args[0].is_empty() {
+    if is_empty_arg(args[0])? {
         return Ok(new_singleton_string(&""));
     }
 
@@ -878,7 +885,7 @@ fn fn_upper_case(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 // fn:upper-case($arg as xs:string?) as xs:string
 //
 fn fn_lower_case(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    if args[0].is_empty() {
+    if is_empty_arg(args[0])? {
         return Ok(new_singleton_string(&""));
     }
 
@@ -894,7 +901,7 @@ fn fn_lower_case(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_translate(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 
-    if args[0].is_empty() {
+    if is_empty_arg(args[0])? {
         return Ok(new_singleton_string(&""));
     }
 
@@ -938,12 +945,12 @@ fn fn_translate(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_contains(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let mut arg1 = String::new();
-    if ! args[0].is_empty() {
+    if ! is_empty_arg(args[0])? {
         arg1 = args[0].get_singleton_string()?;
     }
 
     let mut arg2 = String::new();
-    if ! args[1].is_empty() {
+    if ! is_empty_arg(args[1])? {
         arg2 = args[1].get_singleton_string()?;
     }
 
@@ -960,12 +967,12 @@ fn fn_contains(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_starts_with(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let mut arg1 = String::new();
-    if ! args[0].is_empty() {
+    if ! is_empty_arg(args[0])? {
         arg1 = args[0].get_singleton_string()?;
     }
 
     let mut arg2 = String::new();
-    if ! args[1].is_empty() {
+    if ! is_empty_arg(args[1])? {
         arg2 = args[1].get_singleton_string()?;
     }
 
@@ -982,12 +989,12 @@ fn fn_starts_with(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_ends_with(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let mut arg1 = String::new();
-    if ! args[0].is_empty() {
+    if ! is_empty_arg(args[0])? {
         arg1 = args[0].get_singleton_string()?;
     }
 
     let mut arg2 = String::new();
-    if ! args[1].is_empty() {
+    if ! is_empty_arg(args[1])? {
         arg2 = args[1].get_singleton_string()?;
     }
 
@@ -1004,12 +1011,12 @@ fn fn_ends_with(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_substring_before(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let mut arg1 = String::new();
-    if ! args[0].is_empty() {
+    if ! is_empty_arg(args[0])? {
         arg1 = args[0].get_singleton_string()?;
     }
 
     let mut arg2 = String::new();
-    if ! args[1].is_empty() {
+    if ! is_empty_arg(args[1])? {
         arg2 = args[1].get_singleton_string()?;
     }
 
@@ -1030,12 +1037,12 @@ fn fn_substring_before(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>>
 //
 fn fn_substring_after(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let mut arg1 = String::new();
-    if ! args[0].is_empty() {
+    if ! is_empty_arg(args[0])? {
         arg1 = args[0].get_singleton_string()?;
     }
 
     let mut arg2 = String::new();
-    if ! args[1].is_empty() {
+    if ! is_empty_arg(args[1])? {
         arg2 = args[1].get_singleton_string()?;
     }
 
@@ -1190,7 +1197,7 @@ fn fn_lang_1(args: &Vec<&XSequence>, context_xseq: &XSequence,
 
 fn fn_lang(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let mut testlang = String::new();
-    if ! args[0].is_empty() {
+    if ! is_empty_arg(args[0])? {
         testlang = args[0].get_singleton_string()?.to_lowercase();
     }
     let node = args[1].get_singleton_node()?;
-- 
2.43.0


From 401222b4cf508bdd9c10a82e45670a4df02e8394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:11 +0000
Subject: [PATCH 54/81] fix: a '?' argument of a dynamic function call panicked

---
 src/xpath_impl/eval.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 1a5aa65..f2a065b 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1458,6 +1458,9 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
     let mut argument_xseq: Vec<XSequence> = vec!{};
     let mut curr_arg_top = arg_xnode.clone();
     while ! is_nil_xnode(&curr_arg_top) {
+        if get_xnode_type(&curr_arg_top) == XNodeType::ArgumentPlaceholder {
+            return Err(dynamic_error!("動的函数呼び出しの引数「?」には対応していない。"));
+        }
         let arg_expr = get_left(&curr_arg_top);
         let val = evaluate_xnode(xseq, &arg_expr, eval_env)?;
         argument_xseq.push(val);
-- 
2.43.0


From 18ada10d8b6061fdf9f3a94ba670c7cf6cb1064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:23 +0000
Subject: [PATCH 55/81] fix: a decimal literal could have two exponents

---
 src/xpath_impl/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 94893ab..37831e0 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -648,8 +648,8 @@ impl Lexer {
                 numeric_literal.push_str(&self.fetch_numeric_after_period()?);
             } else {
                 self.unread_rune();
+                numeric_literal.push_str(&self.fetch_numeric_after_e()?);
             }
-            numeric_literal.push_str(&self.fetch_numeric_after_e()?);
             return Ok(numeric_literal);
         } else if ch1 == '.' {
             self.unread_rune();
-- 
2.43.0


From 19741ed110e0a8cf0dd3e646eedf740aac0e7e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:17 +0000
Subject: [PATCH 56/81] fix: an axis without a node test was accepted in
 parentheses

---
 src/xpath_impl/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index c40e0eb..0faeefc 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -369,11 +369,15 @@ fn parse_axis_step(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
                     "{}: namespace 軸は未実装。",
                     lex.around_tokens().as_str()));
             }
-            return parse_node_test(lex, axis);
+            let xnode = parse_node_test(lex, axis)?;
+            error_if_nil!(lex, xnode, "{}: 軸名の次にノードテストが必要。");
+            return Ok(xnode);
         },
         TType::At => {  // 「@」は「attribute::」の省略形
             lex.get_token();
-            return parse_node_test(lex, &XNodeType::AxisAttribute);
+            let xnode = parse_node_test(lex, &XNodeType::AxisAttribute)?;
+            error_if_nil!(lex, xnode, "{}: @ の次にノードテストが必要。");
+            return Ok(xnode);
         },
         TType::DotDot => {// 「..」は「parent::node()」の省略形
             lex.get_token();
-- 
2.43.0


From 8e0d48a891f999ed5d897a55ffa8d4174fae7259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:19 +0000
Subject: [PATCH 57/81] fix: an inline function could have two parameters of
 the same name

---
 src/xpath_impl/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 0faeefc..051b0ae 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -2275,6 +2275,14 @@ fn parse_param_list(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         lex.get_token();
         let param_xnode = parse_param(lex)?;
         error_if_nil!(lex, param_xnode, "{}: 引数名が必要。");
+        let mut prev = top_param_xnode.clone();
+        while ! is_nil_xnode(&prev) {
+            if get_xnode_name(&prev) == get_xnode_name(&param_xnode) {
+                return Err(xpath_syntax_error!(
+                    "{}: 引数名が重複。", lex.around_tokens().as_str()));
+            }
+            prev = get_right(&prev);
+        }
         assign_as_right(&curr, &param_xnode);
         curr = param_xnode.clone();
     }
-- 
2.43.0


From d7f359b51b20675a4ba2b847ff5ebb8189d44cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:21 +0000
Subject: [PATCH 58/81] fix: a NUL character ended an expression, and what
 followed was ignored

---
 src/xpath_impl/lexer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 37831e0..b4d689f 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -266,6 +266,11 @@ impl Lexer {
     // -----------------------------------------------------------------
     //
     pub fn new(xpath_string: &String) -> Result<Lexer, Box<Error>> {
+        // EOFを表す文字は、XMLの文字ではないので、式には現れない。
+        if xpath_string.contains(EOF) {
+            return Err(xpath_syntax_error!("XMLの文字でない文字がある。"));
+        }
+
         let mut lexer = Lexer {
             char_vec: xpath_string.chars().collect(),
             ch_index: 0,
-- 
2.43.0


From f12066071b90c45e3e22e2998583be60dbf62310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:08 +0000
Subject: [PATCH 59/81] fix: a NUL character ended a document, and what
 followed was ignored

---
 src/sax.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sax.rs b/src/sax.rs
index 4e074a4..f3b3d00 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -150,6 +150,10 @@ impl SaxDecoder {
     /// Creates a new XML parser reading from String.
     ///
     pub fn new(xml_string: &str) -> Result<SaxDecoder, Box<Error>> {
+        // EOFを表す文字は、XMLの文字ではないので、文書には現れない。
+        if xml_string.contains(EOF) {
+            return Err(xml_syntax_error!("illegal character U+0000"));
+        }
         return Ok(SaxDecoder{
             char_vec: xml_string.replace("\r\n", "\n").replace("\r", "\n").chars().collect(),
                 // XML 1.0: 行末の処理
-- 
2.43.0


From f49735404c96f5ef65f06ba1ffbf32e947f2d17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:10 +0000
Subject: [PATCH 60/81] fix: anything was accepted after the name in an end tag

---
 src/sax.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sax.rs b/src/sax.rs
index f3b3d00..6d878dc 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -190,7 +190,9 @@ impl SaxDecoder {
             //
             } else if ch == '/' {              // End Element: </foo>
                 let name = self.get_name();
-                self.get_until_ch('>')?;
+                if self.get_until_ch('>')?.contains(|ch| ! is_space(ch)) {
+                    return Err(xml_syntax_error!("illegal char in end tag"));
+                }
                 return Ok(XmlToken::EndElement{name});
 
             // ---------------------------------------------------------
-- 
2.43.0


From 8751c56280d51dbbf18ca679498cb7d84a96ae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:12 +0000
Subject: [PATCH 61/81] fix: a processing instruction could be without a target

---
 src/sax.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sax.rs b/src/sax.rs
index 6d878dc..39107c4 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -204,6 +204,9 @@ impl SaxDecoder {
             //
             } else if ch == '?' {   // Processing instruction
                 let target = self.get_name();
+                if target == "" {
+                    return Err(xml_syntax_error!("no target name after <?"));
+                }
                 self.skip_spaces();
                 let inst = self.get_until("?>")?;
                 return Ok(XmlToken::ProcInst{target, inst});
-- 
2.43.0


From 8e2115dc8862ae2d4a54751923225ffc59f25b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:14 +0000
Subject: [PATCH 62/81] fix: an element could have two attributes of the same
 name

---
 src/sax.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sax.rs b/src/sax.rs
index 39107c4..4b0cc8c 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -270,6 +270,9 @@ impl SaxDecoder {
                             ch = self.getchar();
                             if ch == '"' || ch == '\'' {
                                 let attr_value = self.get_until_ch(ch)?;
+                                if attr.iter().any(|a: &Attr| a.name == attr_name) {
+                                    return Err(xml_syntax_error!("duplicate attribute: {}", attr_name));
+                                }
                                 attr.push(Attr{
                                     name: attr_name,
                                     value: decode_entity(&attr_value),
-- 
2.43.0


From e6f93a5de7233ccf07cecfba6702d3333bc76bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:49 +0000
Subject: [PATCH 63/81] fix: a markup declaration could begin with any
 character

---
 src/sax.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sax.rs b/src/sax.rs
index 4b0cc8c..5777bed 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -232,6 +232,9 @@ impl SaxDecoder {
                     } else {
                         return Err(xml_syntax_error!("Invalid sequence '<![', not part of '<![CDATA[' "));
                     }
+                } else if ! is_name_first_char(ch) {
+                    self.ungetchar();
+                    return Err(xml_syntax_error!("Invalid sequence '<!'"));
                 } else {                            // <!DOCTYPE ...>, etc.
                     let directive = format!("<!{}{}",
                         ch, &self.get_until_matching_bracket()?);
-- 
2.43.0


From 0dc5735354e1eac45fb28306e16350583c591884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:31 +0000
Subject: [PATCH 64/81] fix: the colon of a map entry was taken for part of a
 name in the key

---
 src/xpath_impl/lexer.rs  | 33 +++++++++++++++++++++++++++++++++
 src/xpath_impl/parser.rs |  4 +++-
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index b4d689f..ba558d5 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -111,6 +111,7 @@ pub enum TType {
     Arrow,
     LeftCurly,
     RightCurly,
+    MapColon,               // マップのキーと値を分かつコロン
     ColonAsterisk,
     AsteriskColon,
     OperatorMap,
@@ -344,6 +345,7 @@ impl Lexer {
             ( ":=", TType::Bind ),
             ( ":*", TType::ColonAsterisk ),
             ( ":",  TType::Colon ),
+            ( ":",  TType::MapColon ),
             ( "=>", TType::Arrow ),
             ( "=",  TType::GeneralEQ ),
             ( "!=", TType::GeneralNE ),
@@ -375,6 +377,9 @@ impl Lexer {
         ];
 
         for (keyword, ttype) in keywords_spec.iter() {
+            if ! self.is_allowed_here(ttype) {
+                continue;
+            }
             if self.look_ahead_keyword(keyword) == true {
                 return Ok(new_token(ttype.clone(), keyword));
             }
@@ -476,6 +481,7 @@ impl Lexer {
             TType::NodeAfter,       // (註2)
             TType::Asterisk,
             TType::Colon,           // (註1)
+            TType::MapColon,
         ];
 
         let mut i = 1;
@@ -617,6 +623,33 @@ impl Lexer {
         return true;
     }
 
+    // -----------------------------------------------------------------
+    // QNameやWildcardのコロンの前後には、空白が入らない。
+    // それ以外のコロンは、マップのキーと値を分かつもの (MapColon) である。
+    //
+    fn is_allowed_here(&self, ttype: &TType) -> bool {
+        let rune_at = |index: usize| -> char {
+            *self.char_vec.get(index).unwrap_or(&EOF)
+        };
+        let is_after_name =
+            self.tokens[self.tokens.len() - 1].t_type == TType::InnerName &&
+            0 < self.ch_index && is_name_char(rune_at(self.ch_index - 1));
+        match ttype {
+            TType::Colon => {
+                return is_after_name && is_name_start_char(rune_at(self.ch_index + 1));
+            },
+            TType::ColonAsterisk => {
+                return is_after_name;
+            },
+            TType::AsteriskColon => {
+                return is_name_start_char(rune_at(self.ch_index + 2));
+            },
+            _ => {
+                return true;
+            },
+        }
+    }
+
     // -----------------------------------------------------------------
     // 数値リテラルを取得し、種類に応じたトークン種を返す。
     // [ 58] NumericLiteral ::= IntegerLiteral | DecimalLiteral | DoubleLiteral
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 051b0ae..78bee76 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -2417,7 +2417,9 @@ fn parse_map_constructor_entry(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>>
     let key_xnode = parse_expr_single(lex)?;
     return_if_nil!(key_xnode);
 
-    error_if_not_ttype!(lex, TType::Colon, "{}: MapConstructorのコロンが必要。");
+    if lex.next_token().get_type() != TType::Colon {
+        error_if_not_ttype!(lex, TType::MapColon, "{}: MapConstructorのコロンが必要。");
+    }
     lex.get_token();
 
     let value_xnode = parse_expr_single(lex)?;
-- 
2.43.0


From 793ac7f13bdff27ea93b448aa0dbcb4186e4f23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 65/81] fix: a lookup key could not be a word like div or node(

---
 src/xpath_impl/lexer.rs  | 1 +
 src/xpath_impl/parser.rs | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index ba558d5..25a01af 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -575,6 +575,7 @@ impl Lexer {
             if self.tokens[i].t_type == TType::InnerName {
                 for (name, next_t_type, new_t_type) in name_and_symbol_tbl.iter() {
                     if self.tokens[i-1].t_type != TType::Dollar &&  // 変数名
+                       self.tokens[i-1].t_type != TType::Question &&  // 検索のキー
                        self.tokens[i].name.as_str() == *name &&
                        self.tokens[i+1].t_type == *next_t_type {
                         self.tokens[i].t_type = new_t_type.clone();
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 78bee76..11053d6 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -2551,7 +2551,7 @@ fn parse_unary_lookup(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let tok = lex.next_token();
-    match tok.get_type() {
+    match lex.next_name_type() {
         TType::Name => {
             lex.get_token();
             let key = tok.get_name();
-- 
2.43.0


From 680fbf333ee3a548ce349cb38ea8070e1846f637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:05 +0000
Subject: [PATCH 66/81] fix: a node could get children that it cannot have

---
 src/dom.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index 4820594..391e7e2 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -647,6 +647,15 @@ impl NodePtr {
         let rc_self = self.unwrap_rc();
         let rc_new_child = new_child.unwrap_rc();
 
+        // 子を持てないノードや、子になれない属性に対しては、何もしない。
+        match self.node_type() {
+            NodeType::Element | NodeType::DocumentRoot => {},
+            _ => return,
+        }
+        if new_child.node_type() == NodeType::Attribute {
+            return;
+        }
+
         // 自分自身や祖先を子にすると木でなくなるので、何もしない。
         let mut curr = Some(Rc::clone(&rc_self));
         while let Some(rc_node) = curr {
@@ -688,6 +697,9 @@ impl NodePtr {
     /// ```
     ///
     pub fn insert_as_previous_sibling(&self, new_node: &NodePtr) {
+        if new_node.node_type() == NodeType::Attribute {
+            return;         // 属性は子ノードになれない。
+        }
         let parent = match self.parent() {
             Some(p) => p,
             None => return,
@@ -728,6 +740,9 @@ impl NodePtr {
     /// ```
     ///
     pub fn insert_as_next_sibling(&self, new_node: &NodePtr) {
+        if new_node.node_type() == NodeType::Attribute {
+            return;         // 属性は子ノードになれない。
+        }
         let parent = match self.parent() {
             Some(p) => p,
             None => return,
@@ -798,6 +813,9 @@ impl NodePtr {
     /// ```
     ///
     pub fn replace_with(&self, new_node: &NodePtr) {
+        if new_node.node_type() == NodeType::Attribute {
+            return;         // 属性は子ノードになれない。
+        }
         let parent = match self.parent() {
             Some(p) => p,
             None => return,
-- 
2.43.0


From 35816363c67db9e5a57f86d0db322684af1a3f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:07 +0000
Subject: [PATCH 67/81] fix: set_attribute gave attributes to nodes that are
 not elements

---
 src/dom.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index 391e7e2..8665381 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -884,6 +884,9 @@ impl NodePtr {
     /// ```
     ///
     pub fn set_attribute(&mut self, name: &str, value: &str) {
+        if self.node_type() != NodeType::Element {
+            return;         // 属性を持てるのは要素のみである。
+        }
 
         let mut rc_node = self.unwrap_rc();
         let attr_node = make_new_rc_node(NodeType::Attribute,
-- 
2.43.0


From 88923186b69f6e965dcd92c47197644cf4a459c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:09 +0000
Subject: [PATCH 68/81] fix: a deleted attribute was still the child of its
 element

---
 src/dom.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 8665381..c93890f 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -894,7 +894,8 @@ impl NodePtr {
 
         let r_index = self.find_attribute_index(name);
         if r_index != usize::MAX {
-            (*rc_node).attributes.borrow_mut().remove(r_index);
+            let rc_old = (*rc_node).attributes.borrow_mut().remove(r_index);
+            *rc_old.parent.borrow_mut() = None;
             (*rc_node).attributes.borrow_mut().insert(r_index, Rc::clone(&attr_node));
         } else {
             (*rc_node).attributes.borrow_mut().push(Rc::clone(&attr_node));
@@ -921,7 +922,8 @@ impl NodePtr {
         let r_index = self.find_attribute_index(name);
         if r_index != usize::MAX {
             let rc_node = self.unwrap_rc();
-            (*rc_node).attributes.borrow_mut().remove(r_index);
+            let rc_attr = (*rc_node).attributes.borrow_mut().remove(r_index);
+            *rc_attr.parent.borrow_mut() = None;
         }
         self.clear_document_order();
     }
-- 
2.43.0


From 7516bbc6cd11de7d95f4f379e96b5e7ef17abc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:45 +0000
Subject: [PATCH 69/81] fix: a deleted subtree could keep document order from
 before its last change

---
 src/dom.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index c93890f..810361b 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -942,9 +942,15 @@ impl NodePtr {
 
     // -----------------------------------------------------------------
     //
+    // 自身と先祖すべての文書順を無効にする: 後で木から切り離されると、
+    // そのどれもが根になりうるからである。
+    //
     fn clear_document_order(&self) {
-        let root = self.root();
-        root.unwrap_rc().order.set(0);
+        let mut curr = Some(self.unwrap_rc());
+        while let Some(rc_node) = curr {
+            rc_node.order.set(0);
+            curr = parent_rc_node(&rc_node);
+        }
     }
 
     // =================================================================
-- 
2.43.0


From 62588608d58b5323ad000ae85fca47271cfe15fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:30 +0000
Subject: [PATCH 70/81] fix: a path step that gives nodes and other values from
 one item is an error

---
 src/xpath_impl/eval.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index f2a065b..cd3d314 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -811,10 +811,12 @@ fn evaluate_path_step(lhs: &XSequence, xnode: &XNodePtr,
         //       評価値がすべてノードのみのシーケンスか否かを
         //       調べておく。
         //
-        if val_seq.is_no_atom() {
-            node_exists = true;
-        } else {
-            atom_exists = true;
+        for val in val_seq.iter() {
+            if val.as_nodeptr().is_some() {
+                node_exists = true;
+            } else {
+                atom_exists = true;
+            }
         }
         result_seq.append(&val_seq);
 
-- 
2.43.0


From c4b5711124fa41f3c31c19b913757fcee1491655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:08 +0000
Subject: [PATCH 71/81] fix: normalize-space only knows the white space of XML

---
 src/xpath_impl/func.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 1424268..0e7f0fe 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -859,7 +859,8 @@ fn fn_normalize_space(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     }
 
     let arg = args[0].get_singleton_string()?;
-    let v: Vec<&str> = arg.split_whitespace().collect();
+    // 空白とみなすのは XML の空白 (U+0020, U+0009, U+000A, U+000D) だけである。
+    let v: Vec<&str> = arg.split(|ch| " \t\n\r".contains(ch)).collect();
     let mut result = String::new();
     for t in v.iter() {
         result += t;
-- 
2.43.0


From 9d771bb0092fe362afb097d2ba75fcefc85c976e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:49 +0000
Subject: [PATCH 72/81] fix: dropping a deeply nested document does not use up
 the stack

---
 src/dom.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index 810361b..bbceb0e 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -124,6 +124,20 @@ struct Node {
     attributes: RefCell<Vec<RcNode>>,
 }
 
+// ---------------------------------------------------------------------
+// 子孫を再帰によらずに破棄する: 深い木でスタックを使い果たさないためである。
+//
+impl Drop for Node {
+    fn drop(&mut self) {
+        let mut nodes = self.children.replace(vec!{});
+        while let Some(rc_node) = nodes.pop() {
+            if let Ok(node) = Rc::try_unwrap(rc_node) {
+                nodes.append(&mut node.children.borrow_mut());
+            }
+        }
+    }
+}
+
 // ---------------------------------------------------------------------
 // RcNodeを生成する。親があるとは限らない。
 //
-- 
2.43.0


From 006c0fe569b00b05e7e2e8fdf429c3aac983ec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:11 +0000
Subject: [PATCH 73/81] fix: decimals overflow with an error instead of
 becoming infinite

---
 src/xpath_impl/eval.rs  |  4 +++-
 src/xpath_impl/xitem.rs | 23 ++++++++++++++++++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index cd3d314..dc61ca2 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -654,7 +654,9 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             };
         },
         XNodeType::DecimalLiteral => {
-            return Ok(new_singleton_decimal(atof(&get_xnode_name(&xnode))));
+            let value = atof(&get_xnode_name(&xnode));
+            check_decimal_range(value)?;
+            return Ok(new_singleton_decimal(value));
         },
         XNodeType::DoubleLiteral => {
             return Ok(new_singleton_double(atof(&get_xnode_name(&xnode))));
diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index adccf73..98a49b1 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -47,12 +47,22 @@ fn parse_decimal(s: &str) -> Result<f64, Box<Error>> {
     let s = trim_space(s);
     if s.chars().all(|ch| ch.is_ascii_digit() || "+-.".contains(ch)) {
         if let Ok(v) = f64::from_str(s) {
+            check_decimal_range(v)?;
             return Ok(v);
         }
     }
     return Err(type_error!("{}: Not a decimal", s));
 }
 
+// 10進数に無限大やNaNはない (桁あふれはエラーとする)。
+//
+pub fn check_decimal_range(f: f64) -> Result<(), Box<Error>> {
+    if ! f.is_finite() {
+        return Err(dynamic_error!("Numeric operation overflow/underflow."));
+    }
+    return Ok(());
+}
+
 fn parse_double(s: &str) -> Result<f64, Box<Error>> {
     let s = trim_space(s);
     match s {
@@ -1061,6 +1071,13 @@ pub fn xitem_numeric_unary_minus(arg: &XItem) -> Result<XItem, Box<Error>> {
                         // 負のゼロにならないことに註意。
 }
 
+// ---------------------------------------------------------------------
+//
+fn new_finite_decimal(value: f64) -> Result<XItem, Box<Error>> {
+    check_decimal_range(value)?;
+    return Ok(new_xitem_decimal(value));
+}
+
 // ---------------------------------------------------------------------
 //
 fn xitem_numeric_operation<FINT, FDEC, FDBL>(lhs: &XItem, rhs: &XItem,
@@ -1079,7 +1096,7 @@ fn xitem_numeric_operation<FINT, FDEC, FDBL>(lhs: &XItem, rhs: &XItem,
                     }
                 },
                 XItem::XIDecimal{value: rhs} => {
-                    return Ok(new_xitem_decimal(dec_op(int_to_dec(*lhs), *rhs)));
+                    return new_finite_decimal(dec_op(int_to_dec(*lhs), *rhs));
                 },
                 XItem::XIDouble{value: rhs} => {
                     return Ok(new_xitem_double(dbl_op(int_to_dbl(*lhs), *rhs)));
@@ -1090,10 +1107,10 @@ fn xitem_numeric_operation<FINT, FDEC, FDBL>(lhs: &XItem, rhs: &XItem,
         XItem::XIDecimal{value: lhs} => {
             match rhs {
                 XItem::XIInteger{value: rhs} => {
-                    return Ok(new_xitem_decimal(dec_op(*lhs, int_to_dec(*rhs))));
+                    return new_finite_decimal(dec_op(*lhs, int_to_dec(*rhs)));
                 },
                 XItem::XIDecimal{value: rhs} => {
-                    return Ok(new_xitem_decimal(dec_op(*lhs, *rhs)));
+                    return new_finite_decimal(dec_op(*lhs, *rhs));
                 },
                 XItem::XIDouble{value: rhs} => {
                     return Ok(new_xitem_double(dec_op(dec_to_dbl(*lhs), *rhs)));
-- 
2.43.0


From b020d96049df7b8a2b7a87b401995ade9e812f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:51 +0000
Subject: [PATCH 74/81] fix: the arrow operator checks its function and allows
 placeholders

A function called by => was looked up only when the call was evaluated, and
an unknown one, a wrong number of arguments or a placeholder was reported as
a fault of the library itself.
---
 src/xpath_impl/parser.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 11053d6..5a173a0 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -1675,13 +1675,11 @@ fn parse_arrow_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 
         let func_name = parse_static_func_name(lex)?;
         if func_name != "" {
-            let fcall_xnode = new_xnode(XNodeType::FunctionCall, &func_name);
             let arglist_xnode = parse_argument_list(lex)?;
             let arg_top_xnode = new_xnode(XNodeType::ArgumentTop, "");
             assign_as_left(&arg_top_xnode, &curr_xnode);
             assign_as_right(&arg_top_xnode, &arglist_xnode);
-            assign_as_right(&fcall_xnode, &arg_top_xnode);
-            curr_xnode = fcall_xnode.clone();
+            curr_xnode = new_function_call(&func_name, &arg_top_xnode)?;
             continue;
         }
 
@@ -2620,6 +2618,16 @@ fn parse_function_call(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 
     let arg_node = parse_argument_list(lex)?;       // 引数が0個ならばNil
 
+    return new_function_call(&func_name, &arg_node);
+}
+
+// ---------------------------------------------------------------------
+// 函数呼び出しのノードを作る。
+// 引数にプレースホルダーがあれば、部分函数呼び出しになる。
+//
+fn new_function_call(func_name: &str,
+                     arg_node: &XNodePtr) -> Result<XNodePtr, Box<Error>> {
+
     // -------------------------------------------------------------
     // 引数の数を調べる。
     //
@@ -2637,7 +2645,7 @@ fn parse_function_call(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     // -------------------------------------------------------------
     // この時点で函数表と照合して、函数の存在や引数の数を検査する。
     //
-    if func::check_function_spec(&func_name, arity) == false {
+    if func::check_function_spec(func_name, arity) == false {
         return Err(xpath_syntax_error!(
             "{}: 函数が未実装、または引数の数 ({}) が不適切。",
             func_name, arity));
@@ -2651,8 +2659,8 @@ fn parse_function_call(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             } else {
                 XNodeType::FunctionCall
             },
-            &func_name);
-    assign_as_right(&func_node, &arg_node);
+            func_name);
+    assign_as_right(&func_node, arg_node);
 
     return Ok(func_node);
 }
-- 
2.43.0


From fa6d3c5f916d3670e60c0c9a82cee01dcd8ca1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:38 +0000
Subject: [PATCH 75/81] fix: the program accepts file names that are not UTF-8

---
 src/main.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index b79c982..d490dc4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -5,6 +5,7 @@ extern crate amxml;
 
 use std::env;
 use std::error::Error;
+use std::ffi::OsString;
 use std::fs::File;
 use std::io::prelude::*;
 use std::process;
@@ -14,9 +15,9 @@ use amxml::dom::*;
 /// Sample application: reads the XML file and pretty print to stdout.
 ///
 fn main() {
-    let args: Vec<String> = env::args().collect();
+    let args: Vec<OsString> = env::args_os().collect();
     if args.len() < 2 {
-        eprintln!("Usage: {} filename", &args[0]);
+        eprintln!("Usage: {} filename", args[0].to_string_lossy());
         process::exit(1);
     }
     let filename = args[1].clone();
@@ -26,7 +27,7 @@ fn main() {
     }
 }
 
-fn pretty_print(filename: &str) -> Result<(), Box<Error>> {
+fn pretty_print(filename: &OsString) -> Result<(), Box<Error>> {
     let mut fp = File::open(&filename)?;
 
     let mut xml_string = String::new();
-- 
2.43.0


From bc88867865a0644bafcf408db99d293dc9d5156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:39 +0000
Subject: [PATCH 76/81] fix: the program reports an output that cannot be
 written

---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index d490dc4..f22fdb7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -7,6 +7,7 @@ use std::env;
 use std::error::Error;
 use std::ffi::OsString;
 use std::fs::File;
+use std::io;
 use std::io::prelude::*;
 use std::process;
 use amxml::dom::*;
@@ -35,7 +36,10 @@ fn pretty_print(filename: &OsString) -> Result<(), Box<Error>> {
 
     let doc = new_document(&xml_string)?;
 
-    println!("{}", doc.to_pretty_string());
+    // println!() はエラーを返さず、パニックを起こす。
+    let mut out = io::stdout();
+    writeln!(out, "{}", doc.to_pretty_string())?;
+    out.flush()?;
 
     return Ok(());
 }
-- 
2.43.0


From d19dfca6a65fdd8039eca816ad46a95b524f767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:45 +0000
Subject: [PATCH 77/81] fix: treat as is reported as not implemented

It was reported as a fault of the library itself.
---
 src/xpath_impl/eval.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index dc61ca2..203b9c8 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -602,6 +602,10 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             return Ok(new_singleton_boolean(b));
         },
 
+        XNodeType::OperatorTreatAs => {
+            return Err(uninplemented!("treat as は未実装。"));
+        },
+
         XNodeType::OperatorCastableAs => {
             let value = evaluate_xnode(xseq, &get_left(xnode), eval_env)?;
             let single_type_xnode = get_right(xnode);
-- 
2.43.0


From a58fa91ada1ae3f3cdc9a47663c3a9522a5812b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:44 +0000
Subject: [PATCH 78/81] fix: the operands of 'to' are atomized before they are
 tested for emptiness

---
 src/xpath_impl/oper.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index a8612a5..4054e50 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -276,11 +276,13 @@ pub fn op_except(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence,
 //   (XPath 3.1 では演算子の項に載っていない)
 //
 pub fn op_to(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
-    if args[0].is_empty() || args[1].is_empty() {
+    let lhs = args[0].atomize()?;
+    let rhs = args[1].atomize()?;
+    if lhs.is_empty() || rhs.is_empty() {
         return Ok(new_xsequence());
     }
-    let firstval = args[0].atomize()?.get_singleton_integer()?;
-    let lastval = args[1].atomize()?.get_singleton_integer()?;
+    let firstval = lhs.get_singleton_integer()?;
+    let lastval = rhs.get_singleton_integer()?;
     let mut seq = new_xsequence();
     for n in firstval ..= lastval {
         seq.push(&new_xitem_integer(n));
-- 
2.43.0


From 560ccbb76f031ce23eece304d91347ac010dda7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:21 +0000
Subject: [PATCH 79/81] fix: casting to a type that is not supported is an
 error also in castable

---
 src/xpath_impl/eval.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 203b9c8..d4c5eb8 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -611,6 +611,7 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             let single_type_xnode = get_right(xnode);
             let type_name_xnode = get_left(&single_type_xnode);
             let type_name = get_xnode_name(&type_name_xnode);
+            check_cast_target(&type_name)?;
             return Ok(new_singleton_boolean(value.castable_as(&type_name)));
         }
 
@@ -619,6 +620,7 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             let single_type_xnode = get_right(xnode);
             let type_name_xnode = get_left(&single_type_xnode);
             let type_name = get_xnode_name(&type_name_xnode);
+            check_cast_target(&type_name)?;
             return value.cast_as(&type_name);
         }
 
@@ -749,6 +751,18 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
     }
 }
 
+// ---------------------------------------------------------------------
+// cast as / castable as の型名 (末尾に "?" があってもよい) が、
+// XItem::cast_as() で扱えるものかどうか調べる。
+//
+fn check_cast_target(type_name: &str) -> Result<(), Box<Error>> {
+    let name = type_name.trim_right_matches('?');
+    match name.trim_left_matches("xs:") {
+        "string" | "integer" | "decimal" | "double" | "boolean" => return Ok(()),
+        _ => return Err(type_error!("cast/castable as {}: 扱えない型である。", name)),
+    }
+}
+
 // ---------------------------------------------------------------------
 // マップまたは配列 (xseq) から、各キーに対応する値を取り出す。
 //
-- 
2.43.0


From 531f8966c288742187540f1c9aa198a499b2efca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:14 +0000
Subject: [PATCH 80/81] fix: node tests that are not implemented are reported
 as such

---
 src/xpath_impl/parser.rs | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 5a173a0..4379031 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -498,7 +498,7 @@ fn parse_kind_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 }
 
 // ---------------------------------------------------------------------
-// (当面、構文解析のみ)
+// (構文を調べた上で、未実装である旨のエラーとする)
 // [ 85] DocumentTest ::= "document-node" "(" (ElementTest | SchemaElementTest)? ")"
 //
 fn parse_document_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
@@ -507,20 +507,15 @@ fn parse_document_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     error_if_not_ttype!(lex, TType::LeftParen, "{}: 開き括弧が必要。");
     lex.get_token();
 
-    // s_xnode: (ElementTest | SchemaElementTest)?
-    let mut s_xnode = parse_element_test(lex)?;
-    if is_nil_xnode(&s_xnode) {
-        s_xnode = parse_schema_element_test(lex)?;
+    // (ElementTest | SchemaElementTest)?
+    if is_nil_xnode(&parse_element_test(lex)?) {
+        parse_schema_element_test(lex)?;
     }
 
     error_if_not_ttype!(lex, TType::RightParen, "{}: 閉じ括弧が必要。");
     lex.get_token();
 
-    let document_test_xnode = new_xnode(XNodeType::DocumentTest, "");
-    if ! is_nil_xnode(&s_xnode) {
-        assign_as_left(&document_test_xnode, &s_xnode);
-    }
-    return Ok(document_test_xnode);
+    return Err(uninplemented!("document-node() は未実装。"));
 }
 
 // ---------------------------------------------------------------------
@@ -636,34 +631,32 @@ fn parse_attribute_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 }
 
 // ---------------------------------------------------------------------
-// (当面、構文解析のみ)
+// (構文を調べた上で、未実装である旨のエラーとする)
 // [ 96] SchemaElementTest ::= "schema-element" "(" ElementDeclaration ")"
 // [ 97] ElementDeclaration ::= ElementName
 // [ 99] ElementName ::= EQName
 //
 fn parse_schema_element_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
-    return parse_kind_test_sub_one(lex,
-                TType::SchemaElementTest, XNodeType::SchemaElementTest);
+    return parse_kind_test_sub_one(lex, TType::SchemaElementTest, "schema-element");
 }
 
 // ---------------------------------------------------------------------
-// (当面、構文解析のみ)
+// (構文を調べた上で、未実装である旨のエラーとする)
 // [ 92] SchemaAttributeTest ::= "schema-attribute" "(" AttributeDeclaration ")"
 // [ 93] AttributeDeclaration ::= AttributeName
 // [ 98] AttributeName ::= EQName
 //
 fn parse_schema_attribute_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
-    return parse_kind_test_sub_one(lex,
-                TType::SchemaAttributeTest, XNodeType::SchemaAttributeTest);
+    return parse_kind_test_sub_one(lex, TType::SchemaAttributeTest, "schema-attribute");
 }
 
 // ---------------------------------------------------------------------
 // SchemaElementTest | SchemaAttributeTest に共通:
 // テスト名 (ttype) の後に、"(" EQName ")" が続いているとき、
-// xnode (XNodeType: xnode_type) を生成して返す。
+// 未実装である旨のエラーとする。
 //
 fn parse_kind_test_sub_one(lex: &mut Lexer,
-        ttype: TType, xnode_type: XNodeType)
+        ttype: TType, test_name: &str)
                                     -> Result<XNodePtr, Box<Error>> {
 
     return_nil_if_not_ttype!(lex, ttype);
@@ -681,7 +674,7 @@ fn parse_kind_test_sub_one(lex: &mut Lexer,
     error_if_not_ttype!(lex, TType::RightParen, "{}: 閉じ括弧が必要。");
     lex.get_token();
 
-    return Ok(new_xnode(xnode_type, &eqname));
+    return Err(uninplemented!("{}({}) は未実装。", test_name, eqname));
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From b4648f3eb5de70387d59d27a865ac3a14526845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:31 +0000
Subject: [PATCH 81/81] fix: literals, comments and instructions in a document
 type declaration are skipped as such

---
 src/sax.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sax.rs b/src/sax.rs
index 5777bed..19d55a7 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -447,7 +447,17 @@ impl SaxDecoder {
                 return Err(xml_syntax_error!("Unexpected EOF while searching matching bracket"));
             } else if ch == '<' {
                 s.push(ch);
-                nest_level += 1;
+                if self.look_ahead_keyword("!--") {         // コメント
+                    s += &format!("!--{}-->", self.get_until("-->")?);
+                } else if self.look_ahead_keyword("?") {    // 処理命令
+                    s += &format!("?{}?>", self.get_until("?>")?);
+                } else {
+                    nest_level += 1;
+                }
+            } else if ch == '"' || ch == '\'' {             // リテラル
+                s.push(ch);
+                s += &self.get_until_ch(ch)?;
+                s.push(ch);
             } else if ch == '>' {
                 s.push(ch);
                 nest_level -= 1;
-- 
2.43.0

