From 3f3330fa1b55a641a3f6f74cf94a80a858ad67c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:40 +0000
Subject: [PATCH 01/13] fix: key the sub-expression caches by symbol, not by
 bare id

A token and a rule may have the same numeric id, so T* and r* (or + and ?)
could silently share one helper rule and change the grammar's language.
---
 src/tool/visitor/grammar_visitor.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index 6836e31..a204530 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -114,9 +114,10 @@ pub struct ProductionVisitor<'a> {
   block_cache: HashMap<Vec<Vec<ProductionItem>>, usize>,
 
 
-  star_cache: HashMap<usize, usize>,
-  plus_cache: HashMap<usize, usize>,
-  question_cache: HashMap<usize, usize>,
+  // 终结符和非终结符的 id 可能相同，因此以 ProductionItem 作为 key。
+  star_cache: HashMap<ProductionItem, usize>,
+  plus_cache: HashMap<ProductionItem, usize>,
+  question_cache: HashMap<ProductionItem, usize>,
 }
 
 impl<'a> ProductionVisitor<'a> {
@@ -171,21 +172,21 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
   // 返回产生式的元素
   fn visit_element(&mut self, ctx: &dyn ElementContext) -> Box<dyn std::any::Any> {
     // 首先解析出一个 item
-    let item: ProductionItem; let id: usize;
+    let item: ProductionItem;
     if let Some(token) = ctx.token_ref() {
-      id = self.grammar.vocabulary.get_terminal_id_by_name(&token.symbol.text).unwrap();
+      let id = self.grammar.vocabulary.get_terminal_id_by_name(&token.symbol.text).unwrap();
       item = ProductionItem::Terminal(id);
     }
     else if let Some(literal) = ctx.string_literal() {
-      id = self.grammar.vocabulary.get_terminal_id_by_name(&literal.symbol.text).unwrap();
+      let id = self.grammar.vocabulary.get_terminal_id_by_name(&literal.symbol.text).unwrap();
       item = ProductionItem::Terminal(id);
     }
     else if let Some(rule) = ctx.rule_ref() {
-      id = self.grammar.vocabulary.get_nonterminal_id_by_name(&rule.symbol.text).unwrap();
+      let id = self.grammar.vocabulary.get_nonterminal_id_by_name(&rule.symbol.text).unwrap();
       item = ProductionItem::NonTerminal(id);
     }
     else if let Some(block) = ctx.block() {
-      id = *block.accept(self).downcast::<usize>().unwrap();
+      let id = *block.accept(self).downcast::<usize>().unwrap();
       item = ProductionItem::NonTerminal(id);
     }
     else {
@@ -199,7 +200,7 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         // item * => item2 -> item item2 | epsilon
 
         // 查看是否已存在 item_id 即为 新产生式的 id。
-        if let Some(item_id) = self.star_cache.get(&id) {
+        if let Some(item_id) = self.star_cache.get(&item) {
           return Box::new(ProductionItem::NonTerminal(*item_id));
         }
 
@@ -214,14 +215,14 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         self.grammar.productions.insert(p1);
         self.grammar.productions.insert(p2);
 
-        self.star_cache.insert(id, self.next_rule_id);
+        self.star_cache.insert(item, self.next_rule_id);
 
         self.next_rule_id += 1;
         return Box::new(item2);
       }
       else if let Some(_) = suffix.plus() {
         // item * => item2 -> item item2 | item
-        if let Some(item_id) = self.plus_cache.get(&id) {
+        if let Some(item_id) = self.plus_cache.get(&item) {
           return Box::new(ProductionItem::NonTerminal(*item_id));
         }
 
@@ -235,13 +236,13 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         self.grammar.productions.insert(p1);
         self.grammar.productions.insert(p2);
 
-        self.plus_cache.insert(id, self.next_rule_id);
+        self.plus_cache.insert(item, self.next_rule_id);
         self.next_rule_id += 1;
         return Box::new(item2);
       }
       else {
         // item * => item2 -> item | epsilon
-        if let Some(item_id) = self.question_cache.get(&id) {
+        if let Some(item_id) = self.question_cache.get(&item) {
           return Box::new(ProductionItem::NonTerminal(*item_id));
         }
 
@@ -254,7 +255,7 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         let p2 = Production::new(self.next_rule_id, &vec![item]);
         self.grammar.productions.insert(p1);
         self.grammar.productions.insert(p2);
-        self.question_cache.insert(id, self.next_rule_id);
+        self.question_cache.insert(item, self.next_rule_id);
         self.next_rule_id += 1;
         return Box::new(item2);
       }
-- 
2.43.0


From cfd27d13d4d2c7938b1ca79b9d0426ae8f2261a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:29 +0000
Subject: [PATCH 02/13] fix: the self-hosted parser returns the self-hosted
 contexts

Its typed entry points handed out the hand-written parser's context traits,
whose accessors look for the hand-written lexer's token ids and so never
found the tokens of the self-hosted lexer.
---
 src/tool/v1/syntaxis_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool/v1/syntaxis_parser.rs b/src/tool/v1/syntaxis_parser.rs
index f8d4991..3431729 100644
--- a/src/tool/v1/syntaxis_parser.rs
+++ b/src/tool/v1/syntaxis_parser.rs
@@ -1,6 +1,8 @@
 use std::{collections::HashMap, rc::Rc};
 
-use crate::{runtime::{token::Token, ast::{rule_context::RuleContext, terminal_context::TerminalContext, ast_context::ASTContext}, vocabulary::Vocabulary}, tool::{grammar::{Production, ProductionItem}, syntaxis::syntaxis_context::{RuleListContext, ParserRuleContext, BlockContext, AlternativeContext, EpsilonContext, ElementContext, EbnfSuffixContext, LexerRuleContext, RegularContext}}};
+use crate::{runtime::{token::Token, ast::{rule_context::RuleContext, terminal_context::TerminalContext, ast_context::ASTContext}, vocabulary::Vocabulary}, tool::grammar::{Production, ProductionItem}};
+
+use super::syntaxis_context::{RuleListContext, ParserRuleContext, BlockContext, AlternativeContext, EpsilonContext, ElementContext, EbnfSuffixContext, LexerRuleContext, RegularContext};
 
 
 
-- 
2.43.0


From 478e98a01c3ba2306b55a3c1ae291443532da89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:59 +0000
Subject: [PATCH 03/13] fix: lower item+ without the LL(1) conflict between its
 two alternatives

---
 src/tool/visitor/grammar_visitor.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index a204530..9235060 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -221,7 +221,7 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         return Box::new(item2);
       }
       else if let Some(_) = suffix.plus() {
-        // item * => item2 -> item item2 | item
+        // item + => item2 -> item item3, item3 -> item2 | epsilon
         if let Some(item_id) = self.plus_cache.get(&item) {
           return Box::new(ProductionItem::NonTerminal(*item_id));
         }
@@ -230,14 +230,20 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         self.grammar.vocabulary.add_unnamed_nonterminal(self.next_rule_id);
         let item2 = ProductionItem::NonTerminal(self.next_rule_id);
 
-        // 添加两条产生式
-        let p1 = Production::new(self.next_rule_id, &vec![item.clone()]);
-        let p2 = Production::new(self.next_rule_id, &vec![item, item2.clone()]);
+        // 提取公共左因子, 否则 item2 -> item item2 | item 总是 LL(1) 冲突
+        self.grammar.vocabulary.add_unnamed_nonterminal(self.next_rule_id + 1);
+        let item3 = ProductionItem::NonTerminal(self.next_rule_id + 1);
+
+        // 添加三条产生式
+        let p1 = Production::new(self.next_rule_id, &vec![item.clone(), item3]);
+        let p2 = Production::new(self.next_rule_id + 1, &vec![item2.clone()]);
+        let p3 = Production::new(self.next_rule_id + 1, &vec![]);
         self.grammar.productions.insert(p1);
         self.grammar.productions.insert(p2);
+        self.grammar.productions.insert(p3);
 
         self.plus_cache.insert(item, self.next_rule_id);
-        self.next_rule_id += 1;
+        self.next_rule_id += 2;
         return Box::new(item2);
       }
       else {
-- 
2.43.0


From af2195ad141d03486c46b032d75d0a24fb3f0152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:04 +0000
Subject: [PATCH 04/13] fix: a node's text spans its tokens even when it starts
 or ends with an empty rule

---
 src/runtime/ast/rule_context.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/runtime/ast/rule_context.rs b/src/runtime/ast/rule_context.rs
index 9be510c..bcff63e 100644
--- a/src/runtime/ast/rule_context.rs
+++ b/src/runtime/ast/rule_context.rs
@@ -54,22 +54,21 @@ impl RuleContext {
   }
 
   pub fn get_start_token(&self) -> Option<Token> {
-    if self.children.len() <= 0 { return None }
-    match &self.children[0] {
+    // 跳过开头的空规则
+    self.children.iter().find_map(|child| match child {
       ASTContext::Terminal(ctx) => Some(ctx.symbol.clone()),
       ASTContext::Rule(ctx) => ctx.get_start_token(),
       ASTContext::Error(ctx) => Some(ctx.symbol.clone()),
-    }
-
+    })
   }
 
   pub fn get_stop_token(&self) -> Option<Token> {
-    if self.children.len() <= 0 { return None }
-    match self.children.last().unwrap() {
+    // 跳过结尾的空规则
+    self.children.iter().rev().find_map(|child| match child {
       ASTContext::Terminal(ctx) => Some(ctx.symbol.clone()),
       ASTContext::Rule(ctx) => ctx.get_stop_token(),
       ASTContext::Error(ctx) => Some(ctx.symbol.clone()),
-    }
+    })
   }
 
   pub fn get_terminal(&self, token_type: usize, i: usize) -> Option<&TerminalContext> {
-- 
2.43.0


From 04ed3968b7606c8219b95569d8ca46d784e7e642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:40 +0000
Subject: [PATCH 05/13] fix: the end marker's offsets lie at the end of the
 text

---
 src/tool/templates/target/rust/lexer.tera | 4 ++--
 src/tool/v1/syntaxis_lexer.rs             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tool/templates/target/rust/lexer.tera b/src/tool/templates/target/rust/lexer.tera
index 2def620..3d923a5 100644
--- a/src/tool/templates/target/rust/lexer.tera
+++ b/src/tool/templates/target/rust/lexer.tera
@@ -67,8 +67,8 @@ impl Lexer for {{name}}Lexer {
         channel: 0,
         text: "_STOP".to_owned(),
         token_index: self.token_index,
-        char_start_index: self.cursor,
-        char_stop_index: self.cursor,
+        char_start_index: self.input.len(),
+        char_stop_index: self.input.len(),
       });
     }
     let mut len = 0;
diff --git a/src/tool/v1/syntaxis_lexer.rs b/src/tool/v1/syntaxis_lexer.rs
index cdeb40c..26f1ce1 100644
--- a/src/tool/v1/syntaxis_lexer.rs
+++ b/src/tool/v1/syntaxis_lexer.rs
@@ -90,8 +90,8 @@ impl Lexer for SyntaxisLexer {
         channel: 0,
         text: "_STOP".to_owned(),
         token_index: self.token_index,
-        char_start_index: self.cursor,
-        char_stop_index: self.cursor,
+        char_start_index: self.input.len(),
+        char_stop_index: self.input.len(),
       });
     }
     let mut len = 0;
-- 
2.43.0


From 8a622ccc12f92d1a917fcd53343f9f4de72ba2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:19 +0000
Subject: [PATCH 06/13] fix: escape everything that would end or change the
 drawn tree's literals

---
 src/tool/gui/ast_drawer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool/gui/ast_drawer.rs b/src/tool/gui/ast_drawer.rs
index ec55cc6..420c841 100644
--- a/src/tool/gui/ast_drawer.rs
+++ b/src/tool/gui/ast_drawer.rs
@@ -25,7 +25,9 @@ impl ASTDrawer {
   }
 
   fn escape(s: &str) -> String {
-    s.replace("\\", "\\\\").replace("`", "\\`")
+    // 模板字符串中的 ${、换行规范化以及 script 元素的结束标记也需要转义
+    s.replace("\\", "\\\\").replace("`", "\\`").replace("${", "\\${").replace("\r", "\\r")
+      .replace("</", "<\\/").replace("<!--", "<\\!--")
   }
 
   fn dump(ast: &RuleContext) -> String {
-- 
2.43.0


From 9aaf5cde79f82d58acbaff455b843ff16a681ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:08 +0000
Subject: [PATCH 07/13] fix: write the whole drawn document, not as much as one
 write takes

---
 src/tool/gui/ast_drawer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/gui/ast_drawer.rs b/src/tool/gui/ast_drawer.rs
index 420c841..033cc75 100644
--- a/src/tool/gui/ast_drawer.rs
+++ b/src/tool/gui/ast_drawer.rs
@@ -58,7 +58,7 @@ impl ASTDrawer {
     
 
     let mut file = std::fs::File::create(filename).unwrap();
-    file.write(result.as_bytes()).unwrap();
+    file.write_all(result.as_bytes()).unwrap();
   }
 }
 
-- 
2.43.0


From 68ed81ca378644821a17d84239d207efd20bc068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:47 +0000
Subject: [PATCH 08/13] fix: which production wins an LL(1) conflict no longer
 depends on hash order

---
 src/tool/grammar/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tool/grammar/mod.rs b/src/tool/grammar/mod.rs
index cc4aa36..2c241b6 100644
--- a/src/tool/grammar/mod.rs
+++ b/src/tool/grammar/mod.rs
@@ -193,7 +193,8 @@ impl Grammar {
   // 构造预测分析表
   pub fn ll1_table(&self, first_set: &HashMap<Production, Collection>, follow_set: &HashMap<usize, HashSet<usize>>) -> HashMap<(usize, usize), Rc<Production>> {
     let mut result: HashMap<(usize, usize), Rc<Production>> = HashMap::new();
-    let productions: Vec<Rc<Production>> = self.productions.iter().map(|p| { Rc::new(p.clone()) }).collect();
+    let mut productions: Vec<Rc<Production>> = self.productions.iter().map(|p| { Rc::new(p.clone()) }).collect();
+    productions.sort(); // 冲突时后者覆盖前者, 结果不能依赖哈希表的遍历顺序
     for production in productions.iter() {
       let first = first_set.get(&production).unwrap();
       let rule_id = production.left;
@@ -253,13 +254,13 @@ impl Display for Grammar {
 }
 
 
-#[derive(PartialEq, Eq, Clone, Hash, Debug, Copy)]
+#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Hash, Debug, Copy)]
 pub enum ProductionItem {
   NonTerminal(usize),
   Terminal(usize),
 }
 
-#[derive(PartialEq, Eq, Clone, Hash, Debug)]
+#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Hash, Debug)]
 pub struct Production {
   pub left: usize, 
   pub right: Vec<ProductionItem>,
-- 
2.43.0


From bccb9b17f6743380d87ad8f5a0989ada9714264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:12 +0000
Subject: [PATCH 09/13] fix: should_visit_next_child sees the result combined
 so far

It was handed a reference to the box around the result, so a visitor
asking the value for its type never found it.
---
 src/tool/syntaxis/syntaxis_visitor.rs | 2 +-
 src/tool/v1/syntaxis_visitor.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool/syntaxis/syntaxis_visitor.rs b/src/tool/syntaxis/syntaxis_visitor.rs
index e241f28..024f8db 100644
--- a/src/tool/syntaxis/syntaxis_visitor.rs
+++ b/src/tool/syntaxis/syntaxis_visitor.rs
@@ -71,7 +71,7 @@ pub trait SyntaxisVisitor {
   fn visit_children(&mut self, ctx: &RuleContext) -> Box<dyn Any> {
     let mut result = self.default_result();
     for child in ctx.children.iter() {
-      if ! self.should_visit_next_child(ctx, &result) { break; }
+      if ! self.should_visit_next_child(ctx, result.as_ref()) { break; }
 
       let child_result = match child {
         ASTContext::Terminal(ctx) => self.visit_terminal(ctx),
diff --git a/src/tool/v1/syntaxis_visitor.rs b/src/tool/v1/syntaxis_visitor.rs
index e241f28..024f8db 100644
--- a/src/tool/v1/syntaxis_visitor.rs
+++ b/src/tool/v1/syntaxis_visitor.rs
@@ -71,7 +71,7 @@ pub trait SyntaxisVisitor {
   fn visit_children(&mut self, ctx: &RuleContext) -> Box<dyn Any> {
     let mut result = self.default_result();
     for child in ctx.children.iter() {
-      if ! self.should_visit_next_child(ctx, &result) { break; }
+      if ! self.should_visit_next_child(ctx, result.as_ref()) { break; }
 
       let child_result = match child {
         ASTContext::Terminal(ctx) => self.visit_terminal(ctx),
-- 
2.43.0


From 5d26e60ea01db12d1e9bed749987d0754bb1672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:49 +0000
Subject: [PATCH 10/13] fix: a token pattern that contains the template's raw
 string delimiter compiles

---
 src/tool/templates/target/rust/lexer.tera | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/templates/target/rust/lexer.tera b/src/tool/templates/target/rust/lexer.tera
index 3d923a5..7cd8252 100644
--- a/src/tool/templates/target/rust/lexer.tera
+++ b/src/tool/templates/target/rust/lexer.tera
@@ -32,7 +32,7 @@ impl {{name}}Lexer {
 
       // 这里也需要使用模板
       {% for token in tokens %}
-      Regex::new(r####"{{token.regex}}"####).unwrap(), // {{token.token_name}}{% endfor %}
+      Regex::new(r####"{{ token.regex | replace(from='"####', to='"\x23###') }}"####).unwrap(), // {{token.token_name}}{% endfor %}
     
     ];
     
-- 
2.43.0


From d7109bfa083ed5dc1aa922711ce955ca267fe86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:26 +0000
Subject: [PATCH 11/13] fix: separate the symbols of a printed production,
 which ran into each other before a rule name

---
 src/tool/grammar/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/grammar/mod.rs b/src/tool/grammar/mod.rs
index 2c241b6..09ef128 100644
--- a/src/tool/grammar/mod.rs
+++ b/src/tool/grammar/mod.rs
@@ -236,7 +236,7 @@ impl Display for Grammar {
       for item in production.right.iter() {
         match item {
           ProductionItem::NonTerminal(id) => {
-            write!(f, "{}", self.vocabulary.get_nonterminal_name_with_default(*id))?
+            write!(f, " {}", self.vocabulary.get_nonterminal_name_with_default(*id))?
           },
           ProductionItem::Terminal(id) => {
             let name = self.vocabulary.get_terminal_name(*id);
-- 
2.43.0


From 33a6a8cca43c1deabfc5195bd0757805a716a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:48 +0000
Subject: [PATCH 12/13] fix: report a rule that is declared again

The symbol pass looked a rule's name up among the tokens, so a rule declared
twice was never reported and its declarations were merged silently.
---
 src/tool/visitor/grammar_visitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index 9235060..8247a7e 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -93,7 +93,7 @@ impl SyntaxisVisitor for SymbolVisitor<'_> {
 
   fn visit_parser_rule(&mut self, ctx: &dyn ParserRuleContext) -> Box<dyn std::any::Any> {
     let name = &ctx.rule_ref().unwrap().symbol.text;
-    if self.grammar.vocabulary.is_terminal_name_defined(name) {
+    if self.grammar.vocabulary.is_nonterminal_name_defined(name) {
       println!("重复定义 rule: {}", name);
       return self.default_result();
     }
-- 
2.43.0


From 0c404d9f26c5df26165633094905e5ae69371bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:29 +0000
Subject: [PATCH 13/13] fix: a NUL in a drawn name or text reaches the page's
 script unchanged

---
 src/tool/gui/ast_drawer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool/gui/ast_drawer.rs b/src/tool/gui/ast_drawer.rs
index 033cc75..f21a2c5 100644
--- a/src/tool/gui/ast_drawer.rs
+++ b/src/tool/gui/ast_drawer.rs
@@ -25,8 +25,8 @@ impl ASTDrawer {
   }
 
   fn escape(s: &str) -> String {
-    // 模板字符串中的 ${、换行规范化以及 script 元素的结束标记也需要转义
-    s.replace("\\", "\\\\").replace("`", "\\`").replace("${", "\\${").replace("\r", "\\r")
+    // 模板字符串中的 ${、换行规范化、NUL 以及 script 元素的结束标记也需要转义
+    s.replace("\\", "\\\\").replace("`", "\\`").replace("${", "\\${").replace("\r", "\\r").replace("\0", "\\x00")
       .replace("</", "<\\/").replace("<!--", "<\\!--")
   }
 
-- 
2.43.0

