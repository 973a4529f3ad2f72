//! Syntax trees on the harness' side: generation, JSON text, traversal order, and a reader
//! for the tree embedded in a drawn document.
use crate::sched::{chance, choose, pick, range};
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tree {
    Rule { index: usize, name: String, kids: Vec<Tree> },
    Tok { ty: usize, name: String, text: String },
    Err { ty: usize, name: String, text: String },
}
impl Tree {
    pub fn rule(index: usize, name: &str, kids: Vec<Tree>) -> Tree { Tree::Rule { index, name: name.into(), kids } }
    pub fn tok(ty: usize, name: &str, text: &str) -> Tree { Tree::Tok { ty, name: name.into(), text: text.into() } }
    pub fn count(&self) -> usize { match self { Tree::Rule { kids, .. } => 1 + kids.iter().map(|k| k.count()).sum::<usize>(), _ => 1 } }
    pub fn depth(&self) -> usize { match self { Tree::Rule { kids, .. } => 1 + kids.iter().map(|k| k.depth()).max().unwrap_or(0), _ => 1 } }
    pub fn leaves<'a>(&'a self, out: &mut Vec<&'a Tree>) { match self { Tree::Rule { kids, .. } => for k in kids { k.leaves(out) }, t => out.push(t) } }
    pub fn json(&self) -> Value {
        match self {
            Tree::Rule { index, name, kids } => json!({"rule_index": index, "rule_name": name, "children": kids.iter().map(|k| k.json()).collect::<Vec<_>>()}),
            Tree::Tok { ty, name, text } | Tree::Err { ty, name, text } => json!({"token_type": ty, "token_name": name, "text": text}),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Tree::Rule { index, name, kids } => format!("{}#{}({})", name, index, kids.iter().map(|k| k.show()).collect::<Vec<_>>().join(" ")),
            Tree::Tok { ty, text, .. } => format!("{}:{:?}", ty, text),
            Tree::Err { ty, text, .. } => format!("!{}:{:?}", ty, text),
        }
    }
}

pub const PIECES: &[&str] = &["a", "b", "x1", "_", " ", "+", "\\", "`", "${", "}", "$", "{", "</script>", "</SCRIPT ", "<!--", "<script", "\n", "\r\n", "\r", "\t", "'", "\"", "\\`", "\\n", "\\u{41}", "ε", "中文", "😀", "\u{2028}", "&lt;", "<", ">", "{{ name }}", "{% if x %}", "{#", "//", "/*", "`;alert(1);`", "\\\\", "\\${", "$`", "-->", "]]>", ",", "children:[", "\u{0}", "\u{0}1", "\u{1}", "\u{7f}", "\u{85}", "\u{a0}", "\u{feff}", "\u{2029}", "\u{301}", "\u{200d}", "\u{ffff}", "\u{10ffff}", "\u{d7ff}"];
/// A number: mostly small, sometimes at the edges of narrower types.
pub fn num(k: u64) -> usize { if chance(3) { pick(&[255usize, 256, 257, 65535, 65536, u32::MAX as usize, 1 << 32, (1 << 53) + 1, i64::MAX as usize, 1 << 63, usize::MAX]) } else { choose(k) as usize } }
pub fn gen_text(evil: bool) -> String {
    let n = choose(5);
    let mut s = String::new();
    // long ones: beyond the sizes of small and of file buffers
    if choose(300) == 0 { let p = if evil { pick::<&str>(PIECES) } else { "ab" }; return p.repeat(pick(&[64usize, 129, 300, 4200])); }
    for _ in 0..n { if evil { s += pick::<&str>(PIECES) } else { s += pick::<&str>(&["a", "b", "Z", "0", "_"]) } }
    s
}
pub fn gen_name(evil: bool) -> String {
    if evil && chance(20) { return gen_text(true); }
    pick::<&str>(&["rule_list", "block", "X", "ID", "alternative", "e", "名"]).to_string()
}
/// A random tree whose root is a rule.
pub fn gen(max_nodes: u64, evil: bool, max_index: u64, errors: bool) -> Tree {
    let mut left = range(1, max_nodes) as i64;
    fn go(left: &mut i64, depth: u64, evil: bool, mi: u64, errors: bool) -> Tree {
        *left -= 1;
        let n = if depth > 12 { 0 } else { choose(5) };
        let mut kids = vec![];
        for _ in 0..n {
            if *left <= 0 { break; }
            if chance(55) { kids.push(go(left, depth + 1, evil, mi, errors)); }
            else {
                *left -= 1;
                let (ty, name, text) = (num(24), gen_name(evil), gen_text(evil));
                if errors && chance(15) { kids.push(Tree::Err { ty, name, text }) } else { kids.push(Tree::Tok { ty, name, text }) }
            }
        }
        Tree::Rule { index: num(mi), name: gen_name(evil), kids }
    }
    go(&mut left, 0, evil, max_index, errors)
}

/// A large tree: hundreds to thousands of nodes.
pub fn gen_big(nodes: u64, evil: bool, max_index: u64, errors: bool) -> Tree {
    let target = range(nodes / 4, nodes) as usize;
    let mut kids = vec![];
    let mut n = 1;
    // one node with very many tokens
    if chance(15) { let at = choose(target as u64) as usize; n = target; kids.extend((0..target).map(|i| if i == at { gen(10, evil, max_index, errors) } else { Tree::tok(2 + i % 9, pick::<&str>(&["ID", "T"]), "x") })); }
    while n < target { let t = gen(40, evil, max_index, errors); n += t.count(); kids.push(t); }
    // sometimes nested instead of flat
    while kids.len() > 1 && chance(70) { let k = range(1, kids.len() as u64) as usize; let rest = kids.split_off(k); kids.push(Tree::rule(choose(max_index) as usize, "more", rest)); if chance(50) { break; } }
    Tree::rule(0, "big", kids)
}

// ---- tree documents
/// What a document means: None = not a tree. Second: a token text of the wrong type was met
/// (the loader may treat it as absent or refuse it).
pub fn meaning(bytes: &[u8]) -> Option<(Tree, bool)> {
    let v: Value = serde_json::from_slice(bytes).ok()?;
    let mut odd = false;
    let t = json_rule(&v, &mut odd)?;
    Some((t, odd))
}
fn json_rule(v: &Value, odd: &mut bool) -> Option<Tree> {
    let o = v.as_object()?;
    let kids = o.get("children")?.as_array()?;
    let index = o.get("rule_index")?.as_u64()? as usize;
    let name = o.get("rule_name")?.as_str()?;
    let kids = kids.iter().map(|k| match k.get("children") {
        None | Some(Value::Null) => {
            let o = k.as_object()?;
            let ty = o.get("token_type")?.as_u64()? as usize;
            let n = o.get("token_name")?.as_str()?;
            let text = match o.get("text") { Some(Value::String(s)) => s.clone(), None | Some(Value::Null) => "<no text>".into(), Some(_) => { *odd = true; "<no text>".into() } };
            Some(Tree::tok(ty, n, &text))
        }
        Some(_) => json_rule(k, odd),
    }).collect::<Option<Vec<_>>>()?;
    Some(Tree::rule(index, name, kids))
}

/// Structural damage: fields removed, retyped, extended.
pub fn json_nodes(v: &mut Value) -> u64 { 1 + v.get_mut("children").and_then(|c| c.as_array_mut()).map_or(0, |a| a.iter_mut().map(json_nodes).sum()) }
fn nth(v: &mut Value, n: &mut u64, f: &mut dyn FnMut(&mut Value)) {
    if *n == 0 { f(v); *n = u64::MAX; return; }
    *n -= 1;
    if let Some(a) = v.get_mut("children").and_then(|c| c.as_array_mut()) { for k in a { if *n == u64::MAX { return; } nth(k, n, f); } }
}
pub fn bend(v: &mut Value) {
    let total = json_nodes(v);
    let mut n = choose(total);
    nth(v, &mut n, &mut |x| {
        let keys: Vec<String> = x.as_object().map_or(vec![], |o| o.keys().cloned().collect());
        if keys.is_empty() { return; }
        match choose(8) {
            0 => { let k = pick(&keys); x.as_object_mut().unwrap().remove(&k); }
            // a rule whose list of children is something else
            6 | 7 if keys.iter().any(|k| k == "children") => { x["children"] = [json!(null), json!(0), json!("x"), json!({}), json!({"0": {"token_type": 2, "token_name": "A", "text": "a"}}), json!(true), json!("[]")][choose(7) as usize].clone(); }
            1 | 2 => { let k = pick(&keys); let w = [json!(null), json!(-1), json!(1.5), json!("7"), json!(7), json!([]), json!({}), json!(true), json!(18446744073709551615u64), json!("")][choose(10) as usize].clone(); x[&k] = w; }
            // a node with the fields of both kinds
            3 if chance(60) => {
                if keys.iter().any(|k| k == "children") { x["token_type"] = json!(4); x["token_name"] = json!("T"); x["text"] = json!("t"); if chance(30) { x.as_object_mut().unwrap().remove("rule_name"); } }
                else { x["children"] = [json!([]), json!(null), json!(7), json!(false), json!("x"), json!({})][choose(6) as usize].clone(); if chance(30) { x["rule_index"] = json!(1); x["rule_name"] = json!("r"); } }
            }
            3 => { x["extra"] = json!({"children": [1]}); }
            4 => { *x = [json!(null), json!(3), json!("x"), json!([]), json!([{}]), json!({})][choose(6) as usize].clone(); }
            _ => { if let Some(a) = x.get_mut("children").and_then(|c| c.as_array_mut()) { a.push([json!(null), json!({"token_type": 1}), json!({"token_name": "X"}), json!(5), json!([])][choose(5) as usize].clone()); } }
        }
    });
}


// ---- reading a drawn document the way a browser would ---------------------------------
#[derive(Clone, Debug, PartialEq)]
pub enum Js { Str(String), Num(String), Arr(Vec<Js>), Obj(Vec<(String, Js)>), Word(String) }
impl Js { pub fn get(&self, k: &str) -> Option<&Js> { match self { Js::Obj(v) => v.iter().rev().find(|x| x.0 == k).map(|x| &x.1), _ => None } } }

struct P<'a> { s: &'a [char], i: usize }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i].is_whitespace() || self.s[self.i] == '\u{feff}') { self.i += 1; } }
    fn peek(&self) -> Option<char> { self.s.get(self.i).copied() }
    fn string(&mut self, q: char) -> Result<String, String> {
        let mut o = String::new();
        self.i += 1;
        loop {
            let c = self.peek().ok_or("string is not closed")?;
            self.i += 1;
            if c == q { return Ok(o); }
            match c {
                '$' if q == '`' && self.peek() == Some('{') => return Err("the text starts a ${...} substitution".into()),
                '\n' if q != '`' => return Err("line break in string".into()),
                '\r' if q == '`' => { if self.peek() == Some('\n') { self.i += 1; } o.push('\n'); }
                '\r' => return Err("line break in string".into()),
                '\\' => {
                    let e = self.peek().ok_or("dangling backslash")?;
                    self.i += 1;
                    match e {
                        'n' => o.push('\n'), 't' => o.push('\t'), 'r' => o.push('\r'), 'b' => o.push('\u{8}'), 'f' => o.push('\u{c}'), 'v' => o.push('\u{b}'),
                        '0' if !self.peek().map_or(false, |c| c.is_ascii_digit()) => o.push('\0'),
                        '0'..='9' => return Err("octal escape".into()),
                        '\n' | '\u{2028}' | '\u{2029}' => {}
                        '\r' => { if self.peek() == Some('\n') { self.i += 1; } }
                        'x' => {
                            let h: String = self.s.get(self.i..self.i + 2).ok_or("bad \\x")?.iter().collect();
                            o.push(char::from_u32(u32::from_str_radix(&h, 16).map_err(|_| "bad \\x escape")?).unwrap()); self.i += 2;
                        }
                        'u' => {
                            let mut unit = || -> Result<u32, String> {
                                if self.peek() == Some('{') {
                                    let end = self.s[self.i..].iter().position(|c| *c == '}').ok_or("bad \\u")?;
                                    let h: String = self.s[self.i + 1..self.i + end].iter().collect();
                                    self.i += end + 1;
                                    u32::from_str_radix(&h, 16).map_err(|_| "bad \\u escape".into())
                                } else {
                                    let h: String = self.s.get(self.i..self.i + 4).ok_or("bad \\u")?.iter().collect();
                                    self.i += 4;
                                    u32::from_str_radix(&h, 16).map_err(|_| "bad \\u escape".into())
                                }
                            };
                            let mut v = unit()?;
                            if (0xD800..0xDC00).contains(&v) && self.s.get(self.i) == Some(&'\\') && self.s.get(self.i + 1) == Some(&'u') {
                                self.i += 2;
                                let mut unit = || -> Result<u32, String> {
                                    let h: String = self.s.get(self.i..self.i + 4).ok_or("bad \\u")?.iter().collect();
                                    self.i += 4;
                                    u32::from_str_radix(&h, 16).map_err(|_| "bad \\u escape".into())
                                };
                                let w = unit()?;
                                v = 0x10000 + ((v - 0xD800) << 10) + (w.wrapping_sub(0xDC00) & 0x3ff);
                            }
                            o.push(char::from_u32(v).ok_or("bad \\u value")?);
                        }
                        c => o.push(c),
                    }
                }
                c => o.push(c),
            }
        }
    }
    fn value(&mut self) -> Result<Js, String> {
        self.ws();
        match self.peek().ok_or("value missing")? {
            q @ ('`' | '"' | '\'') => Ok(Js::Str(self.string(q)?)),
            '[' => {
                self.i += 1; let mut v = vec![];
                loop {
                    self.ws();
                    if self.peek() == Some(']') { self.i += 1; return Ok(Js::Arr(v)); }
                    v.push(self.value()?);
                    self.ws();
                    match self.peek() { Some(',') => self.i += 1, Some(']') => {} c => return Err(format!("unexpected {:?} in array", c)) }
                }
            }
            '{' => {
                self.i += 1; let mut v = vec![];
                loop {
                    self.ws();
                    match self.peek().ok_or("object not closed")? {
                        '}' => { self.i += 1; return Ok(Js::Obj(v)); }
                        c => {
                            let k = if c == '"' || c == '\'' { self.string(c)? } else { self.word() };
                            if k.is_empty() { return Err(format!("unexpected {:?} in object", c)); }
                            self.ws();
                            if self.peek() != Some(':') { return Err("':' missing".into()); }
                            self.i += 1;
                            let x = self.value()?;
                            v.push((k, x));
                            self.ws();
                            match self.peek() { Some(',') => self.i += 1, Some('}') => {} c => return Err(format!("unexpected {:?} in object", c)) }
                        }
                    }
                }
            }
            c if c.is_ascii_digit() || c == '-' => { let st = self.i; self.i += 1; while self.peek().map_or(false, |c| c.is_ascii_alphanumeric() || c == '.') { self.i += 1; } Ok(Js::Num(self.s[st..self.i].iter().collect())) }
            c if c.is_alphabetic() => Ok(Js::Word(self.word())),
            c => Err(format!("unexpected {:?}", c)),
        }
    }
    fn word(&mut self) -> String { let st = self.i; while self.peek().map_or(false, |c| c.is_alphanumeric() || c == '_' || c == '$') { self.i += 1; } self.s[st..self.i].iter().collect() }
}

/// The value of `const ast = ...` as the page's script sees it.
pub fn read_document(doc: &str) -> Result<Js, String> {
    // HTML input stream preprocessing: CR LF and CR become LF
    let doc = doc.replace("\r\n", "\n").replace('\r', "\n").replace('\0', "\u{fffd}"); // and a NUL in a script is replaced
    let low = doc.to_ascii_lowercase();
    let mut from = 0;
    loop {
        let st = match low[from..].find("<script") { Some(p) => from + p, None => return Err("no script defines the tree".into()) };
        let body = match low[st..].find('>') { Some(p) => st + p + 1, None => return Err("script tag not closed".into()) };
        // script data states: "<!--" then "<script" hides the next "</script"
        let mut i = body; let mut escaped = false; let mut double = false;
        let end = loop {
            if i >= low.len() { return Err("the script element is never closed".into()); }
            if !low.is_char_boundary(i) { i += 1; continue; }
            let r = &low[i..];
            if !escaped && r.starts_with("<!--") { escaped = true; i += 4; if low[i..].starts_with('>') || low[i..].starts_with("->") { escaped = false; } continue; }
            if escaped && r.starts_with("-->") { escaped = false; double = false; i += 3; continue; }
            let tag_end = |r: &str, n: usize| r[n..].chars().next().map_or(false, |c| c == '>' || c == '/' || c.is_ascii_whitespace());
            if escaped && !double && r.starts_with("<script") && tag_end(r, 7) { double = true; i += 7; continue; }
            if r.starts_with("</script") && tag_end(r, 8) { if double { double = false; i += 8; continue; } break i; }
            i += 1;
        };
        let js = &doc[body..end];
        if let Some(p) = js.find("const ast =") {
            let chars: Vec<char> = js[p + "const ast =".len()..].chars().collect();
            let mut q = P { s: &chars, i: 0 };
            let v = q.value()?;
            q.ws();
            if q.peek() != Some(';') { return Err(format!("after the tree comes {:?}", q.peek())); }
            return Ok(v);
        }
        from = end;
    }
}

/// Does the embedded value describe this tree?
pub fn same_drawn(js: &Js, t: &Tree) -> Result<(), String> {
    match t {
        Tree::Rule { name, kids, .. } => {
            match js.get("name") { Some(Js::Str(n)) if n == name => {} o => return Err(format!("rule {:?} drawn with name {:?}", name, o)) }
            let a = match js.get("children") { Some(Js::Arr(a)) => a, o => return Err(format!("rule {:?} has children {:?}", name, o)) };
            if a.len() != kids.len() { return Err(format!("rule {:?} has {} children, drawn with {}", name, kids.len(), a.len())); }
            for (x, k) in a.iter().zip(kids) { same_drawn(x, k)?; }
            Ok(())
        }
        Tree::Tok { name, text, .. } | Tree::Err { name, text, .. } => {
            match js.get("name") { Some(Js::Str(n)) if n == name => {} o => return Err(format!("token {:?} drawn with name {:?}", name, o)) }
            match js.get("text") { Some(Js::Str(n)) if n == text => {} o => return Err(format!("token text {:?} drawn as {:?}", text, o)) }
            if let Some(Js::Arr(a)) = js.get("children") { if !a.is_empty() { return Err("token drawn with children".into()); } }
            Ok(())
        }
    }
}
