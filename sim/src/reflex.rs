//! Reference tokeniser: longest match over a list of anchored patterns, earliest on ties;
//! line and column counted from the text's line breaks.
use regex::Regex;

pub struct Spec { pub rules: Vec<(usize, String, Regex)>, pub skip: Vec<usize>, pub stop: bool }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok { pub ty: usize, pub name: String, pub text: String, pub a: usize, pub b: usize, pub start: (usize, usize), pub end: (usize, usize), pub index: usize, pub channel: usize }

pub struct RefLexer<'a> { pub spec: &'a Spec, pub text: String, pub at: usize, index: usize, stopped: bool, breaks: Vec<usize> }
impl<'a> RefLexer<'a> {
    pub fn new(spec: &'a Spec, text: &str) -> Self { RefLexer { spec, text: text.into(), at: 0, index: 0, stopped: false, breaks: text.bytes().enumerate().filter(|b| b.1 == b'\n').map(|b| b.0).collect() } }
    fn place(&self, at: usize) -> (usize, usize) {
        let line = self.breaks.partition_point(|b| *b < at);
        (line, if line == 0 { at } else { at - self.breaks[line - 1] - 1 })
    }
    pub fn scan(&mut self) -> Option<Tok> {
        if self.at == self.text.len() {
            if !self.spec.stop || self.stopped { return None; }
            self.stopped = true;
            let p = self.place(self.at);
            return Some(Tok { ty: 1, name: "_STOP".into(), text: "_STOP".into(), a: self.at, b: self.at, start: p, end: p, index: self.index, channel: 0 });
        }
        let mut best: Option<(usize, usize)> = None;
        for (k, r) in self.spec.rules.iter().enumerate() {
            if let Some(m) = r.2.find(&self.text[self.at..]) {
                if m.start() == 0 && m.end() > best.map_or(0, |b| b.0) { best = Some((m.end(), k)); }
            }
        }
        let (len, k) = best?;
        let (a, b) = (self.at, self.at + len);
        let r = &self.spec.rules[k];
        let t = Tok { ty: r.0, name: r.1.clone(), text: self.text[a..b].into(), a, b, start: self.place(a), end: self.place(b), index: self.index, channel: 0 };
        self.at = b; self.index += 1;
        Some(t)
    }
    pub fn scan_all(&mut self, channel: usize) -> Vec<Tok> {
        let mut v = vec![];
        while let Some(t) = self.scan() { if !self.spec.skip.contains(&t.ty) && t.channel == channel { v.push(t); } }
        v
    }
    pub fn stuck(&self) -> bool { self.at < self.text.len() }
    pub fn rest(&self) -> &str { &self.text[self.at..] }
}

fn table(first: usize, t: &[(&str, &str)]) -> Vec<(usize, String, Regex)> { t.iter().enumerate().map(|(i, (n, r))| (first + i, n.to_string(), Regex::new(&format!("^(?:{})", r)).unwrap())).collect() }
const STR_V1: &str = r"'([^\a\d\n\r\t\f\v\\']|(\\\\|\\'|\\a|\\d|\\n|\\r|\\t|\\f|\\v|\\u\{(0x|0)?[a-f0-9]+\})|\d)*'";
pub fn v1() -> Spec {
    Spec { rules: table(2, &[("RULE_REF", "[a-z][a-zA-Z0-9_]+"), ("TOKEN_REF", "[A-Z][a-zA-Z0-9_]+"), ("COLON", "::=|:=|->|=>|:|="), ("SEMI", ";"), ("OR", r"\|"),
        ("EPSILON", "ε|epsilon"), ("STAR", r"\*"), ("PLUS", r"\+"), ("QUESTION", r"\?"), ("LPAREN", r"\("), ("RPAREN", r"\)"),
        ("STRING_LITERAL", STR_V1), ("REGULAR_LITERAL", r"/(\\/|[^/])+/"), ("WHITE_SPACE", r"[ \r\n\t\f]+")]), skip: vec![15], stop: true }
}
pub fn hand() -> Spec {
    Spec { rules: table(2, &[("LINE_COMMENT", r"//.*?\n"), ("BLOCK_COMMENT", r"(?s)/\*.*?\*/"), ("WS", r"[ \t\r\n]+"), ("FRAGMENT", "fragment"), ("TOKEN_REF", "[A-Z][a-zA-Z0-9_]+"),
        ("RULE_REF", "[a-z][a-zA-Z0-9_]+"), ("COLON", "::=|:=|->|=>|:|="), ("OR", r"\|"), ("SEMI", ";"), ("STAR", r"\*"), ("PLUS", r"\+"), ("QUESTION", r"\?"), ("DOT", r"\."), ("NOT", "~"),
        ("LPAREN", r"\("), ("RPAREN", r"\)"), ("POUND", "#"), ("STRING_LITERAL", STR_V1), ("RANGE", r"\.\."), ("REGULAR_LITERAL", r"/(\\/|[^/])+/"), ("EPSILON", "ε|epsilon")]), skip: vec![2, 3, 4], stop: false }
}
