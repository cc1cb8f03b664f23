//! A recognizer that executes ABNF (RFC 5234) text directly.
//!
//! The grammars are kept as the text of the RFCs, and a rule is matched by
//! computing the set of all positions at which it can end. No ambiguity
//! resolution, no prioritised choice, nothing shared with the code under test.

use std::collections::HashMap;

const W: usize = 5;
/// Longest input in characters.
pub const MAX_CHARS: usize = W * 64 - 1;

#[derive(Clone, Copy, PartialEq, Eq)]
struct Bits([u64; W]);
impl Bits {
    const EMPTY: Bits = Bits([0; W]);
    fn one(i: usize) -> Bits {
        let mut b = Bits::EMPTY;
        b.0[i / 64] |= 1 << (i % 64);
        b
    }
    fn get(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    fn is_empty(&self) -> bool {
        self.0.iter().all(|x| *x == 0)
    }
    fn or(self, o: Bits) -> Bits {
        let mut r = self;
        for i in 0..W {
            r.0[i] |= o.0[i];
        }
        r
    }
    fn and(self, o: Bits) -> Bits {
        let mut r = self;
        for i in 0..W {
            r.0[i] &= o.0[i];
        }
        r
    }
    fn minus(self, o: Bits) -> Bits {
        let mut r = self;
        for i in 0..W {
            r.0[i] &= !o.0[i];
        }
        r
    }
    fn shl1(self) -> Bits {
        let mut r = Bits::EMPTY;
        let mut carry = 0;
        for i in 0..W {
            r.0[i] = self.0[i] << 1 | carry;
            carry = self.0[i] >> 63;
        }
        r
    }
}

#[derive(Debug, Clone)]
enum Node {
    /// A class of single characters: ranges.
    Class(usize),
    Ref(usize),
    Cat(Vec<Node>),
    Alt(Vec<Node>),
    Rep(usize, usize, Box<Node>),
}

pub struct Grammar {
    rules: HashMap<String, usize>,
    names: Vec<String>,
    bodies: Vec<Option<Node>>,
    classes: Vec<Vec<(u32, u32)>>,
}

impl Grammar {
    /// Parses the concatenated ABNF texts. Later definitions replace earlier ones.
    pub fn parse(texts: &[&str]) -> Grammar {
        let mut g = Grammar {
            rules: HashMap::new(),
            names: Vec::new(),
            bodies: Vec::new(),
            classes: Vec::new(),
        };
        for text in texts {
            // Join continuation lines.
            let mut rules: Vec<String> = Vec::new();
            for line in text.lines() {
                let line = match line.find(';') {
                    // A `;` inside quotes is kept.
                    Some(p) if line[..p].matches('"').count() % 2 == 0 => &line[..p],
                    _ => line,
                };
                if line.trim().is_empty() {
                    continue;
                }
                if line.starts_with(' ') {
                    rules.last_mut().expect("continuation").push_str(line);
                } else {
                    rules.push(line.to_string());
                }
            }
            for r in rules {
                let (name, body) = r.split_once('=').expect("rule");
                let idx = g.rule_idx(name.trim());
                let toks: Vec<char> = body.chars().collect();
                let mut p = 0;
                let node = g.parse_alt(&toks, &mut p);
                assert!(p >= toks.len(), "trailing ABNF in {r:?}");
                g.bodies[idx] = Some(node);
            }
        }
        for (i, b) in g.bodies.iter().enumerate() {
            assert!(b.is_some(), "undefined ABNF rule {}", g.names[i]);
        }
        // Collapse rules that are pure character classes.
        for i in 0..g.bodies.len() {
            if let Some(ranges) = g.as_class(&Node::Ref(i), 0) {
                g.classes.push(ranges);
                let c = g.classes.len() - 1;
                g.bodies[i] = Some(Node::Class(c));
            }
        }
        g
    }

    fn as_class(&self, n: &Node, depth: usize) -> Option<Vec<(u32, u32)>> {
        if depth > 30 {
            return None;
        }
        match n {
            Node::Class(c) => Some(self.classes[*c].clone()),
            Node::Ref(r) => self.as_class(self.bodies[*r].as_ref().unwrap(), depth + 1),
            Node::Alt(v) => {
                let mut out = Vec::new();
                for x in v {
                    out.extend(self.as_class(x, depth + 1)?);
                }
                Some(out)
            }
            Node::Cat(v) if v.len() == 1 => self.as_class(&v[0], depth + 1),
            _ => None,
        }
    }

    fn rule_idx(&mut self, name: &str) -> usize {
        let key = name.to_ascii_lowercase();
        if let Some(i) = self.rules.get(&key) {
            return *i;
        }
        self.names.push(key.clone());
        self.bodies.push(None);
        self.rules.insert(key, self.names.len() - 1);
        self.names.len() - 1
    }

    fn class(&mut self, ranges: Vec<(u32, u32)>) -> Node {
        self.classes.push(ranges);
        Node::Class(self.classes.len() - 1)
    }

    fn skip(t: &[char], p: &mut usize) {
        while *p < t.len() && t[*p].is_whitespace() {
            *p += 1;
        }
    }

    fn parse_alt(&mut self, t: &[char], p: &mut usize) -> Node {
        let mut alts = vec![self.parse_cat(t, p)];
        loop {
            Self::skip(t, p);
            if *p < t.len() && t[*p] == '/' {
                *p += 1;
                alts.push(self.parse_cat(t, p));
            } else {
                return if alts.len() == 1 {
                    alts.pop().unwrap()
                } else {
                    Node::Alt(alts)
                };
            }
        }
    }

    fn parse_cat(&mut self, t: &[char], p: &mut usize) -> Node {
        let mut items = Vec::new();
        loop {
            Self::skip(t, p);
            if *p >= t.len() || matches!(t[*p], '/' | ')' | ']') {
                return if items.len() == 1 {
                    items.pop().unwrap()
                } else {
                    Node::Cat(items)
                };
            }
            items.push(self.parse_rep(t, p));
        }
    }

    fn number(t: &[char], p: &mut usize) -> Option<usize> {
        let start = *p;
        while *p < t.len() && t[*p].is_ascii_digit() {
            *p += 1;
        }
        if start == *p {
            None
        } else {
            Some(t[start..*p].iter().collect::<String>().parse().unwrap())
        }
    }

    fn parse_rep(&mut self, t: &[char], p: &mut usize) -> Node {
        let lo = Self::number(t, p);
        if *p < t.len() && t[*p] == '*' {
            *p += 1;
            let hi = Self::number(t, p);
            let el = self.parse_element(t, p);
            return Node::Rep(lo.unwrap_or(0), hi.unwrap_or(usize::MAX), Box::new(el));
        }
        let el = self.parse_element(t, p);
        match lo {
            Some(n) => Node::Rep(n, n, Box::new(el)),
            None => el,
        }
    }

    fn parse_element(&mut self, t: &[char], p: &mut usize) -> Node {
        match t[*p] {
            '(' => {
                *p += 1;
                let n = self.parse_alt(t, p);
                Self::skip(t, p);
                assert_eq!(t[*p], ')');
                *p += 1;
                n
            }
            '[' => {
                *p += 1;
                let n = self.parse_alt(t, p);
                Self::skip(t, p);
                assert_eq!(t[*p], ']');
                *p += 1;
                Node::Rep(0, 1, Box::new(n))
            }
            '"' => {
                *p += 1;
                let mut items = Vec::new();
                while t[*p] != '"' {
                    let c = t[*p];
                    // ABNF strings are case insensitive.
                    let mut r = vec![(c as u32, c as u32)];
                    if c.is_ascii_alphabetic() {
                        let o = if c.is_ascii_lowercase() {
                            c.to_ascii_uppercase()
                        } else {
                            c.to_ascii_lowercase()
                        };
                        r.push((o as u32, o as u32));
                    }
                    items.push(self.class(r));
                    *p += 1;
                }
                *p += 1;
                if items.len() == 1 {
                    items.pop().unwrap()
                } else {
                    Node::Cat(items)
                }
            }
            '%' => {
                assert_eq!(t[*p + 1], 'x');
                *p += 2;
                let hex = |p: &mut usize| {
                    let s = *p;
                    while *p < t.len() && t[*p].is_ascii_hexdigit() {
                        *p += 1;
                    }
                    u32::from_str_radix(&t[s..*p].iter().collect::<String>(), 16).unwrap()
                };
                let lo = hex(p);
                let hi = if *p < t.len() && t[*p] == '-' {
                    *p += 1;
                    hex(p)
                } else {
                    lo
                };
                self.class(vec![(lo, hi)])
            }
            '<' => {
                // prose-val of path-empty: 0<pchar>
                while t[*p] != '>' {
                    *p += 1;
                }
                *p += 1;
                Node::Cat(Vec::new())
            }
            c if c.is_ascii_alphabetic() => {
                let s = *p;
                while *p < t.len() && (t[*p].is_ascii_alphanumeric() || t[*p] == '-') {
                    *p += 1;
                }
                let name: String = t[s..*p].iter().collect();
                Node::Ref(self.rule_idx(&name))
            }
            c => panic!("unexpected {c:?} in ABNF"),
        }
    }

    /// Whether the whole of `s` matches the rule.
    pub fn matches(&self, rule: &str, s: &str) -> bool {
        let idx = self.rules[&rule.to_ascii_lowercase()];
        let chars: Vec<u32> = s.chars().map(|c| c as u32).collect();
        assert!(chars.len() <= MAX_CHARS, "input too long for the recognizer");
        let mut m = Matcher {
            g: self,
            chars: &chars,
            masks: vec![None; self.classes.len()],
        };
        let end = m.go(&Node::Ref(idx), Bits::one(0));
        end.get(chars.len())
    }
}

struct Matcher<'a> {
    g: &'a Grammar,
    chars: &'a [u32],
    masks: Vec<Option<Bits>>,
}

impl Matcher<'_> {
    fn go(&mut self, n: &Node, from: Bits) -> Bits {
        if from.is_empty() {
            return from;
        }
        match n {
            Node::Class(c) => {
                let mask = match self.masks[*c] {
                    Some(m) => m,
                    None => {
                        let ranges = &self.g.classes[*c];
                        let mut m = Bits::EMPTY;
                        for (i, ch) in self.chars.iter().enumerate() {
                            if ranges.iter().any(|(lo, hi)| lo <= ch && ch <= hi) {
                                m = m.or(Bits::one(i));
                            }
                        }
                        self.masks[*c] = Some(m);
                        m
                    }
                };
                from.and(mask).shl1()
            }
            Node::Ref(r) => {
                let g = self.g;
                self.go(g.bodies[*r].as_ref().unwrap(), from)
            }
            Node::Cat(v) => v.iter().fold(from, |s, x| self.go(x, s)),
            Node::Alt(v) => v
                .iter()
                .fold(Bits::EMPTY, |acc, x| acc.or(self.go(x, from))),
            Node::Rep(lo, hi, x) => {
                let mut cur = from;
                for _ in 0..*lo {
                    cur = self.go(x, cur);
                }
                let mut acc = cur;
                let mut frontier = cur;
                let mut k = *lo;
                while k < *hi {
                    frontier = self.go(x, frontier);
                    if *hi == usize::MAX {
                        frontier = frontier.minus(acc);
                    }
                    if frontier.is_empty() {
                        break;
                    }
                    acc = acc.or(frontier);
                    k += 1;
                }
                acc
            }
        }
    }
}
