//! Reads debug representations back into trees.
//!
//!   {"k":"num","v":limbs}   a decimal or hexadecimal number
//!   {"k":"bool","v":[0|1]}
//!   {"k":"str","v":[length, bytes..],"n":text}
//!   {"k":"id","n":name}                      a bare name
//!   {"k":"tup","n":name,"f":[tree..]}
//!   {"k":"rec","n":name,"f":[{"n":field,"t":tree}..]}
//!   {"k":"list","f":[tree..]}
//!   {"k":"flags","n":[lower case names..],"v":limbs of the unnamed rest}
//!   {"k":"other"}                            anything else
use crate::enc::{num, Enc};
use serde_json::{json, Value};

/// Text as the specification writes it.
pub fn plain(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            ' '..='~' => c.to_string(),
            c => format!("{{u{:x}}}", c as u32),
        })
        .collect()
}

pub fn text(s: &str) -> Value {
    json!({"k": "str", "v": s.enc(), "n": plain(s)})
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        (self.peek() == c).then(|| self.i += 1)
    }
    fn word(&mut self) -> &str {
        self.ws();
        let a = self.i;
        while self.i < self.s.len()
            && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_')
        {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[a..self.i]).unwrap()
    }
    fn string(&mut self) -> Option<Value> {
        self.eat(b'"')?;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = *self.s.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    let e = *self.s.get(self.i)?;
                    self.i += 1;
                    match e {
                        b'n' => out.push(b'\n'),
                        b't' => out.push(b'\t'),
                        b'r' => out.push(b'\r'),
                        b'0' => out.push(0),
                        b'u' => {
                            self.eat(b'{')?;
                            let x = u32::from_str_radix(self.word(), 16).ok()?;
                            self.eat(b'}')?;
                            out.extend(char::from_u32(x)?.to_string().bytes());
                        }
                        c => out.push(c),
                    }
                }
                c => out.push(c),
            }
        }
        Some(text(std::str::from_utf8(&out).ok()?))
    }
    fn seq(&mut self, close: u8) -> Option<Vec<Value>> {
        let mut out = vec![];
        loop {
            if self.peek() == close {
                self.i += 1;
                return Some(out);
            }
            out.push(self.value()?);
            if self.peek() == b',' {
                self.i += 1;
            }
        }
    }
    /// Names and numbers separated by bars, up to the closing parenthesis.
    fn flags(&mut self) -> Option<Value> {
        let (mut names, mut rest) = (vec![], 0u128);
        loop {
            let w = self.word();
            if w.is_empty() {
                return None;
            }
            match number(w) {
                Some(x) => rest |= x,
                None => names.push(w.to_lowercase()),
            }
            match self.peek() {
                b'|' => self.i += 1,
                b',' => self.i += 1,
                b')' => {
                    self.i += 1;
                    return Some(json!({"k": "flags", "n": names, "v": num(rest)}));
                }
                _ => return None,
            }
            if self.peek() == b')' {
                self.i += 1;
                return Some(json!({"k": "flags", "n": names, "v": num(rest)}));
            }
        }
    }
    fn value(&mut self) -> Option<Value> {
        match self.peek() {
            b'"' => self.string(),
            b'[' => {
                self.i += 1;
                Some(json!({"k": "list", "f": self.seq(b']')?}))
            }
            b'(' => {
                self.i += 1;
                Some(json!({"k": "tup", "n": "", "f": self.seq(b')')?}))
            }
            _ => {
                let w = self.word().to_string();
                if w.is_empty() {
                    return None;
                }
                if let Some(x) = number(&w) {
                    return Some(json!({"k": "num", "v": num(x)}));
                }
                if w == "true" || w == "false" {
                    return Some(json!({"k": "bool", "v": [(w == "true") as i64]}));
                }
                match self.peek() {
                    b'(' => {
                        let start = self.i;
                        self.i += 1;
                        if self.barred() {
                            return self.flags();
                        }
                        self.i = start + 1;
                        Some(json!({"k": "tup", "n": w, "f": self.seq(b')')?}))
                    }
                    b'{' => {
                        self.i += 1;
                        let mut f = vec![];
                        while self.peek() != b'}' {
                            if self.s[self.i..].starts_with(b"..") {
                                self.i += 2;
                                continue;
                            }
                            let n = self.word().to_string();
                            self.eat(b':')?;
                            f.push(json!({"n": n, "t": self.value()?}));
                            if self.peek() == b',' {
                                self.i += 1;
                            }
                        }
                        self.i += 1;
                        Some(json!({"k": "rec", "n": w, "f": f}))
                    }
                    _ => Some(json!({"k": "id", "n": w})),
                }
            }
        }
    }
    /// Is what follows, up to the parenthesis, a set of flags: names in capitals?
    fn barred(&self) -> bool {
        let rest = &self.s[self.i..];
        let end = rest.iter().position(|&c| c == b')').unwrap_or(0);
        let t = &rest[..end];
        let named = t.iter().any(|c| c.is_ascii_uppercase());
        named
            && t.iter().all(|c| {
                c.is_ascii_uppercase()
                    || c.is_ascii_digit()
                    || c.is_ascii_whitespace()
                    || b"_|xabcdef,".contains(c)
            })
            && !t.is_empty()
    }
}

fn number(w: &str) -> Option<u128> {
    match w.strip_prefix("0x") {
        Some(h) => u128::from_str_radix(h, 16).ok(),
        None => w.parse().ok(),
    }
}

/// The tree of a debug representation.
pub fn tree(s: &str) -> Value {
    let mut p = P {
        s: s.as_bytes(),
        i: 0,
    };
    match p.value() {
        Some(v) if p.peek() == 0 => v,
        _ => json!({"k": "other"}),
    }
}

/// The trees of both debug representations, and whether they agree.
pub fn trees<T: std::fmt::Debug>(v: &T) -> (Value, bool) {
    let a = tree(&format!("{:?}", v));
    let b = tree(&format!("{:#?}", v));
    let same = a == b;
    (a, same)
}
