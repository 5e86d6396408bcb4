//! Texts of the specification (sequences of one-character strings, longer
//! names for characters outside ASCII) and how they map to real text.
use serde_json::Value;

pub struct Text {
    pub s: String,
    /// byte offset of every character, and of the end
    off: Vec<usize>,
    /// what to put in the place of some ranges of bytes, in order
    fills: Vec<(usize, usize, String)>,
}

pub fn real_char(name: &str) -> &str {
    match name {
        "u2" => "é",
        "u3" => "漢",
        "u4" => "😀",
        "us" => "\u{a0}",
        "uw" => "\u{3000}",
        "uc" => "\u{301}",
        "ul" => "\u{2028}",
        "cl" => "\u{85}",
        "vt" => "\u{b}",
        "ff" => "\u{c}",
        "nul" => "\u{0}",
        "bs" => "\\",
        x => x,
    }
}

impl Text {
    pub fn new(v: &Value) -> Self {
        let mut s = String::new();
        let mut off = vec![0];
        if let Value::String(x) = v {
            for c in x.chars() {
                s.push(c);
                off.push(s.len());
            }
        } else {
            for c in v.as_array().expect("text is an array") {
                s.push_str(real_char(c.as_str().expect("char")));
                off.push(s.len());
            }
        }
        Self { s, off, fills: vec![] }
    }
    /// the text of the range << a, z >>
    pub fn rng(&self, v: &Value) -> String {
        let a = v.as_array().expect("range");
        self.sub(num(&a[0]), num(&a[1]))
    }
    pub fn sub(&self, a: usize, z: usize) -> String {
        let (mut a, z) = (self.off[a - 1], self.off[z - 1]);
        let mut out = String::new();
        for (x, y, v) in &self.fills {
            if *x >= a && *y <= z {
                out.push_str(&self.s[a..*x]);
                out.push_str(v);
                a = *y;
            }
        }
        out.push_str(&self.s[a..z]);
        out
    }
    /// from now on, the range a .. z reads as v
    #[allow(dead_code)]
    pub fn fill(&mut self, a: usize, z: usize, v: String) {
        self.fills.push((self.off[a - 1], self.off[z - 1], v));
    }
    /// region of the value << kind, a, z, d, ... >>
    pub fn region(&self, v: &[Value]) -> (usize, usize, usize) {
        let (a, z) = (self.off[num(&v[1]) - 1], self.off[num(&v[2]) - 1]);
        (a, z - a, num(&v[3]))
    }
}

pub fn num(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("number, got {}", v)) as usize
}
pub fn arr(v: &Value) -> &[Value] {
    match v {
        Value::Array(x) => x,
        _ => panic!("array, got {}", v),
    }
}
pub fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("string, got {}", v))
}
