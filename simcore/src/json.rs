//! A very small JSON value, writer and parser (the harness must build offline and small).
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum J {
    Null,
    B(bool),
    I(i64),
    F(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn s(v: impl Into<String>) -> J {
        J::S(v.into())
    }
    pub fn from_map(m: &BTreeMap<String, u64>) -> J {
        J::O(m.iter().map(|(k, v)| (k.clone(), J::I(*v as i64))).collect())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(o) => o.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn as_str(&self) -> Option<&str> {
        match self {
            J::S(s) => Some(s),
            _ => None,
        }
    }
    pub fn as_i(&self) -> Option<i64> {
        match self {
            J::I(v) => Some(*v),
            J::F(v) => Some(*v as i64),
            _ => None,
        }
    }
    pub fn as_a(&self) -> Option<&Vec<J>> {
        match self {
            J::A(v) => Some(v),
            _ => None,
        }
    }
    pub fn as_o(&self) -> Option<&Vec<(String, J)>> {
        match self {
            J::O(v) => Some(v),
            _ => None,
        }
    }
    pub fn dump(&self) -> String {
        let mut out = String::new();
        self.write(&mut out, 0, false);
        out
    }
    pub fn pretty(&self) -> String {
        let mut out = String::new();
        self.write(&mut out, 0, true);
        out.push('\n');
        out
    }
    fn scalar_array(v: &[J]) -> bool {
        v.iter().all(|x| matches!(x, J::I(_) | J::F(_) | J::B(_)))
    }
    fn write(&self, out: &mut String, ind: usize, pretty: bool) {
        let nl = |out: &mut String, n: usize| {
            if pretty {
                out.push('\n');
                for _ in 0..n {
                    out.push(' ');
                }
            }
        };
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::I(v) => out.push_str(&v.to_string()),
            J::F(v) => {
                if v.is_finite() {
                    out.push_str(&format!("{:.3}", v))
                } else {
                    out.push_str("null")
                }
            }
            J::S(s) => write_str(out, s),
            J::A(v) => {
                let flat = J::scalar_array(v);
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    if !flat {
                        nl(out, ind + 1);
                    }
                    x.write(out, ind + 1, pretty);
                }
                if !v.is_empty() && !flat {
                    nl(out, ind);
                }
                out.push(']');
            }
            J::O(o) => {
                out.push('{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    nl(out, ind + 1);
                    write_str(out, k);
                    out.push(':');
                    if pretty {
                        out.push(' ');
                    }
                    x.write(out, ind + 1, pretty);
                }
                if !o.is_empty() {
                    nl(out, ind);
                }
                out.push('}');
            }
        }
    }
    pub fn parse(t: &str) -> Option<J> {
        let b: Vec<char> = t.chars().collect();
        let mut i = 0;
        let v = parse_v(&b, &mut i)?;
        Some(v)
    }
}

fn write_str(out: &mut String, s: &str) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\t' => out.push_str("\\t"),
            '\r' => out.push_str("\\r"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && b[*i].is_whitespace() {
        *i += 1;
    }
}

fn parse_s(b: &[char], i: &mut usize) -> Option<String> {
    if b.get(*i) != Some(&'"') {
        return None;
    }
    *i += 1;
    let mut s = String::new();
    while *i < b.len() {
        let c = b[*i];
        *i += 1;
        match c {
            '"' => return Some(s),
            '\\' => {
                let e = *b.get(*i)?;
                *i += 1;
                match e {
                    'n' => s.push('\n'),
                    't' => s.push('\t'),
                    'r' => s.push('\r'),
                    'u' => {
                        let h: String = b.get(*i..*i + 4)?.iter().collect();
                        *i += 4;
                        s.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                    }
                    c => s.push(c),
                }
            }
            c => s.push(c),
        }
    }
    None
}

fn parse_v(b: &[char], i: &mut usize) -> Option<J> {
    ws(b, i);
    match *b.get(*i)? {
        '"' => parse_s(b, i).map(J::S),
        '[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b.get(*i) == Some(&']') {
                    *i += 1;
                    return Some(J::A(v));
                }
                if b.get(*i) == Some(&',') {
                    *i += 1;
                    continue;
                }
                v.push(parse_v(b, i)?);
            }
        }
        '{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b.get(*i) == Some(&'}') {
                    *i += 1;
                    return Some(J::O(v));
                }
                if b.get(*i) == Some(&',') {
                    *i += 1;
                    continue;
                }
                let k = parse_s(b, i)?;
                ws(b, i);
                if b.get(*i) != Some(&':') {
                    return None;
                }
                *i += 1;
                v.push((k, parse_v(b, i)?));
            }
        }
        _ => {
            let st = *i;
            while *i < b.len() && !",]}".contains(b[*i]) && !b[*i].is_whitespace() {
                *i += 1;
            }
            let t: String = b[st..*i].iter().collect();
            match t.as_str() {
                "null" => Some(J::Null),
                "true" => Some(J::B(true)),
                "false" => Some(J::B(false)),
                _ => t
                    .parse::<i64>()
                    .ok()
                    .map(J::I)
                    .or_else(|| t.parse::<f64>().ok().map(J::F)),
            }
        }
    }
}
