//! Just enough JSON to write evidence and to read replays.

#[derive(Clone, Debug)]
pub enum J {
    S(String),
    I(i64),
    U(u64),
    F(f64),
    B(bool),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
    /// Text that is JSON already.
    Raw(String),
}

impl J {
    pub fn s(s: &str) -> J {
        J::S(s.to_string())
    }
    pub fn n(n: u64) -> J {
        J::U(n)
    }
    pub fn obj(v: Vec<(&str, J)>) -> J {
        J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    fn str(s: &str, out: &mut String) {
        out.push('"');
        for c in s.chars() {
            match c {
                '"' => out.push_str("\\\""),
                '\\' => out.push_str("\\\\"),
                '\n' => out.push_str("\\n"),
                '\t' => out.push_str("\\t"),
                c if (c as u32) < 0x20 || (c as u32) == 0x7F => out.push_str(&format!("\\u{:04x}", c as u32)),
                c => out.push(c),
            }
        }
        out.push('"');
    }
    fn put(&self, ind: usize, out: &mut String) {
        match self {
            J::S(s) => J::str(s, out),
            J::I(n) => out.push_str(&n.to_string()),
            J::U(n) => out.push_str(&n.to_string()),
            J::F(n) => out.push_str(&format!("{}", n)),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Arr(v) => {
                let flat = v.iter().all(|x| !matches!(x, J::Arr(_) | J::Obj(_)));
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    if !flat {
                        out.push('\n');
                        out.push_str(&" ".repeat(ind + 1));
                    }
                    x.put(ind + 1, out);
                }
                out.push(']');
            }
            J::Raw(s) => out.push_str(&s.trim_end().replace('\n', &format!("\n{}", " ".repeat(ind)))),
            J::Obj(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push('\n');
                    out.push_str(&" ".repeat(ind + 1));
                    J::str(k, out);
                    out.push_str(": ");
                    x.put(ind + 1, out);
                }
                out.push('\n');
                out.push_str(&" ".repeat(ind));
                out.push('}');
            }
        }
    }
    /// A number of an object.
    pub fn number(&self, key: &str) -> u64 {
        field(&self.pretty(), key).and_then(|n| n.parse().ok()).unwrap_or(0)
    }
    pub fn pretty(&self) -> String {
        let mut s = String::new();
        self.put(0, &mut s);
        s.push('\n');
        s
    }
}

/// The text of a scalar field of a replay file, and of its list of choices.
pub fn field(text: &str, key: &str) -> Option<String> {
    let at = text.find(&format!("\"{}\": ", key))? + key.len() + 4;
    let rest = &text[at..];
    Some(if let Some(r) = rest.strip_prefix('"') {
        r[..r.find('"')?].to_string()
    } else if let Some(r) = rest.strip_prefix('[') {
        r[..r.find(']')?].replace(',', " ")
    } else {
        rest.chars().take_while(|c| c.is_ascii_digit() || *c == '-').collect()
    })
}
