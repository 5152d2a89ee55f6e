//! Stand-in for `toml`: the part of TOML that lock files use. Tables are
//! ordered by key, as the real crate does without `preserve_order`.
use serde::{de::DeserializeOwned, Serialize};
use std::collections::BTreeMap;
use std::fmt;

#[derive(Debug, Clone, PartialEq)]
pub enum Value {
    String(String),
    Integer(i64),
    Float(f64),
    Boolean(bool),
    Array(Vec<Value>),
    Table(Table),
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Table(BTreeMap<String, Value>);

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
fn err<T>(m: impl Into<String>) -> Result<T, Error> {
    Err(Error(m.into()))
}

impl Value {
    pub fn as_array(&self) -> Option<&Vec<Value>> {
        if let Value::Array(a) = self { Some(a) } else { None }
    }
    pub fn as_table(&self) -> Option<&Table> {
        if let Value::Table(a) = self { Some(a) } else { None }
    }
    pub fn as_table_mut(&mut self) -> Option<&mut Table> {
        if let Value::Table(a) = self { Some(a) } else { None }
    }
    pub fn as_str(&self) -> Option<&str> {
        if let Value::String(a) = self { Some(a) } else { None }
    }
    fn from_json(v: serde_json::Value) -> Result<Option<Value>, Error> {
        use serde_json::Value as J;
        Ok(Some(match v {
            J::Null => return Ok(None),
            J::Bool(b) => Value::Boolean(b),
            J::String(s) => Value::String(s),
            J::Number(n) => match n.as_i64() {
                Some(i) => Value::Integer(i),
                None => Value::Float(n.as_f64().ok_or_else(|| Error("out of range".into()))?),
            },
            J::Array(a) => {
                let mut v = vec![];
                for x in a {
                    match Value::from_json(x)? {
                        Some(x) => v.push(x),
                        None => return err("unsupported None value"),
                    }
                }
                Value::Array(v)
            }
            J::Object(o) => {
                let mut t = Table::default();
                for (k, x) in o {
                    if let Some(x) = Value::from_json(x)? {
                        t.0.insert(k, x);
                    }
                }
                Value::Table(t)
            }
        }))
    }
    fn into_json(self) -> serde_json::Value {
        use serde_json::Value as J;
        match self {
            Value::String(s) => J::String(s),
            Value::Integer(i) => J::from(i),
            Value::Float(i) => J::from(i),
            Value::Boolean(b) => J::Bool(b),
            Value::Array(a) => J::Array(a.into_iter().map(|x| x.into_json()).collect()),
            Value::Table(t) => J::Object(t.0.into_iter().map(|(k, v)| (k, v.into_json())).collect()),
        }
    }
    fn tables(&self) -> bool {
        matches!(self, Value::Array(a) if !a.is_empty() && a.iter().all(|x| matches!(x, Value::Table(_))))
    }
    fn inline(&self, o: &mut String) {
        match self {
            Value::String(s) => quote(s, o),
            Value::Integer(i) => o.push_str(&i.to_string()),
            Value::Float(f) => o.push_str(&format!("{f:?}")),
            Value::Boolean(b) => o.push_str(&b.to_string()),
            Value::Array(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    x.inline(o);
                }
                o.push(']');
            }
            Value::Table(t) => {
                o.push_str("{ ");
                for (i, (k, x)) in t.0.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    key(k, o);
                    o.push_str(" = ");
                    x.inline(o);
                }
                o.push_str(" }");
            }
        }
    }
}
impl From<Table> for Value {
    fn from(t: Table) -> Self {
        Value::Table(t)
    }
}
impl From<String> for Value {
    fn from(t: String) -> Self {
        Value::String(t)
    }
}
fn quote(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if c.is_control() => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}
fn key(k: &str, o: &mut String) {
    if !k.is_empty() && k.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || b == b'-') {
        o.push_str(k)
    } else {
        quote(k, o)
    }
}

impl Table {
    pub fn new() -> Self {
        Table::default()
    }
    pub fn try_from<T: Serialize>(t: T) -> Result<Self, Error> {
        match Value::from_json(serde_json::to_value(t).map_err(|e| Error(e.to_string()))?)? {
            Some(Value::Table(t)) => Ok(t),
            _ => err("not a table"),
        }
    }
    pub fn get(&self, k: &str) -> Option<&Value> {
        self.0.get(k)
    }
    pub fn insert(&mut self, k: String, v: Value) -> Option<Value> {
        self.0.insert(k, v)
    }
    pub fn remove(&mut self, k: &str) -> Option<Value> {
        self.0.remove(k)
    }
    fn emit(&self, path: &mut Vec<String>, o: &mut String) {
        for (k, v) in &self.0 {
            if matches!(v, Value::Table(_)) || v.tables() {
                continue;
            }
            key(k, o);
            o.push_str(" = ");
            v.inline(o);
            o.push('\n');
        }
        for (k, v) in &self.0 {
            let list: Vec<(&Table, bool)> = match v {
                Value::Table(t) => vec![(t, false)],
                Value::Array(a) if v.tables() => a.iter().map(|t| (t.as_table().unwrap(), true)).collect(),
                _ => continue,
            };
            path.push(k.clone());
            for (t, array) in list {
                // a table that holds nothing but tables needs no header
                let bare = !array && !t.0.is_empty() && t.0.values().all(|v| matches!(v, Value::Table(_)) || v.tables());
                if !bare {
                    if !o.is_empty() {
                        o.push('\n');
                    }
                    o.push_str(if array { "[[" } else { "[" });
                    for (i, p) in path.iter().enumerate() {
                        if i > 0 {
                            o.push('.');
                        }
                        key(p, o);
                    }
                    o.push_str(if array { "]]\n" } else { "]\n" });
                }
                t.emit(path, o);
            }
            path.pop();
        }
    }
}
impl fmt::Display for Table {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut s = String::new();
        self.emit(&mut vec![], &mut s);
        f.write_str(&s)
    }
}

pub fn from_str<T: DeserializeOwned>(s: &str) -> Result<T, Error> {
    let mut p = Parser { s: s.as_bytes(), i: 0 };
    let t = p.document()?;
    serde_json::from_value(Value::Table(t).into_json()).map_err(|e| Error(e.to_string()))
}

struct Parser<'a> {
    s: &'a [u8],
    i: usize,
}
impl Parser<'_> {
    fn peek(&self) -> u8 {
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn eof(&self) -> bool {
        self.i >= self.s.len()
    }
    /// Blanks, and with `nl` line ends and comments.
    fn blank(&mut self, nl: bool) {
        while !self.eof() {
            match self.peek() {
                b' ' | b'\t' => self.i += 1,
                b'\n' | b'\r' if nl => self.i += 1,
                b'#' => {
                    while !self.eof() && self.peek() != b'\n' {
                        self.i += 1;
                    }
                    if !nl {
                        return;
                    }
                }
                _ => return,
            }
        }
    }
    fn eat(&mut self, c: u8) -> Result<(), Error> {
        if self.eof() || self.peek() != c {
            return err(format!("expected `{}` at {}", c as char, self.i));
        }
        self.i += 1;
        Ok(())
    }
    fn key(&mut self) -> Result<String, Error> {
        self.blank(false);
        if self.peek() == b'"' || self.peek() == b'\'' {
            return self.string();
        }
        let a = self.i;
        while self.peek().is_ascii_alphanumeric() || self.peek() == b'_' || self.peek() == b'-' {
            self.i += 1;
        }
        if a == self.i {
            return err(format!("expected a key at {a}"));
        }
        Ok(String::from_utf8(self.s[a..self.i].to_vec()).unwrap())
    }
    fn dotted(&mut self) -> Result<Vec<String>, Error> {
        let mut v = vec![self.key()?];
        loop {
            self.blank(false);
            if self.peek() != b'.' {
                return Ok(v);
            }
            self.i += 1;
            v.push(self.key()?);
        }
    }
    fn string(&mut self) -> Result<String, Error> {
        let q = self.peek();
        self.i += 1;
        let mut o = vec![];
        loop {
            if self.eof() || self.peek() == b'\n' {
                return err("unterminated string");
            }
            let c = self.peek();
            self.i += 1;
            if c == q {
                return String::from_utf8(o).map_err(|e| Error(e.to_string()));
            }
            if c != b'\\' || q == b'\'' {
                o.push(c);
                continue;
            }
            let c = self.peek();
            self.i += 1;
            o.push(match c {
                b'n' => b'\n',
                b'r' => b'\r',
                b't' => b'\t',
                b'b' => 8,
                b'f' => 12,
                b'"' | b'\\' => c,
                b'u' | b'U' => {
                    let n = if c == b'u' { 4 } else { 8 };
                    let h = self.s.get(self.i..self.i + n).ok_or_else(|| Error("bad escape".into()))?;
                    let h = std::str::from_utf8(h).ok().and_then(|h| u32::from_str_radix(h, 16).ok()).and_then(char::from_u32);
                    self.i += n;
                    let h = h.ok_or_else(|| Error("bad escape".into()))?;
                    o.extend(h.to_string().bytes());
                    continue;
                }
                _ => return err("bad escape"),
            });
        }
    }
    fn value(&mut self) -> Result<Value, Error> {
        self.blank(true);
        Ok(match self.peek() {
            b'"' | b'\'' => Value::String(self.string()?),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.blank(true);
                    if self.peek() == b']' {
                        self.i += 1;
                        return Ok(Value::Array(v));
                    }
                    v.push(self.value()?);
                    self.blank(true);
                    if self.peek() == b',' {
                        self.i += 1;
                    } else if self.peek() != b']' {
                        return err("expected `,` or `]`");
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut t = Table::default();
                loop {
                    self.blank(true);
                    if self.peek() == b'}' {
                        self.i += 1;
                        return Ok(Value::Table(t));
                    }
                    self.pair(&mut t)?;
                    self.blank(true);
                    if self.peek() == b',' {
                        self.i += 1;
                    } else if self.peek() != b'}' {
                        return err("expected `,` or `}`");
                    }
                }
            }
            _ => {
                let a = self.i;
                while self.peek().is_ascii_alphanumeric() || b"+-_.".contains(&self.peek()) && !self.eof() {
                    self.i += 1;
                }
                let w = std::str::from_utf8(&self.s[a..self.i]).unwrap().replace('_', "");
                match w.as_str() {
                    "true" => Value::Boolean(true),
                    "false" => Value::Boolean(false),
                    w => match (w.parse(), w.parse()) {
                        (Ok(i), _) => Value::Integer(i),
                        (_, Ok(f)) => Value::Float(f),
                        _ => return err(format!("invalid value at {a}")),
                    },
                }
            }
        })
    }
    fn pair(&mut self, t: &mut Table) -> Result<(), Error> {
        let mut k = self.dotted()?;
        self.blank(false);
        self.eat(b'=')?;
        let v = self.value()?;
        let last = k.pop().unwrap();
        let t = descend(t, &k)?;
        if t.0.insert(last, v).is_some() {
            return err("duplicate key");
        }
        Ok(())
    }
    fn document(&mut self) -> Result<Table, Error> {
        let mut root = Table::default();
        let mut at: Vec<String> = vec![];
        let mut seen = std::collections::BTreeSet::new();
        loop {
            self.blank(true);
            if self.eof() {
                return Ok(root);
            }
            if self.peek() == b'[' {
                self.i += 1;
                let array = self.peek() == b'[';
                self.i += array as usize;
                at = self.dotted()?;
                self.eat(b']')?;
                if array {
                    self.eat(b']')?;
                    let (last, pre) = at.split_last().unwrap();
                    let t = descend(&mut root, pre)?;
                    match t.0.entry(last.clone()).or_insert_with(|| Value::Array(vec![])) {
                        Value::Array(a) => a.push(Value::Table(Table::default())),
                        _ => return err("not an array"),
                    }
                    let pre = format!("{at:?}");
                    let pre = &pre[..pre.len() - 1];
                    seen.retain(|s: &String| !s.starts_with(pre));
                } else {
                    descend(&mut root, &at)?;
                    if !seen.insert(format!("{at:?}")) {
                        return err("duplicate table");
                    }
                }
            } else {
                let t = descend(&mut root, &at)?;
                self.pair(t)?;
            }
            self.blank(false);
            if !self.eof() && self.peek() != b'\n' && self.peek() != b'\r' {
                return err(format!("expected newline at {}", self.i));
            }
        }
    }
}
fn descend<'a>(mut t: &'a mut Table, path: &[String]) -> Result<&'a mut Table, Error> {
    for p in path {
        t = match t.0.entry(p.clone()).or_insert_with(|| Value::Table(Table::default())) {
            Value::Table(t) => t,
            Value::Array(a) => match a.last_mut() {
                Some(Value::Table(t)) => t,
                _ => return err("not a table"),
            },
            _ => return err("not a table"),
        };
    }
    Ok(t)
}
