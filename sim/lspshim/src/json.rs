//! A JSON reader without a nesting limit, as editors have: `serde_json` gives up at 128 levels.

use serde_json::{Map, Value};

pub fn parse(text: &[u8]) -> Result<Value, String> {
    let text = std::str::from_utf8(text).map_err(|e| e.to_string())?;
    let mut p = Parser { text, at: 0 };
    let v = p.value()?;
    p.space();
    if p.at == text.len() { Ok(v) } else { Err(format!("trailing characters at {}", p.at)) }
}

struct Parser<'a> {
    text: &'a str,
    at: usize,
}

impl Parser<'_> {
    fn space(&mut self) {
        while matches!(self.peek(), Some(b' ' | b'\t' | b'\r' | b'\n')) {
            self.at += 1;
        }
    }

    fn peek(&self) -> Option<u8> {
        self.text.as_bytes().get(self.at).copied()
    }

    fn take(&mut self, c: u8) -> bool {
        self.space();
        let hit = self.peek() == Some(c);
        self.at += usize::from(hit);
        hit
    }

    fn need(&mut self, c: u8) -> Result<(), String> {
        if self.take(c) { Ok(()) } else { Err(format!("expected {:?} at {}", c as char, self.at)) }
    }

    fn string(&mut self) -> Result<String, String> {
        self.space();
        let start = self.at;
        self.need(b'"')?;
        loop {
            match self.peek() {
                Some(b'\\') => self.at += 2,
                Some(b'"') => break,
                Some(_) => self.at += 1,
                None => return Err("unfinished string".to_owned()),
            }
        }
        self.at += 1;
        let literal = self.text.get(start..self.at).ok_or("unfinished string")?;
        serde_json::from_str(literal).map_err(|e| format!("{e} in {literal}"))
    }

    fn value(&mut self) -> Result<Value, String> {
        self.space();
        match self.peek() {
            Some(b'"') => self.string().map(Value::String),
            Some(b'[') => {
                self.at += 1;
                let mut out = Vec::new();
                if self.take(b']') {
                    return Ok(Value::Array(out));
                }
                loop {
                    out.push(self.value()?);
                    if !self.take(b',') {
                        self.need(b']')?;
                        return Ok(Value::Array(out));
                    }
                }
            }
            Some(b'{') => {
                self.at += 1;
                let mut out = Map::new();
                if self.take(b'}') {
                    return Ok(Value::Object(out));
                }
                loop {
                    let key = self.string()?;
                    self.need(b':')?;
                    let value = self.value()?;
                    out.insert(key, value);
                    if !self.take(b',') {
                        self.need(b'}')?;
                        return Ok(Value::Object(out));
                    }
                }
            }
            _ => {
                let rest = &self.text[self.at..];
                let len = rest.find([',', ']', '}', ' ', '\t', '\r', '\n']).unwrap_or(rest.len());
                let v = serde_json::from_str(&rest[..len]).map_err(|e| format!("{e} at {}", self.at))?;
                self.at += len;
                Ok(v)
            }
        }
    }
}
