//! JSON reader with exactly rounded numbers (serde_json's default reader may be off by one unit in the last place).
use serde_json::{Map, Number, Value as J};

struct P<'a> {
    b: &'a [u8],
    i: usize,
    depth: usize,
}

pub fn parse(b: &[u8]) -> Result<J, String> {
    let mut p = P { b, i: 0, depth: 0 };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.i != b.len() {
        return Err(format!("trailing characters at {}", p.i));
    }
    Ok(v)
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\t' | b'\r') {
            self.i += 1;
        }
    }
    fn err<T>(&self, w: &str) -> Result<T, String> {
        Err(format!("{w} at {}", self.i))
    }
    fn lit(&mut self, s: &str, v: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(s.as_bytes()) {
            self.i += s.len();
            Ok(v)
        } else {
            self.err("unknown literal")
        }
    }
    fn value(&mut self) -> Result<J, String> {
        self.depth += 1;
        if self.depth > 500 {
            return self.err("too deep");
        }
        let r = match self.b.get(self.i) {
            Some(b'n') => self.lit("null", J::Null),
            Some(b't') => self.lit("true", J::Bool(true)),
            Some(b'f') => self.lit("false", J::Bool(false)),
            Some(b'"') => Ok(J::String(self.string()?)),
            Some(b'[') => {
                self.i += 1;
                let mut a = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b']') {
                    self.i += 1;
                } else {
                    loop {
                        self.ws();
                        a.push(self.value()?);
                        self.ws();
                        match self.b.get(self.i) {
                            Some(b',') => self.i += 1,
                            Some(b']') => {
                                self.i += 1;
                                break;
                            }
                            _ => return self.err("array"),
                        }
                    }
                }
                Ok(J::Array(a))
            }
            Some(b'{') => {
                self.i += 1;
                let mut m = Map::new();
                self.ws();
                if self.b.get(self.i) == Some(&b'}') {
                    self.i += 1;
                } else {
                    loop {
                        self.ws();
                        if self.b.get(self.i) != Some(&b'"') {
                            return self.err("key");
                        }
                        let k = self.string()?;
                        self.ws();
                        if self.b.get(self.i) != Some(&b':') {
                            return self.err("colon");
                        }
                        self.i += 1;
                        self.ws();
                        let v = self.value()?;
                        m.insert(k, v);
                        self.ws();
                        match self.b.get(self.i) {
                            Some(b',') => self.i += 1,
                            Some(b'}') => {
                                self.i += 1;
                                break;
                            }
                            _ => return self.err("object"),
                        }
                    }
                }
                Ok(J::Object(m))
            }
            Some(c) if *c == b'-' || c.is_ascii_digit() => self.number(),
            _ => self.err("value"),
        };
        self.depth -= 1;
        r
    }
    fn string(&mut self) -> Result<String, String> {
        let s = self.i;
        self.i += 1;
        loop {
            match self.b.get(self.i) {
                Some(b'\\') => self.i += 2,
                Some(b'"') => {
                    self.i += 1;
                    break;
                }
                Some(_) => self.i += 1,
                None => return self.err("string"),
            }
        }
        serde_json::from_slice(&self.b[s..self.i]).map_err(|e| e.to_string())
    }
    fn number(&mut self) -> Result<J, String> {
        let s = self.i;
        while self.i < self.b.len() && matches!(self.b[self.i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
            self.i += 1;
        }
        let t = &self.b[s..self.i];
        // the grammar is checked by the standard reader
        let n: Number = serde_json::from_slice(t).map_err(|e| e.to_string())?;
        if n.is_f64() {
            let x: f64 = std::str::from_utf8(t).unwrap().parse().map_err(|_| "number".to_string())?;
            return Number::from_f64(x).map(J::Number).ok_or("number".into());
        }
        Ok(J::Number(n))
    }
}

/// The number nearest to x that the optimizer's JSON reader (serde_json) reads as written: a recorded finding
/// (findings.rs) is that it reads some numbers as their neighbour.
pub fn stable(x: f64) -> f64 {
    let ok = |y: f64| matches!(serde_json::from_str::<f64>(&format!("{y:?}")), Ok(z) if z.to_bits() == y.to_bits());
    let mut y = x;
    for k in 0..64i64 {
        if ok(y) {
            return y;
        }
        // its neighbours in turn
        let d = if k % 2 == 0 { k + 1 } else { -(k + 1) };
        y = f64::from_bits((y.to_bits() as i64 + d) as u64);
    }
    1.0
}
