//! Just enough JSON writing.
pub struct J(pub String);
impl J {
    pub fn op(name: &str) -> J {
        J(format!("{{\"op\":\"{name}\""))
    }
    pub fn s(mut self, k: &str, v: &str) -> J {
        self.0.push_str(&format!(",\"{k}\":\"{v}\""));
        self
    }
    pub fn i(mut self, k: &str, v: i64) -> J {
        self.0.push_str(&format!(",\"{k}\":{v}"));
        self
    }
    pub fn a(mut self, k: &str, v: &[i64]) -> J {
        self.0.push_str(&format!(",\"{k}\":["));
        for (n, x) in v.iter().enumerate() {
            if n > 0 {
                self.0.push(',');
            }
            self.0.push_str(&x.to_string());
        }
        self.0.push(']');
        self
    }
    pub fn raw(mut self, k: &str, v: &str) -> J {
        self.0.push_str(&format!(",\"{k}\":{v}"));
        self
    }
    pub fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}
