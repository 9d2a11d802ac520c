pub enum J { Null, I(i128), S(String), A(Vec<J>), O(Vec<(String, J)>) }
impl J {
    pub fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
    pub fn i(x: i128) -> J { J::I(x) }
    pub fn o(v: Vec<(&str, J)>) -> J { J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }
    pub fn render(&self) -> String { let mut s = String::new(); self.w(&mut s); s }
    fn esc(x: &str, o: &mut String) {
        o.push('"');
        for c in x.chars() {
            match c {
                '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
                c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
    }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::I(i) => o.push_str(&i.to_string()),
            J::S(s) => Self::esc(s, o),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } Self::esc(k, o); o.push(':'); x.w(o); } o.push('}'); }
        }
    }
}
