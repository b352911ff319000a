pub enum J {
  Null,
  B(bool),
  I(i128),
  S(String),
  A(Vec<J>),
  O(Vec<(String, J)>),
}
impl J {
  pub fn text(&self) -> String {
    let mut o = String::new();
    self.w(&mut o);
    o
  }
  fn q(t: &str, o: &mut String) {
    o.push('"');
    for c in t.chars() {
      match c {
        '"' => o.push_str("\\\""),
        '\\' => o.push_str("\\\\"),
        '\n' => o.push_str("\\n"),
        c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
        c => o.push(c),
      }
    }
    o.push('"');
  }
  fn w(&self, o: &mut String) {
    match self {
      J::Null => o.push_str("null"),
      J::B(b) => o.push_str(if *b { "true" } else { "false" }),
      J::I(i) => o.push_str(&i.to_string()),
      J::S(t) => Self::q(t, o),
      J::A(v) => {
        o.push('[');
        for (i, x) in v.iter().enumerate() {
          if i > 0 {
            o.push(',');
          }
          x.w(o);
        }
        o.push(']');
      },
      J::O(v) => {
        o.push('{');
        for (i, (k, x)) in v.iter().enumerate() {
          if i > 0 {
            o.push(',');
          }
          Self::q(k, o);
          o.push(':');
          x.w(o);
        }
        o.push('}');
      },
    }
  }
}
