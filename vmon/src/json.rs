//! Minimal JSON writer (the library has no dependency).
pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}
pub fn obj(v: &[(&str, String)]) -> String {
    let p: Vec<String> = v.iter().map(|(k, x)| format!("{}:{}", esc(k), x)).collect();
    format!("{{{}}}", p.join(","))
}
