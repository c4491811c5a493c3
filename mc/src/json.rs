//! Minimal JSON output.
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn arr<T: AsRef<str>>(v: impl IntoIterator<Item = T>) -> String {
    let items: Vec<String> = v.into_iter().map(|s| esc(s.as_ref())).collect();
    format!("[{}]", items.join(", "))
}
