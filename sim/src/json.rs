//! Just enough JSON.

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn strs(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "))
}

pub fn nums(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(","))
}

/// The value of a top-level string member of a replay file.
pub fn get_str(doc: &str, key: &str) -> Option<String> {
    let k = format!("\"{key}\": \"");
    let i = doc.find(&k)? + k.len();
    let mut o = String::new();
    let mut it = doc[i..].chars();
    loop {
        match it.next()? {
            '"' => return Some(o),
            '\\' => match it.next()? {
                'n' => o.push('\n'),
                'u' => {
                    let h: String = it.by_ref().take(4).collect();
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
}

pub fn get_nums(doc: &str, key: &str) -> Option<Vec<u64>> {
    let k = format!("\"{key}\": [");
    let i = doc.find(&k)? + k.len();
    let j = doc[i..].find(']')?;
    let s = doc[i..i + j].trim();
    if s.is_empty() {
        return Some(vec![]);
    }
    s.split(',').map(|x| x.trim().parse().ok()).collect()
}
