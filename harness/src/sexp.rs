#[derive(Clone, Debug, PartialEq)]
pub enum Sx {
    A(String),
    L(Vec<Sx>),
}
impl Sx {
    pub fn atom(&self) -> Option<&str> {
        if let Sx::A(s) = self { Some(s) } else { None }
    }
    pub fn list(&self) -> Option<&[Sx]> {
        if let Sx::L(v) = self { Some(v) } else { None }
    }
    pub fn show(&self) -> String {
        match self {
            Sx::A(s) => s.clone(),
            Sx::L(v) => format!("({})", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ")),
        }
    }
}
/// Parses top-level s-expressions; each comes with the last comment line that precedes it.
pub fn parse(text: &str) -> Result<Vec<(String, Sx)>, String> {
    let b = text.as_bytes();
    let mut i = 0;
    let mut stack: Vec<Vec<Sx>> = vec![];
    let mut out = vec![];
    let mut section = String::new();
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\n' | b'\t' | b'\r' => i += 1,
            b';' => {
                let j = text[i..].find('\n').map(|x| i + x).unwrap_or(b.len());
                let com = text[i + 1..j].trim();
                if !com.is_empty() && !com.bytes().all(|c| c.is_ascii_digit()) {
                    section = com.to_string();
                }
                i = j;
            }
            b'(' => {
                stack.push(vec![]);
                i += 1
            }
            b')' => {
                let v = stack.pop().ok_or_else(|| format!("unbalanced ) at {i}"))?;
                let e = Sx::L(v);
                match stack.last_mut() {
                    Some(p) => p.push(e),
                    None => out.push((section.clone(), e)),
                }
                i += 1
            }
            b'"' => {
                let mut j = i + 1;
                while j < b.len() && b[j] != b'"' {
                    j += 1
                }
                if j >= b.len() {
                    return Err("unterminated string".into());
                }
                let a = Sx::A(text[i..=j].to_string());
                match stack.last_mut() {
                    Some(p) => p.push(a),
                    None => return Err("top-level atom".into()),
                }
                i = j + 1
            }
            b'|' => {
                let mut j = i + 1;
                while j < b.len() && b[j] != b'|' {
                    j += 1
                }
                if j >= b.len() {
                    return Err("unterminated |".into());
                }
                let a = Sx::A(text[i + 1..j].to_string());
                match stack.last_mut() {
                    Some(p) => p.push(a),
                    None => return Err("top-level atom".into()),
                }
                i = j + 1
            }
            _ => {
                let mut j = i;
                while j < b.len() && !matches!(b[j], b' ' | b'\n' | b'\t' | b'\r' | b'(' | b')' | b';' | b'"') {
                    j += 1
                }
                let a = Sx::A(text[i..j].to_string());
                match stack.last_mut() {
                    Some(p) => p.push(a),
                    None => return Err(format!("top-level atom {:?}", &text[i..j])),
                }
                i = j
            }
        }
    }
    if !stack.is_empty() {
        return Err("unbalanced (".into());
    }
    Ok(out)
}
