//! Hand-written description of the two file formats (no regular expressions, no shared code)
use crate::model::Cmd;

#[derive(Clone, Debug, PartialEq)]
pub enum L {
    /// ignored (empty or comment)
    Skip,
    /// exactly this command
    Is(Cmd),
    /// has to be reported
    Bad,
    /// unusual text on which the format is not specific: reported, or one of these
    Either(Vec<Option<Cmd>>),
}

/// Splits like a text file: '\n' ends a line, a '\r' just before it belongs to the line end
pub fn split(b: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut cur = vec![];
    for x in b {
        if *x == b'\n' {
            if cur.last() == Some(&b'\r') {
                cur.pop();
            }
            out.push(std::mem::take(&mut cur));
        } else {
            cur.push(*x);
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

fn id(s: &str) -> Option<u64> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let t = s.trim_start_matches('0');
    if t.len() > 20 {
        return None;
    }
    let mut v: u128 = 0;
    for b in t.bytes() {
        v = v * 10 + (b - b'0') as u128;
    }
    if v <= u64::MAX as u128 {
        Some(v as u64)
    } else {
        None
    }
}

/// leading digits, blanks (space and tab), rest
fn lead<'a>(s: &'a str, f: impl Fn(char) -> bool) -> (&'a str, &'a str) {
    let k = s.find(|c| !f(c)).unwrap_or(s.len());
    s.split_at(k)
}
fn digit(c: char) -> bool {
    c.is_ascii_digit()
}
fn blank(c: char) -> bool {
    c == ' ' || c == '\t'
}

/// characters whose treatment (as blank or digit) is left open
fn exotic(s: &str) -> bool {
    s.chars().any(|c| !c.is_ascii() || (c.is_ascii_control() && c != '\t'))
}

fn common(raw: &[u8]) -> Result<&str, L> {
    let s = match std::str::from_utf8(raw) {
        Ok(s) => s,
        Err(_) => return Err(L::Bad), // bytes that are not text are errors, in comments too
    };
    if s.is_empty() {
        return Err(L::Skip);
    }
    // a comment: the first visible character is #
    if s.chars().find(|c| !c.is_whitespace()) == Some('#') {
        return Err(L::Skip);
    }
    Ok(s)
}

pub fn gcmd(raw: &[u8]) -> L {
    let s = match common(raw) {
        Ok(s) => s,
        Err(l) => return l,
    };
    let strict = |s: &str| -> Option<Cmd> {
        let one = |p: &str| s.strip_prefix(p).and_then(id);
        let two = |p: &str| -> Option<(u64, u64)> {
            let r = s.strip_prefix(p)?;
            let (a, r) = lead(r, digit);
            let (sp, b) = lead(r, blank);
            if sp.is_empty() {
                return None;
            }
            Some((id(a)?, id(b)?))
        };
        one("AddVertex ")
            .map(Cmd::AV)
            .or_else(|| one("RemoveVertex ").map(Cmd::RV))
            .or_else(|| two("AddEdge ").map(|x| Cmd::AE(x.0, x.1)))
            .or_else(|| two("RemoveEdge ").map(|x| Cmd::RE(x.0, x.1)))
    };
    match strict(s) {
        Some(c) => L::Is(c),
        None => {
            if exotic(s) {
                // as if the unusual characters were blanks
                let t: String = s.chars().map(|c| if exotic(&c.to_string()) { ' ' } else { c }).collect();
                match strict(&t).or_else(|| strict(t.trim())) {
                    Some(c) => L::Either(vec![Some(c)]),
                    None => L::Bad,
                }
            } else {
                L::Bad
            }
        }
    }
}

pub fn tgf(raw: &[u8]) -> L {
    let s = match common(raw) {
        Ok(s) => s,
        Err(l) => return l,
    };
    let (a, r) = lead(s, digit);
    if a.is_empty() {
        let numeric = s.chars().next().map(|c| c.is_numeric()).unwrap_or(false);
        return if numeric { L::Either(vec![]) } else { L::Bad };
    }
    let first = match id(a) {
        Some(x) => x,
        None => return L::Bad,
    };
    let (sp, r2) = lead(r, blank);
    if !sp.is_empty() {
        let (b, rest) = lead(r2, digit);
        if !b.is_empty() {
            let unclear = rest.chars().next().map(|c| !c.is_ascii() && c.is_numeric()).unwrap_or(false);
            return match id(b) {
                Some(y) if unclear => L::Either(vec![Some(Cmd::AE(first, y))]),
                Some(y) => L::Is(Cmd::AE(first, y)),
                None => L::Bad,
            };
        }
        if r2.chars().next().map(|c| !c.is_ascii() || c.is_ascii_control()).unwrap_or(false) {
            return L::Either(vec![Some(Cmd::AV(first))].into_iter().chain(second(first, r)).collect());
        }
        return L::Is(Cmd::AV(first));
    }
    if r.chars().next().map(|c| !c.is_ascii() || c.is_ascii_control()).unwrap_or(false) {
        return L::Either(vec![Some(Cmd::AV(first))].into_iter().chain(second(first, r)).collect());
    }
    L::Is(Cmd::AV(first))
}

/// with unusual characters read as blanks: an edge, if a number follows
fn second(first: u64, r: &str) -> Vec<Option<Cmd>> {
    let t = r.trim_start_matches(|c: char| !c.is_ascii() || c.is_ascii_control() || blank(c));
    let (b, _) = lead(t, digit);
    id(b).map(|y| vec![Some(Cmd::AE(first, y))]).unwrap_or_default()
}

/// The commands of a file that is strictly well formed
pub fn parse_strict(b: &[u8], f: fn(&[u8]) -> L) -> Result<Vec<Cmd>, usize> {
    let mut v = vec![];
    for (i, l) in split(b).iter().enumerate() {
        match f(l) {
            L::Skip => {}
            L::Is(c) => v.push(c),
            _ => return Err(i + 1),
        }
    }
    Ok(v)
}
