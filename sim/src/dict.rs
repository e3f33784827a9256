//! Words the code under test treats specially: the literals of its (non-test) source, as extra raw material for the
//! generators. Nothing is judged by them; they only make special cases more likely to be visited.
//! A replay file carries the dictionary it was found with.

use crate::tape::Ctx;
use std::fmt::Write as _;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug, Clone, PartialEq)]
pub struct Dict {
    pub strs: Vec<String>,
    pub chars: Vec<char>,
    pub ints: Vec<u128>,
}
/// names a dictionary file for this process and its children
pub const VAR: &str = "SIM_DICT";

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| match std::env::var(VAR) {
        Ok(f) => Dict::load(&std::fs::read_to_string(f).unwrap_or_default()),
        Err(_) => Dict::from_sources(),
    })
}

impl Dict {
    pub fn from_sources() -> Dict {
        let root = std::env::var("SIM_REPO").unwrap_or_else(|_| "/repo".into());
        let mut files = vec![];
        walk(Path::new(&root).join("src").as_path(), &mut files);
        files.sort();
        let mut d = Dict::default();
        for f in files {
            if let Ok(s) = std::fs::read_to_string(f) {
                d.lex(&s);
            }
        }
        d.strs.sort();
        d.strs.dedup();
        d.chars.sort();
        d.chars.dedup();
        d.ints.sort();
        d.ints.dedup();
        d.ints.retain(|n| *n > 2);
        d
    }
    pub fn save(&self) -> String {
        let mut s = String::new();
        for x in &self.strs {
            let _ = write!(s, "s{} ", x.bytes().map(|b| format!("{b:02x}")).collect::<String>());
        }
        for x in &self.chars {
            let _ = write!(s, "c{} ", *x as u32);
        }
        for x in &self.ints {
            let _ = write!(s, "i{x} ");
        }
        s
    }
    pub fn load(s: &str) -> Dict {
        let mut d = Dict::default();
        for w in s.split_whitespace() {
            let (k, x) = w.split_at(1);
            match k {
                "s" => {
                    let b: Vec<u8> = (0..x.len() / 2).filter_map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).ok()).collect();
                    d.strs.extend(String::from_utf8(b));
                }
                "c" => d.chars.extend(x.parse().ok().and_then(char::from_u32)),
                _ => d.ints.extend(x.parse::<u128>()),
            }
        }
        d
    }
    fn lex(&mut self, src: &str) {
        let b: Vec<char> = src.chars().collect();
        let at = |i: usize| b.get(i).copied().unwrap_or('\0');
        let starts = |i: usize, s: &str| s.chars().enumerate().all(|(k, ch)| at(i + k) == ch);
        let mut i = 0;
        while i < b.len() {
            let ch = b[i];
            if starts(i, "#[cfg(test)]") {
                // the unit tests stand at the end of each file
                let rest: String = b[i + 12..(i + 40).min(b.len())].iter().collect();
                if rest.trim_start().starts_with("mod ") {
                    return;
                }
                i += 12;
            } else if starts(i, "//") {
                while i < b.len() && b[i] != '\n' {
                    i += 1;
                }
            } else if starts(i, "/*") {
                while i < b.len() && !starts(i, "*/") {
                    i += 1;
                }
                i += 2;
            } else if ch == 'r' && (at(i + 1) == '"' || (at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#'))) {
                let mut h = 0;
                while at(i + 1 + h) == '#' {
                    h += 1;
                }
                let end: String = std::iter::once('"').chain(std::iter::repeat('#').take(h)).collect();
                let mut j = i + 2 + h;
                let from = j;
                while j < b.len() && !starts(j, &end) {
                    j += 1;
                }
                self.add_str(b[from..j.min(b.len())].iter().collect());
                i = j + end.len();
            } else if ch == '"' {
                let mut s = String::new();
                i += 1;
                while i < b.len() && b[i] != '"' {
                    if b[i] == '\\' {
                        let (x, n) = unescape(&b, i);
                        s.extend(x);
                        i += n;
                    } else {
                        s.push(b[i]);
                        i += 1;
                    }
                }
                i += 1;
                self.add_str(s);
            } else if ch == '\'' {
                // a char, or a lifetime
                if at(i + 1) == '\\' {
                    let (x, n) = unescape(&b, i + 1);
                    if at(i + 1 + n) == '\'' {
                        self.chars.extend(x);
                        i += n + 2;
                    } else {
                        i += 1;
                    }
                } else if at(i + 2) == '\'' {
                    self.chars.push(at(i + 1));
                    i += 3;
                } else {
                    i += 1;
                }
            } else if ch.is_ascii_digit() {
                let mut w = String::new();
                while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                    w.push(at(i));
                    i += 1;
                }
                let w = w.replace('_', "");
                let (radix, digits) = match w.get(..2) {
                    Some("0x") => (16, &w[2..]),
                    Some("0b") => (2, &w[2..]),
                    Some("0o") => (8, &w[2..]),
                    _ => (10, &w[..]),
                };
                let stem: String = match radix {
                    16 => digits.chars().take_while(|c| c.is_ascii_hexdigit()).collect(),
                    r => digits.chars().take_while(|c| c.is_digit(r)).collect(),
                };
                if let Ok(n) = u128::from_str_radix(&stem, radix) {
                    self.ints.push(n);
                }
            } else if ch.is_alphanumeric() || ch == '_' {
                while at(i).is_alphanumeric() || at(i) == '_' {
                    i += 1;
                }
            } else {
                i += 1;
            }
        }
    }
    fn add_str(&mut self, s: String) {
        // messages are not of interest
        if s.is_empty() || s.chars().count() > 40 || s.split(' ').count() > 3 {
            return;
        }
        self.strs.push(s);
    }
}
fn unescape(b: &[char], i: usize) -> (Option<char>, usize) {
    match b.get(i + 1) {
        Some('n') => (Some('\n'), 2),
        Some('t') => (Some('\t'), 2),
        Some('r') => (Some('\r'), 2),
        Some('0') => (Some('\0'), 2),
        Some('x') => {
            let h: String = b[i + 2..(i + 4).min(b.len())].iter().collect();
            (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32), 4)
        }
        Some('u') => {
            let h: String = b[(i + 3).min(b.len())..].iter().take_while(|c| **c != '}').collect();
            (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32), h.len() + 4)
        }
        Some('\n') => {
            let ws = b[i + 2..].iter().take_while(|c| c.is_whitespace()).count();
            (None, 2 + ws)
        }
        Some(x) => (Some(*x), 2),
        None => (None, 1),
    }
}
fn walk(d: &Path, out: &mut Vec<std::path::PathBuf>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
}

/// a word of the code, if it has any
pub fn word(c: &mut Ctx) -> Option<String> {
    let d = get();
    if d.strs.is_empty() {
        return None;
    }
    c.probe("word_of_the_code");
    Some(d.strs[c.idx(d.strs.len())].clone())
}
/// a word of the code by itself, or with something before or after it, or in other letters
pub fn near_word(c: &mut Ctx) -> Option<String> {
    let w = word(c)?;
    Some(match c.weighted(&[4, 2, 2, 1, 1]) {
        0 => w,
        1 => format!("{w}{}", *c.choose(&["a", "foo", "1", " ", "é", ".b"])),
        2 => format!("{}{w}", *c.choose(&["a", "foo", "1", " ", "é", "b."])),
        3 if c.flip() => match c.flip() {
            true => w.to_lowercase(),
            false => w.to_uppercase(),
        },
        3 => w.chars().flat_map(|x| if x.is_lowercase() { x.to_uppercase().collect::<Vec<_>>() } else { x.to_lowercase().collect() }).collect(),
        _ => match get().chars.is_empty() {
            true => w,
            false => format!("{w}{}", get().chars[c.idx(get().chars.len())]),
        },
    })
}
pub fn letter(c: &mut Ctx) -> Option<char> {
    let d = get();
    if d.chars.is_empty() {
        return None;
    }
    Some(d.chars[c.idx(d.chars.len())])
}
/// a number of the code, or one next to it
pub fn number(c: &mut Ctx) -> Option<u128> {
    let d = get();
    if d.ints.is_empty() {
        return None;
    }
    let n = d.ints[c.idx(d.ints.len())];
    Some(match c.pick(4) {
        0 | 1 => n,
        2 => n.wrapping_sub(1),
        _ => n.saturating_add(1),
    })
}
/// a small count of the code (or next to one), at most `max`
pub fn count(c: &mut Ctx, max: usize) -> Option<usize> {
    let small: Vec<u128> = get().ints.iter().copied().filter(|n| *n <= max as u128).collect();
    if small.is_empty() {
        return None;
    }
    let n = small[c.idx(small.len())] as usize;
    Some(match c.pick(4) {
        0 | 1 => n,
        2 => n.saturating_sub(1),
        _ => (n + 1).min(max),
    })
}
