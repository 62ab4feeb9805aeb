//! Generators shared by several properties.
use crate::prop::G;

const ALNUM: &[u8] = b"abcdefgxyz0129ABCXYZ";

/// A legal project/extra name. `hyphens`: whether '-' may occur.
pub fn name(g: &mut G, hyphens: bool) -> String {
    let mut s = g.string(ALNUM, 1, 4);
    for _ in 0..g.len(0, 3) {
        let seps: &[&str] = if hyphens { &["-", "_", ".", "--", "_-", ".-_", "__", ".."] } else { &["_", ".", "__", "..", "._"] };
        s += g.pick(seps);
        s += &g.string(ALNUM, 1, 4);
    }
    s
}

/// PEP 503
pub fn normalize(s: &str) -> String {
    let mut out = String::new();
    let mut sep = false;
    for c in s.chars() {
        if c == '-' || c == '_' || c == '.' {
            if !sep {
                out.push('-');
            }
            sep = true;
        } else {
            sep = false;
            out.push(c.to_ascii_lowercase());
        }
    }
    out
}

/// Another spelling of a name with the same normalized form.
pub fn respell(g: &mut G, s: &str) -> String {
    let mut out = String::new();
    for c in normalize(s).chars() {
        if c == '-' {
            out += g.pick(&["-", "_", ".", "--", "_.", "-_-"]);
        } else if g.bool() {
            out.push(c.to_ascii_uppercase());
        } else {
            out.push(c);
        }
    }
    out
}

pub fn legal_name(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty()
        && b.iter().all(|c| c.is_ascii_alphanumeric() || b"-_.".contains(c))
        && b[0].is_ascii_alphanumeric()
        && b[b.len() - 1].is_ascii_alphanumeric()
}

/// Random edits of a string: deletions, duplications, insertions of awkward characters.
pub fn mutate(g: &mut G, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..g.range(1, 3) {
        let i = g.usize(v.len() + 1);
        match g.below(5) {
            0 => {
                if i < v.len() {
                    v.remove(i);
                }
            }
            1 => v.insert(i, *g.choose(&['-', '.', '_', ' ', '\n', '\u{e9}', '\0', '/', '!', '+', '*', '(', ')', '[', ']', ',', ';', '@', '\'', '"', '=', '<', '0', 'a', '\u{661}', '\u{212a}'])),
            2 => {
                if i < v.len() {
                    let c = v[i];
                    v.insert(i, c);
                }
            }
            3 => {
                if i + 1 < v.len() {
                    v.swap(i, i + 1);
                }
            }
            _ => {
                if i < v.len() {
                    let j = i + 1 + g.usize((v.len() - i).min(6));
                    v.drain(i..j.min(v.len()));
                }
            }
        }
    }
    v.into_iter().collect()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
