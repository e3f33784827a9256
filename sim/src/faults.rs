//! Byte-level and text-level channel faults.

use crate::refcodec::Marks;
use crate::tape::Ctx;
use codec::{Compact, Encode};

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(200) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 200 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

/// Overwrite the compact length prefix at `at` with another length.
pub fn forge_len(c: &mut Ctx, b: &mut Vec<u8>, at: usize) {
    if at >= b.len() {
        return;
    }
    let old = match b[at] & 3 {
        0 => 1,
        1 => 2,
        2 => 4,
        _ => 5 + (b[at] >> 2) as usize,
    }
    .min(b.len() - at);
    let new: Vec<u8> = match c.pick(9) {
        0 => Compact(c.pick(8) as u32).encode(),
        1 => Compact(64u32).encode(),
        2 => Compact(16384u32 + c.pick(3) as u32).encode(),
        3 => Compact(1u32 << 20).encode(),
        4 => Compact((1u32 << 30) - 1).encode(),
        5 => Compact(u32::MAX - c.pick(2) as u32).encode(),
        6 => Compact((1u64 << 32) + c.pick(4)).encode(),
        7 => Compact(u64::MAX - c.pick(2)).encode(),
        // a non-canonical / oversized prefix
        _ => {
            let mut v = vec![((c.pick(16) as u8) << 2) | 3];
            v.extend(std::iter::repeat_n(0u8, 4 + (v[0] >> 2) as usize));
            v
        }
    };
    b.splice(at..at + old, new);
    c.fault("length_prefix_forged");
}

/// Apply 1..=3 byte-level faults.
pub fn corrupt(c: &mut Ctx, b: &mut Vec<u8>, m: &Marks) {
    let n = c.weighted(&[6, 2, 1]) + 1;
    for _ in 0..n {
        one(c, b, m);
    }
}
fn place(c: &mut Ctx, b: &[u8], m: &Marks) -> usize {
    // bias to node starts and length prefixes: that is where a fault changes structure
    if b.is_empty() {
        return 0;
    }
    match c.pick(3) {
        0 => c.idx(b.len()),
        1 if !m.starts.is_empty() => m.starts[c.idx(m.starts.len())].min(b.len() - 1),
        _ if !m.lens.is_empty() => m.lens[c.idx(m.lens.len())].min(b.len() - 1),
        _ => c.idx(b.len()),
    }
}
fn one(c: &mut Ctx, b: &mut Vec<u8>, m: &Marks) {
    let kind = c.weighted(&[5, 3, 4, 3, 3, 2, 2, 3]);
    if b.is_empty() && kind != 6 {
        return;
    }
    let at = place(c, b, m);
    match kind {
        0 => {
            b[at] ^= 1 << c.pick(8);
            c.fault("bit_flip");
        }
        1 => {
            b[at] = if c.chance(1, 12) { crate::dict::count(c, 255).unwrap_or(0) as u8 } else { *c.choose(&[0u8, 1, 2, 3, 4, 0x7f, 0x80, 0xfc, 0xff, 0x13, 0x33]) };
            c.fault("byte_overwritten");
        }
        2 => {
            let n = c.idx(b.len() + 1);
            b.truncate(n);
            c.fault("torn_tail");
        }
        3 => {
            let n = c.range(1, 8).min(b.len() - at);
            b.drain(at..at + n);
            c.fault("run_lost");
        }
        4 => {
            let n = c.range(1, 8).min(b.len() - at);
            let run = b[at..at + n].to_vec();
            b.splice(at..at, run);
            c.fault("run_duplicated");
        }
        5 => {
            let n = c.range(1, 4);
            if at + 2 * n <= b.len() {
                for k in 0..n {
                    b.swap(at + k, at + n + k);
                }
                c.fault("runs_reordered");
            }
        }
        6 => {
            let n = c.range(1, 6);
            let g: Vec<u8> = (0..n).map(|_| c.pick(256) as u8).collect();
            b.splice(at..at, g);
            c.fault("garbage_inserted");
        }
        _ => {
            if !m.lens.is_empty() {
                let at = m.lens[c.idx(m.lens.len())];
                forge_len(c, b, at);
            }
        }
    }
}

fn new_char(c: &mut Ctx, usual: &[char]) -> char {
    match c.chance(1, 12) {
        true => crate::dict::letter(c).unwrap_or('?'),
        false => *c.choose(usual),
    }
}
/// Text channel faults; always yields valid UTF-8 (the API takes &str).
pub fn corrupt_text(c: &mut Ctx, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let n = c.weighted(&[6, 2, 1]) + 1;
    const REPL: [char; 30] = [
        '(', ')', '{', '}', ',', ':', '"', '\'', '\\', '<', '>', ' ', '\n', '0', '1', '9', '-', '+', '_', 'a', 'v', 't', 'e', 'x', 'é', '中', '\u{1F600}', '\u{301}', '\t', '\0',
    ];
    for _ in 0..n {
        let kind = c.weighted(&[5, 4, 3, 3, 2, 3, 2]);
        if v.is_empty() && kind != 5 {
            continue;
        }
        let at = if v.is_empty() { 0 } else { c.idx(v.len()) };
        match kind {
            0 => {
                let k = c.idx(v.len() + 1);
                v.truncate(k);
                c.fault("text_torn");
            }
            1 => {
                v[at] = new_char(c, &REPL);
                c.fault("char_overwritten");
            }
            2 => {
                let k = c.range(1, 4).min(v.len() - at);
                v.drain(at..at + k);
                c.fault("chars_lost");
            }
            3 => {
                let k = c.range(1, 4).min(v.len() - at);
                let run = v[at..at + k].to_vec();
                v.splice(at..at, run);
                c.fault("chars_duplicated");
            }
            4 => {
                let k = c.idx(v.len());
                v.swap(at, k);
                c.fault("chars_reordered");
            }
            5 => {
                if c.chance(1, 12) {
                    let w: Vec<char> = crate::dict::word(c).unwrap_or_default().chars().collect();
                    v.splice(at..at, w);
                } else {
                    let r = new_char(c, &REPL);
                    v.insert(at, r);
                }
                c.fault("char_inserted");
            }
            _ => {
                v.drain(..at);
                c.fault("text_head_lost");
            }
        }
    }
    v.into_iter().collect()
}
