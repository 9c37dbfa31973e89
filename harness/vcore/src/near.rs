//! Byte strings close to given names.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Edit {
    Sub(usize, u8),
    Ins(usize, u8),
    Del(usize),
    Swap(usize),
    /// flip one bit of one byte
    Flip(usize, u8),
    /// flip the ASCII case bit of the letters in the mask
    Case(u64),
    Append(Vec<u8>),
    Prepend(Vec<u8>),
    Truncate(usize),
    Repeat,
}

pub fn apply(mut s: Vec<u8>, e: &Edit) -> Vec<u8> {
    let n = s.len();
    match e {
        Edit::Sub(i, b) if n > 0 => s[i % n] = *b,
        Edit::Ins(i, b) => s.insert(i % (n + 1), *b),
        Edit::Del(i) if n > 0 => {
            s.remove(i % n);
        }
        Edit::Swap(i) if n > 1 => s.swap(i % (n - 1), i % (n - 1) + 1),
        Edit::Flip(i, b) if n > 0 => s[i % n] ^= 1 << (b % 8),
        Edit::Case(m) => {
            for (i, b) in s.iter_mut().enumerate() {
                if m >> (i % 64) & 1 == 1 && b.is_ascii_alphabetic() {
                    *b ^= 0x20;
                }
            }
        }
        Edit::Append(v) => s.extend_from_slice(v),
        Edit::Prepend(v) => {
            s.splice(0..0, v.iter().copied());
        }
        Edit::Truncate(k) => s.truncate(k % (n + 1)),
        Edit::Repeat => s.extend_from_within(..),
        _ => {}
    }
    s
}

fn byte() -> impl Strategy<Value = u8> {
    prop_oneof![
        3 => any::<u8>(),
        2 => prop::sample::select(b"\0 \t\n#\x05\x06@[`{-+._0123456789abcdefABCDEFgGxXzZ\x7f\x80\xff".to_vec()),
        1 => b'a'..=b'z',
    ]
}

pub fn edit() -> impl Strategy<Value = Edit> {
    let at = 0usize..20;
    prop_oneof![
        3 => (at.clone(), byte()).prop_map(|(i, b)| Edit::Sub(i, b)),
        3 => (at.clone(), byte()).prop_map(|(i, b)| Edit::Ins(i, b)),
        2 => at.clone().prop_map(Edit::Del),
        1 => at.clone().prop_map(Edit::Swap),
        3 => (at.clone(), 0u8..8).prop_map(|(i, b)| Edit::Flip(i, b)),
        2 => any::<u64>().prop_map(Edit::Case),
        1 => prop::collection::vec(byte(), 1..4).prop_map(Edit::Append),
        1 => prop::collection::vec(byte(), 1..4).prop_map(Edit::Prepend),
        1 => at.prop_map(Edit::Truncate),
        1 => Just(Edit::Repeat),
    ]
}

/// All byte strings at one substitution, insertion or deletion, or with one adjacent swap
pub fn neighbours(s: &[u8], alphabet: u16) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for i in 0..=s.len() {
        for b in 0..alphabet {
            v.push(apply(s.to_vec(), &Edit::Ins(i, b as u8)));
            if i < s.len() {
                v.push(apply(s.to_vec(), &Edit::Sub(i, b as u8)));
            }
        }
        if i < s.len() {
            v.push(apply(s.to_vec(), &Edit::Del(i)));
        }
        if i + 1 < s.len() {
            v.push(apply(s.to_vec(), &Edit::Swap(i)));
        }
    }
    v
}

/// Strings of the same length that agree with `s` in some positions only (every subset of
/// positions replaced, with a few replacements), and every order of the bytes of `s`
pub fn partial(s: &[u8], orders: bool) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for m in 0..1u32 << s.len() {
        for c in [b'a', b'e', b'z', b' '] {
            v.push(s.iter().enumerate().map(|(i, b)| if m >> i & 1 == 1 { c } else { *b }).collect());
        }
        // shifted along the alphabet: sums and xors of bytes survive when two of these cancel
        let mut up = true;
        v.push(
            s.iter()
                .enumerate()
                .map(|(i, b)| {
                    if m >> i & 1 == 0 {
                        return *b;
                    }
                    up = !up;
                    if up { b.wrapping_add(1) & 0x7f } else { b.wrapping_sub(1) & 0x7f }
                })
                .collect(),
        );
    }
    if orders {
        permutations(&mut s.to_vec(), 0, &mut v);
    }
    v
}

fn permutations(s: &mut Vec<u8>, k: usize, out: &mut Vec<Vec<u8>>) {
    if k == s.len() {
        return out.push(s.clone());
    }
    for i in k..s.len() {
        s.swap(k, i);
        permutations(s, k + 1, out);
        s.swap(k, i);
    }
}

/// `s` with so much before or after it that a length kept in 8 or 16 bits wraps around
pub fn wrapping(s: &[u8]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for extra in [32usize, 64, 128, 256, 512, 65536] {
        for fill in [0u8, b' ', b'0', b'a', b'f', b'\n'] {
            v.push([s, &vec![fill; extra][..]].concat());
            v.push([&vec![fill; extra][..], s].concat());
        }
        let mut r = s.to_vec();
        while r.len() < s.len() + extra {
            r.push(s[r.len() % s.len()]);
        }
        v.push(r);
    }
    v
}

/// Characters that resemble an ASCII string in some way a parser might fall for: their lower or
/// upper case, their low byte, or their shape
fn resemble() -> Vec<(String, char)> {
    let mut v = Vec::new();
    for c in (0x80u32..=0x10ffff).filter_map(char::from_u32) {
        let lower: String = c.to_lowercase().collect();
        let upper: String = c.to_uppercase().collect();
        for s in [lower.clone(), upper.to_lowercase(), lower.to_uppercase().to_lowercase()] {
            if s.is_ascii() {
                v.push((s, c));
            }
        }
    }
    // letters, then digits
    for (range, starts) in [
        ('a'..='z', &[0x24b6, 0x24d0, 0xff21, 0xff41, 0x1d400, 0x1d41a, 0x1d5ba, 0x1f130, 0xe0061][..]),
        ('0'..='9', &[0x660, 0x6f0, 0x966, 0x2080, 0xff10, 0x1d7ce, 0x1fbf0, 0xe0030][..]),
    ] {
        for start in starts {
            v.extend(range.clone().zip(*start..).map(|(c, n)| (c.to_string(), char::from_u32(n).unwrap())));
        }
    }
    for (s, cs) in [
        ("a", "\u{430}\u{e4}\u{e1}\u{aa}"), ("b", "\u{432}\u{184}"), ("c", "\u{441}"), ("d", "\u{501}\u{f0}"), ("e", "\u{435}\u{e9}\u{212e}"),
        ("g", "\u{261}"), ("h", "\u{4bb}"), ("i", "\u{456}\u{131}"), ("l", "\u{4cf}\u{1c0}"), ("n", "\u{578}\u{f1}"), ("o", "\u{43e}\u{3bf}\u{ba}"),
        ("r", "\u{433}"), ("s", "\u{455}\u{df}"), ("t", "\u{442}"), ("u", "\u{446}\u{fc}"), ("v", "\u{3bd}\u{2174}"), ("w", "\u{461}"),
        ("y", "\u{443}"), ("0", "\u{2070}\u{43e}"), ("1", "\u{b9}\u{2460}\u{2160}"), ("2", "\u{b2}\u{2461}"), ("3", "\u{b3}\u{2462}"), ("5", "\u{2464}"),
        (" ", "\u{a0}\u{85}\u{2003}\u{200b}\u{3000}\u{2028}\u{1680}"), ("#", "\u{ff03}\u{266f}\u{fe5f}"),
    ] {
        v.extend(cs.chars().map(|c| (s.to_string(), c)));
    }
    for b in 0u8..128 {
        for high in [0x80, 0x100, 0x200, 0x400, 0x2100, 0xff00, 0x10000, 0x1f600] {
            if let Some(c) = char::from_u32(high | u32::from(b)) {
                v.push((char::from(b.to_ascii_lowercase()).to_string(), c));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// `names` with one, two, or all characters that can be replaced so replaced by such characters
pub fn alikes(names: &[&str]) -> Vec<String> {
    let all = resemble();
    let mut out = Vec::new();
    for name in names {
        let low = name.to_ascii_lowercase();
        let at = |i: usize| all.iter().filter(|(s, _)| low[i..].starts_with(s.as_str())).collect::<Vec<_>>();
        let here: Vec<_> = (0..name.len()).map(at).collect();
        for i in 0..name.len() {
            for (s, c) in &here[i] {
                let rest = i + s.len();
                out.push(format!("{}{c}{}", &name[..i], &name[rest..]));
                out.push(format!("{}{c}{}", name[..i].to_uppercase(), name[rest..].to_uppercase()));
                for j in rest..name.len() {
                    for (t, d) in &here[j] {
                        out.push(format!("{}{c}{}{d}{}", &name[..i], &name[rest..j], &name[j + t.len()..]));
                    }
                }
            }
        }
        // the k-th choice everywhere
        for k in 0..40 {
            let (mut s, mut i) = (String::new(), 0);
            while i < name.len() {
                match here[i].len() {
                    0 => s.push(name.as_bytes()[i].into()),
                    n => {
                        let (p, c) = here[i][k % n];
                        s.push(*c);
                        i += p.len() - 1;
                    }
                }
                i += 1;
            }
            out.push(s);
        }
    }
    out.sort();
    out.dedup();
    out
}
