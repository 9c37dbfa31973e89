//! Values to be styled: std types and user types with every way of using a `Formatter`.

use crate::fmtspec::Tr;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::{self, Formatter, Write};

#[derive(Clone, PartialEq, Debug, Hash, Serialize, Deserialize)]
pub enum Val {
    Int(i64),
    Byte(u8),
    Big(u64, u64),
    /// bits
    F64(u64),
    F32(u32),
    Str(String),
    Char(char),
    Bool(bool),
    Ptr(u64),
    /// a user type that pads its text
    Pad(String),
    /// a user type made with `pad_integral`
    Integral(bool, String),
    /// a user type that writes piecemeal and ignores the options
    Chunks(Vec<String>),
    List(Vec<i16>),
    Struct(i16, String),
    /// a user type that reads single options itself
    Options,
}

macro_rules! int {
    ($v:expr, $tr:expr, $f:expr) => {{
        let v = $v;
        match $tr {
            Tr::Display => fmt::Display::fmt(&v, $f),
            Tr::Debug => fmt::Debug::fmt(&v, $f),
            Tr::Binary => fmt::Binary::fmt(&v, $f),
            Tr::Octal => fmt::Octal::fmt(&v, $f),
            Tr::LowerExp => fmt::LowerExp::fmt(&v, $f),
            Tr::UpperExp => fmt::UpperExp::fmt(&v, $f),
            Tr::LowerHex => fmt::LowerHex::fmt(&v, $f),
            Tr::UpperHex => fmt::UpperHex::fmt(&v, $f),
            Tr::Pointer => fmt::Pointer::fmt(&(v as usize as *const u8), $f),
        }
    }};
}
macro_rules! float {
    ($v:expr, $tr:expr, $f:expr) => {{
        let v = $v;
        match $tr {
            Tr::Display => fmt::Display::fmt(&v, $f),
            Tr::LowerExp => fmt::LowerExp::fmt(&v, $f),
            Tr::UpperExp => fmt::UpperExp::fmt(&v, $f),
            _ => fmt::Debug::fmt(&v, $f),
        }
    }};
}

impl Val {
    pub fn fmt(&self, tr: Tr, f: &mut Formatter<'_>) -> fmt::Result {
        match self {
            Val::Int(v) => int!(*v, tr, f),
            Val::Byte(v) => int!(*v, tr, f),
            Val::Big(a, b) => int!((*a as u128) << 64 | *b as u128, tr, f),
            Val::F64(v) => float!(f64::from_bits(*v), tr, f),
            Val::F32(v) => float!(f32::from_bits(*v), tr, f),
            Val::Str(s) => match tr {
                Tr::Debug => fmt::Debug::fmt(s, f),
                _ => fmt::Display::fmt(s, f),
            },
            Val::Char(s) => match tr {
                Tr::Debug => fmt::Debug::fmt(s, f),
                _ => fmt::Display::fmt(s, f),
            },
            Val::Bool(s) => fmt::Display::fmt(s, f),
            Val::Ptr(p) => fmt::Pointer::fmt(&(*p as usize as *const u8), f),
            Val::Pad(s) => f.pad(s),
            Val::Integral(nn, s) => f.pad_integral(*nn, "0q", s),
            Val::Chunks(c) => {
                for (i, s) in c.iter().enumerate() {
                    match i % 3 {
                        0 => f.write_str(s)?,
                        1 => {
                            for ch in s.chars() {
                                f.write_char(ch)?
                            }
                        }
                        _ => write!(f, "<{s:>3}>")?,
                    }
                }
                Ok(())
            }
            Val::List(v) => f.debug_list().entries(v).finish(),
            Val::Struct(a, b) => f.debug_struct("S").field("a", a).field("b", b).finish(),
            Val::Options => write!(
                f,
                "w{:?}p{:?}f{:?}a{}s{}m{}z{}",
                f.width(),
                f.precision(),
                f.fill(),
                f.alternate(),
                f.sign_plus(),
                f.sign_minus(),
                f.sign_aware_zero_pad()
            ),
        }
    }

    pub fn writes_esc(&self) -> bool {
        match self {
            Val::Str(s) | Val::Pad(s) => s.contains('\x1b'),
            Val::Chunks(c) => c.iter().any(|s| s.contains('\x1b')),
            Val::Char(c) => *c == '\x1b',
            _ => false,
        }
    }
}

pub fn ch(esc: bool) -> BoxedStrategy<char> {
    let base = prop_oneof![
        5 => prop::char::range('a', 'z'),
        2 => prop::char::range('0', '9'),
        2 => prop::sample::select(vec!['m', '[', ';', ' ', '\n', '\t', '"', '\\', '\0', '{', '}', '─', 'é', '\u{301}', '🎨', '\u{9b}']),
        1 => prop::char::any().prop_map(|c| if c == '\x1b' { 'x' } else { c }),
    ];
    if esc {
        prop_oneof![5 => base, 1 => Just('\x1b')].boxed()
    } else {
        base.boxed()
    }
}

pub fn text(esc: bool) -> BoxedStrategy<String> {
    let plain = prop::collection::vec(ch(esc), 0..12).prop_map(|v| v.into_iter().collect::<String>());
    if esc {
        prop_oneof![
            plain,
            (text(false), prop::sample::select(vec!["\x1b[0m", "\x1b[31m", "\x1b[39m", "\x1b", "\x1b[", "\x1b[m", "\x1b]8;;x\x1b\\"]), text(false))
                .prop_map(|(a, b, c)| format!("{a}{b}{c}")),
        ]
        .boxed()
    } else {
        plain.boxed()
    }
}

/// text of hundreds to thousands of bytes, around the sizes buffers tend to have
pub fn long_text() -> impl Strategy<Value = String> {
    let len = prop_oneof![
        2 => 60usize..600,
        2 => (5u32..13, 0usize..5).prop_map(|(k, d)| (1usize << k) + d - 2),
        1 => 600usize..5000,
    ];
    (text(false), ch(false), len).prop_map(|(t, c, n)| {
        let mut s = t;
        s.push(c);
        let unit = s.clone();
        while s.len() < n {
            s.push_str(&unit);
        }
        while s.len() > n && s.pop().is_some() {}
        while s.len() < n {
            s.push('x');
        }
        s
    })
}

/// values whose text is long
pub fn long_val() -> impl Strategy<Value = Val> {
    prop_oneof![
        long_text().prop_map(Val::Str),
        long_text().prop_map(Val::Pad),
        prop::collection::vec(long_text(), 1..3).prop_map(Val::Chunks),
        prop::collection::vec(text(false), 60..400).prop_map(Val::Chunks),
        prop::collection::vec(any::<i16>(), 50..400).prop_map(Val::List),
    ]
}

/// `esc`: the text may contain the escape character itself
pub fn val(esc: bool) -> impl Strategy<Value = Val> {
    prop_oneof![
        2 => prop_oneof![any::<i64>(), -20i64..300].prop_map(Val::Int),
        1 => any::<u8>().prop_map(Val::Byte),
        1 => any::<(u64, u64)>().prop_map(|(a, b)| Val::Big(a, b)),
        1 => prop_oneof![any::<u64>(), any::<i32>().prop_map(|x| (x as f64 / 64.).to_bits())].prop_map(Val::F64),
        1 => any::<u32>().prop_map(Val::F32),
        3 => text(esc).prop_map(Val::Str),
        1 => ch(esc).prop_map(Val::Char),
        1 => any::<bool>().prop_map(Val::Bool),
        1 => any::<u64>().prop_map(Val::Ptr),
        2 => text(esc).prop_map(Val::Pad),
        1 => (any::<bool>(), text(false)).prop_map(|(a, b)| Val::Integral(a, b)),
        2 => prop::collection::vec(text(esc), 0..5).prop_map(Val::Chunks),
        1 => prop::collection::vec(any::<i16>(), 0..4).prop_map(Val::List),
        1 => (any::<i16>(), text(false)).prop_map(|(a, b)| Val::Struct(a, b)),
        1 => Just(Val::Options),
    ]
}

pub fn tr() -> impl Strategy<Value = Tr> {
    prop_oneof![2 => Just(Tr::Display), 7 => prop::sample::select(crate::fmtspec::TRAITS.to_vec())]
}
