//! Arbitrary format specifications, applied through the same machinery `format!` uses.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::{self, Formatter, FormattingOptions};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub struct FmtSpec {
    pub fill: char,
    /// 0 none, 1 left, 2 center, 3 right
    pub align: u8,
    pub width: Option<u16>,
    pub precision: Option<u16>,
    /// 0 none, 1 plus, 2 minus
    pub sign: u8,
    pub alternate: bool,
    pub zero: bool,
    /// 0 none, 1 lower, 2 upper
    pub hex: u8,
}

impl FmtSpec {
    pub const PLAIN: FmtSpec = FmtSpec {
        fill: ' ',
        align: 0,
        width: None,
        precision: None,
        sign: 0,
        alternate: false,
        zero: false,
        hex: 0,
    };

    pub fn is_plain(&self) -> bool {
        *self == Self::PLAIN
    }

    pub fn options(&self) -> FormattingOptions {
        let mut o = FormattingOptions::new();
        o.fill(self.fill)
            .align(match self.align {
                1 => Some(fmt::Alignment::Left),
                2 => Some(fmt::Alignment::Center),
                3 => Some(fmt::Alignment::Right),
                _ => None,
            })
            .width(self.width)
            .precision(self.precision)
            .sign(match self.sign {
                1 => Some(fmt::Sign::Plus),
                2 => Some(fmt::Sign::Minus),
                _ => None,
            })
            .alternate(self.alternate)
            .sign_aware_zero_pad(self.zero)
            .debug_as_hex(match self.hex {
                1 => Some(fmt::DebugAsHex::Lower),
                2 => Some(fmt::DebugAsHex::Upper),
                _ => None,
            });
        o
    }

    /// What a formatter created from `self` looks like from the inside
    pub fn seen_by(f: &Formatter<'_>) -> String {
        format!("{:?}", f.options())
    }

    pub fn seen(&self) -> String {
        format!("{:?}", self.options())
    }

    /// Run `g` with a formatter of this specification writing to `w`
    pub fn with(
        &self,
        w: &mut dyn fmt::Write,
        g: impl FnOnce(&mut Formatter<'_>) -> fmt::Result,
    ) -> fmt::Result {
        let mut f = Formatter::new(w, self.options());
        g(&mut f)
    }

    pub fn to_string(&self, g: impl FnOnce(&mut Formatter<'_>) -> fmt::Result) -> Result<String, fmt::Error> {
        let mut s = String::new();
        self.with(&mut s, g)?;
        Ok(s)
    }
}

pub fn spec() -> impl Strategy<Value = FmtSpec> {
    let full = (
        prop_oneof![
            3 => Just(' '),
            2 => prop::sample::select(vec!['*', '0', '-', '─', '😀', 'm', '[', ';']),
        ],
        0u8..4,
        prop_oneof![2 => Just(None), 4 => (0u16..40).prop_map(Some), 1 => (40u16..300).prop_map(Some)],
        prop_oneof![3 => Just(None), 2 => (0u16..12).prop_map(Some)],
        0u8..3,
        any::<bool>(),
        prop::bool::weighted(0.25),
        prop_oneof![4 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)],
    )
        .prop_map(
            |(fill, align, width, precision, sign, alternate, zero, hex)| FmtSpec {
                fill,
                align,
                width,
                precision,
                sign,
                alternate,
                zero,
                hex,
            },
        );
    prop_oneof![1 => Just(FmtSpec::PLAIN), 5 => full]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub enum Tr {
    Display,
    Debug,
    Binary,
    Octal,
    Pointer,
    LowerExp,
    UpperExp,
    LowerHex,
    UpperHex,
}

pub const TRAITS: [Tr; 9] = [
    Tr::Display,
    Tr::Debug,
    Tr::Binary,
    Tr::Octal,
    Tr::Pointer,
    Tr::LowerExp,
    Tr::UpperExp,
    Tr::LowerHex,
    Tr::UpperHex,
];

/// All nine formatting traits at once
pub trait AllFmt:
    fmt::Display
    + fmt::Debug
    + fmt::Binary
    + fmt::Octal
    + fmt::Pointer
    + fmt::LowerExp
    + fmt::UpperExp
    + fmt::LowerHex
    + fmt::UpperHex
{
    fn fmt_by(&self, tr: Tr, f: &mut Formatter<'_>) -> fmt::Result {
        match tr {
            Tr::Display => fmt::Display::fmt(self, f),
            Tr::Debug => fmt::Debug::fmt(self, f),
            Tr::Binary => fmt::Binary::fmt(self, f),
            Tr::Octal => fmt::Octal::fmt(self, f),
            Tr::Pointer => fmt::Pointer::fmt(self, f),
            Tr::LowerExp => fmt::LowerExp::fmt(self, f),
            Tr::UpperExp => fmt::UpperExp::fmt(self, f),
            Tr::LowerHex => fmt::LowerHex::fmt(self, f),
            Tr::UpperHex => fmt::UpperHex::fmt(self, f),
        }
    }
}

impl<T> AllFmt for T where
    T: fmt::Display
        + fmt::Debug
        + fmt::Binary
        + fmt::Octal
        + fmt::Pointer
        + fmt::LowerExp
        + fmt::UpperExp
        + fmt::LowerHex
        + fmt::UpperHex
        + ?Sized
{
}

/// A value whose formatting, under every trait, is decided by a closure
#[derive(Clone, Copy)]
pub struct TV<'a>(pub &'a dyn Fn(Tr, &mut Formatter<'_>) -> fmt::Result);

macro_rules! tv {
    ($($t:ident)*) => {$(
        impl fmt::$t for TV<'_> {
            fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
                (self.0)(Tr::$t, f)
            }
        }
    )*};
}
tv!(Display Debug Binary Octal Pointer LowerExp UpperExp LowerHex UpperHex);
