//! Styles by description: representation, the three colors, effects.

use crate::ops::{hex, Res};
use std::fmt::Write;
use colorz::mode::Stream;
use colorz::{ansi, css, rgb, xterm, Color, NoColor, OptionalColor, Style, StyledValue, WriteColor};

use crate::noise::EFFECTS;

const TEXT: &str = "text";

pub struct Buf {
    data: [u8; 256],
    len: usize,
}
impl Buf {
    pub fn bytes(&self) -> &[u8] {
        &self.data[..self.len]
    }
}
impl Write for Buf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let end = self.len + s.len();
        self.data.get_mut(self.len..end).ok_or(std::fmt::Error)?.copy_from_slice(s.as_bytes());
        self.len = end;
        Ok(())
    }
}

fn style<F: OptionalColor, B: OptionalColor, U: OptionalColor>(
    op: u8,
    stream: Option<Stream>,
    s: Style<F, B, U>,
    fx: u16,
) -> Res {
    let mut s = s;
    for (i, e) in EFFECTS.iter().enumerate() {
        if fx >> i & 1 != 0 {
            s = s.with(*e);
        }
    }
    match op {
        b'Y' => if s.should_color(stream) { "1" } else { "0" }.into(),
        b'P' => {
            let before = u8::from(s.should_color(stream));
            let v = StyledValue::new(TEXT, s, stream);
            let text = format!("{v}");
            let after = u8::from(v.style.should_color(stream));
            let (a, c) = (format!("{}", v.style.apply()), format!("{}", v.style.clear()));
            let (text, a, c) = (hex(text.as_bytes()), hex(a.as_bytes()), hex(c.as_bytes()));
            Res::Heap(format!("{before}{after}/{text}/{a}/{c}"))
        }
        b'Q' => {
            let mut b = Buf { data: [0; 256], len: 0 };
            match write!(b, "{}", StyledValue::new(TEXT, s, stream)) {
                Ok(()) => Res::Text(b),
                Err(_) => Res::S("ERR"),
            }
        }
        b'R' => Res::Heap(format!(
            "{}/{}",
            hex(format!("{}", s.apply()).as_bytes()),
            hex(format!("{}", s.clear()).as_bytes())
        )),
        _ => unreachable!(),
    }
}

macro_rules! cross {
    ($c:expr, $k:expr; $($i:literal $v:expr),*) => {
        cross!(@f $c, $k; [$($i $v),*] [$($i $v),*])
    };
    (@f $c:expr, $k:expr; $all:tt [$($i:literal $v:expr),*]) => {
        match $c[0] { $($i => cross!(@b $c, $k; $v, $all $all),)* _ => panic!() }
    };
    (@b $c:expr, $k:expr; $f:expr, $all:tt [$($i:literal $v:expr),*]) => {
        match $c[1] { $($i => cross!(@u $c, $k; $f, $v, $all),)* _ => panic!() }
    };
    (@u $c:expr, $k:expr; $f:expr, $b:expr, [$($i:literal $v:expr),*]) => {
        match $c[2] { $($i => $k(Style::new().fg($f).bg($b).underline_color($v)),)* _ => panic!() }
    };
}

fn an_ansi(tone: u16) -> ansi::AnsiColor {
    use ansi::AnsiColor::*;
    const ALL: [ansi::AnsiColor; 17] = [
        Black, Red, Green, Yellow, Blue, Magenta, Cyan, White, BrightBlack, BrightRed, BrightGreen, BrightYellow, BrightBlue,
        BrightMagenta, BrightCyan, BrightWhite, Default,
    ];
    ALL[(1 + usize::from(tone)) % 17]
}
fn an_xterm(tone: u16) -> xterm::XtermColor {
    xterm::XtermColor::from_code(122u8.wrapping_add(tone as u8))
}
fn a_css(tone: u16) -> css::CssColor {
    use css::CssColor::*;
    const SOME: [css::CssColor; 12] =
        [Coral, Black, White, Red, Lime, Blue, AliceBlue, YellowGreen, Gray, Gold, RebeccaPurple, Tan];
    SOME[usize::from(tone) % 12]
}
fn an_rgb(tone: u16) -> rgb::RgbColor {
    let [red, green, blue] = [(1u8, tone), (2, tone >> 8), (3, tone >> 4)].map(|(c, t)| c.wrapping_add(t as u8));
    rgb::RgbColor { red, green, blue }
}

fn runtime(c: u8, tone: u16) -> Option<Color> {
    Some(match c {
        b'z' => return None,
        b'a' => Color::Ansi(an_ansi(tone)),
        b'x' => Color::Xterm(an_xterm(tone)),
        b'c' => Color::Css(a_css(tone)),
        b'r' => Color::Rgb(an_rgb(tone)),
        _ => panic!("color {c}"),
    })
}

/// `d` is: representation, foreground, background, underline color, effects, tone
pub fn act(op: u8, stream: Option<Stream>, d: &[u8]) -> Res {
    let c = &d[1..4];
    let number = |at: &[u8]| at.iter().fold(0, |n, b| n << 4 | (*b as char).to_digit(16).unwrap() as u16);
    let (fx, tone) = (number(&d[4..8]), number(&d[8..12]));
    match d[0] {
        b'o' => {
            let [f, b, u] = [(0, 0), (1, 5), (2, 11)].map(|(i, by)| runtime(c[i], tone.rotate_left(by)));
            style(op, stream, Style::new().fg(f).bg(b).underline_color(u), fx)
        }
        b's' => cross!(c, |s| style(op, stream, s, fx);
            b'z' NoColor, b'a' ansi::Red, b'x' xterm::Aquamarine, b'c' css::Coral, b'r' rgb::Rgb::<1, 2, 3>),
        b'd' => cross!(c, |s| style(op, stream, s, fx);
            b'z' None::<ansi::AnsiColor>, b'a' an_ansi(tone), b'x' Some(an_xterm(tone)),
            b'c' a_css(tone), b'r' an_rgb(tone)),
        _ => panic!(),
    }
}

fn fmt_codes(c: impl WriteColor + Copy) -> [String; 3] {
    struct W<C>(C, u8);
    impl<C: WriteColor + Copy> std::fmt::Display for W<C> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            match self.1 {
                0 => self.0.fmt_foreground(f),
                1 => self.0.fmt_background(f),
                _ => self.0.fmt_underline(f),
            }
        }
    }
    [W(c, 0).to_string(), W(c, 1).to_string(), W(c, 2).to_string()]
}

/// A color's own sequences for the three layers, written in every way there is
pub fn codes(c: u8) -> String {
    let mut v: Vec<String> = Vec::new();
    macro_rules! named {
        ($s:expr, $d:expr) => {{
            v.extend([$s.foreground_escape(), $s.background_escape(), $s.underline_escape()].map(String::from));
            v.extend([$d.foreground_escape(), $d.background_escape(), $d.underline_escape()].map(String::from));
            v.extend(fmt_codes($s));
            v.extend(fmt_codes($d));
        }};
    }
    use colorz::ColorSpec;
    match c {
        b'a' => named!(ansi::Red, ansi::AnsiColor::Red),
        b'x' => named!(xterm::Aquamarine, xterm::XtermColor::Aquamarine),
        b'c' => named!(css::Coral, css::CssColor::Coral),
        b'r' => {
            let d = rgb::RgbColor { red: 1, green: 2, blue: 3 };
            v.extend(
                [
                    rgb::Rgb::<1, 2, 3>::FOREGROUND_ESCAPE,
                    rgb::Rgb::<1, 2, 3>::BACKGROUND_ESCAPE,
                    rgb::Rgb::<1, 2, 3>::UNDERLINE_ESCAPE,
                ]
                .map(String::from),
            );
            v.extend(fmt_codes(rgb::Rgb::<1, 2, 3>));
            v.extend(fmt_codes(d));
        }
        _ => panic!(),
    }
    v.extend(fmt_codes(runtime(c, 0).unwrap()));
    v.iter().map(|s| hex(s.as_bytes())).collect::<Vec<_>>().join("/")
}
