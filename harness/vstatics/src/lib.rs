//! One row of observations per compile-time color: its constants, its codes through both
//! traits, and every conversion offered.  (Unoptimized: it instantiates hundreds of types.)

use colorz::{
    ansi, css, mode::ColorKind, rgb, xterm, Color, ColorSpec, ComptimeColor, OptionalColor, WriteColor,
};
use std::fmt::{self, Formatter};
use vcore::model::{Col, Layer, Layer::*};

/// A code of a color: in which layer, whether the full escape, by which route, the text
pub type Code = (Layer, bool, &'static str, String);

pub struct Row {
    pub col: Col,
    pub codes: Vec<Code>,
    /// the layer-independent arguments, where the color has them
    pub bare: Vec<(&'static str, String)>,
    /// conversion route and result
    pub conv: Vec<(&'static str, Option<Color>)>,
    pub kinds: Vec<(&'static str, ColorKind)>,
}

struct Show<F>(F);
impl<F: Fn(&mut Formatter<'_>) -> fmt::Result> fmt::Display for Show<F> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        (self.0)(f)
    }
}
fn show(f: &dyn Fn(&mut Formatter<'_>) -> fmt::Result) -> String {
    let mut s = String::new();
    match fmt::write(&mut s, format_args!("{}", Show(f))) {
        Ok(()) => s,
        Err(_) => s + "<error>",
    }
}

fn write_code<C: WriteColor>(c: C, i: usize, f: &mut Formatter<'_>) -> fmt::Result {
    match i {
        0 => c.fmt_foreground_args(f),
        1 => c.fmt_background_args(f),
        2 => c.fmt_underline_args(f),
        3 => c.fmt_foreground(f),
        4 => c.fmt_background(f),
        _ => c.fmt_underline(f),
    }
}
const CODES: [(Layer, bool); 6] = [(Fg, false), (Bg, false), (Ul, false), (Fg, true), (Bg, true), (Ul, true)];

/// All six codes of a color through `WriteColor`
pub fn write_codes<C: WriteColor + Copy>(c: C, route: &'static str, out: &mut Vec<Code>) {
    for (i, (l, e)) in CODES.iter().enumerate() {
        out.push((*l, *e, route, show(&|f| write_code(c, i, f))));
    }
}
/// All six codes of a color through `ColorSpec`
pub fn spec_codes<C: ColorSpec + Copy>(c: C, route: &'static str, out: &mut Vec<Code>) {
    for (i, (l, e)) in CODES.iter().enumerate() {
        out.push((*l, *e, route, spec_code(c, i).into()));
    }
}
fn spec_code<C: ColorSpec>(c: C, i: usize) -> &'static str {
    match i {
        0 => c.foreground_args(),
        1 => c.background_args(),
        2 => c.underline_args(),
        3 => c.foreground_escape(),
        4 => c.background_escape(),
        _ => c.underline_escape(),
    }
}

/// What differs per type, kept small
trait Probe {
    fn spec(&self, i: usize) -> &'static str;
    fn write(&self, i: usize, f: &mut Formatter<'_>) -> fmt::Result;
    fn write_dyn(&self, i: usize, f: &mut Formatter<'_>) -> fmt::Result;
    fn conv(&self) -> [Option<Color>; 8];
    fn kinds(&self) -> [ColorKind; 5];
}

impl<C> Probe for C
where
    C: ColorSpec + ComptimeColor + Copy + Into<Color> + Into<Option<Color>> + Into<C::Dynamic>,
    C::Dynamic: Into<Color> + Into<Option<Color>> + Copy,
{
    fn spec(&self, i: usize) -> &'static str {
        spec_code(*self, i)
    }
    fn write(&self, i: usize, f: &mut Formatter<'_>) -> fmt::Result {
        write_code(*self, i, f)
    }
    fn write_dyn(&self, i: usize, f: &mut Formatter<'_>) -> fmt::Result {
        write_code(self.into_dynamic(), i, f)
    }
    fn conv(&self) -> [Option<Color>; 8] {
        let c = *self;
        let as_dyn: C::Dynamic = c.into();
        [
            Some(c.into_dynamic().into()),
            Some(as_dyn.into()),
            c.into_dynamic().into(),
            Some(c.into()),
            c.into(),
            C::VALUE,
            back(OptionalColor::get(c)),
            back(OptionalColor::get(Some(c))),
        ]
    }
    fn kinds(&self) -> [ColorKind; 5] {
        let c = *self;
        [
            <C as ColorSpec>::KIND,
            WriteColor::color_kind(c),
            OptionalColor::color_kind(c),
            OptionalColor::color_kind(Some(c)),
            WriteColor::color_kind(c.into_dynamic()),
        ]
    }
}
fn back<C: Into<Color>>(c: Option<C>) -> Option<Color> {
    match c {
        Some(c) => Some(c.into()),
        None => None,
    }
}

const CONV: [&str; 8] = [
    "into_dynamic",
    "From for the runtime enum",
    "into_dynamic, then From for Option<Color>",
    "From for Color",
    "From for Option<Color>",
    "ComptimeColor::VALUE",
    "OptionalColor::get",
    "OptionalColor::get of Some",
];
const KINDS: [&str; 5] = [
    "ColorSpec::KIND",
    "WriteColor::color_kind",
    "OptionalColor::color_kind",
    "OptionalColor::color_kind of Some",
    "WriteColor::color_kind of into_dynamic",
];

fn common(col: Col, c: &dyn Probe) -> Row {
    let mut codes = Vec::new();
    for (i, (l, e)) in CODES.iter().enumerate() {
        codes.push((*l, *e, "ColorSpec", c.spec(i).into()));
        codes.push((*l, *e, "WriteColor", show(&|f| c.write(i, f))));
        codes.push((*l, *e, "WriteColor of into_dynamic", show(&|f| c.write_dyn(i, f))));
    }
    let conv: Vec<_> = CONV.iter().copied().zip(c.conv()).collect();
    let mut kinds: Vec<_> = KINDS.iter().copied().zip(c.kinds()).collect();
    if let Some(generic) = conv[3].1 {
        write_codes(generic, "WriteColor of Color", &mut codes);
        kinds.push(("WriteColor::color_kind of Color", WriteColor::color_kind(generic)));
        kinds.push(("OptionalColor::color_kind of Color", OptionalColor::color_kind(generic)));
        kinds.push(("OptionalColor::color_kind of Option<Color>", OptionalColor::color_kind(Some(generic))));
    }
    Row { col, codes, bare: Vec::new(), conv, kinds }
}

fn const_codes(r: &mut Row, fg_bg: [&'static str; 4], ul_bare: Option<[&'static str; 3]>, dynamic: Color) {
    let n = ["FOREGROUND_ARGS", "BACKGROUND_ARGS", "FOREGROUND_ESCAPE", "BACKGROUND_ESCAPE"];
    for (i, s) in fg_bg.iter().enumerate() {
        r.codes.push((if i % 2 == 0 { Fg } else { Bg }, i >= 2, n[i], (*s).into()));
    }
    if let Some([a, e, bare]) = ul_bare {
        r.codes.push((Ul, false, "UNDERLINE_ARGS", a.into()));
        r.codes.push((Ul, true, "UNDERLINE_ESCAPE", e.into()));
        r.bare.push(("ARGS", bare.into()));
    }
    r.conv.push(("DYNAMIC", Some(dynamic)));
}

macro_rules! consts {
    ($r:ident $t:ty) => {
        const_codes(&mut $r,
            [<$t>::FOREGROUND_ARGS, <$t>::BACKGROUND_ARGS, <$t>::FOREGROUND_ESCAPE, <$t>::BACKGROUND_ESCAPE],
            None, <$t>::DYNAMIC.into());
    };
    ($r:ident $t:ty, ul) => {
        const_codes(&mut $r,
            [<$t>::FOREGROUND_ARGS, <$t>::BACKGROUND_ARGS, <$t>::FOREGROUND_ESCAPE, <$t>::BACKGROUND_ESCAPE],
            Some([<$t>::UNDERLINE_ARGS, <$t>::UNDERLINE_ESCAPE, <$t>::ARGS]), <$t>::DYNAMIC.into());
    };
}

fn rgb_of(c: rgb::RgbColor) -> Option<Color> {
    Some(Color::Rgb(c))
}

macro_rules! ansi_rows { (; $($i:literal $n:ident)*) => {
    pub fn ansi_rows(out: &mut Vec<Row>) {
        $({
            #[inline(never)]
            fn row() -> Row {
            let mut r = common(Col::Ansi($i), &ansi::$n);
            consts!(r ansi::$n);
            r
            }
            out.push(row());
        })*
    }
    /// (index, route, xterm color), without the default color
    pub fn ansi_xterms() -> Vec<(u8, &'static str, xterm::XtermColor)> {
        let mut v = Vec::new();
        $({
            v.push(($i, "XTERM", xterm::XtermColor::from(ansi::$n::XTERM)));
            v.push(($i, "DYNAMIC_XTERM", ansi::$n::DYNAMIC_XTERM));
            v.push(($i, "to_xterm", ansi::AnsiColor::$n.to_xterm()));
            v.push(($i, "From<AnsiColor> for XtermColor", ansi::AnsiColor::$n.into()));
        })*
        v.retain(|x| x.0 < 16);
        v
    }
}; }
macro_rules! xterm_rows { (; $($i:tt $n:ident)*) => {
    pub fn xterm_rows(out: &mut Vec<Row>) {
        $({
            #[inline(never)]
            fn row() -> Row {
            let mut r = common(Col::Xterm($i), &xterm::$n);
            consts!(r xterm::$n, ul);
            r.conv.push(("xterm_from_code!", Some(colorz::xterm_from_code!($i).into())));
            r
            }
            out.push(row());
        })*
    }
}; }
macro_rules! css_rows { (; $($i:literal $n:ident $r:literal $g:literal $b:literal)*) => {
    pub fn css_rows(out: &mut Vec<Row>) {
        $({
            #[inline(never)]
            fn row() -> Row {
            let mut r = common(Col::Css($i), &css::$n);
            consts!(r css::$n, ul);
            r
            }
            out.push(row());
        })*
    }
    /// (index, route, value)
    pub fn css_values() -> Vec<(u8, &'static str, Option<Color>)> {
        let mut v = Vec::new();
        $({
            v.push(($i, "RGB", rgb_of(css::$n::RGB.into())));
            v.push(($i, "rgb()", rgb_of(css::CssColor::$n.rgb())));
            v.push(($i, "From<CssColor> for RgbColor", rgb_of(css::CssColor::$n.into())));
        })*
        v
    }
}; }
macro_rules! rgb_rows { (; $($i:literal $r:literal $g:literal $b:literal)*) => {
    pub fn rgb_rows(out: &mut Vec<Row>) {
        $({
            #[inline(never)]
            fn row() -> Row {
            let mut r = common(Col::Rgb($r, $g, $b), &rgb::Rgb::<$r, $g, $b>);
            consts!(r rgb::Rgb::<$r, $g, $b>, ul);
            r
            }
            out.push(row());
        })*
    }
}; }
vcore::all_ansi!(ansi_rows);
vcore::all_xterm!(xterm_rows);
vcore::all_css!(css_rows);
vcore::rgb_large!(rgb_rows);

pub fn rows() -> Vec<Row> {
    let mut v = Vec::new();
    ansi_rows(&mut v);
    xterm_rows(&mut v);
    css_rows(&mut v);
    rgb_rows(&mut v);
    v
}
