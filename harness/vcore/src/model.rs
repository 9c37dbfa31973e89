//! Cases (serializable descriptions of styles) and what they mean.

use crate::term::{State, TCol, FX};
use colorz::{ansi::AnsiColor, css::CssColor, rgb::RgbColor, xterm::XtermColor};
use colorz::{Color, Effect, EffectFlags, Style};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const EFFECTS: [Effect; 13] = [
    Effect::Bold,
    Effect::Dimmed,
    Effect::Italic,
    Effect::Underline,
    Effect::DoubleUnderline,
    Effect::Blink,
    Effect::BlinkFast,
    Effect::Reversed,
    Effect::Hidden,
    Effect::Strikethrough,
    Effect::Overline,
    Effect::SuperScript,
    Effect::SubScript,
];
pub const ALL_FX: u16 = (1 << 13) - 1;
pub const UNDERLINES: u16 = 0b11000;

pub fn fx_index(e: Effect) -> usize {
    EFFECTS.iter().position(|x| *x == e).unwrap()
}

pub fn flags(fx: u16) -> EffectFlags {
    let mut f = EffectFlags::new();
    for (i, e) in EFFECTS.iter().enumerate() {
        if fx >> i & 1 == 1 {
            f = f.with(*e);
        }
    }
    f
}

/// The effects a collection contains, by membership test
pub fn unflags(f: EffectFlags) -> u16 {
    let mut m = 0;
    for (i, e) in EFFECTS.iter().enumerate() {
        if f.is(*e) {
            m |= 1 << i;
        }
    }
    m
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub enum Col {
    /// 16 is `Default`
    Ansi(u8),
    Xterm(u8),
    /// index in the reference table
    Css(u8),
    Rgb(u8, u8, u8),
}

macro_rules! ansi_arr { (; $($i:literal $n:ident)*) => { pub const ANSI: [AnsiColor; 17] = [$(AnsiColor::$n),*]; }; }
macro_rules! xterm_arr { (; $($i:literal $n:ident)*) => {
    pub const XTERM: [XtermColor; 256] = [$(XtermColor::$n),*];
    pub const XTERM_NAMES: [&str; 256] = [$(stringify!($n)),*];
}; }
macro_rules! css_arr { (; $($i:literal $n:ident $r:literal $g:literal $b:literal)*) => {
    pub const CSS: [CssColor; 147] = [$(CssColor::$n),*];
    pub const CSS_REF: [(u8, u8, u8); 147] = [$(($r, $g, $b)),*];
    pub const CSS_NAMES: [&str; 147] = [$(stringify!($n)),*];
}; }
crate::all_ansi!(ansi_arr);
crate::all_xterm!(xterm_arr);
crate::all_css!(css_arr);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub enum Layer {
    Fg,
    Bg,
    Ul,
}
pub const LAYERS: [Layer; 3] = [Layer::Fg, Layer::Bg, Layer::Ul];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub enum Kind {
    Ansi,
    Xterm,
    Rgb,
}

impl Col {
    /// What the terminal shows when this color is selected in a layer
    pub fn tcol(self, layer: Layer) -> TCol {
        match (self, layer) {
            (Col::Ansi(16), _) => TCol::Default,
            (Col::Ansi(n), Layer::Ul) => TCol::Palette(n),
            (Col::Ansi(n), _) => TCol::Base(n),
            (Col::Xterm(n), _) => TCol::Palette(n),
            (Col::Css(i), _) => {
                let (r, g, b) = CSS_REF[i as usize];
                TCol::Rgb(r, g, b)
            }
            (Col::Rgb(r, g, b), _) => TCol::Rgb(r, g, b),
        }
    }

    /// The canonical SGR arguments of this color in a layer
    pub fn args(self, layer: Layer) -> String {
        let base = match layer {
            Layer::Fg => 38,
            Layer::Bg => 48,
            Layer::Ul => 58,
        };
        match (self, layer) {
            (Col::Ansi(16), _) => (base + 1).to_string(),
            (Col::Ansi(n), Layer::Ul) => format!("58;5;{n}"),
            (Col::Ansi(n @ 0..=7), Layer::Fg) => (30 + n as u16).to_string(),
            (Col::Ansi(n), Layer::Fg) => (90 + n as u16 - 8).to_string(),
            (Col::Ansi(n @ 0..=7), Layer::Bg) => (40 + n as u16).to_string(),
            (Col::Ansi(n), Layer::Bg) => (100 + n as u16 - 8).to_string(),
            (Col::Xterm(n), _) => format!("{base};5;{n}"),
            (Col::Css(i), _) => {
                let (r, g, b) = CSS_REF[i as usize];
                format!("{base};2;{r};{g};{b}")
            }
            (Col::Rgb(r, g, b), _) => format!("{base};2;{r};{g};{b}"),
        }
    }

    pub fn kind(self) -> Kind {
        match self {
            Col::Ansi(_) => Kind::Ansi,
            Col::Xterm(_) => Kind::Xterm,
            Col::Css(_) | Col::Rgb(..) => Kind::Rgb,
        }
    }

    /// Built from the enum variants directly, not through the crate's conversions
    pub fn color(self) -> Color {
        match self {
            Col::Ansi(n) => Color::Ansi(ANSI[n as usize]),
            Col::Xterm(n) => Color::Xterm(XTERM[n as usize]),
            Col::Css(n) => Color::Css(CSS[n as usize]),
            Col::Rgb(red, green, blue) => Color::Rgb(RgbColor { red, green, blue }),
        }
    }
}

impl Kind {
    pub fn real(self) -> colorz::mode::ColorKind {
        match self {
            Kind::Ansi => colorz::mode::ColorKind::Ansi,
            Kind::Xterm => colorz::mode::ColorKind::Xterm,
            Kind::Rgb => colorz::mode::ColorKind::Rgb,
        }
    }
}

/// What a style means, independent of the types it is held in
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub struct Desc {
    pub fg: Option<Col>,
    pub bg: Option<Col>,
    pub ul: Option<Col>,
    pub fx: u16,
}

impl Desc {
    pub const EMPTY: Desc = Desc {
        fg: None,
        bg: None,
        ul: None,
        fx: 0,
    };

    /// the type-erased style, assembled field by field
    pub fn runtime(&self) -> Style {
        let mut s: Style = Style::new().into_runtime_style();
        s.foreground = self.fg.map(Col::color);
        s.background = self.bg.map(Col::color);
        s.underline_color = self.ul.map(Col::color);
        s.effects = flags(self.fx);
        s
    }

    fn ul_active(&self) -> Option<Col> {
        self.ul.filter(|_| self.fx & UNDERLINES != 0)
    }

    pub fn is_plain(&self) -> bool {
        self.fg.is_none() && self.bg.is_none() && self.fx == 0
    }

    /// the terminal state after the style is applied in state `s`
    pub fn applied(&self, s: State) -> State {
        State {
            fg: self.fg.map_or(s.fg, |c| c.tcol(Layer::Fg)),
            bg: self.bg.map_or(s.bg, |c| c.tcol(Layer::Bg)),
            ul: self.ul_active().map_or(s.ul, |c| c.tcol(Layer::Ul)),
            fx: s.fx | self.fx,
        }
    }

    /// effects that the style's effects share an end code with (including themselves)
    pub fn fx_groups(&self) -> u16 {
        let mut m = 0;
        for (i, (_, _, g)) in FX.iter().enumerate() {
            if self.fx >> i & 1 == 1 {
                m |= g;
            }
        }
        m
    }

    /// check the state after the style's end sequence was written in state `s`
    pub fn check_cleared(&self, s: State, after: State) -> Result<(), String> {
        let want_fg = if self.fg.is_some() { TCol::Default } else { s.fg };
        let want_bg = if self.bg.is_some() { TCol::Default } else { s.bg };
        let want_ul = if self.ul_active().is_some() { TCol::Default } else { s.ul };
        if after.fg != want_fg {
            return Err(format!("foreground is {:?} after clear, want {:?}", after.fg, want_fg));
        }
        if after.bg != want_bg {
            return Err(format!("background is {:?} after clear, want {:?}", after.bg, want_bg));
        }
        if after.ul != want_ul {
            return Err(format!("underline color is {:?} after clear, want {:?}", after.ul, want_ul));
        }
        if after.fx & self.fx != 0 {
            return Err(format!("effects {:#b} still on after clear of {:#b}", after.fx & self.fx, self.fx));
        }
        let g = self.fx_groups();
        if after.fx & !g != s.fx & !g {
            return Err(format!(
                "clear changed effects the style does not control: {:#b} -> {:#b} (style {:#b})",
                s.fx, after.fx, self.fx
            ));
        }
        Ok(())
    }

    /// color kinds used, `None` for absent colors
    pub fn kinds(&self) -> [Option<Kind>; 3] {
        [self.fg, self.bg, self.ul].map(|c| c.map(Col::kind))
    }
}

pub fn edge_u8() -> impl Strategy<Value = u8> {
    prop_oneof![
        2 => any::<u8>(),
        2 => prop::sample::select(vec![0u8, 1, 7, 8, 9, 10, 11, 15, 16, 90, 99, 100, 101, 109, 110, 111, 127, 128, 199, 200, 249, 250, 254, 255]),
        1 => 0u8..30,
        1 => 90u8..120,
    ]
}

pub fn col() -> impl Strategy<Value = Col> {
    prop_oneof![
        2 => (0u8..17).prop_map(Col::Ansi),
        2 => edge_u8().prop_map(Col::Xterm),
        2 => (0u8..147).prop_map(Col::Css),
        2 => (edge_u8(), edge_u8(), edge_u8()).prop_map(|(r, g, b)| Col::Rgb(r, g, b)),
    ]
}

pub fn fx() -> impl Strategy<Value = u16> {
    prop_oneof![
        2 => Just(0u16),
        3 => (0u16..13).prop_map(|i| 1 << i),
        3 => (0u16..13, 0u16..13).prop_map(|(i, j)| 1 << i | 1 << j),
        3 => 0u16..8192,
        1 => (0u16..13).prop_map(|i| ALL_FX & !(1 << i)),
        2 => (0u16..13, 3u16..5).prop_map(|(i, j)| 1 << i | 1 << j),
    ]
}

/// The same color, or one that resembles it: of another kind, a neighbour, with channels swapped
pub fn kin(c: Col, how: u8) -> Col {
    let rgb = match c {
        Col::Css(i) => CSS_REF[i as usize],
        Col::Rgb(r, g, b) => (r, g, b),
        Col::Xterm(n) if (16..232).contains(&n) => {
            let level = |v: u8| [0, 95, 135, 175, 215, 255][v as usize % 6];
            (level((n - 16) / 36), level((n - 16) / 6), level(n - 16))
        }
        Col::Ansi(n) | Col::Xterm(n) => (n, n, n),
    };
    match (how % 8, c) {
        (0..=2, _) => c,
        (3, Col::Ansi(n)) => Col::Xterm(n),
        (3, Col::Xterm(n)) if n < 16 => Col::Ansi(n),
        (3, Col::Rgb(..)) => CSS_REF.iter().position(|x| *x == rgb).map_or(c, |i| Col::Css(i as u8)),
        (3 | 4, _) => Col::Rgb(rgb.0, rgb.1, rgb.2),
        (5, Col::Ansi(n)) => Col::Ansi((n + 8) % 16),
        (5, Col::Xterm(n)) => Col::Xterm(n.wrapping_add(1)),
        (5, Col::Css(n)) => Col::Css((n + 1) % 147),
        (5, _) => Col::Rgb(rgb.0, rgb.1, rgb.2.wrapping_add(1)),
        (6, _) => Col::Rgb(rgb.2, rgb.1, rgb.0),
        (_, Col::Css(_)) => c,
        _ => Col::Xterm(rgb.0),
    }
}

pub fn desc() -> impl Strategy<Value = Desc> {
    let kinship = prop_oneof![2 => Just((None, None)), 1 => any::<(Option<u8>, Option<u8>)>()];
    (
        prop::option::of(col()),
        prop::option::of(col()),
        prop::option::of(col()),
        fx(),
        kinship,
    )
        .prop_map(|(fg, bg, ul, fx, (a, b))| {
            let like = |c: Option<Col>, how: Option<u8>| match (c, fg, how) {
                (Some(_), Some(fg), Some(how)) => Some(kin(fg, how)),
                _ => c,
            };
            Desc { fg, bg: like(bg, a), ul: like(ul, b), fx }
        })
}

pub fn tcol() -> impl Strategy<Value = TCol> {
    prop_oneof![
        1 => Just(TCol::Default),
        1 => (0u8..16).prop_map(TCol::Base),
        1 => any::<u8>().prop_map(TCol::Palette),
        1 => any::<(u8, u8, u8)>().prop_map(|(r, g, b)| TCol::Rgb(r, g, b)),
    ]
}

pub fn state() -> impl Strategy<Value = State> {
    (
        tcol(),
        tcol(),
        // the underline layer has no base colors
        tcol().prop_map(|t| match t {
            TCol::Base(n) => TCol::Palette(n),
            t => t,
        }),
        0u16..8192,
    )
        .prop_map(|(fg, bg, ul, fx)| State { fg, bg, ul, fx })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub enum M {
    Detect,
    Always,
    Never,
}
pub const MODES: [M; 3] = [M::Detect, M::Always, M::Never];
impl M {
    pub fn real(self) -> colorz::mode::Mode {
        match self {
            M::Detect => colorz::mode::Mode::Detect,
            M::Always => colorz::mode::Mode::Always,
            M::Never => colorz::mode::Mode::Never,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub enum S {
    Stdout,
    Stderr,
    Always,
    Never,
}
pub const STREAMS: [S; 4] = [S::Stdout, S::Stderr, S::Always, S::Never];
impl S {
    pub fn real(self) -> colorz::mode::Stream {
        use colorz::mode::Stream;
        match self {
            S::Stdout => Stream::Stdout,
            S::Stderr => Stream::Stderr,
            S::Always => Stream::AlwaysColor,
            S::Never => Stream::NeverColor,
        }
    }
}

pub fn mode() -> impl Strategy<Value = M> {
    prop::sample::select(MODES.to_vec())
}
pub fn stream() -> impl Strategy<Value = S> {
    prop::sample::select(STREAMS.to_vec())
}

pub const STRIP: bool = cfg!(feature = "strip-colors");

/// The documented precedence; `None` when detection decides
pub fn decide(mode: M, stream: Option<S>, default: S) -> Option<bool> {
    if STRIP {
        return Some(false);
    }
    match mode {
        M::Always => return Some(true),
        M::Never => return Some(false),
        M::Detect => {}
    }
    match stream.unwrap_or(default) {
        S::Always => Some(true),
        S::Never => Some(false),
        _ if cfg!(not(any(feature = "std", feature = "supports-color"))) => Some(true),
        _ => None,
    }
}
