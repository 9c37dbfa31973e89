use colorz::{ansi, css, mode, rgb, xterm, Color, Colorize, Effect, EffectFlags, NoColor, OptionalColor, Style, StyledValue};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::model::*;
use vcore::run::*;
use vcore::{ensure, ensure_eq};

/// A color as given to a builder: nothing, a compile-time color, a generic color, or an
/// optional generic color
#[derive(Clone, Copy, PartialEq, Debug, Hash, Serialize, Deserialize)]
enum Given {
    None,
    Static,
    Generic(Col),
    Opt(Option<Col>),
}

#[derive(Clone, Copy, PartialEq, Debug, Hash, Serialize, Deserialize)]
enum Slot {
    Fg,
    Bg,
    Ul,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    Color(Slot, Given),
    /// the named effect method
    Effect(u8),
    // on styles only
    With(u8),
    Without(u8),
    Toggled(u8),
    Effects(Vec<u8>),
    EffectRefs(Vec<u8>),
    Array(Vec<u8>),
    Flags(u16),
    ClearEffects,
    // on styled values only
    NamedFg(u8),
    NamedBg(u8),
    Stream(S),
    StreamOpt(Option<S>),
}

/// The compile-time colors used in the three slots
type F1 = ansi::BrightCyan;
type B1 = xterm::DarkOliveGreen3;
type U1 = rgb::Rgb<9, 100, 255>;
const F1_COL: Col = Col::Ansi(14);
const B1_COL: Col = Col::Xterm(149);
const U1_COL: Col = Col::Rgb(9, 100, 255);

#[derive(Clone, Copy, PartialEq, Debug)]
struct Model {
    fg: Option<Col>,
    bg: Option<Col>,
    ul: Option<Col>,
    fx: u16,
    stream: Option<S>,
}
const EMPTY: Model = Model { fg: None, bg: None, ul: None, fx: 0, stream: None };

fn mask(v: &[u8]) -> u16 {
    v.iter().fold(0, |m, i| m | 1 << i)
}

impl Model {
    fn step(mut self, op: &Op) -> Model {
        match op {
            Op::Color(slot, g) => {
                let stat = match slot {
                    Slot::Fg => F1_COL,
                    Slot::Bg => B1_COL,
                    Slot::Ul => U1_COL,
                };
                let c = match g {
                    Given::None => None,
                    Given::Static => Some(stat),
                    Given::Generic(c) => Some(*c),
                    Given::Opt(c) => *c,
                };
                match slot {
                    Slot::Fg => self.fg = c,
                    Slot::Bg => self.bg = c,
                    Slot::Ul => self.ul = c,
                }
            }
            Op::Effect(i) | Op::With(i) => self.fx |= 1 << i,
            Op::Without(i) => self.fx &= !(1 << i),
            Op::Toggled(i) => self.fx ^= 1 << i,
            Op::Effects(v) | Op::EffectRefs(v) | Op::Array(v) => self.fx = mask(v),
            Op::Flags(m) => self.fx = *m,
            Op::ClearEffects => self.fx = 0,
            Op::NamedFg(i) => self.fg = Some(Col::Ansi(*i)),
            Op::NamedBg(i) => self.bg = Some(Col::Ansi(*i)),
            Op::Stream(s) => self.stream = Some(*s),
            Op::StreamOpt(s) => self.stream = *s,
        }
        self
    }
}

trait Held: OptionalColor + Into<Option<Color>> + Copy + 'static {}
impl<T: OptionalColor + Into<Option<Color>> + Copy + 'static> Held for T {}

fn look<C: Held>(c: C) -> Option<Color> {
    c.into()
}

/// What there is to see of a style, out of its types
struct Seen {
    colors: [Option<Color>; 3],
    effects: EffectFlags,
    is: u16,
    plain: bool,
}

fn agree_style<F: Held, B: Held, U: Held>(s: &Style<F, B, U>, m: &Model) -> Result<(), String> {
    let mut is = 0;
    for (i, e) in EFFECTS.iter().enumerate() {
        is |= (s.is(*e) as u16) << i;
    }
    let seen = Seen {
        colors: [look(s.foreground), look(s.background), look(s.underline_color)],
        effects: s.effects,
        is,
        plain: s.is_plain(),
    };
    agree_seen(&seen, m)
}

fn agree_seen(s: &Seen, m: &Model) -> Result<(), String> {
    ensure_eq!(s.colors[0], m.fg.map(Col::color), "foreground");
    ensure_eq!(s.colors[1], m.bg.map(Col::color), "background");
    ensure_eq!(s.colors[2], m.ul.map(Col::color), "underline color");
    ensure_eq!(unflags(s.effects), m.fx, "effects");
    ensure!(s.effects == flags(m.fx), "effects are not equal to the set with the same members");
    ensure_eq!(s.is, m.fx, "is() of each effect");
    ensure_eq!(s.plain, m.fg.is_none() && m.bg.is_none() && m.fx == 0, "is_plain");
    Ok(())
}

macro_rules! named_effect {
    ($s:expr, $i:expr) => {
        match $i {
            0 => $s.bold(),
            1 => $s.dimmed(),
            2 => $s.italics(),
            3 => $s.underline(),
            4 => $s.double_underline(),
            5 => $s.blink(),
            6 => $s.blink_fast(),
            7 => $s.reverse(),
            8 => $s.hide(),
            9 => $s.strikethrough(),
            10 => $s.overline(),
            11 => $s.superscript(),
            _ => $s.subscript(),
        }
    };
}

fn effects(v: &[u8]) -> Vec<Effect> {
    v.iter().map(|i| EFFECTS[*i as usize]).collect()
}

fn array<F: Held, B: Held, U: Held>(s: Style<F, B, U>, v: &[u8]) -> Style<F, B, U> {
    match effects(v)[..] {
        [] => s.effects_array([]),
        [a] => s.effects_array([a]),
        [a, b] => s.effects_array([a, b]),
        [a, b, c] => s.effects_array([a, b, c]),
        [a, b, c, d] => s.effects_array([a, b, c, d]),
        _ => panic!("array of {}", v.len()),
    }
}

/// Apply the operations one by one, in the real types: every call that changes a color
/// changes the type, over all 64 combinations of the four ways to hold each color.
fn style_steps<F: Held, B: Held, U: Held>(s: Style<F, B, U>, m: Model, ops: &[Op]) -> Result<Model, String> {
    agree_style(&s, &m)?;
    let Some((op, rest)) = ops.split_first() else { return Ok(m) };
    let m = m.step(op);
    let s = match op {
        Op::Color(Slot::Fg, g) => {
            return match g {
                Given::None => style_steps(s.fg(NoColor), m, rest),
                Given::Static => style_steps(s.fg(F1 {}), m, rest),
                Given::Generic(c) => style_steps(s.fg(c.color()), m, rest),
                Given::Opt(c) => style_steps(s.fg(c.map(Col::color)), m, rest),
            }
        }
        Op::Color(Slot::Bg, g) => {
            return match g {
                Given::None => style_steps(s.bg(NoColor), m, rest),
                Given::Static => style_steps(s.bg(B1 {}), m, rest),
                Given::Generic(c) => style_steps(s.bg(c.color()), m, rest),
                Given::Opt(c) => style_steps(s.bg(c.map(Col::color)), m, rest),
            }
        }
        Op::Color(Slot::Ul, g) => {
            return match g {
                Given::None => style_steps(s.underline_color(NoColor), m, rest),
                Given::Static => style_steps(s.underline_color(rgb::Rgb::<9, 100, 255>), m, rest),
                Given::Generic(c) => style_steps(s.underline_color(c.color()), m, rest),
                Given::Opt(c) => style_steps(s.underline_color(c.map(Col::color)), m, rest),
            }
        }
        Op::Effect(i) => named_effect!(s, i),
        Op::With(i) => s.with(EFFECTS[*i as usize]),
        Op::Without(i) => s.without(EFFECTS[*i as usize]),
        Op::Toggled(i) => s.toggled(EFFECTS[*i as usize]),
        Op::Effects(v) => s.effects(effects(v)),
        Op::EffectRefs(v) => s.effects(&effects(v)),
        Op::Array(v) => array(s, v),
        Op::Flags(x) => s.effect_flags(flags(*x)),
        Op::ClearEffects => s.clear_effects(),
        _ => return Err(format!("not a style operation: {op:?}")),
    };
    style_steps(s, m, rest)
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct StyleCase {
    default: bool,
    ops: Vec<Op>,
}

fn info(start: Model, end: Model, ops: &[Op]) -> Info {
    let setters = |f: fn(&Op) -> bool| ops.iter().filter(|o| f(o)).count();
    let again = setters(|o| matches!(o, Op::Color(Slot::Fg, _) | Op::NamedFg(_))) > 1
        || setters(|o| matches!(o, Op::Color(Slot::Bg, _) | Op::NamedBg(_))) > 1
        || setters(|o| matches!(o, Op::Stream(_) | Op::StreamOpt(_))) > 1;
    Info {
        nontrivial: ops.len() > 1 && start != end,
        label: if again { "a field set more than once" } else { "each field set at most once" },
    }
}

fn styles(c: &StyleCase) -> Result<Info, String> {
    let s = if c.default { Style::default() } else { Style::new() };
    let m = style_steps(s, EMPTY, &c.ops)?;
    Ok(info(EMPTY, m, &c.ops))
}

/// A value that cannot be copied, so that it is the very one passed in that comes out
#[derive(Debug, PartialEq)]
struct Token(String);

fn agree_value<T: AsTok, F: Held, B: Held, U: Held>(v: &StyledValue<T, F, B, U>, m: &Model, tok: *const Token) -> Result<(), String> {
    agree_style(&v.style, m)?;
    ensure_eq!(v.stream, m.stream.map(S::real), "stream");
    ensure!(v.value.tok() == tok, "the value is another one");
    Ok(())
}

trait AsTok {
    fn tok(&self) -> *const Token;
}
impl AsTok for Box<Token> {
    fn tok(&self) -> *const Token {
        &**self
    }
}
impl AsTok for &Box<Token> {
    fn tok(&self) -> *const Token {
        &***self
    }
}
impl AsTok for &Token {
    fn tok(&self) -> *const Token {
        *self
    }
}
impl<T: AsTok, F, B, U> AsTok for StyledValue<T, F, B, U> {
    fn tok(&self) -> *const Token {
        self.value.tok()
    }
}
impl<T: AsTok, F, B, U> AsTok for &StyledValue<T, F, B, U> {
    fn tok(&self) -> *const Token {
        self.value.tok()
    }
}

macro_rules! named_colors {
    ($m:ident $($pre:tt)*) => {
        $m! { $($pre)*
            (0 black into_black on_black into_on_black Black)
            (1 red into_red on_red into_on_red Red)
            (2 green into_green on_green into_on_green Green)
            (3 yellow into_yellow on_yellow into_on_yellow Yellow)
            (4 blue into_blue on_blue into_on_blue Blue)
            (5 magenta into_magenta on_magenta into_on_magenta Magenta)
            (6 cyan into_cyan on_cyan into_on_cyan Cyan)
            (7 white into_white on_white into_on_white White)
            (8 bright_black into_bright_black on_bright_black into_on_bright_black BrightBlack)
            (9 bright_red into_bright_red on_bright_red into_on_bright_red BrightRed)
            (10 bright_green into_bright_green on_bright_green into_on_bright_green BrightGreen)
            (11 bright_yellow into_bright_yellow on_bright_yellow into_on_bright_yellow BrightYellow)
            (12 bright_blue into_bright_blue on_bright_blue into_on_bright_blue BrightBlue)
            (13 bright_magenta into_bright_magenta on_bright_magenta into_on_bright_magenta BrightMagenta)
            (14 bright_cyan into_bright_cyan on_bright_cyan into_on_bright_cyan BrightCyan)
            (15 bright_white into_bright_white on_bright_white into_on_bright_white BrightWhite)
        }
    };
}

macro_rules! fg_of { ($v:expr, $i:expr, $then:ident; $(($n:literal $f:ident $into:ident $on:ident $into_on:ident $N:ident))*) => {
    match $i { $($n => { let v = $v.$f(); $then!(v) })* _ => unreachable!() }
}; }
macro_rules! bg_of { ($v:expr, $i:expr, $then:ident; $(($n:literal $f:ident $into:ident $on:ident $into_on:ident $N:ident))*) => {
    match $i { $($n => { let v = $v.$on(); $then!(v) })* _ => unreachable!() }
}; }

fn value_steps<T: AsTok, F: Held, B: Held, U: Held>(
    v: StyledValue<T, F, B, U>,
    m: Model,
    tok: *const Token,
    ops: &[Op],
) -> Result<Model, String> {
    agree_value(&v, &m, tok)?;
    let Some((op, rest)) = ops.split_first() else { return Ok(m) };
    let m = m.step(op);
    let v = match op {
        Op::Color(Slot::Fg, g) => {
            return match g {
                Given::None => value_steps(v.fg(NoColor), m, tok, rest),
                Given::Static => value_steps(v.fg(F1 {}), m, tok, rest),
                Given::Generic(c) => value_steps(v.fg(Some(c.color())), m, tok, rest),
                Given::Opt(c) => value_steps(v.fg(c.map(Col::color)), m, tok, rest),
            }
        }
        Op::Color(Slot::Bg, g) => {
            return match g {
                Given::None => value_steps(v.bg(NoColor), m, tok, rest),
                Given::Static => value_steps(v.bg(B1 {}), m, tok, rest),
                Given::Generic(c) => value_steps(v.bg(Some(c.color())), m, tok, rest),
                Given::Opt(c) => value_steps(v.bg(c.map(Col::color)), m, tok, rest),
            }
        }
        Op::Color(Slot::Ul, g) => {
            return match g {
                Given::None => value_steps(v.underline_color(NoColor), m, tok, rest),
                Given::Static => value_steps(v.underline_color(rgb::Rgb::<9, 100, 255>), m, tok, rest),
                Given::Generic(c) => value_steps(v.underline_color(Some(c.color())), m, tok, rest),
                Given::Opt(c) => value_steps(v.underline_color(c.map(Col::color)), m, tok, rest),
            }
        }
        // the shorthand's own result is compared, then its color is held as an option so
        // that the number of types stays finite
        Op::NamedFg(i) => {
            macro_rules! then { ($v:ident) => {{ agree_value(&$v, &m, tok)?; $v.fg(Some(ANSI_COLOR(*i))) }}; }
            return value_steps(named_colors!(fg_of v, i, then;), m, tok, rest);
        }
        Op::NamedBg(i) => {
            macro_rules! then { ($v:ident) => {{ agree_value(&$v, &m, tok)?; $v.bg(Some(ANSI_COLOR(*i))) }}; }
            return value_steps(named_colors!(bg_of v, i, then;), m, tok, rest);
        }
        Op::Effect(i) => named_effect!(v, i),
        Op::Stream(s) => v.stream(s.real()),
        Op::StreamOpt(s) => v.stream_opt(s.map(S::real)),
        _ => return Err(format!("not an operation of styled values: {op:?}")),
    };
    value_steps(v, m, tok, rest)
}

#[allow(non_snake_case)]
fn ANSI_COLOR(i: u8) -> Color {
    Color::Ansi(ANSI[i as usize])
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct ValueCase {
    /// 0 owned, 1 borrowed, 2 `StyledValue::new`, 3 owned with a given style, 4 borrowed with one
    start: u8,
    desc: Desc,
    stream: Option<S>,
    ops: Vec<Op>,
}

fn values(c: &ValueCase) -> Result<Info, String> {
    let token = Token("a value".into());
    let tok = &token as *const Token;
    let t = &token;
    let d = Model { fg: c.desc.fg, bg: c.desc.bg, ul: c.desc.ul, fx: c.desc.fx, stream: None };
    let style = c.desc.runtime();
    let (start, end) = match c.start {
        0 => (EMPTY, value_steps(t.into_style(), EMPTY, tok, &c.ops)?),
        1 => (EMPTY, value_steps(token.style(), EMPTY, tok, &c.ops)?),
        2 => {
            let m = Model { stream: c.stream, ..d };
            (m, value_steps(StyledValue::new(t, style, c.stream.map(S::real)), m, tok, &c.ops)?)
        }
        3 => (d, value_steps(t.into_style_with(style), d, tok, &c.ops)?),
        _ => (d, value_steps(token.style_with(style), d, tok, &c.ops)?),
    };
    Ok(info(start, end, &c.ops))
}

/// One shorthand of `Colorize` against its general form, on a bare value and on a value
/// that is styled already.
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
struct Short {
    /// 0 color, 1 background, 2 effect, 3 foreground/background/underline color given
    group: u8,
    index: u8,
    inner: Option<(Desc, Option<S>)>,
}

fn shorthand(c: &Short) -> Result<Info, String> {
    match c.inner {
        None => shorthand_on(c, || Box::new(Token("bare".into())))?,
        Some((d, s)) => shorthand_on(c, || StyledValue::new(Box::new(Token("styled".into())), d.runtime(), s.map(S::real)))?,
    }
    ok(c.inner.is_some())
}

/// what the inner value looks like must not change
fn shorthand_on<T: AsTok>(c: &Short, make: impl Fn() -> T) -> Result<(), String>
where
    for<'a> &'a T: AsTok,
{
    let i = c.index;
    let v = make();
    let tok = v.tok();
    macro_rules! same {
        ($name:expr, $got:expr, $m:expr) => {
            agree_value(&$got, &$m, tok).map_err(|e| format!("{}: {e}", $name))?
        };
    }
    macro_rules! owned {
        ($name:expr, $m:expr, |$v:ident| $e:expr) => {{
            let $v = make();
            let tok = $v.tok();
            let r = $e;
            agree_value(&r, &$m, tok).map_err(|e| format!("{}: {e}", $name))?;
        }};
    }
    if c.group == 2 {
        let m = Model { fx: 1 << i, ..EMPTY };
        macro_rules! fx { ($f:ident $into:ident) => {{
            same!(stringify!($f), Colorize::$f(&v), m);
            owned!(stringify!($into), m, |v| Colorize::$into(v));
        }}; }
        match i {
            0 => fx!(bold into_bold),
            1 => fx!(dimmed into_dimmed),
            2 => fx!(italics into_italics),
            3 => fx!(underline into_underline),
            4 => fx!(double_underline into_double_underline),
            5 => fx!(blink into_blink),
            6 => fx!(blink_fast into_blink_fast),
            7 => fx!(reverse into_reverse),
            8 => fx!(hide into_hide),
            9 => fx!(strikethrough into_strikethrough),
            10 => fx!(overline into_overline),
            11 => fx!(superscript into_superscript),
            _ => fx!(subscript into_subscript),
        }
        return Ok(());
    }
    if c.group == 3 {
        // i picks the color given
        let col = [Col::Ansi(16), Col::Xterm(i), Col::Css(i % 147), Col::Rgb(i, 9, 255)][i as usize % 4];
        for c in [Some(col), None] {
            let x = c.map(Col::color);
            let (mf, mb, mu) = (Model { fg: c, ..EMPTY }, Model { bg: c, ..EMPTY }, Model { ul: c, ..EMPTY });
            same!("fg", Colorize::fg(&v, x), mf);
            same!("bg", Colorize::bg(&v, x), mb);
            same!("underline_color", Colorize::underline_color(&v, x), mu);
            owned!("into_fg", mf, |v| Colorize::into_fg(v, x));
            owned!("into_bg", mb, |v| Colorize::into_bg(v, x));
            owned!("into_underline_color", mu, |v| Colorize::into_underline_color(v, x));
            same!("style", Colorize::style(&v), EMPTY);
            owned!("into_style", EMPTY, |v| Colorize::into_style(v));
            let all = Desc { fg: c, bg: Some(Col::Xterm(i)), ul: Some(Col::Css(i % 147)), fx: (i as u16) << 5 };
            let ma = Model { fg: all.fg, bg: all.bg, ul: all.ul, fx: all.fx, stream: None };
            same!("style_with", Colorize::style_with(&v, all.runtime()), ma);
            owned!("into_style_with", ma, |v| Colorize::into_style_with(v, all.runtime()));
        }
        return Ok(());
    }
    macro_rules! colors { ($(($n:literal $f:ident $into:ident $on:ident $into_on:ident $N:ident))*) => {
        match (c.group, i) {
            $(
                (0, $n) => {
                    let m = Model { fg: Some(Col::Ansi($n)), ..EMPTY };
                    same!(stringify!($f), Colorize::$f(&v), m);
                    same!("fg", Colorize::fg(&v, ansi::$N), m);
                    owned!(stringify!($into), m, |v| Colorize::$into(v));
                    owned!("into_fg", m, |v| Colorize::into_fg(v, ansi::$N));
                }
                (1, $n) => {
                    let m = Model { bg: Some(Col::Ansi($n)), ..EMPTY };
                    same!(stringify!($on), Colorize::$on(&v), m);
                    same!("bg", Colorize::bg(&v, ansi::$N), m);
                    owned!(stringify!($into_on), m, |v| Colorize::$into_on(v));
                    owned!("into_bg", m, |v| Colorize::into_bg(v, ansi::$N));
                }
            )*
            _ => unreachable!(),
        }
    }; }
    named_colors!(colors);
    Ok(())
}

/// What a shorthand prints is what its general form prints
fn printed(k: &(u8, u8)) -> Result<Info, String> {
    mode::set_coloring_mode(mode::Mode::Always);
    let (group, i) = *k;
    let v = "text";
    let general = |d: Desc| format!("{}", Colorize::style_with(v, d.runtime()));
    macro_rules! colors { ($(($n:literal $f:ident $into:ident $on:ident $into_on:ident $N:ident))*) => {
        match (group, i) {
            $(
                (0, $n) => {
                    let want = general(Desc { fg: Some(Col::Ansi($n)), ..Desc::EMPTY });
                    ensure_eq!(v.$f().to_string(), want, "{}", stringify!($f));
                    ensure_eq!(v.$into().to_string(), want, "{}", stringify!($into));
                    ensure_eq!(v.fg(ansi::$N).to_string(), want, "fg({})", stringify!($N));
                }
                (_, $n) => {
                    let want = general(Desc { bg: Some(Col::Ansi($n)), ..Desc::EMPTY });
                    ensure_eq!(v.$on().to_string(), want, "{}", stringify!($on));
                    ensure_eq!(v.$into_on().to_string(), want, "{}", stringify!($into_on));
                    ensure_eq!(v.bg(ansi::$N).to_string(), want, "bg({})", stringify!($N));
                }
            )*
            _ => unreachable!(),
        }
    }; }
    named_colors!(colors);
    ok(true)
}

/// Builders in constant contexts, where they are evaluated by the compiler
fn constants(_: &u8) -> Result<Info, String> {
    const A: Style<css::Tomato, xterm::Red, rgb::Rgb<1, 2, 3>> =
        Style::new().fg(css::Tomato).bg(xterm::Red).underline_color(rgb::Rgb).bold().underline().with(Effect::Blink).without(Effect::Bold).toggled(Effect::Hidden);
    const B: Style = A.const_into_runtime_style();
    const C: Style<css::Tomato, xterm::Red, rgb::Rgb<1, 2, 3>> = A.effects_array([Effect::SubScript, Effect::Bold]);
    const D: Style<css::Tomato, xterm::Red, rgb::Rgb<1, 2, 3>> = A.clear_effects().effect_flags(EffectFlags::all().without(Effect::Dimmed));
    let css = CSS_NAMES.iter().position(|n| *n == "Tomato").unwrap() as u8;
    let m = Model { fg: Some(Col::Css(css)), bg: Some(Col::Xterm(9)), ul: Some(Col::Rgb(1, 2, 3)), fx: 1 << 3 | 1 << 5 | 1 << 8, stream: None };
    let _ = m;
    let red = XTERM_NAMES.iter().position(|n| *n == "Red").unwrap() as u8;
    let m = Model { bg: Some(Col::Xterm(red)), ..m };
    agree_style(&A, &m)?;
    agree_style(&B, &m)?;
    agree_style(&C, &Model { fx: 1 << 12 | 1, ..m })?;
    agree_style(&D, &Model { fx: ALL_FX & !2, ..m })?;
    const V: StyledValue<u8> = StyledValue::new(7, Style::new().overline(), Some(mode::Stream::Stderr)).stream_opt(None).stream(mode::Stream::Stdout);
    agree_style(&V.style, &Model { fx: 1 << 10, ..EMPTY })?;
    ensure_eq!((V.value, V.stream), (7, Some(mode::Stream::Stdout)), "constant styled value");
    ok(true)
}

fn given() -> impl Strategy<Value = Given> {
    prop_oneof![
        1 => Just(Given::None),
        2 => Just(Given::Static),
        2 => col().prop_map(Given::Generic),
        2 => prop::option::of(col()).prop_map(Given::Opt),
    ]
}

pub fn run(mut ctx: Ctx) {
    let slot = prop::sample::select(vec![Slot::Fg, Slot::Bg, Slot::Ul]);
    let i = 0u8..13;
    let v = prop::collection::vec(0u8..13, 0..5);
    let style_op = prop_oneof![
        8 => (slot.clone(), given()).prop_map(|(s, g)| Op::Color(s, g)),
        4 => i.clone().prop_map(Op::Effect),
        2 => i.clone().prop_map(Op::With),
        2 => i.clone().prop_map(Op::Without),
        2 => i.clone().prop_map(Op::Toggled),
        1 => v.clone().prop_map(Op::Effects),
        1 => v.clone().prop_map(Op::EffectRefs),
        1 => v.prop_map(Op::Array),
        1 => fx().prop_map(Op::Flags),
        1 => Just(Op::ClearEffects),
    ];
    let value_op = prop_oneof![
        6 => (slot, given()).prop_map(|(s, g)| Op::Color(s, g)),
        5 => i.prop_map(Op::Effect),
        4 => (0u8..16).prop_map(Op::NamedFg),
        4 => (0u8..16).prop_map(Op::NamedBg),
        2 => stream().prop_map(Op::Stream),
        2 => prop::option::of(stream()).prop_map(Op::StreamOpt),
    ];
    ctx.exhaustive("constants", 0u8..1, constants);
    ctx.exhaustive("printed", (0..2u8).flat_map(|g| (0..16u8).map(move |i| (g, i))), printed);
    let shorts = (0..3u8).flat_map(|g| {
        let n = if g == 2 { 13 } else { 16 };
        (0..n).map(move |i| Short { group: g, index: i, inner: None })
    });
    ctx.exhaustive("shorthands_on_bare_values", shorts, shorthand);
    let s = (0u8..4, any::<u8>(), desc(), prop::option::of(stream()), prop::bool::weighted(0.9)).prop_map(|(g, i, d, s, styled)| Short {
        group: g,
        index: match g {
            0 | 1 => i % 16,
            2 => i % 13,
            _ => i,
        },
        inner: styled.then_some((d, s)),
    });
    ctx.prop("shorthands", 180_000, 1_500_000, s, shorthand);
    let s = (any::<bool>(), prop::collection::vec(style_op, 0..14)).prop_map(|(default, ops)| StyleCase { default, ops });
    ctx.prop("styles", 450_000, 4_000_000, s, styles);
    let s = (0u8..5, desc(), prop::option::of(stream()), prop::collection::vec(value_op, 0..14))
        .prop_map(|(start, desc, stream, ops)| ValueCase { start, desc, stream, ops });
    ctx.prop("values", 450_000, 4_000_000, s, values);
    ctx.finish()
}
