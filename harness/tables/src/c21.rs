//! C21: values are plain data

use colorz::ansi::AnsiColor;
use colorz::css::CssColor;
use colorz::mode::{ColorKind, Mode, Stream};
use colorz::rgb::RgbColor;
use colorz::xterm::XtermColor;
use colorz::{ansi, css, rgb, xterm, Color, Effect, EffectFlags, NoColor, OptionalColor, Style, StyledValue};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use vcore::model::*;
use vcore::run::*;
use vcore::{ensure, ensure_eq};

/// What is fed to a hasher
#[derive(Default)]
struct Fed(Vec<u8>);
impl Hasher for Fed {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn hashed<T: Hash>(x: &T) -> (Vec<u8>, u64) {
    let (mut a, mut b) = (Fed::default(), DefaultHasher::new());
    x.hash(&mut a);
    x.hash(&mut b);
    (a.0, b.finish())
}

/// Values against what they stand for
fn equality<T: Copy + Eq + Debug, K: Eq + Debug>(values: &[(T, K)]) -> Result<(), String> {
    for (x, a) in values {
        #[allow(clippy::clone_on_copy)]
        let copies = [*x, x.clone()];
        for y in copies {
            ensure!(y == *x && *x == y && !(y != *x), "a copy of {x:?} ({a:?}) is not equal to it");
        }
        for (y, b) in values {
            ensure_eq!(x == y, a == b, "whether {x:?} ({a:?}) and {y:?} ({b:?}) are equal");
            ensure_eq!(x != y, a != b, "whether {x:?} ({a:?}) and {y:?} ({b:?}) are unequal");
        }
    }
    Ok(())
}
fn plain<T: Copy + Eq + Hash + Debug, K: Eq + Hash + Debug>(values: &[(T, K)]) -> Result<(), String> {
    equality(values)?;
    for (x, a) in values {
        for (y, b) in values {
            if a == b {
                ensure_eq!(hashed(x), hashed(y), "hashes of {x:?} and {y:?}");
            }
        }
        #[allow(clippy::clone_on_copy)]
        let copy = x.clone();
        ensure_eq!(hashed(x), hashed(&copy), "hash of a clone of {x:?}");
    }
    let set: HashSet<T> = values.iter().map(|v| v.0).collect();
    let want: HashSet<&K> = values.iter().map(|v| &v.1).collect();
    ensure_eq!(set.len(), want.len(), "size of a hash set of {:?}", values);
    for (x, a) in values {
        ensure!(set.contains(x), "a hash set lost {x:?} ({a:?})");
    }
    Ok(())
}

// ---- effects ----

/// How a collection of effects came about
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Made {
    way: u8,
    /// what the order of the steps is derived from
    order: u32,
}
fn made() -> impl Strategy<Value = Made> {
    (0u8..10, any::<u32>()).prop_map(|(way, order)| Made { way, order })
}
fn shuffled(mask: u16, mut order: u32) -> Vec<Effect> {
    let mut v: Vec<Effect> = (0..13).filter(|i| mask >> i & 1 == 1).map(|i| EFFECTS[i]).collect();
    for i in (1..v.len()).rev() {
        order = order.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
        v.swap(i, (order >> 8) as usize % (i + 1));
    }
    v
}
fn effects(mask: u16, m: Made) -> EffectFlags {
    let (inn, out) = (shuffled(mask, m.order), shuffled(!mask & ALL_FX, m.order ^ 0x5555));
    let detour = EFFECTS[m.order as usize % 13];
    match m.way {
        0 => inn.iter().fold(EffectFlags::new(), |f, e| f.with(*e)),
        1 => out.iter().fold(EffectFlags::all(), |f, e| f.without(*e)),
        2 => inn.iter().fold(EffectFlags::new(), |f, e| f.toggled(*e)),
        3 => out.iter().fold(EffectFlags::all(), |f, e| f.toggled(*e)),
        4 => inn.into_iter().collect(),
        5 => inn.iter().chain(inn.iter().rev()).collect(),
        6 => {
            let mut f = EffectFlags::default();
            f.toggle(detour);
            for e in &inn {
                f.set(*e);
            }
            for e in &out {
                f.unset(*e);
            }
            for e in &inn {
                f.set(*e);
            }
            f
        }
        7 => effects(mask, Made { way: 0, ..m }).iter().collect(),
        8 => {
            // not told apart from one that was left to its own devices for a while
            let f = effects(mask, Made { way: 4, ..m });
            f.toggled(detour).toggled(detour)
        }
        _ => {
            let s = Style::new().effects(inn.clone()).without(detour);
            let s = if inn.contains(&detour) { s.with(detour) } else { s };
            s.effects
        }
    }
}

// ---- colors ----

/// A type a slot may have, and how it is made of any color
trait MakeEq: OptionalColor + Eq + Debug {
    type Key: Copy + Eq + Hash + Debug;
    fn key(c: Option<Col>) -> Self::Key;
    fn make(c: Option<Col>, way: u8) -> Self;
}
trait Make: MakeEq + Hash {}
impl<T: MakeEq + Hash> Make for T {}
fn num(c: Option<Col>) -> usize {
    match c {
        None => 0,
        Some(Col::Ansi(n) | Col::Xterm(n) | Col::Css(n)) => n.into(),
        Some(Col::Rgb(r, g, b)) => r as usize * 7 + g as usize * 3 + b as usize,
    }
}
macro_rules! unit { ($($t:ty, $v:expr;)*) => {$(
    impl MakeEq for $t {
        type Key = ();
        fn key(_: Option<Col>) {}
        fn make(_: Option<Col>, _: u8) -> Self { $v }
    }
)*}; }
unit! {
    NoColor, NoColor;
    ansi::BrightCyan, ansi::BrightCyan;
    xterm::Orchid, xterm::Orchid;
    css::Tomato, css::Tomato;
    rgb::Rgb<1, 22, 203>, rgb::Rgb;
}
impl MakeEq for AnsiColor {
    type Key = usize;
    fn key(c: Option<Col>) -> usize {
        num(c) % 17
    }
    fn make(c: Option<Col>, _: u8) -> Self {
        ANSI[Self::key(c)]
    }
}
impl MakeEq for XtermColor {
    type Key = usize;
    fn key(c: Option<Col>) -> usize {
        num(c) % 256
    }
    fn make(c: Option<Col>, way: u8) -> Self {
        if way & 1 == 0 { XTERM[Self::key(c)] } else { XtermColor::from_code(Self::key(c) as u8) }
    }
}
impl MakeEq for CssColor {
    type Key = usize;
    fn key(c: Option<Col>) -> usize {
        num(c) % 147
    }
    fn make(c: Option<Col>, _: u8) -> Self {
        CSS[Self::key(c)]
    }
}
impl MakeEq for RgbColor {
    type Key = (u8, u8, u8);
    fn key(c: Option<Col>) -> Self::Key {
        match c {
            Some(Col::Rgb(r, g, b)) => (r, g, b),
            c => (0, 0, num(c) as u8),
        }
    }
    fn make(c: Option<Col>, _: u8) -> Self {
        let (red, green, blue) = Self::key(c);
        RgbColor { red, green, blue }
    }
}
impl MakeEq for Color {
    type Key = Col;
    fn key(c: Option<Col>) -> Col {
        c.unwrap_or(Col::Ansi(3))
    }
    fn make(c: Option<Col>, way: u8) -> Self {
        let c = Self::key(c);
        match (way % 3, c.color()) {
            (1, Color::Ansi(x)) => x.into(),
            (1, Color::Xterm(x)) => x.into(),
            (1, Color::Css(x)) => x.into(),
            (1, Color::Rgb(x)) => x.into(),
            (2, x) => match c {
                Col::Xterm(n) => n.to_string().parse().unwrap(),
                Col::Rgb(r, g, b) => format!("#{r:02x}{g:02X}{b:02x}").parse().unwrap(),
                _ => x,
            },
            (_, x) => x,
        }
    }
}
impl MakeEq for Option<Color> {
    type Key = Option<Col>;
    fn key(c: Option<Col>) -> Self::Key {
        c
    }
    fn make(c: Option<Col>, way: u8) -> Self {
        match c {
            None if way & 1 == 0 => NoColor.into(),
            None => None,
            c => Some(Color::make(c, way)),
        }
    }
}
impl MakeEq for Option<RgbColor> {
    type Key = Option<(u8, u8, u8)>;
    fn key(c: Option<Col>) -> Self::Key {
        c.map(|c| RgbColor::key(Some(c)))
    }
    fn make(c: Option<Col>, way: u8) -> Self {
        c.map(|c| RgbColor::make(Some(c), way))
    }
}
impl MakeEq for Option<AnsiColor> {
    type Key = Option<usize>;
    fn key(c: Option<Col>) -> Self::Key {
        c.map(|c| AnsiColor::key(Some(c)))
    }
    fn make(c: Option<Col>, way: u8) -> Self {
        c.map(|c| AnsiColor::make(Some(c), way))
    }
}
impl MakeEq for Option<css::Tomato> {
    type Key = bool;
    fn key(c: Option<Col>) -> bool {
        c.is_some()
    }
    fn make(c: Option<Col>, _: u8) -> Self {
        c.map(|_| css::Tomato)
    }
}

// ---- styles ----

/// A style, and how it came about
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Item {
    d: Desc,
    way: u8,
    made: Made,
}

fn style<F: MakeEq, B: MakeEq, U: MakeEq>(i: &Item) -> Style<F, B, U> {
    let d = &i.d;
    let (f, b, u) = (F::make(d.fg, i.way), B::make(d.bg, i.way), U::make(d.ul, i.way));
    let e = effects(d.fx, i.made);
    match i.way {
        0 => Style::new().fg(f).bg(b).underline_color(u).effect_flags(e),
        1 => Style::new().effect_flags(e).underline_color(u).fg(f).bg(b),
        2 => {
            // detours
            let s = Style::new().fg(ansi::Red).bg(css::Tomato).underline_color(NoColor).effects(e);
            let s = s.bg(Some(Color::Ansi(AnsiColor::Blue))).underline_color(u).fg(f).bg(b);
            s.clear_effects().effects(e)
        }
        3 => {
            let mut s = Style::new().fg(F::make(None, 0)).bg(b).underline_color(U::make(None, 0));
            s.foreground = f;
            s.underline_color = u;
            s.effects = e;
            s
        }
        4 => {
            use colorz::Colorize;
            let v = "".into_style().bg(b).underline_color(u).fg(f);
            v.style.effects(e)
        }
        5 => {
            let s = StyledValue::new(1u8, style::<F, B, U>(&Item { way: 0, ..*i }), Some(Stream::Stderr));
            s.stream_opt(None).style
        }
        _ => {
            let s = Style::new().fg(f).bg(b).underline_color(u);
            shuffled(d.fx, i.made.order).into_iter().fold(s, |s, e| s.with(e))
        }
    }
}

fn key<F: MakeEq, B: MakeEq, U: MakeEq>(d: &Desc) -> (F::Key, B::Key, U::Key, u16) {
    (F::key(d.fg), B::key(d.bg), U::key(d.ul), d.fx)
}

/// Something to be done for a type of styles
trait Visit {
    fn go<F: Make, B: Make, U: Make>(self) -> Result<(), String>;
}
const UNIFORM: u8 = 64;
const TYPES: u8 = UNIFORM + 12;
fn visit<V: Visit>(types: u8, v: V) -> Result<(), String> {
    macro_rules! core { ($n:expr, $k:ident, $($x:tt)*) => { match $n % 4 {
        0 => $k!(Option<css::Tomato>, $($x)*),
        1 => $k!(AnsiColor, $($x)*),
        2 => $k!(Color, $($x)*),
        _ => $k!(Option<Color>, $($x)*),
    } }; }
    macro_rules! b { ($f:ty,) => { core!(types / 4, u, $f,) }; }
    macro_rules! u { ($b:ty, $f:ty,) => { core!(types / 16, go, $b, $f,) }; }
    macro_rules! go { ($u:ty, $b:ty, $f:ty,) => { v.go::<$f, $b, $u>() }; }
    macro_rules! same { ($($n:literal $t:ty;)*) => { match types - UNIFORM { $($n => v.go::<$t, $t, $t>(),)* _ => unreachable!() } }; }
    if types < UNIFORM {
        return core!(types, b,);
    }
    same! {
        0 ansi::BrightCyan; 1 xterm::Orchid; 2 css::Tomato; 3 rgb::Rgb<1, 22, 203>; 4 XtermColor; 5 CssColor;
        6 RgbColor; 7 Option<RgbColor>; 8 Option<css::Tomato>; 9 Option<AnsiColor>; 10 Color; 11 Option<Color>;
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Styles {
    types: u8,
    items: Vec<Item>,
}
struct Equal<'a>(&'a [Item], &'a Cell<bool>);
impl Visit for Equal<'_> {
    fn go<F: Make, B: Make, U: Make>(self) -> Result<(), String> {
        let v: Vec<_> = self.0.iter().map(|i| (style::<F, B, U>(i), key::<F, B, U>(&i.d))).collect();
        self.1.set((1..v.len()).any(|i| v[..i].iter().any(|x| x.1 == v[i].1)));
        plain(&v)
    }
}
fn styles(c: &Styles) -> Result<Info, String> {
    let some_equal = Cell::new(false);
    visit(c.types, Equal(&c.items, &some_equal))?;
    // no colors, which cannot be hashed
    fn no<F: MakeEq, B: MakeEq, U: MakeEq>(c: &Styles) -> Result<(), String> {
        let v: Vec<_> = c.items.iter().map(|i| (style::<F, B, U>(i), key::<F, B, U>(&i.d))).collect();
        equality(&v)
    }
    no::<NoColor, NoColor, NoColor>(c)?;
    no::<Color, NoColor, NoColor>(c)?;
    no::<NoColor, Option<Color>, NoColor>(c)?;
    no::<NoColor, NoColor, RgbColor>(c)?;
    // the type-erased style, however it came about
    let erased: Vec<_> = c
        .items
        .iter()
        .flat_map(|i| {
            let s: Style<Option<Color>, Option<Color>, Option<Color>> = style(i);
            [(s, i.d), (s.into_runtime_style(), i.d)]
        })
        .collect();
    plain(&erased)?;
    ok_as(if some_equal.get() { "with equal ones" } else { "all different" }, c.items.len() > 1)
}

/// Neighbours of a style, most of them in one respect
fn items() -> impl Strategy<Value = Vec<Item>> {
    let change = prop_oneof![
        2 => Just(None),
        1 => (0u8..3, prop::option::of(col()), 0u8..9).prop_map(|(slot, c, how)| Some((slot, c, how))),
        1 => (0u16..13).prop_map(|i| Some((3, None, i as u8))),
    ];
    (desc(), vec((change, 0u8..7, made()), 1..6)).prop_map(|(d, v)| {
        v.into_iter()
            .map(|(change, way, made)| {
                let mut d = d;
                if let Some((slot, c, how)) = change {
                    match slot {
                        0..=2 => {
                            let s = match slot {
                                0 => &mut d.fg,
                                1 => &mut d.bg,
                                _ => &mut d.ul,
                            };
                            *s = alter(*s, c, how);
                        }
                        _ => d.fx ^= 1 << how,
                    }
                }
                Item { d, way, made }
            })
            .collect()
    })
}
/// Another color, often one that is easily taken for the same
fn alter(old: Option<Col>, new: Option<Col>, how: u8) -> Option<Col> {
    let Some(c) = old else { return new };
    Some(match (how, c) {
        (0, Col::Ansi(n @ 0..=15)) => Col::Xterm(n),
        (0, Col::Xterm(n @ 0..=15)) => Col::Ansi(n),
        (0, Col::Css(n)) => {
            let (r, g, b) = CSS_REF[n as usize];
            Col::Rgb(r, g, b)
        }
        (1, Col::Rgb(r, g, b)) => Col::Rgb(r, b, g),
        (2, Col::Rgb(r, g, b)) => Col::Rgb(g, r, b),
        (3, Col::Rgb(r, g, b)) => Col::Rgb(r, g, b ^ 1),
        (4, Col::Rgb(r, g, b)) => Col::Rgb(r ^ 0x80, g, b),
        (5, Col::Rgb(r, g, b)) => Col::Rgb(r, g ^ 0x10, b),
        (1..=3, Col::Ansi(n)) => Col::Ansi((n + 8) % 17),
        (1..=3, Col::Xterm(n)) => Col::Xterm(n ^ 1 << how),
        (1..=3, Col::Css(n)) => {
            // one with the same value under another name, where there is one
            let v = CSS_REF[n as usize];
            let o = (0..147).find(|i| *i != n as usize && CSS_REF[*i] == v);
            Col::Css(o.map_or((n + 1) % 147, |o| o as u8))
        }
        _ => return new,
    })
}

// ---- maps ----

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Map {
    types: u8,
    keys: Vec<Item>,
    /// which of the keys, made in which way, and what is done with it
    ops: Vec<(u8, u8, Made, u8)>,
}
struct MapHistory<'a>(&'a Map);
impl Visit for MapHistory<'_> {
    fn go<F: Make, B: Make, U: Make>(self) -> Result<(), String> {
        let mut map: HashMap<Style<F, B, U>, usize> = HashMap::new();
        let mut model: Vec<((F::Key, B::Key, U::Key, u16), usize)> = Vec::new();
        for (n, (i, way, made, op)) in self.0.ops.iter().enumerate() {
            let d = self.0.keys[*i as usize % self.0.keys.len()].d;
            let s = style::<F, B, U>(&Item { d, way: *way, made: *made });
            let k = key::<F, B, U>(&d);
            let at = model.iter().position(|x| x.0 == k);
            let (got, want) = match op {
                0 => {
                    let want = at.map(|at| model[at].1);
                    match at {
                        Some(at) => model[at].1 = n,
                        None => model.push((k, n)),
                    }
                    (map.insert(s, n), want)
                }
                1 => (map.remove(&s), at.map(|at| model.swap_remove(at).1)),
                _ => (map.get(&s).copied(), at.map(|at| model[at].1)),
            };
            ensure_eq!(got, want, "step {n} with key {s:?}");
            ensure_eq!(map.len(), model.len(), "size of the map after step {n}");
        }
        Ok(())
    }
}
fn map(c: &Map) -> Result<Info, String> {
    visit(c.types, MapHistory(c))?;
    ok(c.ops.len() > 2 && c.keys.len() > 1)
}

// ---- the small types ----

fn set_pair(&(a, b): &(u16, u16)) -> Result<Info, String> {
    let m = |way| Made { way, order: u32::from(a) * 8209 + u32::from(b) };
    let mut v: Vec<_> = (0..10).map(|w| (effects(a, m(w)), a)).collect();
    v.extend((0..10).map(|w| (effects(b, m(w)), b)));
    plain(&v)?;
    ok(a != b)
}

fn color_pairs(c: &Vec<(Col, u8)>) -> Result<Info, String> {
    let v: Vec<_> = c.iter().map(|(c, way)| (Color::make(Some(*c), *way), *c)).collect();
    plain(&v)?;
    let v: Vec<_> = c.iter().map(|(c, way)| (Option::<Color>::make(Some(*c), *way), Some(*c))).collect();
    plain(&v)?;
    let v: Vec<_> = c.iter().map(|(c, way)| (RgbColor::make(Some(*c), *way), RgbColor::key(Some(*c)))).collect();
    plain(&v)?;
    ok(c.len() > 1)
}

/// all pairs of everything there are few of
fn few(which: &u8) -> Result<Info, String> {
    fn keyed<T: Copy>(v: &[T]) -> Vec<(T, usize)> {
        // twice, so that equal ones meet
        v.iter().copied().enumerate().chain(v.iter().copied().enumerate()).map(|(i, x)| (x, i)).collect()
    }
    match which {
        0 => plain(&keyed(&ANSI))?,
        1 => plain(&keyed(&XTERM))?,
        2 => plain(&keyed(&CSS))?,
        3 => plain(&keyed(&EFFECTS))?,
        4 => equality(&keyed(&[Mode::Detect, Mode::Always, Mode::Never]))?,
        5 => plain(&keyed(&[Stream::Stdout, Stream::Stderr, Stream::AlwaysColor, Stream::NeverColor]))?,
        6 => plain(&keyed(&[ColorKind::Ansi, ColorKind::Xterm, ColorKind::Rgb, ColorKind::NoColor]))?,
        7 => {
            equality(&keyed(&[NoColor]))?;
            plain(&keyed(&[ansi::Red]))?;
            plain(&keyed(&[xterm::Orchid]))?;
            plain(&keyed(&[css::Tomato]))?;
            plain(&keyed(&[rgb::Rgb::<1, 22, 203>]))?;
        }
        _ => {
            // parsing gives the value itself, and the same error for the same mistake
            let names = ["detect", "DETECT", "always", "Always", "never", "neveR"];
            let v: Vec<(Mode, usize)> = names.iter().enumerate().map(|(i, n)| (n.parse().unwrap(), i / 2)).collect();
            equality(&v)?;
            let names = ["stdout", "STDOUT", "stderr", "Stderr", "always", "aLWAYS", "never", "neveR"];
            let v: Vec<(Stream, usize)> = names.iter().enumerate().map(|(i, n)| (n.parse().unwrap(), i / 2)).collect();
            plain(&v)?;
            let e: Vec<_> = ["", "x", "nevers"].iter().map(|n| (n.parse::<Mode>().unwrap_err(), ())).collect();
            equality(&e)?;
            let e: Vec<_> = ["", "x", "nevers"].iter().map(|n| (n.parse::<Stream>().unwrap_err(), ())).collect();
            equality(&e)?;
        }
    }
    ok(true)
}

// ---- clones ----

thread_local! { static CLONES: Cell<u32> = const { Cell::new(0) }; }
#[derive(Debug, PartialEq)]
struct Counted(u32, Vec<u8>);
impl Clone for Counted {
    fn clone(&self) -> Self {
        CLONES.set(CLONES.get() + 1);
        Counted(self.0 + 1, self.1.clone())
    }
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Cloned {
    types: u8,
    item: Item,
    stream: Option<S>,
    other: Item,
}
struct CloneOf<'a>(&'a Cloned);
impl Visit for CloneOf<'_> {
    fn go<F: Make, B: Make, U: Make>(self) -> Result<(), String> {
        let c = self.0;
        let s = style::<F, B, U>(&c.item);
        let stream = c.stream.map(S::real);
        let v = StyledValue::new(Counted(0, vec![1, 2]), s, stream);
        CLONES.set(0);
        let mut w = v.clone();
        ensure_eq!(CLONES.get(), 1, "clones of the value per clone of a styled value");
        ensure_eq!(w.value, Counted(1, vec![1, 2]), "value of the clone");
        ensure_eq!(w.style, s, "style of the clone");
        ensure_eq!(w.stream, stream, "stream of the clone");
        // a change to one is not seen in the other
        w.style = style::<F, B, U>(&c.other);
        w.value.1.push(3);
        w.stream = Some(Stream::NeverColor);
        ensure_eq!(v.value, Counted(0, vec![1, 2]), "value of the original");
        ensure_eq!(v.style, s, "style of the original");
        ensure_eq!(v.stream, stream, "stream of the original");
        // into one that is there already
        let mut x = StyledValue::new(Counted(7, vec![]), w.style, None);
        x.clone_from(&v);
        ensure_eq!(x.value.1, vec![1, 2], "value cloned into another");
        ensure_eq!(x.style, s, "style cloned into another");
        ensure_eq!(x.stream, stream, "stream cloned into another");
        // copies, where the value can be copied
        let v = StyledValue::new(5u8, s, stream);
        let mut w = v;
        w.value = 6;
        w.style.effects = EffectFlags::new();
        ensure_eq!((v.value, v.style, v.stream), (5, s, stream), "the original of a changed copy");
        // iterators
        let mut it = s.effects.iter();
        let n = c.other.d.fx.count_ones() as usize;
        for _ in 0..n % 14 {
            it.next();
        }
        let (a, mut b) = (it.clone(), it.clone());
        b.next();
        drop(b);
        ensure_eq!(a.collect::<Vec<_>>(), it.collect::<Vec<_>>(), "a cloned iterator");
        Ok(())
    }
}

pub fn run(mut ctx: Ctx) {
    ctx.exhaustive("few", 0..9u8, few);
    let near = (0..8192u16).flat_map(|a| (0..13).map(move |i| (a, a ^ 1 << i)).chain([(a, a)]));
    ctx.exhaustive("near_sets", near, set_pair);
    ctx.prop("sets", 200_000, 3_000_000, (fx(), fx()), set_pair);
    let cols = (col(), vec((0u8..9, col(), 0u8..3), 1..6)).prop_map(|(c, v)| {
        let first = [(c, 0u8)];
        first
            .into_iter()
            .chain(v.into_iter().map(|(how, n, way)| (alter(Some(c), Some(n), how).unwrap_or(n), way)))
            .collect()
    });
    ctx.prop("colors", 300_000, 5_000_000, cols, color_pairs);
    let s = (0..TYPES, items()).prop_map(|(types, items)| Styles { types, items });
    ctx.prop("styles", 300_000, 5_000_000, s, styles);
    let m = (0..TYPES, items(), vec((0u8..8, 0u8..7, made(), 0u8..4), 1..40))
        .prop_map(|(types, keys, ops)| Map { types, keys, ops });
    ctx.prop("maps", 80_000, 1_000_000, m, map);
    let item = || (desc(), 0u8..7, made()).prop_map(|(d, way, made)| Item { d, way, made });
    let c = (0..TYPES, item(), prop::option::of(stream()), item())
        .prop_map(|(types, item, stream, other)| Cloned { types, item, stream, other });
    ctx.prop("clones", 200_000, 3_000_000, c, |c| {
        visit(c.types, CloneOf(c))?;
        ok(!c.item.d.is_plain())
    });
    ctx.finish()
}
