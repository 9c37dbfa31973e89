//! Styles whose color *types* are part of the generated case: a case names the type of
//! every color slot, and is dispatched to the matching `Style<F, B, U>` instantiation.

use colorz::mode::Stream;
use colorz::{ansi, css, rgb, xterm};
use colorz::{css::CssColor, rgb::RgbColor, xterm::XtermColor};
use colorz::{Color, ComptimeColor, EffectFlags, NoColor, OptionalColor, Style, StyledValue};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::{self, Formatter};
use vcore::fmtspec::{AllFmt, Tr, TV};
use vcore::model::*;

/// Everything a check wants from a style, whatever its types
pub trait Erased {
    fn apply(&self, debug: bool, f: &mut Formatter<'_>) -> fmt::Result;
    fn clear(&self, debug: bool, f: &mut Formatter<'_>) -> fmt::Result;
    fn is_plain(&self) -> bool;
    fn effects(&self) -> EffectFlags;
    fn should_color(&self, stream: Option<Stream>) -> bool;
    /// `StyledValue::fmt_with` (value `()`)
    fn fmt_with(
        &self,
        stream: Option<Stream>,
        f: &mut Formatter<'_>,
        k: &mut dyn FnMut(&mut Formatter<'_>) -> fmt::Result,
    ) -> fmt::Result;
    /// `<StyledValue as Display>::fmt`
    fn display(&self, stream: Option<Stream>, v: &TV<'_>, f: &mut Formatter<'_>) -> fmt::Result;
}

impl<F: OptionalColor, B: OptionalColor, U: OptionalColor> Erased for Style<F, B, U> {
    fn apply(&self, debug: bool, f: &mut Formatter<'_>) -> fmt::Result {
        let s = Style::apply(*self);
        if debug {
            fmt::Debug::fmt(&s, f)
        } else {
            fmt::Display::fmt(&s, f)
        }
    }
    fn clear(&self, debug: bool, f: &mut Formatter<'_>) -> fmt::Result {
        let s = Style::clear(*self);
        if debug {
            fmt::Debug::fmt(&s, f)
        } else {
            fmt::Display::fmt(&s, f)
        }
    }
    fn is_plain(&self) -> bool {
        Style::is_plain(self)
    }
    fn effects(&self) -> EffectFlags {
        self.effects
    }
    fn should_color(&self, stream: Option<Stream>) -> bool {
        Style::should_color(self, stream)
    }
    fn fmt_with(
        &self,
        stream: Option<Stream>,
        f: &mut Formatter<'_>,
        k: &mut dyn FnMut(&mut Formatter<'_>) -> fmt::Result,
    ) -> fmt::Result {
        StyledValue::new((), *self, stream).fmt_with(f, |(), f| k(f))
    }
    fn display(&self, stream: Option<Stream>, v: &TV<'_>, f: &mut Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&StyledValue::new(*v, *self, stream), f)
    }
}

/// The type of one color slot together with its value
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub enum Slot {
    NoColor,
    /// `ansi::BrightCyan`
    SAnsi,
    /// `xterm::Orchid`
    SXterm,
    /// `css::Tomato`
    SCss,
    /// `Rgb<1, 22, 203>`
    SRgb,
    Ansi(u8),
    Xterm(u8),
    Css(u8),
    Rgb(u8, u8, u8),
    Dyn(Col),
    OptAnsi(Option<u8>),
    OptRgb(Option<(u8, u8, u8)>),
    OptDyn(Option<Col>),
    OptOpt(Option<Option<Col>>),
    /// `Option<NoColor>`
    OptNo(bool),
    /// `Option<css::Tomato>`
    OptSCss(bool),
}
pub const TOMATO: u8 = {
    let mut i = 0;
    while i < 147 {
        if CSS[i] as u8 == CssColor::Tomato as u8 {
            break;
        }
        i += 1;
    }
    i as u8
};

impl Slot {
    pub fn col(&self) -> Option<Col> {
        match *self {
            Slot::NoColor | Slot::OptNo(_) => None,
            Slot::SAnsi => Some(Col::Ansi(14)),
            Slot::SXterm => Some(Col::Xterm(XtermColor::Orchid as u8)),
            Slot::SCss => Some(Col::Css(TOMATO)),
            Slot::SRgb => Some(Col::Rgb(1, 22, 203)),
            Slot::Ansi(n) => Some(Col::Ansi(n)),
            Slot::Xterm(n) => Some(Col::Xterm(n)),
            Slot::Css(n) => Some(Col::Css(n)),
            Slot::Rgb(r, g, b) => Some(Col::Rgb(r, g, b)),
            Slot::Dyn(c) => Some(c),
            Slot::OptAnsi(o) => o.map(Col::Ansi),
            Slot::OptRgb(o) => o.map(|(r, g, b)| Col::Rgb(r, g, b)),
            Slot::OptDyn(o) => o,
            Slot::OptOpt(o) => o.flatten(),
            Slot::OptSCss(b) => b.then_some(Col::Css(TOMATO)),
        }
    }
    /// one of the types every other type is paired with
    pub fn is_core(&self) -> bool {
        matches!(self, Slot::NoColor | Slot::SCss | Slot::Dyn(_) | Slot::OptDyn(_))
    }
    pub fn is_static(&self) -> bool {
        matches!(self, Slot::NoColor | Slot::SAnsi | Slot::SXterm | Slot::SCss | Slot::SRgb)
    }
    /// can be converted to `Option<Color>`
    pub fn is_into(&self) -> bool {
        !matches!(
            self,
            Slot::OptAnsi(_) | Slot::OptRgb(_) | Slot::OptOpt(_) | Slot::OptNo(_) | Slot::OptSCss(_)
        )
    }
}

fn rgbc((red, green, blue): (u8, u8, u8)) -> RgbColor {
    RgbColor { red, green, blue }
}

trait Vis {
    type Out;
    fn go<C: OptionalColor>(self, c: C) -> Self::Out;
}
trait Vis2 {
    type Out;
    fn go<F: OptionalColor, B: OptionalColor>(self, f: F, b: B) -> Self::Out;
}
trait VisInto {
    type Out;
    fn go<C: OptionalColor + Into<Option<Color>>>(self, c: C) -> Self::Out;
}
trait VisConst {
    type Out;
    fn go<C: OptionalColor + ComptimeColor>(self, c: C) -> Self::Out;
}

fn slot<V: Vis>(s: &Slot, v: V) -> V::Out {
    match *s {
        Slot::NoColor => v.go(NoColor),
        Slot::SAnsi => v.go(ansi::BrightCyan),
        Slot::SXterm => v.go(xterm::Orchid),
        Slot::SCss => v.go(css::Tomato),
        Slot::SRgb => v.go(rgb::Rgb::<1, 22, 203>),
        Slot::Ansi(n) => v.go(ANSI[n as usize]),
        Slot::Xterm(n) => v.go(XTERM[n as usize]),
        Slot::Css(n) => v.go(CSS[n as usize]),
        Slot::Rgb(r, g, b) => v.go(rgbc((r, g, b))),
        Slot::Dyn(c) => v.go(c.color()),
        Slot::OptAnsi(o) => v.go(o.map(|n| ANSI[n as usize])),
        Slot::OptRgb(o) => v.go(o.map(rgbc)),
        Slot::OptDyn(o) => v.go(o.map(Col::color)),
        Slot::OptOpt(o) => v.go(o.map(|o| o.map(Col::color))),
        Slot::OptNo(b) => v.go(b.then_some(NoColor)),
        Slot::OptSCss(b) => v.go(b.then_some(css::Tomato)),
    }
}
/// `fg` and `bg` are not both outside of the core types
fn slot2<V: Vis2>(fg: &Slot, bg: &Slot, v: V) -> V::Out {
    struct A<'a, V>(&'a Slot, V);
    struct B<F, V>(F, V);
    struct C<'a, V>(&'a Slot, V);
    struct D<B, V>(B, V);
    impl<V: Vis2> Vis for A<'_, V> {
        type Out = V::Out;
        fn go<F: OptionalColor>(self, f: F) -> V::Out {
            slot_core(self.0, B(f, self.1))
        }
    }
    impl<F: OptionalColor, V: Vis2> Vis for B<F, V> {
        type Out = V::Out;
        fn go<G: OptionalColor>(self, b: G) -> V::Out {
            self.1.go(self.0, b)
        }
    }
    impl<V: Vis2> Vis for C<'_, V> {
        type Out = V::Out;
        fn go<G: OptionalColor>(self, b: G) -> V::Out {
            slot_core(self.0, D(b, self.1))
        }
    }
    impl<G: OptionalColor, V: Vis2> Vis for D<G, V> {
        type Out = V::Out;
        fn go<F: OptionalColor>(self, f: F) -> V::Out {
            self.1.go(f, self.0)
        }
    }
    if bg.is_core() {
        slot(fg, A(bg, v))
    } else {
        slot(bg, C(fg, v))
    }
}
/// the fewer types used in the underline slot
fn slot_ul<V: Vis>(s: &Slot, v: V) -> V::Out {
    match *s {
        Slot::NoColor => v.go(NoColor),
        Slot::Rgb(r, g, b) => v.go(rgbc((r, g, b))),
        _ => v.go(s.col().map(Col::color)),
    }
}
/// the types every other type is paired with
fn slot_core<V: Vis>(s: &Slot, v: V) -> V::Out {
    match *s {
        Slot::NoColor => v.go(NoColor),
        Slot::SCss => v.go(css::Tomato),
        Slot::Dyn(c) => v.go(c.color()),
        _ => v.go(s.col().map(Col::color)),
    }
}
fn slot_into<V: VisInto>(s: &Slot, v: V) -> V::Out {
    match *s {
        Slot::NoColor => v.go(NoColor),
        Slot::SAnsi => v.go(ansi::BrightCyan),
        Slot::SXterm => v.go(xterm::Orchid),
        Slot::SCss => v.go(css::Tomato),
        Slot::SRgb => v.go(rgb::Rgb::<1, 22, 203>),
        Slot::Ansi(n) => v.go(ANSI[n as usize]),
        Slot::Xterm(n) => v.go(XTERM[n as usize]),
        Slot::Css(n) => v.go(CSS[n as usize]),
        Slot::Rgb(r, g, b) => v.go(rgbc((r, g, b))),
        Slot::Dyn(c) => v.go(c.color()),
        _ => v.go(s.col().map(Col::color)),
    }
}
fn slot_const<V: VisConst>(s: &Slot, v: V) -> V::Out {
    match *s {
        Slot::SAnsi => v.go(ansi::BrightCyan),
        Slot::SXterm => v.go(xterm::Orchid),
        Slot::SCss => v.go(css::Tomato),
        Slot::SRgb => v.go(rgb::Rgb::<1, 22, 203>),
        _ => v.go(NoColor),
    }
}
/// a color type of the library, for the checks over every compile-time color
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub enum Static {
    Ansi(u8),
    Xterm(u8),
    Css(u8),
    /// index in `RGB_SMALL`
    Rgb(u8),
}
impl Static {
    pub fn col(&self) -> Col {
        match *self {
            Static::Ansi(n) => Col::Ansi(n),
            Static::Xterm(n) => Col::Xterm(n),
            Static::Css(n) => Col::Css(n),
            Static::Rgb(n) => {
                let (r, g, b) = vcore::RGB_SMALL[n as usize];
                Col::Rgb(r, g, b)
            }
        }
    }
    pub fn all() -> impl Iterator<Item = Static> {
        (0..17)
            .map(Static::Ansi)
            .chain((0..=255).map(Static::Xterm))
            .chain((0..147).map(Static::Css))
            .chain((0..vcore::RGB_SMALL.len() as u8).map(Static::Rgb))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub enum StyleCase {
    Cross { fg: Slot, bg: Slot, ul: Slot, fx: u16 },
    /// `Style<C, C, C>` for any compile-time color type of the library
    Wide { c: Static, fx: u16 },
}

impl StyleCase {
    pub fn desc(&self) -> Desc {
        match *self {
            StyleCase::Cross { fg, bg, ul, fx } => Desc {
                fg: fg.col(),
                bg: bg.col(),
                ul: ul.col(),
                fx,
            },
            StyleCase::Wide { c, fx } => Desc {
                fg: Some(c.col()),
                bg: Some(c.col()),
                ul: Some(c.col()),
                fx,
            },
        }
    }

    /// Call `k` with the style in the types the case names
    pub fn with<R>(&self, k: impl FnOnce(&dyn Erased) -> R) -> R {
        let mut k = Some(k);
        let mut out = None;
        let mut kk = |e: &dyn Erased| out = Some((k.take().unwrap())(e));
        self.dispatch(&mut kk);
        out.unwrap()
    }

    fn dispatch(&self, k: &mut dyn FnMut(&dyn Erased)) {
        match self {
            StyleCase::Cross { fg, bg, ul, fx } => {
                struct B<'a>(&'a Slot, u16, &'a mut dyn FnMut(&dyn Erased));
                struct C<'a, F, B>(F, B, u16, &'a mut dyn FnMut(&dyn Erased));
                impl Vis2 for B<'_> {
                    type Out = ();
                    fn go<F: OptionalColor, G: OptionalColor>(self, f: F, b: G) {
                        slot_ul(self.0, C(f, b, self.1, self.2))
                    }
                }
                impl<F: OptionalColor, B: OptionalColor> Vis for C<'_, F, B> {
                    type Out = ();
                    fn go<U: OptionalColor>(self, u: U) {
                        let mut s = Style::new().fg(self.0).bg(self.1).underline_color(u);
                        s.effects = flags(self.2);
                        (self.3)(&s)
                    }
                }
                // every type in the underline slot, next to the simplest ones
                struct L<'a>(Option<Option<Color>>, u16, &'a mut dyn FnMut(&dyn Erased));
                impl Vis for L<'_> {
                    type Out = ();
                    fn go<U: OptionalColor>(self, u: U) {
                        let s = Style::new().underline_color(u);
                        match self.0 {
                            None => {
                                let mut s = s;
                                s.effects = flags(self.1);
                                (self.2)(&s)
                            }
                            Some(fg) => {
                                let mut s = s.fg(fg);
                                s.effects = flags(self.1);
                                (self.2)(&s)
                            }
                        }
                    }
                }
                match (fg, bg) {
                    (Slot::NoColor, Slot::NoColor) => slot(ul, L(None, *fx, k)),
                    (Slot::OptDyn(c), Slot::NoColor) => slot(ul, L(Some(c.map(Col::color)), *fx, k)),
                    _ => slot2(fg, bg, B(ul, *fx, k)),
                }
            }
            StyleCase::Wide { c, fx } => wide(*c, *fx, k),
        }
    }

    /// Call `k` with something that formats a value in this style, through any of the nine
    /// traits.  Slot types other than NoColor, css::Tomato and Color collapse to
    /// `Option<Color>` here.
    pub fn with_all<R>(&self, stream: Option<Stream>, v: &TV<'_>, k: impl FnOnce(&dyn AllFmt) -> R) -> R {
        let mut k = Some(k);
        let mut out = None;
        let mut kk = |e: &dyn AllFmt| out = Some((k.take().unwrap())(e));
        struct P<'a, 'b> {
            stream: Option<Stream>,
            v: TV<'b>,
            fx: u16,
            k: &'a mut dyn FnMut(&dyn AllFmt),
        }
        struct A<'a, 'b>(P<'a, 'b>, &'a Slot, &'a Slot);
        struct B<'a, 'b, F>(P<'a, 'b>, F, &'a Slot);
        struct C<'a, 'b, F, B>(P<'a, 'b>, F, B);
        impl Vis for A<'_, '_> {
            type Out = ();
            fn go<F: OptionalColor>(self, f: F) {
                slot_core(self.1, B(self.0, f, self.2))
            }
        }
        impl<F: OptionalColor> Vis for B<'_, '_, F> {
            type Out = ();
            fn go<G: OptionalColor>(self, b: G) {
                match self.2 {
                    Slot::NoColor => C(self.0, self.1, b).go(NoColor),
                    s => C(self.0, self.1, b).go(s.col().map(Col::color)),
                }
            }
        }
        impl<F: OptionalColor, B: OptionalColor> Vis for C<'_, '_, F, B> {
            type Out = ();
            fn go<U: OptionalColor>(self, u: U) {
                let mut s = Style::new().fg(self.1).bg(self.2).underline_color(u);
                let p = self.0;
                s.effects = flags(p.fx);
                (p.k)(&StyledValue::new(p.v, s, p.stream))
            }
        }
        let (fg, bg, ul, fx) = match *self {
            StyleCase::Cross { fg, bg, ul, fx } => (fg, bg, ul, fx),
            StyleCase::Wide { c, fx } => (Slot::Dyn(c.col()), Slot::Dyn(c.col()), Slot::Dyn(c.col()), fx),
        };
        let p = P { stream, v: *v, fx, k: &mut kk };
        slot_core(&fg, A(p, &bg, &ul));
        out.unwrap()
    }

    /// `Style::into_runtime_style`, where every slot type offers it
    pub fn into_runtime(&self) -> Option<Style> {
        match self {
            StyleCase::Cross { fg, bg, ul, fx } => {
                if !(fg.is_into() && bg.is_into() && ul.is_into()) {
                    return None;
                }
                struct A<'a>(&'a Slot, &'a Slot, u16);
                struct B<'a, F>(F, &'a Slot, u16);
                struct C<F, B>(F, B, u16);
                impl VisInto for A<'_> {
                    type Out = Style;
                    fn go<F: OptionalColor + Into<Option<Color>>>(self, f: F) -> Style {
                        slot_into(self.0, B(f, self.1, self.2))
                    }
                }
                impl<F: OptionalColor + Into<Option<Color>>> VisInto for B<'_, F> {
                    type Out = Style;
                    fn go<G: OptionalColor + Into<Option<Color>>>(self, b: G) -> Style {
                        let c = C(self.0, b, self.2);
                        match *self.1 {
                            Slot::NoColor => c.go(NoColor),
                            Slot::SAnsi => c.go(ansi::BrightCyan),
                            Slot::SXterm => c.go(xterm::Orchid),
                            Slot::SCss => c.go(css::Tomato),
                            Slot::SRgb => c.go(rgb::Rgb::<1, 22, 203>),
                            Slot::Rgb(r, g, b) => c.go(rgbc((r, g, b))),
                            Slot::Dyn(x) => c.go(x.color()),
                            s => c.go(s.col().map(Col::color)),
                        }
                    }
                }
                impl<F: OptionalColor + Into<Option<Color>>, B: OptionalColor + Into<Option<Color>>> VisInto
                    for C<F, B>
                {
                    type Out = Style;
                    fn go<U: OptionalColor + Into<Option<Color>>>(self, u: U) -> Style {
                        let mut s = Style::new().fg(self.0).bg(self.1).underline_color(u);
                        s.effects = flags(self.2);
                        s.into_runtime_style()
                    }
                }
                Some(slot_into(fg, A(bg, ul, *fx)))
            }
            StyleCase::Wide { c, fx } => Some(wide_conv(*c, *fx).0),
        }
    }

    /// `Style::const_into_runtime_style`, where every slot type is a compile-time color
    pub fn const_into_runtime(&self) -> Option<Style> {
        match self {
            StyleCase::Cross { fg, bg, ul, fx } => {
                if !(fg.is_static() && bg.is_static() && ul.is_static()) {
                    return None;
                }
                struct A<'a>(&'a Slot, &'a Slot, u16);
                struct B<'a, F>(F, &'a Slot, u16);
                struct C<F, B>(F, B, u16);
                impl VisConst for A<'_> {
                    type Out = Style;
                    fn go<F: OptionalColor + ComptimeColor>(self, f: F) -> Style {
                        slot_const(self.0, B(f, self.1, self.2))
                    }
                }
                impl<F: OptionalColor + ComptimeColor> VisConst for B<'_, F> {
                    type Out = Style;
                    fn go<G: OptionalColor + ComptimeColor>(self, b: G) -> Style {
                        slot_const(self.1, C(self.0, b, self.2))
                    }
                }
                impl<F: OptionalColor + ComptimeColor, B: OptionalColor + ComptimeColor> VisConst for C<F, B> {
                    type Out = Style;
                    fn go<U: OptionalColor + ComptimeColor>(self, u: U) -> Style {
                        let mut s = Style::new().fg(self.0).bg(self.1).underline_color(u);
                        s.effects = flags(self.2);
                        s.const_into_runtime_style()
                    }
                }
                Some(slot_const(fg, A(bg, ul, *fx)))
            }
            StyleCase::Wide { c, fx } => Some(wide_conv(*c, *fx).1),
        }
    }
}

fn mk<C: OptionalColor>(c: C, fx: u16) -> Style<C, C, C> {
    let mut s = Style::new().fg(c).bg(c).underline_color(c);
    s.effects = flags(fx);
    s
}

fn wide(c: Static, fx: u16, k: &mut dyn FnMut(&dyn Erased)) {
    macro_rules! named { ($m:ident $idx:ident ; $($i:literal $n:ident)*) => {
        match $idx { $($i => k(&mk($m::$n, fx)),)* #[allow(unreachable_patterns)] _ => unreachable!() }
    }; }
    macro_rules! named3 { ($m:ident $idx:ident ; $($i:literal $n:ident $r:literal $g:literal $b:literal)*) => {
        match $idx { $($i => k(&mk($m::$n, fx)),)* _ => unreachable!() }
    }; }
    macro_rules! rgbs { ($idx:ident ; $($i:literal $r:literal $g:literal $b:literal)*) => {
        match $idx { $($i => k(&mk(rgb::Rgb::<$r, $g, $b>, fx)),)* _ => unreachable!() }
    }; }
    match c {
        Static::Ansi(i) => vcore::all_ansi!(named ansi i),
        Static::Xterm(i) => vcore::all_xterm!(named xterm i),
        Static::Css(i) => vcore::all_css!(named3 css i),
        Static::Rgb(i) => vcore::rgb_small!(rgbs i),
    }
}

fn wide_conv(c: Static, fx: u16) -> (Style, Style) {
    fn go<C: OptionalColor + ComptimeColor + Into<Option<Color>>>(c: C, fx: u16) -> (Style, Style) {
        (mk(c, fx).into_runtime_style(), mk(c, fx).const_into_runtime_style())
    }
    macro_rules! named { ($m:ident $idx:ident ; $($i:literal $n:ident)*) => {
        match $idx { $($i => go($m::$n, fx),)* #[allow(unreachable_patterns)] _ => unreachable!() }
    }; }
    macro_rules! named3 { ($m:ident $idx:ident ; $($i:literal $n:ident $r:literal $g:literal $b:literal)*) => {
        match $idx { $($i => go($m::$n, fx),)* _ => unreachable!() }
    }; }
    macro_rules! rgbs { ($idx:ident ; $($i:literal $r:literal $g:literal $b:literal)*) => {
        match $idx { $($i => go(rgb::Rgb::<$r, $g, $b>, fx),)* _ => unreachable!() }
    }; }
    match c {
        Static::Ansi(i) => vcore::all_ansi!(named ansi i),
        Static::Xterm(i) => vcore::all_xterm!(named xterm i),
        Static::Css(i) => vcore::all_css!(named3 css i),
        Static::Rgb(i) => vcore::rgb_small!(rgbs i),
    }
}

fn rgb3() -> impl Strategy<Value = (u8, u8, u8)> {
    (edge_u8(), edge_u8(), edge_u8())
}

pub fn slots() -> impl Strategy<Value = Slot> {
    prop_oneof![
        3 => Just(Slot::NoColor),
        1 => Just(Slot::SAnsi),
        1 => Just(Slot::SXterm),
        1 => Just(Slot::SCss),
        1 => Just(Slot::SRgb),
        1 => (0u8..17).prop_map(Slot::Ansi),
        1 => edge_u8().prop_map(Slot::Xterm),
        1 => (0u8..147).prop_map(Slot::Css),
        1 => rgb3().prop_map(|(r, g, b)| Slot::Rgb(r, g, b)),
        2 => col().prop_map(Slot::Dyn),
        1 => prop::option::of(0u8..17).prop_map(Slot::OptAnsi),
        1 => prop::option::of(rgb3()).prop_map(Slot::OptRgb),
        3 => prop::option::of(col()).prop_map(Slot::OptDyn),
        1 => prop::option::of(prop::option::of(col())).prop_map(Slot::OptOpt),
        1 => any::<bool>().prop_map(Slot::OptNo),
        1 => any::<bool>().prop_map(Slot::OptSCss),
    ]
}

pub fn slots_core() -> impl Strategy<Value = Slot> {
    prop_oneof![
        2 => Just(Slot::NoColor),
        2 => Just(Slot::SCss),
        3 => col().prop_map(Slot::Dyn),
        4 => prop::option::of(col()).prop_map(Slot::OptDyn),
    ]
}

pub fn slots_ul() -> impl Strategy<Value = Slot> {
    prop_oneof![
        2 => Just(Slot::NoColor),
        1 => rgb3().prop_map(|(r, g, b)| Slot::Rgb(r, g, b)),
        3 => prop::option::of(col()).prop_map(Slot::OptDyn),
    ]
}

pub fn statics() -> impl Strategy<Value = Static> {
    prop_oneof![
        (0u8..17).prop_map(Static::Ansi),
        any::<u8>().prop_map(Static::Xterm),
        (0u8..147).prop_map(Static::Css),
        (0u8..vcore::RGB_SMALL.len() as u8).prop_map(Static::Rgb),
    ]
}

fn static_slot() -> impl Strategy<Value = Slot> {
    prop::sample::select(vec![Slot::NoColor, Slot::SAnsi, Slot::SXterm, Slot::SCss, Slot::SRgb])
}

/// The slot with a color related to `to` where it holds any color at run time
fn like(s: Slot, to: Option<Col>, how: Option<u8>) -> Slot {
    let (Some(to), Some(how)) = (to, how) else { return s };
    let c = kin(to, how);
    match (s, c) {
        (Slot::Dyn(_), _) => Slot::Dyn(c),
        (Slot::OptDyn(Some(_)), _) => Slot::OptDyn(Some(c)),
        (Slot::OptOpt(Some(Some(_))), _) => Slot::OptOpt(Some(Some(c))),
        (Slot::Ansi(_), Col::Ansi(n)) => Slot::Ansi(n),
        (Slot::OptAnsi(Some(_)), Col::Ansi(n)) => Slot::OptAnsi(Some(n)),
        (Slot::Xterm(_), Col::Xterm(n)) => Slot::Xterm(n),
        (Slot::Css(_), Col::Css(n)) => Slot::Css(n),
        (Slot::Rgb(..), Col::Rgb(r, g, b)) => Slot::Rgb(r, g, b),
        (Slot::OptRgb(Some(_)), Col::Rgb(r, g, b)) => Slot::OptRgb(Some((r, g, b))),
        _ => s,
    }
}

pub fn cross() -> impl Strategy<Value = StyleCase> {
    let kinship = prop_oneof![2 => Just((None, None)), 1 => any::<(Option<u8>, Option<u8>)>()];
    (unrelated(), kinship).prop_map(|(c, (a, b))| match c {
        StyleCase::Cross { fg, bg, ul, fx } if a.or(b).is_some() => {
            let d = c.desc();
            // relate the foreground to the background when only the foreground can be chosen freely
            let (fg, bg) = match like(bg, d.fg, a) {
                same if same == bg => (like(fg, d.bg, a), bg),
                bg => (fg, bg),
            };
            let first = StyleCase::Cross { fg, bg, ul, fx }.desc();
            StyleCase::Cross { fg, bg, ul: like(ul, first.fg.or(first.bg), b), fx }
        }
        c => c,
    })
}

fn unrelated() -> impl Strategy<Value = StyleCase> {
    let any = (slots(), slots_core()).prop_flat_map(|(a, b)| prop_oneof![Just((a, b)), Just((b, a))]);
    let pairs = (any, slots_ul(), fx()).prop_map(|((fg, bg), ul, fx)| StyleCase::Cross { fg, bg, ul, fx });
    let fg = prop_oneof![Just(Slot::NoColor), prop::option::of(col()).prop_map(Slot::OptDyn)];
    let under = (fg, slots(), fx()).prop_map(|(fg, ul, fx)| StyleCase::Cross { fg, bg: Slot::NoColor, ul, fx });
    prop_oneof![7 => pairs, 1 => under]
}

/// Only types that offer the conversions C04 talks about
pub fn convertible() -> impl Strategy<Value = StyleCase> {
    let all_static = (
        static_slot(),
        prop::sample::select(vec![Slot::NoColor, Slot::SCss]),
        any::<bool>(),
        static_slot(),
        fx(),
    )
        .prop_map(|(fg, bg, swap, ul, fx)| {
            let (fg, bg) = if swap { (bg, fg) } else { (fg, bg) };
            StyleCase::Cross { fg, bg, ul, fx }
        });
    prop_oneof![2 => all_static, 3 => cross(), 2 => (statics(), fx()).prop_map(|(c, fx)| StyleCase::Wide { c, fx })]
}

pub fn style_case() -> impl Strategy<Value = StyleCase> {
    prop_oneof![5 => cross(), 1 => (statics(), fx()).prop_map(|(c, fx)| StyleCase::Wide { c, fx })]
}

/// Cases over the types that `with_all` distinguishes
pub fn few() -> impl Strategy<Value = StyleCase> {
    let u = prop_oneof![1 => Just(Slot::NoColor), 2 => prop::option::of(col()).prop_map(Slot::OptDyn)];
    (slots_core(), slots_core(), u, fx()).prop_map(|(fg, bg, ul, fx)| StyleCase::Cross { fg, bg, ul, fx })
}

/// the formatting trait `tr` of a `StyledValue`, chosen at run time
pub fn fmt_all(case: &StyleCase, stream: Option<Stream>, v: &TV<'_>, tr: Tr, f: &mut Formatter<'_>) -> fmt::Result {
    case.with_all(stream, v, |s| s.fmt_by(tr, f))
}
