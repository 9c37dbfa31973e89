use crate::util::*;
use colorz::{Color, Colorize, Style, StyledValue};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt;
use vcore::fmtspec::*;
use vcore::model::*;
use vcore::run::*;
use vcore::val::*;
use vcore::{ensure, ensure_eq, term};
use vstyles::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    style: StyleCase,
    val: Val,
    tr: Tr,
    spec: FmtSpec,
    stream: Option<S>,
    mode: M,
    default: S,
}

fn judge(c: &Case, out: &str, bare: &str, decided: bool) -> Result<Info, String> {
    let colored = decide(c.mode, c.stream, c.default).unwrap_or(decided);
    let d = c.style.desc();
    if !colored {
        ensure!(out == bare, "not colored, but printed {out:?} instead of {bare:?}");
    } else if c.val.writes_esc() {
        surrounds(out, bare)?;
    } else {
        ensure_eq!(term::strip(out)?, bare, "text of the styled value ({out:?})");
    }
    let plain = d.is_plain();
    Ok(Info {
        nontrivial: (colored && !plain) || !c.spec.is_plain() || c.tr != Tr::Display,
        label: match (colored, plain, c.spec.is_plain()) {
            (true, false, false) => "colored, with format options",
            (true, false, true) => "colored, no format options",
            (true, true, _) => "plain style",
            (false, _, _) => "not colored",
        },
    })
}

/// through the formatting traits, with a value type that implements all of them
fn traits(c: &Case) -> Result<Info, String> {
    set(c.mode, c.default);
    let stream = c.stream.map(S::real);
    let bare = c.spec.to_string(|f| c.val.fmt(c.tr, f));
    let bare = match bare {
        Ok(b) => b,
        Err(_) => return ok_as("the value itself fails", false),
    };
    let seen = RefCell::new(Vec::new());
    let body = |tr: Tr, f: &mut fmt::Formatter<'_>| {
        seen.borrow_mut().push((tr, FmtSpec::seen_by(f)));
        c.val.fmt(tr, f)
    };
    let v = TV(&body);
    let out = render(&c.spec, |f| fmt_all(&c.style, stream, &v, c.tr, f))?;
    let want = vec![(c.tr, c.spec.seen())];
    ensure_eq!(*seen.borrow(), want, "formatting calls made on the value");
    let decided = c.style.with(|e| e.should_color(stream));
    judge(c, &out, &bare, decided)
}

/// through `fmt_with` and Display, over all style types
fn fmt_with(c: &Case) -> Result<Info, String> {
    set(c.mode, c.default);
    let stream = c.stream.map(S::real);
    let Ok(bare) = c.spec.to_string(|f| c.val.fmt(c.tr, f)) else {
        return ok_as("the value itself fails", false);
    };
    let seen = RefCell::new(Vec::new());
    let body = |tr: Tr, f: &mut fmt::Formatter<'_>| {
        seen.borrow_mut().push((tr, FmtSpec::seen_by(f)));
        c.val.fmt(tr, f)
    };
    let out = c.style.with(|e| {
        render(&c.spec, |f| {
            if c.tr == Tr::Display {
                e.display(stream, &TV(&body), f)
            } else {
                e.fmt_with(stream, f, &mut |f| body(c.tr, f))
            }
        })
    })?;
    let want = vec![(c.tr, c.spec.seen())];
    ensure_eq!(*seen.borrow(), want, "calls of the format closure");
    let decided = c.style.with(|e| e.should_color(stream));
    judge(c, &out, &bare, decided)
}

/// through real types and `Colorize`, with the types' own formatting
fn typed(c: &Case) -> Result<Info, String> {
    set(c.mode, c.default);
    let stream = c.stream.map(S::real);
    let style: Style = c.style.desc().runtime();
    let spec = &c.spec;
    fn show<T: fmt::Display + fmt::Debug>(v: T, c: &Case, style: Style, s: Option<colorz::mode::Stream>) -> Result<Info, String> {
        let spec = &c.spec;
        let tr = if c.tr == Tr::Debug { Tr::Debug } else { Tr::Display };
        fn by<T: fmt::Display + fmt::Debug + ?Sized>(v: &T, tr: Tr, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            if tr == Tr::Debug {
                fmt::Debug::fmt(v, f)
            } else {
                fmt::Display::fmt(v, f)
            }
        }
        let bare = render(spec, |f| by(&v, tr, f))?;
        let decided = style.should_color(s);
        let borrowed = v.style_with(style).stream_opt(s);
        let out = render(spec, |f| by(&borrowed, tr, f))?;
        let rt = |x| x;
        let again = rt(v).into_style_with(style).stream_opt(s);
        let out2 = render(spec, |f| by(&again, tr, f))?;
        ensure_eq!(out, out2, "output of the borrowed and the owning styled value");
        // the bare output of the value held inside
        let inner = render(spec, |f| by(&again.value, tr, f))?;
        ensure_eq!(inner, bare, "the value held by the styled value");
        judge(c, &out, &bare, decided)
    }
    match &c.val {
        Val::Int(v) => num(*v, c, style, stream),
        Val::Byte(v) => num(*v, c, style, stream),
        Val::Big(a, b) => num((*a as i128) << 64 | *b as i128, c, style, stream),
        Val::F64(v) => show(f64::from_bits(*v), c, style, stream),
        Val::F32(v) => show(f32::from_bits(*v), c, style, stream),
        Val::Str(s) => {
            show(s.as_str(), c, style, stream)?;
            show(s.clone(), c, style, stream)
        }
        Val::Char(v) => show(*v, c, style, stream),
        Val::Bool(v) => show(*v, c, style, stream),
        Val::Pad(s) => show(format_args!("{s:?}").to_string(), c, style, stream),
        Val::Ptr(p) => {
            let p = *p as usize as *const u8;
            let bare = render(spec, |f| fmt::Pointer::fmt(&p, f))?;
            let v: StyledValue<_, Option<Color>, Option<Color>, Option<Color>> = StyledValue::new(p, style, stream);
            let out = render(spec, |f| fmt::Pointer::fmt(&v, f))?;
            judge(c, &out, &bare, style.should_color(stream))
        }
        Val::List(l) => {
            let v = StyledValue::new(l, style, stream);
            let bare = render(spec, |f| fmt::Debug::fmt(l, f))?;
            let out = render(spec, |f| fmt::Debug::fmt(&v, f))?;
            judge(c, &out, &bare, style.should_color(stream))
        }
        Val::Struct(a, b) => {
            let t = (a, Some(b), [b; 2]);
            let v = StyledValue::new(t, style, stream);
            let bare = render(spec, |f| fmt::Debug::fmt(&t, f))?;
            let out = render(spec, |f| fmt::Debug::fmt(&v, f))?;
            judge(c, &out, &bare, style.should_color(stream))
        }
        v => {
            // format! itself, with run-time width and precision
            let t = format!("{v:?}");
            let s = t.as_str().style_with(style).stream_opt(stream);
            let (w, p) = (c.spec.width.unwrap_or(7) as usize, c.spec.precision.unwrap_or(5) as usize);
            let d = style.should_color(stream);
            judge(c, &format!("{s:w$.p$}"), &format!("{t:w$.p$}"), d)?;
            judge(c, &format!("{s:>w$?}"), &format!("{t:>w$?}"), d)?;
            judge(c, &format!("{s:*^w$}"), &format!("{t:*^w$}"), d)?;
            judge(c, &s.to_string(), &t, d)
        }
    }
}

fn num<T>(v: T, c: &Case, style: Style, stream: Option<colorz::mode::Stream>) -> Result<Info, String>
where
    T: fmt::Display
        + fmt::Debug
        + fmt::Binary
        + fmt::Octal
        + fmt::LowerExp
        + fmt::UpperExp
        + fmt::LowerHex
        + fmt::UpperHex
        + Copy,
{
    fn by<T>(v: &T, tr: Tr, f: &mut fmt::Formatter<'_>) -> fmt::Result
    where
        T: fmt::Display
            + fmt::Debug
            + fmt::Binary
            + fmt::Octal
            + fmt::LowerExp
            + fmt::UpperExp
            + fmt::LowerHex
            + fmt::UpperHex,
    {
        match tr {
            Tr::Display | Tr::Pointer => fmt::Display::fmt(v, f),
            Tr::Debug => fmt::Debug::fmt(v, f),
            Tr::Binary => fmt::Binary::fmt(v, f),
            Tr::Octal => fmt::Octal::fmt(v, f),
            Tr::LowerExp => fmt::LowerExp::fmt(v, f),
            Tr::UpperExp => fmt::UpperExp::fmt(v, f),
            Tr::LowerHex => fmt::LowerHex::fmt(v, f),
            Tr::UpperHex => fmt::UpperHex::fmt(v, f),
        }
    }
    let bare = render(&c.spec, |f| by(&v, c.tr, f))?;
    let s = v.style_with(style).stream_opt(stream);
    let out = render(&c.spec, |f| by(&s, c.tr, f))?;
    judge(c, &out, &bare, style.should_color(stream))
}

fn cases(styles: BoxedStrategy<StyleCase>) -> impl Strategy<Value = Case> {
    let st = prop_oneof![1 => Just(None), 3 => stream().prop_map(Some)];
    let md = prop_oneof![2 => Just(M::Detect), 2 => Just(M::Always), 1 => Just(M::Never)];
    (styles, prop_oneof![4 => val(false), 1 => val(true)], tr(), spec(), st, md, stream()).prop_map(
        |(style, val, tr, spec, stream, mode, default)| Case { style, val, tr, spec, stream, mode, default },
    )
}

/// long texts and wide fields
fn long_cases() -> impl Strategy<Value = Case> {
    let width = prop_oneof![3 => Just(None), 2 => (200u16..5000).prop_map(Some), 1 => Just(Some(u16::MAX))];
    (cases(few().boxed()), prop_oneof![3 => long_val(), 1 => val(false)], width, prop::option::of(0u16..5000)).prop_map(
        |(c, val, width, precision)| Case {
            val,
            spec: FmtSpec { width: width.or(c.spec.width), precision: precision.or(c.spec.precision), ..c.spec },
            ..c
        },
    )
}

/// styled values inside the containers of std, printed for debugging as a whole
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Inside {
    container: u8,
    spec: FmtSpec,
    mode: M,
    default: S,
    items: Vec<(Val, StyleCase, Option<S>)>,
}

struct Dv<'a>(&'a Val);
impl fmt::Debug for Dv<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(Tr::Debug, f)
    }
}

fn contain<T: fmt::Debug>(k: u8, v: Vec<T>, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    #[derive(Debug)]
    #[allow(dead_code)]
    struct Named<T> {
        first: Option<T>,
        rest: Vec<T>,
    }
    #[derive(Debug)]
    #[allow(dead_code)]
    struct Pair<T>(Vec<Option<T>>, [u8; 0]);
    let mut it = v.into_iter();
    match k % 6 {
        0 => fmt::Debug::fmt(&it.collect::<Vec<_>>(), f),
        1 => fmt::Debug::fmt(&Named { first: it.next(), rest: it.collect() }, f),
        2 => fmt::Debug::fmt(&Pair(it.map(Some).collect(), []), f),
        3 => f.debug_map().entries(it.enumerate()).finish(),
        4 => f.debug_map().entries(it.map(|x| (x, ()))).finish(),
        _ => fmt::Debug::fmt(&(it.next(), Box::new(Ok::<_, ()>(it.next())), it.collect::<std::collections::VecDeque<_>>()), f),
    }
}

fn inside(c: &Inside) -> Result<Info, String> {
    set(c.mode, c.default);
    let Ok(bare) = c.spec.to_string(|f| contain(c.container, c.items.iter().map(|i| Dv(&i.0)).collect(), f)) else {
        return ok_as("a value itself fails", false);
    };
    let styled = || {
        c.items
            .iter()
            .map(|(v, y, s)| StyledValue::new(Dv(v), y.desc().runtime(), s.map(S::real)))
            .collect::<Vec<StyledValue<Dv<'_>, Option<Color>, Option<Color>, Option<Color>>>>()
    };
    let out = render(&c.spec, |f| contain(c.container, styled(), f))?;
    ensure_eq!(term::strip(&out)?, bare, "text of the container ({out:?})");
    let colored = |(_, y, s): &(Val, StyleCase, Option<S>)| {
        decide(c.mode, *s, c.default).unwrap_or(y.desc().runtime().should_color(s.map(S::real)))
    };
    if !c.items.iter().any(colored) {
        ensure_eq!(out, bare, "nothing is colored");
    }
    ok(c.items.iter().any(|i| colored(i) && !i.1.desc().is_plain()) || !c.spec.is_plain())
}

fn insides() -> impl Strategy<Value = Inside> {
    let st = prop_oneof![1 => Just(None), 3 => stream().prop_map(Some)];
    let md = prop_oneof![3 => Just(M::Detect), 2 => Just(M::Always), 1 => Just(M::Never)];
    let item = (val(false), few(), st);
    (0u8..6, spec(), md, stream(), prop::collection::vec(item, 0..5)).prop_map(
        |(container, spec, mode, default, items)| Inside { container, spec, mode, default, items },
    )
}

pub fn run(mut ctx: Ctx) {
    ctx.prop("inside", 60_000, 1_500_000, insides(), inside);
    ctx.prop("traits", 240_000, 4_000_000, cases(few().boxed()), traits);
    ctx.prop("fmt_with", 160_000, 3_000_000, cases(style_case().boxed()), fmt_with);
    ctx.prop("typed", 160_000, 3_000_000, cases(few().boxed()), typed);
    ctx.prop("long", 6_000, 200_000, long_cases(), |c: &Case| {
        traits(c)?;
        fmt_with(c)?;
        typed(c)
    });
    ctx.finish()
}
