use crate::util::*;
use colorz::{mode, Style};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::{self, Formatter};
use vcore::fmtspec::*;
use vcore::model::*;
use vcore::run::*;
use vcore::val::*;
use vcore::ensure_eq;
use vstyles::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
enum Op {
    Mode(M),
    Default(S),
    Ask(Option<S>),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    style: StyleCase,
    history: Vec<Op>,
    spec: FmtSpec,
    val: Val,
    tr: Tr,
}

fn clear_all(debug: bool, f: &mut Formatter<'_>) -> fmt::Result {
    if debug {
        fmt::Debug::fmt(&Style::clear_all(), f)
    } else {
        fmt::Display::fmt(&Style::clear_all(), f)
    }
}

fn check(c: &Case) -> Result<Info, String> {
    set(M::Always, S::Always);
    let (start, end) = c.style.with(|e| (start_of(e), end_of(e)));
    let (start, end) = (start?, end?);
    let all = render(&FmtSpec::PLAIN, |f| clear_all(false, f))?;
    let d = c.style.desc();
    let (mut m, mut s) = (M::Always, S::Always);
    for op in std::iter::once(&Op::Ask(None)).chain(&c.history) {
        match op {
            Op::Mode(x) => {
                mode::set_coloring_mode(x.real());
                m = *x;
            }
            Op::Default(x) => {
                mode::set_default_stream(x.real());
                s = *x;
            }
            Op::Ask(s) => {
                mode::should_color(s.map(S::real), &[]);
            }
        }
        for debug in [false, true] {
            let (a, b) = c.style.with(|e| (render(&c.spec, |f| e.apply(debug, f)), render(&c.spec, |f| e.clear(debug, f))));
            ensure_eq!(a?, start, "start sequence in mode {m:?}, default {s:?}, debug {debug}");
            ensure_eq!(b?, end, "end sequence in mode {m:?}, default {s:?}, debug {debug}");
            ensure_eq!(render(&c.spec, |f| clear_all(debug, f))?, all, "clear_all in mode {m:?}, default {s:?}");
        }
    }
    // from inside of a value that is being formatted, colored or not
    for m in [mode::Mode::Always, mode::Mode::Never] {
        mode::set_coloring_mode(m);
        let inside = std::cell::RefCell::new(String::new());
        let text = |f: &mut Formatter<'_>| {
            c.style.with(|e| {
                *inside.borrow_mut() = format!("{}{}", start_of(e).unwrap(), end_of(e).unwrap());
                e.apply(false, f)?;
                e.clear(false, f)
            })
        };
        let out = c.style.with(|e| render(&c.spec, |f| e.fmt_with(None, f, &mut |f| text(f))))?;
        ensure_eq!(*inside.borrow(), format!("{start}{end}"), "sequences made while a value is formatted in mode {m:?}");
        let plain = format!("{start}{end}");
        let want = if m == mode::Mode::Always && !STRIP { format!("{start}{plain}{end}") } else { plain };
        ensure_eq!(out, want, "sequences written as the text of a styled value in mode {m:?}");
    }
    // the styled value, when colored, is exactly start + text + end
    mode::set_coloring_mode(mode::Mode::Always);
    if let Ok(bare) = c.spec.to_string(|f| c.val.fmt(c.tr, f)) {
        let body = |tr: Tr, f: &mut Formatter<'_>| c.val.fmt(tr, f);
        let out = c.style.with(|e| render(&c.spec, |f| e.fmt_with(None, f, &mut |f| body(c.tr, f))))?;
        if STRIP {
            ensure_eq!(out, bare, "styled value under strip-colors");
        } else {
            ensure_eq!(out, format!("{start}{bare}{end}"), "styled value");
        }
    }
    Ok(Info {
        nontrivial: !d.is_plain() && (!c.spec.is_plain() || !c.history.is_empty()),
        label: crate::c02::label(&c.style),
    })
}

pub fn run(mut ctx: Ctx) {
    let op = prop_oneof![
        2 => mode().prop_map(Op::Mode),
        2 => stream().prop_map(Op::Default),
        1 => prop::option::of(stream()).prop_map(Op::Ask),
    ];
    let s = (style_case(), prop::collection::vec(op, 0..5), spec(), val(true), tr())
        .prop_map(|(style, history, spec, val, tr)| Case { style, history, spec, val, tr });
    ctx.prop("raw", 240_000, 2_500_000, s, check);
    // the driver compares these between feature sets
    ctx.corpus("corpus", 4_000, (style_case(), mode(), stream()), |(style, m, s)| {
        set(*m, *s);
        let r = style.with(|e| (start_of(e), end_of(e)));
        format!("{r:?} {:?}", render(&FmtSpec::PLAIN, |f| clear_all(false, f)))
    });
    ctx.finish()
}
