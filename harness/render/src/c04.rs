use crate::c02::{label, ODD};
use crate::util::*;
use colorz::{mode, Style};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::model::*;
use vcore::run::*;
use vcore::term::{self, State};
use vcore::ensure_eq;
use vstyles::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    style: StyleCase,
    before: State,
    mode: M,
    default: S,
    stream: Option<S>,
}

#[derive(PartialEq, Debug)]
struct Seen {
    applied: State,
    cleared: State,
    plain: bool,
    decision: bool,
    direct: bool,
    effects: u16,
}

fn observe(e: &dyn Erased, c: &Case) -> Result<Seen, String> {
    let stream = c.stream.map(S::real);
    let mut st = c.before;
    term::feed_pure(&mut st, &start_of(e)?)?;
    let applied = st;
    // the state clearing starts from must not depend on the representation
    let mut cleared = c.style.desc().applied(c.before);
    term::feed_pure(&mut cleared, &end_of(e)?)?;
    let kinds = c.style.desc().kinds().map(|k| k.map_or(mode::ColorKind::NoColor, Kind::real));
    Ok(Seen {
        applied,
        cleared,
        plain: e.is_plain(),
        decision: e.should_color(stream),
        direct: mode::should_color(stream, &kinds),
        effects: unflags(e.effects()),
    })
}

fn check(c: &Case) -> Result<Info, String> {
    set(c.mode, c.default);
    let d = c.style.desc();
    let reference = d.runtime();
    let want = observe(&reference, c)?;
    ensure_eq!(want.decision, want.direct, "decision of the type-erased style and of its color kinds");
    let got = c.style.with(|e| observe(e, c))?;
    ensure_eq!(got, want, "typed style and type-erased style");
    let mut conv = 0;
    if let Some(s) = c.style.into_runtime() {
        same("into_runtime_style", &s, &reference)?;
        ensure_eq!(observe(&s, c)?, want, "converted style");
        conv += 1;
    }
    if let Some(s) = c.style.const_into_runtime() {
        same("const_into_runtime_style", &s, &reference)?;
        conv += 1;
    }
    // converting what is already erased changes nothing
    same("into_runtime_style of an erased style", &reference.into_runtime_style(), &reference)?;
    let w = StyleCase::Cross { fg: Slot::OptOpt(Some(d.fg)), bg: Slot::OptDyn(d.bg), ul: Slot::OptDyn(d.ul), fx: d.fx };
    let got = w.with(|e| observe(e, c))?;
    ensure_eq!(got, want, "style in nested options and type-erased style");
    Ok(Info {
        nontrivial: !d.is_plain() && (conv > 0 || !matches!(c.style, StyleCase::Wide { .. })),
        label: if conv == 2 {
            "both conversions"
        } else if conv == 1 {
            "one conversion"
        } else {
            label(&c.style)
        },
    })
}

fn same(what: &str, got: &Style, want: &Style) -> Result<(), String> {
    ensure_eq!(got.foreground, want.foreground, "{what}: foreground");
    ensure_eq!(got.background, want.background, "{what}: background");
    ensure_eq!(got.underline_color, want.underline_color, "{what}: underline color");
    ensure_eq!(unflags(got.effects), unflags(want.effects), "{what}: effects");
    Ok(())
}

pub fn run(mut ctx: Ctx) {
    let all = crate::c02::wide().map(|style| Case {
        style,
        before: ODD,
        mode: M::Detect,
        default: S::Always,
        stream: Some(S::Stdout),
    });
    ctx.exhaustive("all_comptime_colors", all, check);
    let s = (convertible(), state(), prop_oneof![4 => Just(M::Detect), 1 => mode()], stream(), prop::option::of(stream()))
        .prop_map(|(style, before, mode, default, stream)| Case { style, before, mode, default, stream });
    ctx.prop("styles", 800_000, 12_000_000, s, check);
    ctx.finish()
}
