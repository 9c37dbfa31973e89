use crate::c02::*;
use crate::util::*;
use colorz::Style;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::fmtspec::*;
use vcore::model::*;
use vcore::run::*;
use vcore::term::{self, State};
use vcore::{ensure, ensure_eq};
use vstyles::*;

fn check(c: &Case) -> Result<Info, String> {
    let d = c.style.desc();
    let (start, end) = c.style.with(|e| {
        (
            render(&FmtSpec::PLAIN, |f| e.apply(c.debug, f)),
            render(&FmtSpec::PLAIN, |f| e.clear(c.debug, f)),
        )
    });
    let (start, end) = (start?, end?);
    let mut st = c.before;
    term::feed_pure(&mut st, &start)?;
    let mut after = st;
    term::feed_pure(&mut after, &end)?;
    d.check_cleared(st, after).map_err(|e| format!("{e} ({start:?} then {end:?})"))?;
    // independent of what applying actually did
    let st = d.applied(c.before);
    let mut after = st;
    term::feed_pure(&mut after, &end)?;
    d.check_cleared(st, after).map_err(|e| format!("{e} (after {end:?})"))?;
    Ok(Info { nontrivial: !d.is_plain(), label: label(&c.style) })
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Leak {
    case: Case,
    mode: M,
    stream: Option<S>,
    default: S,
    spec: FmtSpec,
    text: String,
}

/// a whole styled value in the middle of other text
fn leak(c: &Leak) -> Result<Info, String> {
    set(c.mode, c.default);
    let d = c.case.style.desc();
    let stream = c.stream.map(S::real);
    let body = |_: Tr, f: &mut std::fmt::Formatter<'_>| f.pad(&c.text);
    let (out, colored) = c.case.style.with(|e| {
        (render(&c.spec, |f| e.display(stream, &TV(&body), f)), e.should_color(stream))
    });
    let colored = decide(c.mode, c.stream, c.default).unwrap_or(colored);
    let out = format!("{}|", out?);
    let mut st = c.case.before;
    let shown = term::feed(&mut st, &out)?;
    let bare = render(&c.spec, |f| f.pad(&c.text))?;
    let inside = d.applied(c.case.before);
    if colored {
        if !bare.is_empty() && !d.is_plain() {
            ensure_eq!(shown[0], (bare.as_str(), inside), "how the text is shown by {out:?}");
        }
        d.check_cleared(inside, st).map_err(|e| format!("{e} (by {out:?})"))?;
    } else {
        ensure_eq!(st, c.case.before, "terminal state after an uncolored value {out:?}");
    }
    Ok(Info { nontrivial: colored && !d.is_plain(), label: label(&c.case.style) })
}

fn clear_all(c: &(State, bool, FmtSpec)) -> Result<Info, String> {
    let (before, debug, spec) = c;
    let s = Style::clear_all();
    let out = render(spec, |f| {
        if *debug {
            std::fmt::Debug::fmt(&s, f)
        } else {
            std::fmt::Display::fmt(&s, f)
        }
    })?;
    let mut st = *before;
    term::feed_pure(&mut st, &out)?;
    ensure!(st == State::DEFAULT, "clear_all {out:?} leaves {st:?}");
    ok(*before != State::DEFAULT)
}

pub fn run(mut ctx: Ctx) {
    let of = |style| [(State::DEFAULT, true), (ODD, false)].map(|(before, debug)| Case { style, before, debug });
    ctx.exhaustive("all_effect_sets", grid().flat_map(of), check);
    ctx.exhaustive("all_comptime_colors", wide().flat_map(of), check);
    let s = || (style_case(), any::<bool>(), state()).prop_map(|(style, debug, before)| Case { style, debug, before });
    ctx.prop("styles", 400_000, 8_000_000, s(), check);
    let l = (s(), mode(), prop::option::of(stream()), stream(), spec(), vcore::val::text(false))
        .prop_map(|(case, mode, stream, default, spec, text)| Leak { case, mode, stream, default, spec, text });
    ctx.prop("no_leak", 200_000, 4_000_000, l, leak);
    ctx.prop("clear_all", 20_000, 200_000, (state(), any::<bool>(), spec()), clear_all);
    ctx.finish()
}
