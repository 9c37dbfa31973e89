use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::fmtspec::FmtSpec;
use vcore::model::*;
use vcore::run::*;
use vcore::term::{self, State};
use vcore::{ensure, ensure_eq};
use vstyles::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    pub style: StyleCase,
    pub debug: bool,
    pub before: State,
}

pub fn label(style: &StyleCase) -> &'static str {
    let d = style.desc();
    let n = d.fx.count_ones();
    match (d.fg.is_some() || d.bg.is_some(), n, d.ul.is_some() && d.fx & UNDERLINES != 0) {
        (_, _, true) => "underline color in effect",
        (true, 0, _) => "colors only",
        (true, 1, _) => "colors and one effect",
        (true, _, _) => "colors and several effects",
        (false, 0, _) => "plain",
        (false, 1, _) => "one effect",
        (false, _, _) => "several effects",
    }
}

fn check(c: &Case) -> Result<Info, String> {
    let d = c.style.desc();
    let (out, plain, fx) = c
        .style
        .with(|e| (render(&FmtSpec::PLAIN, |f| e.apply(c.debug, f)), e.is_plain(), e.effects()));
    let out = out?;
    ensure_eq!(plain, d.is_plain(), "is_plain");
    ensure_eq!(unflags(fx), d.fx, "effects of the style");
    ensure!(out.is_empty() == plain, "start sequence {out:?} but is_plain() is {plain}");
    let mut st = c.before;
    term::feed_pure(&mut st, &out)?;
    ensure_eq!(st, d.applied(c.before), "terminal state after {out:?}");
    Ok(Info { nontrivial: !plain, label: label(&c.style) })
}

/// a terminal state that differs from the default in everything
pub const ODD: State = State {
    fg: term::TCol::Palette(201),
    bg: term::TCol::Base(3),
    ul: term::TCol::Rgb(1, 2, 3),
    fx: 0b1010101010101,
};

/// all effect sets x presence and kind of representation of each color
pub fn grid() -> impl Iterator<Item = StyleCase> {
    let reps = [
        Slot::NoColor,
        Slot::SCss,
        Slot::Dyn(Col::Ansi(11)),
        Slot::OptDyn(None),
        Slot::OptDyn(Some(Col::Rgb(10, 200, 9))),
    ];
    let uls = [Slot::NoColor, Slot::OptDyn(Some(Col::Xterm(200))), Slot::Rgb(7, 77, 177)];
    let mut combos = Vec::new();
    for fg in reps {
        for bg in reps {
            for ul in uls {
                combos.push((fg, bg, ul));
            }
        }
    }
    (0..8192u16).flat_map(move |fx| {
        combos.clone().into_iter().map(move |(fg, bg, ul)| StyleCase::Cross { fg, bg, ul, fx })
    })
}

/// every compile-time color with no effect, each effect, each pair, and all
pub fn wide() -> impl Iterator<Item = StyleCase> {
    let mut fxs = vec![0, ALL_FX];
    for i in 0..13 {
        fxs.push(1 << i);
        for j in 0..i {
            fxs.push(1 << i | 1 << j);
        }
    }
    Static::all().flat_map(move |c| fxs.clone().into_iter().map(move |fx| StyleCase::Wide { c, fx }))
}

pub fn run(mut ctx: Ctx) {
    let of = |style| [(State::DEFAULT, false), (ODD, true)].map(|(before, debug)| Case { style, before, debug });
    ctx.exhaustive("all_effect_sets", grid().flat_map(of), check);
    ctx.exhaustive("all_comptime_colors", wide().flat_map(of), check);
    let s = (style_case(), any::<bool>(), state()).prop_map(|(style, debug, before)| Case { style, debug, before });
    ctx.prop("styles", 600_000, 12_000_000, s, check);
    ctx.finish()
}
