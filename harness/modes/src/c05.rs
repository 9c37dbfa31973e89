//! C05: the documented precedence.  C06: detection.

use crate::model::*;
use crate::op::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::model::*;
use vcore::run::*;

fn judge(cfg: Cfg, steps: &[Step], need_detection: bool) -> Result<Info, String> {
    let m = history(cfg, steps)?;
    let q = steps.iter().position(|s| s.op.is_query());
    let set = steps.iter().position(|s| s.op.is_setting());
    let influenced = match (q, set) {
        (Some(_), Some(s)) => steps[s..].iter().any(|s| s.op.is_query()),
        _ => false,
    };
    let label = match (m.detections, m.repeated) {
        (0, _) => "no detection",
        (_, 0) => "detection",
        _ => "repeated detection",
    };
    ok_as(label, if need_detection { m.detections > 0 } else { influenced })
}

/// One query in one situation
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct One {
    pre: Vec<Op>,
    query: Op,
}
fn one(cfg: Cfg, c: &One, need_detection: bool) -> Result<Info, String> {
    let mut steps: Vec<Step> = c.pre.iter().map(|op| Step { op: op.clone(), thread: false }).collect();
    steps.push(Step { op: c.query.clone(), thread: false });
    judge(cfg, &steps, need_detection)
}

fn forms(stream: Option<S>, k: [C; 3]) -> Vec<Op> {
    let mut v = vec![Op::Ask(stream, k.to_vec())];
    for rep in REPS {
        let y = Sty { rep, colors: k, fx: 1, tone: 0 };
        v.push(Op::Decide(stream, y));
        v.push(Op::Print(stream, y));
    }
    v
}

pub fn run05(mut ctx: Ctx) {
    let cfg = Cfg::parse(&ctx.config);
    // every combination of mode, default stream, per-value stream and form of query, from
    // every prior mode and default stream
    let table = || {
        let streams = || STREAMS.into_iter().map(Some).chain([None]);
        MODES.into_iter().flat_map(move |m0| {
            MODES.into_iter().flat_map(move |m| {
                STREAMS.into_iter().flat_map(move |d0| {
                    STREAMS.into_iter().flat_map(move |d| {
                        streams().flat_map(move |s| {
                            forms(s, [C::Ansi, C::No, C::Rgb]).into_iter().map(move |query| One {
                                pre: vec![
                                    Op::SetMode(m0),
                                    Op::SetDefault(d0),
                                    Op::SetMode(m),
                                    Op::SetDefault(d),
                                    Op::GetMode,
                                    Op::GetDefault,
                                ],
                                query,
                            })
                        })
                    })
                })
            })
        })
    };
    ctx.exhaustive("table", table(), |c| one(cfg, c, false));
    let initial = STREAMS
        .into_iter()
        .map(Some)
        .chain([None])
        .flat_map(|s| forms(s, [C::Xterm, C::No, C::No]))
        .map(|query| One { pre: vec![Op::GetMode, Op::GetDefault], query });
    ctx.exhaustive("initial", initial, |c| one(cfg, c, false));
    let op = || {
        prop_oneof![
            4 => setting(),
            2 => read(),
            6 => query(),
            1 => Just(Op::SetFromEnv),
            1 => wire(),
            1 => term_env(),
        ]
    };
    let steps = vec(with_thread(op()), 1..24);
    ctx.prop("history", 9_000, 120_000, steps, |c| judge(cfg, c, false));
    // many operations, mostly of few sorts
    ctx.prop("long_history", 96, 2_000, long(op().boxed()), |c| judge(cfg, c, false));
    ctx.finish()
}

pub fn run06(mut ctx: Ctx) {
    let cfg = Cfg::parse(&ctx.config);
    // every wiring of both streams x terminal descriptions x kinds x stream x form of query
    let profiles: &[&[(&str, &str)]] = &[
        &[],
        &[("TERM", "dumb")],
        &[("TERM", "xterm")],
        &[("TERM", "xterm-256color")],
        &[("TERM", "xterm"), ("COLORTERM", "truecolor")],
        &[("COLORTERM", "yes")],
        &[("FORCE_COLOR", "1")],
        &[("FORCE_COLOR", "2")],
        &[("FORCE_COLOR", "3")],
        &[("NO_COLOR", "1"), ("TERM", "xterm-256color")],
        &[("IGNORE_IS_TERMINAL", "1"), ("TERM", "xterm")],
        &[("CLICOLOR_FORCE", "1")],
        &[("CI", "1"), ("TERM", "dumb")],
    ];
    let profiles = if cfg.sc { profiles } else { &profiles[..4] };
    let kinds: Vec<[C; 3]> = {
        let mut v = Vec::new();
        for n in 0..8u8 {
            // a kind in use takes each of the three slots
            let k = [C::Ansi, C::Xterm, C::Rgb].map(|c| if n & c.need() != 0 { c } else { C::No });
            for r in 0..3 {
                v.push([k[r], k[(r + 1) % 3], k[(r + 2) % 3]]);
            }
        }
        v.dedup();
        v
    };
    let wirings: Vec<(char, char)> =
        "tpfnc".chars().flat_map(|a| "tpfnc".chars().map(move |b| (a, b))).collect();
    let cases = wirings.iter().flat_map(|w| {
        let kinds = &kinds;
        profiles.iter().enumerate().flat_map(move |(pi, p)| {
            [S::Stdout, S::Stderr].into_iter().flat_map(move |s| {
                kinds.iter().enumerate().flat_map(move |(ki, k)| {
                    let mut pre: Vec<Op> = p
                        .iter()
                        .map(|(n, v)| Op::Env(n.to_string(), Some(v.as_bytes().to_vec())))
                        .collect();
                    pre.push(Op::Wire(S::Stdout, w.0));
                    pre.push(Op::Wire(S::Stderr, w.1));
                    // the stream is the value's own, or the default one
                    let own = (pi + ki) % 2 == 0;
                    if !own {
                        pre.push(Op::SetDefault(s));
                    }
                    forms(own.then_some(s), *k)
                        .into_iter()
                        .enumerate()
                        .filter(move |(f, _)| (f + ki + pi) % 3 == 0)
                        .map(move |(_, query)| One { pre: pre.clone(), query })
                })
            })
        })
    });
    ctx.exhaustive("situations", cases, |c| one(cfg, c, true));
    // every color of a kind and every set of effects, sixteen at a time, on terminals of every level
    let levels: &[&[(&str, &str)]] = &[&[("TERM", "dumb")], &[("TERM", "xterm")], &[("TERM", "xterm-256color")], &[("COLORTERM", "truecolor")]];
    let batches = |styles: Vec<Sty>| {
        let (some, s): (Vec<Vec<Sty>>, _) = (styles.chunks(16).map(<[_]>::to_vec).collect(), [S::Stdout, S::Stderr]);
        some.into_iter().enumerate().flat_map(move |(i, b)| {
            levels.iter().flat_map(move |l| {
                let b = b.clone();
                ['t', 'p'].map(|to| {
                    let env = l.iter().map(|(k, v)| Op::Env(k.to_string(), Some(v.as_bytes().to_vec())));
                    let ask = b.iter().enumerate().map(|(j, y)| match (i + j) % 2 {
                        0 => Op::Decide(Some(s[i % 2]), *y),
                        _ => Op::Print(Some(s[i % 2]), *y),
                    });
                    env.chain([Op::Wire(s[i % 2], to), Op::Wire(s[1 - i % 2], if to == 't' { 'p' } else { 't' })])
                        .chain(ask)
                        .map(|op| Step { op, thread: false })
                        .collect::<Vec<_>>()
                })
            })
        })
    };
    let mut styles = Vec::new();
    for (c, n) in [(C::Ansi, 17), (C::Xterm, 256), (C::Css, 12), (C::Rgb, 512)] {
        for tone in 0..n {
            for slot in 0..3 {
                let mut colors = [C::No; 3];
                colors[slot] = c;
                // the default underline color, and no underline either, as often as an effect
                let fx = [1 << 3, 0, 1][(tone as usize + slot) % 3];
                for rep in [Rep::Dynamic, Rep::Runtime] {
                    styles.push(Sty { rep, colors, fx, tone: if c == C::Rgb { tone * 127 } else { tone } });
                }
            }
        }
    }
    ctx.exhaustive("every_color", batches(styles), |c| judge(cfg, c, true));
    let styles = (0..1 << 13)
        .map(|fx: u16| {
            let (rep, c) = (REPS[fx as usize % 3], [C::Ansi, C::Xterm, C::Rgb][fx as usize / 3 % 3]);
            let mut colors = [C::No; 3];
            colors[fx as usize / 9 % 3] = c;
            Sty { rep, colors, fx, tone: fx }
        })
        .collect();
    ctx.exhaustive("every_effect_set", batches(styles), |c| judge(cfg, c, true));
    let op = || {
        prop_oneof![
            8 => detecting(),
            2 => query(),
            2 => wire(),
            2 => term_env(),
            1 => stream().prop_map(Op::SetDefault),
            1 => Just(Op::SetMode(M::Detect)),
            1 => mode().prop_map(Op::SetMode),
        ]
    };
    // a situation, then queries while it changes
    let steps = (vec(prop_oneof![wire(), term_env(), wire()], 0..6), vec(with_thread(op()), 1..16)).prop_map(
        |(pre, rest)| {
            let mut v: Vec<Step> = pre.into_iter().map(|op| Step { op, thread: false }).collect();
            v.extend(rest);
            v
        },
    );
    ctx.prop("history", 30_000, 500_000, steps, |c| judge(cfg, c, true));
    ctx.prop("long_history", 96, 2_000, long(op().boxed()), |c| judge(cfg, c, true));
    ctx.finish()
}

/// Hundreds of operations: a few that are repeated over and over, with others in between
fn long(op: BoxedStrategy<Op>) -> impl Strategy<Value = Vec<Step>> {
    (vec(op.clone(), 1..4), vec((0usize..4, op, prop::bool::weighted(0.02)), 260..700)).prop_map(|(often, v)| {
        v.into_iter()
            .enumerate()
            .map(|(i, (pick, op, thread))| Step {
                op: if pick != 0 { often[i % often.len()].clone() } else { op },
                thread,
            })
            .collect()
    })
}

fn detecting() -> impl Strategy<Value = Op> {
    (query(), prop::sample::select(vec![S::Stdout, S::Stderr])).prop_map(|(q, s)| match q {
        Op::Ask(_, k) => Op::Ask(Some(s), k),
        Op::Decide(_, y) => Op::Decide(Some(s), y),
        Op::Print(_, y) => Op::Print(Some(s), y),
        q => q,
    })
}
