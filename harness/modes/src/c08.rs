//! C08: strip-colors

use crate::model::*;
use crate::op::*;
use proptest::collection::vec;
use proptest::prelude::*;
use vcore::model::*;
use vcore::run::*;

fn step(op: Op) -> Step {
    Step { op, thread: false }
}

fn judge(cfg: Cfg, steps: &[Step]) -> Result<Info, String> {
    history(cfg, steps)?;
    // would be colored without the feature
    let mut n = Model::new(Cfg { strip: false, ..cfg });
    let (mut tempted, mut raw) = (false, false);
    for s in steps {
        match &s.op {
            Op::SetMode(m) => n.mode = *m,
            Op::SetDefault(d) => n.default = *d,
            Op::Ask(s, _) => tempted |= n.direct(*s) == Some(true),
            Op::Decide(s, y) | Op::Print(s, y) => tempted |= n.direct(*s) == Some(true) && !y.desc().is_plain(),
            Op::Raw(_) | Op::Codes(_) => raw = true,
            _ => {}
        }
    }
    ok_as(if tempted { "would be colored" } else { "" }, tempted || raw)
}

pub fn run(mut ctx: Ctx) {
    let cfg = Cfg::parse(&ctx.config);
    assert!(cfg.strip);
    let styles = || {
        REPS.into_iter().flat_map(|rep| {
            (0..125usize).flat_map(move |n| {
                [0u16, 1, 1 << 4, 1 << 4 | 1].map(|fx| Sty { rep, colors: [COLORS[n % 5], COLORS[n / 5 % 5], COLORS[n / 25]], fx, tone: 0 })
            })
        })
    };
    // every style, under every mode and stream
    let all = styles().flat_map(|y| {
        MODES.into_iter().map(move |m| {
            let mut v = vec![step(Op::SetMode(m)), step(Op::Raw(y))];
            for d in STREAMS {
                v.push(step(Op::SetDefault(d)));
                v.push(step(Op::Print(None, y)));
            }
            for s in STREAMS {
                v.push(step(Op::Print(Some(s), y)));
            }
            v.extend([step(Op::GetMode), step(Op::Raw(y))]);
            v
        })
    });
    ctx.exhaustive("styles", all, |c| judge(cfg, c));
    let codes = COLORS[1..].iter().flat_map(|c| {
        MODES.into_iter().map(move |m| vec![step(Op::SetMode(m)), step(Op::Codes(*c)), step(Op::GetMode)])
    });
    ctx.exhaustive("codes", codes, |c| judge(cfg, c));
    let op = prop_oneof![
        4 => setting(),
        2 => Just(Op::GetMode),
        6 => query(),
        1 => sty().prop_map(Op::Raw),
        1 => Just(Op::SetFromEnv),
        1 => wire(),
        2 => (proptest::sample::select(MODE_VARS.to_vec()), proptest::sample::select(vec!["0", "1", ""]))
            .prop_map(|(n, v)| Op::Env(n.to_string(), Some(v.as_bytes().to_vec()))),
        1 => term_env(),
    ];
    ctx.prop("history", 36_000, 400_000, vec(with_thread(op), 1..24), |c| judge(cfg, c));
    ctx.finish()
}
