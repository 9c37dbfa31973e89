//! C22: only the setters leave a trace

use crate::client::ask;
use crate::model::*;
use crate::op::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use vcore::ensure;
use vcore::run::*;

/// A history in a situation, and what is to be inserted before its operations (by position)
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    pre: Vec<Op>,
    steps: Vec<Step>,
    noise: Vec<(u8, Step)>,
}

fn run_one(steps: &[Step]) -> Result<Vec<String>, String> {
    let line: Vec<String> = steps.iter().map(|s| encode(std::slice::from_ref(s))).collect();
    let reply = ask(&format!("S {}", line.join(" ")))?;
    let v: Vec<String> = reply.split(' ').map(String::from).collect();
    ensure!(v.len() == steps.len(), "{} answers to {} operations", v.len(), steps.len());
    Ok(v)
}

fn check(cfg: Cfg, c: &Case) -> Result<Info, String> {
    let plain = |op: &Op| Step { op: op.clone(), thread: false };
    let mut clean: Vec<Step> = c.pre.iter().map(plain).collect();
    clean.push(plain(&Op::Traces));
    let mut noisy = clean.clone();
    // where in the noisy history an operation of the clean one is
    let mut at: Vec<usize> = (0..clean.len()).collect();
    for (i, s) in c.steps.iter().enumerate() {
        let here = c.noise.iter().filter(|(n, _)| *n as usize % c.steps.len() == i).map(|(_, s)| s.clone());
        noisy.extend(here);
        at.push(noisy.len());
        clean.push(s.clone());
        noisy.push(s.clone());
    }
    at.push(noisy.len());
    clean.push(plain(&Op::Traces));
    noisy.push(plain(&Op::Traces));
    let (a, b) = (run_one(&clean)?, run_one(&noisy)?);
    let first = c.pre.len();
    for (what, v) in [("without", &a), ("with", &b)] {
        ensure!(
            v[first] == v[v.len() - 1],
            "something was written, or an environment variable changed, in the history {what} insertions: {} became {}",
            v[first],
            v[v.len() - 1]
        );
    }
    let mut m = Model::new(cfg);
    let mut used = false;
    for (i, s) in clean.iter().enumerate() {
        if matches!(s.op, Op::Traces) {
            continue;
        }
        let (x, y) = (&a[i], &b[at[i]]);
        ensure!(
            x == y || (cfg.sc && unspecified(&s.op)),
            "operation {i} ({}) answered {x} without the insertions and {y} with them",
            s.op.enc()
        );
        used |= i > first && (s.op.is_query() || matches!(s.op, Op::GetMode | Op::GetDefault | Op::Parse(_)));
        m.step(&s.op, y).map_err(|e| format!("operation {i} ({}): {e}", s.op.enc()))?;
    }
    let queries = m.detections > 0;
    ok_as(if queries { "with detection" } else { "" }, used && !c.noise.is_empty())
}

/// No color kinds on a stream: nothing says what the answer is, so it may depend on what is known
fn unspecified(op: &Op) -> bool {
    match op {
        Op::Ask(_, k) => k.iter().all(|c| c.need() == 0),
        Op::Decide(_, y) | Op::Print(_, y) | Op::PrintOnly(_, y) => y.need() == 0,
        _ => false,
    }
}

const WHAT: [char; 10] = ['v', 's', 'l', 'r', 'p', 'P', 'f', 'w', 'd', 'c'];
fn noise() -> impl Strategy<Value = Op> {
    let strings = select(vec!["always", "never", "detect", "red", "bright blue", "#123456", "77", "stderr", "#12", "300"]);
    prop_oneof![
        12 => (select(WHAT.to_vec()), opt_stream(), vec(prop_oneof![1 => 0u8..12, 1 => any::<u8>()], 8))
            .prop_map(|(w, s, p)| Op::Noise(w, s, p)),
        1 => (strings, any::<bool>()).prop_map(|(s, up)| {
            Op::Noise('p', None, if up { s.to_uppercase() } else { s.to_string() }.into_bytes())
        }),
        3 => query(),
        1 => read(),
        1 => Just(Op::FromEnv),
        1 => sty().prop_map(Op::Raw),
        1 => select(COLORS[1..].to_vec()).prop_map(Op::Codes),
    ]
}
fn situation() -> impl Strategy<Value = Vec<Op>> {
    let mode_env = (select(MODE_VARS.to_vec()), select(vec!["0", "1", "", "2"]))
        .prop_map(|(n, v)| Op::Env(n.to_string(), Some(v.as_bytes().to_vec())));
    vec(prop_oneof![2 => wire(), 2 => term_env(), 1 => mode_env], 0..6)
}

pub fn run(mut ctx: Ctx) {
    let cfg = Cfg::parse(&ctx.config);
    let strings = select(vec!["always", "Never", "detect", "red", "#ffaa00", "stdout", "255", "256", ""]);
    let op = || {
        prop_oneof![
            3 => setting(),
            2 => read(),
            5 => query(),
            1 => Just(Op::SetFromEnv),
            1 => Just(Op::FromEnv),
            1 => sty().prop_map(Op::Raw),
            1 => strings.clone().prop_map(|s| Op::Parse(s.to_string())),
        ]
    };
    let s = (situation(), vec(with_thread(op()), 1..10), vec((any::<u8>(), with_thread(noise())), 0..10))
        .prop_map(|(pre, steps, noise)| Case { pre, steps, noise });
    ctx.prop("insertions", 30_000, 400_000, s, |c| check(cfg, c));
    // one operation over and over, then a history
    let s = (situation(), vec(with_thread(op()), 1..6), noise(), 100usize..400, prop::bool::weighted(0.1)).prop_map(
        |(pre, steps, op, n, thread)| Case { pre, steps, noise: vec![(0, Step { op, thread }); n] },
    );
    ctx.prop("repeated", 800, 10_000, s, |c| check(cfg, c));
    ctx.finish()
}
