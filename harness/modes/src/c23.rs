//! C23: the same answer wherever a call is made from

use crate::client::ask;
use crate::model::*;
use crate::op::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use vcore::ensure;
use vcore::run::*;

/// An operation and where it is called from, outermost first: a thread, one with a small stack, a
/// destructor during unwinding, the formatting of another styled value, with the standard
/// streams locked by this or another thread; and last the panic hook or the destructor of a
/// thread-local
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Call {
    places: String,
    op: Op,
}

fn answers(line: &[String]) -> Result<Vec<String>, String> {
    let reply = ask(&format!("S {}", line.join(" ")))?;
    let v: Vec<String> = reply.split(' ').map(String::from).collect();
    ensure!(v.len() == line.len(), "{} answers to {} operations", v.len(), line.len());
    Ok(v)
}

fn check(cfg: Cfg, c: &Vec<Call>) -> Result<Info, String> {
    let plain: Vec<String> = c.iter().map(|s| s.op.enc()).collect();
    let there: Vec<String> = c
        .iter()
        .map(|s| if s.places.is_empty() { s.op.enc() } else { format!("@{},{}", s.places, s.op.enc()) })
        .collect();
    let b = answers(&there).map_err(|e| format!("called from the places given: {e}"))?;
    let a = answers(&plain)?;
    let mut m = Model::new(cfg);
    for (i, s) in c.iter().enumerate() {
        ensure!(
            a[i] == b[i],
            "operation {i} ({}) answered {} when called plainly and {} when called from {:?}",
            s.op.enc(),
            a[i],
            b[i],
            s.places
        );
        m.step(&s.op, &b[i]).map_err(|e| format!("operation {i} ({} from {:?}): {e}", s.op.enc(), s.places))?;
    }
    let moved = c.iter().any(|s| !s.places.is_empty());
    let told = c.iter().any(|s| s.op.is_query() || matches!(s.op, Op::GetMode | Op::GetDefault | Op::Parse(_) | Op::Loud(..)));
    ok_as(if m.detections > 0 { "with detection" } else { "" }, moved && told)
}

fn environs(op: &Op) -> bool {
    matches!(op, Op::Wire(..) | Op::Env(..) | Op::World | Op::Traces)
}

fn places() -> impl Strategy<Value = String> {
    let outer = vec(select(vec!['t', 's', 'u', 'f', 'u', 'f']), 0..3);
    let lock = select(vec!["", "", "o", "O"]);
    let last = select(vec!["", "", "l", "h"]);
    prop_oneof![
        1 => Just(String::new()),
        6 => (outer, lock, any::<prop::sample::Index>(), last).prop_map(|(o, lock, at, last)| {
            let mut s: String = o.into_iter().collect();
            let i = at.index(s.len() + 1);
            s.insert_str(i, lock);
            if last == "h" {
                // std sets no panic hook, and survives no second panic, while a thread unwinds
                s.retain(|c| c != 'u');
            }
            s + last
        }),
    ]
}

pub fn run(mut ctx: Ctx) {
    let cfg = Cfg::parse(&ctx.config);
    // each kind of operation, from each place, first thing in a process and after it was done before
    let ops = [
        Op::SetMode(vcore::model::M::Always),
        Op::SetDefault(vcore::model::S::Never),
        Op::SetFromEnv,
        Op::FromEnv,
        Op::GetMode,
        Op::GetDefault,
        Op::Ask(Some(vcore::model::S::Stdout), vec![C::Ansi]),
        Op::Ask(Some(vcore::model::S::Stderr), vec![C::Rgb, C::Xterm]),
        Op::Decide(Some(vcore::model::S::Stderr), Sty { rep: Rep::Runtime, colors: [C::Css, C::No, C::Xterm], fx: 17, tone: 0 }),
        Op::Print(None, Sty { rep: Rep::Runtime, colors: [C::Rgb, C::Xterm, C::Ansi], fx: 17, tone: 0 }),
        Op::Print(Some(vcore::model::S::Stdout), Sty { rep: Rep::Static, colors: [C::Ansi, C::No, C::No], fx: 1, tone: 0 }),
        Op::Raw(Sty { rep: Rep::Dynamic, colors: [C::Ansi, C::Rgb, C::Css], fx: 16, tone: 0 }),
        Op::Codes(C::Css),
        Op::Parse("bright red".into()),
        Op::Parse("Never".into()),
        Op::Parse("#zz".into()),
    ];
    let each = ops.into_iter().flat_map(|op| {
        ["t", "s", "u", "l", "h", "f", "o", "O", "uu", "ff", "tu", "ul", "fl", "fh", "fo", "uO", "fO", "Ol", "oh", "tffl", "tffh"]
            .into_iter()
            .flat_map(move |p| {
                let op = op.clone();
                ['t', 'p'].into_iter().flat_map(move |to| {
                    let wire = [vcore::model::S::Stdout, vcore::model::S::Stderr]
                        .map(|s| Call { places: String::new(), op: Op::Wire(s, to) });
                    let env = [("TERM", "xterm-256color"), ("FORCE_COLOR", "0")]
                        .map(|(k, v)| Call { places: String::new(), op: Op::Env(k.into(), Some(v.into())) });
                    let it = Call { places: p.to_string(), op: op.clone() };
                    let first: Vec<Call> = wire.into_iter().chain(env).chain([it.clone()]).collect();
                    let mut again = first.clone();
                    again.extend([Call { places: String::new(), op: op.clone() }, it]);
                    [first, again].map(|mut v| {
                        v.extend([Op::GetMode, Op::GetDefault].map(|op| Call { places: String::new(), op }));
                        v
                    })
                })
            })
    });
    ctx.exhaustive("each", each, |c| check(cfg, c));
    let loud = (
        select(vec!['v', 's', 'l', 'r', 'p', 'P', 'f', 'w', 'd', 'c']),
        opt_stream(),
        vec(prop_oneof![1 => 0u8..12, 1 => any::<u8>()], 8),
    )
        .prop_map(|(w, s, p)| Op::Loud(w, s, p));
    let strings = select(vec!["always", "Never", "detect", "red", "#ffaa00", "#\u{e9}0", "\u{1f3a8}", "stdout", "255", "256", ""]);
    let told = prop_oneof![
        3 => setting(),
        2 => read(),
        6 => query(),
        1 => Just(Op::SetFromEnv),
        1 => Just(Op::FromEnv),
        1 => sty().prop_map(Op::Raw),
        1 => select(COLORS[1..].to_vec()).prop_map(Op::Codes),
        1 => strings.prop_map(|s| Op::Parse(s.to_string())),
    ]
    .boxed();
    let around = prop_oneof![2 => wire(), 1 => term_env()].boxed();
    let step = |op: BoxedStrategy<Op>| {
        (op, places()).prop_map(|(op, mut places)| {
            if environs(&op) {
                places.clear();
            }
            if let Op::Loud(..) = op {
                // these start threads and panic, which std does not do everywhere
                places.retain(|c| !"lh".contains(c));
            }
            Call { places, op }
        })
    };
    // what terminals and environment there are changes between calls, or is settled first: a loud call may
    // or may not be the first to look at them
    let changing = vec(step(prop_oneof![6 => told.clone(), 1 => around.clone()].boxed()), 1..10);
    let settled = (vec(step(around), 0..4), vec(step(prop_oneof![6 => told, 1 => loud].boxed()), 1..10))
        .prop_map(|(a, b)| a.into_iter().chain(b).collect::<Vec<_>>());
    ctx.prop("history", 24_000, 400_000, prop_oneof![changing, settled], |c| check(cfg, c));
    ctx.finish()
}
