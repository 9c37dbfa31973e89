//! C18: several threads.
//!
//! A case is a prelude, a program per thread and a schedule; the worker interleaves the
//! threads as the schedule says, instruction by instruction (or lets them run freely), and
//! reports when each operation began and ended.  The answers have to be those of some
//! one-at-a-time order of all reads and writes that respects these times.

use crate::client::{ask, unhex};
use crate::model::*;
use crate::op::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use vcore::model::*;
use vcore::run::*;
use vcore::{ensure, ensure_eq};

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
enum Sched {
    Free,
    /// (thread, instructions); 0 instructions: to the end of its program
    Turns(Vec<(u8, u32)>),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    pre: Vec<Op>,
    threads: Vec<Vec<Op>>,
    sched: Sched,
}

fn encode_ops(v: &[Op]) -> String {
    v.iter().map(Op::enc).collect::<Vec<_>>().join(" ")
}

impl Case {
    fn enc(&self) -> String {
        let sched = match &self.sched {
            Sched::Free => "free".to_string(),
            Sched::Turns(v) => v.iter().map(|(t, k)| format!("{t}:{k}")).collect::<Vec<_>>().join(","),
        };
        let mut s = format!("C {} w ; {sched}", encode_ops(&self.pre));
        for t in &self.threads {
            s.push_str(" ; ");
            s.push_str(&encode_ops(t));
        }
        s
    }
}

/// One operation as it happened
#[derive(Clone, Debug)]
struct Event {
    inv: u64,
    ret: u64,
    steps: u64,
    act: Act,
}
/// What it did to the settings, and what it saw
#[derive(Clone, Debug)]
enum Act {
    None,
    SetMode(M),
    SetDefault(S),
    ReadMode(M),
    ReadDefault(S),
    /// stream, the answer, and what detection answers for stdout and stderr (`None`: both
    /// would do)
    Decide(Option<S>, bool, [Option<bool>; 2]),
}

struct Run {
    threads: Vec<Vec<Event>>,
    /// settings when the threads start
    mode: M,
    default: S,
    controlled: bool,
}

fn split(part: &str) -> Vec<&str> {
    part.split_whitespace().collect()
}

fn run_case(cfg: Cfg, c: &Case, styles: &mut dyn FnMut(&Sty) -> Result<(String, String), String>) -> Result<Run, String> {
    let reply = ask(&c.enc())?;
    let parts: Vec<&str> = reply.split(';').collect();
    ensure_eq!(parts.len(), c.threads.len() + 3, "parts of {reply}");
    let pre = split(parts[0]);
    let mut m = Model::new(cfg);
    for (op, r) in c.pre.iter().zip(&pre) {
        m.step(op, r).map_err(|e| format!("before the threads, {}: {e}", op.enc()))?;
    }
    let world = World::parse(pre.last().unwrap())?;
    let detected = |need: u8| [0, 1].map(|i| supported(cfg, world.support(cfg, i), need));
    let mut threads = Vec::new();
    let mut last = 0;
    for (ops, part) in c.threads.iter().zip(&parts[1..]) {
        let mut events = Vec::new();
        let replies = split(part);
        ensure_eq!(replies.len(), ops.len(), "answers");
        for (op, r) in ops.iter().zip(replies) {
            let f: Vec<&str> = r.splitn(4, ',').collect();
            ensure!(f.len() == 4, "answer {r}");
            let num = |s: &str| s.parse::<u64>().map_err(|_| format!("answer {r}"));
            let (inv, ret, steps, a) = (num(f[0])?, num(f[1])?, num(f[2])?, f[3]);
            ensure!(a != "PANIC", "{} panicked", op.enc());
            let act = match op {
                Op::SetMode(m) => Act::SetMode(*m),
                Op::SetDefault(s) => Act::SetDefault(*s),
                Op::SetFromEnv => match env_mode(&m.env) {
                    Some(m) if cfg.env() => Act::SetMode(m),
                    _ => Act::None,
                },
                Op::FromEnv => {
                    m.step(op, a)?;
                    Act::None
                }
                Op::GetMode => Act::ReadMode(m_of(a)?),
                Op::GetDefault => Act::ReadDefault(s_of(a)?),
                Op::Ask(s, k) => Act::Decide(*s, a == "1", detected(k.iter().fold(0, |n, c| n | c.need()))),
                Op::Decide(s, y) => Act::Decide(*s, a == "1", detected(y.need())),
                Op::PrintOnly(s, y) => {
                    let (apply, clear) = styles(y)?;
                    match Model::printed(&unhex(a), &apply, &clear)? {
                        Some(b) => Act::Decide(*s, b, detected(y.need())),
                        None => Act::None,
                    }
                }
                op => panic!("{op:?} in a thread"),
            };
            last = last.max(ret + 1);
            events.push(Event { inv, ret, steps, act });
        }
        threads.push(events);
    }
    let status = split(parts[c.threads.len() + 1]);
    let end = split(parts[c.threads.len() + 2]);
    ensure_eq!(end.len(), 2, "end");
    let finals = vec![
        Event { inv: last, ret: last + 1, steps: 0, act: Act::ReadMode(m_of(end[0])?) },
        Event { inv: last + 2, ret: last + 3, steps: 0, act: Act::ReadDefault(s_of(end[1])?) },
    ];
    threads.push(finals);
    Ok(Run { threads, mode: m.mode, default: m.default, controlled: status[0] == "1" })
}

#[derive(Clone, PartialEq, Eq, Hash)]
struct Node {
    next: Vec<u8>,
    /// what a decision under way has read so far
    partial: Vec<(Option<M>, Option<S>)>,
    mode: M,
    default: S,
}

/// Is there an order of all reads and writes that explains the answers?
fn explained(cfg: Cfg, r: &Run) -> bool {
    let n = r.threads.len();
    let start = Node { next: vec![0; n], partial: vec![(None, None); n], mode: r.mode, default: r.default };
    let mut seen = HashSet::new();
    let mut todo = vec![start];
    while let Some(node) = todo.pop() {
        if !seen.insert(node.clone()) {
            continue;
        }
        let pending: Vec<Option<&Event>> =
            (0..n).map(|t| r.threads[t].get(node.next[t] as usize)).collect();
        if pending.iter().all(|e| e.is_none()) {
            return true;
        }
        let first_ret = pending.iter().flatten().map(|e| e.ret).min().unwrap();
        for t in 0..n {
            let Some(e) = pending[t] else { continue };
            // everything that had returned before this began comes first
            if e.inv > first_ret {
                continue;
            }
            let mut done = |f: &dyn Fn(&mut Node)| {
                let mut x = node.clone();
                x.next[t] += 1;
                x.partial[t] = (None, None);
                f(&mut x);
                todo.push(x);
            };
            match e.act {
                Act::None => done(&|_| {}),
                Act::SetMode(m) => done(&|x| x.mode = m),
                Act::SetDefault(s) => done(&|x| x.default = s),
                Act::ReadMode(m) => {
                    let now = if cfg.strip { M::Never } else { node.mode };
                    if m == now {
                        done(&|_| {});
                    }
                }
                Act::ReadDefault(s) => {
                    if s == node.default {
                        done(&|_| {});
                    }
                }
                Act::Decide(stream, got, det) => {
                    // the mode and the default stream may be read at different moments
                    let (m, s) = node.partial[t];
                    let s = stream.or(s);
                    match (m, s) {
                        _ if cfg.strip => {
                            if !got {
                                done(&|_| {});
                            }
                        }
                        (Some(M::Always), _) => {
                            if got {
                                done(&|_| {});
                            }
                        }
                        (Some(M::Never), _) => {
                            if !got {
                                done(&|_| {});
                            }
                        }
                        (Some(M::Detect), Some(s)) => {
                            let want = match s {
                                S::Always => Some(true),
                                S::Never => Some(false),
                                S::Stdout => det[0],
                                S::Stderr => det[1],
                            };
                            if want.is_none_or(|w| w == got) {
                                done(&|_| {});
                            }
                        }
                        _ => {
                            if m.is_none() {
                                let mut x = node.clone();
                                x.partial[t].0 = Some(node.mode);
                                todo.push(x);
                            }
                            if s.is_none() {
                                let mut x = node.clone();
                                x.partial[t].1 = Some(node.default);
                                todo.push(x);
                            }
                        }
                    }
                }
            }
        }
    }
    false
}

fn overlap(r: &Run) -> bool {
    let ts = &r.threads[..r.threads.len() - 1];
    let matters = |e: &Event| !matches!(e.act, Act::None);
    ts.iter().enumerate().any(|(i, a)| {
        ts[i + 1..].iter().any(|b| {
            a.iter().any(|x| b.iter().any(|y| matters(x) && matters(y) && x.inv < y.ret && y.inv < x.ret))
        })
    })
}

struct Judge {
    cfg: Cfg,
    raw: RefCell<BTreeMap<String, (String, String)>>,
}

impl Judge {
    fn run(&self, c: &Case) -> Result<Run, String> {
        run_case(self.cfg, c, &mut |y| {
            if let Some(r) = self.raw.borrow().get(&y.enc()) {
                return Ok(r.clone());
            }
            let r = ask(&format!("S {}", Op::Raw(*y).enc()))?;
            let (a, z) = r.split_once('/').ok_or("reply")?;
            let v = (unhex(a), unhex(z));
            self.raw.borrow_mut().insert(y.enc(), v.clone());
            Ok(v)
        })
    }
    fn judge(&self, c: &Case) -> Result<Info, String> {
        let r = self.run(c)?;
        if !explained(self.cfg, &r) {
            let ts: Vec<String> = r.threads.iter().map(|t| {
                t.iter().map(|e| format!("[{}..{} {:?}]", e.inv, e.ret, e.act)).collect::<Vec<_>>().join(" ")
            }).collect();
            return Err(format!(
                "no order explains the answers: from {:?}/{:?}, {}",
                r.mode,
                r.default,
                ts.join(" || ")
            ));
        }
        let o = overlap(&r);
        ok_as(
            match (r.controlled, o) {
                (true, true) => "controlled, operations overlap",
                (true, false) => "controlled, no overlap",
                (false, true) => "free, operations overlap",
                (false, false) => "free, no overlap",
            },
            o,
        )
    }
    /// free runs differ from time to time
    fn judge_again(&self, c: &Case, times: u32) -> Result<Info, String> {
        let mut info = self.judge(c)?;
        for _ in 1..times {
            let i = self.judge(c)?;
            if i.nontrivial {
                info = i;
            }
        }
        Ok(info)
    }
}

fn sty0(colors: [C; 3]) -> Sty {
    Sty { rep: Rep::Static, colors, fx: 1, tone: 0 }
}

const SITUATIONS: usize = 4;

/// the terminal-related situations threads start in; what detection answers differs
/// between stdout and stderr
fn situation(i: usize) -> Vec<Op> {
    let e = |n: &str, v: &str| Op::Env(n.into(), Some(v.as_bytes().to_vec()));
    match i {
        0 => vec![Op::Wire(S::Stdout, 't'), Op::Wire(S::Stderr, 'p'), e("TERM", "xterm")],
        1 => vec![Op::Wire(S::Stdout, 'n'), Op::Wire(S::Stderr, 't'), e("TERM", "xterm-256color")],
        2 => vec![Op::Wire(S::Stdout, 't'), Op::Wire(S::Stderr, 't'), e("COLORTERM", "truecolor"), e("TERM", "dumb")],
        _ => vec![Op::Wire(S::Stdout, 't'), Op::Wire(S::Stderr, 'n'), e("COLORTERM", "truecolor"), e("TERM", "xterm-256color")],
    }
}

/// All points at which one thread can be interrupted by another, for small programs
fn sweep<'a>(
    j: &'a Judge,
    programs: Vec<(Vec<Op>, Vec<Op>, Vec<Op>)>,
    shard: u64,
    shards: u64,
    offset: u64,
    stride: u64,
    (head, tail, middle): (u32, u32, u32),
) -> impl Iterator<Item = Case> + 'a {
    programs.into_iter().enumerate().flat_map(move |(i, (pre, a, b))| {
        if i as u64 % shards != shard {
            return Vec::new();
        }
        // how many instructions the first operation takes
        let alone = Case { pre: pre.clone(), threads: vec![a.clone(), b.clone()], sched: Sched::Turns(vec![(0, 1 << 30), (1, 0)]) };
        let n = match j.run(&alone) {
            Ok(r) => r.threads[0].first().map_or(0, |e| e.steps).min(1 << 20) as u32,
            // reported by the case itself
            Err(_) => return vec![alone],
        };
        let dense =
            |k: u32| k < head || k + tail >= n || (k as u64 + offset) % (n as u64 / middle as u64 + 1) == 0;
        (1..=n.max(1))
            // every stride-th point, starting elsewhere in each program
            .filter(|k| (*k as u64 + offset + i as u64) % stride == 0 && dense(*k))
            .map(|k| Case {
                pre: pre.clone(),
                threads: vec![a.clone(), b.clone()],
                sched: Sched::Turns(vec![(0, k), (1, 0), (0, 0)]),
            })
            .collect()
    })
}

pub fn run(mut ctx: Ctx) {
    let cfg = Cfg::parse(&ctx.config);
    let j = Judge { cfg, raw: RefCell::new(BTreeMap::new()) };
    let thorough = ctx.thorough;

    let both = [C::Ansi, C::No, C::Rgb];
    let ask_on = |s: Option<S>| Op::Ask(s, vec![C::Ansi]);
    let print_on = |s: Option<S>| Op::PrintOnly(s, sty0(both));
    // (a) settings and decisions
    let mut programs = Vec::new();
    let env_never = Op::Env("NO_COLOR".into(), Some(b"1".to_vec()));
    let firsts: Vec<Op> = MODES
        .map(Op::SetMode)
        .into_iter()
        .chain(STREAMS.map(Op::SetDefault))
        .chain([Op::GetMode, Op::GetDefault, ask_on(None), ask_on(Some(S::Never)), ask_on(Some(S::Always)), print_on(None)])
        .collect();
    let seconds: Vec<Vec<Op>> = MODES
        .into_iter()
        .map(|m| vec![Op::SetMode(m), Op::GetMode, ask_on(None)])
        .chain(STREAMS.into_iter().map(|s| vec![Op::SetDefault(s), Op::GetDefault, ask_on(None)]))
        .chain([
            vec![Op::GetMode, Op::GetDefault],
            vec![ask_on(None), print_on(None)],
            vec![Op::SetMode(M::Always), Op::SetMode(M::Never)],
            vec![Op::SetMode(M::Always), Op::SetDefault(S::Never)],
            vec![Op::SetDefault(S::Never), Op::SetMode(M::Detect)],
            vec![Op::SetMode(M::Detect), Op::SetMode(M::Never)],
        ])
        .collect();
    for (m, d) in [(M::Detect, S::Always), (M::Never, S::Stderr), (M::Always, S::Never), (M::Detect, S::Stdout)] {
        for a in &firsts {
            for b in &seconds {
                let mut pre = situation(0);
                pre.extend([Op::SetMode(m), Op::SetDefault(d)]);
                // what detection finds out is known already
                pre.extend([ask_on(Some(S::Stdout)), ask_on(Some(S::Stderr))]);
                programs.push((pre, vec![a.clone(), Op::GetMode, Op::GetDefault], b.clone()));
            }
        }
    }
    if cfg.env() {
        for b in &seconds {
            let mut pre = situation(0);
            pre.extend([env_never.clone(), Op::SetMode(M::Detect)]);
            programs.push((pre, vec![Op::SetFromEnv, Op::GetMode, Op::GetDefault], b.clone()));
        }
    }
    // every shard generates only its own cases, so they are not split up again
    let (shard, shards) = (ctx.shard, ctx.shards);
    let seed = ctx.seed;
    let fnv = |s: &str| hash_of(&s);
    let search = |ctx: &mut Ctx, sub: &str, stride: u64, programs: Vec<(Vec<Op>, Vec<Op>, Vec<Op>)>| {
        let points = if thorough { (160, 320, 400) } else { (100, 160, 40) };
        let offset = seed.wrapping_add(fnv(&ctx.config) % 97) % 1_000_003;
        let replaying = ctx.replaying_any();
        let cases: Box<dyn Iterator<Item = Case>> =
            if replaying { Box::new(std::iter::empty()) } else { Box::new(sweep(&j, programs, shard, shards, offset, stride, points)) };
        ctx.exhaustive_own(sub, cases, |c| j.judge(c));
    };
    search(&mut ctx, "interrupted", if thorough { 1 } else { 6 }, programs);
    // (b) the first detection, interrupted by other first detections
    if cfg.env() {
        let mut programs = Vec::new();
        let needs = if cfg.sc && thorough { vec![C::Ansi, C::Rgb] } else { vec![C::Ansi] };
        // whatever is asked in the middle is asked for every kind of color
        let on = |s, k: &C| Op::Ask(s, vec![*k]);
        let on_all = |s| [C::Ansi, C::Xterm, C::Rgb].map(|k| Op::Ask(s, vec![k]));
        for i in 0..SITUATIONS {
            for k in &needs {
                let y = sty0([*k, C::No, C::No]);
                let (out, err) = (Some(S::Stdout), Some(S::Stderr));
                let mut b1 = on_all(out).to_vec();
                b1.push(Op::PrintOnly(err, y));
                let mut b2 = vec![Op::PrintOnly(err, y)];
                b2.extend(on_all(out).into_iter().chain(on_all(err)));
                let mut b3 = vec![Op::SetDefault(S::Stderr)];
                b3.extend(on_all(None).into_iter().chain(on_all(out)));
                b3.push(on(out, k));
                for (a, b) in [
                    (vec![on(out, k)], b1),
                    (vec![on(err, k)], b2),
                    (vec![Op::Decide(None, y)], b3),
                ] {
                    let mut pre = situation(i);
                    pre.push(Op::SetDefault(S::Stdout));
                    let mut a = a;
                    a.extend(on_all(out).into_iter().chain(on_all(err)));
                    programs.push((pre, a, b));
                }
            }
        }
        search(&mut ctx, "first-detection", 1, programs);
    }
    // (c) generated programs and schedules
    let op = move || {
        let mut v = vec![
            mode().prop_map(Op::SetMode).boxed(),
            mode().prop_map(Op::SetMode).boxed(),
            stream().prop_map(Op::SetDefault).boxed(),
            select(vec![Op::GetMode, Op::GetDefault]).boxed(),
            (opt_stream(), select(vec![C::Ansi, C::Xterm, C::Rgb])).prop_map(|(s, k)| Op::Ask(s, vec![k])).boxed(),
            opt_stream().prop_map(|s| Op::Ask(s, vec![C::Ansi])).boxed(),
            (opt_stream(), color()).prop_map(|(s, c)| Op::Decide(s, sty0([C::Ansi, c, C::No]))).boxed(),
            (opt_stream(), color()).prop_map(|(s, c)| Op::PrintOnly(s, sty0([C::No, c, C::Xterm]))).boxed(),
        ];
        if cfg.env() {
            v.push(select(vec![Op::SetFromEnv, Op::FromEnv]).boxed());
        }
        proptest::strategy::Union::new(v)
    };
    let pre = || {
        (0usize..SITUATIONS, mode(), stream(), 0u8..6, 0u8..4).prop_map(|(i, m, d, env, asked)| {
            let mut v = situation(i);
            match env {
                0 => v.push(Op::Env("NO_COLOR".into(), Some(b"1".to_vec()))),
                1 => v.push(Op::Env("ALWAYS_COLOR".into(), Some(b"1".to_vec()))),
                _ => {}
            }
            v.extend([Op::SetMode(m), Op::SetDefault(d)]);
            if asked == 0 {
                v.extend([S::Stdout, S::Stderr].map(|s| Op::Ask(Some(s), vec![C::Ansi])));
            }
            v
        })
    };
    let turns = vec(
        (0u8..3, prop_oneof![6 => 1u32..220, 2 => 1u32..30, 1 => 1u32..2500, 1 => Just(0u32)]),
        2..14,
    );
    let controlled = (pre(), vec(vec(op(), 1..5), 2..4), turns).prop_map(|(pre, threads, turns)| {
        let n = threads.len() as u8;
        let turns = turns.into_iter().map(|(t, k)| (t % n, k)).collect();
        Case { pre, threads, sched: Sched::Turns(turns) }
    });
    ctx.prop("scheduled", 6_000, 1_000_000, controlled, |c| j.judge(c));
    // (d) threads that just run
    let free = (pre(), vec(vec(op(), 1..8), 2..5))
        .prop_map(|(pre, threads)| Case { pre, threads, sched: Sched::Free });
    let again = if thorough { 4 } else { 1 };
    ctx.prop("free", 4_000, 200_000, free, |c| j.judge_again(c, again));
    // (e) many first detections at once
    if cfg.env() {
        let query = || {
            (select(vec![S::Stdout, S::Stderr]), select(vec![C::Ansi, C::Xterm, C::Rgb]))
                .prop_map(|(s, k)| Op::Ask(Some(s), vec![k]))
        };
        let racing = (0usize..SITUATIONS, vec(vec(query(), 1..4), 4..5)).prop_map(|(i, threads)| Case {
            pre: situation(i),
            threads,
            sched: Sched::Free,
        });
        ctx.prop("racing-detections", 4_000, 200_000, racing, |c| j.judge_again(c, again));
    }
    // (f) one thread after another
    let s = vec(
        (prop_oneof![3 => setting(), 2 => read(), 4 => query()], prop::bool::weighted(0.6))
            .prop_map(|(op, thread)| Step { op, thread }),
        1..16,
    );
    ctx.prop("in-turn", 3_000, 200_000, s, |c: &Vec<Step>| {
        history(cfg, c)?;
        ok(c.iter().any(|s| s.thread) && c.iter().any(|s| s.op.is_setting()))
    });
    ctx.finish()
}
