use crate::util::*;
use colorz::mode;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Formatter, Write};
use std::sync::atomic::{AtomicBool, Ordering};
use vcore::fmtspec::*;
use vcore::model::*;
use vcore::run::*;
use vcore::{ensure, ensure_eq};
use vstyles::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
enum Change {
    Mode(M),
    Default(S),
}
impl Change {
    fn make(&self) {
        match self {
            Change::Mode(m) => mode::set_coloring_mode(m.real()),
            Change::Default(s) => mode::set_default_stream(s.real()),
        }
    }
}

/// one styled value inside of another, with text around it
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Layer {
    style: StyleCase,
    stream: Option<S>,
    before: String,
    after: String,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    mode: M,
    default: S,
    layers: Vec<Layer>,
    spec: FmtSpec,
    /// by step number: every write that reaches the sink and every point between the
    /// statements of a value's formatting code is a step
    changes: Vec<(u8, Change)>,
    /// make the changes on another thread (and wait for it)
    other_thread: bool,
}

struct Steps<'a> {
    c: &'a Case,
    n: Cell<u32>,
    /// changes made so far
    made: Cell<u32>,
    out: RefCell<String>,
}
impl Steps<'_> {
    fn step(&self) {
        let n = self.n.get();
        self.n.set(n + 1);
        for (at, ch) in &self.c.changes {
            if *at as u32 == n {
                if self.c.other_thread {
                    std::thread::scope(|s| {
                        s.spawn(|| ch.make());
                    });
                } else {
                    ch.make();
                }
                self.made.set(self.made.get() + 1);
            }
        }
    }
}
struct Sink<'a>(&'a Steps<'a>);
impl Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.step();
        self.0.out.borrow_mut().push_str(s);
        self.0.step();
        Ok(())
    }
}

/// formats layer `i` and records where its text and its whole output are
fn layer(c: &Case, st: &Steps<'_>, i: usize, spans: &RefCell<Vec<[usize; 4]>>, f: &mut Formatter<'_>) -> fmt::Result {
    let Some(l) = c.layers.get(i) else {
        return f.write_str("core");
    };
    let pos = || st.out.borrow().len();
    let body = |_: Tr, f: &mut Formatter<'_>| {
        spans.borrow_mut()[i][1] = pos();
        st.step();
        f.write_str(&l.before)?;
        st.step();
        layer(c, st, i + 1, spans, f)?;
        st.step();
        f.write_str(&l.after)?;
        st.step();
        spans.borrow_mut()[i][2] = pos();
        Ok(())
    };
    spans.borrow_mut()[i][0] = pos();
    let stream = l.stream.map(S::real);
    let r = l.style.with(|e| e.display(stream, &TV(&body), f));
    spans.borrow_mut()[i][3] = pos();
    r
}

fn injected(c: &Case) -> Result<Info, String> {
    set(c.mode, c.default);
    let st = Steps { c, n: Cell::new(0), made: Cell::new(0), out: RefCell::default() };
    let spans = RefCell::new(vec![[0usize; 4]; c.layers.len()]);
    let r = c.spec.with(&mut Sink(&st), |f| layer(c, &st, 0, &spans, f));
    ensure!(r.is_ok(), "formatting failed although the sink did not");
    let out = st.out.borrow();
    let mut colored = 0;
    for (i, l) in c.layers.iter().enumerate() {
        let [a, b, x, y] = spans.borrow()[i];
        let (pre, post) = (&out[a..b], &out[x..y]);
        let (start, end) = l.style.with(|e| (start_of(e), end_of(e)));
        let (start, end) = (start?, end?);
        if start.is_empty() && end.is_empty() {
            ensure!(pre.is_empty() && post.is_empty(), "layer {i}: {pre:?} and {post:?} around a plain value");
            continue;
        }
        if (pre, post) == (start.as_str(), end.as_str()) {
            colored += 1;
        } else {
            ensure!(
                pre.is_empty() && post.is_empty(),
                "layer {i} is neither bare nor completely styled: {pre:?} before and {post:?} after it (style: {start:?}, {end:?})"
            );
        }
    }
    Ok(Info {
        nontrivial: st.made.get() > 0 && c.layers.iter().any(|l| !l.style.desc().is_plain()),
        label: match (st.made.get(), colored == 0, colored == c.layers.len()) {
            (0, _, _) => "no change took place",
            (_, true, _) => "changed, nothing colored",
            (_, _, true) => "changed, all colored",
            _ => "changed, some layers colored",
        },
    })
}

/// Another thread changes the settings all the time
fn racing(c: &(StyleCase, Option<S>, Vec<Change>, u16)) -> Result<Info, String> {
    let (style, stream, changes, rounds) = c;
    set(M::Detect, S::Always);
    let stop = AtomicBool::new(false);
    let stream = stream.map(S::real);
    let (start, end) = style.with(|e| (start_of(e), end_of(e)));
    let (start, end) = (start?, end?);
    let both = format!("{start}text{end}");
    let (mut on, mut off) = (0, 0);
    let r = std::thread::scope(|s| {
        s.spawn(|| {
            while !stop.load(Ordering::Relaxed) {
                for ch in changes {
                    ch.make();
                    std::hint::spin_loop();
                }
            }
        });
        let body = |_: Tr, f: &mut Formatter<'_>| f.write_str("text");
        let r = guarded(|| {
            for i in 0..*rounds {
                let out = style.with(|e| render(&FmtSpec::PLAIN, |f| e.display(stream, &TV(&body), f)))?;
                if out == both {
                    on += 1;
                } else {
                    ensure_eq!(out, "text", "output {i} while another thread changes the settings");
                    off += 1;
                }
            }
            Ok(())
        });
        stop.store(true, Ordering::Relaxed);
        r
    });
    r?;
    Ok(Info { nontrivial: !both.eq("text"), label: if on > 0 && off > 0 { "both outcomes seen" } else { "one outcome seen" } })
}

pub fn run(mut ctx: Ctx) {
    let st = || prop_oneof![3 => Just(None), 2 => stream().prop_map(Some)];
    let change = || prop_oneof![3 => mode().prop_map(Change::Mode), 2 => stream().prop_map(Change::Default)];
    let l = (style_case(), st(), vcore::val::text(false), vcore::val::text(false))
        .prop_map(|(style, stream, before, after)| Layer { style, stream, before, after })
        .boxed();
    let case = |other: f64| {
        (
            mode(),
            stream(),
            prop::collection::vec(l.clone(), 1..4),
            spec(),
            prop::collection::vec((0u8..40, change()), 1..6),
            prop::bool::weighted(other),
        )
            .prop_map(|(mode, default, layers, spec, changes, other_thread)| Case {
                mode,
                default,
                layers,
                spec,
                changes,
                other_thread,
            })
    };
    // alternate on and off at consecutive steps
    let flip = (prop::collection::vec(l.clone(), 1..4), any::<bool>(), 0u8..30, 1u8..6).prop_map(|(layers, on, from, n)| {
        let m = |b: bool| if b { M::Always } else { M::Never };
        Case {
            mode: m(on),
            default: S::Always,
            layers,
            spec: FmtSpec::PLAIN,
            changes: (0..n).map(|k| (from + k, Change::Mode(m(on ^ (k % 2 == 0))))).collect(),
            other_thread: false,
        }
    });
    ctx.prop("injected", 240_000, 4_000_000, prop_oneof![3 => case(0.0), 2 => flip], injected);
    ctx.prop("injected_by_thread", 16_000, 200_000, case(1.0), injected);
    let r = (style_case(), st(), prop::collection::vec(change(), 2..5), 500u16..2000);
    ctx.prop("racing", 1_600, 6_000, r, racing);
    ctx.finish()
}
