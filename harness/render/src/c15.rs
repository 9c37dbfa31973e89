use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::fmt::{self, Formatter, Write};
use vcore::fmtspec::*;
use vcore::model::*;
use vcore::run::*;
use vcore::val::*;
use vcore::{ensure, ensure_eq};
use vstyles::*;

#[derive(Clone, Copy, Debug)]
enum Fault {
    /// the n-th write fails after accepting this many bytes of it
    Write { n: usize, partial: usize, once: bool },
    /// everything after this many bytes fails
    Bytes(usize),
}

struct Sink {
    fault: Fault,
    writes: usize,
    failed: usize,
    got: Vec<u8>,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let k = self.writes;
        self.writes += 1;
        let accept = match self.fault {
            Fault::Write { n, partial, once } => {
                if k < n || (k > n && once) {
                    s.len()
                } else if k == n {
                    self.failed += 1;
                    self.got.extend_from_slice(&s.as_bytes()[..partial.min(s.len())]);
                    return Err(fmt::Error);
                } else {
                    0
                }
            }
            Fault::Bytes(b) => s.len().min(b - self.got.len()),
        };
        self.got.extend_from_slice(&s.as_bytes()[..accept]);
        if accept < s.len() {
            self.failed += 1;
            return Err(fmt::Error);
        }
        Ok(())
    }
}

struct Count<'a>(&'a mut String, &'a mut Vec<usize>);
impl Write for Count<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.1.push(s.len());
        self.0.write_str(s)
    }
}

/// Fail every write of `g` in every way, and every byte budget; returns how many faults
fn every_fault(spec: &FmtSpec, g: &dyn Fn(&mut Formatter<'_>) -> fmt::Result) -> Result<(String, u32), String> {
    let mut full = String::new();
    let mut lens = Vec::new();
    let r = spec.with(&mut Count(&mut full, &mut lens), |f| g(f));
    ensure!(r.is_ok(), "formatting failed although the sink did not (wrote {full:?})");
    let mut faults = Vec::new();
    // long fills make many identical writes: test the first and last ones
    let ids: Vec<usize> = (0..lens.len()).filter(|i| *i < 24 || *i + 24 > lens.len()).collect();
    for n in ids {
        for once in [true, false] {
            faults.push(Fault::Write { n, partial: 0, once });
        }
        if lens[n] > 1 {
            faults.push(Fault::Write { n, partial: 1, once: true });
            faults.push(Fault::Write { n, partial: lens[n] - 1, once: false });
        }
    }
    for b in (0..full.len()).filter(|i| *i < 40 || *i + 40 > full.len()) {
        faults.push(Fault::Bytes(b));
    }
    let mut hit = 0;
    for fault in faults {
        let mut sink = Sink { fault, writes: 0, failed: 0, got: Vec::new() };
        let r = spec.with(&mut sink, |f| g(f));
        if sink.failed == 0 {
            // e.g. the failing write was an empty one that fits in the byte budget
            ensure!(r.is_ok() && sink.got == full.as_bytes(), "no write failed under {fault:?}, but formatting did");
            continue;
        }
        hit += 1;
        ensure!(r.is_err(), "formatting reports success under {fault:?}");
        ensure!(
            full.as_bytes().starts_with(&sink.got),
            "accepted {:?} under {fault:?}, not a prefix of {full:?}",
            String::from_utf8_lossy(&sink.got)
        );
    }
    // a working sink afterwards gets everything
    let again = render(spec, |f| g(f))?;
    ensure_eq!(again, full, "output to a working sink after failures");
    Ok((full, hit))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    style: StyleCase,
    val: Val,
    tr: Tr,
    spec: FmtSpec,
    on: bool,
}

fn sinks(c: &Case) -> Result<Info, String> {
    set(if c.on { M::Always } else { M::Detect }, S::Never);
    if c.spec.to_string(|f| c.val.fmt(c.tr, f)).is_err() {
        return ok_as("the value itself fails", false);
    }
    let body = |tr: Tr, f: &mut Formatter<'_>| c.val.fmt(tr, f);
    let (_, hit) = every_fault(&c.spec, &|f| fmt_all(&c.style, None, &TV(&body), c.tr, f))?;
    if c.tr == Tr::Display {
        c.style.with(|e| every_fault(&c.spec, &|f| e.display(None, &TV(&body), f)))?;
    }
    c.style.with(|e| every_fault(&c.spec, &|f| e.fmt_with(None, f, &mut |f| body(c.tr, f))))?;
    let d = c.style.desc();
    Ok(Info {
        nontrivial: hit > 1 && !d.is_plain() && c.on,
        label: if c.on && !d.is_plain() { "colored" } else { "bare text only" },
    })
}

fn raw(c: &(StyleCase, bool, FmtSpec)) -> Result<Info, String> {
    let (style, debug, spec) = c;
    let mut n = 0;
    style.with(|e| -> Result<(), String> {
        n += every_fault(spec, &|f| e.apply(*debug, f))?.1;
        n += every_fault(spec, &|f| e.clear(*debug, f))?.1;
        Ok(())
    })?;
    every_fault(spec, &|f| fmt::Display::fmt(&colorz::Style::clear_all(), f))?;
    use colorz::WriteColor;
    let d = style.desc();
    for col in [d.fg, d.bg, d.ul].into_iter().flatten() {
        let col = col.color();
        every_fault(spec, &|f| col.fmt_foreground(f))?;
        every_fault(spec, &|f| col.fmt_background(f))?;
        every_fault(spec, &|f| col.fmt_underline(f))?;
        every_fault(spec, &|f| col.fmt_foreground_args(f))?;
        every_fault(spec, &|f| col.fmt_background_args(f))?;
        every_fault(spec, &|f| col.fmt_underline_args(f))?;
    }
    Ok(Info { nontrivial: n > 2, label: "" })
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Failing {
    style: StyleCase,
    chunks: Vec<String>,
    tr: Tr,
    spec: FmtSpec,
    on: bool,
    /// the value fails before this chunk
    at: usize,
    /// number of layers around the styled value
    wrap: u8,
}

/// the value's own formatting fails
fn values(c: &Failing) -> Result<Info, String> {
    set(if c.on { M::Always } else { M::Detect }, S::Never);
    let at = c.at % (c.chunks.len() + 1);
    let fail = Cell::new(true);
    let body = |_: Tr, f: &mut Formatter<'_>| {
        for (i, s) in c.chunks.iter().enumerate() {
            if fail.get() && i == at {
                return Err(fmt::Error);
            }
            f.write_str(s)?;
        }
        if fail.get() {
            Err(fmt::Error)
        } else {
            Ok(())
        }
    };
    let v = TV(&body);
    let run = |f: &mut Formatter<'_>| match c.wrap {
        0 => fmt_all(&c.style, None, &v, c.tr, f),
        1 => c.style.with(|e| e.display(None, &v, f)),
        _ => c.style.with(|e| {
            e.fmt_with(None, f, &mut |f| {
                c.style.with_all(None, &v, |inner| inner.fmt_by(c.tr, f))
            })
        }),
    };
    let mut partial = String::new();
    let r = c.spec.with(&mut partial, run);
    ensure!(r.is_err(), "the value failed, but formatting reports success (wrote {partial:?})");
    fail.set(false);
    let again = render(&c.spec, run)?;
    let fresh = render(&c.spec, run)?;
    ensure_eq!(again, fresh, "output after a failure");
    let text = c.chunks.concat();
    let surrounded = surrounds(&again, &text)?;
    let d = c.style.desc();
    ensure!(surrounded == (c.on && !d.is_plain()), "incomplete output after a failure: {again:?}");
    Ok(Info { nontrivial: c.on && !d.is_plain(), label: if at == 0 { "fails at once" } else { "fails later" } })
}

pub fn run(mut ctx: Ctx) {
    let on = || prop::bool::weighted(0.85);
    let v = prop_oneof![40 => val(false), 1 => long_val()];
    let s = (few(), v, tr(), spec(), on())
        .prop_map(|(style, val, tr, spec, on)| Case { style, val, tr, spec, on });
    ctx.prop("sink", 80_000, 400_000, s, sinks);
    ctx.prop("raw", 80_000, 400_000, (style_case(), any::<bool>(), spec()), raw);
    let f = (few(), prop::collection::vec(text(false), 0..5), tr(), spec(), on(), 0usize..6, 0u8..3)
        .prop_map(|(style, chunks, tr, spec, on, at, wrap)| Failing { style, chunks, tr, spec, on, at, wrap });
    ctx.prop("value", 160_000, 1_000_000, f, values);
    ctx.finish()
}
