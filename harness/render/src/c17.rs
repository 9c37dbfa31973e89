use crate::util::*;
use colorz::mode::{self, Mode, Stream};
use colorz::{ansi, css, rgb, xterm, Color, Colorize, EffectFlags, Style, StyledValue, WriteColor};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::{self, Formatter, Write};
use std::hint::black_box;
use vcore::ensure;
use vcore::fmtspec::*;
use vcore::model::*;
use vcore::near::*;
use vcore::run::*;
use vstyles::*;

struct Counting;
thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}
fn count() {
    let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
}
// SAFETY: forwards to the system allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count();
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count();
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

fn allocs<T>(f: impl FnOnce() -> T) -> (u64, T) {
    let before = ALLOCS.with(Cell::get);
    let r = f();
    (ALLOCS.with(Cell::get) - before, r)
}

/// a sink with room for a number of bytes, on the stack
struct Buf {
    room: usize,
    len: usize,
    data: [u8; 2048],
}
impl Buf {
    fn new(room: usize) -> Buf {
        Buf { room: room.min(2048), len: 0, data: [0; 2048] }
    }
}
impl Write for Buf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.room - self.len {
            return Err(fmt::Error);
        }
        self.data[self.len..][..s.len()].copy_from_slice(s.as_bytes());
        self.len += s.len();
        Ok(())
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    style: StyleCase,
    tr: Tr,
    spec: FmtSpec,
    text: String,
    n: i64,
    stream: Option<S>,
    mode: M,
    default: S,
    room: u16,
}

fn no_detection(s: S) -> S {
    match s {
        // no detection takes place without the features for it
        S::Stdout | S::Stderr if cfg!(any(feature = "std", feature = "supports-color")) => S::Always,
        s => s,
    }
}

fn formatting(c: &Case) -> Result<Info, String> {
    let stream = match c.mode {
        M::Detect => c.stream.map(no_detection),
        _ => c.stream,
    };
    let default = match c.mode {
        M::Detect => no_detection(c.default),
        _ => c.default,
    };
    let stream = stream.map(S::real);
    let body = |tr: Tr, f: &mut Formatter<'_>| match tr {
        Tr::Display => fmt::Display::fmt(c.text.as_str(), f),
        Tr::Debug => fmt::Debug::fmt(c.text.as_str(), f),
        Tr::Binary => fmt::Binary::fmt(&c.n, f),
        Tr::LowerHex => fmt::LowerHex::fmt(&c.n, f),
        _ => f.pad(&c.text),
    };
    let d = c.style.desc();
    let kinds = d.kinds().map(|k| k.map_or(mode::ColorKind::NoColor, Kind::real));
    let mut failed = false;
    for room in [2048, c.room as usize] {
        let (n, _) = allocs(|| set(c.mode, default));
        ensure!(n == 0, "{n} allocations when setting mode and default stream");
        let (n, r) = allocs(|| {
            let mut b = Buf::new(room);
            let r = c.spec.with(&mut b, |f| fmt_all(&c.style, stream, &TV(&body), c.tr, f));
            (black_box(b.len), r)
        });
        failed |= r.1.is_err();
        ensure!(n == 0, "{n} allocations when formatting a styled value (room for {room} bytes, {:?})", r.1);
        let (n, _) = allocs(|| {
            c.style.with(|e| {
                let mut b = Buf::new(room);
                let r = c.spec.with(&mut b, |f| {
                    e.apply(false, f)?;
                    e.apply(true, f)?;
                    e.fmt_with(stream, f, &mut |f| body(c.tr, f))?;
                    e.display(stream, &TV(&body), f)?;
                    e.clear(false, f)?;
                    e.clear(true, f)?;
                    fmt::Display::fmt(&Style::clear_all(), f)
                });
                black_box((b.len, r.is_ok()));
            })
        });
        ensure!(n == 0, "{n} allocations when writing raw sequences");
        for col in [d.fg, d.bg, d.ul].into_iter().flatten() {
            let col = col.color();
            let (n, _) = allocs(|| {
                let mut b = Buf::new(room);
                let _ = c.spec.with(&mut b, |f| {
                    col.fmt_foreground(f)?;
                    col.fmt_background_args(f)?;
                    col.fmt_underline(f)
                });
                black_box(b.len);
            });
            ensure!(n == 0, "{n} allocations when writing a color");
        }
    }
    let (n, _) = allocs(|| {
        black_box(c.style.with(|e| e.should_color(stream)));
        black_box(mode::should_color(stream, &kinds));
        black_box((mode::get_coloring_mode(), mode::get_default_stream()));
    });
    ensure!(n == 0, "{n} allocations for a decision that needs no detection");
    // once a stream was detected, it does not have to be again
    mode::set_coloring_mode(Mode::Detect);
    for s in [Stream::Stdout, Stream::Stderr] {
        black_box(mode::should_color(Some(s), &[mode::ColorKind::Ansi]));
        let (n, _) = allocs(|| black_box((mode::should_color(Some(s), &kinds), c.style.with(|e| e.should_color(Some(s))))));
        ensure!(n == 0, "{n} allocations for a decision about a stream that was detected before");
    }
    let fx = flags(d.fx);
    let (n, _) = allocs(|| {
        let mut b = Buf::new(2048);
        let _ = c.spec.with(&mut b, |f| {
            fmt::Debug::fmt(&fx, f)?;
            fmt::Debug::fmt(&fx.iter(), f)?;
            fmt::Debug::fmt(&d.runtime(), f)
        });
        black_box(b.len);
    });
    ensure!(n == 0, "{n} allocations when debug-printing effects and a style with {:?}", c.spec);
    Ok(Info {
        nontrivial: !d.is_plain(),
        label: if failed { "sink full" } else { "everything fits" },
    })
}

fn building(c: &(Desc, String)) -> Result<Info, String> {
    let (d, text) = c;
    let fx = flags(d.fx);
    let (n, _) = allocs(|| {
        let s = Style::new()
            .fg(d.fg.map(Col::color))
            .bg(d.bg.map(Col::color))
            .underline_color(d.ul.map(Col::color))
            .effect_flags(fx);
        let s = s.bold().with(colorz::Effect::Italic).without(colorz::Effect::Bold).toggled(colorz::Effect::Blink);
        let s2 = Style::new().fg(ansi::Red).bg(css::Tomato).underline_color(rgb::Rgb::<1, 2, 3>).effects(fx);
        let v = text.as_str().style_with(s).red().on_blue().bold().stream(Stream::Stderr).stream_opt(None);
        let w = v.style().fg(xterm::Aquamarine).into_style().underline();
        black_box((s.into_runtime_style(), s2.into_runtime_style(), s2.const_into_runtime_style(), w.style.is_plain()));
        let set: EffectFlags = fx.iter().collect();
        black_box((set, fx.is_any(set), fx.iter().count(), EffectFlags::from_array([colorz::Effect::Bold])));
        black_box(StyledValue::new(text.as_str(), s, None).value.len());
    });
    ensure!(n == 0, "{n} allocations when building styles");
    let (n, _) = allocs(|| {
        let mut b = Buf::new(2048);
        let _ = write!(b, "{fx:?} {:?} {d:?}", fx.iter());
        black_box(b.len);
    });
    ensure!(n == 0, "{n} allocations when debug-printing effects");
    ok(d.fg.is_some() || d.fx != 0)
}

fn parsing(s: &String) -> Result<Info, String> {
    let (n, r) = allocs(|| black_box(s.parse::<Color>()));
    ensure!(n == 0, "{n} allocations when parsing color {s:?} ({r:?})");
    let (n, m) = allocs(|| black_box((s.parse::<Mode>(), Mode::from_ascii_bytes(s.as_bytes()))));
    ensure!(n == 0, "{n} allocations when parsing mode {s:?}");
    let (n, t) = allocs(|| black_box((s.parse::<Stream>(), Stream::from_ascii_bytes(s.as_bytes()))));
    ensure!(n == 0, "{n} allocations when parsing stream {s:?}");
    let (n, _) = allocs(|| {
        let mut b = Buf::new(2048);
        if let Err(e) = m.0 {
            let _ = write!(b, "{e} {e:?}");
        }
        if let Err(e) = t.0 {
            let _ = write!(b, "{e} {e:?}");
        }
        if let Err(e) = r {
            let _ = write!(b, "{e:?}");
        }
        black_box(b.len);
    });
    ensure!(n == 0, "{n} allocations when printing parse errors");
    let ok_any = r.is_ok() || m.0.is_ok() || t.0.is_ok();
    ok_as(if ok_any { "accepted" } else { "rejected" }, !s.is_empty())
}

pub fn run(mut ctx: Ctx) {
    let s = (
        style_case_few(),
        vcore::val::tr(),
        spec(),
        vcore::val::text(true),
        any::<i64>(),
        prop::option::of(stream()),
        mode(),
        stream(),
        0u16..80,
    )
        .prop_map(|(style, tr, spec, text, n, stream, mode, default, room)| Case {
            style,
            tr,
            spec,
            text,
            n,
            stream,
            mode,
            default,
            room,
        });
    ctx.prop("formatting", 240_000, 3_000_000, s, formatting);
    ctx.prop("building", 80_000, 1_000_000, (desc(), vcore::val::text(true)), building);
    let words: Vec<String> = [
        "bright_red", "bright-green", "light blue", "bright purple", "default", "gray", "BRIGHT WHITE", "Bright Cyan",
        "bright yellow", "magenta", "cyan", "white", "always\n", "std out", "#+1", "# ff", "0x1f", "rgb(1,2,3)", "007", "1e2",
        "#", "#f", "#fF", "#00ff7f", "#00ff7g", "256", "255", "0", "red", "bright blue", "brightblue", "Red", "purple",
        "never", "NEVER", "always", "detect", "stdout", "stderr", "never ", "stdin", "",
    ]
    .map(String::from)
    .to_vec();
    // everything at edit distance one of an accepted name
    let names = ["black", "red", "green", "yellow", "blue", "magenta", "cyan", "white"];
    let mut all: Vec<String> = names.iter().flat_map(|n| [n.to_string(), format!("bright {n}")]).collect();
    all.extend(["purple", "always", "never", "detect", "stdout", "stderr"].map(String::from));
    let near = all.iter().flat_map(|s| neighbours(s.as_bytes(), 128)).map(|b| String::from_utf8(b).unwrap());
    ctx.exhaustive("parsing_near", near, parsing);
    let edited = (prop::sample::select(words.clone()), prop::collection::vec(edit(), 1..4)).prop_map(|(s, es)| {
        let b = es.iter().fold(s.into_bytes(), apply);
        String::from_utf8_lossy(&b).into_owned()
    });
    let p = prop_oneof![
        prop::sample::select(words.clone()),
        edited,
        (prop::sample::select(words), vcore::val::text(true)).prop_map(|(a, b)| format!("{a}{b}")),
        vcore::val::text(true),
        prop::collection::vec(vcore::val::ch(true), 0..300).prop_map(|v| v.into_iter().collect()),
        any::<(u8, u8, u8)>().prop_map(|(r, g, b)| format!("#{r:02x}{g:02X}{b:02x}")),
        (0u16..1000).prop_map(|n| n.to_string()),
    ];
    ctx.prop("parsing", 160_000, 3_000_000, p, parsing);
    ctx.finish()
}

fn style_case_few() -> impl Strategy<Value = StyleCase> {
    prop_oneof![few(), style_case()]
}
