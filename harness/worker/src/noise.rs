//! Operations that must leave no trace.  `X<what><stream><parameter bytes in hex>`

use crate::ops;
use colorz::mode::{self, ColorKind, Mode, Stream};
use colorz::{ansi, css, xterm, Color, Effect, EffectFlags, NoColor, Style, StyledValue};
use std::fmt::{self, Binary, Debug, Display, LowerExp, LowerHex, Octal, Pointer, UpperExp, UpperHex, Write};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

/// Accepts so many bytes, then fails or panics
struct Sink {
    left: usize,
    panics: bool,
    text: String,
}
impl Sink {
    fn new() -> Sink {
        Sink { left: 100_000, panics: false, text: String::new() }
    }
    fn set(&mut self, left: usize, panics: bool) {
        self.left = left;
        self.panics = panics;
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left {
            if self.panics {
                panic_any(());
            }
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.text.push_str(s);
        Ok(())
    }
}

/// What a value does after it wrote something
#[derive(Clone, Copy)]
enum After {
    Ok,
    Fail,
    Panic,
    /// ask for decisions and print other styled values
    More(Option<Stream>),
    /// the same on another thread
    Thread(Option<Stream>),
}
#[derive(Clone, Copy)]
struct Value(u8, After);
impl Value {
    fn go(self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for _ in 0..self.0 % 5 {
            f.write_str("x")?;
        }
        let more = |s: Option<Stream>| {
            let _ = mode::should_color(s, &[ColorKind::Xterm]);
            let _ = Style::new().fg(ansi::Red).should_color(s);
            let v = StyledValue::new("inner", Style::new().fg(css::Coral).bold(), s);
            let mut k = Sink::new();
            let _ = write!(k, "{v}{:?}{}", v, v.style.apply());
            v
        };
        match self.1 {
            After::Ok => Ok(()),
            After::Fail => Err(fmt::Error),
            After::Panic => panic_any(()),
            After::More(s) => {
                let v = more(s);
                write!(f, "{v:>9}")
            }
            After::Thread(s) => {
                std::thread::scope(|x| x.spawn(|| more(s)).join().is_ok());
                Ok(())
            }
        }
    }
}
macro_rules! all { ($($t:ident)*) => {$(
    impl fmt::$t for Value {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.go(f)
        }
    }
)*}; }
all! { Display Debug Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp }

fn through<T>(v: &T, which: u8, k: &mut Sink) -> fmt::Result
where
    T: Display + Debug + Octal + LowerHex + UpperHex + Pointer + Binary + LowerExp + UpperExp,
{
    match which % 14 {
        0 => write!(k, "{v}"),
        1 => write!(k, "{v:?}"),
        2 => write!(k, "{v:#?}"),
        3 => write!(k, "{v:o}"),
        4 => write!(k, "{v:#x}"),
        5 => write!(k, "{v:X}"),
        6 => write!(k, "{:p}", *v),
        7 => write!(k, "{v:08b}"),
        8 => write!(k, "{v:+e}"),
        9 => write!(k, "{v:E}"),
        10 => write!(k, "{v:>20}"),
        11 => write!(k, "{v:*^9.3}"),
        12 => write!(k, "{v:-<300}"),
        _ => write!(k, "{v}{v:?}"),
    }
}

pub const EFFECTS: [Effect; 13] = [
    Effect::Bold,
    Effect::Dimmed,
    Effect::Italic,
    Effect::Underline,
    Effect::DoubleUnderline,
    Effect::Blink,
    Effect::BlinkFast,
    Effect::Reversed,
    Effect::Hidden,
    Effect::Strikethrough,
    Effect::Overline,
    Effect::SuperScript,
    Effect::SubScript,
];
fn color(n: u8) -> Option<Color> {
    match n % 6 {
        0 => None,
        1 => Some(ansi::AnsiColor::Green.into()),
        2 => Some(xterm::XtermColor::from_code(n).into()),
        3 => Some(css::Peru.into()),
        4 => Some(colorz::rgb::RgbColor { red: n, green: 7, blue: 200 }.into()),
        _ => NoColor.into(),
    }
}

fn quiet(what: u8, stream: Option<Stream>, p: &[u8], k: &mut Sink) {
    let at = |i: usize| p.get(i).copied().unwrap_or(0);
    let mut style: Style = Style::new().into_runtime_style();
    style.foreground = color(at(0));
    style.background = color(at(1));
    style.underline_color = color(at(2));
    style = style.effects(EFFECTS.iter().enumerate().filter(|(i, _)| at(3) >> (i % 8) & 1 == 1).map(|(_, e)| *e));
    let after = match at(5) % 6 {
        0 | 1 => After::Ok,
        2 => After::Fail,
        3 => After::Panic,
        4 => After::More(stream),
        _ => After::Thread(stream),
    };
    let v = StyledValue::new(Value(at(4), after), style, stream);
    match what {
        // values that may fail, panic or print others
        b'v' => {
            let _ = through(&v, at(6), k);
        }
        // sinks that fail or panic
        b's' => {
            k.set(at(7).into(), at(5) & 1 == 1);
            let v = StyledValue::new(Value(at(4), After::Ok), style, stream);
            let _ = through(&v, at(6), k);
        }
        // layers
        b'l' => {
            k.left = if at(7) & 1 == 0 { 100_000 } else { at(7).into() };
            k.panics = at(7) & 2 == 2;
            let inner = v.into_style().red().stream(Stream::AlwaysColor);
            let outer = StyledValue::new(inner, Style::new().bg(ansi::Blue).underline(), Some(Stream::NeverColor));
            let most = StyledValue::new(outer, style, stream);
            let _ = through(&most, at(6), k);
        }
        // sequences
        b'r' => {
            k.set(at(7).into(), at(5) & 1 == 1);
            let _ = match at(6) % 5 {
                0 => write!(k, "{}", style.apply()),
                1 => write!(k, "{:?}", style.clear()),
                2 => write!(k, "{:>9}", Style::clear_all()),
                3 => write!(k, "{}{}", style.clear(), style.apply()),
                _ => write!(k, "{}", Style::new().fg(xterm::Orchid).italics().apply()),
            };
        }
        // strings
        b'p' => {
            let s = String::from_utf8_lossy(p);
            let _ = write!(k, "{:?}{:?}", s.parse::<Color>(), s.parse::<Mode>());
            let _ = write!(k, "{:?}", s.parse::<Stream>());
            let _ = write!(k, "{:?}{:?}", Mode::from_ascii_bytes(p), Stream::from_ascii_bytes(p));
        }
        b'P' => {
            const NAMES: [&str; 16] = [
                "always", "never", "detect", "ALWAYS", "Never", "stdout", "stderr", "STDERR", "red", "bright red", "#fff",
                "#ffffff", "256", "12", "#zz", "nothing",
            ];
            let s = NAMES[at(0) as usize % 16];
            let _ = s.parse::<Color>().map(|c| Style::new().fg(c).should_color(stream));
            let _ = s.parse::<Mode>().map_err(|e| e.to_string());
            let _ = s.parse::<Stream>().map_err(|e| e.to_string());
        }
        // collections of effects
        b'f' => {
            let mut f = EffectFlags::all();
            let mut it = f.iter();
            for _ in 0..at(0) % 14 {
                it.next();
            }
            let _: EffectFlags = it.clone().collect();
            let _ = write!(k, "{it:?}{f:?}");
            f.toggle(EFFECTS[at(1) as usize % 13]);
            std::mem::forget(it);
            // an iterator that panics midway
            let n = at(2);
            let _ = Style::new().effects(EFFECTS.iter().enumerate().map(|(i, e)| {
                if i as u8 == n {
                    panic_any(());
                }
                e
            }));
        }
        // custom formatting
        b'w' => {
            struct W<'a>(&'a StyledValue<Value, Option<Color>, Option<Color>, Option<Color>>, u8);
            impl Display for W<'_> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    self.0.fmt_with(f, |v, f| match self.1 % 3 {
                        0 => v.go(f),
                        1 => {
                            f.write_str("a")?;
                            Err(fmt::Error)
                        }
                        _ => panic_any(()),
                    })
                }
            }
            let _ = write!(k, "{}", W(&v, at(6)));
        }
        // decisions and readings
        b'd' => {
            let kinds = [ColorKind::Ansi, ColorKind::Xterm, ColorKind::Rgb, ColorKind::NoColor];
            let kinds: Vec<ColorKind> = p.iter().map(|b| kinds[*b as usize % 4]).collect();
            let _ = mode::should_color(stream, &kinds);
            let _ = style.should_color(stream);
            let _ = mode::get_coloring_mode();
            let _ = mode::get_default_stream();
            #[cfg(any(feature = "std", feature = "supports-color"))]
            let _ = Mode::from_env();
        }
        // copies and comparisons
        b'c' => {
            #[allow(clippy::clone_on_copy)]
            let w = v.clone();
            let x = w.stream(Stream::Stderr).stream_opt(stream).on_red().bold();
            let _ = x.style == x.style;
            let _ = write!(k, "{:?}{:?}", x.style, style);

        }
        _ => panic!("noise"),
    }
}

/// What was written, and how it ended: panics other than those that were asked for are told
/// apart
pub fn noise(op: &str) -> String {
    let b = op.as_bytes();
    let p = ops::unhex(&op[3..]);
    let mut k = Sink::new();
    let r = catch_unwind(AssertUnwindSafe(|| quiet(b[1], ops::stream_of(b[2]), &p, &mut k)));
    let end = match r {
        Ok(()) => "",
        Err(p) if p.is::<()>() => "asked",
        Err(_) => "PANIC",
    };
    ops::hex(k.text.as_bytes()) + "/" + end
}
