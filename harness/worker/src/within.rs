//! Places an operation may be called from.

use colorz::mode::{self, Stream};
use colorz::{ansi, Color, NoColor, Style, StyledValue};
use std::cell::RefCell;
use std::fmt;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::Mutex;

type Go<'a> = &'a (dyn Fn() -> String + Sync);

struct OnDrop<'a>(&'a dyn Fn());
impl Drop for OnDrop<'_> {
    fn drop(&mut self) {
        (self.0)()
    }
}

struct Last(Option<Box<dyn FnOnce()>>);
impl Drop for Last {
    fn drop(&mut self) {
        if let Some(f) = self.0.take() {
            f()
        }
    }
}
thread_local! {
    static LAST: RefCell<Last> = const { RefCell::new(Last(None)) };
}

struct Inside<'a>(Go<'a>, RefCell<String>);
impl fmt::Display for Inside<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        *self.1.borrow_mut() = (self.0)();
        f.write_str("x")
    }
}

/// So that whatever the crate may keep per thread exists
fn touch() {
    let v = StyledValue::new(1, Style::new().fg(ansi::Red).bold(), Some(Stream::AlwaysColor));
    let _ = format!("{v:>3}{:?}{}", v, v.style.apply());
    let _ = mode::should_color(Some(Stream::AlwaysColor), &[mode::ColorKind::Rgb]);
    let _ = (mode::get_coloring_mode(), mode::get_default_stream(), "red".parse::<Color>());
}

pub fn within(places: &[u8], f: Go<'_>) -> String {
    let Some((place, rest)) = places.split_first() else {
        return catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| "PANIC".into());
    };
    let go = || within(rest, f);
    let out = Mutex::new(String::from("NEVER-CALLED"));
    let keep = || *out.lock().unwrap() = go();
    match place {
        // a thread of its own
        b't' => return std::thread::scope(|s| s.spawn(go).join().unwrap()),
        // one with little stack
        b's' => {
            return std::thread::scope(|s| {
                std::thread::Builder::new().stack_size(96 * 1024).spawn_scoped(s, go).unwrap().join().unwrap()
            })
        }
        // a destructor, while the thread unwinds
        b'u' => {
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let _guard = OnDrop(&keep);
                panic_any(());
            }));
        }
        // the destructor of a thread-local that is destroyed after all the others
        b'l' => std::thread::scope(|s| {
            let run: Box<dyn FnOnce() + Send + '_> = Box::new(keep);
            // SAFETY: the thread, and with it the thread-local, ends before this returns
            let run: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(run) };
            s.spawn(move || {
                LAST.with(|l| l.borrow_mut().0 = Some(run));
                touch();
            })
            .join()
            .unwrap()
        }),
        // the panic hook
        b'h' => {
            let run: Box<dyn Fn() + Send + Sync + '_> = Box::new(keep);
            // SAFETY: the hook is replaced before this returns
            let run: Box<dyn Fn() + Send + Sync + 'static> = unsafe { std::mem::transmute(run) };
            std::panic::set_hook(Box::new(move |_| run()));
            let _ = catch_unwind(|| panic_any(()));
            std::panic::set_hook(Box::new(|_| {}));
        }
        // the formatting of another styled value
        b'f' => {
            let v = Inside(&go, RefCell::new(String::new()));
            let v = StyledValue::new(v, Style::new().fg(ansi::Blue).bg(NoColor).underline(), Some(Stream::AlwaysColor));
            let _ = format!("{v}");
            *out.lock().unwrap() = v.value.1.take();
        }
        // with stdout and stderr locked by this thread
        b'o' => {
            let _locks = (std::io::stdout().lock(), std::io::stderr().lock());
            keep();
        }
        // with stdout and stderr locked by another thread
        b'O' => {
            let (ready, is_ready) = std::sync::mpsc::channel();
            let (done, is_done) = std::sync::mpsc::channel::<()>();
            std::thread::scope(|s| {
                s.spawn(move || {
                    let _locks = (std::io::stdout().lock(), std::io::stderr().lock());
                    ready.send(()).unwrap();
                    let _ = is_done.recv();
                });
                is_ready.recv().unwrap();
                keep();
                drop(done);
            });
        }
        p => panic!("place {p}"),
    }
    out.into_inner().unwrap()
}
