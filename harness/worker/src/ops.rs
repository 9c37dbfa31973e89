//! Single operations, as tokens, and their answers, as tokens.

use crate::styles;
use colorz::mode::{self, ColorKind, Mode, Stream};
use std::os::unix::ffi::OsStringExt;

/// What the streams can be connected to; opened before the first request
pub struct Fds {
    tty: i32,
    pipe: i32,
    file: i32,
    null: i32,
    master: i32,
    pipe_end: i32,
}

impl Fds {
    pub fn open() -> Fds {
        unsafe {
            let (mut m, mut s) = (0, 0);
            use std::ptr::{null, null_mut};
            assert_eq!(libc::openpty(&mut m, &mut s, null_mut(), null(), null()), 0);
            assert_eq!(libc::isatty(s), 1);
            let mut p = [0i32; 2];
            assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
            let file = libc::memfd_create(c"out".as_ptr(), 0);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
            assert!(file >= 0 && null >= 0);
            let hi = |fd| libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, 100);
            let r = Fds {
                tty: hi(s),
                pipe: hi(p[1]),
                file: hi(file),
                null: hi(null),
                master: hi(m),
                pipe_end: hi(p[0]),
            };
            for fd in [m, s, p[0], p[1], file, null] {
                libc::close(fd);
            }
            r
        }
    }

    /// What was written to the streams so far, and the state they are in: bytes at the other end
    /// of the terminal and the pipe, size of and position in the file, terminal settings, flags
    pub fn seen(&self) -> Vec<u8> {
        let mut v = Vec::new();
        unsafe {
            for fd in [self.master, self.pipe_end] {
                let mut n = 0i32;
                assert_eq!(libc::ioctl(fd, libc::FIONREAD, &mut n), 0);
                v.extend(n.to_le_bytes());
            }
            let mut st: libc::stat = std::mem::zeroed();
            assert_eq!(libc::fstat(self.file, &mut st), 0);
            v.extend(st.st_size.to_le_bytes());
            v.extend(libc::lseek(self.file, 0, libc::SEEK_CUR).to_le_bytes());
            let mut t: libc::termios = std::mem::zeroed();
            assert_eq!(libc::tcgetattr(self.tty, &mut t), 0);
            for x in [t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag] {
                v.extend(x.to_le_bytes());
            }
            v.extend(t.c_cc);
            for fd in 0..3 {
                v.extend(libc::fcntl(fd, libc::F_GETFL).to_le_bytes());
            }
        }
        v
    }

    pub fn wire(&self, fd: i32, to: u8) {
        let from = match to {
            b't' => self.tty,
            b'p' => self.pipe,
            b'f' => self.file,
            b'n' => self.null,
            b'c' => {
                unsafe { libc::close(fd) };
                return;
            }
            _ => panic!("wire {to}"),
        };
        assert!(unsafe { libc::dup2(from, fd) } >= 0);
    }
}

pub struct State<'a> {
    pub fds: &'a Fds,
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn mode_of(c: u8) -> Mode {
    match c {
        b'a' => Mode::Always,
        b'n' => Mode::Never,
        b'd' => Mode::Detect,
        _ => panic!("mode {c}"),
    }
}
fn mode_to(m: Mode) -> &'static str {
    match m {
        Mode::Always => "a",
        Mode::Never => "n",
        Mode::Detect => "d",
    }
}
pub fn stream_of(c: u8) -> Option<Stream> {
    Some(match c {
        b'o' => Stream::Stdout,
        b'e' => Stream::Stderr,
        b'a' => Stream::AlwaysColor,
        b'n' => Stream::NeverColor,
        b'-' => return None,
        _ => panic!("stream {c}"),
    })
}
fn stream_to(m: Stream) -> &'static str {
    match m {
        Stream::Stdout => "o",
        Stream::Stderr => "e",
        Stream::AlwaysColor => "a",
        Stream::NeverColor => "n",
        _ => "?",
    }
}
fn kind_of(c: u8) -> ColorKind {
    match c {
        b'a' => ColorKind::Ansi,
        b'x' => ColorKind::Xterm,
        b'r' => ColorKind::Rgb,
        b'z' => ColorKind::NoColor,
        _ => panic!("kind {c}"),
    }
}

#[cfg(feature = "supports-color")]
fn level(s: supports_color::Stream) -> u8 {
    supports_color::on(s).map_or(0, |l| {
        u8::from(l.has_basic) | u8::from(l.has_256) << 1 | u8::from(l.has_16m) << 2
    })
}

/// What the process environment is like, not asked through colorz: for stdout and stderr,
/// whether it is a terminal and which kinds of color supports-color says it has
fn world() -> String {
    let tty = |fd| u8::from(unsafe { libc::isatty(fd) } == 1);
    #[cfg(feature = "supports-color")]
    let l = (level(supports_color::Stream::Stdout), level(supports_color::Stream::Stderr));
    #[cfg(not(feature = "supports-color"))]
    let l = (0, 0);
    format!("{}{}{}{}", tty(1), tty(2), l.0, l.1)
}

/// An answer, without heap allocations where one can be avoided, so that little more than
/// the code under test runs under the scheduler's control
pub enum Res {
    S(&'static str),
    Heap(String),
    Text(styles::Buf),
}
impl From<&'static str> for Res {
    fn from(s: &'static str) -> Res {
        Res::S(s)
    }
}
impl Res {
    pub fn show(self) -> String {
        match self {
            Res::S(s) => s.into(),
            Res::Heap(s) => s,
            Res::Text(b) => hex(b.bytes()),
        }
    }
}

/// Operations on colorz alone; these may run on any thread
pub fn plain(op: &str) -> Res {
    let b = op.as_bytes();
    match b[0] {
        b'M' => {
            mode::set_coloring_mode(mode_of(b[1]));
            "-".into()
        }
        b'D' => {
            mode::set_default_stream(stream_of(b[1]).unwrap());
            "-".into()
        }
        #[cfg(any(feature = "std", feature = "supports-color"))]
        b'E' => {
            mode::set_coloring_mode_from_env();
            "-".into()
        }
        #[cfg(any(feature = "std", feature = "supports-color"))]
        b'F' => Mode::from_env().map_or("-", mode_to).into(),
        #[cfg(not(any(feature = "std", feature = "supports-color")))]
        b'E' | b'F' => "-".into(),
        b'G' => mode_to(mode::get_coloring_mode()).into(),
        b'H' => stream_to(mode::get_default_stream()).into(),
        b'A' => {
            let mut kinds = [ColorKind::NoColor; 64];
            for (k, c) in kinds.iter_mut().zip(&b[2..]) {
                *k = kind_of(*c);
            }
            let r = mode::should_color(stream_of(b[1]), &kinds[..b.len() - 2]);
            if r { "1" } else { "0" }.into()
        }
        b'Y' | b'P' | b'R' | b'Q' => styles::act(b[0], stream_of(b[1]), &b[2..]),
        b'K' => Res::Heap(styles::codes(b[1])),
        b'X' => {
            crate::noise::noise(op);
            "-".into()
        }
        b'N' => Res::Heap(crate::noise::noise(op)),
        b'C' => {
            let s = String::from_utf8(unhex(&op[1..])).unwrap();
            Res::Heap(hex(format!("{:?} {:?} {:?}", s.parse::<colorz::Color>().ok(), s.parse::<Mode>().ok(), s.parse::<Stream>().ok()).as_bytes()))
        }
        _ => panic!("op {op}"),
    }
}

impl<'a> State<'a> {
    pub fn new(fds: &'a Fds) -> Self {
        State { fds }
    }

    pub fn run(&mut self, op: &str) -> String {
        // `t...`: on a thread; `@<places>,...`: there
        let (op, places) = match op.as_bytes()[0] {
            b't' => (&op[1..], "t"),
            b'@' => {
                let (places, op) = op[1..].split_once(',').unwrap();
                (op, places)
            }
            _ => (op, ""),
        };
        let b = op.as_bytes();
        match b[0] {
            b'W' => {
                self.fds.wire(i32::from(b[1] - b'0'), b[2]);
                return "-".into();
            }
            b'V' => {
                let (n, v) = op[1..].split_once(['=', '-']).unwrap();
                let n = std::ffi::OsString::from_vec(unhex(n));
                if op.contains('=') {
                    std::env::set_var(n, std::ffi::OsString::from_vec(unhex(v)));
                } else {
                    std::env::remove_var(n);
                }
                return "-".into();
            }
            b'w' => return world(),
            // traces: streams and environment
            b'Z' => {
                use std::os::unix::ffi::OsStrExt;
                let mut env: Vec<_> = std::env::vars_os().collect();
                env.sort();
                let mut v = self.fds.seen();
                for (a, b) in env {
                    v.extend([a.as_bytes(), b"=", b.as_bytes(), b"\n"].concat());
                }
                return hex(&v);
            }
            _ => {}
        }
        let w = match b[0] {
            b'A' | b'Y' | b'P' => world() + "/",
            _ => String::new(),
        };
        w + &crate::within::within(places.as_bytes(), &|| plain(op).show())
    }
}
