//! Runs histories of colorz settings and queries, each in a freshly forked process with
//! its own streams and environment.  Requests on stdin, one line each, answers on stdout:
//!
//! `S op op ...`: one history.  `C op ... ; schedule ; op ... ; op ...`: a prelude, then
//! one program per thread.  The answer is one token per operation (programs separated by
//! `;`), or `CRASH <signal>`.
mod noise;
mod ops;
mod sched;
mod styles;
mod within;

use std::io::{BufRead, Write};
use std::os::fd::FromRawFd;

fn high_dup(fd: i32) -> i32 {
    let r = unsafe { libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, 100) };
    assert!(r >= 0);
    r
}

fn child(line: &str, fds: &ops::Fds, out: i32) -> ! {
    unsafe { libc::alarm(20) };
    let reply = match line.as_bytes()[0] {
        b'S' => {
            let mut st = ops::State::new(fds);
            let r: Vec<String> = line[1..].split_whitespace().map(|op| st.run(op)).collect();
            r.join(" ")
        }
        b'C' => sched::run(&line[1..], fds),
        c => panic!("request {c}"),
    };
    let b = reply.as_bytes();
    let mut n = 0;
    while n < b.len() {
        let k = unsafe { libc::write(out, b[n..].as_ptr().cast(), b.len() - n) };
        assert!(k > 0);
        n += k as usize;
    }
    unsafe { libc::_exit(0) }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let req = high_dup(0);
    let resp = high_dup(1);
    let fds = ops::Fds::open();
    for fd in 0..3 {
        fds.wire(fd, b'n');
    }
    let mut input = std::io::BufReader::new(unsafe { std::fs::File::from_raw_fd(req) });
    let mut output = unsafe { std::fs::File::from_raw_fd(resp) };
    let mut line = String::new();
    loop {
        line.clear();
        if input.read_line(&mut line).unwrap() == 0 {
            return;
        }
        let mut p = [0i32; 2];
        assert_eq!(unsafe { libc::pipe(p.as_mut_ptr()) }, 0);
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe { libc::close(p[0]) };
            let w = high_dup(p[1]);
            unsafe { libc::close(p[1]) };
            child(&line, &fds, w);
        }
        unsafe { libc::close(p[1]) };
        let mut buf = Vec::new();
        let mut chunk = [0u8; 4096];
        loop {
            let n = unsafe { libc::read(p[0], chunk.as_mut_ptr().cast(), chunk.len()) };
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&chunk[..n as usize]);
        }
        unsafe { libc::close(p[0]) };
        let mut status = 0;
        assert_eq!(unsafe { libc::waitpid(pid, &mut status, 0) }, pid);
        if libc::WIFSIGNALED(status) {
            buf = format!("CRASH {}", libc::WTERMSIG(status)).into_bytes();
        } else if libc::WEXITSTATUS(status) != 0 {
            buf = format!("EXIT {}", libc::WEXITSTATUS(status)).into_bytes();
        }
        buf.push(b'\n');
        output.write_all(&buf).unwrap();
    }
}
