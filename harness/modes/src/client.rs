use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Worker {
    _child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

thread_local! {
    static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) };
}

fn start() -> Worker {
    let exe = std::env::var("VERIF_WORKER").expect("VERIF_WORKER");
    let mut child = Command::new(exe)
        .env_clear()
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("worker");
    let to = child.stdin.take().unwrap();
    let from = BufReader::new(child.stdout.take().unwrap());
    Worker { _child: child, to, from }
}

/// One request, in a process of its own
pub fn ask(line: &str) -> Result<String, String> {
    WORKER.with(|w| {
        let mut w = w.borrow_mut();
        let w = w.get_or_insert_with(start);
        w.to.write_all(line.as_bytes()).and_then(|()| w.to.write_all(b"\n")).expect("the worker is gone");
        let mut reply = String::new();
        w.from.read_line(&mut reply).expect("the worker is gone");
        if reply.is_empty() {
            eprintln!("the worker ended");
            std::process::abort();
        }
        let reply = reply.trim_end_matches('\n');
        if reply == "CRASH 14" {
            return Err("no answer within 20 s".into());
        }
        if reply.starts_with("CRASH") || reply.starts_with("EXIT") {
            return Err(format!("the process died: {reply}"));
        }
        Ok(reply.to_string())
    })
}

pub fn unhex(s: &str) -> String {
    let b: Vec<u8> =
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8_lossy(&b).into_owned()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
