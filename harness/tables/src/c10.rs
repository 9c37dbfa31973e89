use vcore::near::*;
use colorz::mode::{Mode, ModeFromStrError, Stream, StreamFromStrError};
use proptest::prelude::*;
use vcore::run::*;
use vcore::{ensure, ensure_eq};

const MODES: [(&str, Mode); 3] = [("detect", Mode::Detect), ("always", Mode::Always), ("never", Mode::Never)];
const STREAMS: [(&str, Stream); 4] = [
    ("stdout", Stream::Stdout),
    ("stderr", Stream::Stderr),
    ("always", Stream::AlwaysColor),
    ("never", Stream::NeverColor),
];

fn find<T: Copy>(table: &[(&str, T)], s: &[u8]) -> Option<T> {
    table.iter().find(|(n, _)| n.as_bytes().eq_ignore_ascii_case(s)).map(|x| x.1)
}

fn check(s: &Vec<u8>) -> Result<Info, String> {
    let m: Result<Mode, ModeFromStrError> = Mode::from_ascii_bytes(s);
    let t: Result<Stream, StreamFromStrError> = Stream::from_ascii_bytes(s);
    ensure_eq!(m.ok(), find(&MODES, s), "mode {:?}", String::from_utf8_lossy(s));
    ensure_eq!(t.ok(), find(&STREAMS, s), "stream {:?}", String::from_utf8_lossy(s));
    if let Ok(u) = std::str::from_utf8(s) {
        ensure_eq!(u.parse::<Mode>(), m, "mode {u:?} as a string and as bytes");
        ensure_eq!(u.parse::<Stream>(), t, "stream {u:?} as a string and as bytes");
    }
    let hit = m.is_ok() || t.is_ok();
    Ok(Info {
        nontrivial: hit || (4..=8).contains(&s.len()),
        label: match (m.is_ok(), t.is_ok()) {
            (true, true) => "both",
            (true, false) => "mode",
            (false, true) => "stream",
            _ => "rejected",
        },
    })
}

/// every option an error message names (in quotes) is accepted
fn messages(which: &u8) -> Result<Info, String> {
    let msg = if *which == 0 { ModeFromStrError.to_string() } else { StreamFromStrError.to_string() };
    let named: Vec<&str> = msg.split('"').skip(1).step_by(2).collect();
    ensure!(!named.is_empty(), "no option named in {msg:?}");
    for n in &named {
        let good = if *which == 0 { n.parse::<Mode>().is_ok() } else { n.parse::<Stream>().is_ok() };
        ensure!(good, "{n:?}, named in {msg:?}, is not accepted");
    }
    ok(true)
}

/// What other programs accept for such settings
fn dictionary() -> Vec<Vec<u8>> {
    let words = [
        "detect", "always", "never", "stdout", "stderr", "auto", "automatic", "default", "on", "off", "true", "false",
        "yes", "no", "y", "n", "t", "f", "a", "d", "0", "1", "2", "force", "forced", "ansi", "tty", "if-tty", "iftty",
        "none", "null", "enable", "enabled", "disable", "disabled", "color", "colour", "plain", "out", "err", "std", "stdin",
        "stdio", "console", "terminal", "std_out", "std_err", "std-out", "std-err", "standard output", "standard error",
        "output", "error", "alwayscolor", "nevercolor", "always color", "never color", "always_color", "never_color", "both", "all",
        "any", "env", "detected", "detects", "alway", "neve", "strip", "smart", "1>", "2>", "&1", "&2", "fd1", "fd2", "",
    ];
    let mut all = Vec::new();
    for w in words {
        let cap = w[..w.len().min(1)].to_uppercase() + w.get(1..).unwrap_or("");
        for w in [w.to_string(), w.to_uppercase(), cap] {
            for p in [
                "", " ", "\t", "\n", "\0", "-", "--", "--color=", "color=", "mode=", "mode:", "Mode::", "stream=", "Stream::", "std", "std::io::",
                "auto", "not ", "no", "un", "\"", "'", "=", ":", "\u{feff}", "/dev/", "if ", "use ",
            ] {
                for q in [
                    "", " ", "\t", "\n", "\r\n", "\0", "\0\0", "\0\0\0", "s", "d", "ed", "ing", "color", "Color", "_color", "-color", " color", "()", "\"", "'",
                    ",", ";", ".", "!", "=1", "=true", "always", "never", "1", "0", "?", "\u{301}", "\u{200b}",
                ] {
                    all.push(format!("{p}{w}{q}").into_bytes());
                }
            }
        }
    }
    all.sort();
    all.dedup();
    all
}

pub fn run(mut ctx: Ctx) {
    ctx.exhaustive("messages", 0u8..2, messages);
    let n = 256u32;
    let short = (0..1 + n + n * n).map(move |mut k| {
        let mut s = Vec::new();
        let (mut len, mut block) = (0, 1);
        while k >= block {
            k -= block;
            block *= n;
            len += 1;
        }
        for _ in 0..len {
            s.push((k % n) as u8);
            k /= n;
        }
        s
    });
    ctx.exhaustive("short", short, check);
    let names = ["detect", "always", "never", "stdout", "stderr"];
    // all case patterns, all byte strings at edit distance one, all pairs of flipped bits,
    // and each name followed or preceded by every pair of bytes
    let near = names.into_iter().flat_map(|n| {
        let b = n.as_bytes().to_vec();
        let cases = {
            let b = b.clone();
            (0..1u64 << b.len()).map(move |m| apply(b.clone(), &Edit::Case(m)))
        };
        let bits = {
            let b = b.clone();
            let k = b.len() * 8;
            (0..k * k).map(move |x| {
                let (i, j) = (x / k, x % k);
                apply(apply(b.clone(), &Edit::Flip(i / 8, (i % 8) as u8)), &Edit::Flip(j / 8, (j % 8) as u8))
            })
        };
        let pads = {
            let b = b.clone();
            (0..65536u32).flat_map(move |x| {
                let p = vec![(x >> 8) as u8, x as u8];
                [apply(b.clone(), &Edit::Append(p.clone())), apply(b.clone(), &Edit::Prepend(p))]
            })
        };
        cases.chain(neighbours(&b, 256)).chain(bits).chain(pads)
    });
    ctx.exhaustive("near_names", near, check);
    let far = names.into_iter().flat_map(|n| {
        let b = n.as_bytes();
        let upper = b.to_ascii_uppercase();
        [partial(b, true), partial(&upper, true), wrapping(b), wrapping(&upper)].concat()
    });
    ctx.exhaustive("far_from_names", far, check);
    ctx.exhaustive("dictionary", dictionary().into_iter(), check);
    ctx.exhaustive("alikes", alikes(&names).into_iter().map(String::into_bytes), check);
    // one byte replaced by every other byte, in every case pattern of the name
    let subs = names.into_iter().flat_map(|n| {
        let b = n.as_bytes().to_vec();
        (0..1u64 << b.len()).flat_map(move |m| {
            let c = apply(b.clone(), &Edit::Case(m));
            (0..c.len() * 256).map(move |x| apply(c.clone(), &Edit::Sub(x / 256, x as u8)))
        })
    });
    ctx.exhaustive("case_and_substitution", subs, check);
    let seed = prop_oneof![
        6 => prop::sample::select(names.to_vec()).prop_map(|s| s.as_bytes().to_vec()),
        1 => prop::sample::select(vec!["auto", "none", "on", "off", "true", "stdin", "force", "alwaysnever", "Stream::Stdout", "alwayscolor", "nevercolor"])
            .prop_map(|s| s.as_bytes().to_vec()),
    ];
    let edited = (seed, prop::collection::vec(edit(), 0..5)).prop_map(|(s, es)| es.iter().fold(s, apply));
    ctx.prop("edited", 1_500_000, 40_000_000, edited, check);
    // mixtures of the letters of the names, at the right lengths
    let mixed = (4usize..9, prop::collection::vec((0usize..5, any::<bool>()), 8)).prop_map(move |(len, picks)| {
        picks[..len]
            .iter()
            .enumerate()
            .map(|(i, (k, up))| {
                let n = names[*k].as_bytes();
                let b = *n.get(i).unwrap_or(&b'\0');
                if *up { b.to_ascii_uppercase() } else { b }
            })
            .collect::<Vec<u8>>()
    });
    ctx.prop("mixed", 400_000, 10_000_000, mixed, check);
    ctx.prop("any", 200_000, 8_000_000, prop::collection::vec(any::<u8>(), 0..24), check);
    let strings = prop_oneof![any::<String>(), "\\PC{4,7}"];
    ctx.prop("any_string", 100_000, 4_000_000, strings.prop_map(String::into_bytes), check);
    ctx.finish()
}
