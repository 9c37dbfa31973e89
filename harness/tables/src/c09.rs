use vcore::near::*;
use colorz::{Color, ParseColorError};
use proptest::prelude::*;
use vcore::ensure;
use vcore::model::Col;
use vcore::run::*;

const NAMES: [&str; 8] = ["black", "red", "green", "yellow", "blue", "magenta", "cyan", "white"];

#[derive(PartialEq, Debug)]
enum Want {
    Is(Col),
    Overflow,
    BadHex,
    /// rejected, with an error the documentation leaves open
    Rejected,
    /// not specified
    Open,
}

/// The documented language, written from the documentation
fn want(s: &str) -> Want {
    if let Some(h) = s.strip_prefix('#') {
        let len = h.chars().count();
        if !h.is_ascii() || ![1, 2, 6].contains(&len) {
            return Want::Rejected;
        }
        if !h.chars().all(|c| c.is_ascii_hexdigit()) {
            return Want::BadHex;
        }
        let v = u32::from_str_radix(h, 16).unwrap();
        return Want::Is(if len == 6 {
            Col::Rgb((v >> 16) as u8, (v >> 8) as u8, v as u8)
        } else {
            Col::Xterm(v as u8)
        });
    }
    if (1..=3).contains(&s.len()) && s.chars().all(|c| c.is_ascii_digit()) {
        return match s.parse::<u16>().unwrap() {
            n @ 0..=255 => Want::Is(Col::Xterm(n as u8)),
            _ => Want::Overflow,
        };
    }
    let (bright, name) = match s.strip_prefix("bright ") {
        Some(n) => (8, n),
        None => (0, s),
    };
    if let Some(i) = NAMES.iter().position(|n| *n == name) {
        return Want::Is(Col::Ansi(i as u8 + bright));
    }
    match (bright, name) {
        (0, "purple") => Want::Is(Col::Ansi(5)),
        (8, "purple") => Want::Open,
        _ => Want::Rejected,
    }
}

fn check_str(s: &str) -> Result<Info, String> {
    let got = s.parse::<Color>();
    let w = want(s);
    let good = match (&w, &got) {
        (Want::Is(c), Ok(g)) => c.color() == *g,
        (Want::Overflow, Err(ParseColorError::U8Overflow)) => true,
        (Want::BadHex, Err(ParseColorError::InvalidHexDigit)) => true,
        (Want::Rejected, Err(_)) => true,
        (Want::Open, _) => true,
        _ => false,
    };
    ensure!(good, "{s:?} parsed as {got:?}, want {w:?}");
    Ok(match w {
        Want::Is(Col::Rgb(..)) => Info { label: "rgb", nontrivial: true },
        Want::Is(Col::Xterm(_)) => Info { label: "xterm", nontrivial: true },
        Want::Is(_) => Info { label: "ansi", nontrivial: true },
        Want::Overflow => Info { label: "overflow", nontrivial: true },
        Want::BadHex => Info { label: "bad hex digit", nontrivial: true },
        _ => Info {
            label: "rejected",
            // rejected, but of a length or a start that some accepted string has
            nontrivial: s.starts_with('#') || s.starts_with("bright") || (1..=14).contains(&s.len()),
        },
    })
}

fn check(s: &String) -> Result<Info, String> {
    check_str(s)
}

fn name() -> impl Strategy<Value = String> {
    (0usize..10, any::<bool>()).prop_map(|(i, b)| {
        let n = NAMES.get(i).copied().unwrap_or(if i == 8 { "purple" } else { "default" });
        format!("{}{n}", if b { "bright " } else { "" })
    })
}

/// a string accepted by the parser, or one from its immediate surroundings
fn seed() -> impl Strategy<Value = String> {
    let hex = prop::sample::select(b"0123456789abcdefABCDEF".to_vec());
    prop_oneof![
        3 => prop::collection::vec(hex, 1..9).prop_map(|v| format!("#{}", String::from_utf8(v).unwrap())),
        2 => (0u16..1100).prop_map(|n| n.to_string()),
        1 => (0u16..1100, 1usize..5).prop_map(|(n, w)| format!("{n:0w$}")),
        3 => name(),
        1 => prop::sample::select(vec![
            "grey", "gray", "bright", "bright ", "orange", "pink", "#", "#ff", "rgb", "aqua", "Red", "bright bright red",
            "bright  red", "bright\tred", "bright-red", "brightred", "light red", "dark red", "red bright", "0x1f", "#0x1f",
            "#+f", "#-1", "+1", "-1", "+12", "1e2", "256", "999", "1_0", " 12", "12 ", "٣", "１２", "#ｆｆ", "#éé", "#ééé",
            "#fé", "#€€", "#a€€a", "#😀ff", "#😀", "éa", "ré", "bläck",
        ]).prop_map(String::from),
    ]
}

/// What other programs accept as colors: words, and names with all sorts of prefixes and suffixes
fn dictionary() -> Vec<String> {
    let mut words: Vec<String> = [
        "grey", "gray", "orange", "pink", "brown", "violet", "indigo", "teal", "navy", "lime", "olive", "maroon",
        "silver", "gold", "aqua", "fuchsia", "turquoise", "none", "no", "nocolor", "no color", "default", "reset",
        "normal", "inherit", "initial", "transparent", "current", "currentcolor", "auto", "plain", "foreground",
        "background", "fg", "bg", "text", "bold", "dim", "bright", "light", "dark", "rgb", "ansi", "xterm", "css", "",
        "azul", "rouge", "rot", "k", "r", "g", "b", "y", "m", "c", "w", "blk", "blu", "grn", "mag", "cya", "whi",
    ]
    .map(String::from)
    .into();
    words.extend(NAMES.iter().chain(&["purple"]).map(|n| n.to_string()));
    let mut all = Vec::new();
    let pre = [
        "", "bright ", "bright", "bright_", "bright-", "bright\t", "bright  ", " bright ", "Bright ", "BRIGHT ", "brite ",
        "br ", "b", "br", "hi", "hi-", "high ", "intense ", "i", "light ", "light", "light-", "lt ", "dark ", "dark", "bold ",
        "bold-", "dim ", "faint ", "on ", "on_", "not ", "very ", "deep ", "pale ", "medium ", "ansi ", "ansi:", "ansi",
        "xterm ", "css ", "#", "0x", "\\", "@", "$", ":", "fg:", "bg:", "fg=", "color ", "color:", "\u{feff}", "the ",
        "bright bright ", "bright dark ", "bright light ", "dark bright ", "\u{a0}", "bright\u{a0}", "\"", "'", "(", "[",
    ];
    let post = [
        "", " ", "\n", "\t", "\r\n", "\0", "s", "ish", "y", "er", "0", "1", "-1", " 1", ";", ",", ".", ":", "!", "*", " bright",
        "bright", " light", "_bright", " bold", " text", " color", " on black", "on", "/", "\"", "'", ")", "]", "\u{a0}",
        "\u{301}", "\u{200b}", "\u{fe0f}",
    ];
    for w in &words {
        for p in pre {
            for q in post {
                all.push(format!("{p}{w}{q}"));
            }
            all.push(format!("{p}{}", w.to_uppercase()));
            let mut c = w.chars();
            all.push(format!("{p}{}{}", c.next().map_or(String::new(), |c| c.to_uppercase().to_string()), c.as_str()));
        }
        for v in &words {
            for sep in [" ", "", "-", "_", ",", ";", "/"] {
                all.push(format!("{w}{sep}{v}"));
            }
        }
    }
    for n in 0..=256u32 {
        for (p, q) in [
            ("color", ""), ("color ", ""), ("colour", ""), ("ansi", ""), ("ansi ", ""), ("ansi:", ""), ("xterm", ""), ("xterm ", ""),
            ("xterm:", ""), ("xterm-", ""), ("5;", ""), ("38;5;", ""), ("48;5;", ""), ("0x", ""), ("0X", ""), ("0b", ""), ("0o", ""), ("x", ""),
            ("\\x", ""), ("$", ""), ("%", ""), ("@", ""), ("u8 ", ""), ("", "u8"), ("", "i"), ("", "."), ("", ".0"), ("", "%"), ("", ","), ("", "_"),
            ("_", ""), ("+", ""), ("-", ""), (" ", ""), ("", " "), ("\t", ""), ("", "\n"), ("bright ", ""), ("bright", ""), ("#", " "), ("# ", ""),
            ("##", ""), ("", "#"), ("'", "'"), ("\"", "\""), ("(", ")"), ("[", "]"), ("#", "h"), ("", "h"), ("gray", ""), ("grey", ""),
        ] {
            all.push(format!("{p}{n}{q}"));
            all.push(format!("{p}{n:x}{q}"));
            all.push(format!("{p}{n:02X}{q}"));
        }
    }
    for (r, g, b) in [(0u8, 0u8, 0u8), (1, 2, 3), (255, 255, 255), (255, 0, 128), (18, 171, 205)] {
        for (open, sep, close) in [
            ("", ",", ""), ("", ", ", ""), ("", ";", ""), ("", " ", ""), ("", "/", ""), ("rgb(", ",", ")"), ("rgb(", ", ", ")"),
            ("RGB(", ",", ")"), ("rgb:", "/", ""), ("rgb ", " ", ""), ("2;", ";", ""), ("38;2;", ";", ""), ("(", ",", ")"), ("#", ",", ""),
        ] {
            all.push(format!("{open}{r}{sep}{g}{sep}{b}{close}"));
            all.push(format!("{open}{r:02x}{sep}{g:02x}{sep}{b:02x}{close}"));
        }
        for pre in ["", "0x", "0X", "##", "# ", "x", "$", "&h", "\u{ff03}", "#0x", "%23", "\\#", " #", "rgb", "rgb#"] {
            for post in ["", "ff", "00", "f", " ", "\n", ";", "h"] {
                all.push(format!("{pre}{r:02x}{g:02x}{b:02x}{post}"));
                all.push(format!("{pre}{r:02X}{g:02X}{b:02X}{post}"));
            }
        }
    }
    all.sort();
    all.dedup();
    all
}

pub fn run(mut ctx: Ctx) {
    // every ASCII string of up to three characters
    let n = 128u32;
    let short = (0..1 + n + n * n + n * n * n).map(move |mut k| {
        let mut s = String::new();
        let mut len = 0;
        let mut block = 1;
        while k >= block {
            k -= block;
            block *= n;
            len += 1;
        }
        for _ in 0..len {
            s.push((k % n) as u8 as char);
            k /= n;
        }
        s
    });
    ctx.exhaustive("short", short, check);
    // every 6-digit hex color, in three ways of writing the letters
    ctx.exhaustive("all_hex", 0..=0xffffu32, |hi: &u32| {
        for lo in 0..=0xffu32 {
            let v = hi << 8 | lo;
            let lower = format!("#{v:06x}");
            let s = match v % 3 {
                0 => lower,
                1 => format!("#{v:06X}"),
                _ => {
                    let m = v.wrapping_mul(0x9E3779B1);
                    lower
                        .chars()
                        .enumerate()
                        .map(|(i, c)| if m >> (i + 8) & 1 == 1 { c.to_ascii_uppercase() } else { c })
                        .collect()
                }
            };
            check_str(&s)?;
        }
        ok(true)
    });
    // one wrong character at each position of a hex color
    let mut one_bad = Vec::new();
    for base in ["#000000", "#ffffff", "#12aBcD", "#90EF5a"] {
        for i in 0..7 {
            for c in (0..128u8).map(char::from).chain(['é', '€', '😀', '\u{a0}', '\u{ff11}']) {
                let mut v: Vec<char> = base.chars().collect();
                v[i] = c;
                one_bad.push(v.iter().collect::<String>());
                // the same character filling exactly the bytes of several digits
                let w = c.len_utf8();
                if w > 1 && i + w <= 7 {
                    let mut v: Vec<char> = base.chars().collect();
                    v.splice(i..i + w, [c]);
                    one_bad.push(v.iter().collect::<String>());
                }
            }
        }
    }
    ctx.exhaustive("one_bad_digit", one_bad.into_iter(), check);
    // everything at edit distance one of an accepted name, and all case patterns
    let mut near = Vec::new();
    for n in NAMES.iter().chain(&["purple", "default"]) {
        for full in [n.to_string(), format!("bright {n}")] {
            near.extend(neighbours(full.as_bytes(), 128).into_iter().map(|b| String::from_utf8(b).unwrap()));
            for m in 0..1u64 << n.len() {
                let shift = full.len() - n.len();
                near.push(String::from_utf8(apply(full.clone().into(), &Edit::Case(m << shift))).unwrap());
            }
        }
    }
    let mut far = Vec::new();
    for n in NAMES.iter().chain(&["purple"]) {
        far.extend(partial(n.as_bytes(), true));
        far.extend(wrapping(n.as_bytes()));
        let full = format!("bright {n}");
        far.extend(partial(full.as_bytes(), false));
        far.extend(wrapping(full.as_bytes()));
        let mut orders = partial(n.as_bytes(), true);
        for o in &mut orders {
            o.splice(0..0, *b"bright ");
        }
        far.extend(orders);
    }
    for n in ["0", "7", "12", "99", "123", "255", "256", "#1", "#f", "#0F", "#a9", "#123456", "#fFffFf"] {
        far.extend(partial(n.as_bytes(), n.len() < 7));
        far.extend(wrapping(n.as_bytes()));
    }
    far.sort();
    far.dedup();
    ctx.exhaustive("far_from_names", far.into_iter().map(|b| String::from_utf8(b).unwrap()), check);
    for n in vcore::model::XTERM_NAMES.iter().chain(&vcore::model::CSS_NAMES) {
        near.push(n.to_string());
        near.push(n.to_lowercase());
        near.push(format!("bright {}", n.to_lowercase()));
    }
    ctx.exhaustive("near_names", near.into_iter(), check);
    ctx.exhaustive("dictionary", dictionary().into_iter(), check);
    let mut like: Vec<&str> = vec!["0", "12", "99", "135", "255", "256", "#1", "#f", "#0d", "#a9", "#123456", "#fdecba", "purple", "bright blue"];
    like.extend(NAMES);
    let like = alikes(&like).into_iter();
    // every character, in the place of a digit
    let odd = (0x80u32..=0x10ffff).filter_map(char::from_u32).flat_map(|c| {
        [format!("{c}"), format!("#{c}"), format!("1{c}"), format!("#{c}e"), format!("#4{c}"), format!("20{c}")]
    });
    ctx.exhaustive("alikes", like.chain(odd), check);
    // #rgb and #rgba as in CSS, and longer decimal numbers
    let hex = b"0123456789abcdefABCDEF";
    let css = (0..22u32.pow(4) * 2).map(move |k| {
        let mut n = k >> 1;
        let mut v = vec![b'#'];
        for _ in 0..3 + (k & 1) {
            v.push(hex[(n % 22) as usize]);
            n /= 22;
        }
        String::from_utf8(v).unwrap()
    });
    ctx.exhaustive("short_hex", css, check);
    let numbers = (1usize..6).flat_map(|w| (0..10u32.pow(w as u32)).map(move |n| format!("{n:0w$}")));
    ctx.exhaustive("numbers", numbers, check);
    let edited = (seed(), prop::collection::vec(edit(), 0..4)).prop_map(|(s, es)| {
        let b = es.iter().fold(s.into_bytes(), apply);
        String::from_utf8(b).unwrap_or_else(|e| String::from_utf8_lossy(e.as_bytes()).into_owned())
    });
    ctx.prop("edited", 1_500_000, 40_000_000, edited, check);
    let any = prop_oneof![
        2 => any::<String>(),
        2 => prop::collection::vec(any::<char>(), 0..9).prop_map(|v| v.into_iter().collect::<String>()),
        2 => prop::collection::vec(any::<char>(), 0..7).prop_map(|v| v.into_iter().fold(String::from("#"), |mut s, c| { s.push(c); s })),
        1 => "[0-9]{1,6}",
        1 => "#[0-9a-fA-F]{0,10}",
        1 => "(bright )?[a-z]{3,8}",
    ];
    ctx.prop("any", 200_000, 8_000_000, any, check);
    ctx.finish()
}
