//! C07: the mode from the environment

use crate::model::*;
use crate::op::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use vcore::model::*;
use vcore::run::*;

fn step(op: Op) -> Step {
    Step { op, thread: false }
}

const VALUES: [Option<&[u8]>; 4] = [None, Some(b"0"), Some(b""), Some(b"1")];

fn value() -> impl Strategy<Value = Option<Vec<u8>>> {
    let listed: Vec<&'static [u8]> = vec![
        b"", b"0", b"1", b"00", b" 0", b"0 ", b"0\n", b"-0", b"+0", b"0x0", b"0.0", b"false", b"no", b"off",
        b"never", b"always", b"true", b"\xff", b"0\xff", b"\xc3\x28", b"\xef\xbb\xbf0", b"O", "\u{ff10}".as_bytes(),
        b"2", b"10", b"01",
    ];
    prop_oneof![
        2 => Just(None),
        3 => Just(Some(b"0".to_vec())),
        5 => select(listed).prop_map(|v| Some(v.to_vec())),
        1 => vec(1u8..=255, 0..6).prop_map(Some),
        1 => (select(vec![b'0', b'1', b' ', b'x', 0xff]), 2usize..600).prop_map(|(b, n)| Some(vec![b; n])),
    ]
}
fn name() -> impl Strategy<Value = String> {
    prop_oneof![
        6 => select(MODE_VARS.to_vec()).prop_map(String::from),
        1 => select(vec![
            "no_color", "No_Color", "NO_COLOUR", "NOCOLOR", "NO_COLOR_", "_NO_COLOR", "COLOR", "always_color",
            "ALWAYS_COLOUR", "ALWAYSCOLOR", "CLICOLOR", "CLI_COLOR_FORCE", "clicolor_force", "CLICOLORFORCE",
            "FORCE_COLOUR", "force_color", "FORCECOLOR", "COLOR_FORCE", "TERM", "COLORTERM", "CI", "NEVER_COLOR",
            "COLORZ", "NO_COLORS",
        ])
        .prop_map(String::from),
    ]
}

fn judge(cfg: Cfg, steps: &[Step]) -> Result<Info, String> {
    let m = history(cfg, steps)?;
    let set = m.env.iter().any(|(k, _)| MODE_VARS.contains(&k.as_str()));
    let asked = steps.iter().any(|s| matches!(s.op, Op::SetFromEnv | Op::FromEnv));
    ok_as(
        match env_mode(&m.env) {
            Some(M::Never) => "never",
            Some(_) => "always",
            None => "nothing",
        },
        set && asked,
    )
}

pub fn run(mut ctx: Ctx) {
    let cfg = Cfg::parse(&ctx.config);
    let all = (0..256usize).flat_map(|n| {
        MODES.into_iter().flat_map(move |m| {
            // also: the value of one more, misspelt variable
            let mut v = vec![step(Op::SetMode(m))];
            for (i, name) in MODE_VARS.iter().enumerate() {
                if let Some(val) = VALUES[n >> (2 * i) & 3] {
                    v.push(step(Op::Env(name.to_string(), Some(val.to_vec()))));
                }
            }
            v.extend([Op::FromEnv, Op::GetMode, Op::SetFromEnv, Op::GetMode, Op::FromEnv].map(step));
            [v]
        })
    });
    ctx.exhaustive("assignments", all, |c| judge(cfg, c));
    // every short value, and the words that other programs take for a refusal
    let words = [
        "false", "no", "off", "never", "none", "null", "nil", "disable", "disabled", "f", "n", "unset", "auto", "detect",
        "always", "true", "yes", "on", "t", "y", "color", "nocolor", "zero", "one", "nan", "inf", "empty", "default",
        "undefined", "negative", "enabled", "enable", "force", "ansi", "256", "16m", "truecolor", "000", "0000", "0b0",
        "0o0", "0u8", "0,0", "0;", "00.00", "1-1", "\"0\"", "'0'", "0.", ".0", "0e0", "-1", "\u{200b}0", "\u{660}", "\u{2070}",
    ];
    let mut values: Vec<Vec<u8>> = (1..=255).map(|b| vec![b]).collect();
    values.extend((1..=255u8).flat_map(|b| [vec![b'0', b], vec![b, b'0']]));
    for w in words {
        let mut title = w.to_string();
        if w.is_ascii() {
            title[..1].make_ascii_uppercase();
        }
        values.extend([w.to_string(), w.to_uppercase(), title, format!(" {w}"), format!("{w} ")].map(String::into_bytes));
    }
    let values = MODE_VARS.into_iter().flat_map(|name| {
        values.clone().into_iter().map(move |v| {
            let mut s = vec![step(Op::SetMode(M::Detect)), step(Op::Env(name.to_string(), Some(v)))];
            s.extend([Op::FromEnv, Op::SetFromEnv, Op::GetMode].map(step));
            s
        })
    });
    ctx.exhaustive("values", values, |c| judge(cfg, c));
    let env = || (name(), value()).prop_map(|(n, v)| Op::Env(n, v));
    let op = prop_oneof![
        5 => env(),
        2 => Just(Op::FromEnv),
        3 => Just(Op::SetFromEnv),
        2 => Just(Op::GetMode),
        1 => Just(Op::GetDefault),
        1 => mode().prop_map(Op::SetMode),
        1 => stream().prop_map(Op::SetDefault),
        1 => query(),
    ];
    ctx.prop("history", 24_000, 800_000, vec(with_thread(op), 1..20), |c| judge(cfg, c));
    // one assignment, then every way of reading it
    let one = (vec(env(), 0..6), mode(), stream()).prop_map(|(env, m, s)| {
        let mut v: Vec<Step> = vec![step(Op::SetMode(m)), step(Op::SetDefault(s))];
        v.extend(env.into_iter().map(step));
        v.extend([Op::FromEnv, Op::SetFromEnv, Op::GetMode, Op::GetDefault, Op::Ask(None, vec![C::Ansi])].map(step));
        v
    });
    ctx.prop("assignment", 24_000, 800_000, one, |c| judge(cfg, c));
    ctx.finish()
}
