//! Operations, their generators and their encoding for the worker.

use crate::client::hex;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use vcore::model::*;

/// the color of one slot of a style (or one entry of a list of color kinds)
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub enum C {
    No,
    Ansi,
    Xterm,
    Css,
    Rgb,
}
impl C {
    fn ch(self) -> char {
        match self {
            C::No => 'z',
            C::Ansi => 'a',
            C::Xterm => 'x',
            C::Css => 'c',
            C::Rgb => 'r',
        }
    }
    fn kind_ch(self) -> char {
        if self == C::Css { 'r' } else { self.ch() }
    }
    /// bit of the color level it needs
    pub fn need(self) -> u8 {
        match self {
            C::No => 0,
            C::Ansi => 1,
            C::Xterm => 2,
            C::Css | C::Rgb => 4,
        }
    }
    /// which of its colors; 0 is the one the worker also has at compile time
    pub fn col(self, tone: u16) -> Option<Col> {
        const CSS: [&str; 12] = [
            "Coral", "Black", "White", "Red", "Lime", "Blue", "AliceBlue", "YellowGreen", "Gray", "Gold", "RebeccaPurple", "Tan",
        ];
        Some(match self {
            C::No => return None,
            C::Ansi => Col::Ansi(((1 + u32::from(tone)) % 17) as u8),
            C::Xterm => Col::Xterm(122u8.wrapping_add(tone as u8)),
            C::Css => Col::Css(CSS_NAMES.iter().position(|n| *n == CSS[tone as usize % 12]).unwrap() as u8),
            C::Rgb => Col::Rgb(1u8.wrapping_add(tone as u8), 2u8.wrapping_add((tone >> 8) as u8), 3u8.wrapping_add((tone >> 4) as u8)),
        })
    }
}
pub const COLORS: [C; 5] = [C::No, C::Ansi, C::Xterm, C::Css, C::Rgb];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub enum Rep {
    /// compile-time color types
    Static,
    /// the color enums
    Dynamic,
    /// `Option<Color>`
    Runtime,
}
pub const REPS: [Rep; 3] = [Rep::Static, Rep::Dynamic, Rep::Runtime];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub struct Sty {
    pub rep: Rep,
    pub colors: [C; 3],
    /// a set of effects as in `Desc`
    pub fx: u16,
    /// which colors of these kinds (compile-time types have but one each)
    #[serde(default)]
    pub tone: u16,
}
impl Sty {
    pub fn enc(&self) -> String {
        let r = match self.rep {
            Rep::Static => 's',
            Rep::Dynamic => 'd',
            Rep::Runtime => 'o',
        };
        let [a, b, c] = self.colors.map(C::ch);
        format!("{r}{a}{b}{c}{:04x}{:04x}", self.fx, self.tone)
    }
    pub fn need(&self) -> u8 {
        self.colors.iter().fold(0, |n, c| n | c.need())
    }
    pub fn desc(&self) -> Desc {
        let tone = match self.rep {
            Rep::Static => [0; 3],
            Rep::Dynamic => [self.tone; 3],
            Rep::Runtime => [self.tone, self.tone.rotate_left(5), self.tone.rotate_left(11)],
        };
        let [fg, bg, ul] = [0, 1, 2].map(|i| self.colors[i].col(tone[i]));
        Desc { fg, bg, ul, fx: self.fx }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    SetMode(M),
    SetDefault(S),
    SetFromEnv,
    FromEnv,
    GetMode,
    GetDefault,
    /// mode::should_color
    Ask(Option<S>, Vec<C>),
    /// Style::should_color
    Decide(Option<S>, Sty),
    /// a styled value, and Style::should_color before and after
    Print(Option<S>, Sty),
    /// a styled value
    PrintOnly(Option<S>, Sty),
    /// the style's own start and end
    Raw(Sty),
    /// a color's own sequences
    Codes(C),
    /// connect stdout or stderr: tty, pipe, file, null, closed
    Wire(S, char),
    Env(String, Option<Vec<u8>>),
    World,
    /// something that must leave no trace
    Noise(char, Option<S>, Vec<u8>),
    /// the same, for what it writes
    Loud(char, Option<S>, Vec<u8>),
    /// a string as a color, a mode and a stream
    Parse(String),
    /// what was written to the streams, and the environment
    Traces,
}

fn s_ch(s: Option<S>) -> char {
    match s {
        None => '-',
        Some(S::Stdout) => 'o',
        Some(S::Stderr) => 'e',
        Some(S::Always) => 'a',
        Some(S::Never) => 'n',
    }
}
pub fn m_ch(m: M) -> char {
    match m {
        M::Detect => 'd',
        M::Always => 'a',
        M::Never => 'n',
    }
}
pub fn m_of(s: &str) -> Result<M, String> {
    match s {
        "d" => Ok(M::Detect),
        "a" => Ok(M::Always),
        "n" => Ok(M::Never),
        _ => Err(format!("a mode was read as {s}")),
    }
}
pub fn s_of(s: &str) -> Result<S, String> {
    match s {
        "o" => Ok(S::Stdout),
        "e" => Ok(S::Stderr),
        "a" => Ok(S::Always),
        "n" => Ok(S::Never),
        _ => Err(format!("a stream was read as {s}")),
    }
}

impl Op {
    pub fn enc(&self) -> String {
        match self {
            Op::SetMode(m) => format!("M{}", m_ch(*m)),
            Op::SetDefault(s) => format!("D{}", s_ch(Some(*s))),
            Op::SetFromEnv => "E".into(),
            Op::FromEnv => "F".into(),
            Op::GetMode => "G".into(),
            Op::GetDefault => "H".into(),
            Op::Ask(s, k) => format!("A{}{}", s_ch(*s), k.iter().map(|c| c.kind_ch()).collect::<String>()),
            Op::Decide(s, y) => format!("Y{}{}", s_ch(*s), y.enc()),
            Op::Print(s, y) => format!("P{}{}", s_ch(*s), y.enc()),
            Op::PrintOnly(s, y) => format!("Q{}{}", s_ch(*s), y.enc()),
            Op::Raw(y) => format!("R-{}", y.enc()),
            Op::Codes(c) => format!("K{}", c.ch()),
            Op::Wire(s, t) => format!("W{}{t}", if *s == S::Stdout { 1 } else { 2 }),
            Op::Env(n, Some(v)) => format!("V{}={}", hex(n.as_bytes()), hex(v)),
            Op::Env(n, None) => format!("V{}-", hex(n.as_bytes())),
            Op::World => "w".into(),
            Op::Noise(w, s, p) => format!("X{w}{}{}", s_ch(*s), hex(p)),
            Op::Loud(w, s, p) => format!("N{w}{}{}", s_ch(*s), hex(p)),
            Op::Parse(s) => format!("C{}", hex(s.as_bytes())),
            Op::Traces => "Z".into(),
        }
    }
    pub fn is_query(&self) -> bool {
        matches!(self, Op::Ask(..) | Op::Decide(..) | Op::Print(..) | Op::PrintOnly(..))
    }
    pub fn is_setting(&self) -> bool {
        matches!(self, Op::SetMode(_) | Op::SetDefault(_) | Op::SetFromEnv)
    }
}

/// an operation, and whether it is done by a thread of its own
#[derive(Clone, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub struct Step {
    pub op: Op,
    pub thread: bool,
}

pub fn encode(steps: &[Step]) -> String {
    steps
        .iter()
        .map(|s| if s.thread { format!("t{}", s.op.enc()) } else { s.op.enc() })
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn color() -> impl Strategy<Value = C> {
    select(COLORS.to_vec())
}
pub fn sty() -> impl Strategy<Value = Sty> {
    let tone = prop_oneof![1 => Just(0u16), 1 => any::<u16>()];
    (select(REPS.to_vec()), [color(), color(), color()], fx(), tone)
        .prop_map(|(rep, colors, fx, tone)| Sty { rep, colors, fx, tone })
}
pub fn opt_stream() -> impl Strategy<Value = Option<S>> {
    prop::option::weighted(0.6, stream())
}
fn kinds() -> impl Strategy<Value = Vec<C>> {
    let k = || select(vec![C::No, C::Ansi, C::Xterm, C::Rgb]);
    prop_oneof![
        12 => prop::collection::vec(k(), 0..5),
        // many kinds, one of which may stand out
        1 => (k(), k(), 0usize..40, 0usize..40).prop_map(|(a, b, n, i)| {
            let mut v = vec![a; n + 1];
            v[i % (n + 1)] = b;
            v
        }),
    ]
}
pub fn query() -> impl Strategy<Value = Op> {
    prop_oneof![
        (opt_stream(), kinds()).prop_map(|(s, k)| Op::Ask(s, k)),
        (opt_stream(), sty()).prop_map(|(s, y)| Op::Decide(s, y)),
        (opt_stream(), sty()).prop_map(|(s, y)| Op::Print(s, y)),
    ]
}

pub const MODE_VARS: [&str; 4] = ["NO_COLOR", "ALWAYS_COLOR", "CLICOLOR_FORCE", "FORCE_COLOR"];
/// the variables supports-color looks at
pub const TERM_VARS: [&str; 9] = [
    "NO_COLOR", "FORCE_COLOR", "CLICOLOR_FORCE", "CLICOLOR", "TERM", "COLORTERM", "TERM_PROGRAM",
    "IGNORE_IS_TERMINAL", "CI",
];
pub fn term_env() -> impl Strategy<Value = Op> {
    (
        select(TERM_VARS.to_vec()),
        select(vec![
            None,
            Some(""),
            Some("0"),
            Some("1"),
            Some("2"),
            Some("3"),
            Some("true"),
            Some("false"),
            Some("dumb"),
            Some("xterm"),
            Some("xterm-256color"),
            Some("truecolor"),
            Some("24bit"),
            Some("iTerm.app"),
            Some("Apple_Terminal"),
        ]),
    )
        .prop_map(|(n, v)| Op::Env(n.to_string(), v.map(|v| v.as_bytes().to_vec())))
}
pub fn wire() -> impl Strategy<Value = Op> {
    (select(vec![S::Stdout, S::Stderr]), select(vec!['t', 't', 't', 'p', 'f', 'n', 'c']))
        .prop_map(|(s, t)| Op::Wire(s, t))
}
pub fn setting() -> impl Strategy<Value = Op> {
    prop_oneof![mode().prop_map(Op::SetMode), stream().prop_map(Op::SetDefault)]
}
pub fn read() -> impl Strategy<Value = Op> {
    select(vec![Op::GetMode, Op::GetDefault])
}
pub fn with_thread(op: impl Strategy<Value = Op>) -> impl Strategy<Value = Step> {
    (op, prop::bool::weighted(0.15)).prop_map(|(op, thread)| Step { op, thread })
}
