//! What a history of operations may answer.

use crate::client::{ask, unhex};
use crate::op::*;
use std::collections::{BTreeMap, BTreeSet};
use vcore::ensure;
use vcore::model::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cfg {
    pub std: bool,
    pub sc: bool,
    pub strip: bool,
}
impl Cfg {
    pub fn parse(name: &str) -> Cfg {
        let has = |f| name.split('+').any(|x| x == f);
        Cfg { std: has("std"), sc: has("supports-color"), strip: has("strip-colors") }
    }
    pub fn env(&self) -> bool {
        self.std || self.sc
    }
}

/// for stdout and stderr: is it a terminal, and the color level supports-color gives it
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct World {
    pub tty: [bool; 2],
    pub level: [u8; 2],
}
impl World {
    pub fn parse(s: &str) -> Result<World, String> {
        let d: Vec<u8> = s.bytes().map(|b| b.wrapping_sub(b'0')).collect();
        ensure!(d.len() == 4 && d.iter().all(|x| *x < 8), "unexpected world {s}");
        Ok(World { tty: [d[0] == 1, d[1] == 1], level: [d[2], d[3]] })
    }
    /// what detection can find out about a stream
    pub fn support(&self, cfg: Cfg, i: usize) -> u8 {
        if cfg.sc { self.level[i] } else { u8::from(self.tty[i]) }
    }
}

/// Are these kinds (a set of level bits) colored with this support?  `None`: not specified
pub fn supported(cfg: Cfg, support: u8, need: u8) -> Option<bool> {
    if !cfg.env() {
        Some(true)
    } else if !cfg.sc {
        Some(support != 0)
    } else if need == 0 && support == 0 {
        // no color kinds in use on a stream without color: the documentation says nothing
        None
    } else {
        Some(support & need == need)
    }
}

pub fn env_mode(env: &BTreeMap<String, Vec<u8>>) -> Option<M> {
    let on = |n: &str| env.get(n).is_some_and(|v| v != b"0");
    if on("NO_COLOR") {
        Some(M::Never)
    } else if on("ALWAYS_COLOR") || on("CLICOLOR_FORCE") || on("FORCE_COLOR") {
        Some(M::Always)
    } else {
        None
    }
}

pub struct Model {
    pub cfg: Cfg,
    pub mode: M,
    pub default: S,
    pub env: BTreeMap<String, Vec<u8>>,
    /// per stream, what may have been found out and kept (`None`: nothing yet)
    kept: [BTreeSet<Option<u8>>; 2],
    pub detections: u32,
    pub repeated: u32,
}

impl Model {
    pub fn new(cfg: Cfg) -> Model {
        let fresh = BTreeSet::from([None]);
        Model {
            cfg,
            mode: M::Detect,
            default: S::Always,
            env: BTreeMap::new(),
            kept: [fresh.clone(), fresh],
            detections: 0,
            repeated: 0,
        }
    }

    /// The documented precedence, up to detection
    pub fn direct(&self, stream: Option<S>) -> Option<bool> {
        if self.cfg.strip {
            return Some(false);
        }
        match self.mode {
            M::Always => return Some(true),
            M::Never => return Some(false),
            M::Detect => {}
        }
        match stream.unwrap_or(self.default) {
            S::Always => Some(true),
            S::Never => Some(false),
            _ if !self.cfg.env() => Some(true),
            _ => None,
        }
    }

    /// Check one decision, and keep what it shows
    pub fn decided(&mut self, stream: Option<S>, need: u8, w: World, got: bool) -> Result<(), String> {
        if let Some(want) = self.direct(stream) {
            ensure!(
                got == want,
                "the decision was {got}, want {want} (mode {:?}, stream {stream:?}, default {:?})",
                self.mode,
                self.default
            );
            return Ok(());
        }
        self.detections += 1;
        let i = usize::from(stream.unwrap_or(self.default) == S::Stderr);
        let now = w.support(self.cfg, i);
        if !self.kept[i].contains(&None) {
            self.repeated += 1;
        }
        let mut next = BTreeSet::new();
        for h in &self.kept[i] {
            let v = h.unwrap_or(now);
            match supported(self.cfg, v, need) {
                Some(want) if want != got => continue,
                _ => {}
            }
            next.insert(Some(v));
            if self.cfg.sc && need == 0 {
                // answering does not take a detection
                next.insert(*h);
            }
        }
        ensure!(
            !next.is_empty(),
            "detection for {} with color kinds {need:#05b} answered {got}; the stream's support is {now:#b}, or {:?} when first found out",
            ["stdout", "stderr"][i],
            self.kept[i]
        );
        self.kept[i] = next;
        // the other stream may have been looked at on this occasion
        let o = 1 - i;
        if self.kept[o].contains(&None) {
            self.kept[o].insert(Some(w.support(self.cfg, o)));
        }
        Ok(())
    }

    /// Check what a styled value printed; `None` when that does not show the decision
    pub fn printed(text: &str, apply: &str, clear: &str) -> Result<Option<bool>, String> {
        let styled = format!("{apply}text{clear}");
        if styled == "text" {
            ensure!(text == "text", "a plain value printed {text:?}");
            return Ok(None);
        }
        match text {
            "text" => Ok(Some(false)),
            _ if text == styled => Ok(Some(true)),
            _ => Err(format!("printed {text:?}, neither the bare text nor {styled:?}")),
        }
    }

    pub fn step(&mut self, op: &Op, reply: &str) -> Result<(), String> {
        ensure!(!reply.ends_with("PANIC"), "{op:?} panicked");
        match op {
            Op::SetMode(m) => self.mode = *m,
            Op::SetDefault(s) => self.default = *s,
            Op::SetFromEnv => {
                if let (true, Some(m)) = (self.cfg.env(), env_mode(&self.env)) {
                    self.mode = m;
                }
            }
            Op::FromEnv => {
                let want = match env_mode(&self.env) {
                    Some(m) if self.cfg.env() => m_ch(m),
                    _ => '-',
                };
                ensure!(
                    reply == want.to_string(),
                    "Mode::from_env gave {reply}, want {want} in {:?}",
                    show_env(&self.env)
                );
            }
            Op::GetMode => {
                let got = m_of(reply)?;
                let want = if self.cfg.strip { M::Never } else { self.mode };
                ensure!(got == want, "the mode reads {got:?}, want {want:?}");
            }
            Op::GetDefault => {
                let got = s_of(reply)?;
                ensure!(got == self.default, "the default stream reads {got:?}, want {:?}", self.default);
            }
            Op::Ask(s, kinds) => {
                let (w, r) = reply.split_once('/').ok_or("reply")?;
                let need = kinds.iter().fold(0, |n, c| n | c.need());
                self.decided(*s, need, World::parse(w)?, r == "1")?;
            }
            Op::Decide(s, y) => {
                let (w, r) = reply.split_once('/').ok_or("reply")?;
                self.decided(*s, y.need(), World::parse(w)?, r == "1")?;
            }
            Op::Print(s, y) => {
                let p: Vec<&str> = reply.split('/').collect();
                ensure!(p.len() == 5, "reply {reply}");
                let w = World::parse(p[0])?;
                let before = &p[1][..1] == "1";
                self.decided(*s, y.need(), w, before)?;
                let (text, apply, clear) = (unhex(p[2]), unhex(p[3]), unhex(p[4]));
                if let Some(colored) = Model::printed(&text, &apply, &clear)? {
                    ensure!(colored == before, "should_color said {before}, but it printed {text:?}");
                }
                ensure!(&p[1][1..] == &p[1][..1], "should_color changed its answer by printing");
            }
            Op::Raw(y) => {
                let (a, c) = reply.split_once('/').ok_or("reply")?;
                check_raw(y, &unhex(a), &unhex(c))?;
            }
            Op::Codes(c) => check_codes(*c, reply)?,
            Op::Env(n, Some(v)) => {
                self.env.insert(n.clone(), v.clone());
            }
            Op::Env(n, None) => {
                self.env.remove(n);
            }
            Op::Wire(..) | Op::World | Op::PrintOnly(..) | Op::Noise(..) | Op::Loud(..) | Op::Parse(_) | Op::Traces => {}
        }
        Ok(())
    }
}

pub fn show_env(e: &BTreeMap<String, Vec<u8>>) -> Vec<String> {
    e.iter().map(|(k, v)| format!("{k}={}", v.escape_ascii())).collect()
}

/// A style's own sequences put the terminal into the style's state and back
pub fn check_raw(y: &Sty, apply: &str, clear: &str) -> Result<(), String> {
    use vcore::term::{feed_pure, State};
    let d = y.desc();
    let mut st = State::DEFAULT;
    feed_pure(&mut st, apply)?;
    ensure!(st == d.applied(State::DEFAULT), "{apply:?} does not start {d:?}");
    feed_pure(&mut st, clear)?;
    ensure!(st == State::DEFAULT, "{clear:?} does not end {d:?}");
    Ok(())
}

pub fn check_codes(c: C, reply: &str) -> Result<(), String> {
    let col = c.col(0).unwrap();
    let codes: Vec<String> = reply.split('/').map(unhex).collect();
    ensure!(codes.len() >= 12 && codes.len() % 3 == 0, "reply {reply}");
    for t in codes.chunks(3) {
        for (code, layer) in t.iter().zip(LAYERS) {
            let want = format!("\x1b[{}m", col.args(layer));
            ensure!(*code == want, "{col:?} writes {code:?} for {layer:?}, want {want:?}");
        }
    }
    Ok(())
}

/// Run a history and check every answer in it
pub fn history(cfg: Cfg, steps: &[Step]) -> Result<Model, String> {
    let reply = ask(&format!("S {}", encode(steps)))?;
    let mut m = Model::new(cfg);
    let replies: Vec<&str> = reply.split(' ').collect();
    ensure!(steps.is_empty() || replies.len() == steps.len(), "{} answers to {} operations", replies.len(), steps.len());
    for (i, (s, r)) in steps.iter().zip(replies).enumerate() {
        m.step(&s.op, r).map_err(|e| format!("operation {i} ({}): {e}", s.op.enc()))?;
    }
    Ok(m)
}
