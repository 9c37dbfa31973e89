//! A strict model of the terminal: the byte stream is split into text and SGR sequences,
//! and the SGR sequences act on an explicit attribute state.

use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub enum TCol {
    Default,
    /// one of the 16 base colors, selected with 30-37/90-97 or 40-47/100-107
    Base(u8),
    /// 38/48/58;5;n
    Palette(u8),
    /// 38/48/58;2;r;g;b
    Rgb(u8, u8, u8),
}

/// bit `i` of `fx` is effect `i` of [`crate::model::EFFECTS`]
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub struct State {
    pub fg: TCol,
    pub bg: TCol,
    pub ul: TCol,
    pub fx: u16,
}

impl State {
    pub const DEFAULT: State = State {
        fg: TCol::Default,
        bg: TCol::Default,
        ul: TCol::Default,
        fx: 0,
    };
}

/// (code that starts effect i, code that ends it, effects ended by that code)
/// in the order of [`crate::model::EFFECTS`]; from ECMA-48 / xterm / mintty.
pub const FX: [(u16, u16, u16); 13] = [
    (1, 22, 0b11),
    (2, 22, 0b11),
    (3, 23, 0b100),
    (4, 24, 0b11000),
    (21, 24, 0b11000),
    (5, 25, 0b110_0000),
    (6, 25, 0b110_0000),
    (7, 27, 1 << 7),
    (8, 28, 1 << 8),
    (9, 29, 1 << 9),
    (53, 55, 1 << 10),
    (73, 75, 0b11 << 11),
    (74, 75, 0b11 << 11),
];

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ev<'a> {
    Text(&'a str),
    /// the parameters of one SGR sequence
    Sgr(&'a str),
}

/// Split into maximal text runs and SGR sequences.  Anything that starts with ESC and is
/// not `ESC [ digits-and-semicolons m` is an error.
pub fn split(s: &str) -> Result<Vec<Ev<'_>>, String> {
    let mut out = Vec::new();
    let mut rest = s;
    while let Some(i) = rest.find('\x1b') {
        if i > 0 {
            out.push(Ev::Text(&rest[..i]));
        }
        let r = &rest[i + 1..];
        let Some(r) = r.strip_prefix('[') else {
            return Err(format!("ESC not followed by '[' in {s:?}"));
        };
        let end = r
            .bytes()
            .position(|b| !(b.is_ascii_digit() || b == b';'))
            .ok_or_else(|| format!("unterminated escape sequence in {s:?}"))?;
        if r.as_bytes()[end] != b'm' {
            return Err(format!("malformed SGR sequence in {s:?}"));
        }
        out.push(Ev::Sgr(&r[..end]));
        rest = &r[end + 1..];
    }
    if !rest.is_empty() {
        out.push(Ev::Text(rest));
    }
    Ok(out)
}

/// Remove all escape sequences
pub fn strip(s: &str) -> Result<String, String> {
    Ok(split(s)?
        .into_iter()
        .filter_map(|e| match e {
            Ev::Text(t) => Some(t),
            Ev::Sgr(_) => None,
        })
        .collect())
}

fn num(p: &str) -> Result<u16, String> {
    if p.is_empty() {
        return Ok(0);
    }
    if p.len() > 3 {
        return Err(format!("SGR parameter {p:?} out of range"));
    }
    p.parse().map_err(|_| format!("bad SGR parameter {p:?}"))
}

fn byte(p: Option<&str>) -> Result<u8, String> {
    let p = p.ok_or("truncated color parameters")?;
    if p.is_empty() {
        return Err("empty color parameter".into());
    }
    u8::try_from(num(p)?).map_err(|_| format!("color parameter {p:?} exceeds 255"))
}

/// Apply one SGR parameter string
pub fn sgr(st: &mut State, params: &str) -> Result<(), String> {
    let mut it = params.split(';');
    while let Some(p) = it.next() {
        let n = num(p)?;
        match n {
            0 => *st = State::DEFAULT,
            30..=37 => st.fg = TCol::Base(n as u8 - 30),
            90..=97 => st.fg = TCol::Base(n as u8 - 90 + 8),
            40..=47 => st.bg = TCol::Base(n as u8 - 40),
            100..=107 => st.bg = TCol::Base(n as u8 - 100 + 8),
            39 => st.fg = TCol::Default,
            49 => st.bg = TCol::Default,
            59 => st.ul = TCol::Default,
            38 | 48 | 58 => {
                let c = match it.next() {
                    Some("5") => TCol::Palette(byte(it.next())?),
                    Some("2") => {
                        TCol::Rgb(byte(it.next())?, byte(it.next())?, byte(it.next())?)
                    }
                    x => return Err(format!("bad color space {x:?} after {n} in {params:?}")),
                };
                match n {
                    38 => st.fg = c,
                    48 => st.bg = c,
                    _ => st.ul = c,
                }
            }
            _ => {
                let mut known = false;
                for (i, (on, off, mask)) in FX.iter().enumerate() {
                    if n == *on {
                        st.fx |= 1 << i;
                        known = true;
                    }
                    if n == *off {
                        st.fx &= !mask;
                        known = true;
                    }
                }
                if !known {
                    return Err(format!("unknown SGR code {n} in {params:?}"));
                }
            }
        }
    }
    Ok(())
}

/// Feed a byte stream that must contain nothing but SGR sequences
pub fn feed_pure(st: &mut State, s: &str) -> Result<(), String> {
    // hand rolled (no intermediate Vec): this is the hot path
    let mut rest = s;
    while !rest.is_empty() {
        let Some(r) = rest.strip_prefix("\x1b[") else {
            return Err(format!("text outside of an escape sequence in {s:?}"));
        };
        let Some(end) = r.bytes().position(|b| !(b.is_ascii_digit() || b == b';')) else {
            return Err(format!("unterminated escape sequence in {s:?}"));
        };
        if r.as_bytes()[end] != b'm' {
            return Err(format!("malformed SGR sequence in {s:?}"));
        }
        sgr(st, &r[..end])?;
        rest = &r[end + 1..];
    }
    Ok(())
}

/// Feed any stream; returns each text run with the state it is displayed in
pub fn feed<'a>(st: &mut State, s: &'a str) -> Result<Vec<(&'a str, State)>, String> {
    let mut out = Vec::new();
    for e in split(s)? {
        match e {
            Ev::Text(t) => out.push((t, *st)),
            Ev::Sgr(p) => sgr(st, p)?,
        }
    }
    Ok(out)
}
