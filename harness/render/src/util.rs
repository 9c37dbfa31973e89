use colorz::mode;
use std::fmt::{self, Formatter};
use vcore::fmtspec::FmtSpec;
use vcore::model::{M, S};
use vcore::term;
use vstyles::Erased;

pub fn set(m: M, default: S) {
    mode::set_coloring_mode(m.real());
    mode::set_default_stream(default.real());
}

pub fn render(spec: &FmtSpec, g: impl FnOnce(&mut Formatter<'_>) -> fmt::Result) -> Result<String, String> {
    spec.to_string(g).map_err(|_| "formatting failed although the sink did not".to_string())
}

pub fn start_of(e: &dyn Erased) -> Result<String, String> {
    render(&FmtSpec::PLAIN, |f| e.apply(false, f))
}
pub fn end_of(e: &dyn Erased) -> Result<String, String> {
    render(&FmtSpec::PLAIN, |f| e.clear(false, f))
}

fn is_escapes(s: &str) -> bool {
    match term::split(s) {
        Ok(v) => v.iter().all(|e| matches!(e, term::Ev::Sgr(_))),
        Err(_) => false,
    }
}

/// `out` is `bare` with escape sequences in front and behind; returns whether there are any
pub fn surrounds(out: &str, bare: &str) -> Result<bool, String> {
    if out == bare {
        return Ok(false);
    }
    for i in 0..=out.len().saturating_sub(bare.len()) {
        if out.is_char_boundary(i)
            && out[i..].starts_with(bare)
            && is_escapes(&out[..i])
            && is_escapes(&out[i + bare.len()..])
        {
            return Ok(true);
        }
    }
    Err(format!("{out:?} is not {bare:?} between escape sequences"))
}
