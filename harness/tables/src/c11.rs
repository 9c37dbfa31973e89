use colorz::{Color, ColorSpec, WriteColor};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Write;
use vcore::fmtspec::*;
use vcore::model::*;
use vcore::run::*;
use vcore::{ensure, ensure_eq};
use vstatics::*;

fn check_codes(col: Col, codes: &[Code]) -> Result<(), String> {
    for (layer, escape, route, got) in codes {
        let a = col.args(*layer);
        let want = if *escape { format!("\x1b[{a}m") } else { a };
        ensure_eq!(*got, want, "{col:?} {layer:?} {} by {route}", if *escape { "escape" } else { "arguments" });
    }
    Ok(())
}

/// all routes to the codes of a runtime color
fn runtime(col: &Col) -> Result<Info, String> {
    let col = *col;
    let mut v = Vec::new();
    let c = col.color();
    macro_rules! inherent {
        ($x:ident) => {
            v.push((Layer::Fg, false, "inherent foreground_args", $x.foreground_args().into()));
            v.push((Layer::Bg, false, "inherent background_args", $x.background_args().into()));
            v.push((Layer::Ul, false, "inherent underline_args", $x.underline_args().into()));
            v.push((Layer::Fg, true, "inherent foreground_escape", $x.foreground_escape().into()));
            v.push((Layer::Bg, true, "inherent background_escape", $x.background_escape().into()));
            v.push((Layer::Ul, true, "inherent underline_escape", $x.underline_escape().into()));
            spec_codes($x, "ColorSpec", &mut v);
            write_codes($x, "WriteColor", &mut v);
            spec_codes($x.into_dynamic(), "ColorSpec of into_dynamic", &mut v);
        };
    }
    match c {
        Color::Ansi(x) => {
            inherent!(x);
        }
        Color::Xterm(x) => {
            inherent!(x);
            let Col::Xterm(n) = col else { unreachable!() };
            ensure_eq!(x.args(), format!("5;{n}"), "{col:?} args()");
        }
        Color::Css(x) => {
            inherent!(x);
            let Some(("38", rest)) = x.foreground_args().split_once(';') else {
                return Err(format!("{col:?} foreground arguments {:?}", x.foreground_args()));
            };
            ensure_eq!(x.args(), rest, "{col:?} args()");
        }
        Color::Rgb(x) => write_codes(x, "WriteColor", &mut v),
    }
    write_codes(c, "WriteColor of Color", &mut v);
    check_codes(col, &v)?;
    ok(true)
}

/// the writers under any format options: they write the code and nothing else
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Spec {
    col: Col,
    spec: FmtSpec,
}

fn with_options(c: &Spec) -> Result<Info, String> {
    let col = c.col.color();
    for (i, (l, e)) in [
        (Layer::Fg, false),
        (Layer::Bg, false),
        (Layer::Ul, false),
        (Layer::Fg, true),
        (Layer::Bg, true),
        (Layer::Ul, true),
    ]
    .into_iter()
    .enumerate()
    {
        let got = c
            .spec
            .to_string(|f| match i {
                0 => col.fmt_foreground_args(f),
                1 => col.fmt_background_args(f),
                2 => col.fmt_underline_args(f),
                3 => col.fmt_foreground(f),
                4 => col.fmt_background(f),
                _ => col.fmt_underline(f),
            })
            .map_err(|_| "an error into a working sink".to_string())?;
        let a = c.col.args(l);
        let want = if e { format!("\x1b[{a}m") } else { a };
        ensure_eq!(got, want, "{l:?}, escape {e}");
    }
    ok(!c.spec.is_plain())
}

pub fn run(mut ctx: Ctx) {
    let rows = rows();
    ctx.exhaustive("compile_time", rows.iter().map(|r| r.col).enumerate(), |(i, col)| {
        let r = &rows[*i];
        check_codes(*col, &r.codes)?;
        for (route, got) in &r.bare {
            // the arguments without the layer: what follows 38, 48 and 58
            let full = col.args(Layer::Fg);
            ensure_eq!(*got, full[3..].to_string(), "{col:?} {route}");
        }
        Ok(Info {
            nontrivial: true,
            label: match col {
                Col::Ansi(_) => "ansi",
                Col::Xterm(_) => "xterm",
                Col::Css(_) => "css",
                Col::Rgb(..) => "rgb",
            },
        })
    });
    let enums = (0..17).map(Col::Ansi).chain((0..=255).map(Col::Xterm)).chain((0..147).map(Col::Css));
    ctx.exhaustive("runtime", enums, runtime);
    // all 16.7 million RGB values; one case is 256 of them
    let dec: Vec<String> = (0..256).map(|i| i.to_string()).collect();
    ctx.exhaustive("all_rgb", 0..=0xffffu32, |rg: &u32| {
        let (r, g) = ((rg >> 8) as u8, *rg as u8);
        let (mut got, mut want) = (String::with_capacity(512), String::with_capacity(512));
        for b in 0..=255u8 {
            got.clear();
            want.clear();
            let x = colorz::rgb::RgbColor { red: r, green: g, blue: b };
            let c = Color::Rgb(x);
            macro_rules! all {
                ($($c:ident $m:ident)*) => {
                    FmtSpec::PLAIN.with(&mut got, |f| {
                        $($c.$m(f)?; f.write_char('\n')?;)*
                        Ok(())
                    })
                };
            }
            let done = all!(
                x fmt_foreground_args x fmt_background_args x fmt_underline_args
                x fmt_foreground x fmt_background x fmt_underline
                c fmt_foreground_args c fmt_background_args c fmt_underline_args
                c fmt_foreground c fmt_background c fmt_underline
            );
            ensure!(done.is_ok(), "rgb {r} {g} {b}: an error into a working sink");
            for _ in 0..2 {
                for (pre, post) in [("", "\n"), ("\x1b[", "m\n")] {
                    for l in ["38;2;", "48;2;", "58;2;"] {
                        for s in [pre, l, &dec[r as usize], ";", &dec[g as usize], ";", &dec[b as usize], post] {
                            want.push_str(s);
                        }
                    }
                }
            }
            ensure_eq!(got, want, "rgb {r} {g} {b}");
        }
        ok(true)
    });
    ctx.prop(
        "format_options",
        200_000,
        5_000_000,
        (col(), spec()).prop_map(|(col, spec)| Spec { col, spec }),
        with_options,
    );
    ctx.finish()
}
