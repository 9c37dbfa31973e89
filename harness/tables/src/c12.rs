use colorz::{
    ansi::AnsiColor, css::CssColor, mode::ColorKind, rgb::RgbColor, xterm::XtermColor, Color, ColorSpec, ComptimeColor,
    NoColor, OptionalColor, WriteColor,
};
use vcore::model::*;
use vcore::run::*;
use vcore::{ensure, ensure_eq};
use vstatics::*;

fn runtime(col: &Col) -> Result<Info, String> {
    let c = col.color();
    let kind = col.kind().real();
    macro_rules! common {
        ($x:ident) => {
            ensure_eq!(Color::from($x), c, "{col:?} as Color");
            ensure_eq!(Option::<Color>::from($x), Some(c), "{col:?} as Option<Color>");
            ensure_eq!(WriteColor::color_kind($x), kind, "{col:?} kind by WriteColor");
            ensure_eq!(OptionalColor::color_kind($x), kind, "{col:?} kind by OptionalColor");
            ensure_eq!(OptionalColor::get($x), Some($x), "{col:?} get");
            ensure_eq!(OptionalColor::get(Some($x)), Some($x), "{col:?} get of Some");
        };
    }
    match c {
        Color::Ansi(x) => {
            common!(x);
            ensure_eq!(x.into_dynamic(), x, "{col:?} into_dynamic");
            ensure_eq!(<AnsiColor as ColorSpec>::KIND, kind, "AnsiColor KIND");
        }
        Color::Xterm(x) => {
            common!(x);
            ensure_eq!(x.into_dynamic(), x, "{col:?} into_dynamic");
            ensure_eq!(<XtermColor as ColorSpec>::KIND, kind, "XtermColor KIND");
        }
        Color::Css(x) => {
            common!(x);
            ensure_eq!(x.into_dynamic(), x, "{col:?} into_dynamic");
            ensure_eq!(<CssColor as ColorSpec>::KIND, kind, "CssColor KIND");
        }
        Color::Rgb(x) => {
            common!(x);
        }
    }
    ensure_eq!(WriteColor::color_kind(c), kind, "{col:?} kind of Color");
    ensure_eq!(OptionalColor::color_kind(c), kind, "{col:?} kind of Color by OptionalColor");
    ensure_eq!(OptionalColor::color_kind(Some(c)), kind, "{col:?} kind of Some(Color)");
    ensure_eq!(OptionalColor::color_kind(Some(Some(c))), kind, "{col:?} kind of Some(Some(Color))");
    ensure_eq!(OptionalColor::get(c), Some(c), "{col:?} get of Color");
    ensure_eq!(OptionalColor::get(Some(Some(c))), Some(c), "{col:?} get of Some(Some(Color))");
    ok(true)
}

fn absent(_: &u8) -> Result<Info, String> {
    ensure_eq!(<NoColor as ComptimeColor>::VALUE, None, "NoColor::VALUE");
    ensure_eq!(Option::<Color>::from(NoColor), None, "NoColor as Option<Color>");
    ensure!(OptionalColor::get(NoColor).is_none(), "NoColor gets a color");
    ensure_eq!(OptionalColor::color_kind(NoColor), ColorKind::NoColor, "kind of NoColor");
    ensure_eq!(OptionalColor::color_kind(None::<Color>), ColorKind::NoColor, "kind of None");
    ensure_eq!(OptionalColor::color_kind(Some(None::<Color>)), ColorKind::NoColor, "kind of Some(None)");
    ensure_eq!(OptionalColor::color_kind(Some(NoColor)), ColorKind::NoColor, "kind of Some(NoColor)");
    ensure_eq!(OptionalColor::get(Some(None::<Color>)), None, "Some(None)");
    ensure_eq!(OptionalColor::get(None::<Option<Color>>), None, "None");
    ok(true)
}

pub fn run(mut ctx: Ctx) {
    let rows = rows();
    ctx.exhaustive("compile_time", rows.iter().map(|r| r.col).enumerate(), |(i, col)| {
        let r = &rows[*i];
        for (route, got) in &r.conv {
            ensure_eq!(*got, Some(col.color()), "{col:?} by {route}");
        }
        for (route, got) in &r.kinds {
            ensure_eq!(*got, col.kind().real(), "kind of {col:?} by {route}");
        }
        ok(true)
    });
    let enums = (0..17).map(Col::Ansi).chain((0..=255).map(Col::Xterm)).chain((0..147).map(Col::Css));
    ctx.exhaustive("runtime", enums, runtime);
    ctx.exhaustive("absent", 0u8..1, absent);
    // codes and named xterm colors, both ways
    ctx.exhaustive("xterm_codes", 0..=255u8, |n: &u8| {
        let named = XTERM[*n as usize];
        ensure_eq!(XtermColor::from_code(*n), named, "from_code({n})");
        ensure_eq!(XtermColor::from(*n), named, "From<u8> of {n}");
        ensure_eq!(named as u8, *n, "code of {named:?}");
        ensure_eq!(named.args(), format!("5;{n}"), "arguments of {named:?}");
        for m in 0..=255u8 {
            ensure_eq!(XtermColor::from_code(m) == named, m == *n, "{named:?} and code {m}");
        }
        ok(true)
    });
    let xs = ansi_xterms();
    ctx.exhaustive("ansi_to_xterm", xs.iter().map(|x| (x.0, x.1.to_string())), |(i, route)| {
        let x = xs.iter().find(|x| x.0 == *i && x.1 == route).unwrap();
        ensure_eq!(x.2, XTERM[*i as usize], "{:?} by {route}", ANSI[*i as usize]);
        ok(true)
    });
    let vs = css_values();
    ctx.exhaustive("css_values", vs.iter().map(|x| (x.0, x.1.to_string())), |(i, route)| {
        let x = vs.iter().find(|x| x.0 == *i && x.1 == route).unwrap();
        let (red, green, blue) = CSS_REF[*i as usize];
        ensure_eq!(x.2, Some(Color::Rgb(RgbColor { red, green, blue })), "{} by {route}", CSS_NAMES[*i as usize]);
        ok(true)
    });
    ctx.exhaustive("all_rgb", 0..=0xffffu32, |rg: &u32| {
        for b in 0..=255u8 {
            runtime_rgb((rg >> 8) as u8, *rg as u8, b)?;
        }
        ok(true)
    });
    ctx.finish()
}

fn runtime_rgb(red: u8, green: u8, blue: u8) -> Result<(), String> {
    let x = RgbColor { red, green, blue };
    let c = Color::from(x);
    ensure!(
        matches!(c, Color::Rgb(RgbColor { red: r, green: g, blue: b }) if (r, g, b) == (red, green, blue)),
        "{x:?} as Color: {c:?}"
    );
    let o = Option::<Color>::from(x);
    ensure!(
        matches!(o, Some(Color::Rgb(RgbColor { red: r, green: g, blue: b })) if (r, g, b) == (red, green, blue)),
        "{x:?} as Option<Color>: {o:?}"
    );
    Ok(())
}
