use crate::util::*;
use colorz::{Color, Colorize, Style, StyledValue};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::{self, Formatter};
use vcore::ensure_eq;
use vcore::fmtspec::*;
use vcore::model::*;
use vcore::run::*;
use vcore::val::*;
use vstyles::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    /// outermost first
    layers: Vec<(StyleCase, Option<S>)>,
    val: Val,
    tr: Tr,
    spec: FmtSpec,
    mode: M,
    default: S,
}

fn nest(c: &Case, i: usize, tr: Tr, f: &mut Formatter<'_>) -> fmt::Result {
    let Some((style, stream)) = c.layers.get(i) else {
        return c.val.fmt(tr, f);
    };
    let body = |tr: Tr, f: &mut Formatter<'_>| nest(c, i + 1, tr, f);
    fmt_all(style, stream.map(S::real), &TV(&body), tr, f)
}

fn expected(c: &Case, layers: &[(StyleCase, Option<S>)], bare: &str) -> Result<(String, usize), String> {
    let (mut pre, mut post) = (String::new(), String::new());
    let mut n = 0;
    for (style, stream) in layers {
        style.with(|e| -> Result<(), String> {
            let on = decide(c.mode, *stream, c.default).unwrap_or_else(|| e.should_color(stream.map(S::real)));
            if on {
                pre.push_str(&start_of(e)?);
                post.insert_str(0, &end_of(e)?);
                n += usize::from(!style.desc().is_plain());
            }
            Ok(())
        })?;
    }
    Ok((format!("{pre}{bare}{post}"), n))
}

fn info(n: usize, total: usize) -> Result<Info, String> {
    Ok(Info {
        nontrivial: n > 0 && total > 1,
        label: match n {
            0 => "no colored layer",
            1 => "one colored layer",
            2 => "two colored layers",
            _ => "three or more colored layers",
        },
    })
}

fn stack(c: &Case) -> Result<Info, String> {
    set(c.mode, c.default);
    let Ok(bare) = c.spec.to_string(|f| c.val.fmt(c.tr, f)) else {
        return ok_as("the value itself fails", false);
    };
    let out = render(&c.spec, |f| nest(c, 0, c.tr, f))?;
    let (want, n) = expected(c, &c.layers, &bare)?;
    ensure_eq!(out, want, "nested output");
    info(n, c.layers.len())
}

fn unchanged<T>(
    v: &StyledValue<T, Option<Color>, Option<Color>, Option<Color>>,
    style: Style,
    stream: Option<colorz::mode::Stream>,
) -> Result<(), String> {
    ensure_eq!(v.style, style, "style of the wrapped layer");
    ensure_eq!(v.stream, stream, "stream of the wrapped layer");
    Ok(())
}

/// with the library's own wrapping methods
fn wrappers(c: &Case) -> Result<Info, String> {
    set(c.mode, c.default);
    let text = format!("{:?}", c.val);
    let l = |i: usize| c.layers[i % c.layers.len()];
    let st = |i: usize| l(i).0.desc().runtime();
    let sm = |i: usize| l(i).1.map(S::real);
    let spec = &c.spec;
    let bare = render(spec, |f| f.pad(&text))?;
    let dress = |i: usize| {
        let d = l(i).0.desc();
        (d.fg.map(Col::color), d.bg.map(Col::color), d.ul.map(Col::color), flags(d.fx))
    };

    let v1 = text.as_str().style_with(st(2)).stream_opt(sm(2));
    // by reference: `.style()` on a styled value wraps it
    let w = v1.style();
    ensure_eq!(w.style, Style::new(), "style of a fresh wrapper");
    ensure_eq!(w.stream, None, "stream of a fresh wrapper");
    unchanged(w.value, st(2), sm(2))?;
    let (f, b, u, e) = dress(1);
    let mut w = w.fg(f).bg(b).underline_color(u).stream_opt(sm(1));
    w.style.effects = e;
    unchanged(w.value, st(2), sm(2))?;
    ensure_eq!(w.style, st(1), "style of the wrapper");
    ensure_eq!(w.stream, sm(1), "stream of the wrapper");
    let two = [(as_dyn(&l(1).0), l(1).1), (as_dyn(&l(2).0), l(2).1)];
    let out = render(spec, |f| fmt::Display::fmt(&w, f))?;
    ensure_eq!(out, expected(c, &two, &bare)?.0, "two layers by reference");
    // by value, three deep
    let x = w.into_style();
    ensure_eq!(x.style, Style::new(), "style of a fresh owning wrapper");
    ensure_eq!(x.stream, None, "stream of a fresh owning wrapper");
    unchanged(&x.value, st(1), sm(1))?;
    unchanged(x.value.value, st(2), sm(2))?;
    let (f, b, u, e) = dress(0);
    let mut x = x.fg(f).bg(b).underline_color(u).stream_opt(sm(0));
    x.style.effects = e;
    unchanged(&x.value, st(1), sm(1))?;
    let three = [(as_dyn(&l(0).0), l(0).1), two[0], two[1]];
    let out = render(spec, |f| fmt::Display::fmt(&x, f))?;
    let (want, n) = expected(c, &three, &bare)?;
    ensure_eq!(out, want, "three layers by value");
    // a plain wrapper (nothing set on it) adds nothing
    let out = render(spec, |f| fmt::Display::fmt(&x.style(), f))?;
    ensure_eq!(out, want, "plain wrapper around three layers");
    let out = render(spec, |f| fmt::Display::fmt(&x.into_style(), f))?;
    ensure_eq!(out, want, "plain owning wrapper around three layers");
    // copies and references of layers are layers
    let y = StyledValue::new(&v1, st(0), sm(0));
    let out = render(spec, |f| fmt::Display::fmt(&&y, f))?;
    let two = [(as_dyn(&l(0).0), l(0).1), (as_dyn(&l(2).0), l(2).1)];
    ensure_eq!(out, expected(c, &two, &bare)?.0, "layers made with StyledValue::new");
    info(n, 3)
}

/// the same style held in `Option<Color>`s
fn as_dyn(s: &StyleCase) -> StyleCase {
    let d = s.desc();
    StyleCase::Cross { fg: Slot::OptDyn(d.fg), bg: Slot::OptDyn(d.bg), ul: Slot::OptDyn(d.ul), fx: d.fx }
}

/// styled values inside of each other and next to each other
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Node {
    Text(String),
    Val(Val, Tr),
    Styled(StyleCase, Option<S>, Vec<Node>),
    /// raw sequences of a style, written in between
    Raw(StyleCase),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Tree {
    root: Vec<Node>,
    spec: FmtSpec,
    mode: M,
    default: S,
}

fn draw(n: &Node, f: &mut Formatter<'_>) -> fmt::Result {
    match n {
        Node::Text(s) => f.write_str(s),
        Node::Val(v, tr) => v.fmt(*tr, f),
        Node::Raw(s) => s.with(|e| {
            e.apply(false, f)?;
            e.clear(true, f)
        }),
        Node::Styled(style, stream, inner) => {
            let body = |_: Tr, f: &mut Formatter<'_>| inner.iter().try_for_each(|n| draw(n, f));
            style.with(|e| e.display(stream.map(S::real), &TV(&body), f))
        }
    }
}

fn drawn(n: &Node, t: &Tree, out: &mut String, colored: &mut usize) -> Result<(), String> {
    match n {
        Node::Text(s) => out.push_str(s),
        Node::Val(v, tr) => out.push_str(&render(&t.spec, |f| v.fmt(*tr, f))?),
        Node::Raw(s) => s.with(|e| -> Result<(), String> {
            out.push_str(&start_of(e)?);
            out.push_str(&end_of(e)?);
            Ok(())
        })?,
        Node::Styled(style, stream, inner) => {
            let (on, start, end) = style.with(|e| {
                let on = decide(t.mode, *stream, t.default).unwrap_or_else(|| e.should_color(stream.map(S::real)));
                (on, start_of(e), end_of(e))
            });
            if on {
                *colored += usize::from(!style.desc().is_plain());
                out.push_str(&start?);
            }
            for n in inner {
                drawn(n, t, out, colored)?;
            }
            if on {
                out.push_str(&end?);
            }
        }
    }
    Ok(())
}

fn tree(t: &Tree) -> Result<Info, String> {
    set(t.mode, t.default);
    let (mut want, mut n) = (String::new(), 0);
    for x in &t.root {
        if drawn(x, t, &mut want, &mut n).is_err() {
            return ok_as("a value itself fails", false);
        }
    }
    let out = render(&t.spec, |f| t.root.iter().try_for_each(|n| draw(n, f)))?;
    ensure_eq!(out, want, "tree of styled values");
    info(n, 2)
}

fn node() -> impl Strategy<Value = Node> {
    let leaf = prop_oneof![
        2 => text(true).prop_map(Node::Text),
        2 => (val(true), tr()).prop_map(|(v, tr)| Node::Val(v, tr)),
        1 => style_case().prop_map(Node::Raw),
    ];
    leaf.prop_recursive(5, 20, 4, |inner| {
        let st = prop_oneof![1 => Just(None), 3 => stream().prop_map(Some)];
        (style_case(), st, prop::collection::vec(inner, 0..4)).prop_map(|(s, st, v)| Node::Styled(s, st, v))
    })
}

pub fn run(mut ctx: Ctx) {
    let st = || prop_oneof![1 => Just(None), 3 => stream().prop_map(Some)];
    let md = prop_oneof![5 => Just(M::Detect), 2 => Just(M::Always), 1 => Just(M::Never)];
    let depth = prop_oneof![15 => 1usize..6, 1 => 6usize..40];
    let layers = depth.prop_flat_map(move |n| prop::collection::vec((few(), st()), n));
    let s = (layers, val(true), tr(), spec(), md, stream())
        .prop_map(|(layers, val, tr, spec, mode, default)| Case { layers, val, tr, spec, mode, default })
        .boxed();
    ctx.prop("stack", 160_000, 3_000_000, s.clone(), stack);
    ctx.prop("wrappers", 80_000, 1_500_000, s, wrappers);
    let md = prop_oneof![5 => Just(M::Detect), 2 => Just(M::Always), 1 => Just(M::Never)];
    let t = (prop::collection::vec(node(), 1..4), spec(), md, stream())
        .prop_map(|(root, spec, mode, default)| Tree { root, spec, mode, default });
    ctx.prop("tree", 60_000, 1_500_000, t, tree);
    ctx.finish()
}
