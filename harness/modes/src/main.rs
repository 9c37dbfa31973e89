//! Checks over histories of settings and queries: C05 C06 C07 C08 C18 C22 C23.  The code under test
//! runs in worker processes, one build of them per feature configuration.
mod c05;
mod c07;
mod c08;
mod c18;
mod c22;
mod c23;
mod client;
mod model;
mod op;

fn main() {
    let ctx = vcore::run::Ctx::from_args();
    match ctx.property.clone().as_str() {
        "C05" => c05::run05(ctx),
        "C06" => c05::run06(ctx),
        "C07" => c07::run(ctx),
        "C08" => c08::run(ctx),
        "C18" => c18::run(ctx),
        "C22" => c22::run(ctx),
        "C23" => c23::run(ctx),
        p => panic!("no property {p} here"),
    }
}
