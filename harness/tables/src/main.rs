//! Checks over names, codes, sets and builders: C09 C10 C11 C12 C13 C14 C21
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c21;

fn main() {
    let ctx = vcore::run::Ctx::from_args();
    match ctx.property.clone().as_str() {
        "C09" => c09::run(ctx),
        "C10" => c10::run(ctx),
        "C11" => c11::run(ctx),
        "C12" => c12::run(ctx),
        "C13" => c13::run(ctx),
        "C14" => c14::run(ctx),
        "C21" => c21::run(ctx),
        p => panic!("no property {p} here"),
    }
}
