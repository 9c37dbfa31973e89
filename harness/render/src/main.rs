//! Checks over rendered output: C01 C02 C03 C04 C15 C16 C17 C19 C20
mod c01;
mod c02;
mod c03;
mod c04;
mod c15;
mod c16;
mod c17;
mod c19;
mod c20;
mod util;

fn main() {
    let ctx = vcore::run::Ctx::from_args();
    // the environment's terminal description is a function of the shard, so that color
    // kinds matter to detection where the supports-color feature is on
    std::env::set_var("FORCE_COLOR", (ctx.shard % 4).to_string());
    for v in ["NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "ALWAYS_COLOR", "TERM", "COLORTERM", "CI"] {
        std::env::remove_var(v);
    }
    match ctx.property.clone().as_str() {
        "C01" => c01::run(ctx),
        "C02" => c02::run(ctx),
        "C03" => c03::run(ctx),
        "C04" => c04::run(ctx),
        "C15" => c15::run(ctx),
        "C16" => c16::run(ctx),
        "C17" => c17::run(ctx),
        "C19" => c19::run(ctx),
        "C20" => c20::run(ctx),
        p => panic!("no property {p} here"),
    }
}
