mod c21;
mod c22;
mod c23;
mod js;
mod scripts;

use xvcore::report::Ctx;

fn main() {
    let _ = xvcore::engine::PROGRAM.set(xorca_staking_program::entrypoint::process_instruction);
    let (ctx, _args) = Ctx::from_env();
    std::panic::set_hook(Box::new(|_| {}));
    let rc = match ctx.prop.as_str() {
        "C21" => c21::run(&ctx),
        "C22" => c22::run(&ctx),
        "C23" => c23::run(&ctx),
        "C26" => scripts::run(&ctx, false),
        "C28" => scripts::run(&ctx, true),
        p => {
            eprintln!("unknown property {p}");
            64
        }
    };
    std::process::exit(rc);
}
pub fn req(v: &[(&str, u64)]) -> Vec<(String, u64)> {
    v.iter().map(|(k, n)| (k.to_string(), *n)).collect()
}
