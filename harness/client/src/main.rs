mod c18;
mod c19;
mod c20;

use xvcore::report::Ctx;

fn main() {
    let _ = xvcore::engine::PROGRAM.set(xorca_staking_program::entrypoint::process_instruction);
    let (ctx, _args) = Ctx::from_env();
    std::panic::set_hook(Box::new(|_| {}));
    let rc = match ctx.prop.as_str() {
        "C18" => c18::run(&ctx),
        "C19" => c19::run(&ctx),
        "C20" => c20::run(&ctx),
        p => {
            eprintln!("unknown property {p}");
            64
        }
    };
    std::process::exit(rc);
}
pub fn req(v: &[(&str, u64)]) -> Vec<(String, u64)> {
    v.iter().map(|(k, n)| (k.to_string(), *n)).collect()
}
