#[global_allocator]
static HEAP: xvcore::meter::Meter = xvcore::meter::Meter;

fn main() {
    let _ = xvcore::engine::PROGRAM.set(xorca_staking_program::entrypoint::process_instruction);
    let (ctx, _args) = xvcore::report::Ctx::from_env();
    std::process::exit(xvcore::checks::dispatch(&ctx));
}
