pub mod auth;
pub mod hist;
pub mod init;
pub mod point;
pub mod run;

use crate::report::Ctx;

pub fn dispatch(ctx: &Ctx) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    match ctx.prop.as_str() {
        "C01" => hist::c01(ctx),
        "C02" => hist::c02(ctx),
        "C03" => point::c03(ctx),
        "C04" => point::c04(ctx),
        "C05" => hist::c05(ctx),
        "C06" => point::c06(ctx),
        "C07" => hist::c07(ctx),
        "C08" => point::c08(ctx),
        "C09" => auth::c09(ctx),
        "C10" => auth::c10(ctx),
        "C11" => init::c11(ctx),
        "C12" => init::c12(ctx),
        "C13" => init::c13(ctx),
        "C14" => hist::c14(ctx),
        "C15" => auth::c15(ctx),
        "C16" => hist::c16(ctx),
        "C24" => point::c24(ctx),
        "C25" => hist::c25(ctx),
        "C27" => hist::c27(ctx),
        p => {
            eprintln!("unknown property {p}");
            64
        }
    }
}
