pub mod sig;
pub mod util;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c27;
mod c28;
mod c29;
pub mod c31;
mod c32;
mod c33;
mod c34;
pub fn run(id: &str, ctx: &mut crate::framework::Ctx) -> bool {
    match id {
        "C01" => c01::run(ctx),
        "C02" => c02::run(ctx),
        "C03" => c03::run(ctx),
        "C04" => c04::run(ctx),
        "C05" => c05::run(ctx),
        "C06" => c06::run(ctx),
        "C07" => c07::run(ctx),
        "C08" => c08::run(ctx),
        "C09" => c09::run(ctx),
        "C10" => c10::run(ctx),
        "C11" => c11::run(ctx),
        "C12" => c12::run(ctx),
        "C13" => c13::run(ctx),
        "C14" => c14::run(ctx),
        "C15" => c15::run(ctx),
        "C16" => c16::run(ctx),
        "C17" => c17::run(ctx),
        "C18" => c18::run(ctx),
        "C21" => c21::run(ctx),
        "C22" => c22::run(ctx),
        "C23" => c23::run(ctx),
        "C24" => c24::run(ctx),
        "C27" => c27::run(ctx),
        "C28" => c28::run(ctx),
        "C29" => c29::run(ctx),
        "C32" => c32::run(ctx),
        "C33" => c33::run(ctx),
        "C34" => c34::run(ctx),
        "C25" => c25::run(ctx),
        _ => return false,
    }
    true
}
