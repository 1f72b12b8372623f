mod ctl;
mod e2e;
mod h;
mod inv;
mod newton;
mod out;
mod problems;
mod roots;
mod start;
mod stats;
#[global_allocator]
static POOL: mcengine::Pool = mcengine::Pool;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let c = match id.as_str() {
        "I02" | "I03" | "I04" => ctl::check(&id),
        "I01" => out::i01(),
        "I06" | "I12" => newton::check(&id),
        "I05" => out::i05(),
        "I08" => start::i08(),
        "I09" => stats::i09(),
        "I11" => e2e::i11(),
        "I13" => inv::i13(),
        "I10" => problems::i10(),
        "I07" => roots::i07(),
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    };
    mcengine::main_check(c)
}
