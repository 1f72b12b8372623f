mod e2e;
mod lu;
mod newton;
mod norm;
mod rat;

#[global_allocator]
static POOL: mcengine::Pool = mcengine::Pool;

fn main() {
    let id = std::env::args().nth(1).expect("usage: mc_crates <property> [--replay space index]");
    let check = match id.as_str() {
        "L01" => lu::l01(),
        "L02" => lu::l02(),
        "L03" => lu::l03(),
        "L04" => lu::l04(),
        "L05" => lu::l05(),
        "L06" => lu::l06(),
        "N01" => newton::n01(),
        "N02" => newton::n02(),
        "N03" => newton::n03(),
        "N04" => newton::n04(),
        "N05" => newton::n05(),
        "N06" => newton::n06(),
        "N07" => e2e::n07(),
        "W01" => norm::w01(),
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    };
    mcengine::main_check(check)
}
