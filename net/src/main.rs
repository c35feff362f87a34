use kit as _;
mod life;
mod qsim;
mod quic;
mod rig;
mod said;
mod set;
mod sync;
mod loss;
mod msgs;
mod tk;
mod tls;
mod trans;
mod trust;

#[global_allocator]
static A: kit::alloc::Counting = kit::alloc::Counting;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C25" => quic::c25(),
        "C26" => life::c26(),
        "C24" => quic::c24(),
        "C27" => tls::c27(),
        "C28" => sync::c28(),
        "C29" => loss::c29(),
        "C30" => msgs::c30(),
        "C40" => said::c40(),
        "C41" => trust::c41(),
        "C42" => set::c42(),
        "C43" => trans::c43(),
        x => {
            eprintln!("unknown property {x}");
            std::process::exit(3)
        }
    }
}
