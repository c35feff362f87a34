mod pb;
mod relay;

#[global_allocator]
static A: kit::alloc::Counting = kit::alloc::Counting;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C33" => pb::c33(),
        "C34" => relay::c34(),
        x => {
            eprintln!("unknown property {x}");
            std::process::exit(3)
        }
    }
}
