use kit as _;
mod blocking;
mod codec;
mod eng2;
mod legal;
mod misc;
mod mon;
mod sim;
mod track;

#[global_allocator]
static A: kit::alloc::Counting = kit::alloc::Counting;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C01" => codec::c01(),
        "C02" => codec::c02(),
        "C03" => codec::c03(),
        "C04" => codec::c04(),
        "C05" => codec::c05(),
        "C06" => codec::c06(),
        "C07" => codec::c07(),
        "C08" => mon::generic("C08"),
        "C09" => mon::generic("C09"),
        "C10" => mon::generic("C10"),
        "C11" => mon::generic("C11"),
        "C12" => mon::generic("C12"),
        "C13" => mon::generic("C13"),
        "C14" => mon::generic("C14"),
        "C15" => mon::generic("C15"),
        "C16" => mon::generic("C16"),
        "C17" => eng2::c17(),
        "C18" => eng2::c18(),
        "C19" => eng2::c19(),
        "C21" => eng2::c21(),
        "C20" => mon::generic("C20"),
        "C22" => misc::c22(),
        "C23" => misc::c23(),
        "C36" => misc::c36(),
        "C37" => misc::c37(),
        "C38" => legal::c38(),
        "C39" => blocking::c39(),
        x => {
            eprintln!("unknown check {x}");
            std::process::exit(3)
        }
    }
}
