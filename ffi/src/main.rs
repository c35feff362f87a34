use kit as _;
mod capi;
mod child;
mod diff;
mod peer;
mod side;

#[global_allocator]
static A: kit::alloc::Counting = kit::alloc::Counting;

#[no_mangle]
pub extern "C" fn __asan_default_options() -> *const std::os::raw::c_char {
    c"detect_leaks=0:exitcode=99:allocator_may_return_null=1".as_ptr()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("--child") {
        let (seed, n) = (a[3].parse().unwrap(), a[4].parse().unwrap());
        match a[2].as_str() {
            "diff" => child::serve("diff", seed, n, diff::case),
            "threads" => child::serve("threads", seed, n, capi::threads),
            _ => child::serve("capi", seed, n, capi::case),
        }
    }
    match a.get(1).map(|s| s.as_str()).unwrap_or("") {
        "C31" => capi::c31(),
        "C32" => diff::c32(),
        x => {
            eprintln!("unknown property {x}");
            std::process::exit(3)
        }
    }
}
