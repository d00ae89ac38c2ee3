use mc::engine::*;

#[global_allocator]
static ALLOC: CountingAlloc = CountingAlloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "op" {
        return mc::checks::calls::fresh(a[2].parse().unwrap());
    }
    std::process::exit(main_with(mc::checks::plan))
}
