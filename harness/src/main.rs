#[global_allocator]
static COUNTING: uvh::alloc::Counting = uvh::alloc::Counting;

fn main() {
    std::process::exit(uvh::cli::real_main(uvh::props::all()));
}
