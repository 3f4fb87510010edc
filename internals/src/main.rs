fn main() {
    std::process::exit(uvh::cli::real_main(vec![uvh_internals::C20]));
}
