//! Coverage-guided search with the generators, oracles and shrinking of the other checks.
//!   uvh-fuzz list <property>                         the campaigns, as JSON
//!   uvh-fuzz run <property> <campaign> <out> ARGS    fuzzes one, with libFuzzer's ARGS
//!   uvh-fuzz decode <property> <campaign> <file>     prints the case an input stands for
use std::ffi::CString;
use std::os::raw::{c_char, c_int};
use std::path::PathBuf;
use std::sync::atomic::{AtomicPtr, Ordering};
use std::sync::OnceLock;
use uvh::engine::{Session, FUZZED};

type Input<'a> = &'a mut dyn FnMut(&[u8]) -> bool;

extern "C" {
    fn LLVMFuzzerRunDriver(
        argc: *mut c_int,
        argv: *mut *mut *mut c_char,
        callback: extern "C" fn(*const u8, usize) -> c_int,
    ) -> c_int;
    fn atexit(f: extern "C" fn()) -> c_int;
    fn _exit(code: c_int) -> !;
}

static OUT: OnceLock<PathBuf> = OnceLock::new();
static INPUT: AtomicPtr<Input<'static>> = AtomicPtr::new(std::ptr::null_mut());

extern "C" fn save() {
    if let Some(path) = OUT.get() {
        let text = serde_json::to_string(&*FUZZED.lock().expect("statistics")).expect("json");
        std::fs::write(path, text).expect("statistics file");
    }
}

extern "C" fn callback(data: *const u8, size: usize) -> c_int {
    let bytes = if size == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(data, size) } };
    let f = unsafe { &mut *INPUT.load(Ordering::Relaxed) };
    if f(bytes) {
        save();
        unsafe { _exit(10) };
    }
    0
}

fn libfuzzer(f: &mut dyn FnMut(&[u8]) -> bool) {
    let mut f: Input<'_> = f;
    INPUT.store(std::ptr::from_mut(&mut f).cast(), Ordering::Relaxed);
    let args: Vec<CString> = std::iter::once("uvh-fuzz".to_string())
        .chain(std::env::args().skip(5))
        .map(|a| CString::new(a).expect("argument"))
        .collect();
    let mut argv: Vec<*mut c_char> = args.iter().map(|a| a.as_ptr().cast_mut()).collect();
    argv.push(std::ptr::null_mut());
    let mut argc = args.len() as c_int;
    let mut argv = argv.as_mut_ptr();
    unsafe {
        atexit(save);
        LLVMFuzzerRunDriver(&mut argc, &mut argv, callback);
    }
}

fn decode(f: &mut dyn FnMut(&[u8]) -> bool) {
    f(&std::fs::read(std::env::args().nth(4).expect("file")).expect("input"));
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut all = uvh::props::all();
    all.push(uvh_internals::C20);
    let id = args.get(2).map_or("", String::as_str);
    let Some(p) = all.iter().find(|p| p.id == id) else {
        eprintln!("usage: uvh-fuzz list|run|decode <property> ...");
        std::process::exit(2);
    };
    uvh::engine::quiet_guarded_panics();
    match args[1].as_str() {
        "list" => {
            let mut s = Session::list(p.id);
            (p.run)(&mut s);
            println!("{}", serde_json::to_string(&s.listed()).expect("json"));
        }
        "run" => {
            OUT.set(PathBuf::from(&args[4])).expect("once");
            let mut s = Session::fuzz(p.id, args[3].clone(), libfuzzer);
            (p.run)(&mut s);
        }
        "decode" => {
            std::env::set_var("UVH_DECODE", "1");
            let mut s = Session::fuzz(p.id, args[3].clone(), decode);
            (p.run)(&mut s);
        }
        _ => std::process::exit(2),
    }
}
