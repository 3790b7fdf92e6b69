//! The command line tool within the harness, so that its steps can be scheduled among those of others.
use crate::rt::sys;
use std::ffi::{c_char, c_int, CString};
use std::ptr::null;

#[cfg(feature = "tool")]
#[allow(unused_imports)]
mod tool {
    include!("/repo/src/main.rs");
    pub fn run() -> String {
        use std::process::Termination;
        format!("{:?}", main().report())
    }
}
#[cfg(not(feature = "tool"))]
mod tool {
    pub fn run() -> String {
        String::new()
    }
}
pub fn available() -> bool {
    cfg!(feature = "tool")
}

static mut ARGC: usize = 0;
static mut ARGV: *mut *const c_char = std::ptr::null_mut();
extern "C" fn remember(argc: c_int, argv: *mut *const c_char, _: *const *const c_char) {
    unsafe {
        ARGC = argc as usize;
        ARGV = argv;
    }
}
#[used]
#[link_section = ".init_array.00090"]
static REMEMBER: extern "C" fn(c_int, *mut *const c_char, *const *const c_char) = remember;

/// Room for the arguments of the tool.
pub const PAD: usize = 12;
/// The arguments of this process up to the padding; starts it over with padding if there is none.
pub fn args() -> Vec<String> {
    let mut a: Vec<String> = std::env::args().collect();
    match a.iter().position(|x| x == "#") {
        Some(i) => a.truncate(i),
        None => {
            use std::os::unix::process::CommandExt;
            let mut c = std::process::Command::new(std::env::current_exe().unwrap());
            c.args(&a[1..]).args(std::iter::repeat("#").take(PAD));
            panic!("{}", c.exec());
        }
    }
    a
}

/// Runs the tool on this thread; once per process. Returns whether it succeeded and what it printed.
pub fn run(args: &[&str]) -> (bool, Vec<u8>) {
    unsafe {
        assert!(args.len() + 1 < ARGC);
        let mut v: Vec<*const c_char> = vec![c"possum".as_ptr()];
        v.extend(args.iter().map(|a| CString::new(*a).unwrap().into_raw() as *const c_char));
        v.push(null());
        for (i, p) in v.into_iter().enumerate() {
            *ARGV.add(i) = p;
        }
        let fd = sys::memfd();
        let saved = sys::dup_onto(fd, 1);
        let r = tool::run();
        use std::io::Write;
        let _ = std::io::stdout().flush();
        let out = sys::contents(fd);
        sys::restore(saved, 1, fd);
        let ok = format!("{:?}", <std::process::ExitCode as From<u8>>::from(0));
        (r == ok, out)
    }
}
