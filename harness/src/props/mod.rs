use crate::report::Ctx;
pub mod decafp;
pub mod edwards;
pub mod field;
pub mod mont;
pub mod scalar;
pub mod sys;

pub struct Prop {
    pub id: &'static str,
    pub directed: fn() -> u64,
    pub run: fn(&mut Ctx),
}
macro_rules! table {
    ($($id:expr, $d:path, $f:path;)*) => {
        pub const PROPS: &[Prop] = &[$(Prop { id: $id, directed: $d, run: $f }),*];
    };
}
table! {
    "C01", scalar::c01_directed, scalar::c01;
    "C02", scalar::c02_directed, scalar::c02;
    "C03", scalar::c03_directed, scalar::c03;
    "C04", scalar::c04_directed, scalar::c04;
    "C05", field::c05_directed, field::c05;
    "C06", edwards::c06_directed, edwards::c06;
    "C07", edwards::c07_directed, edwards::c07;
    "C08", edwards::c08_directed, edwards::c08;
    "C09", edwards::c09_directed, edwards::c09;
    "C10", edwards::c10_directed, edwards::c10;
    "C11", edwards::c11_directed, edwards::c11;
    "C12", edwards::c12_directed, edwards::c12;
    "C13", mont::c13_directed, mont::c13;
    "C14", mont::c14_directed, mont::c14;
    "C15", mont::c15_directed, mont::c15;
    "C16", decafp::c16_directed, decafp::c16;
    "C17", decafp::c17_directed, decafp::c17;
    "C18", decafp::c18_directed, decafp::c18;
    "C19", sys::c19_directed, sys::c19;
    "C20", sys::c20_directed, sys::c20;
    "C22", sys::c22_directed, sys::c22;
}

thread_local! {
    /// Message and location of the last panic on this thread.
    pub static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = std::cell::RefCell::new(None);
}
/// Is this panic location in the monitor itself (an error of the check)?
pub fn ours(loc: &str) -> bool {
    let l = loc.replace('\\', "/");
    (l.starts_with("src/") && !l.contains("/repo/")) || l.contains("/verif/harness/src/")
}
/// Runs `f`, returning the panic message if it panicked.
pub fn quiet_catch(f: &dyn Fn()) -> Result<(), String> {
    LAST_PANIC.with(|l| *l.borrow_mut() = None);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(()) => Ok(()),
        Err(_) => Err(LAST_PANIC.with(|l| match l.borrow_mut().take() {
            Some((m, loc)) => format!("{} at {}", m, loc),
            None => "panic".to_string(),
        })),
    }
}
