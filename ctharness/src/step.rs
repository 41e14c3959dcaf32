//! Runs a function one instruction at a time (with the trap flag of the processor) and condenses the
//! sequence of instruction addresses into a count and a hash.
use std::ffi::{c_int, c_void};

static mut COUNT: u64 = 0;
static mut HASH: u64 = 0;

#[repr(C)]
struct SigAction {
    handler: extern "C" fn(c_int, *mut c_void, *mut c_void),
    mask: [u64; 16],
    flags: c_int,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: c_int, act: *const SigAction, old: *mut c_void) -> c_int;
}

extern "C" fn on_trap(_: c_int, _: *mut c_void, ctx: *mut c_void) {
    // uc_mcontext.gregs[REG_RIP] of the x86-64 Linux ucontext
    let rip = unsafe { *(ctx as *const u64).add(21) }.wrapping_sub(on_trap as extern "C" fn(_, _, _) as usize as u64);
    unsafe {
        COUNT += 1;
        HASH = (HASH ^ rip).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
    }
}

pub fn install() {
    let act = SigAction { handler: on_trap, mask: [0; 16], flags: 4, restorer: 0 };
    assert!(unsafe { sigaction(5, &act, std::ptr::null_mut()) } == 0);
}

/// What an observer of the executed instructions sees of `f(t)`.
#[inline(never)]
pub fn path<T>(f: fn(&mut T), t: &mut T) -> (u64, u64) {
    unsafe {
        COUNT = 0;
        HASH = 0;
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        f(t);
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        (COUNT, HASH)
    }
}
