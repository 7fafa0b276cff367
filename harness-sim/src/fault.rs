//! Lets this program answer its own CPUID instructions, if the kernel and the
//! CPU can make them fault (arch_prctl(ARCH_SET_CPUID), unprivileged).
use std::sync::atomic::{AtomicUsize, Ordering};

pub type Answer = fn(u32, u32) -> [u32; 4];

const SYS_ARCH_PRCTL: i64 = 158;
const ARCH_SET_CPUID: i64 = 0x1012;
const SIGSEGV: i32 = 11;
const SA_SIGINFO: i32 = 4;
const SA_ONSTACK: i32 = 0x0800_0000;

#[repr(C)]
#[derive(Clone, Copy)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
}

static ANSWER: AtomicUsize = AtomicUsize::new(0);
static mut BEFORE: SigAction = SigAction {
    handler: 0,
    mask: [0; 16],
    flags: 0,
    restorer: 0,
};

// Where the registers of the interrupted program are in its ucontext
const GREGS: usize = 40;
const RBX: usize = 11;
const RDX: usize = 12;
const RAX: usize = 13;
const RCX: usize = 14;
const RIP: usize = 16;

unsafe extern "C" fn on_fault(_: i32, _: *mut u8, context: *mut u8) {
    let regs = context.add(GREGS) as *mut u64;
    let at = *regs.add(RIP) as *const u8;
    let f = ANSWER.load(Ordering::SeqCst);
    if f == 0 || *at != 0x0f || *at.add(1) != 0xa2 {
        // Not ours: it happens again, to who was there before.
        sigaction(SIGSEGV, &raw const BEFORE, std::ptr::null_mut());
        return;
    }
    let f: Answer = std::mem::transmute(f);
    let r = f(*regs.add(RAX) as u32, *regs.add(RCX) as u32);
    *regs.add(RAX) = r[0] as u64;
    *regs.add(RBX) = r[1] as u64;
    *regs.add(RCX) = r[2] as u64;
    *regs.add(RDX) = r[3] as u64;
    *regs.add(RIP) += 2;
}

/// From now on f answers the CPUID instructions of this thread; false if that
/// cannot be.
pub fn simulate(f: Answer) -> bool {
    unsafe {
        if ANSWER.swap(f as usize, Ordering::SeqCst) == 0 {
            let act = SigAction {
                handler: on_fault as *const () as usize,
                mask: [0; 16],
                flags: SA_SIGINFO | SA_ONSTACK,
                restorer: 0,
            };
            sigaction(SIGSEGV, &act, &raw mut BEFORE);
        }
        syscall(SYS_ARCH_PRCTL, ARCH_SET_CPUID, 0i64) == 0
    }
}

/// The CPU answers this thread again.
#[allow(dead_code)]
pub fn real() {
    unsafe {
        syscall(SYS_ARCH_PRCTL, ARCH_SET_CPUID, 1i64);
    }
}
