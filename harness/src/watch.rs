//! Memory in which every single access of the code under test can be observed, and between any two of which
//! "another thread" can be given a turn: the pages are inaccessible, an access faults, the fault handler lets
//! the observer act, opens the pages and single-steps the one instruction, then closes them again.
//!
//! The schedule is therefore an input of the case, not a matter of luck: no second thread, no timing.

use std::cell::Cell;
use std::sync::Once;

mod sys {
    pub const SIGTRAP: i32 = 5;
    pub const SIGBUS: i32 = 7;
    pub const SIGSEGV: i32 = 11;
    pub const PROT_NONE: i32 = 0;
    pub const PROT_RW: i32 = 3;
    pub const MAP_PRIVATE_ANON: i32 = 0x22;
    pub const SA_SIGINFO: i32 = 4;
    pub const SA_ONSTACK: i32 = 0x0800_0000;
    #[repr(C)]
    pub struct SigAction {
        pub handler: usize,
        pub mask: [u64; 16],
        pub flags: i32,
        pub restorer: usize,
    }
    extern "C" {
        pub fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        pub fn munmap(addr: *mut u8, len: usize) -> i32;
        pub fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
        pub fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    }
}

const PAGE: usize = 4096;
// x86-64 Linux: ucontext = flags u64, link ptr, stack 24 bytes, then gregs[23]
const GREGS: usize = 40;
const REG_RSP: usize = 15;
const REG_RIP: usize = 16;
const REG_EFL: usize = 17;
const REG_ERR: usize = 19;
const TRAP_FLAG: u64 = 1 << 8;

/// What happens around each access.
pub trait Observer {
    /// The code under test is about to execute an instruction that accesses the byte at `at` (relative to the
    /// start of the region); the pages are open.
    fn before(&mut self, at: usize, write: bool);
    /// The instruction was executed; the pages are still open.
    fn after(&mut self);
}

#[derive(Clone, Copy)]
struct Active {
    base: usize,
    size: usize,
    obs: Option<*mut dyn Observer>,
    stepping: bool,
}
thread_local! {
    static ACTIVE: Cell<Active> = const { Cell::new(Active { base: 0, size: 0, obs: None, stepping: false }) };
}

thread_local! {
    /// Instructions that may still be counted; 0 when nobody counts.
    static LEFT: Cell<u64> = const { Cell::new(0) };
    /// Stack pointer and address to go on at when they are used up.
    static ESCAPE: Cell<*const u64> = const { Cell::new(std::ptr::null()) };
    /// The lowest stack pointer and the number of system calls seen while counting.
    static LOWEST: Cell<u64> = const { Cell::new(u64::MAX) };
    static SYSCALLS: Cell<u64> = const { Cell::new(0) };
    /// What is to be called in the middle of something else, once LEFT is down to one.
    static INTERRUPT: Cell<Option<*mut dyn FnMut()>> = const { Cell::new(None) };
}

unsafe fn give_up(sig: i32) {
    // not ours: the default action ends the process when the instruction is retried
    let dfl = sys::SigAction { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
    sys::sigaction(sig, &dfl, std::ptr::null_mut());
}

unsafe extern "C" fn on_fault(sig: i32, info: *mut u8, ctx: *mut u8) {
    let a = ACTIVE.get();
    let addr = (info.add(16) as *const usize).read();
    let Some(obs) = a.obs.filter(|_| !a.stepping && addr >= a.base && addr - a.base < a.size) else {
        return give_up(sig);
    };
    let regs = ctx.add(GREGS) as *mut u64;
    let write = regs.add(REG_ERR).read() & 2 != 0;
    sys::mprotect(a.base as *mut u8, a.size, sys::PROT_RW);
    ACTIVE.set(Active { stepping: true, ..a });
    (*obs).before(addr - a.base, write);
    *regs.add(REG_EFL) |= TRAP_FLAG;
}

unsafe extern "C" fn on_step(sig: i32, _info: *mut u8, ctx: *mut u8) {
    let left = LEFT.get();
    if left > 0 {
        LEFT.set(left - 1);
        let regs = ctx.add(GREGS) as *mut u64;
        LOWEST.set(LOWEST.get().min(*regs.add(REG_RSP)));
        // syscall, sysenter, int 0x80
        if let [0x0F, 0x05 | 0x34] | [0xCD, 0x80] = *(*regs.add(REG_RIP) as *const [u8; 2]) {
            SYSCALLS.set(SYSCALLS.get() + 1);
        }
        if left == 1 {
            *regs.add(REG_EFL) &= !TRAP_FLAG;
            if let Some(g) = INTERRUPT.take() {
                (*g)();
            } else if !std::thread::panicking() {
                // enough: abandon the call (a panic, which holds locks, comes to its end by itself)
                let to = ESCAPE.get();
                *regs.add(REG_RSP) = *to;
                *regs.add(REG_RIP) = *to.add(1);
            }
        }
        return;
    }
    let a = ACTIVE.get();
    let Some(obs) = a.obs.filter(|_| a.stepping) else {
        return give_up(sig);
    };
    let regs = ctx.add(GREGS) as *mut u64;
    *regs.add(REG_EFL) &= !TRAP_FLAG;
    (*obs).after();
    ACTIVE.set(Active { stepping: false, ..a });
    sys::mprotect(a.base as *mut u8, a.size, sys::PROT_NONE);
}

fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        for (sig, h) in [
            (sys::SIGSEGV, on_fault as unsafe extern "C" fn(i32, *mut u8, *mut u8) as usize),
            (sys::SIGBUS, on_fault as unsafe extern "C" fn(i32, *mut u8, *mut u8) as usize),
            (sys::SIGTRAP, on_step as unsafe extern "C" fn(i32, *mut u8, *mut u8) as usize),
        ] {
            // stepping may call anything: on the ordinary, large stack
            let stack = if sig == sys::SIGTRAP { 0 } else { sys::SA_ONSTACK };
            let act = sys::SigAction { handler: h, mask: [0; 16], flags: sys::SA_SIGINFO | stack, restorer: 0 };
            if sys::sigaction(sig, &act, std::ptr::null_mut()) != 0 {
                panic!("cannot install a signal handler");
            }
        }
    });
}

/// One or more pages of observable memory.
pub struct Region {
    base: *mut u8,
    size: usize,
}

impl Region {
    pub fn new(bytes: usize) -> Region {
        install();
        let size = bytes.div_ceil(PAGE).max(1) * PAGE;
        let base = unsafe { sys::mmap(std::ptr::null_mut(), size, sys::PROT_RW, sys::MAP_PRIVATE_ANON, -1, 0) };
        if base as isize == -1 {
            panic!("cannot map observable memory");
        }
        Region { base, size }
    }
    pub fn ptr(&self) -> *mut f32 {
        self.base as *mut f32
    }
    pub fn elements(&self) -> usize {
        self.size / 4
    }
    /// Runs `f`, which must not unwind, with every access of this thread to the region going through `obs`.
    pub fn run<T>(&self, obs: &mut dyn Observer, f: impl FnOnce() -> T) -> T {
        struct Close<'a>(&'a Region);
        impl Drop for Close<'_> {
            fn drop(&mut self) {
                unsafe { sys::mprotect(self.0.base, self.0.size, sys::PROT_RW) };
                ACTIVE.set(Active { base: 0, size: 0, obs: None, stepping: false });
            }
        }
        let obs: *mut dyn Observer = unsafe { std::mem::transmute::<&mut dyn Observer, &'static mut dyn Observer>(obs) };
        ACTIVE.set(Active { base: self.base as usize, size: self.size, obs: Some(obs), stepping: false });
        let close = Close(self);
        unsafe { sys::mprotect(self.base, self.size, sys::PROT_NONE) };
        let r = f();
        drop(close);
        r
    }
}

impl Drop for Region {
    fn drop(&mut self) {
        unsafe { sys::munmap(self.base, self.size) };
    }
}

extern "C" fn call_it(f: *mut &mut dyn FnMut()) {
    unsafe { (*f)() }
}

/// Calls `f`, which must not unwind, with the trap flag set; it may be abandoned by the step handler.
#[inline(never)]
fn stepped(f: &mut dyn FnMut()) {
    install();
    let mut slot = [0u64; 2];
    let mut f: &mut dyn FnMut() = f;
    ESCAPE.set(slot.as_ptr());
    unsafe {
        std::arch::asm!(
            "push rbx",
            "push rbp",
            "lea rax, [rip + 3f]",
            "mov [rsi], rsp",
            "mov [rsi + 8], rax",
            "pushfq",
            "or qword ptr [rsp], 0x100",
            "popfq",
            "call rdx",
            "pushfq",
            "and qword ptr [rsp], -257",
            "popfq",
            "3:",
            "pop rbp",
            "pop rbx",
            inout("rdi") &mut f as *mut &mut dyn FnMut() => _,
            inout("rsi") slot.as_mut_ptr() => _,
            inout("rdx") call_it as *const () => _,
            out("r12") _, out("r13") _, out("r14") _, out("r15") _,
            clobber_abi("C"),
        );
    }
}

/// How many machine instructions `f`, which must not unwind, executes.  After `limit` of them it is abandoned
/// where it stands and limit + 1 is returned.
pub fn instructions(limit: u64, f: &mut dyn FnMut()) -> u64 {
    LEFT.set(limit + 1);
    stepped(f);
    let left = LEFT.get();
    LEFT.set(0);
    limit + 1 - left
}

pub struct Needs {
    pub instructions: u64,
    pub stack: u64,
    pub syscalls: u64,
}
/// The same, with the bytes of stack and the system calls `f` needs.
pub fn needs(limit: u64, f: &mut dyn FnMut()) -> Needs {
    LOWEST.set(u64::MAX);
    SYSCALLS.set(0);
    let mark = 0u64;
    let top = std::hint::black_box(&mark) as *const u64 as u64;
    let instructions = instructions(limit, f);
    Needs { instructions, stack: top.saturating_sub(LOWEST.get()), syscalls: SYSCALLS.get() }
}

/// Runs `f` and, after `at` (> 0) of its instructions, `g`, like an interrupt would.  Neither may unwind, and `g` may
/// not allocate.  Returns whether `f` was long enough to be interrupted.
pub fn interrupted(at: u64, f: &mut dyn FnMut(), g: &mut dyn FnMut()) -> bool {
    let g: *mut dyn FnMut() = unsafe { std::mem::transmute::<&mut dyn FnMut(), &'static mut dyn FnMut()>(g) };
    INTERRUPT.set(Some(g));
    LEFT.set(at);
    stepped(f);
    LEFT.set(0);
    INTERRUPT.take().is_none()
}
