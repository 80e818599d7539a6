//! C33: calls need no heap, no operating system, little stack, and leave the floating-point environment alone.
use pbt::every::*;
use pbt::watch::{needs, Needs};
use pbt::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static HEAP: Cell<u64> = const { Cell::new(0) };
}
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        HEAP.set(HEAP.get() + 1);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        HEAP.set(HEAP.get() + 1);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        HEAP.set(HEAP.get() + 1);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        HEAP.set(HEAP.get() + 1);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

/// Rounding, flush-to-zero and exception masks; the flags of what happened do not count.
fn environment() -> (u32, u16) {
    let (mut sse, mut x87) = (0u32, 0u16);
    unsafe {
        std::arch::asm!("stmxcsr [{}]", "fnstcw [{}]", in(reg) &mut sse, in(reg) &mut x87);
    }
    (sse & !0x3F, x87)
}
fn restore((sse, x87): (u32, u16)) {
    unsafe {
        std::arch::asm!("ldmxcsr [{}]", "fldcw [{}]", in(reg) &sse, in(reg) &x87);
    }
}

/// Bytes of stack a call may need, those of the harness around it included.
const STACK: u64 = 2048;
/// The sine integral keeps its thousand nodes and values there.
const TABULATED: u64 = 16_384;

/// The heap and the floating-point environment before and after a call.
fn quiet(what: &str, f: &mut dyn FnMut()) -> Res {
    let (heap, env) = (HEAP.get(), environment());
    f();
    let (heap2, env2) = (HEAP.get(), environment());
    if env != env2 {
        restore(env);
        return fail(format!("{what} changes the floating-point environment from {env:x?} to {env2:x?}"));
    }
    ensure!(heap == heap2, "{what} uses the heap {} times", heap2 - heap);
    Ok(())
}

/// Everything, instruction by instruction.
fn measured(what: &str, limit: u64, f: &mut dyn FnMut()) -> Res {
    let mut n = Needs { instructions: 0, stack: 0, syscalls: 0 };
    quiet(what, &mut || n = needs(2_000_000, f))?;
    ensure!(n.syscalls == 0, "{what} calls the operating system {} times", n.syscalls);
    ensure!(n.stack <= limit, "{what} needs {} bytes of stack", n.stack);
    Ok(())
}

/// Panics are C30's; the heap may be used on the way.  Starts the call that follows from the same environment.
fn ends(f: impl FnOnce()) -> bool {
    let env = environment();
    let ok = catching(f).is_ok();
    if environment() != env {
        restore(env);
    }
    ok
}

fn functions(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = s.usize_in(0, CHEAP - 1);
    function(s, cx, n, STACK)
}
fn integral(s: &mut Src, cx: &mut Ctx) -> Res {
    function(s, cx, CHEAP, TABULATED)
}
fn function(s: &mut Src, cx: &mut Ctx, n: usize, limit: u64) -> Res {
    let p = &PURE[n];
    let a = args(s, p, true);
    cx.note(|| format!("{}: {a:?}", p.name));
    let mut run = || {
        std::hint::black_box((p.f)(&a));
    };
    if !ends(&mut run) {
        return Ok(());
    }
    cx.label(p.name);
    cx.nontrivial();
    measured(p.name, limit, &mut run)
}

fn total(s: &mut Src, cx: &mut Ctx) -> Res {
    let p = &PURE[s.usize_in(0, CHEAP - 1)];
    let a = args(s, p, true);
    cx.note(|| format!("{}: {a:?}", p.name));
    let mut run = || {
        std::hint::black_box((p.f)(&a));
    };
    if !ends(&mut run) {
        return Ok(());
    }
    cx.nontrivial();
    quiet(p.name, &mut run)
}

fn history(s: &mut Src, cx: &mut Ctx, last: bool) -> Res {
    let kind = s.pick(&KINDS);
    let mut st = start(s, kind, 1);
    if s.chance(1, 10) {
        st.b = vec![s.pick(&[0.25, 0.0]); pbt::signal::big_length(s)];
        if s.chance(1, 2) {
            st.a = st.b.clone();
        }
    }
    let wild = s.chance(1, 2);
    cx.note(|| format!("{kind:?} {:?}, buffers of {} and {}", st.p, st.a.len(), st.b.len()));
    let ops: Vec<Op> = (0..s.usize_in(1, 30)).map(|_| op(s, kind, wild)).collect();
    cx.note(|| format!("{ops:?}"));
    let (mut t, mut u) = (Thing::new(&st), Thing::new(&st));
    for (k, o) in ops.iter().enumerate() {
        let (t, u) = (&mut t, &mut u);
        if !ends(|| {
            t.step(o);
        }) {
            return Ok(());
        }
        let what = format!("{kind:?} {o:?}");
        let mut run = || {
            std::hint::black_box(u.step(o));
        };
        if last && k == ops.len() - 1 {
            measured(&what, STACK, &mut run)?;
        } else {
            quiet(&what, &mut run)?;
        }
    }
    cx.nontrivial_if(ops.iter().any(|o| o.code != 0));
    Ok(())
}
fn objects(s: &mut Src, cx: &mut Ctx) -> Res {
    history(s, cx, true)
}
fn histories(s: &mut Src, cx: &mut Ctx) -> Res {
    history(s, cx, false)
}

/// The instruments themselves.
fn instrument(k: u64) -> Result<bool, Fail> {
    let n = (k as usize + 4) * 128;
    let seen = [
        quiet("", &mut || drop(std::hint::black_box(Box::new(k)))).is_err(),
        quiet("", &mut || {
            let (mut e, _) = environment();
            e |= 0x8000;
            unsafe { std::arch::asm!("ldmxcsr [{}]", in(reg) &e) };
        })
        .is_err(),
        measured("", STACK, &mut || {
            unsafe { std::arch::asm!("syscall", inlateout("rax") 39u64 => _, out("rcx") _, out("r11") _) };
        })
        .is_err(),
        measured("", STACK, &mut || {
            #[inline(never)]
            fn deep(n: usize) -> usize {
                let a = std::hint::black_box([n; 32]);
                if n == 0 { a[0] } else { deep(n - 1) + std::hint::black_box(a)[3] }
            }
            std::hint::black_box(deep(std::hint::black_box(n / 8)));
        })
        .is_err(),
    ];
    let clean = measured("", STACK, &mut || {
        let mut v = 0u64;
        for i in 0..n as u64 {
            v = std::hint::black_box(v + i);
        }
    });
    if seen != [true; 4] || clean.is_err() {
        panic!("the instruments do not work here: {seen:?} {clean:?}");
    }
    Ok(false)
}

fn main() {
    pbt::main(
        "C33",
        &[
            sweep("instrument", 16, 16, instrument),
            rand("functions", 10_000, 400_000, functions),
            rand("integral", 4, 100, integral),
            rand("objects", 10_000, 400_000, objects),
            rand("total", 3_000_000, 200_000_000, total),
            rand("histories", 200_000, 10_000_000, histories),
        ],
    );
}
