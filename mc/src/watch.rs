//! Stop the real code before and after each instruction that writes to given
//! memory (page protection, then one single step with the page writable).
use std::cell::Cell;
use std::sync::Once;
use std::sync::atomic::{AtomicBool, AtomicPtr, Ordering};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum When {
    Before,
    After,
}
/// Called on the writing thread, the memory being writable: which write this
/// is (counting from 0), when, the address of the memory and of the code.
type Hook<'a> = &'a dyn Fn(usize, When, usize, usize);

/// what the handlers share between threads: outside the watched memory
struct Shared {
    on: AtomicBool,
    areas: Vec<(usize, usize)>,
}
static SHARED: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());

struct Cfg {
    hook: Cell<Option<&'static dyn Fn(usize, When, usize, usize)>>,
    n: Cell<usize>,
    at: Cell<(usize, usize)>,
    stepping: Cell<bool>,
}
thread_local! {
    static C: Cfg = const { Cfg { hook: Cell::new(None), n: Cell::new(0), at: Cell::new((0, 0)), stepping: Cell::new(false) } };
}

fn protect(s: &Shared, p: i32) {
    for (a, b) in &s.areas {
        unsafe {
            libc::mprotect(*a as *mut _, b - a, p);
        }
    }
}

extern "C" fn segv(sig: i32, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let addr = (*info).si_addr() as usize;
        let s = SHARED.load(Ordering::Acquire);
        if s.is_null() || !(*s).areas.iter().any(|(a, b)| (*a..*b).contains(&addr)) {
            libc::signal(sig, libc::SIG_DFL);
            return;
        }
        let s = &*s;
        protect(s, libc::PROT_READ | libc::PROT_WRITE);
        let regs = &mut (*uc.cast::<libc::ucontext_t>()).uc_mcontext.gregs;
        C.with(|c| match c.hook.get() {
            Some(h) if s.on.load(Ordering::Acquire) => {
                let rip = regs[libc::REG_RIP as usize] as usize;
                c.at.set((addr, rip));
                h(c.n.get(), When::Before, addr, rip);
                c.stepping.set(true);
                regs[libc::REG_EFL as usize] |= 256;
            }
            // another thread: it goes on, and the watch is over
            _ => s.on.store(false, Ordering::Release),
        });
    }
}
extern "C" fn trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let regs = unsafe { &mut (*uc.cast::<libc::ucontext_t>()).uc_mcontext.gregs };
    regs[libc::REG_EFL as usize] &= !256;
    C.with(|c| {
        if !c.stepping.replace(false) {
            return;
        }
        let (addr, rip) = c.at.get();
        let n = c.n.get();
        c.n.set(n + 1);
        if let Some(h) = c.hook.get() {
            h(n, When::After, addr, rip);
        }
        let s = unsafe { &*SHARED.load(Ordering::Acquire) };
        if s.on.load(Ordering::Acquire) {
            protect(s, libc::PROT_READ);
        }
    });
}

/// Run `f` with `areas` watched.  Returns how many writes there were, and
/// whether the watch lasted (no other thread wrote there meanwhile).
pub fn watch(areas: &[(usize, usize)], hook: Hook<'_>, f: &mut dyn FnMut()) -> (usize, bool) {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let s = Box::new(Shared { on: AtomicBool::new(false), areas: vec![] });
        SHARED.store(Box::leak(s), Ordering::Release);
    });
    let install = |sig, h: *const ()| unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        let mut old: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = h as usize;
        a.sa_flags = libc::SA_SIGINFO;
        assert!(libc::sigaction(sig, &a, &mut old) == 0);
        old
    };
    let old = [(libc::SIGSEGV, install(libc::SIGSEGV, segv as *const ())), (libc::SIGTRAP, install(libc::SIGTRAP, trap as *const ()))];
    let pages = areas.iter().map(|(a, b)| (a & !4095, (b + 4095) & !4095)).collect();
    // single user: one watch at a time
    let s = Box::leak(Box::new(Shared { on: AtomicBool::new(true), areas: pages }));
    SHARED.store(s, Ordering::Release);
    C.with(|c| {
        // only used until the end of this function
        c.hook.set(Some(unsafe { std::mem::transmute::<Hook<'_>, Hook<'static>>(hook) }));
        c.n.set(0);
    });
    protect(s, libc::PROT_READ);
    f();
    protect(s, libc::PROT_READ | libc::PROT_WRITE);
    let lasted = s.on.swap(false, Ordering::AcqRel);
    C.with(|c| c.hook.set(None));
    for (sig, a) in old {
        unsafe {
            libc::sigaction(sig, &a, std::ptr::null_mut());
        }
    }
    (C.with(|c| c.n.get()), lasted)
}

/// the executable's own writable data (its .data and .bss)
pub fn statics() -> (usize, usize) {
    unsafe extern "C" {
        static __data_start: u8;
        static _end: u8;
    }
    ((&raw const __data_start) as usize, (&raw const _end) as usize)
}
