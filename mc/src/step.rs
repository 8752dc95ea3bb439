//! Single-stepping the real code on the current thread (trap flag), to observe
//! every instruction it executes and every data address it touches, or to let
//! something else happen between any two of its instructions.
use std::arch::asm;
use std::cell::Cell;
use std::sync::Once;

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct Trace {
    /// instructions executed
    pub steps: u64,
    /// over the sequence of instruction addresses
    pub code: u64,
    /// over the sequence of data addresses and division operands
    pub data: u64,
}

struct Cfg {
    on: Cell<bool>,
    paused: Cell<bool>,
    t: Cell<Trace>,
    /// where to log (rip, address), and how much fits
    log: Cell<*mut (u64, u64)>,
    cap: Cell<usize>,
    /// called before each instruction with its index and address
    each: Cell<Option<&'static dyn Fn(u64, u64)>>,
}
thread_local! {
    static C: Cfg = const { Cfg {
        on: Cell::new(false), paused: Cell::new(false), t: Cell::new(Trace { steps: 0, code: 0, data: 0 }),
        log: Cell::new(std::ptr::null_mut()), cap: Cell::new(0), each: Cell::new(None),
    } };
}

fn mix(h: u64, v: u64) -> u64 {
    let h = (h ^ v).wrapping_mul(0x9E3779B97F4A7C15);
    h ^ (h >> 29)
}

/// The registers part of the effective address of the instruction at `p`
/// (displacements are constants of the code), and division operands.
///
/// # Safety
/// `p` must be the address of an instruction about to be executed.
unsafe fn data_of(p: *const u8, g: &[i64; 23]) -> Option<u64> {
    let at = |i: usize| unsafe { p.add(i).read() };
    let reg = |n: u8| -> u64 {
        let i = match n {
            0 => libc::REG_RAX,
            1 => libc::REG_RCX,
            2 => libc::REG_RDX,
            3 => libc::REG_RBX,
            4 => libc::REG_RSP,
            5 => libc::REG_RBP,
            6 => libc::REG_RSI,
            7 => libc::REG_RDI,
            8 => libc::REG_R8,
            9 => libc::REG_R9,
            10 => libc::REG_R10,
            11 => libc::REG_R11,
            12 => libc::REG_R12,
            13 => libc::REG_R13,
            14 => libc::REG_R14,
            _ => libc::REG_R15,
        };
        g[i as usize] as u64
    };
    let mut i = 0;
    while matches!(at(i), 0x66 | 0x67 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0xf0) {
        i += 1;
    }
    let (mut x, mut b) = (0u8, 0u8);
    let mut map = 0; // 0: one-byte, 1: 0f, 2: always ModRM
    match at(i) {
        0xc5 => {
            i += 2;
            map = 2;
        }
        0xc4 => {
            x = (!at(i + 1) >> 6) & 1;
            b = (!at(i + 1) >> 5) & 1;
            i += 3;
            map = 2;
        }
        0x62 => {
            x = (!at(i + 1) >> 6) & 1;
            b = (!at(i + 1) >> 5) & 1;
            i += 4;
            map = 2;
        }
        _ => {
            if at(i) & 0xf0 == 0x40 {
                x = (at(i) >> 1) & 1;
                b = at(i) & 1;
                i += 1;
            }
            if at(i) == 0x0f {
                i += 1;
                map = 1;
                if matches!(at(i), 0x38 | 0x3a) {
                    i += 1;
                    map = 2;
                }
            }
        }
    }
    let op = at(i);
    let modrm = match map {
        0 => (op < 0x40 && op & 7 < 4) || matches!(op, 0x63 | 0x69 | 0x6b | 0x80..=0x8c | 0x8e | 0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xd8..=0xdf | 0xf6 | 0xf7 | 0xfe | 0xff),
        1 => !matches!(op, 0x05..=0x0b | 0x0e | 0x1f | 0x30..=0x37 | 0x77 | 0x80..=0x8f | 0xa0..=0xa2 | 0xa8..=0xaa | 0xc8..=0xcf),
        _ => op != 0x77,
    };
    if map == 0 && matches!(op, 0xa4 | 0xa5 | 0xa6 | 0xa7 | 0xaa..=0xaf) {
        return Some(mix(reg(6), reg(7)));
    }
    if !modrm {
        return None;
    }
    let m = at(i + 1);
    let div = map == 0 && matches!(op, 0xf6 | 0xf7) && (m >> 3) & 7 >= 6;
    let extra = if div { mix(reg(0), reg(2)) } else { 0 };
    if m >> 6 == 3 {
        return if div { Some(mix(extra, reg(m & 7 | b << 3))) } else { None };
    }
    let ea = if m & 7 == 4 {
        let s = at(i + 2);
        let mut ea = 0u64;
        if !(s & 7 == 5 && m >> 6 == 0) {
            ea = reg(s & 7 | b << 3);
        }
        let idx = (s >> 3) & 7 | x << 3;
        if idx != 4 {
            ea = ea.wrapping_add(reg(idx) << (s >> 6));
        }
        ea
    } else if m & 7 == 5 && m >> 6 == 0 {
        return if div { Some(extra) } else { None };
    } else {
        reg(m & 7 | b << 3)
    };
    Some(if div { mix(extra, ea) } else { ea })
}

extern "C" fn trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let uc = unsafe { &*uc.cast::<libc::ucontext_t>() };
    C.with(|c| {
        if !c.on.get() || c.paused.get() {
            return;
        }
        let g = &uc.uc_mcontext.gregs;
        let rip = g[libc::REG_RIP as usize] as u64;
        let mut t = c.t.get();
        let d = unsafe { data_of(rip as *const u8, g) };
        t.code = mix(t.code, rip);
        if let Some(d) = d {
            t.data = mix(t.data, mix(rip, d));
        }
        let k = t.steps;
        t.steps += 1;
        c.t.set(t);
        if (k as usize) < c.cap.get() {
            unsafe { c.log.get().add(k as usize).write((rip, d.unwrap_or(0))) };
        }
        if let Some(f) = c.each.get() {
            f(k, rip);
        }
    });
}

fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = trap as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO;
        assert!(libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut()) == 0);
    });
}

struct Off;
impl Drop for Off {
    fn drop(&mut self) {
        unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
        C.with(|c| c.on.set(false));
    }
}

/// Instructions until the matching drop are not part of the trace (harness
/// code called back from the library).
pub struct Pause(bool);
pub fn pause() -> Pause {
    Pause(C.with(|c| c.paused.replace(true)))
}
impl Drop for Pause {
    fn drop(&mut self) {
        C.with(|c| c.paused.set(self.0));
    }
}

#[inline(never)]
fn go(f: &mut dyn FnMut()) {
    let _o = Off;
    unsafe { asm!("pushfq", "or qword ptr [rsp], 256", "popfq") };
    f();
}

/// Run `f` one instruction at a time.
#[inline(never)]
pub fn trace(log: Option<&mut Vec<(u64, u64)>>, each: Option<&dyn Fn(u64, u64)>, f: &mut dyn FnMut()) -> Trace {
    install();
    C.with(|c| {
        c.t.set(Trace::default());
        c.paused.set(false);
        match &log {
            Some(v) => {
                c.log.set(v.as_ptr().cast_mut());
                c.cap.set(v.capacity());
            }
            None => c.cap.set(0),
        }
        // only used until `go` returns
        c.each.set(each.map(|e| unsafe { std::mem::transmute::<&dyn Fn(u64, u64), &'static dyn Fn(u64, u64)>(e) }));
        c.on.set(true);
    });
    go(f);
    let t = C.with(|c| {
        c.each.set(None);
        c.t.get()
    });
    if let Some(v) = log {
        let n = (t.steps as usize).min(v.capacity());
        unsafe { v.set_len(n) };
    }
    t
}

/// Load address of the executable and the extent of its code.
pub fn text() -> (u64, u64, u64) {
    static T: std::sync::OnceLock<(u64, u64, u64)> = std::sync::OnceLock::new();
    *T.get_or_init(|| {
        let exe = std::fs::read_link("/proc/self/exe").unwrap();
        let exe = exe.to_str().unwrap().to_string();
        let (mut base, mut lo, mut hi) = (u64::MAX, 0, 0);
        for l in std::fs::read_to_string("/proc/self/maps").unwrap().lines() {
            if !l.ends_with(&exe) {
                continue;
            }
            let (a, b) = l.split(' ').next().unwrap().split_once('-').unwrap();
            let (a, b) = (u64::from_str_radix(a, 16).unwrap(), u64::from_str_radix(b, 16).unwrap());
            base = base.min(a);
            if l.split(' ').nth(1).unwrap().contains('x') {
                (lo, hi) = (a, b);
            }
        }
        (base, lo, hi)
    })
}

/// Name the code at an address, for reports.
pub fn locate(rip: u64) -> String {
    let (base, lo, hi) = text();
    if !(lo..hi).contains(&rip) {
        return "outside the executable (libc)".into();
    }
    let exe = std::fs::read_link("/proc/self/exe").unwrap();
    let o = std::process::Command::new("nm").arg("-C").arg(exe).output();
    let mut best = (0u64, String::new());
    if let Ok(o) = o {
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let mut w = l.splitn(3, ' ');
            let (Some(a), Some(_), Some(n)) = (w.next(), w.next(), w.next()) else { continue };
            let Ok(a) = u64::from_str_radix(a, 16) else { continue };
            if a <= rip - base && a >= best.0 {
                best = (a, n.to_string());
            }
        }
    }
    format!("{}+{:#x}", best.1, rip - base - best.0)
}
