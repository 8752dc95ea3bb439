//! Withdraw processor features from the running process: the processor faults
//! on `cpuid` while features are first looked up, and what is found there is
//! edited.  Unlike the library's own switches this works in release builds,
//! and for every feature.
use std::arch::x86_64::__cpuid_count;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

/// bits to hide: leaf 1 ECX, leaf 7.0 EBX, leaf 7.0 ECX
static HIDE: [AtomicU32; 3] = [const { AtomicU32::new(0) }; 3];

/// feature, which of the words above, bit
const WHERE: &[(&str, usize, u32)] = &[
    ("pclmulqdq", 0, 1),
    ("aes", 0, 25),
    ("avx", 0, 28),
    ("bmi1", 1, 3),
    ("avx2", 1, 5),
    ("bmi2", 1, 8),
    ("avx512f", 1, 16),
    ("adx", 1, 19),
    ("sha", 1, 29),
    ("avx512bw", 1, 30),
    ("avx512vl", 1, 31),
    ("vaes", 2, 9),
    ("vpclmulqdq", 2, 10),
];

pub fn have(f: &str) -> bool {
    match f {
        "pclmulqdq" => is_x86_feature_detected!("pclmulqdq"),
        "aes" => is_x86_feature_detected!("aes"),
        "avx" => is_x86_feature_detected!("avx"),
        "bmi1" => is_x86_feature_detected!("bmi1"),
        "avx2" => is_x86_feature_detected!("avx2"),
        "bmi2" => is_x86_feature_detected!("bmi2"),
        "avx512f" => is_x86_feature_detected!("avx512f"),
        "adx" => is_x86_feature_detected!("adx"),
        "sha" => is_x86_feature_detected!("sha"),
        "avx512bw" => is_x86_feature_detected!("avx512bw"),
        "avx512vl" => is_x86_feature_detected!("avx512vl"),
        "vaes" => is_x86_feature_detected!("vaes"),
        "vpclmulqdq" => is_x86_feature_detected!("vpclmulqdq"),
        _ => panic!("unknown feature {f}"),
    }
}

fn faulting(on: bool) -> bool {
    const ARCH_SET_CPUID: i32 = 0x1012;
    unsafe { libc::syscall(libc::SYS_arch_prctl, ARCH_SET_CPUID, (!on) as u64) == 0 }
}

extern "C" fn on_fault(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let g = &mut (*uc.cast::<libc::ucontext_t>()).uc_mcontext.gregs;
        let p = g[libc::REG_RIP as usize] as *const u8;
        if p.read() != 0x0f || p.add(1).read() != 0xa2 {
            libc::signal(libc::SIGSEGV, libc::SIG_DFL);
            return;
        }
        let (leaf, sub) = (g[libc::REG_RAX as usize] as u32, g[libc::REG_RCX as usize] as u32);
        faulting(false);
        let mut r = __cpuid_count(leaf, sub);
        faulting(true);
        if leaf == 1 {
            r.ecx &= !HIDE[0].load(Relaxed);
        }
        if leaf == 7 && sub == 0 {
            r.ebx &= !HIDE[1].load(Relaxed);
            r.ecx &= !HIDE[2].load(Relaxed);
        }
        g[libc::REG_RAX as usize] = r.eax as i64;
        g[libc::REG_RBX as usize] = r.ebx as i64;
        g[libc::REG_RCX as usize] = r.ecx as i64;
        g[libc::REG_RDX as usize] = r.edx as i64;
        g[libc::REG_RIP as usize] += 2;
    }
}

/// Call once, before anything looks features up, from the only thread.
/// False: this machine cannot do that.
pub fn withdraw(deny: &[&str]) -> bool {
    for d in deny {
        let (_, w, b) = WHERE.iter().find(|x| x.0 == *d).expect("unknown feature");
        HIDE[*w].fetch_or(1 << b, Relaxed);
    }
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        let mut old: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_fault as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGSEGV, &sa, &mut old);
        let on = faulting(true);
        if on {
            // looked up here, remembered ever after
            let _ = have("avx2");
            faulting(false);
        }
        libc::sigaction(libc::SIGSEGV, &old, std::ptr::null_mut());
        on && deny.iter().all(|d| !have(d))
    }
}
