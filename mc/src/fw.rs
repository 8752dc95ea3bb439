//! Exploration framework: sections of exhaustively enumerated cases, run on all
//! cores against the real library, with crash/hang supervision, replay files
//! and evidence output.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Read as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering};
use std::time::Instant;

/// The worker's real stdout: the library itself prints in masked-CPU
/// configurations, so fd 1 is pointed at /dev/null there.
pub static OUT_FD: AtomicI32 = AtomicI32::new(1);

pub fn emit(s: String) {
    let fd = OUT_FD.load(Ordering::Relaxed);
    let b = s.as_bytes();
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::write(fd, b[o..].as_ptr().cast(), b.len() - o) };
        if n <= 0 {
            break;
        }
        o += n as usize;
    }
}

#[macro_export]
macro_rules! out {
    ($($t:tt)*) => { $crate::fw::emit(format!($($t)*) + "\n") }
}

const MAX_THREADS: usize = 64;
const SLOT: usize = 128;

/// Where the verification files live (the crate sits directly below it).
pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| {
        let d = env!("CARGO_MANIFEST_DIR");
        d.rsplit_once('/').map(|x| x.0.to_string()).unwrap()
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Per-case recorder.
pub struct L {
    transitions: u64,
    states: HashSet<u64>,
    fail: Option<String>,
    note: Option<String>,
    known: Option<String>,
}

impl L {
    /// `n` calls into the implementation were made.
    pub fn t(&mut self, n: u64) {
        self.transitions += n;
    }
    /// Record an observed (model/implementation) state, by content.
    pub fn s(&mut self, bytes: &[u8]) {
        self.states.insert(fnv(bytes));
    }
    pub fn s64(&mut self, v: u64) {
        self.states.insert(crate::rng::splitmix(v));
    }
    /// Property check on this case.
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) -> bool {
        if !ok && self.fail.is_none() {
            let mut m = msg();
            if m.len() > 3000 {
                let mut n = 3000;
                while !m.is_char_boundary(n) {
                    n -= 1;
                }
                m.truncate(n);
                m.push_str(" ...");
            }
            self.fail = Some(m);
        }
        ok
    }
    pub fn eq(&mut self, got: &[u8], want: &[u8], what: impl FnOnce() -> String) -> bool {
        self.t(1);
        self.s(want);
        self.check(got == want, || {
            format!("{}: got {} want {}", what(), hex(got), hex(want))
        })
    }
    pub fn failed(&self) -> bool {
        self.fail.is_some()
    }
    /// Describe this case (sampled into the evidence).
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.note.is_none() {
            self.note = Some(f());
        }
    }
    /// This case fails in the way a listed known finding describes.
    pub fn known_finding(&mut self, key: &str) {
        self.known = Some(key.to_string());
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ (b.len() as u64);
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    let n = b.len().min(96);
    for x in &b[..n] {
        write!(s, "{x:02x}").unwrap();
    }
    if n < b.len() {
        write!(s, "..({} bytes)", b.len()).unwrap();
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|c| c.is_ascii_hexdigit()).collect();
    assert!(s.len() % 2 == 0);
    s.chunks(2)
        .map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap())
        .collect()
}

struct SectionStat {
    name: String,
    cases: u64,
    transitions: u64,
    new_states: u64,
    wall: f64,
    sample: Option<String>,
    exhaustive: bool,
}

pub struct Violation {
    section: String,
    index: usize,
    msg: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    only: Option<Vec<(String, usize)>>,
    threads: usize,
    stats: Mutex<Vec<SectionStat>>,
    states: Mutex<HashSet<u64>>,
    viol: Mutex<Vec<Violation>>,
    known: Mutex<BTreeMap<String, (String, usize)>>,
    assumptions: Mutex<Vec<String>>,
    start: Instant,
    slots: *mut u8,
    filter: Option<String>,
    case_limit_s: AtomicU64,
    scope: Mutex<String>,
    /// this worker's part, and whether another follows
    part: String,
    more: bool,
    carry: Mutex<Vec<u8>>,
    carried_wall: f64,
}
unsafe impl Sync for Ctx {}
unsafe impl Send for Ctx {}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// pick a bound by tier
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() { q } else { t }
    }
    pub fn assume(&self, s: &str) {
        let mut a = self.assumptions.lock().unwrap();
        if !a.iter().any(|x| x == s) {
            a.push(s.to_string());
        }
    }
    /// How long one case may run before it counts as never ending.
    pub fn case_limit(&self, s: u64) {
        self.case_limit_s.store(s, Ordering::Relaxed);
    }
    /// A prefix for following section names (e.g. the CPU configuration).
    pub fn scope(&self, s: &str) {
        *self.scope.lock().unwrap() = s.to_string();
    }

    /// Deny the given CPU features to the library (its own testing switch),
    /// for all following sections.  Must be called between sections.
    pub fn cpu_mask(&self, deny: &[&str]) {
        const ALL: &[&str] = &["sha", "bmi2", "vaes", "vpclmulqdq", "avx512f", "avx512bw", "avx512vl"];
        if OUT_FD.load(Ordering::Relaxed) == 1 {
            unsafe {
                let d = libc::dup(1);
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(n, 1);
                libc::close(n);
                OUT_FD.store(d, Ordering::Relaxed);
            }
        }
        for f in ALL {
            // SAFETY: no other thread runs between sections
            unsafe { std::env::remove_var(format!("GRAVIOLA_CPU_DISABLE_{f}")) };
        }
        for f in deny {
            assert!(ALL.contains(f));
            unsafe { std::env::set_var(format!("GRAVIOLA_CPU_DISABLE_{f}"), "1") };
        }
        if deny.is_empty() {
            self.scope("");
        } else {
            self.scope(&format!("-{}:", deny.join("-")));
        }
    }

    fn full_name(&self, name: &str) -> String {
        let scope = self.scope.lock().unwrap();
        match &self.part[..] {
            "" => format!("{scope}{name}"),
            p => format!("{p}/{scope}{name}"),
        }
    }
    /// Which part this worker explores.
    pub fn part(&self) -> &str {
        &self.part
    }
    /// Something for the parts that follow.
    pub fn hand_on(&self, b: Vec<u8>) {
        *self.carry.lock().unwrap() = b;
    }
    /// What the last part that handed something on did hand on.
    pub fn handed(&self) -> Vec<u8> {
        self.carry.lock().unwrap().clone()
    }

    /// Enumerate cases `0..n` of the named finite space, all of them.
    pub fn section(&self, name: &str, n: usize, f: impl Fn(usize, &mut L) + Sync) {
        self.section_t(name, n, self.threads, f)
    }

    pub fn section_t(
        &self,
        name: &str,
        n: usize,
        threads: usize,
        f: impl Fn(usize, &mut L) + Sync,
    ) {
        let name = self.full_name(name);
        let name = &name[..];
        if let Some(fl) = &self.filter {
            if !name.contains(fl.as_str()) {
                return;
            }
        }
        let idxs: Option<Vec<usize>> = self.only.as_ref().map(|o| {
            o.iter()
                .filter(|(s, _)| s == name)
                .map(|x| x.1)
                .filter(|i| *i < n)
                .collect()
        });
        let total = idxs.as_ref().map(|v| v.len()).unwrap_or(n);
        if self.only.is_some() && total == 0 {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let trans = AtomicU64::new(0);
        let cases = AtomicU64::new(0);
        let sample = Mutex::new(None::<String>);
        let nfail = AtomicUsize::new(0);
        let before = self.states.lock().unwrap().len() as u64;
        // per-thread start stamps for the hang watchdog
        let starts: Vec<AtomicU64> = (0..threads + 1).map(|_| AtomicU64::new(0)).collect();
        let curs: Vec<AtomicUsize> = (0..threads + 1).map(|_| AtomicUsize::new(0)).collect();
        let done = AtomicUsize::new(0);
        let chunk = (total / (threads * 8)).clamp(1, 256);

        std::thread::scope(|sc| {
            for tid in 0..threads {
                let (next, stop, trans, cases, sample, nfail, idxs, f, starts, curs, done) = (
                    &next, &stop, &trans, &cases, &sample, &nfail, &idxs, &f, &starts, &curs,
                    &done,
                );
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(sc, move || {
                        let mut local_states: HashSet<u64> = HashSet::new();
                        'outer: loop {
                            let b = next.fetch_add(chunk, Ordering::Relaxed);
                            if b >= total || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            for k in b..(b + chunk).min(total) {
                                let i = match idxs {
                                    Some(v) => v[k],
                                    None => k,
                                };
                                self.mark(tid, name, i);
                                curs[tid].store(i, Ordering::Relaxed);
                                starts[tid].store(
                                    1 + self.start.elapsed().as_secs(),
                                    Ordering::Relaxed,
                                );
                                let mut l = L {
                                    transitions: 0,
                                    states: HashSet::new(),
                                    fail: None,
                                    note: None,
                                    known: None,
                                };
                                if let Err(e) = catch_unwind(AssertUnwindSafe(|| f(i, &mut l))) {
                                    let m = e
                                        .downcast_ref::<String>()
                                        .cloned()
                                        .or_else(|| {
                                            e.downcast_ref::<&str>().map(|s| s.to_string())
                                        })
                                        .unwrap_or_else(|| "?".into());
                                    let loc = LAST_PANIC.with(|c| c.borrow().clone());
                                    l.fail = Some(format!("panic: {m} at {loc}"));
                                }
                                starts[tid].store(0, Ordering::Relaxed);
                                trans.fetch_add(l.transitions, Ordering::Relaxed);
                                cases.fetch_add(1, Ordering::Relaxed);
                                if local_states.is_empty() {
                                    local_states = l.states;
                                } else {
                                    local_states.extend(l.states);
                                }
                                if i == total / 2 || (i == 0 && total < 3) {
                                    if let Some(nt) = l.note {
                                        *sample.lock().unwrap() = Some(nt);
                                    }
                                }
                                if let Some(m) = l.fail {
                                    if let Some(k) = l.known {
                                        let mut kk = self.known.lock().unwrap();
                                        kk.entry(k).or_insert((m, 0)).1 += 1;
                                        continue;
                                    }
                                    if nfail.fetch_add(1, Ordering::Relaxed) < 20 {
                                        self.viol.lock().unwrap().push(Violation {
                                            section: name.to_string(),
                                            index: i,
                                            msg: m,
                                        });
                                    } else {
                                        stop.store(true, Ordering::Relaxed);
                                        break 'outer;
                                    }
                                }
                            }
                        }
                        self.states.lock().unwrap().extend(local_states);
                        self.unmark(tid);
                        done.fetch_add(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // watchdog
            let (starts, curs, done) = (&starts, &curs, &done);
            sc.spawn(move || {
                while done.load(Ordering::SeqCst) < threads {
                    std::thread::sleep(std::time::Duration::from_millis(5));
                    let now = 1 + self.start.elapsed().as_secs();
                    for tid in 0..threads {
                        let s = starts[tid].load(Ordering::Relaxed);
                        if s != 0 && now > s + self.case_limit_s.load(Ordering::Relaxed) {
                            self.viol.lock().unwrap().push(Violation {
                                section: name.to_string(),
                                index: curs[tid].load(Ordering::Relaxed),
                                msg: format!(
                                    "did not terminate within {} s (cases normally take milliseconds)",
                                    self.case_limit_s.load(Ordering::Relaxed)
                                ),
                            });
                            let code = self.finish();
                            std::process::exit(code);
                        }
                    }
                }
            });
        });
        let after = self.states.lock().unwrap().len() as u64;
        let capped = stop.load(Ordering::Relaxed);
        let wall = t0.elapsed().as_secs_f64();
        out!(
            "  [{}] {}: cases={} calls={} new_states={} fails={} {:.2}s",
            self.prop,
            name,
            cases.load(Ordering::Relaxed),
            trans.load(Ordering::Relaxed),
            after - before,
            nfail.load(Ordering::Relaxed),
            wall
        );
        self.stats.lock().unwrap().push(SectionStat {
            name: name.to_string(),
            cases: cases.load(Ordering::Relaxed),
            transitions: trans.load(Ordering::Relaxed),
            new_states: after - before,
            wall,
            sample: sample.into_inner().unwrap(),
            exhaustive: !capped,
        });
    }

    /// Like `section`, with processes instead of threads: delivering signals
    /// (single-stepping) does not scale over the threads of one process.
    pub fn section_procs(&self, name: &str, n: usize, f: impl Fn(usize, &mut L) + Sync) {
        let name = self.full_name(name);
        if self.filter.as_ref().is_some_and(|fl| !name.contains(fl.as_str())) {
            return;
        }
        let idxs: Vec<usize> = match &self.only {
            Some(o) => o.iter().filter(|(s, i)| *s == name && *i < n).map(|x| x.1).collect(),
            None => (0..n).collect(),
        };
        if self.only.is_some() && idxs.is_empty() {
            return;
        }
        let t0 = Instant::now();
        let before = self.states.lock().unwrap().len() as u64;
        // shared: the next case, and what each process is at and since when
        let sh = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(sh != libc::MAP_FAILED);
        let base = sh as usize;
        let word = move |i: usize| unsafe { &*(base as *const AtomicU64).add(i) };
        let procs = self.threads.min(idxs.len());
        let mut kids = vec![];
        for k in 0..procs {
            let mut p = [0i32; 2];
            assert_eq!(unsafe { libc::pipe(p.as_mut_ptr()) }, 0);
            let pid = unsafe { libc::fork() };
            assert!(pid >= 0, "fork");
            if pid == 0 {
                unsafe {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    libc::close(p[0]);
                }
                let mut run = || {
                    loop {
                        let i = word(0).fetch_add(1, Ordering::SeqCst) as usize;
                        let Some(&i) = idxs.get(i) else { break };
                        word(2 + 2 * k).store(i as u64, Ordering::SeqCst);
                        word(1 + 2 * k).store(1 + self.start.elapsed().as_secs(), Ordering::SeqCst);
                        let mut l = L {
                            transitions: 0,
                            states: HashSet::new(),
                            fail: None,
                            note: None,
                            known: None,
                        };
                        if let Err(e) = no_panic(|| f(i, &mut l)) {
                            l.fail = Some(format!("panic: {e}"));
                        }
                        word(1 + 2 * k).store(0, Ordering::SeqCst);
                        let mut b = vec![];
                        b.extend((i as u64).to_le_bytes());
                        b.extend(l.transitions.to_le_bytes());
                        b.extend((l.states.len() as u64).to_le_bytes());
                        for s in &l.states {
                            b.extend(s.to_le_bytes());
                        }
                        for t in [&l.fail, &l.note] {
                            let t = t.as_deref();
                            b.push(t.is_some() as u8);
                            b.extend((t.unwrap_or("").len() as u64).to_le_bytes());
                            b.extend(t.unwrap_or("").as_bytes());
                        }
                        let mut m = (b.len() as u64).to_le_bytes().to_vec();
                        m.extend(b);
                        let mut o = 0;
                        while o < m.len() {
                            let n = unsafe { libc::write(p[1], m[o..].as_ptr().cast(), m.len() - o) };
                            if n <= 0 {
                                unsafe { libc::_exit(9) };
                            }
                            o += n as usize;
                        }
                    }
                };
                std::thread::scope(|sc| {
                    std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(sc, &mut run).unwrap();
                });
                unsafe { libc::_exit(0) };
            }
            unsafe { libc::close(p[1]) };
            kids.push((pid, p[0], Vec::<u8>::new(), true));
        }
        let (mut cases, mut trans, mut fails) = (0u64, 0u64, 0usize);
        let mut sample = None;
        let mut fail = |index: usize, msg: String| {
            fails += 1;
            if fails <= 20 {
                self.viol.lock().unwrap().push(Violation { section: name.clone(), index, msg });
            }
        };
        let mut hung = false;
        while kids.iter().any(|k| k.3) && !hung {
            let mut fds: Vec<libc::pollfd> = kids
                .iter()
                .map(|k| libc::pollfd { fd: if k.3 { k.1 } else { -1 }, events: libc::POLLIN, revents: 0 })
                .collect();
            unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as libc::nfds_t, 200) };
            let now = 1 + self.start.elapsed().as_secs();
            let limit = self.case_limit_s.load(Ordering::Relaxed);
            for (k, kid) in kids.iter_mut().enumerate() {
                let s = word(1 + 2 * k).load(Ordering::SeqCst);
                if kid.3 && s != 0 && now > s + limit {
                    fail(
                        word(2 + 2 * k).load(Ordering::SeqCst) as usize,
                        format!("did not terminate within {limit} s"),
                    );
                    hung = true;
                }
                if fds[k].revents == 0 {
                    continue;
                }
                let mut b = [0u8; 65536];
                let r = unsafe { libc::read(kid.1, b.as_mut_ptr().cast(), b.len()) };
                if r > 0 {
                    kid.2.extend(&b[..r as usize]);
                    loop {
                        let u = |o: usize| u64::from_le_bytes(kid.2[o..o + 8].try_into().unwrap()) as usize;
                        if kid.2.len() < 8 || kid.2.len() < 8 + u(0) {
                            break;
                        }
                        let end = 8 + u(0);
                        let (i, t, ns) = (u(8), u(16), u(24));
                        cases += 1;
                        trans += t as u64;
                        let mut st = self.states.lock().unwrap();
                        for j in 0..ns {
                            st.insert(u(32 + 8 * j) as u64);
                        }
                        drop(st);
                        let mut o = 32 + 8 * ns;
                        let mut texts = [None, None];
                        for t in &mut texts {
                            let len = u(o + 1);
                            if kid.2[o] == 1 {
                                *t = Some(String::from_utf8_lossy(&kid.2[o + 9..o + 9 + len]).into_owned());
                            }
                            o += 9 + len;
                        }
                        let [failure, note] = texts;
                        if let Some(m) = failure {
                            fail(i, m);
                        }
                        if i == n / 2 || (i == 0 && n < 3) {
                            sample = note.or(sample);
                        }
                        kid.2.drain(..end);
                    }
                } else {
                    kid.3 = false;
                    let mut st = 0;
                    unsafe {
                        libc::waitpid(kid.0, &mut st, 0);
                        libc::close(kid.1);
                    }
                    if st != 0 {
                        let at = word(2 + 2 * k).load(Ordering::SeqCst) as usize;
                        fail(at, format!("process ended with status {st:#x} while this case was running"));
                    }
                }
            }
        }
        let _ = &mut fail;
        if hung {
            for k in &kids {
                if k.3 {
                    unsafe { libc::kill(k.0, libc::SIGKILL) };
                }
            }
            let code = self.finish();
            std::process::exit(code);
        }
        unsafe { libc::munmap(sh, 4096) };
        let after = self.states.lock().unwrap().len() as u64;
        let wall = t0.elapsed().as_secs_f64();
        out!(
            "  [{}] {}: cases={} calls={} new_states={} fails={} {:.2}s",
            self.prop, name, cases, trans, after - before, fails, wall
        );
        self.stats.lock().unwrap().push(SectionStat {
            name,
            cases,
            transitions: trans,
            new_states: after - before,
            wall,
            sample,
            exhaustive: cases == idxs.len() as u64,
        });
    }

    fn mark(&self, tid: usize, name: &str, i: usize) {
        if self.slots.is_null() || tid >= MAX_THREADS {
            return;
        }
        let b = name.as_bytes();
        let n = b.len().min(SLOT - 10);
        unsafe {
            let p = self.slots.add(tid * SLOT);
            p.write_volatile(0);
            std::ptr::copy_nonoverlapping((i as u64).to_le_bytes().as_ptr(), p.add(1), 8);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(10), n);
            p.add(9).write_volatile(n as u8);
            p.write_volatile(1);
        }
    }
    fn unmark(&self, tid: usize) {
        if !self.slots.is_null() && tid < MAX_THREADS {
            unsafe { self.slots.add(tid * SLOT).write_volatile(0) };
        }
    }

    /// Write evidence and replay files; return the exit code.
    fn finish(&self) -> i32 {
        let v = self.viol.lock().unwrap();
        let stats = self.stats.lock().unwrap();
        let known = self.known.lock().unwrap();
        let mut code = 0;
        let listed = known_findings(&self.prop);
        let mut unknown_known: Vec<Violation> = Vec::new();
        for (k, (m, n)) in known.iter() {
            if listed.iter().any(|x| x == k) {
                if self.more {
                    continue;
                }
                out!("KNOWN-FINDING: property={} {} ({} cases; e.g. {})", self.prop, k, n, m);
            } else {
                unknown_known.push(Violation {
                    section: k.clone(),
                    index: 0,
                    msg: m.clone(),
                });
            }
        }
        let mut all: Vec<&Violation> = v.iter().collect();
        all.extend(unknown_known.iter());
        if !all.is_empty() {
            code = 1;
            let path = self.replay_file(&all);
            for x in all.iter().take(10) {
                out!("  violating case {}#{}: {}", x.section, x.index, x.msg);
            }
            out!("VIOLATION property={} replay={}", self.prop, path);
        }
        if self.more && code == 0 {
            drop((v, stats, known));
            self.pass_on();
        } else if self.only.is_none() && self.filter.is_none() {
            self.evidence(&stats, all.len());
        }
        code
    }

    /// Results so far, for the worker of the next part.
    fn pass_on(&self) {
        let mut w = W(vec![]);
        w.b(&((self.carried_wall + self.start.elapsed().as_secs_f64()).to_bits().to_le_bytes()));
        let stats = self.stats.lock().unwrap();
        w.n(stats.len());
        for s in stats.iter() {
            w.b(s.name.as_bytes());
            w.n(s.cases as usize);
            w.n(s.transitions as usize);
            w.n(s.new_states as usize);
            w.n(s.wall.to_bits() as usize);
            w.n(s.sample.is_some() as usize);
            w.b(s.sample.as_deref().unwrap_or("").as_bytes());
            w.n(s.exhaustive as usize);
        }
        let known = self.known.lock().unwrap();
        w.n(known.len());
        for (k, (m, n)) in known.iter() {
            w.b(k.as_bytes());
            w.b(m.as_bytes());
            w.n(*n);
        }
        let a = self.assumptions.lock().unwrap();
        w.n(a.len());
        for x in a.iter() {
            w.b(x.as_bytes());
        }
        w.b(&self.carry.lock().unwrap());
        let st = self.states.lock().unwrap();
        w.n(st.len());
        for s in st.iter() {
            w.n(*s as usize);
        }
        let p = std::env::var("MC_CARRY").unwrap();
        std::fs::write(p, w.0).expect("pass results on");
    }
    fn take_over(&mut self, b: &[u8]) {
        let mut r = Rd(b);
        self.carried_wall = f64::from_bits(u64::from_le_bytes(r.b().try_into().unwrap()));
        for _ in 0..r.n() {
            let s = SectionStat {
                name: r.s(),
                cases: r.n() as u64,
                transitions: r.n() as u64,
                new_states: r.n() as u64,
                wall: f64::from_bits(r.n() as u64),
                sample: {
                    let some = r.n() == 1;
                    let t = r.s();
                    some.then_some(t)
                },
                exhaustive: r.n() == 1,
            };
            self.stats.lock().unwrap().push(s);
        }
        for _ in 0..r.n() {
            let (k, m, n) = (r.s(), r.s(), r.n());
            self.known.lock().unwrap().insert(k, (m, n));
        }
        for _ in 0..r.n() {
            let x = r.s();
            self.assumptions.lock().unwrap().push(x);
        }
        *self.carry.lock().unwrap() = r.b().to_vec();
        for _ in 0..r.n() {
            let x = r.n() as u64;
            self.states.lock().unwrap().insert(x);
        }
    }

    fn replay_file(&self, all: &[&Violation]) -> String {
        let dir = format!("{}/evidence/replay", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}.txt", dir, self.prop, std::process::id());
        let mut s = String::new();
        writeln!(s, "# replay: {}/check.sh {} replay {}", verif_dir(), self.prop, path).unwrap();
        for x in all {
            writeln!(s, "# {}", x.msg.replace('\n', " ")).unwrap();
            writeln!(s, "{}\t{}", x.section, x.index).unwrap();
        }
        let _ = std::fs::write(&path, s);
        path
    }

    fn evidence(&self, stats: &[SectionStat], nviol: usize) {
        let states = self.states.lock().unwrap().len();
        let cases: u64 = stats.iter().map(|s| s.cases).sum();
        let trans: u64 = stats.iter().map(|s| s.transitions).sum();
        let exhaustive = stats.iter().all(|s| s.exhaustive);
        let mut samples = String::new();
        for s in stats {
            if let Some(x) = &s.sample {
                if !samples.is_empty() {
                    samples.push(',');
                }
                write!(samples, "{}", json(&format!("{}: {}", s.name, x))).unwrap();
            }
        }
        let mut secs = String::new();
        for s in stats {
            if !secs.is_empty() {
                secs.push(',');
            }
            write!(
                secs,
                "{{\"section\":{},\"cases\":{},\"impl_calls\":{},\"new_states\":{},\"complete\":{},\"wall_s\":{:.3}}}",
                json(&s.name),
                s.cases,
                s.transitions,
                s.new_states,
                s.exhaustive,
                s.wall
            )
            .unwrap();
        }
        let assume = self
            .assumptions
            .lock()
            .unwrap()
            .iter()
            .map(|a| json(a))
            .collect::<Vec<_>>()
            .join(",");
        let seed: i64 = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let out = format!(
            "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"samples\":[{}],\"exhaustive\":{},\"sections\":[{}],\"rule\":{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
            json(&self.prop),
            if self.quick() { "quick" } else { "thorough" },
            seed,
            states,
            trans,
            cases,
            samples,
            exhaustive,
            secs,
            json("every case of every section's finite space is run against the real library and compared with the reference model; states = distinct model/implementation observations, transitions = calls into the implementation, traces = cases replayed"),
            assume,
            self.carried_wall + self.start.elapsed().as_secs_f64(),
            nviol
        );
        let p = format!("{}/evidence/{}.json", verif_dir(), self.prop);
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
        std::fs::write(&p, out).expect("write evidence");
    }
}

struct W(Vec<u8>);
impl W {
    fn n(&mut self, n: usize) {
        self.0.extend((n as u64).to_le_bytes());
    }
    fn b(&mut self, b: &[u8]) {
        self.n(b.len());
        self.0.extend(b);
    }
}
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn n(&mut self) -> usize {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap()) as usize
    }
    fn b(&mut self) -> &'a [u8] {
        let n = self.n();
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn s(&mut self) -> String {
        String::from_utf8_lossy(self.b()).into_owned()
    }
}

/// A check may consist of parts, each explored by a process of its own:
/// another build of the check, or fewer processor features.
pub struct Part {
    pub name: &'static str,
    /// build profile: "dev" or "trace"; "" is that of the supervisor
    pub profile: &'static str,
    /// features really withdrawn from the process
    pub deny: &'static [&'static str],
}

fn known_findings(prop: &str) -> Vec<String> {
    let p = format!("{}/known-findings.txt", verif_dir());
    let mut s = String::new();
    if let Ok(mut f) = std::fs::File::open(p) {
        let _ = f.read_to_string(&mut s);
    }
    s.lines()
        .filter_map(|l| l.strip_prefix("KNOWN "))
        .filter_map(|l| l.split_once(' '))
        .filter(|(p, _)| *p == prop)
        .map(|(_, k)| k.split(" -- ").next().unwrap().trim().to_string())
        .collect()
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Run `f`, mapping an unwinding panic to `Err(message)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        format!("{m} at {}", LAST_PANIC.with(|c| c.borrow().clone()))
    })
}

fn map_slots(path: &str, create: bool) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(create)
        .truncate(false)
        .open(path);
    let Ok(f) = f else { return std::ptr::null_mut() };
    if create {
        let _ = f.set_len((MAX_THREADS * SLOT) as u64);
    }
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            MAX_THREADS * SLOT,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    if p == libc::MAP_FAILED {
        std::ptr::null_mut()
    } else {
        p.cast()
    }
}

/// Entry point of every check binary.
///
/// usage: bin [quick|thorough|replay FILE] [filter]
pub fn main(prop: &str, f: impl FnOnce(&Ctx)) {
    main_parts(prop, &[Part { name: "", profile: "", deny: &[] }], f)
}

fn replay_cases(file: &str) -> Vec<(String, usize)> {
    let txt = std::fs::read_to_string(file).expect("replay file");
    txt.lines()
        .filter(|l| !l.starts_with('#'))
        .filter_map(|l| l.split_once('\t'))
        .map(|(s, i)| (s.to_string(), i.parse().unwrap()))
        .collect()
}

pub fn main_parts(prop: &str, parts: &[Part], f: impl FnOnce(&Ctx)) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mode = args.first().map(|s| s.as_str()).unwrap_or("quick").to_string();
    let tier = if mode == "thorough" || std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let only = (mode == "replay").then(|| replay_cases(&args[1]));
    let base = format!("/dev/shm/mc-{}-{}", prop, std::process::id());
    let (shm, carry) = (base.clone(), format!("{base}.carry"));

    if std::env::var_os("MC_WORKER").is_none() {
        // supervisor: run the exploration in a child, turn a crash into a verdict
        let todo: Vec<usize> = (0..parts.len())
            .filter(|k| match &only {
                // later parts may need what the first hands on
                Some(o) => *k == 0 || o.iter().any(|(s, _)| s.starts_with(&format!("{}/", parts[*k].name))),
                None => true,
            })
            .collect();
        let mut code = 0;
        for &k in &todo {
            let part = &parts[k];
            let slots = map_slots(&shm, true);
            let mut exe = std::env::current_exe().unwrap();
            if !part.profile.is_empty() {
                let dir = if part.profile == "dev" { "debug" } else { part.profile };
                let name = exe.file_name().unwrap().to_owned();
                exe = exe.parent().unwrap().parent().unwrap().join(dir).join(name);
            }
            let st = std::process::Command::new(&exe)
                .args(&args)
                .env("MC_WORKER", &shm)
                .env("MC_PART", k.to_string())
                .env("MC_MORE", if Some(&k) == todo.last() { "0" } else { "1" })
                .env("MC_CARRY", &carry)
                .status()
                .unwrap_or_else(|e| panic!("spawn {exe:?}: {e}"));
            let _ = std::fs::remove_file(&shm);
            use std::os::unix::process::ExitStatusExt;
            match (st.code(), st.signal()) {
                (Some(0), _) => {}
                (Some(1), _) => {
                    code = 1;
                    break;
                }
                (_, Some(sig)) if sig != libc::SIGKILL && sig != libc::SIGTERM && sig != libc::SIGINT => {
                    let v = crashed(slots, sig);
                    if v.is_empty() {
                        eprintln!("worker died with signal {sig} outside any case");
                        code = 3;
                        break;
                    }
                    let mut ctx = Ctx::new(prop, tier, None, std::ptr::null_mut());
                    if let Ok(b) = std::fs::read(&carry) {
                        ctx.take_over(&b);
                    }
                    ctx.viol.lock().unwrap().extend(v);
                    code = ctx.finish();
                    break;
                }
                _ => {
                    eprintln!("worker ended abnormally: {st:?}");
                    code = 3;
                    break;
                }
            }
        }
        let _ = std::fs::remove_file(&carry);
        std::process::exit(code);
    }

    let part = &parts[std::env::var("MC_PART").unwrap().parse::<usize>().unwrap()];
    // before anything looks features up
    let fewer = part.deny.is_empty() || crate::cpuid::withdraw(part.deny);
    let shm = std::env::var("MC_WORKER").unwrap();
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|c| *c.borrow_mut() = loc);
    }));
    let mut ctx = Ctx::new(prop, tier, only, map_slots(&shm, false));
    ctx.part = part.name.to_string();
    ctx.more = std::env::var("MC_MORE").as_deref() == Ok("1");
    if let Ok(b) = std::fs::read(std::env::var("MC_CARRY").unwrap()) {
        ctx.take_over(&b);
    }
    if mode != "replay" {
        ctx.filter = args.get(1).cloned();
    }
    if fewer {
        f(&ctx);
    } else {
        ctx.assume(&format!(
            "This machine cannot withdraw {:?} from a process (no CPUID faulting): part {} was left out.",
            part.deny, part.name
        ));
    }
    let c = ctx.finish();
    out!(
        "{}{}{}: {} states, {:.1}s, exit {}",
        prop,
        if part.name.is_empty() { "" } else { " " },
        part.name,
        ctx.states.lock().unwrap().len(),
        ctx.start.elapsed().as_secs_f64(),
        c
    );
    std::process::exit(c);
}

fn crashed(slots: *mut u8, sig: i32) -> Vec<Violation> {
    let mut v = Vec::new();
    if slots.is_null() {
        return v;
    }
    for t in 0..MAX_THREADS {
        unsafe {
            let p = slots.add(t * SLOT);
            if p.read_volatile() == 1 {
                let mut i = [0u8; 8];
                std::ptr::copy_nonoverlapping(p.add(1), i.as_mut_ptr(), 8);
                let n = p.add(9).read() as usize;
                let nm = String::from_utf8_lossy(std::slice::from_raw_parts(p.add(10), n)).to_string();
                v.push(Violation {
                    section: nm,
                    index: u64::from_le_bytes(i) as usize,
                    msg: format!("process killed by signal {sig} while this case was running (one of the concurrent cases listed here)"),
                });
            }
        }
    }
    v
}

impl Ctx {
    fn new(prop: &str, tier: Tier, only: Option<Vec<(String, usize)>>, slots: *mut u8) -> Self {
        let threads = std::thread::available_parallelism()
            .map(|n| n.get())
            .unwrap_or(4)
            .min(16);
        Ctx {
            prop: prop.to_string(),
            tier,
            only,
            threads,
            stats: Mutex::new(Vec::new()),
            states: Mutex::new(HashSet::new()),
            viol: Mutex::new(Vec::new()),
            known: Mutex::new(BTreeMap::new()),
            assumptions: Mutex::new(Vec::new()),
            start: Instant::now(),
            slots,
            filter: None,
            case_limit_s: AtomicU64::new(450),
            scope: Mutex::new(String::new()),
            part: String::new(),
            more: false,
            carry: Mutex::new(Vec::new()),
            carried_wall: 0.0,
        }
    }
}
