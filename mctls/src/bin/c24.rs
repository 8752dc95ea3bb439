//! C24: session tickets.
use mc::fw::{self, Ctx, L, hex, no_panic};
use mc::rng::{self, Src, State, bytes};
use mc::sched;
use mc::watch::{self, When};
use mctls::clock;
use rustls::server::ProducesTickets;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

/// Allocations of a ticketer under watch go to pages of their own.
struct Arena;
thread_local! {
    static IN: Cell<bool> = const { Cell::new(false) };
}
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
const ARENA: usize = 1 << 28;
unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if IN.try_with(|i| i.get()).unwrap_or(false) {
            let n = (l.size() + 63) & !63;
            let at = NEXT.fetch_add(n, Ordering::Relaxed);
            if at + n <= BASE.load(Ordering::Relaxed) + ARENA && l.align() <= 64 {
                return at as *mut u8;
            }
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let b = BASE.load(Ordering::Relaxed);
        if b == 0 || !(b..b + ARENA).contains(&(p as usize)) {
            unsafe { System.dealloc(p, l) }
        }
    }
}
#[global_allocator]
static A: Arena = Arena;

fn in_arena<T>(f: impl FnOnce() -> T) -> T {
    if BASE.load(Ordering::Relaxed) == 0 {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), ARENA, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        assert!(p != libc::MAP_FAILED);
        NEXT.store(p as usize, Ordering::Relaxed);
        BASE.store(p as usize, Ordering::Relaxed);
    }
    let old = IN.with(|i| i.replace(true));
    let r = f();
    IN.with(|i| i.set(old));
    r
}
fn arena_page() -> usize {
    let p = (NEXT.load(Ordering::Relaxed) + 4095) & !4095;
    NEXT.store(p, Ordering::Relaxed);
    p
}

const L6: u64 = 6 * 3600;
const T0: u64 = 1_700_000_000;
type T = Arc<dyn ProducesTickets>;

fn ticketer() -> T {
    rustls_graviola::Ticketer::new().unwrap()
}
fn stream(seed: u64) -> State {
    State::new(Src::Stream(seed))
}
fn failing() -> State {
    let mut s = stream(1);
    s.fail_at = Some(0);
    s
}
fn msg(i: usize) -> Vec<u8> {
    // growing and shrinking lengths
    bytes(i as u64 + 900, [5, 1, 300, 40, 1200, 64][i % 6] + i / 6)
}

// --- one thread: all histories ---------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Encrypt,
    EncryptNoRandom,
    Decrypt(usize),
    DecryptNoRandom(usize),
    DecryptAltered(usize),
    Advance(u64),
}

/// which key the rotation leaves in charge: the specification
#[derive(Clone)]
struct Model {
    now: u64,
    switch: u64,
    current: usize,
    previous: Option<usize>,
    tickets: Vec<(usize, Vec<u8>, Vec<u8>)>, // key, message, ticket
}
impl Model {
    fn roll(&mut self, random: bool) -> bool {
        if self.now <= self.switch {
            return true;
        }
        if !random {
            return false;
        }
        self.previous = Some(self.current);
        self.current += 1;
        self.switch = self.now + L6;
        true
    }
    fn holds(&self, k: usize) -> bool {
        self.current == k || self.previous == Some(k)
    }
}

fn apply(l: &mut L, t: &T, m: &mut Model, op: Op, hist: &dyn Fn() -> String) -> bool {
    let random = !matches!(op, Op::EncryptNoRandom | Op::DecryptNoRandom(_));
    let run = |f: &dyn Fn() -> Option<Vec<u8>>| if random { no_panic(f) } else { rng::with(failing(), || no_panic(f)).0 };
    l.t(1);
    match op {
        Op::Advance(d) => {
            m.now += d;
            clock::set(Some(m.now));
            true
        }
        Op::Encrypt | Op::EncryptNoRandom => {
            let p = msg(m.tickets.len());
            m.roll(random);
            match run(&|| t.encrypt(&p)) {
                Ok(Some(c)) if random => {
                    m.tickets.push((m.current, p, c));
                    true
                }
                Ok(None) if !random => true,
                x => l.check(false, || format!("{}: encrypting gives {}", hist(), show(&x))),
            }
        }
        Op::Decrypt(i) | Op::DecryptNoRandom(i) | Op::DecryptAltered(i) => {
            let rolled = m.roll(random);
            let (k, p, c) = &m.tickets[i];
            let altered = matches!(op, Op::DecryptAltered(_));
            let got = if altered {
                let mut c = c.clone();
                let n = c.len();
                c[n - 20] ^= 4;
                run(&|| t.decrypt(&c))
            } else {
                run(&|| t.decrypt(c))
            };
            let ok = match &got {
                Ok(Some(x)) => !altered && m.holds(*k) && x == p,
                // with no randomness to rotate with, refusing is the way
                Ok(None) => altered || !m.holds(*k) || !rolled,
                Err(_) => false,
            };
            l.check(ok, || format!("{}: ticket {i} (of key {k}; current {} previous {:?}) decrypts to {}", hist(), m.current, m.previous, show(&got)))
        }
    }
}
fn show(x: &Result<Option<Vec<u8>>, String>) -> String {
    match x {
        Ok(Some(v)) => format!("{} bytes {}", v.len(), hex(&v[..v.len().min(40)])),
        x => format!("{x:?}"),
    }
}

fn next_ops(tickets: usize, last: Option<Op>) -> Vec<Op> {
    let mut v = vec![Op::Encrypt, Op::EncryptNoRandom];
    if !matches!(last, Some(Op::Advance(_))) {
        for d in [1, L6 - 1, L6, L6 + 1, 2 * L6 + 2] {
            v.push(Op::Advance(d));
        }
    }
    for i in 0..tickets {
        v.push(Op::Decrypt(i));
    }
    if tickets > 0 {
        v.push(Op::DecryptNoRandom(tickets - 1));
        v.push(Op::DecryptAltered(0));
    }
    v
}
fn histories(ctx: &Ctx) {
    let depth = ctx.pick(7, 8);
    // split over the first three operations
    fn expand(h: Vec<Op>, tickets: usize, left: usize, out: &mut Vec<Vec<Op>>) {
        if left == 0 {
            out.push(h);
            return;
        }
        for op in next_ops(tickets, h.last().copied()) {
            let mut g = h.clone();
            g.push(op);
            expand(g, tickets + (op == Op::Encrypt) as usize, left - 1, out);
        }
    }
    let mut plan = vec![];
    expand(vec![], 0, 3, &mut plan);
    ctx.section("histories", plan.len(), |i, l| {
        let mut rest = vec![];
        let issued = plan[i].iter().filter(|o| **o == Op::Encrypt).count();
        expand(plan[i].clone(), issued, depth - 3, &mut rest);
        for h in &rest {
            let ok = rng::with(stream(4), || {
                clock::set(Some(T0));
                let t = ticketer();
                let mut m = Model { now: T0, switch: T0 + L6, current: 0, previous: None, tickets: vec![] };
                let hist = || format!("{h:?}");
                for op in h {
                    if !apply(l, &t, &mut m, *op, &hist) {
                        return false;
                    }
                }
                // then everything issued, once more
                for j in 0..m.tickets.len() {
                    if !apply(l, &t, &mut m, Op::Decrypt(j), &|| format!("{h:?} then decrypting all")) {
                        return false;
                    }
                }
                let view = m.tickets.iter().map(|(k, p, _)| (*k, p.len())).collect::<Vec<_>>();
                l.s(format!("{} {} {} {:?} {view:?}", m.now - T0, m.switch - T0, m.current, m.previous).as_bytes());
                // no two tickets share randomness
                for (a, x) in m.tickets.iter().enumerate() {
                    for y in &m.tickets[..a] {
                        if x.2 == y.2 {
                            return l.check(false, || format!("{h:?}: the same ticket twice"));
                        }
                    }
                }
                true
            })
            .0;
            if !ok {
                return;
            }
        }
        clock::set(None);
    });
    // rotation for weeks, one encryption at each step of the clock
    let steps = [1u64, 600, 3599, 3600, 3601, L6 / 2, L6 - 1, L6, L6 + 1, 2 * L6 - 1, 2 * L6, 2 * L6 + 1, 5 * L6];
    ctx.section("long-runs", steps.len(), |i, l| {
        rng::with(stream(4), || {
            clock::set(Some(T0));
            let t = ticketer();
            let mut m = Model { now: T0, switch: T0 + L6, current: 0, previous: None, tickets: vec![] };
            let n = ctx.pick(300, 2000);
            for r in 0..n {
                let hist = || format!("clock in steps of {} s, step {r}", steps[i]);
                if !apply(l, &t, &mut m, Op::Encrypt, &hist) {
                    return;
                }
                for back in [1, 2, 3, 5, 10, 40] {
                    if m.tickets.len() >= back {
                        let j = m.tickets.len() - back;
                        if !apply(l, &t, &mut m, Op::Decrypt(j), &hist) {
                            return;
                        }
                    }
                }
                l.s(format!("{i} {r} {}", m.current).as_bytes());
                apply(l, &t, &mut m, Op::Advance(steps[i]), &hist);
            }
        });
        clock::set(None);
    });
}

// --- one ticket -------------------------------------------------------------

fn tickets(ctx: &Ctx) {
    let lens: Vec<usize> = if ctx.quick() { (0..=200).chain([255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 16384, 65535, 65536]).collect() } else { (0..=4200).chain([16383, 16384, 16385, 65535, 65536, 65537]).collect() };
    // any length, after any other
    ctx.section("round-trips", lens.len(), |i, l| {
        rng::with(stream(7), || {
            clock::set(Some(T0));
            let t = ticketer();
            let n = lens[i];
            let p = bytes(n as u64, n);
            l.t(4);
            let Ok(Some(c)) = no_panic(|| t.encrypt(&p)) else {
                l.check(false, || format!("message of {n} bytes cannot be encrypted"));
                return;
            };
            l.check(c.len() > n, || format!("ticket of {} bytes for a message of {n}", c.len()));
            if n >= 8 {
                l.check(!c.windows(8).any(|w| p.windows(8).any(|q| w == q)) || n > 5000, || format!("ticket of {n} bytes shows the message"));
            }
            l.s(&c);
            for other in [1usize, n / 2 + 1, n + 1, 2 * n + 1] {
                let o = t.encrypt(&bytes(3, other)).unwrap_or_default();
                l.check(matches!(no_panic(|| t.decrypt(&o)), Ok(Some(x)) if x == bytes(3, other)), || format!("ticket of {other} bytes issued after one of {n} is refused"));
                l.check(matches!(no_panic(|| t.decrypt(&c)), Ok(Some(x)) if x == p), || format!("ticket of {n} bytes is refused after one of {other} was issued"));
            }
            // another ticketer's
            let u = ticketer();
            let big = u.encrypt(&bytes(1, 2 * n + 100)).unwrap_or_default();
            l.check(no_panic(|| u.decrypt(&c)) == Ok(None), || format!("ticket of {n} bytes accepted by another ticketer"));
            l.check(no_panic(|| t.decrypt(&big)) == Ok(None), || "foreign ticket accepted".into());
        });
        clock::set(None);
    });
    let sizes: Vec<usize> = if ctx.quick() { vec![0, 1, 2, 15, 16, 17, 63, 64, 65, 200, 300] } else { (0..=300).collect() };
    // keys are: current; previous after a rotation
    ctx.section("alterations", sizes.len() * 2, |i, l| {
        let n = sizes[i / 2];
        let rotated = i % 2 == 1;
        rng::with(stream(8), || {
            clock::set(Some(T0));
            let t = ticketer();
            let p = bytes(n as u64, n);
            let c = t.encrypt(&p).unwrap();
            // so that length is no reason to refuse
            let long = t.encrypt(&bytes(5, 3 * n + 400)).unwrap();
            let c2 = t.encrypt(&bytes(6, n)).unwrap();
            if rotated {
                clock::set(Some(T0 + L6 + 1));
                let _ = t.encrypt(&bytes(5, 4 * n + 500)).unwrap();
            }
            let mut refuse = |x: &[u8], what: &dyn Fn() -> String| {
                if x == c || x == c2 || x == long {
                    return;
                }
                l.t(1);
                l.s(x);
                let got = no_panic(|| t.decrypt(x));
                l.check(got == Ok(None), || format!("{n} bytes{}: ticket {} gives {}", if rotated { ", rotated" } else { "" }, what(), show(&got)));
            };
            for j in 0..c.len() {
                for b in 0..8 {
                    let mut x = c.clone();
                    x[j] ^= 1 << b;
                    refuse(&x, &|| format!("with bit {b} of byte {j} flipped"));
                }
                refuse(&c[..j], &|| format!("truncated to {j}"));
                refuse(&c[c.len() - j..], &|| format!("of which only the last {j} are left"));
                refuse(&[&c[..j], &c[j + 1..]].concat(), &|| format!("without byte {j}"));
                refuse(&[&c[..j], &[0], &c[j..]].concat(), &|| format!("with a zero put in at {j}"));
                if j > 0 {
                    refuse(&[&c[..j], &c2[j..]].concat(), &|| format!("spliced at {j} to another"));
                    refuse(&[&c[..j], &long[j..]].concat(), &|| format!("spliced at {j} to a longer one"));
                    refuse(&[&c2[..j], &c[j..]].concat(), &|| format!("after {j} bytes of another"));
                }
            }
            for extra in 1..64 {
                refuse(&[&c[..], &vec![0; extra]].concat(), &|| format!("and {extra} zeros"));
                refuse(&[&c[..], &c[..extra.min(c.len())]].concat(), &|| format!("and {extra} of its bytes again"));
            }
            for f in [0u8, 0xff] {
                for k in 0..long.len() + 70 {
                    refuse(&vec![f; k], &|| format!("of {k} times {f}"));
                    // behind the right start
                    let m = k.min(long.len());
                    for head in [16, 40] {
                        if m > head && m < long.len() {
                            refuse(&[&long[..head], &vec![f; m - head]].concat(), &|| format!("of {head} right bytes and {} times {f}", m - head));
                        }
                    }
                }
            }
            let got = no_panic(|| t.decrypt(&c));
            l.check(got.as_ref().is_ok_and(|g| g.as_ref() == Some(&p)), || format!("{n} bytes: the ticket itself gives {}", show(&got)));
        });
        clock::set(None);
    });
}

// --- randomness -------------------------------------------------------------

fn randomness(ctx: &Ctx) {
    let p = [0u8; 200];
    ctx.section("failing-source", 64, |i, l| {
        clock::set(Some(T0));
        let (k, fill, sticky) = (i / 10, (i % 5) as u8, i / 5 % 2 == 0);
        // creation
        let fails = |s: u64| {
            let mut st = stream(s);
            st.fail_at = Some(k);
            st.fail_fill = fill;
            st.fail_sticky = sticky;
            st
        };
        let (t, st) = rng::with(fails(1), || no_panic(|| rustls_graviola::Ticketer::new().ok()));
        let hit = st.calls.len() > k;
        l.t(3);
        l.s(format!("{k} {fill} {sticky} {hit}").as_bytes());
        match t {
            Ok(t) => l.check(t.is_none() == hit, || format!("creation with request {k} failing: made is {}", t.is_some())),
            Err(e) => l.check(false, || format!("creation with request {k} failing panics: {e}")),
        };
        // encryption, and rotation
        for adv in [0, L6 + 1] {
            clock::set(Some(T0));
            let t = rng::seeded(2, ticketer);
            let first = rng::seeded(3, || t.encrypt(&p)).unwrap();
            clock::set(Some(T0 + adv));
            let (r, st) = rng::with(fails(4), || no_panic(|| t.encrypt(&p)));
            let hit = st.calls.len() > k;
            match r {
                Ok(r) => l.check(r.is_none() == hit, || format!("encryption {adv} s on with request {k} failing: made is {}", r.is_some())),
                Err(e) => l.check(false, || format!("encryption with request {k} failing panics: {e}")),
            };
            // it recovers
            let again = rng::seeded(5, || t.encrypt(&p));
            l.check(again.is_some_and(|a| t.decrypt(&a).as_deref() == Some(&p[..])), || format!("encryption {adv} s on after a failure of request {k}"));
            l.check(rng::seeded(6, || t.decrypt(&first)).as_deref() == Some(&p[..]), || format!("decryption {adv} s on after a failure of request {k}"));
        }
        clock::set(None);
    });
    // everything drawn matters, and there is enough of it: 256 bits for the
    // key, 192 for a nonce
    ctx.section("randomness-used", 3, |i, l| {
        clock::set(Some(T0));
        let create = |b: Vec<u8>| rng::with(State::new(Src::BytesThenConst(b, 9)), ticketer).0;
        let drawn = rng::with(stream(1), ticketer).1.out;
        // body of a ticket under fixed randomness
        let tick = |t: &T| rng::with(State::new(Src::Const(5)), || t.encrypt(&p)).0.unwrap();
        match i {
            0 | 1 => {
                let make = |b: Vec<u8>| {
                    clock::set(Some(T0));
                    if i == 0 {
                        tick(&create(b))
                    } else {
                        // by rotation
                        let t = create(bytes(77, 400));
                        clock::set(Some(T0 + L6 + 1));
                        let x = rng::with(State::new(Src::BytesThenConst(b, 5)), || t.encrypt(&p)).0.unwrap();
                        let y = tick(&t);
                        l_eq_len(&x, &y);
                        y
                    }
                };
                let base = make(drawn.clone());
                let body = |c: &[u8]| c[c.len() - 200..].to_vec();
                let mut matter = 0;
                for j in 0..drawn.len() {
                    let mut b = drawn.clone();
                    b[j] ^= 1;
                    let x = make(b);
                    l.t(1);
                    l.s(&x);
                    matter += (body(&x) != body(&base)) as usize;
                    l.check(x != base, || format!("byte {j} drawn for a key is not used"));
                }
                l.check(matter >= 32, || format!("only {matter} bytes of randomness go into the key"));
            }
            _ => {
                let t = create(drawn.clone());
                let (base, st) = rng::with(stream(3), || t.encrypt(&p).unwrap());
                let mut matter = 0;
                for j in 0..st.out.len() {
                    let mut b = st.out.clone();
                    b[j] ^= 1;
                    let x = rng::with(State::new(Src::Bytes(b)), || t.encrypt(&p)).0.unwrap_or_default();
                    l.t(1);
                    l.s(&x);
                    // the whole keystream changes with it
                    let n = x.len();
                    matter += (n == base.len() && x[n - 216..n - 16].iter().zip(&base[n - 216..n - 16]).filter(|(a, b)| a == b).count() < 20) as usize;
                }
                l.check(matter >= 24, || format!("only {matter} bytes of randomness go into the nonce"));
            }
        }
        clock::set(None);
    });
    fn l_eq_len(a: &[u8], b: &[u8]) {
        assert_eq!(a.len(), b.len());
    }
    // no keystream twice, across tickets, keys and ticketers
    ctx.section("keystreams", 1, |_, l| {
        clock::set(Some(T0));
        rng::with(stream(11), || {
            let mut seen = std::collections::HashSet::new();
            for tk in 0..4 {
                clock::set(Some(T0));
                let t = ticketer();
                for r in 0..ctx.pick(2000, 20000) {
                    if r % 50 == 49 {
                        clock::set(Some(T0 + (r as u64) * L6));
                    }
                    let c = t.encrypt(&p).unwrap();
                    l.t(1);
                    // any two tickets agree at most in the 16-byte key name
                    for at in (16..c.len() - 16).step_by(16) {
                        if !l.check(seen.insert(c[at..at + 16].to_vec()), || format!("ticketer {tk}, ticket {r}: bytes {at}.. are those of another ticket")) {
                            return;
                        }
                    }
                }
            }
            l.s64(seen.len() as u64);
        });
        clock::set(None);
    });
    ctx.section("interface", 1, |_, l| {
        let t = rng::seeded(1, ticketer);
        l.t(2);
        l.s(b"i");
        l.check(t.enabled(), || "not enabled".into());
        l.check(t.lifetime() as u64 == 2 * L6, || format!("lifetime {}", t.lifetime()));
        // nothing of the keys in the debug form
        let (t, st) = rng::with(stream(2), ticketer);
        let d = format!("{t:?}");
        for w in st.out.windows(4) {
            l.check(!d.contains(&hex(w)) && !d.contains(&format!("{w:?}").trim_matches(['[', ']'])), || format!("debug form {d} shows key bytes"));
        }
    });
}

// --- threads ----------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    Short,
    Long,
    Longer,
    DecShort,
    DecLong,
    /// six hours on
    LateShort,
    LateLong,
    LateDec,
}
const ACTS: [Act; 8] = [Act::Short, Act::Long, Act::Longer, Act::DecShort, Act::DecLong, Act::LateShort, Act::LateLong, Act::LateDec];

struct World {
    t: T,
    short: (Vec<u8>, Vec<u8>),
    long: (Vec<u8>, Vec<u8>),
    area: (usize, usize),
}
/// A ticketer in its own pages with two tickets out; `aged`: already rotated.
fn world(aged: bool) -> World {
    arena_page();
    let a = arena_page();
    clock::set(Some(T0));
    let t = in_arena(ticketer);
    let enc = |n| {
        let p = bytes(n as u64, n);
        let c = t.encrypt(&p).unwrap();
        (p, c)
    };
    let (short, long) = (enc(10), enc(30));
    if aged {
        // tickets of the previous key, the current one unused
        clock::set(Some(T0 + L6 + 1));
        let _ = in_arena(|| t.decrypt(&short.1));
    }
    let b = arena_page().max(a + 4096);
    World { t, short, long, area: (a, b) }
}
fn act(w: &World, a: Act, aged: bool) -> Result<Option<Vec<u8>>, String> {
    let late = matches!(a, Act::LateShort | Act::LateLong | Act::LateDec);
    clock::set(Some(T0 + if aged { L6 + 1 } else { 0 } + if late { L6 + 2 } else { 0 }));
    rng::with(stream(100 + a as u64), || {
        no_panic(|| match a {
            Act::Short | Act::LateShort => w.t.encrypt(&bytes(1, 20)),
            Act::Long | Act::LateLong => w.t.encrypt(&bytes(2, 100)),
            Act::Longer => w.t.encrypt(&bytes(3, 500)),
            Act::DecShort | Act::LateDec => w.t.decrypt(&w.short.1),
            Act::DecLong => w.t.decrypt(&w.long.1),
        })
    })
    .0
}

/// Where `a` is interrupted for `b` to run, on another thread, from start to end.
#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    Write(usize, When),
    Request(usize),
}
/// Whether a thread of this process waits in the kernel.
fn sleeping(tid: usize) -> bool {
    // no allocation here: this runs in a signal handler
    let mut path = *b"/proc/self/task/0000000000/stat\0";
    let mut n = tid;
    for d in path[16..26].iter_mut().rev() {
        *d = b'0' + (n % 10) as u8;
        n /= 10;
    }
    let digits = path[16..26].iter().position(|d| *d != b'0').unwrap_or(9);
    path.copy_within(16 + digits.., 16);
    let mut b = [0u8; 128];
    let got = unsafe {
        let fd = libc::open(path.as_ptr().cast(), libc::O_RDONLY);
        if fd < 0 {
            return false;
        }
        let got = libc::read(fd, b.as_mut_ptr().cast(), b.len());
        libc::close(fd);
        got
    };
    if got <= 0 {
        return false;
    }
    let b = &b[..got as usize];
    match b.iter().rposition(|c| *c == b')') {
        Some(k) => b.get(k + 2) == Some(&b'S'),
        None => false,
    }
}
/// Run `a`, with others at given places.  Gives `a`'s result, the others', how
/// many writes and requests `a` made.
#[allow(clippy::type_complexity)]
fn run(w: &World, aged: bool, a: Act, others: &[(At, Act)]) -> (Result<Option<Vec<u8>>, String>, Vec<Option<Result<Option<Vec<u8>>, String>>>, usize, usize) {
    let go: Vec<AtomicUsize> = others.iter().map(|_| AtomicUsize::new(0)).collect();
    let tids: Vec<AtomicUsize> = others.iter().map(|_| AtomicUsize::new(0)).collect();
    let outs: Mutex<Vec<Option<Result<Option<Vec<u8>>, String>>>> = Mutex::new(vec![None; others.len()]);
    let reqs = Arc::new(AtomicUsize::new(0));
    let mut out = None;
    let mut writes = 0;
    std::thread::scope(|sc| {
        for (k, (_, b)) in others.iter().enumerate() {
            let (go, outs, tids) = (&go, &outs, &tids);
            sc.spawn(move || {
                tids[k].store(unsafe { libc::syscall(libc::SYS_gettid) } as usize, Ordering::Release);
                while go[k].load(Ordering::Acquire) == 0 {
                    std::thread::yield_now();
                }
                if go[k].load(Ordering::Acquire) == 1 {
                    let r = act(w, *b, aged);
                    outs.lock().unwrap()[k] = Some(r);
                    go[k].store(2, Ordering::Release);
                }
            });
        }
        let at = |p: At| {
            for (k, (q, _)) in others.iter().enumerate() {
                if *q == p && go[k].load(Ordering::Acquire) == 0 {
                    go[k].store(1, Ordering::Release);
                    // it may have to wait for a lock the interrupted one holds
                    let t = std::time::Instant::now();
                    let mut asleep = 0;
                    while go[k].load(Ordering::Acquire) == 1 && asleep < 4 && t.elapsed().as_secs() < 2 {
                        for _ in 0..2000 {
                            std::hint::spin_loop();
                        }
                        if t.elapsed().as_micros() > 50 && go[k].load(Ordering::Acquire) == 1 {
                            asleep = if sleeping(tids[k].load(Ordering::Acquire)) { asleep + 1 } else { 0 };
                        }
                    }
                }
            }
        };
        {
            // not after the end of this block
            let at: &dyn Fn(At) = &at;
            let at: &'static dyn Fn(At) = unsafe { std::mem::transmute::<&dyn Fn(At), &'static dyn Fn(At)>(at) };
            let reqs = reqs.clone();
            sched::set_hook(Some(Box::new(move |_| at(At::Request(reqs.fetch_add(1, Ordering::AcqRel))))));
        }
        let hook = |n: usize, when: When, _: usize, _: usize| at(At::Write(n, when));
        let (n, _) = watch::watch(&[w.area, watch::statics()], &hook, &mut || out = Some(act(w, a, aged)));
        writes = n;
        sched::set_hook(None);
        for g in &go {
            let _ = g.compare_exchange(0, 3, Ordering::AcqRel, Ordering::Acquire);
        }
    });
    (out.unwrap(), outs.into_inner().unwrap(), writes, reqs.load(Ordering::Acquire))
}
fn judge(l: &mut L, w: &World, aged: bool, acts: &[(Act, &Result<Option<Vec<u8>>, String>)], what: &dyn Fn() -> String) {
    let late = acts.iter().any(|(a, _)| matches!(a, Act::LateShort | Act::LateLong | Act::LateDec));
    let mut issued = vec![];
    for (a, r) in acts {
        let want = match a {
            Act::Short | Act::LateShort => Err(bytes(1, 20)),
            Act::Long | Act::LateLong => Err(bytes(2, 100)),
            Act::Longer => Err(bytes(3, 500)),
            Act::DecShort | Act::LateDec => Ok(&w.short.0),
            Act::DecLong => Ok(&w.long.0),
        };
        match (want, r) {
            (Err(p), Ok(Some(c))) => issued.push((p, c, a)),
            (Ok(p), Ok(Some(q))) if p == q => {}
            // two rotations after it was issued: rightly gone
            (Ok(_), Ok(None)) if aged && late => {}
            _ => {
                l.check(false, || format!("{}: {a:?} gives {}", what(), show(r)));
            }
        }
    }
    // at whatever point they were issued, tickets are good now, and the
    // earlier ones have not been rotated out by more than one rotation
    for _ in 0..2 {
        for (p, c, a) in &issued {
            let got = no_panic(|| w.t.decrypt(c));
            l.check(got.as_ref().is_ok_and(|g| g.as_ref() == Some(p)), || format!("{}: the ticket from {a:?} then decrypts to {}", what(), show(&got)));
        }
    }
    if !(aged && late) {
        for (p, c) in [&w.short, &w.long] {
            let got = no_panic(|| w.t.decrypt(c));
            l.check(got.as_ref().is_ok_and(|g| g.as_ref() == Some(p)), || format!("{}: an earlier ticket then decrypts to {}", what(), show(&got)));
        }
    }
}

fn threads(ctx: &Ctx) {
    // each operation's places to be interrupted at
    let places: Mutex<Vec<(bool, Act, usize, usize)>> = Default::default();
    ctx.section_t("places", ACTS.len() * 2, 1, |i, l| {
        let (aged, a) = (i % 2 == 1, ACTS[i / 2]);
        rng::with(stream(20), || {
            let w = world(aged);
            let (r, _, n, q) = run(&w, aged, a, &[]);
            judge(l, &w, aged, &[(a, &r)], &|| format!("{a:?} alone"));
            l.t(1);
            l.s(format!("{aged} {a:?} {n} {q}").as_bytes());
            l.note(|| format!("{a:?} (rotated before: {aged}): {n} writes to shared memory, {q} requests for randomness"));
            places.lock().unwrap().push((aged, a, n, q));
        });
        clock::set(None);
    });
    let places = places.into_inner().unwrap();
    let ats = |n: usize, q: usize| -> Vec<At> { (0..n.min(60)).flat_map(|k| [At::Write(k, When::Before), At::Write(k, When::After)]).chain((0..q).map(At::Request)).collect() };
    let mut plan = vec![];
    for (aged, a, n, q) in &places {
        let v = ats(*n, *q);
        for (x, at) in v.iter().enumerate() {
            for b in ACTS {
                plan.push((*aged, *a, vec![(*at, b)]));
                if !ctx.quick() || (x % 3 == 0 && b != *a) {
                    // and another one later on
                    for at2 in v[x..].iter().skip(1).step_by(ctx.pick(3, 1)) {
                        for c in if ctx.quick() { vec![Act::Longer, Act::LateShort] } else { ACTS.to_vec() } {
                            plan.push((*aged, *a, vec![(*at, b), (*at2, c)]));
                        }
                    }
                }
            }
        }
    }
    ctx.section_t("interleavings", plan.len(), 1, |i, l| {
        let (aged, a, others) = &plan[i];
        rng::with(stream(20), || {
            let w = world(*aged);
            let (r, o, n, _) = run(&w, *aged, *a, others);
            l.t(1 + others.len() as u64 + n as u64);
            let mut acts = vec![(*a, &r)];
            for (k, (_, b)) in others.iter().enumerate() {
                if let Some(x) = &o[k] {
                    acts.push((*b, x));
                }
            }
            l.s(format!("{aged} {a:?} {others:?}").as_bytes());
            judge(l, &w, *aged, &acts, &|| format!("{a:?} interrupted by {others:?} (rotated before: {aged})"));
        });
        // what the arena holds is not used again
        NEXT.store(BASE.load(Ordering::Relaxed), Ordering::Relaxed);
        clock::set(None);
    });
}

fn main() {
    fw::main("C24", |ctx| {
        ctx.assume("The clock is the process's wall clock (clock_gettime), here controlled per thread; rotation is on the first use more than six hours after the last, and one previous key is kept (rustls's TicketRotator).");
        histories(ctx);
        tickets(ctx);
        randomness(ctx);
        threads(ctx);
    });
}
