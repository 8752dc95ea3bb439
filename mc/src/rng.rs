//! Full control of the randomness the library consumes.
//!
//! graviola's only entropy source is the `getrandom` crate; the harness is
//! built with `--cfg getrandom_backend="custom"`, so every request lands here.
//! Each thread owns a script; with no script, bytes come from a deterministic
//! per-thread stream.

use std::cell::RefCell;

#[derive(Clone, Debug)]
pub enum Src {
    /// splitmix64 stream from this seed
    Stream(u64),
    /// exactly these bytes, then error
    Bytes(Vec<u8>),
    /// constant byte
    Const(u8),
    /// the given bytes, then a stream
    BytesThen(Vec<u8>, u64),
    /// the given bytes, then a constant forever
    BytesThenConst(Vec<u8>, u8),
}

#[derive(Clone, Debug)]
pub struct State {
    pub src: Src,
    pub pos: usize,
    /// lengths of each request so far
    pub calls: Vec<usize>,
    /// requests (by index) that fail
    pub fail_at: Option<usize>,
    /// all requests from the failing one fail too
    pub fail_sticky: bool,
    /// what a failing request leaves in the buffer: 0 zeros, 1 untouched,
    /// 2 the first half of the real bytes, 3 ones, 4 all the real bytes
    pub fail_fill: u8,
    /// bytes handed out
    pub out: Vec<u8>,
    /// give up (panic) beyond this many requests: unbounded retry detector
    pub max_calls: usize,
}

impl State {
    pub fn new(src: Src) -> Self {
        State {
            src,
            pos: 0,
            calls: Vec::new(),
            fail_at: None,
            fail_sticky: true,
            fail_fill: 0,
            out: Vec::new(),
            max_calls: 1 << 20,
        }
    }
}

thread_local! {
    static CUR: RefCell<State> = RefCell::new(State::new(Src::Stream(0x1234)));
}

pub const RNG_EXHAUSTED: &str = "RNG-CALL-BUDGET-EXCEEDED";

/// Install `state`, run `f`, return its result and the final RNG state.
pub fn with<T>(state: State, f: impl FnOnce() -> T) -> (T, State) {
    let old = CUR.with(|c| std::mem::replace(&mut *c.borrow_mut(), state));
    struct Restore(Option<State>);
    impl Drop for Restore {
        fn drop(&mut self) {
            if let Some(o) = self.0.take() {
                CUR.with(|c| *c.borrow_mut() = o);
            }
        }
    }
    let mut r = Restore(Some(old));
    let t = f();
    let old = r.0.take().unwrap();
    let st = CUR.with(|c| std::mem::replace(&mut *c.borrow_mut(), old));
    (t, st)
}

pub fn seeded<T>(seed: u64, f: impl FnOnce() -> T) -> T {
    with(State::new(Src::Stream(seed)), f).0
}

pub fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn stream_byte(seed: u64, pos: usize) -> u8 {
    let w = splitmix(seed.wrapping_mul(0x2545f4914f6cdd1d).wrapping_add((pos / 8) as u64));
    (w >> (8 * (pos % 8))) as u8
}

/// Deterministic filler used all over the harness.
pub fn bytes(seed: u64, n: usize) -> Vec<u8> {
    (0..n).map(|i| stream_byte(seed, i)).collect()
}

pub fn arr<const N: usize>(seed: u64) -> [u8; N] {
    let mut o = [0u8; N];
    for (i, b) in o.iter_mut().enumerate() {
        *b = stream_byte(seed, i);
    }
    o
}

#[unsafe(no_mangle)]
unsafe extern "Rust" fn __getrandom_v03_custom(
    dest: *mut u8,
    len: usize,
) -> Result<(), getrandom::Error> {
    let _p = crate::step::pause();
    let out = unsafe { std::slice::from_raw_parts_mut(dest, len) };
    crate::sched::point(crate::sched::Point::Rng);
    let over = CUR.with(|c| {
        let mut s = c.borrow_mut();
        let idx = s.calls.len();
        s.calls.push(len);
        if idx > s.max_calls {
            return Err(true);
        }
        if let Some(f) = s.fail_at {
            if idx == f || (s.fail_sticky && idx > f) {
                // scribble: a failing source may leave anything in the buffer
                match s.fail_fill {
                    0 => out.fill(0),
                    1 => {}
                    3 => out.fill(0xff),
                    k => {
                        let n = if k == 2 { len / 2 } else { len };
                        let pos = s.pos;
                        for (i, b) in out[..n].iter_mut().enumerate() {
                            *b = stream_byte(77, pos + i);
                        }
                    }
                }
                return Err(false);
            }
        }
        let pos = s.pos;
        for (i, b) in out.iter_mut().enumerate() {
            let p = pos + i;
            *b = match &s.src {
                Src::Stream(seed) => stream_byte(*seed, p),
                Src::Const(v) => *v,
                Src::Bytes(v) => match v.get(p) {
                    Some(b) => *b,
                    None => return Err(false),
                },
                Src::BytesThen(v, seed) => match v.get(p) {
                    Some(b) => *b,
                    None => stream_byte(*seed, p),
                },
                Src::BytesThenConst(v, c) => match v.get(p) {
                    Some(b) => *b,
                    None => *c,
                },
            };
        }
        s.pos += len;
        s.out.extend_from_slice(out);
        Ok(())
    });
    match over {
        Ok(()) => Ok(()),
        Err(false) => Err(getrandom::Error::new_custom(7)),
        Err(true) => panic!("{RNG_EXHAUSTED}"),
    }
}
