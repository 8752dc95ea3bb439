//! A hash function with chosen outputs, for the library's public `Hash` trait:
//! the underlying hash, except where a table says otherwise.  It remains a
//! function of the message alone, whatever calls compute it.
use mc::hashref::H;
use mc::nist::Hf;
use graviola::hashing::{Hash, HashBlock, HashContext, HashOutput};
use std::cell::RefCell;
use std::collections::HashMap;
use std::marker::PhantomData;

thread_local! {
    static TABLE: RefCell<HashMap<Vec<u8>, Vec<u8>>> = RefCell::new(HashMap::new());
}

pub fn clear() {
    TABLE.with(|t| t.borrow_mut().clear())
}

/// From now on, on this thread, `h(m)` is `v`.
pub fn set(h: H, m: &[u8], v: &[u8]) {
    assert_eq!(v.len(), h.len());
    TABLE.with(|t| t.borrow_mut().insert(h.hash(m), v.to_vec()));
}

fn look(d: Vec<u8>) -> Vec<u8> {
    TABLE.with(|t| t.borrow().get(&d).cloned()).unwrap_or(d)
}

/// the reference side
pub fn hash(h: H, m: &[u8]) -> Vec<u8> {
    look(h.hash(m))
}

/// the two parts of HMAC: the message of the outer hash
pub fn hmac_outer(h: H, key: &[u8], m: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > h.block() { hash(h, key) } else { key.to_vec() };
    k.resize(h.block(), 0);
    let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    i.extend_from_slice(m);
    let inner = hash(h, &i);
    k.iter().map(|b| b ^ 0x5c).chain(inner).collect()
}

pub fn hmac(h: H, key: &[u8], m: &[u8]) -> Vec<u8> {
    hash(h, &hmac_outer(h, key, m))
}

/// Both sides, by way of the pairing of hashes.
pub struct S<F>(PhantomData<F>);
impl<F: Hf> Hf for S<F> {
    type H = Scripted<F>;
    const R: H = F::R;
    fn hash(m: &[u8]) -> Vec<u8> {
        hash(F::R, m)
    }
    fn hmac(k: &[u8], m: &[u8]) -> Vec<u8> {
        hmac(F::R, k, m)
    }
}

/// the library's side
pub struct Scripted<F>(PhantomData<F>);
pub struct Context<F: Hf>(<F::H as Hash>::Context);
impl<F: Hf> Clone for Context<F> {
    fn clone(&self) -> Self {
        Context(self.0.clone())
    }
}
fn replace(o: HashOutput) -> HashOutput {
    let v = look(o.as_ref().to_vec());
    match o {
        HashOutput::Sha256(_) => HashOutput::Sha256(v.try_into().unwrap()),
        HashOutput::Sha384(_) => HashOutput::Sha384(v.try_into().unwrap()),
        HashOutput::Sha512(_) => HashOutput::Sha512(v.try_into().unwrap()),
    }
}
impl<F: Hf> HashContext for Context<F> {
    fn update(&mut self, b: &[u8]) {
        self.0.update(b)
    }
    fn finish(self) -> HashOutput {
        replace(self.0.finish())
    }
}
impl<F: Hf> Hash for Scripted<F> {
    type Context = Context<F>;
    fn new() -> Context<F> {
        Context(F::H::new())
    }
    fn hash(b: &[u8]) -> HashOutput {
        replace(F::H::hash(b))
    }
    fn zeroed_block() -> HashBlock {
        F::H::zeroed_block()
    }
    fn zeroed_output() -> HashOutput {
        F::H::zeroed_output()
    }
}
