//! Buffers with inaccessible pages directly at both ends.
//!
//! A region is backed by a memory file mapped twice: the view handed to the
//! library lies between two inaccessible pages (and is read-only for inputs),
//! the harness writes through the other one.  Any access beyond the region,
//! or write to an input, is a fault at the instruction that makes it.
use std::cell::RefCell;

pub const PAGE: usize = 4096;

pub struct Region {
    /// the harness's view
    rw: *mut u8,
    /// the library's view
    view: *mut u8,
    len: usize,
}

impl Region {
    pub fn new(pages: usize, writable: bool) -> Region {
        let len = pages * PAGE;
        unsafe {
            let fd = libc::memfd_create(c"mc".as_ptr(), 0);
            assert!(fd >= 0, "memfd_create");
            assert!(libc::ftruncate(fd, len as i64) == 0);
            let rw = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            assert!(rw != libc::MAP_FAILED);
            let outer = libc::mmap(std::ptr::null_mut(), len + 2 * PAGE, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(outer != libc::MAP_FAILED);
            let prot = libc::PROT_READ | if writable { libc::PROT_WRITE } else { 0 };
            let view = libc::mmap(outer.cast::<u8>().add(PAGE).cast(), len, prot, libc::MAP_SHARED | libc::MAP_FIXED, fd, 0);
            assert!(view != libc::MAP_FAILED);
            libc::close(fd);
            Region { rw: rw.cast(), view: view.cast(), len }
        }
    }
}
impl Drop for Region {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.rw.cast(), self.len);
            libc::munmap(self.view.sub(PAGE).cast(), self.len + 2 * PAGE);
        }
    }
}

/// Where in its region a buffer lies.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Place {
    /// its last byte is the last accessible one
    End,
    /// its first byte is the first accessible one
    Start,
}
pub const PLACES: [Place; 2] = [Place::End, Place::Start];

thread_local! {
    static POOL: RefCell<Vec<(bool, Region)>> = const { RefCell::new(vec![]) };
}

/// A buffer in a guarded region.
pub struct Buf {
    r: Option<Region>,
    w: bool,
    off: usize,
    len: usize,
}
const BG: u8 = 0xc3;
impl Buf {
    fn make(data: &[u8], place: Place, writable: bool) -> Buf {
        let need = data.len().div_ceil(PAGE).max(1);
        let r = POOL.with(|p| {
            let mut p = p.borrow_mut();
            match p.iter().position(|(w, r)| *w == writable && r.len >= need * PAGE && r.len <= 4 * need * PAGE) {
                Some(i) => p.swap_remove(i).1,
                None => Region::new(need, writable),
            }
        });
        let off = match place {
            Place::End => r.len - data.len(),
            Place::Start => 0,
        };
        unsafe {
            // background around outputs: strays inside the region show too
            if writable {
                std::ptr::write_bytes(r.rw, BG, r.len);
            }
            std::ptr::copy_nonoverlapping(data.as_ptr(), r.rw.add(off), data.len());
        }
        Buf { r: Some(r), w: writable, off, len: data.len() }
    }
    pub fn input(data: &[u8], place: Place) -> Buf {
        Self::make(data, place, false)
    }
    pub fn output(data: &[u8], place: Place) -> Buf {
        Self::make(data, place, true)
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.r.as_ref().unwrap().view.add(self.off), self.len) }
    }
    pub fn arr<const N: usize>(&self) -> &[u8; N] {
        self.get().try_into().unwrap()
    }
    pub fn get_mut(&mut self) -> &mut [u8] {
        assert!(self.w);
        unsafe { std::slice::from_raw_parts_mut(self.r.as_ref().unwrap().view.add(self.off), self.len) }
    }
    /// nothing in the region but the buffer was written
    pub fn clean(&self) -> bool {
        let r = self.r.as_ref().unwrap();
        let all = unsafe { std::slice::from_raw_parts(r.rw, r.len) };
        all[..self.off].iter().chain(&all[self.off + self.len..]).all(|b| *b == BG)
    }
}
impl Drop for Buf {
    fn drop(&mut self) {
        let r = self.r.take().unwrap();
        let w = self.w;
        let _ = POOL.try_with(|p| {
            let mut p = p.borrow_mut();
            if p.len() < 64 {
                p.push((w, r));
            }
        });
    }
}
