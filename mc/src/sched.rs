//! Scheduling points for the controlled-interleaving checks.  A thread that
//! has a hook installed hands control to the explorer at every point.

use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Point {
    Rng,
    Op,
    Clock,
}

thread_local! {
    static HOOK: RefCell<Option<Box<dyn Fn(Point)>>> = const { RefCell::new(None) };
}

pub fn set_hook(h: Option<Box<dyn Fn(Point)>>) {
    HOOK.with(|c| *c.borrow_mut() = h);
}

pub fn point(p: Point) {
    HOOK.with(|c| {
        if let Some(h) = c.borrow().as_ref() {
            h(p)
        }
    });
}
