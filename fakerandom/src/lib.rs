//! Stand-in for the operating system's random number generator: the harness decides the bytes.
use std::cell::RefCell;
use std::collections::VecDeque;

#[derive(Debug, Clone, Copy)]
pub struct Error;

pub enum Next {
    Bytes(Vec<u8>),
    Fail,
}

thread_local! {
    static QUEUE: RefCell<VecDeque<Next>> = const { RefCell::new(VecDeque::new()) };
    static LOG: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) };
    static CTR: RefCell<u64> = const { RefCell::new(1) };
}

/// The scripted answers of this thread; when they run out, distinct pseudo-random bytes follow.
pub fn script(q: Vec<Next>) {
    QUEUE.with(|x| *x.borrow_mut() = q.into());
    LOG.with(|x| x.borrow_mut().clear());
}
pub fn log() -> Vec<Vec<u8>> {
    LOG.with(|x| x.borrow().clone())
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    let next = QUEUE.with(|q| q.borrow_mut().pop_front());
    match next {
        Some(Next::Fail) => return Err(Error),
        Some(Next::Bytes(b)) => {
            for (i, d) in dest.iter_mut().enumerate() {
                *d = b[i % b.len()];
            }
        }
        None => CTR.with(|c| {
            for d in dest.iter_mut() {
                let mut x = c.borrow_mut();
                *x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                *d = (*x >> 56) as u8;
            }
        }),
    }
    LOG.with(|l| l.borrow_mut().push(dest.to_vec()));
    Ok(())
}
