pub mod cont;
pub mod ct;
pub mod fat;
pub mod flt;
pub mod gf;
pub mod rec;
pub mod rng;
pub mod sym;
pub mod txt;
pub mod wf;
pub mod nl;
pub mod xf;
pub use cont::*;
pub use ct::*;
pub use fat::*;
pub use flt::*;
pub use gf::*;
pub use rec::*;
pub use rng::*;
pub use sym::*;
pub use txt::*;
pub use wf::*;

/// The same items behind an iterator that tells less about its length (all hints are true).
pub fn vague<'a, T: 'a>(v: Vec<T>, how: usize) -> Box<dyn Iterator<Item = T> + 'a> {
    let n = v.len();
    let mut it = v.into_iter();
    match how % 6 {
        0 => Box::new(it.filter(|_| true)),
        1 => Box::new(std::iter::from_fn(move || it.next())),
        2 => { let b: Vec<T> = it.by_ref().take(n / 2).collect(); Box::new(b.into_iter().chain(it)) }
        3 => Box::new(it.flat_map(Some)),
        4 => { let b: Vec<T> = it.by_ref().take(n / 3).collect(); Box::new(b.into_iter().chain(std::iter::from_fn(move || it.next()))) }
        _ => Box::new(it.peekable().take_while(|_| true)),
    }
}
