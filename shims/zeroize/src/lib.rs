//! Stand-in: overwrites with zeroes.
pub trait Zeroize { fn zeroize(&mut self); }
impl Zeroize for u8 { fn zeroize(&mut self) { unsafe { std::ptr::write_volatile(self, 0) } } }
impl<T: Zeroize> Zeroize for [T] { fn zeroize(&mut self) { self.iter_mut().for_each(|b| b.zeroize()) } }
impl Zeroize for std::slice::IterMut<'_, u8> { fn zeroize(&mut self) { self.for_each(|b| b.zeroize()) } }
