//! 64 bit counters on platforms without 64 bit atomics.

#[cfg(target_has_atomic = "64")]
pub use std::sync::atomic::AtomicU64;

#[cfg(not(target_has_atomic = "64"))]
pub struct AtomicU64(std::sync::Mutex<u64>);

#[cfg(not(target_has_atomic = "64"))]
impl AtomicU64 {
	pub const fn new(v: u64) -> Self {
		Self(std::sync::Mutex::new(v))
	}
	fn update(&self, f: impl FnOnce(u64) -> u64) -> u64 {
		let mut x = self.0.lock().unwrap();
		let old = *x;
		*x = f(old);
		old
	}
	pub fn load(&self, _: std::sync::atomic::Ordering) -> u64 {
		self.update(|x| x)
	}
	pub fn into_inner(self) -> u64 {
		self.0.into_inner().unwrap()
	}
	pub fn store(&self, v: u64, _: std::sync::atomic::Ordering) {
		self.update(|_| v);
	}
	pub fn fetch_add(&self, v: u64, _: std::sync::atomic::Ordering) -> u64 {
		self.update(|x| x.wrapping_add(v))
	}
	pub fn fetch_xor(&self, v: u64, _: std::sync::atomic::Ordering) -> u64 {
		self.update(|x| x ^ v)
	}
	pub fn fetch_max(&self, v: u64, _: std::sync::atomic::Ordering) -> u64 {
		self.update(|x| x.max(v))
	}
}
