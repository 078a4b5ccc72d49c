//! Pseudo terminals: real serial device nodes with the harness at the other end of the cable.

use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::time::{Duration, Instant};

/// A pseudo terminal: `master` is the other end of the cable, `keep` holds the terminal open and looks at its state.
pub struct Pty {
	pub master: std::fs::File,
	pub keep: std::fs::File,
	pub path: String,
}

pub fn pty() -> Pty {
	unsafe {
		let fd = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
		assert!(fd >= 0, "no pseudo terminal: {}", std::io::Error::last_os_error());
		let master = std::fs::File::from_raw_fd(fd);
		assert!(libc::grantpt(fd) == 0 && libc::unlockpt(fd) == 0, "no pseudo terminal");
		let mut name = [0; 100];
		assert!(libc::ptsname_r(fd, name.as_mut_ptr(), name.len()) == 0);
		let path = std::ffi::CStr::from_ptr(name.as_ptr()).to_str().unwrap().to_string();
		use std::os::unix::fs::OpenOptionsExt;
		let keep = std::fs::OpenOptions::new()
			.read(true)
			.write(true)
			.custom_flags(libc::O_NOCTTY | libc::O_NONBLOCK)
			.open(&path)
			.unwrap();
		Pty { master, keep, path }
	}
}

impl Pty {
	pub fn termios(&self) -> libc::termios2 {
		unsafe {
			let mut t = std::mem::zeroed();
			assert!(libc::ioctl(self.keep.as_raw_fd(), libc::TCGETS2 as _, &mut t) == 0);
			t
		}
	}
	/// The number of bytes that wait to be read by the library.
	pub fn pending(&self) -> usize {
		let mut n: libc::c_int = 0;
		assert!(unsafe { libc::ioctl(self.keep.as_raw_fd(), libc::FIONREAD, &mut n) } == 0);
		n as usize
	}
	/// Send bytes to the library and wait until they can be read.
	pub fn deliver(&self, bytes: &[u8]) {
		let before = self.pending();
		(&self.master).write_all(bytes).unwrap();
		let start = Instant::now();
		while self.pending() < before + bytes.len() {
			assert!(start.elapsed() < Duration::from_secs(20), "the pseudo terminal does not deliver");
			std::thread::yield_now();
		}
	}
	/// What the library transmitted, waiting at most this long for at least `n` bytes.
	pub fn sent(&self, n: usize, limit: Duration) -> Vec<u8> {
		let start = Instant::now();
		let mut all = vec![];
		loop {
			let mut fd = libc::pollfd {
				fd: self.master.as_raw_fd(),
				events: libc::POLLIN,
				revents: 0,
			};
			let left = if all.len() >= n { Duration::ZERO } else { limit.saturating_sub(start.elapsed()) };
			if unsafe { libc::poll(&mut fd, 1, left.as_millis() as i32) } < 1 {
				return all;
			}
			let mut buf = [0; 4096];
			match (&self.master).read(&mut buf) {
				Ok(k) => all.extend_from_slice(&buf[..k]),
				Err(_) => return all,
			}
		}
	}
}
