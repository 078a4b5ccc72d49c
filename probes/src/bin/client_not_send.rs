use probes::*;
// The port counts references without synchronisation: it must not be usable from two threads.
fn main() {
	let c = client();
	let p = c.serial_port().clone();
	let t = std::thread::spawn(move || {
		let mut c = c;
		for _ in 0..50 {
			let _ = c.ping(1);
			let _ = c.serial_port().clone();
		}
	});
	for _ in 0..50 {
		let _ = p.clone();
		let _ = p.0.borrow_mut().pop_front();
	}
	t.join().unwrap();
}
