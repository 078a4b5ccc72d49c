use probes::*;
fn main() {
	let d = device();
	let p = d.serial_port().clone();
	let t = std::thread::spawn(move || {
		let d = d;
		for _ in 0..50 {
			let _ = d.serial_port().clone();
		}
	});
	for _ in 0..50 {
		let _ = p.clone();
		let _ = p.0.borrow_mut().pop_front();
	}
	t.join().unwrap();
}
