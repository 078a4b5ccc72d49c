use probes::*;
fn main() {
	let c = client();
	std::thread::scope(|s| {
		for _ in 0..2 {
			s.spawn(|| {
				for _ in 0..50 {
					let _ = c.serial_port().clone();
				}
			});
		}
	});
}
