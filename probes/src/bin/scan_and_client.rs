use probes::*;
fn main() {
	let mut c = client();
	let mut s = c.scan().unwrap();
	let _ = c.ping(1);
	let _ = s.scan_next();
}
