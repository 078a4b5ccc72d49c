use probes::*;
fn main() {
	let mut c = client();
	let mut s = c.scan().unwrap();
	drop(c);
	let churn = vec![0xA5u8; 40];
	let _ = s.scan_next();
	drop(churn);
}
