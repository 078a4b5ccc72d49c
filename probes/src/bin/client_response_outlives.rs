use probes::*;
fn main() {
	let mut c = client();
	let p = c.read_status_response_timeout(T).unwrap().parameters();
	let copy = p.to_vec();
	drop(c);
	let churn = vec![0xA5u8; 40];
	used_later(p, &copy);
	drop(churn);
}
