use probes::*;
fn main() {
	let mut c = client();
	let a = c.read_status_response(3).unwrap();
	let copy = a.parameters().to_vec();
	let _b = c.read_status_response(3);
	used_later(a.parameters(), &copy);
}
