use probes::*;
fn main() {
	let mut d = device();
	let a = d.read_raw_instruction_timeout(T).unwrap();
	let copy = a.parameters().to_vec();
	let _b = d.read_raw_instruction_timeout(T);
	used_later(a.parameters(), &copy);
}
