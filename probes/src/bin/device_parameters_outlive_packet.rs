use probes::*;
fn main() {
	let mut d = device();
	let p = d.read_raw_instruction_timeout(T).unwrap().parameters();
	let copy = p.to_vec();
	let _ = d.read(T);
	used_later(p, &copy);
}
