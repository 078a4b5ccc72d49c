use probes::*;
fn main() {
	let mut d = device();
	let a = d.read(T).unwrap();
	let dynamixel2::Instructions::Write { parameters, .. } = a.instruction else { panic!() };
	let copy = parameters.to_vec();
	let _ = d.write_status_ok(1);
	let _ = d.read(T);
	used_later(parameters, &copy);
}
