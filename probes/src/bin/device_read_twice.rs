use probes::*;
fn main() {
	let mut d = device();
	let a = d.read(T).unwrap();
	let dynamixel2::Instructions::Write { parameters, .. } = a.instruction else { panic!() };
	let copy = parameters.to_vec();
	let _b = d.read(T);
	used_later(parameters, &copy);
}
