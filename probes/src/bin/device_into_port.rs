use probes::*;
fn main() {
	let mut d = device();
	let a = d.read(T).unwrap();
	let dynamixel2::Instructions::Write { parameters, .. } = a.instruction else { panic!() };
	let copy = parameters.to_vec();
	let _p = d.into_serial_port();
	let churn = vec![0xA5u8; 40];
	used_later(parameters, &copy);
	drop(churn);
}
