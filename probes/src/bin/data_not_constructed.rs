use dynamixel2::bus::Data;
use probes::*;
// Raw bytes must not become a value that the type does not have.
fn main() {
	let a = <[bool; 2]>::decode(&[7, 9]);
	if let Ok(a) = a {
		used_later(&a.map(|x| if x { 1 } else { 0 }), &[1, 1]);
	}
}
