use probes::*;
fn main() {
	let mut c = client();
	let mut stolen: Option<&mut [u8]> = None;
	let _ = c.write_instruction(1, 3, 4, |b| {
		b.fill(1);
		stolen = Some(b);
		Ok(())
	});
	let copy = stolen.as_ref().unwrap().to_vec();
	let _ = c.write_instruction(1, 3, 6, |b| {
		b.fill(2);
		Ok(())
	});
	used_later(stolen.unwrap(), &copy);
}
