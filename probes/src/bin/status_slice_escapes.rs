use probes::*;
fn main() {
	let mut d = device();
	let mut stolen: Option<&mut [u8]> = None;
	let _ = d.write_status(1, 0, 4, |b| {
		b.fill(1);
		stolen = Some(b);
		Ok(())
	});
	drop(d);
	let copy = stolen.as_ref().unwrap().to_vec();
	let churn = vec![0xA5u8; 40];
	used_later(stolen.unwrap(), &copy);
	drop(churn);
}
