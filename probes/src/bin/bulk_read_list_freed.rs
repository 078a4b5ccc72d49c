use probes::*;
fn main() {
	let mut c = client();
	let reads = vec![dynamixel2::instructions::BulkReadData { motor_id: 1, address: 5, count: 3 }];
	let mut it = c.bulk_read_bytes::<Vec<u8>>(&reads).unwrap();
	drop(reads);
	let churn = vec![7u8; 6];
	let a = it.read_next();
	used_later(&a.map_or(vec![], |a| a.map_or(vec![], |a| vec![a.motor_id])), &[1]);
	drop(churn);
}
