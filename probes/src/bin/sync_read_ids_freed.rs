use probes::*;
fn main() {
	let mut c = client();
	let ids = vec![1u8, 1];
	let mut it = c.sync_read::<[u8; 3]>(&ids, 5).unwrap();
	drop(ids);
	let churn = vec![7u8, 7];
	let a = it.next();
	used_later(&a.map_or(vec![], |a| a.map_or(vec![], |a| vec![a.motor_id])), &[1]);
	drop(churn);
}
