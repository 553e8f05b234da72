//@include dht_body.rs
fn main() {}
