//@include kad_body.rs
fn main() {}
