//@include access_body.rs
fn main() {}
