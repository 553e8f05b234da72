//@include flo_body.rs
fn main() {}
