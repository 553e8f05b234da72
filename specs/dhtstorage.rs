//@include dhtstorage_body.rs
fn main() {}
