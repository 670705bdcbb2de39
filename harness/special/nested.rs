include!("nested_lib.rs");

fn monitor(m: &mut Mon) {
    all(m);
}
