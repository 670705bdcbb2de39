// Elements which count their own life: every one that is made is dropped exactly once,
// whichever element of whichever container fails or panics, and in which stage.
include!("drops_lib.rs");

fn monitor(m: &mut Mon) {
    common(m);
}
