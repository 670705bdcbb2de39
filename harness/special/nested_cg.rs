// The same with arrays of any length.
include!("nested_lib.rs");

fn monitor(m: &mut Mon) {
    all(m);
    arrays!(m; 33 34 40 63 64 65 100 127 128 129 255 256 257 500 1000);
    nest::<[[Tiny; 40]; 33]>(m, "[[_; 40]; 33]", 40 * 33, None, Tiny::args);
    nest::<[[TinyArg; 1]; 50]>(m, "[[_; 1]; 50]", 50, None, TinyArg::args);
    nest::<[PosValue<Box<Tiny>>; 4]>(m, "[PosValue Box; 4]", 4, None, Tiny::args);
    nest::<[PosValue<Wide>; 33]>(m, "[PosValue; 33]", 33, None, Wide::args);
    nest::<[Vec<Half>; 35]>(m, "[Vec; 35]", 70, Some(2), Half::args);
}
