// The same with arrays of any length and of elements without a default value.
include!("drops_lib.rs");

fn monitor(m: &mut Mon) {
    common(m);
    case::<[El; 33]>(m, "[El; 33]", 33, None);
    case::<[El; 64]>(m, "[El; 64]", 64, None);
    case::<[El; 100]>(m, "[El; 100]", 100, None);
    case::<[Bare; 0]>(m, "[Bare; 0]", 0, None);
    case::<[Bare; 1]>(m, "[Bare; 1]", 1, None);
    case::<[Bare; 7]>(m, "[Bare; 7]", 7, None);
    case::<[Bare; 40]>(m, "[Bare; 40]", 40, None);
    case::<[[Bare; 3]; 5]>(m, "[[Bare; 3]; 5]", 15, None);
    case::<[Vec<Bare>; 4]>(m, "[Vec<Bare>; 4]", 12, Some(3));
    case::<[Option<Box<Bare>>; 4]>(m, "[Option<Box<Bare>>; 4]", 4, None);
    case::<[PosValue<Bare>; 4]>(m, "[PosValue<Bare>; 4]", 4, None);
    case::<[(Bare, Bare); 4]>(m, "[(Bare, Bare); 4]", 8, None);
    case::<[Fields; 3]>(m, "[Fields; 3]", 18, None);
    case::<Vec<[Bare; 4]>>(m, "Vec<[Bare; 4]>", 12, Some(3));
    case::<Box<[Bare; 4]>>(m, "Box<[Bare; 4]>", 4, None);
    case::<[Zst; 50]>(m, "[Zst; 50]", 50, None);
}
