#[macro_export]
macro_rules! const_assert { ($x:expr $(,)?) => { const _: [(); 0 - !{ const A: bool = $x; A } as usize] = []; }; }
#[macro_export]
macro_rules! const_assert_eq { ($x:expr, $y:expr $(,)?) => { const _: [(); 0 - !{ const A: bool = $x == $y; A } as usize] = []; }; }
