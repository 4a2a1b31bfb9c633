#[macro_export]
macro_rules! assert_matches {
    ($e:expr, $p:pat) => { match $e { $p => {}, e => panic!("{e:?}") } };
    ($e:expr, $p:pat => $b:expr) => { match $e { $p => $b, e => panic!("{e:?}") } };
}
