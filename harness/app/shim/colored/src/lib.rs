//! Stand-in: what is underlined is plain.
pub mod control {
    pub fn set_override(_: bool) {}
}
pub trait Colorize: Sized {
    fn underline(self) -> Self { self }
    fn bold(self) -> Self { self }
    fn red(self) -> Self { self }
    fn normal(self) -> Self { self }
}
impl Colorize for String {}
impl Colorize for &str {}
