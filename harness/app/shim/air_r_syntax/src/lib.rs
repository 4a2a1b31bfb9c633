#[derive(Clone, Debug)]
pub struct RLanguage;
