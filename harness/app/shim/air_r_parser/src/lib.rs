//! Stand-in for the parser of a toy language: a text is a sequence of lines, and a line `SYNTAX ERROR` is an error.
#[derive(Default, Debug, Clone, Copy, serde::Deserialize, serde::Serialize)]
pub struct RParserOptions {}

#[derive(Debug, Clone)]
pub struct ParseError { message: String }
impl std::error::Error for ParseError {}
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.message) }
}

#[derive(Clone, Debug)]
pub struct Parse { text: String, error: Option<ParseError> }

impl Parse {
    pub fn syntax(&self) -> String { self.text.clone() }
    pub fn into_result(self) -> Result<String, ParseError> {
        match self.error { Some(err) => Err(err), None => Ok(self.text) }
    }
    pub fn error(&self) -> Option<&ParseError> { self.error.as_ref() }
    pub fn into_error(self) -> Option<ParseError> { self.error }
    pub fn has_error(&self) -> bool { self.error.is_some() }
}

pub fn parse(text: &str, _options: RParserOptions) -> Parse {
    let error = text.lines().any(|l| l == "SYNTAX ERROR").then(|| ParseError { message: "toy syntax error".into() });
    Parse { text: text.into(), error }
}
