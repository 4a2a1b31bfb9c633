use crate::builders::located_token_text;
use crate::{CstFormatContext, FormatResult, FormatRule, Formatter, Buffer};
use biome_rowan::SyntaxToken;
use std::marker::PhantomData;

/// Prints the text of a token, without its trivia.
pub struct FormatToken<C> {
    context: PhantomData<C>,
}
impl<C> Default for FormatToken<C> {
    fn default() -> Self {
        Self { context: PhantomData }
    }
}
impl<C> Clone for FormatToken<C> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<C> Copy for FormatToken<C> {}
impl<C> std::fmt::Debug for FormatToken<C> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("FormatToken")
    }
}
impl<C: CstFormatContext> FormatRule<SyntaxToken<C::Language>> for FormatToken<C> {
    type Context = C;
    fn fmt(&self, token: &SyntaxToken<C::Language>, f: &mut Formatter<C>) -> FormatResult<()> {
        f.state_mut().track_token(token);
        crate::write!(f, [located_token_text(token, token.text_trimmed_range())])
    }
}
