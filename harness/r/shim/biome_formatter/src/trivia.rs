use crate::builders::{if_group_breaks, text};
use crate::prelude::*;
use crate::{Argument, Arguments};
use biome_rowan::{Language, SyntaxToken, SyntaxTriviaPiece};
use biome_text_size::{TextRange, TextSize};

impl<L: Language, Context> Format<Context> for SyntaxTriviaPiece<L> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let (text, range) = (self.text(), self.text_range());
        let skipped = text.len() - text.trim_start().len();
        let start = range.start() + TextSize::from(skipped as u32);
        let range = TextRange::at(start, TextSize::from(text.trim().len() as u32));
        crate::write!(f, [located_token_text(&self.token(), range)])
    }
}

pub fn format_removed<L: Language>(token: &SyntaxToken<L>) -> FormatRemoved<'_, L> {
    FormatRemoved { token }
}
pub struct FormatRemoved<'a, L: Language> {
    token: &'a SyntaxToken<L>,
}
impl<C: CstFormatContext<Language = L>, L: Language> Format<C> for FormatRemoved<'_, L> {
    fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> {
        f.state_mut().track_token(self.token);
        Ok(())
    }
}

pub fn format_replaced<'a, 'content, L: Language, Context>(
    token: &'a SyntaxToken<L>,
    content: &'content impl Format<Context>,
) -> FormatReplaced<'a, 'content, L, Context> {
    FormatReplaced { token, content: Argument::new(content) }
}
pub struct FormatReplaced<'a, 'content, L: Language, C> {
    token: &'a SyntaxToken<L>,
    content: Argument<'content, C>,
}
impl<L: Language, C: CstFormatContext<Language = L>> Format<C> for FormatReplaced<'_, '_, L, C> {
    fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> {
        f.state_mut().track_token(self.token);
        f.write_fmt(Arguments::from(&self.content))
    }
}

pub fn format_only_if_breaks<'a, 'content, L: Language, Context>(
    token: &'a SyntaxToken<L>,
    content: &'content impl Format<Context>,
) -> FormatOnlyIfBreaks<'a, 'content, L, Context> {
    FormatOnlyIfBreaks { token, content: Argument::new(content) }
}
pub struct FormatOnlyIfBreaks<'a, 'content, L: Language, C> {
    token: &'a SyntaxToken<L>,
    content: Argument<'content, C>,
}
impl<L: Language, C: CstFormatContext<Language = L>> Format<C> for FormatOnlyIfBreaks<'_, '_, L, C> {
    fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> {
        f.state_mut().track_token(self.token);
        crate::write!(f, [if_group_breaks(&Arguments::from(&self.content))])
    }
}
/// The comments that trail a token, each after a space.
pub fn format_trailing_comments_of_token<L: Language>(token: &SyntaxToken<L>) -> FormatTrailingOfToken<'_, L> {
    FormatTrailingOfToken { token }
}
pub struct FormatTrailingOfToken<'a, L: Language> {
    token: &'a SyntaxToken<L>,
}
impl<L: Language, Context> Format<Context> for FormatTrailingOfToken<'_, L> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        for piece in self.token.trailing_trivia().pieces() {
            if piece.is_comments() {
                crate::write!(f, [text(" "), piece])?;
            }
        }
        Ok(())
    }
}
