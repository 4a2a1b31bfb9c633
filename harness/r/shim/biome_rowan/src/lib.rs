//! Stand-in for `biome_rowan`: immutable lossless syntax trees and typed views of them.
mod ast;
mod factory;
mod green;
mod syntax;

pub use ast::support;
pub use ast::*;
pub use biome_text_size::{TextLen, TextRange, TextSize};
pub use factory::*;
pub use green::{NodeCache, TriviaPiece, TriviaPieceKind};
pub use syntax::*;
