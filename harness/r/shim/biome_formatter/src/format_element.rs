//! The document that the formatter builds and the printer prints.
use biome_rowan::TokenText;
use biome_text_size::TextSize;
use std::cell::Cell;
use std::ops::Deref;
use std::rc::Rc;

pub const LINE_TERMINATORS: [char; 3] = ['\r', '\u{2028}', '\u{2029}'];
/// Replaces the line terminators, or `\r\n` pairs, with `\n`.
pub fn normalize_newlines<const N: usize>(text: &str, terminators: [char; N]) -> std::borrow::Cow<'_, str> {
    let mut result = String::new();
    let mut last_end = 0;
    for (start, part) in text.match_indices(terminators) {
        result.push_str(&text[last_end..start]);
        result.push('\n');
        last_end = start + part.len();
        if part == "\r" && text[last_end..].starts_with('\n') {
            last_end += 1;
        }
    }
    if result.is_empty() && last_end == 0 {
        std::borrow::Cow::Borrowed(text)
    } else {
        result.push_str(&text[last_end..]);
        std::borrow::Cow::Owned(result)
    }
}

pub mod tag {
    pub use super::{Align, Condition, DedentMode, Group, GroupMode, LabelId, PrintMode, Tag, TagKind, VerbatimKind};
}
pub mod document {
    pub use super::Document;
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub enum FormatElement {
    Space,
    HardSpace,
    Line(LineMode),
    ExpandParent,
    StaticText { text: &'static str },
    DynamicText { text: Box<str>, source_position: TextSize },
    LocatedTokenText { source_position: TextSize, slice: TokenText },
    LineSuffixBoundary,
    Interned(Interned),
    BestFitting(BestFittingElement),
    Tag(Tag),
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum LineMode {
    SoftOrSpace,
    Soft,
    Hard,
    Empty,
}
impl LineMode {
    pub const fn is_hard(&self) -> bool {
        matches!(self, LineMode::Hard)
    }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum PrintMode {
    Flat,
    Expanded,
}
impl PrintMode {
    pub const fn is_flat(&self) -> bool {
        matches!(self, PrintMode::Flat)
    }
    pub const fn is_expanded(&self) -> bool {
        matches!(self, PrintMode::Expanded)
    }
}

#[derive(Clone, Debug)]
pub struct Interned(Rc<[FormatElement]>);
impl Interned {
    pub fn new(content: Vec<FormatElement>) -> Self {
        Self(content.into())
    }
    pub(crate) fn key(&self) -> *const FormatElement {
        self.0.as_ptr()
    }
}
impl PartialEq for Interned {
    fn eq(&self, other: &Interned) -> bool {
        Rc::ptr_eq(&self.0, &other.0)
    }
}
impl Eq for Interned {}
impl Deref for Interned {
    type Target = [FormatElement];
    fn deref(&self) -> &[FormatElement] {
        &self.0
    }
}

#[derive(Clone, Eq, PartialEq, Debug)]
pub struct BestFittingElement {
    variants: Box<[Box<[FormatElement]>]>,
}
impl BestFittingElement {
    /// # Safety
    /// The slice must contain at least two variants.
    pub unsafe fn from_vec_unchecked(variants: Vec<Box<[FormatElement]>>) -> Self {
        debug_assert!(variants.len() >= 2);
        Self { variants: variants.into_boxed_slice() }
    }
    pub fn most_expanded(&self) -> &[FormatElement] {
        self.variants.last().expect("best fitting has variants")
    }
    pub fn variants(&self) -> &[Box<[FormatElement]>] {
        &self.variants
    }
    pub fn most_flat(&self) -> &[FormatElement] {
        self.variants.first().expect("best fitting has variants")
    }
}

pub trait FormatElements {
    fn will_break(&self) -> bool;
    fn may_directly_break(&self) -> bool;
}
impl FormatElements for FormatElement {
    fn will_break(&self) -> bool {
        match self {
            FormatElement::ExpandParent => true,
            FormatElement::Tag(Tag::StartGroup(group)) => !group.mode().is_flat(),
            FormatElement::Line(mode) => matches!(mode, LineMode::Hard | LineMode::Empty),
            FormatElement::StaticText { text } => text.contains('\n'),
            FormatElement::DynamicText { text, .. } => text.contains('\n'),
            FormatElement::LocatedTokenText { slice, .. } => slice.text().contains('\n'),
            FormatElement::Interned(interned) => interned.will_break(),
            FormatElement::BestFitting(best_fitting) => best_fitting.most_flat().will_break(),
            FormatElement::LineSuffixBoundary | FormatElement::Space | FormatElement::HardSpace | FormatElement::Tag(_) => false,
        }
    }
    fn may_directly_break(&self) -> bool {
        matches!(self, FormatElement::Line(_))
    }
}
impl FormatElements for [FormatElement] {
    fn will_break(&self) -> bool {
        let mut ignored = 0usize;
        for element in self {
            match element {
                FormatElement::Tag(Tag::StartLineSuffix) => ignored += 1,
                FormatElement::Tag(Tag::EndLineSuffix) => ignored -= 1,
                element if ignored == 0 && element.will_break() => return true,
                _ => {}
            }
        }
        false
    }
    fn may_directly_break(&self) -> bool {
        let mut ignored = 0usize;
        for element in self {
            match element {
                FormatElement::Tag(Tag::StartLineSuffix) => ignored += 1,
                FormatElement::Tag(Tag::EndLineSuffix) => ignored -= 1,
                element if ignored == 0 && element.may_directly_break() => return true,
                _ => {}
            }
        }
        false
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct GroupId(pub(crate) u32);

#[derive(Debug, Copy, Clone, Default, Eq, PartialEq)]
pub enum GroupMode {
    #[default]
    Flat,
    Expand,
    Propagated,
}
impl GroupMode {
    pub const fn is_flat(&self) -> bool {
        matches!(self, GroupMode::Flat)
    }
}

#[derive(Debug, Clone, Default, Eq, PartialEq)]
pub struct Group {
    id: Option<GroupId>,
    mode: Cell<GroupMode>,
}
impl Group {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_id(mut self, id: Option<GroupId>) -> Self {
        self.id = id;
        self
    }
    pub fn with_mode(mut self, mode: GroupMode) -> Self {
        self.mode = Cell::new(mode);
        self
    }
    pub fn mode(&self) -> GroupMode {
        self.mode.get()
    }
    pub fn propagate_expand(&self) {
        if self.mode.get() == GroupMode::Flat {
            self.mode.set(GroupMode::Propagated)
        }
    }
    pub fn id(&self) -> Option<GroupId> {
        self.id
    }
}

#[derive(Debug, Clone, Eq, PartialEq)]
pub struct Condition {
    pub mode: PrintMode,
    pub group_id: Option<GroupId>,
}
impl Condition {
    pub fn new(mode: PrintMode) -> Self {
        Self { mode, group_id: None }
    }
    pub fn with_group_id(mut self, id: Option<GroupId>) -> Self {
        self.group_id = id;
        self
    }
}
#[derive(Debug, Clone, Copy, Eq, PartialEq)]
pub enum DedentMode {
    Level,
    Root,
}
#[derive(Debug, Clone, Eq, PartialEq)]
pub struct Align(pub u8);
#[derive(Debug, Clone, Copy, Eq, PartialEq)]
pub struct LabelId(pub u64);
#[derive(Debug, Clone, Copy, Eq, PartialEq, Hash)]
pub enum VerbatimKind {
    Bogus,
    Suppressed,
    Verbatim { length: TextSize },
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub enum Tag {
    StartIndent,
    EndIndent,
    StartAlign(Align),
    EndAlign,
    StartDedent(DedentMode),
    EndDedent(DedentMode),
    StartGroup(Group),
    EndGroup,
    StartConditionalContent(Condition),
    EndConditionalContent,
    StartIndentIfGroupBreaks(GroupId),
    EndIndentIfGroupBreaks(GroupId),
    StartFill,
    EndFill,
    StartEntry,
    EndEntry,
    StartLineSuffix,
    EndLineSuffix,
    StartVerbatim(VerbatimKind),
    EndVerbatim,
    StartLabelled(LabelId),
    EndLabelled,
}
#[derive(Debug, Copy, Clone, Eq, PartialEq)]
pub enum TagKind {
    Indent,
    Align,
    Dedent,
    Group,
    ConditionalContent,
    IndentIfGroupBreaks,
    Fill,
    Entry,
    LineSuffix,
    Verbatim,
    Labelled,
}
impl Tag {
    pub const fn is_start(&self) -> bool {
        use Tag::*;
        matches!(
            self,
            StartIndent
                | StartAlign(_)
                | StartDedent(_)
                | StartGroup(_)
                | StartConditionalContent(_)
                | StartIndentIfGroupBreaks(_)
                | StartFill
                | StartEntry
                | StartLineSuffix
                | StartVerbatim(_)
                | StartLabelled(_)
        )
    }
    pub const fn is_end(&self) -> bool {
        !self.is_start()
    }
    pub const fn kind(&self) -> TagKind {
        use Tag::*;
        match self {
            StartIndent | EndIndent => TagKind::Indent,
            StartAlign(_) | EndAlign => TagKind::Align,
            StartDedent(_) | EndDedent(_) => TagKind::Dedent,
            StartGroup(_) | EndGroup => TagKind::Group,
            StartConditionalContent(_) | EndConditionalContent => TagKind::ConditionalContent,
            StartIndentIfGroupBreaks(_) | EndIndentIfGroupBreaks(_) => TagKind::IndentIfGroupBreaks,
            StartFill | EndFill => TagKind::Fill,
            StartEntry | EndEntry => TagKind::Entry,
            StartLineSuffix | EndLineSuffix => TagKind::LineSuffix,
            StartVerbatim(_) | EndVerbatim => TagKind::Verbatim,
            StartLabelled(_) | EndLabelled => TagKind::Labelled,
        }
    }
}

#[derive(Debug, Clone, Eq, PartialEq, Default)]
pub struct Document {
    elements: Vec<FormatElement>,
}
impl std::fmt::Display for Document {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:#?}", self.elements)
    }
}
impl From<Vec<FormatElement>> for Document {
    fn from(elements: Vec<FormatElement>) -> Self {
        Self { elements }
    }
}
impl Deref for Document {
    type Target = [FormatElement];
    fn deref(&self) -> &[FormatElement] {
        &self.elements
    }
}
enum Enclosing<'a> {
    Group(&'a Group),
    BestFitting,
}
impl Document {
    pub fn into_elements(self) -> Vec<FormatElement> {
        self.elements
    }
    /// Expands every group that holds something which cannot be printed on one line.
    pub fn propagate_expand(&mut self) {
        let mut seen = std::collections::HashMap::new();
        propagate(&self.elements, &mut Vec::new(), &mut seen);
    }
}
fn propagate<'a>(
    elements: &'a [FormatElement],
    enclosing: &mut Vec<Enclosing<'a>>,
    seen: &mut std::collections::HashMap<*const FormatElement, bool>,
) -> bool {
    let mut expands = false;
    for element in elements {
        let here = match element {
            FormatElement::Tag(Tag::StartGroup(group)) => {
                enclosing.push(Enclosing::Group(group));
                false
            }
            FormatElement::Tag(Tag::EndGroup) => match enclosing.pop() {
                Some(Enclosing::Group(group)) => !group.mode().is_flat(),
                _ => false,
            },
            FormatElement::Interned(interned) => match seen.get(&interned.key()) {
                Some(expands) => *expands,
                None => {
                    let expands = propagate(interned, enclosing, seen);
                    seen.insert(interned.key(), expands);
                    expands
                }
            },
            FormatElement::BestFitting(best_fitting) => {
                enclosing.push(Enclosing::BestFitting);
                for variant in best_fitting.variants() {
                    propagate(variant, enclosing, seen);
                }
                expands = false;
                enclosing.pop();
                continue;
            }
            FormatElement::StaticText { text } => text.contains('\n'),
            FormatElement::DynamicText { text, .. } => text.contains('\n'),
            FormatElement::LocatedTokenText { slice, .. } => slice.text().contains('\n'),
            FormatElement::ExpandParent | FormatElement::Line(LineMode::Hard | LineMode::Empty) => true,
            _ => false,
        };
        if here {
            expands = true;
            if let Some(Enclosing::Group(group)) = enclosing.last() {
                group.propagate_expand();
            }
        }
    }
    expands
}
