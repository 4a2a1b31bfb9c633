//! Turns a document into text.
use crate::format_element::*;
use crate::{IndentStyle, LineEnding, PrintError, PrintResult, Printed};
use biome_text_size::{TextRange, TextSize};
use std::collections::HashMap;
use unicode_width::UnicodeWidthChar;

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct PrintWidth(u32);
impl PrintWidth {
    pub fn new(width: u32) -> Self {
        Self(width)
    }
}
impl From<crate::LineWidth> for PrintWidth {
    fn from(width: crate::LineWidth) -> Self {
        Self(u32::from(width.value()))
    }
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct PrinterOptions {
    pub indent_width: u8,
    pub print_width: PrintWidth,
    pub line_ending: LineEnding,
    pub indent_style: IndentStyle,
}
impl<'a, O: crate::FormatOptions> From<&'a O> for PrinterOptions {
    fn from(options: &'a O) -> Self {
        Self {
            indent_width: options.indent_width().value(),
            print_width: options.line_width().into(),
            line_ending: options.line_ending(),
            indent_style: options.indent_style(),
        }
    }
}
impl Default for PrinterOptions {
    fn default() -> Self {
        Self { indent_width: 2, print_width: PrintWidth::new(80), line_ending: LineEnding::Lf, indent_style: IndentStyle::Tab }
    }
}

#[derive(Clone, Copy, Debug)]
struct Args {
    indent: u16,
    mode: PrintMode,
}
impl Args {
    fn with(self, mode: PrintMode) -> Self {
        Self { mode, ..self }
    }
    fn deeper(self) -> Self {
        Self { indent: self.indent + 1, ..self }
    }
    fn shallower(self) -> Self {
        Self { indent: self.indent.saturating_sub(1), ..self }
    }
}

/// The elements still to print: a stack of slices with positions.
#[derive(Clone, Default)]
struct Queue<'a> {
    slices: Vec<(&'a [FormatElement], usize)>,
}
impl<'a> Queue<'a> {
    fn pop(&mut self) -> Option<&'a FormatElement> {
        loop {
            let (slice, at) = self.slices.last_mut()?;
            if *at < slice.len() {
                let element = &slice[*at];
                *at += 1;
                return Some(element);
            }
            self.slices.pop();
        }
    }
    fn extend(&mut self, slice: &'a [FormatElement]) {
        self.slices.push((slice, 0));
    }
    fn is_empty(&self) -> bool {
        self.slices.iter().all(|(slice, at)| *at >= slice.len())
    }
    /// Consumes everything up to the end tag of `kind` whose start was just taken.
    fn skip(&mut self, kind: TagKind, mut each: impl FnMut(&'a FormatElement)) {
        let mut depth = 1;
        while let Some(element) = self.pop() {
            match element {
                FormatElement::Interned(interned) => {
                    self.extend(interned);
                    continue;
                }
                FormatElement::Tag(tag) if tag.kind() == kind => {
                    if tag.is_start() {
                        depth += 1;
                    } else {
                        depth -= 1;
                        if depth == 0 {
                            return;
                        }
                    }
                }
                _ => {}
            }
            each(element);
        }
    }
}

#[derive(Clone)]
struct Stack(Vec<(TagKind, Args)>, Args);
impl Stack {
    fn top(&self) -> Args {
        self.0.last().map_or(self.1, |entry| entry.1)
    }
    fn push(&mut self, kind: TagKind, args: Args) {
        self.0.push((kind, args));
    }
    fn pop(&mut self, kind: TagKind) -> PrintResult<()> {
        match self.0.pop() {
            Some((found, _)) if found == kind => Ok(()),
            _ => Err(PrintError::InvalidDocument(crate::InvalidDocumentError::Mismatch)),
        }
    }
}

#[derive(PartialEq)]
enum Fits {
    Yes,
    No,
    Maybe,
}

const LINE_SUFFIX_END: &[FormatElement] = &[FormatElement::Tag(Tag::EndLineSuffix)];
const HARD: &FormatElement = &FormatElement::Line(LineMode::Hard);

pub struct Printer<'a> {
    options: PrinterOptions,
    buffer: String,
    pending_indent: u16,
    pending_space: bool,
    measured_group_fits: bool,
    line_width: usize,
    has_empty_line: bool,
    suffixes: Vec<(Vec<&'a FormatElement>, Args)>,
    verbatim: Vec<TextRange>,
    group_modes: HashMap<GroupId, PrintMode>,
}

impl<'a> Printer<'a> {
    pub fn new(options: PrinterOptions) -> Self {
        Self {
            options,
            buffer: String::new(),
            pending_indent: 0,
            pending_space: false,
            measured_group_fits: false,
            line_width: 0,
            has_empty_line: false,
            suffixes: Vec::new(),
            verbatim: Vec::new(),
            group_modes: HashMap::new(),
        }
    }
    pub fn print(self, document: &'a Document) -> PrintResult<Printed> {
        self.print_with_indent(document, 0)
    }
    pub fn print_with_indent(mut self, document: &'a Document, indent: u16) -> PrintResult<Printed> {
        let mut stack = Stack(Vec::new(), Args { indent, mode: PrintMode::Expanded });
        let mut queue = Queue::default();
        queue.extend(document);
        while let Some(element) = queue.pop() {
            self.element(&mut queue, &mut stack, element)?;
            if queue.is_empty() {
                self.flush(&mut queue, &mut stack, None);
            }
        }
        Ok(Printed::new(self.buffer, None, Vec::new(), self.verbatim))
    }

    fn element(&mut self, queue: &mut Queue<'a>, stack: &mut Stack, element: &'a FormatElement) -> PrintResult<()> {
        let args = stack.top();
        match element {
            FormatElement::Space | FormatElement::HardSpace => {
                if self.line_width > 0 {
                    self.pending_space = true;
                }
            }
            FormatElement::StaticText { text } => self.text(text),
            FormatElement::DynamicText { text, .. } => self.text(text),
            FormatElement::LocatedTokenText { slice, .. } => self.text(slice.text()),
            FormatElement::Line(mode) => {
                if args.mode.is_flat() && matches!(mode, LineMode::Soft | LineMode::SoftOrSpace) {
                    if *mode == LineMode::SoftOrSpace && self.line_width > 0 {
                        self.pending_space = true;
                    }
                } else if !self.suffixes.is_empty() {
                    self.flush(queue, stack, Some(element));
                } else {
                    if self.line_width > 0 {
                        self.char('\n');
                    }
                    if *mode == LineMode::Empty && !self.has_empty_line {
                        self.char('\n');
                        self.has_empty_line = true;
                    }
                    self.pending_space = false;
                    self.pending_indent = args.indent;
                    self.measured_group_fits = false;
                }
            }
            FormatElement::ExpandParent => {}
            FormatElement::LineSuffixBoundary => self.flush(queue, stack, Some(HARD)),
            FormatElement::BestFitting(best_fitting) => self.best_fitting(best_fitting, queue, stack)?,
            FormatElement::Interned(content) => queue.extend(content),
            FormatElement::Tag(tag) => match tag {
                Tag::StartGroup(group) => {
                    let mode = match group.mode() {
                        GroupMode::Expand | GroupMode::Propagated => PrintMode::Expanded,
                        GroupMode::Flat if args.mode.is_flat() && self.measured_group_fits => PrintMode::Flat,
                        GroupMode::Flat => {
                            self.measured_group_fits = true;
                            stack.push(TagKind::Group, args.with(PrintMode::Flat));
                            let fits = self.fits(queue, stack)?;
                            stack.pop(TagKind::Group)?;
                            if fits { PrintMode::Flat } else { PrintMode::Expanded }
                        }
                    };
                    stack.push(TagKind::Group, args.with(mode));
                    if let Some(id) = group.id() {
                        self.group_modes.insert(id, mode);
                    }
                }
                Tag::StartIndent => stack.push(TagKind::Indent, args.deeper()),
                Tag::StartDedent(DedentMode::Level) => stack.push(TagKind::Dedent, args.shallower()),
                Tag::StartDedent(DedentMode::Root) => stack.push(TagKind::Dedent, Args { indent: 0, ..args }),
                Tag::StartConditionalContent(condition) => {
                    let mode = condition.group_id.map_or(args.mode, |id| self.group_modes[&id]);
                    if mode != condition.mode {
                        queue.skip(TagKind::ConditionalContent, |_| {});
                    } else {
                        stack.push(TagKind::ConditionalContent, args);
                    }
                }
                Tag::StartIndentIfGroupBreaks(id) => {
                    let args = if self.group_modes[id].is_flat() { args } else { args.deeper() };
                    stack.push(TagKind::IndentIfGroupBreaks, args);
                }
                Tag::StartLineSuffix => {
                    let mut content = Vec::new();
                    queue.skip(TagKind::LineSuffix, |element| content.push(element));
                    self.suffixes.push((content, args));
                }
                Tag::StartVerbatim(kind) => {
                    if let VerbatimKind::Verbatim { length } = kind {
                        self.verbatim.push(TextRange::at(TextSize::from(self.buffer.len() as u32), *length));
                    }
                    stack.push(TagKind::Verbatim, args);
                }
                Tag::StartAlign(_) | Tag::StartFill | Tag::StartEntry | Tag::StartLabelled(_) => stack.push(tag.kind(), args),
                tag => stack.pop(tag.kind())?,
            },
        }
        Ok(())
    }

    fn best_fitting(&mut self, best_fitting: &'a BestFittingElement, queue: &mut Queue<'a>, stack: &mut Stack) -> PrintResult<()> {
        let args = stack.top();
        if args.mode.is_flat() && self.measured_group_fits {
            queue.extend(best_fitting.most_flat());
            return self.entry(queue, stack, args);
        }
        self.measured_group_fits = true;
        let variants = best_fitting.variants();
        for variant in &variants[..variants.len() - 1] {
            let args = args.with(PrintMode::Flat);
            let mut rest = queue.clone();
            rest.extend(&variant[1..]);
            stack.push(TagKind::Entry, args);
            let fits = self.fits(&rest, stack)?;
            stack.pop(TagKind::Entry)?;
            if fits {
                queue.extend(variant);
                return self.entry(queue, stack, args);
            }
        }
        queue.extend(best_fitting.most_expanded());
        self.entry(queue, stack, args.with(PrintMode::Expanded))
    }

    /// Prints a single entry, with the given arguments.
    fn entry(&mut self, queue: &mut Queue<'a>, stack: &mut Stack, args: Args) -> PrintResult<()> {
        if !matches!(queue.pop(), Some(FormatElement::Tag(Tag::StartEntry))) {
            return Err(PrintError::InvalidDocument(crate::InvalidDocumentError::Mismatch));
        }
        stack.push(TagKind::Entry, args);
        let mut depth = 1;
        while let Some(element) = queue.pop() {
            match element {
                FormatElement::Tag(Tag::StartEntry) => depth += 1,
                FormatElement::Tag(Tag::EndEntry) => depth -= 1,
                _ => {}
            }
            self.element(queue, stack, element)?;
            if depth == 0 {
                return Ok(());
            }
        }
        Err(PrintError::InvalidDocument(crate::InvalidDocumentError::Mismatch))
    }

    fn flush(&mut self, queue: &mut Queue<'a>, stack: &mut Stack, line: Option<&'a FormatElement>) {
        let suffixes = std::mem::take(&mut self.suffixes);
        if suffixes.is_empty() {
            return;
        }
        if let Some(line) = line {
            queue.extend(std::slice::from_ref(line));
        }
        for (content, args) in suffixes.into_iter().rev() {
            stack.push(TagKind::LineSuffix, args);
            queue.extend(LINE_SUFFIX_END);
            for element in content.into_iter().rev() {
                queue.extend(std::slice::from_ref(element));
            }
        }
    }

    fn text(&mut self, text: &str) {
        let indent = std::mem::take(&mut self.pending_indent) as usize;
        let (char, width) = match self.options.indent_style {
            IndentStyle::Tab => ('\t', 1),
            IndentStyle::Space => (' ', self.options.indent_width as usize),
        };
        for _ in 0..indent * width {
            self.char(char);
        }
        if self.pending_space {
            self.char(' ');
            self.pending_space = false;
        }
        for char in text.chars() {
            self.char(char);
            self.has_empty_line = false;
        }
    }

    fn char(&mut self, char: char) {
        if char == '\n' {
            self.buffer.push_str(self.options.line_ending.as_str());
            self.line_width = 0;
            self.measured_group_fits = false;
        } else {
            self.buffer.push(char);
            self.line_width += width(char, &self.options);
        }
    }

    /// Whether the content up to the next possible line break fits on the current line.
    fn fits(&mut self, queue: &Queue<'a>, stack: &Stack) -> PrintResult<bool> {
        let mut queue = queue.clone();
        let mut stack = stack.clone();
        let mut state = Measure {
            indent: self.pending_indent,
            space: self.pending_space,
            width: self.line_width,
            suffix: !self.suffixes.is_empty(),
        };
        while let Some(element) = queue.pop() {
            match self.fits_element(element, &mut queue, &mut stack, &mut state)? {
                Fits::Yes => return Ok(true),
                Fits::No => return Ok(false),
                Fits::Maybe => {}
            }
        }
        Ok(true)
    }

    fn fits_element(&mut self, element: &'a FormatElement, queue: &mut Queue<'a>, stack: &mut Stack, state: &mut Measure) -> PrintResult<Fits> {
        let args = stack.top();
        match element {
            FormatElement::Space | FormatElement::HardSpace => {
                if state.width > 0 {
                    state.space = true;
                }
            }
            FormatElement::Line(mode) => {
                if !args.mode.is_flat() || matches!(mode, LineMode::Hard | LineMode::Empty) {
                    return Ok(Fits::Yes);
                }
                if *mode == LineMode::SoftOrSpace {
                    state.space = true;
                }
            }
            FormatElement::StaticText { text } => return Ok(self.fits_text(text, state)),
            FormatElement::DynamicText { text, .. } => return Ok(self.fits_text(text, state)),
            FormatElement::LocatedTokenText { slice, .. } => return Ok(self.fits_text(slice.text(), state)),
            FormatElement::LineSuffixBoundary => {
                if state.suffix {
                    return Ok(Fits::No);
                }
            }
            FormatElement::ExpandParent => {}
            FormatElement::BestFitting(best_fitting) => {
                let slice = if args.mode.is_flat() { best_fitting.most_flat() } else { best_fitting.most_expanded() };
                queue.extend(slice);
            }
            FormatElement::Interned(content) => queue.extend(content),
            FormatElement::Tag(tag) => match tag {
                Tag::StartGroup(group) => {
                    let mode = if group.mode().is_flat() { args.mode } else { PrintMode::Expanded };
                    stack.push(TagKind::Group, args.with(mode));
                    if let Some(id) = group.id() {
                        self.group_modes.insert(id, mode);
                    }
                }
                Tag::StartIndent => stack.push(TagKind::Indent, args.deeper()),
                Tag::StartDedent(DedentMode::Level) => stack.push(TagKind::Dedent, args.shallower()),
                Tag::StartDedent(DedentMode::Root) => stack.push(TagKind::Dedent, Args { indent: 0, ..args }),
                Tag::StartConditionalContent(condition) => {
                    let mode = condition.group_id.map_or(args.mode, |id| self.group_modes.get(&id).copied().unwrap_or(PrintMode::Flat));
                    if mode != condition.mode {
                        queue.skip(TagKind::ConditionalContent, |_| {});
                    } else {
                        stack.push(TagKind::ConditionalContent, args);
                    }
                }
                Tag::StartIndentIfGroupBreaks(id) => {
                    let flat = self.group_modes.get(id).copied().unwrap_or(PrintMode::Flat).is_flat();
                    stack.push(TagKind::IndentIfGroupBreaks, if flat { args } else { args.deeper() });
                }
                Tag::StartLineSuffix => {
                    queue.skip(TagKind::LineSuffix, |_| {});
                    state.suffix = true;
                }
                tag if tag.is_start() => stack.push(tag.kind(), args),
                tag => stack.pop(tag.kind())?,
            },
        }
        Ok(Fits::Maybe)
    }

    fn fits_text(&self, text: &str, state: &mut Measure) -> Fits {
        let limit = self.options.print_width.0 as usize;
        state.width += std::mem::take(&mut state.indent) as usize * self.options.indent_width as usize;
        if state.space {
            state.width += 1;
        }
        for char in text.chars() {
            if char == '\n' {
                return Fits::Yes;
            }
            state.width += width(char, &self.options);
        }
        if state.width > limit {
            return Fits::No;
        }
        state.space = false;
        Fits::Maybe
    }
}

struct Measure {
    indent: u16,
    space: bool,
    width: usize,
    suffix: bool,
}

fn width(char: char, options: &PrinterOptions) -> usize {
    if char == '\t' { options.indent_width as usize } else { char.width().unwrap_or(0) }
}
