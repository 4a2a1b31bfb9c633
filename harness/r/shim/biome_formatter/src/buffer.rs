use crate::format_element::{BestFittingElement, Condition, LineMode, PrintMode, Tag};
use crate::{Arguments, FormatElement, FormatResult, FormatState};
use std::any::Any;
use std::ops::{Deref, DerefMut};

pub trait Buffer {
    type Context;
    fn write_element(&mut self, element: FormatElement) -> FormatResult<()>;
    fn elements(&self) -> &[FormatElement];
    fn write_fmt(mut self: &mut Self, arguments: Arguments<Self::Context>) -> FormatResult<()> {
        crate::write(&mut self, arguments)
    }
    fn state(&self) -> &FormatState<Self::Context>;
    fn state_mut(&mut self) -> &mut FormatState<Self::Context>;
    fn snapshot(&self) -> BufferSnapshot;
    fn restore_snapshot(&mut self, snapshot: BufferSnapshot);
}

pub enum BufferSnapshot {
    Position(usize),
    Any(Box<dyn Any>),
}
impl BufferSnapshot {
    pub fn position(&self) -> usize {
        match self {
            BufferSnapshot::Position(at) => *at,
            BufferSnapshot::Any(_) => panic!("expected a position"),
        }
    }
    pub fn unwrap_any<T: 'static>(self) -> T {
        match self {
            BufferSnapshot::Position(_) => panic!("expected any"),
            BufferSnapshot::Any(value) => match value.downcast::<T>() {
                Ok(value) => *value,
                Err(_) => panic!("unexpected snapshot type"),
            },
        }
    }
}

impl<W: Buffer<Context = Context> + ?Sized, Context> Buffer for &mut W {
    type Context = Context;
    fn write_element(&mut self, element: FormatElement) -> FormatResult<()> {
        (**self).write_element(element)
    }
    fn elements(&self) -> &[FormatElement] {
        (**self).elements()
    }
    fn write_fmt(&mut self, arguments: Arguments<Context>) -> FormatResult<()> {
        (**self).write_fmt(arguments)
    }
    fn state(&self) -> &FormatState<Self::Context> {
        (**self).state()
    }
    fn state_mut(&mut self) -> &mut FormatState<Self::Context> {
        (**self).state_mut()
    }
    fn snapshot(&self) -> BufferSnapshot {
        (**self).snapshot()
    }
    fn restore_snapshot(&mut self, snapshot: BufferSnapshot) {
        (**self).restore_snapshot(snapshot)
    }
}

#[derive(Debug)]
pub struct VecBuffer<'a, Context> {
    state: &'a mut FormatState<Context>,
    elements: Vec<FormatElement>,
}
impl<'a, Context> VecBuffer<'a, Context> {
    pub fn new(state: &'a mut FormatState<Context>) -> Self {
        Self { state, elements: Vec::new() }
    }
    pub fn with_capacity(capacity: usize, state: &'a mut FormatState<Context>) -> Self {
        Self { state, elements: Vec::with_capacity(capacity) }
    }
    pub fn into_vec(self) -> Vec<FormatElement> {
        self.elements
    }
    pub fn take_vec(&mut self) -> Vec<FormatElement> {
        std::mem::take(&mut self.elements)
    }
}
impl<Context> Deref for VecBuffer<'_, Context> {
    type Target = [FormatElement];
    fn deref(&self) -> &[FormatElement] {
        &self.elements
    }
}
impl<Context> DerefMut for VecBuffer<'_, Context> {
    fn deref_mut(&mut self) -> &mut [FormatElement] {
        &mut self.elements
    }
}
impl<Context> Buffer for VecBuffer<'_, Context> {
    type Context = Context;
    fn write_element(&mut self, element: FormatElement) -> FormatResult<()> {
        self.elements.push(element);
        Ok(())
    }
    fn elements(&self) -> &[FormatElement] {
        &self.elements
    }
    fn state(&self) -> &FormatState<Context> {
        self.state
    }
    fn state_mut(&mut self) -> &mut FormatState<Context> {
        self.state
    }
    fn snapshot(&self) -> BufferSnapshot {
        BufferSnapshot::Position(self.elements.len())
    }
    fn restore_snapshot(&mut self, snapshot: BufferSnapshot) {
        self.elements.truncate(snapshot.position());
    }
}

/// Writes nothing before there is something to write, and `preamble` before the first thing.
pub struct PreambleBuffer<'buf, Preamble, Context> {
    inner: &'buf mut dyn Buffer<Context = Context>,
    preamble: Preamble,
    empty: bool,
}
impl<'buf, Preamble, Context> PreambleBuffer<'buf, Preamble, Context> {
    pub fn new(inner: &'buf mut dyn Buffer<Context = Context>, preamble: Preamble) -> Self {
        Self { inner, preamble, empty: true }
    }
    pub fn did_write_preamble(&self) -> bool {
        !self.empty
    }
}
impl<Preamble: crate::Format<Context>, Context> Buffer for PreambleBuffer<'_, Preamble, Context> {
    type Context = Context;
    fn write_element(&mut self, element: FormatElement) -> FormatResult<()> {
        if self.empty {
            crate::write!(self.inner, [&self.preamble])?;
            self.empty = false;
        }
        self.inner.write_element(element)
    }
    fn elements(&self) -> &[FormatElement] {
        self.inner.elements()
    }
    fn state(&self) -> &FormatState<Context> {
        self.inner.state()
    }
    fn state_mut(&mut self) -> &mut FormatState<Context> {
        self.inner.state_mut()
    }
    fn snapshot(&self) -> BufferSnapshot {
        BufferSnapshot::Any(Box::new((self.inner.snapshot(), self.empty)))
    }
    fn restore_snapshot(&mut self, snapshot: BufferSnapshot) {
        let (inner, empty) = snapshot.unwrap_any::<(BufferSnapshot, bool)>();
        self.empty = empty;
        self.inner.restore_snapshot(inner);
    }
}

pub struct Inspect<'inner, Context, Inspector> {
    inner: &'inner mut dyn Buffer<Context = Context>,
    inspector: Inspector,
}
impl<Context, Inspector: FnMut(&FormatElement)> Buffer for Inspect<'_, Context, Inspector> {
    type Context = Context;
    fn write_element(&mut self, element: FormatElement) -> FormatResult<()> {
        (self.inspector)(&element);
        self.inner.write_element(element)
    }
    fn elements(&self) -> &[FormatElement] {
        self.inner.elements()
    }
    fn state(&self) -> &FormatState<Context> {
        self.inner.state()
    }
    fn state_mut(&mut self) -> &mut FormatState<Context> {
        self.inner.state_mut()
    }
    fn snapshot(&self) -> BufferSnapshot {
        self.inner.snapshot()
    }
    fn restore_snapshot(&mut self, snapshot: BufferSnapshot) {
        self.inner.restore_snapshot(snapshot)
    }
}

/// Prints everything on one line as far as soft line breaks go.
pub struct RemoveSoftLinesBuffer<'a, Context> {
    inner: &'a mut dyn Buffer<Context = Context>,
    conditions: Vec<Condition>,
}
impl<'a, Context> RemoveSoftLinesBuffer<'a, Context> {
    pub fn new(inner: &'a mut dyn Buffer<Context = Context>) -> Self {
        Self { inner, conditions: Vec::new() }
    }
    fn in_expanded(&self) -> bool {
        self.conditions.last().is_some_and(|condition| condition.mode == PrintMode::Expanded)
    }
}
impl<Context> Buffer for RemoveSoftLinesBuffer<'_, Context> {
    type Context = Context;
    fn write_element(&mut self, element: FormatElement) -> FormatResult<()> {
        let mut stack = vec![element];
        while let Some(element) = stack.pop() {
            match element {
                FormatElement::Tag(Tag::StartConditionalContent(condition)) => self.conditions.push(condition),
                FormatElement::Tag(Tag::EndConditionalContent) => {
                    self.conditions.pop();
                }
                _ if self.in_expanded() => {}
                FormatElement::Line(LineMode::Soft) => {}
                FormatElement::Line(LineMode::SoftOrSpace) => self.inner.write_element(FormatElement::Space)?,
                FormatElement::Interned(interned) => stack.extend(interned.iter().rev().cloned()),
                FormatElement::BestFitting(best_fitting) => {
                    let flat: &BestFittingElement = &best_fitting;
                    stack.extend(flat.most_flat().iter().rev().cloned())
                }
                element => self.inner.write_element(element)?,
            }
        }
        Ok(())
    }
    fn elements(&self) -> &[FormatElement] {
        self.inner.elements()
    }
    fn state(&self) -> &FormatState<Context> {
        self.inner.state()
    }
    fn state_mut(&mut self) -> &mut FormatState<Context> {
        self.inner.state_mut()
    }
    fn snapshot(&self) -> BufferSnapshot {
        self.inner.snapshot()
    }
    fn restore_snapshot(&mut self, snapshot: BufferSnapshot) {
        self.inner.restore_snapshot(snapshot)
    }
}

pub trait BufferExtensions: Buffer + Sized {
    fn inspect<F: FnMut(&FormatElement)>(&mut self, inspector: F) -> Inspect<'_, Self::Context, F> {
        Inspect { inner: self, inspector }
    }
    fn start_recording(&mut self) -> Recording<'_, Self> {
        Recording::new(self)
    }
    fn write_elements<I: IntoIterator<Item = FormatElement>>(&mut self, elements: I) -> FormatResult<()> {
        for element in elements {
            self.write_element(element)?;
        }
        Ok(())
    }
}
impl<T: Buffer> BufferExtensions for T {}

#[derive(Debug)]
pub struct Recording<'buf, B> {
    start: usize,
    buffer: &'buf mut B,
}
impl<'buf, B: Buffer> Recording<'buf, B> {
    fn new(buffer: &'buf mut B) -> Self {
        Self { start: buffer.elements().len(), buffer }
    }
    pub fn write_fmt(&mut self, arguments: Arguments<B::Context>) -> FormatResult<()> {
        self.buffer.write_fmt(arguments)
    }
    pub fn write_element(&mut self, element: FormatElement) -> FormatResult<()> {
        self.buffer.write_element(element)
    }
    pub fn stop(self) -> Recorded<'buf> {
        let buffer: &'buf B = self.buffer;
        let elements = buffer.elements();
        let recorded = if self.start > elements.len() { &[] } else { &elements[self.start..] };
        Recorded(recorded)
    }
}
#[derive(Debug, Copy, Clone)]
pub struct Recorded<'a>(&'a [FormatElement]);
impl Deref for Recorded<'_> {
    type Target = [FormatElement];
    fn deref(&self) -> &[FormatElement] {
        self.0
    }
}
