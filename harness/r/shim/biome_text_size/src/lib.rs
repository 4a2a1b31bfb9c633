//! Stand-in for `biome_text_size`: byte offsets and ranges in a text.
use std::cmp::Ordering;
use std::fmt;
use std::iter::Sum;
use std::num::TryFromIntError;
use std::ops::*;

#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TextSize {
    raw: u32,
}

impl fmt::Debug for TextSize {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.raw)
    }
}
impl TextSize {
    pub const ZERO: TextSize = TextSize { raw: 0 };
    pub fn of<T: TextLen>(text: T) -> TextSize {
        text.text_len()
    }
    pub const fn new(raw: u32) -> TextSize {
        TextSize { raw }
    }
    pub fn checked_add(self, rhs: TextSize) -> Option<TextSize> {
        self.raw.checked_add(rhs.raw).map(|raw| TextSize { raw })
    }
    pub fn checked_sub(self, rhs: TextSize) -> Option<TextSize> {
        self.raw.checked_sub(rhs.raw).map(|raw| TextSize { raw })
    }
    pub fn saturating_sub(self, rhs: TextSize) -> TextSize {
        TextSize { raw: self.raw.saturating_sub(rhs.raw) }
    }
}
impl From<u32> for TextSize {
    fn from(raw: u32) -> Self {
        TextSize { raw }
    }
}
impl From<TextSize> for u32 {
    fn from(value: TextSize) -> Self {
        value.raw
    }
}
impl TryFrom<usize> for TextSize {
    type Error = TryFromIntError;
    fn try_from(value: usize) -> Result<Self, TryFromIntError> {
        Ok(u32::try_from(value)?.into())
    }
}
impl From<TextSize> for usize {
    fn from(value: TextSize) -> Self {
        value.raw as usize
    }
}
macro_rules! ops {
    ($($f:ident $m:ident $op:tt),*) => {$(
        impl $f<TextSize> for TextSize { type Output = TextSize; fn $m(self, o: TextSize) -> TextSize { TextSize { raw: self.raw $op o.raw } } }
        impl $f<&TextSize> for TextSize { type Output = TextSize; fn $m(self, o: &TextSize) -> TextSize { self $op *o } }
        impl $f<TextSize> for &TextSize { type Output = TextSize; fn $m(self, o: TextSize) -> TextSize { *self $op o } }
        impl $f<TextSize> for TextRange { type Output = TextRange; fn $m(self, o: TextSize) -> TextRange { TextRange { start: self.start $op o, end: self.end $op o } } }
    )*};
}
ops!(Add add +, Sub sub -);
impl<A> AddAssign<A> for TextSize where TextSize: Add<A, Output = TextSize> {
    fn add_assign(&mut self, rhs: A) {
        *self = *self + rhs
    }
}
impl<S> SubAssign<S> for TextSize where TextSize: Sub<S, Output = TextSize> {
    fn sub_assign(&mut self, rhs: S) {
        *self = *self - rhs
    }
}
impl<A> AddAssign<A> for TextRange where TextRange: Add<A, Output = TextRange> {
    fn add_assign(&mut self, rhs: A) {
        *self = *self + rhs
    }
}
impl<S> SubAssign<S> for TextRange where TextRange: Sub<S, Output = TextRange> {
    fn sub_assign(&mut self, rhs: S) {
        *self = *self - rhs
    }
}
impl<A> Sum<A> for TextSize where TextSize: Add<A, Output = TextSize> {
    fn sum<I: Iterator<Item = A>>(iter: I) -> TextSize {
        iter.fold(0.into(), Add::add)
    }
}

pub trait TextLen: Copy {
    fn text_len(self) -> TextSize;
}
impl TextLen for &'_ str {
    fn text_len(self) -> TextSize {
        self.len().try_into().unwrap()
    }
}
impl TextLen for &'_ String {
    fn text_len(self) -> TextSize {
        self.as_str().text_len()
    }
}
impl TextLen for char {
    fn text_len(self) -> TextSize {
        (self.len_utf8() as u32).into()
    }
}

#[derive(Default, Copy, Clone, Eq, PartialEq, Hash)]
pub struct TextRange {
    start: TextSize,
    end: TextSize,
}
impl fmt::Debug for TextRange {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}..{}", self.start.raw, self.end.raw)
    }
}
impl TextRange {
    pub fn new(start: TextSize, end: TextSize) -> TextRange {
        assert!(start <= end);
        TextRange { start, end }
    }
    pub fn at(offset: TextSize, len: TextSize) -> TextRange {
        TextRange::new(offset, offset + len)
    }
    pub fn empty(offset: TextSize) -> TextRange {
        TextRange { start: offset, end: offset }
    }
    pub fn up_to(end: TextSize) -> TextRange {
        TextRange { start: 0.into(), end }
    }
    pub const fn start(self) -> TextSize {
        self.start
    }
    pub const fn end(self) -> TextSize {
        self.end
    }
    pub const fn len(self) -> TextSize {
        TextSize { raw: self.end.raw - self.start.raw }
    }
    pub const fn is_empty(self) -> bool {
        self.start.raw == self.end.raw
    }
    pub fn contains(self, offset: TextSize) -> bool {
        self.start <= offset && offset < self.end
    }
    pub fn contains_inclusive(self, offset: TextSize) -> bool {
        self.start <= offset && offset <= self.end
    }
    pub fn contains_range(self, other: TextRange) -> bool {
        self.start <= other.start && other.end <= self.end
    }
    pub fn intersect(self, other: TextRange) -> Option<TextRange> {
        let start = self.start.max(other.start);
        let end = self.end.min(other.end);
        (start <= end).then(|| TextRange::new(start, end))
    }
    pub fn cover(self, other: TextRange) -> TextRange {
        TextRange::new(self.start.min(other.start), self.end.max(other.end))
    }
    pub fn cover_offset(self, offset: TextSize) -> TextRange {
        self.cover(TextRange::empty(offset))
    }
    pub fn add_start(self, offset: TextSize) -> TextRange {
        TextRange::new(self.start + offset, self.end)
    }
    pub fn sub_start(self, offset: TextSize) -> TextRange {
        TextRange::new(self.start - offset, self.end)
    }
    pub fn add_end(self, offset: TextSize) -> TextRange {
        TextRange::new(self.start, self.end + offset)
    }
    pub fn sub_end(self, offset: TextSize) -> TextRange {
        TextRange::new(self.start, self.end - offset)
    }
    pub fn checked_add(self, offset: TextSize) -> Option<TextRange> {
        Some(TextRange { start: self.start.checked_add(offset)?, end: self.end.checked_add(offset)? })
    }
    pub fn checked_sub(self, offset: TextSize) -> Option<TextRange> {
        Some(TextRange { start: self.start.checked_sub(offset)?, end: self.end.checked_sub(offset)? })
    }
    pub fn ordering(self, other: TextRange) -> Ordering {
        if self.end <= other.start {
            Ordering::Less
        } else if other.end <= self.start {
            Ordering::Greater
        } else {
            Ordering::Equal
        }
    }
}
impl PartialOrd for TextRange {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
impl Ord for TextRange {
    fn cmp(&self, other: &Self) -> Ordering {
        self.start.cmp(&other.start).then(self.end.cmp(&other.end))
    }
}
impl Index<TextRange> for str {
    type Output = str;
    fn index(&self, index: TextRange) -> &str {
        &self[Range::<usize>::from(index)]
    }
}
impl Index<TextRange> for String {
    type Output = str;
    fn index(&self, index: TextRange) -> &str {
        &self[Range::<usize>::from(index)]
    }
}
impl IndexMut<TextRange> for str {
    fn index_mut(&mut self, index: TextRange) -> &mut str {
        &mut self[Range::<usize>::from(index)]
    }
}
impl IndexMut<TextRange> for String {
    fn index_mut(&mut self, index: TextRange) -> &mut str {
        &mut self[Range::<usize>::from(index)]
    }
}
impl RangeBounds<TextSize> for TextRange {
    fn start_bound(&self) -> Bound<&TextSize> {
        Bound::Included(&self.start)
    }
    fn end_bound(&self) -> Bound<&TextSize> {
        Bound::Excluded(&self.end)
    }
}
impl<T: From<TextSize>> From<TextRange> for Range<T> {
    fn from(r: TextRange) -> Self {
        r.start.into()..r.end.into()
    }
}
