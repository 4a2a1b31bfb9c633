//! Stand-in for biome_line_index.
use biome_text_size::TextSize;
use rustc_hash::FxHashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum WideEncoding {
    Utf16,
    Utf32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct LineCol {
    /// Zero-based
    pub line: u32,
    /// Zero-based utf8 offset
    pub col: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct WideLineCol {
    pub line: u32,
    pub col: u32,
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct WideChar {
    pub start: TextSize,
    pub end: TextSize,
}

impl WideChar {
    fn len(&self) -> u32 {
        u32::from(self.end) - u32::from(self.start)
    }
    fn wide_len(&self, enc: WideEncoding) -> u32 {
        match enc {
            WideEncoding::Utf16 => if self.len() == 4 { 2 } else { 1 },
            WideEncoding::Utf32 => 1,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LineIndex {
    pub newlines: Vec<TextSize>,
    pub line_wide_chars: FxHashMap<u32, Vec<WideChar>>,
}

impl LineIndex {
    pub fn new(text: &str) -> LineIndex {
        let mut newlines = vec![TextSize::from(0)];
        let mut line_wide_chars: FxHashMap<u32, Vec<WideChar>> = FxHashMap::default();
        let (mut line, mut start) = (0u32, 0u32);
        for (offset, c) in text.char_indices() {
            let offset = u32::try_from(offset).expect("a small text");
            let len = c.len_utf8() as u32;
            if c == '\n' {
                newlines.push(TextSize::from(offset + 1));
                line += 1;
                start = offset + 1;
            } else if !c.is_ascii() {
                line_wide_chars.entry(line).or_default().push(WideChar {
                    start: TextSize::from(offset - start),
                    end: TextSize::from(offset - start + len),
                });
            }
        }
        LineIndex { newlines, line_wide_chars }
    }
    /// Return the number of lines in the index, clamped to [u32::MAX]
    pub fn len(&self) -> u32 {
        self.newlines.len().try_into().unwrap_or(u32::MAX)
    }
    pub fn is_empty(&self) -> bool {
        self.newlines.is_empty()
    }
    pub fn line_col(&self, offset: TextSize) -> Option<LineCol> {
        let line = self.newlines.partition_point(|it| *it <= offset).checked_sub(1)?;
        let start = self.newlines.get(line)?;
        Some(LineCol { line: u32::try_from(line).ok()?, col: u32::from(offset) - u32::from(*start) })
    }
    pub fn offset(&self, line_col: LineCol) -> Option<TextSize> {
        self.newlines.get(line_col.line as usize).map(|it| TextSize::from(u32::from(*it) + line_col.col))
    }
    pub fn to_wide(&self, enc: WideEncoding, line_col: LineCol) -> Option<WideLineCol> {
        let mut col = line_col.col;
        for c in self.line_wide_chars.get(&line_col.line).into_iter().flatten() {
            if u32::from(c.end) > line_col.col {
                break;
            }
            col -= c.len() - c.wide_len(enc);
        }
        Some(WideLineCol { line: line_col.line, col })
    }
    pub fn to_utf8(&self, enc: WideEncoding, line_col: WideLineCol) -> LineCol {
        let mut col = line_col.col;
        for c in self.line_wide_chars.get(&line_col.line).into_iter().flatten() {
            if col <= u32::from(c.start) {
                break;
            }
            col += c.len() - c.wide_len(enc);
        }
        LineCol { line: line_col.line, col }
    }
}
