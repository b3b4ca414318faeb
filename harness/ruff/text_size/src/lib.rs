//! Stand-in for the part of ruff_text_size that rtest uses.

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct TextSize(u32);

impl TextSize {
    pub const fn new(raw: u32) -> Self {
        Self(raw)
    }
    pub const fn to_u32(self) -> u32 {
        self.0
    }
    pub const fn to_usize(self) -> usize {
        self.0 as usize
    }
}

impl From<u32> for TextSize {
    fn from(raw: u32) -> Self {
        Self(raw)
    }
}
impl From<TextSize> for u32 {
    fn from(s: TextSize) -> u32 {
        s.0
    }
}
impl From<TextSize> for usize {
    fn from(s: TextSize) -> usize {
        s.0 as usize
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct TextRange {
    start: TextSize,
    end: TextSize,
}

impl TextRange {
    pub const fn new(start: TextSize, end: TextSize) -> Self {
        Self { start, end }
    }
    pub const fn start(self) -> TextSize {
        self.start
    }
    pub const fn end(self) -> TextSize {
        self.end
    }
}

pub trait Ranged {
    fn range(&self) -> TextRange;
    fn start(&self) -> TextSize {
        self.range().start()
    }
    fn end(&self) -> TextSize {
        self.range().end()
    }
}
