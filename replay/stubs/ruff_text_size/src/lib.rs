//! Stand-in for the parser's text positions.
#[derive(Debug, Clone, Copy, PartialEq, Default)]
pub struct TextSize(pub u32);
impl TextSize { pub fn to_u32(self) -> u32 { self.0 } }
#[derive(Debug, Clone, Copy, PartialEq, Default)]
pub struct TextRange(pub u32);
impl TextRange { pub fn start(self) -> TextSize { TextSize(self.0) } }
pub trait Ranged { fn range(&self) -> TextRange; }
