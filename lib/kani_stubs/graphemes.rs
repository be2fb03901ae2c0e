//! stand-in for unicode-segmentation: one item per byte
pub struct Graphemes<'a> { s: &'a str, i: usize }
impl<'a> Iterator for Graphemes<'a> {
    type Item = &'a str;
    fn next(&mut self) -> Option<&'a str> { if self.i < self.s.len() { self.i += 1; Some(self.s) } else { None } }
    fn nth(&mut self, n: usize) -> Option<&'a str> { if n < self.s.len() { Some(self.s) } else { None } }
    fn count(self) -> usize { self.s.len() }
}
pub trait UnicodeSegmentation {
    fn graphemes<'a>(&'a self, is_extended: bool) -> Graphemes<'a>;
}
impl UnicodeSegmentation for str {
    fn graphemes<'a>(&'a self, _is_extended: bool) -> Graphemes<'a> { Graphemes { s: self, i: 0 } }
}
