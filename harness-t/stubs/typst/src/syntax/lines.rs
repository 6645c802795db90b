//! Lines and columns of a source, as typst has them.
use std::ops::Range;

use super::Source;

pub fn is_newline(c: char) -> bool {
    matches!(c, '\n' | '\x0B' | '\x0C' | '\r' | '\u{0085}' | '\u{2028}' | '\u{2029}')
}

impl Source {
    fn line_starts(&self) -> Vec<usize> {
        let text = self.text();
        let mut v = vec![0];
        let mut it = text.char_indices().peekable();
        while let Some((i, c)) = it.next() {
            if is_newline(c) {
                let mut end = i + c.len_utf8();
                if c == '\r' && it.peek().is_some_and(|n| n.1 == '\n') {
                    it.next();
                    end += 1;
                }
                v.push(end);
            }
        }
        v
    }
    pub fn get(&self, range: Range<usize>) -> Option<&str> {
        self.text().get(range)
    }
    pub fn len_lines(&self) -> usize {
        self.line_starts().len()
    }
    pub fn len_utf16(&self) -> usize {
        self.text().encode_utf16().count()
    }
    pub fn byte_to_utf16(&self, byte: usize) -> Option<usize> {
        Some(self.text().get(..byte)?.encode_utf16().count())
    }
    pub fn byte_to_line(&self, byte: usize) -> Option<usize> {
        (byte <= self.len_bytes()).then(|| self.line_starts().partition_point(|&s| s <= byte) - 1)
    }
    pub fn byte_to_column(&self, byte: usize) -> Option<usize> {
        let line = self.byte_to_line(byte)?;
        let start = self.line_to_byte(line)?;
        Some(self.get(start..byte)?.chars().count())
    }
    pub fn utf16_to_byte(&self, utf16: usize) -> Option<usize> {
        let mut k = 0;
        for (i, c) in self.text().char_indices() {
            if k >= utf16 {
                return Some(i);
            }
            k += c.len_utf16();
        }
        (k >= utf16).then_some(self.len_bytes())
    }
    pub fn line_to_byte(&self, line: usize) -> Option<usize> {
        self.line_starts().get(line).copied()
    }
    pub fn line_to_range(&self, line: usize) -> Option<Range<usize>> {
        let start = self.line_to_byte(line)?;
        let end = self.line_to_byte(line + 1).unwrap_or(self.len_bytes());
        Some(start..end)
    }
    pub fn line_column_to_byte(&self, line: usize, column: usize) -> Option<usize> {
        let range = self.line_to_range(line)?;
        let text = self.get(range.clone())?;
        let mut chars = text.chars();
        for _ in 0..column {
            chars.next();
        }
        Some(range.start + (text.len() - chars.as_str().len()))
    }
}
