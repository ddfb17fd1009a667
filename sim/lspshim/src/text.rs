//! Positions, counted the protocol's way: independent of the server's own line index.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Enc {
    Utf8,
    Utf16,
    Utf32,
}

pub type Pos = (u32, u32);

impl Enc {
    pub fn parse(s: &str) -> Option<Self> {
        Some(match s {
            "utf-8" => Self::Utf8,
            "utf-16" => Self::Utf16,
            "utf-32" => Self::Utf32,
            _ => return None,
        })
    }

    fn width(self, c: char) -> u32 {
        match self {
            Self::Utf8 => c.len_utf8() as u32,
            Self::Utf16 => c.len_utf16() as u32,
            Self::Utf32 => 1,
        }
    }

    pub fn len(self, s: &str) -> u32 {
        s.chars().map(|c| self.width(c)).sum()
    }
}

/// Start and content end (before the line end) of every line.
pub fn lines(text: &str) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    let mut start = 0;
    for (i, b) in text.bytes().enumerate() {
        if b == b'\n' {
            let end = if i > start && text.as_bytes()[i - 1] == b'\r' { i - 1 } else { i };
            out.push((start, end));
            start = i + 1;
        }
    }
    out.push((start, text.len()));
    out
}

/// The byte offset of a position. A column beyond the line's end means its end; `None` for lines
/// that do not exist and for positions inside a character.
pub fn offset(text: &str, enc: Enc, pos: Pos) -> Option<usize> {
    let (start, end) = *lines(text).get(pos.0 as usize)?;
    let mut col = 0;
    for (i, c) in text[start..end].char_indices() {
        if col == pos.1 {
            return Some(start + i);
        }
        if col > pos.1 {
            return None;
        }
        col += enc.width(c);
    }
    // beyond the end, or exactly there; a column inside the last character is neither
    (col <= pos.1).then_some(end)
}

/// As `offset`, but the column must exist: what a server sends never needs to be clamped. The CR of a
/// line end may count as a column.
pub fn exact(text: &str, enc: Enc, pos: Pos) -> Option<usize> {
    let (start, end) = *lines(text).get(pos.0 as usize)?;
    let cr = u32::from(text[end..].starts_with('\r'));
    if pos.1 > enc.len(&text[start..end]) + cr { None } else { offset(text, enc, pos) }
}

pub fn position(text: &str, enc: Enc, at: usize) -> Pos {
    let ls = lines(text);
    let line = ls.partition_point(|l| l.0 <= at) - 1;
    (line as u32, enc.len(&text[ls[line].0..at]))
}
