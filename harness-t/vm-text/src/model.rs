//! The text as a client has it: lines end with `\n`, `\r\n` or `\r`, and columns count code units.
use lsp_types::{Position, Range};
use tinymist_query::PositionEncoding;
use vm_core::Rng;

pub fn units(c: char, e: PositionEncoding) -> usize {
    match e {
        PositionEncoding::Utf16 => c.len_utf16(),
        PositionEncoding::Utf8 => c.len_utf8(),
    }
}

/// Byte ranges of the lines, without their ends.
pub fn lines(t: &str) -> Vec<(usize, usize)> {
    let b = t.as_bytes();
    let mut v = vec![];
    let (mut start, mut i) = (0, 0);
    while i < b.len() {
        let n = match b[i] {
            b'\r' if b.get(i + 1) == Some(&b'\n') => 2,
            b'\r' | b'\n' => 1,
            _ => 0,
        };
        if n > 0 {
            v.push((start, i));
            start = i + n;
        }
        i += n.max(1);
    }
    v.push((start, b.len()));
    v
}

/// The position of a boundary between characters; none in the middle of a line end.
pub fn position(t: &str, at: usize, e: PositionEncoding) -> Option<Position> {
    let l = lines(t);
    let k = l.iter().rposition(|x| x.0 <= at).unwrap();
    if at > l[k].1 {
        return None;
    }
    let col: usize = t[l[k].0..at].chars().map(|c| units(c, e)).sum();
    Some(Position::new(k as u32, col as u32))
}

/// The offsets that a position may stand for: one, or both ends of the character that it is inside of.
pub fn offsets(t: &str, p: Position, e: PositionEncoding) -> Vec<usize> {
    let l = lines(t);
    let Some(&(start, end)) = l.get(p.line as usize) else {
        return vec![t.len()];
    };
    let (mut col, mut at) = (0, start);
    for c in t[start..end].chars() {
        let next = col + units(c, e);
        if p.character as usize == col {
            return vec![at];
        }
        if (p.character as usize) < next {
            return vec![at, at + c.len_utf8()];
        }
        col = next;
        at += c.len_utf8();
    }
    vec![end]
}

/// Where a client sees the boundary, also for boundaries that it cannot point at.
pub fn bounds(t: &str) -> Vec<usize> {
    (0..=t.len()).filter(|i| t.is_char_boundary(*i) && !(*i > 0 && &t.as_bytes()[i - 1..*i] == b"\r" && t.as_bytes().get(*i) == Some(&b'\n'))).collect()
}

pub fn range(t: &str, r: std::ops::Range<usize>, e: PositionEncoding) -> Range {
    Range::new(position(t, r.start, e).expect("boundary"), position(t, r.end, e).expect("boundary"))
}

/// Applies what a server sends to the client.
pub fn apply(t: &str, edits: &[lsp_types::TextEdit], e: PositionEncoding) -> Result<String, String> {
    let mut v = vec![];
    for x in edits {
        let (s, en) = (offsets(t, x.range.start, e), offsets(t, x.range.end, e));
        if s.len() != 1 || en.len() != 1 {
            return Err(format!("inside of a character: {:?}", x.range));
        }
        if position(t, s[0], e) != Some(x.range.start) || position(t, en[0], e) != Some(x.range.end) {
            return Err(format!("beyond the text: {:?}", x.range));
        }
        v.push((s[0], en[0], x.new_text.as_str()));
    }
    v.sort();
    let (mut out, mut at) = (String::new(), 0);
    for (s, en, text) in v {
        if s < at || en < s {
            return Err("overlapping edits".into());
        }
        out += &t[at..s];
        out += text;
        at = en;
    }
    out += &t[at..];
    Ok(out)
}

const BITS: &[&str] = &[
    "a", "b", " ", "#", "$", "_", "é", "ß", "中", "文", "😀", "🥺", "e\u{301}", "\u{200d}", "\u{feff}", "\u{10ffff}", "\u{ffff}", "\u{7ff}", "\u{800}",
    "\t", "=", "#let x = 1", "「", "ĩ", "é", "\u{e9}", "\u{129}", "\u{4e2e}", "\u{1f601}", "x",
];

pub fn text(r: &mut Rng, max: usize) -> String {
    let ends: &[&str] = match r.below(6) {
        0 | 1 => &["\n"],
        2 => &["\r\n"],
        3 => &["\r"],
        _ => &["\n", "\r\n", "\r", "\n\n", "\n\r", "\r\r\n"],
    };
    let n = match r.below(10) {
        0 => 0,
        1 => 1,
        _ => r.range(1, max),
    };
    let plain = r.chance(1, 6);
    let mut t = String::new();
    for _ in 0..n {
        if r.chance(1, 6) {
            t += ends[r.below(ends.len())];
        } else if plain {
            t.push((b'a' + r.below(26) as u8) as char);
        } else {
            t += BITS[r.below(BITS.len())];
        }
    }
    t
}
