//! The reference for line maps.
use oak_core::source::Source;
use oak_vfs::LineMap;

/// What is wrong with `m` as the line map of `text`, which `src` holds.
pub fn wrong<S: Source + ?Sized>(m: &LineMap, text: &str, src: &S) -> Option<String> {
    let mut starts = vec![0];
    starts.extend(text.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1));
    if m.line_count() != starts.len() {
        return Some(format!("{} lines instead of {}", m.line_count(), starts.len()));
    }
    let n = starts.len();
    // Long texts: the first and the last lines.
    let some = |l: usize| l < 8 || l + 8 >= n;
    for (l, s) in starts.iter().copied().enumerate() {
        let end = starts.get(l + 1).copied().unwrap_or(text.len());
        if m.line_start(l as u32) != Some(s) || m.line_end(l as u32) != Some(end) {
            return Some(format!("line {l} is {:?}..{:?} instead of {s}..{end}", m.line_start(l as u32), m.line_end(l as u32)));
        }
        if !some(l) {
            continue;
        }
        // Beyond the end of the line: its end (before or after the line break).
        let far = m.line_col_utf16_to_offset(src, l as u32, u32::MAX - 7);
        if far > end || far < s + text[s..end].trim_end_matches(['\r', '\n']).len() {
            return Some(format!("a column beyond the end of line {l} is byte {far}, the line is {s}..{end}"));
        }
        let mut col = 0;
        for (i, c) in text[s..end].char_indices().chain((l + 1 == n).then_some((end - s, ' '))).take(40) {
            let at = m.offset_to_line_col_utf16(src, s + i);
            if at != (l as u32, col) {
                return Some(format!("byte {} is at {at:?} instead of {:?}", s + i, (l, col)));
            }
            let back = m.line_col_utf16_to_offset(src, l as u32, col);
            if back != s + i {
                return Some(format!("{:?} is byte {back} instead of {}", (l, col), s + i));
            }
            col += c.len_utf16() as u32
        }
    }
    if m.line_start(n as u32).is_some() || m.line_end(n as u32).is_some() {
        return Some(format!("there is a line {n}"));
    }
    let far = m.line_col_utf16_to_offset(src, n as u32, 0);
    (far != text.len()).then(|| format!("line {n} begins at {far} instead of the end {}", text.len()))
}
