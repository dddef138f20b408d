//! Templates: concrete text with symbolic holes.
use crate::api;

pub const LOWER: &[u8] = b"abcdefghijklmnopqrstuvwxyz";
/// printable ASCII, tab and newline
pub const ANY: &[u8] = &{
    let mut a = [0u8; 97];
    let mut i = 0;
    while i < 95 {
        a[i] = 32 + i as u8;
        i += 1;
    }
    a[95] = 9;
    a[96] = 10;
    a
};
/// printable ASCII and tab, without line breaks
pub const LINE: &[u8] = &{
    let mut a = [0u8; 96];
    let mut i = 0;
    while i < 95 {
        a[i] = 32 + i as u8;
        i += 1;
    }
    a[95] = 9;
    a
};
/// every 7-bit value except NUL
pub const ASCII: &[u8] = &{
    let mut a = [0u8; 127];
    let mut i = 0;
    while i < 127 {
        a[i] = 1 + i as u8;
        i += 1;
    }
    a
};
/// characters beyond ASCII that the code treats in interesting ways
pub const WIDE: &[&str] = &["é", "ß", "“", "\u{2014}", "😀", "\u{96}", "\u{97}", "\u{a0}", "\u{2028}", "İ", "\u{85}", "٣", "a", "\n"];

/// Placeholders: '①' any printable/newline, '②' any printable, '③' any 7-bit,
/// '④' one of WIDE, '⑤'..'⑨' the alphabets given.
pub fn fill(t: &str, extra: &[&[u8]]) -> String {
    let mut s = String::with_capacity(t.len() + 16);
    fill_into(t, extra, &mut s);
    s
}
pub fn fill_into(t: &str, extra: &[&[u8]], s: &mut String) {
    for c in t.chars() {
        match c {
            '①' => api::put(ANY, s),
            '②' => api::put(LINE, s),
            '③' => api::put(ASCII, s),
            '④' => api::token(WIDE, s),
            '⑤'..='⑨' => api::put(extra[c as usize - '⑤' as usize], s),
            c => s.push(c),
        }
    }
}
