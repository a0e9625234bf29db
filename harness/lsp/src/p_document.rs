use crate::document::*;
use crate::rt::*;
use lsp_types::{Position, Range, TextDocumentContentChangeEvent};

type Enc = PositionEncoding;
const ENCS: [Enc; 3] = [Enc::UTF8, Enc::UTF16, Enc::UTF32];
/// Length of `c` (given by its leading byte) in code units.
fn units(b: u8, e: Enc) -> usize {
    match e {
        Enc::UTF8 => width(b),
        Enc::UTF16 => if b >= 0xf0 { 2 } else { 1 },
        Enc::UTF32 => 1,
    }
}
fn width(b: u8) -> usize {
    if b < 0x80 { 1 } else if b < 0xe0 { 2 } else if b < 0xf0 { 3 } else { 4 }
}
/// Start and end (without the terminator) of each line.
fn lines(s: &[u8]) -> Vec<(usize, usize)> {
    let (mut v, mut a) = (vec![], 0);
    for i in 0..s.len() {
        if s[i] == b'\n' {
            let e = if i > a && s[i - 1] == b'\r' { i - 1 } else { i };
            v.push((a, e));
            a = i + 1;
        }
    }
    v.push((a, s.len()));
    v
}
/// Where a position of the protocol is, None if nowhere.
fn locate(s: &[u8], line: usize, ch: usize, e: Enc) -> Option<usize> {
    let l = lines(s);
    if line >= l.len() {
        return None;
    }
    let (mut p, end) = l[line];
    let mut u = 0;
    while p < end && u < ch {
        u += units(s[p], e);
        p += width(s[p]);
    }
    // Past the end of the line means its end; inside a character means nothing.
    if u > ch { None } else { Some(p) }
}
fn position(s: &[u8], o: usize, e: Enc) -> (usize, usize) {
    let (mut line, mut ch, mut p) = (0, 0, 0);
    while p < o {
        if s[p] == b'\n' {
            line += 1;
            ch = 0;
        } else {
            ch += units(s[p], e);
        }
        p += width(s[p]);
    }
    (line, ch)
}
fn content(n: usize) -> String {
    text_multi(b"a\n\r", &["é", "🌍"], n)
}
const INS: [&str; 5] = ["x", "\n", "", "é🌍", "b\r\nc"];

/// k changes of one notification on a document of n characters.
fn mirror(n: usize, k: usize) {
    let e = ENCS[choose(3)];
    let s = content(n);
    let mut doc = TextDocument::new(s.clone(), 1);
    let mut model = Some(s.clone().into_bytes());
    let mut changes = vec![];
    for _ in 0..k {
        let t = INS[if k > 1 { 2 + choose(3) } else { choose(5) }];
        if flag() {
            changes.push(TextDocumentContentChangeEvent { range: None, range_length: None, text: t.to_string() });
            if let Some(m) = &mut model {
                *m = t.as_bytes().to_vec();
                reach("full");
            }
            continue;
        }
        let (l1, c1) = (byte(0, 3) as usize, byte(0, (n + 3) as u8) as usize);
        let (l2, c2) = (byte(0, 3) as usize, byte(0, if k > 1 { 4 } else { 250 }) as usize);
        changes.push(TextDocumentContentChangeEvent {
            range: Some(Range::new(Position::new(l1 as u32, c1 as u32), Position::new(l2 as u32, c2 as u32))),
            range_length: None,
            text: t.to_string(),
        });
        if let Some(m) = &model {
            model = match (locate(m, l1, c1, e), locate(m, l2, c2, e)) {
                (Some(a), Some(b)) if a <= b => {
                    let mut v = m[..a].to_vec();
                    v.extend_from_slice(t.as_bytes());
                    v.extend_from_slice(&m[b..]);
                    Some(v)
                }
                _ => None,
            };
        }
    }
    note(|| format!("document {s:?} encoding {e:?} changes {changes:?}"));
    let r = doc.apply_changes(changes, 7, e);
    match model {
        Some(m) => {
            check(r.is_ok(), "a_valid_change_is_applied");
            check(doc.content().as_bytes() == &m[..], "content_is_what_the_client_has");
            check(doc.version() == 7, "version_follows");
            check(doc.line_count() == lines(&m).len(), "line_count_follows");
            let o = doc.content().len();
            let p = doc.offset_to_position(o, e).unwrap();
            let (l, c) = position(&m, o, e);
            check(p.line as usize == l && p.character as usize == c, "positions_follow");
            reach("applied");
        }
        None => {
            check(r.is_err(), "an_invalid_change_is_rejected");
            check(doc.content() == s && doc.version() == 1, "a_rejected_notification_changes_nothing");
            check(doc.line_count() == lines(s.as_bytes()).len(), "a_rejected_notification_keeps_lines");
            reach("rejected");
        }
    }
}
fn to_offset(n: usize) {
    let e = ENCS[choose(3)];
    let s = content(n);
    let doc = TextDocument::new(s.clone(), 1);
    let l = choose(n + 2);
    let c = byte(0, (4 * n + 2) as u8);
    note(|| format!("document {s:?} encoding {e:?} position {l}:{c}"));
    let want = locate(s.as_bytes(), l, c as usize, e);
    let got = doc.position_to_offset(Position::new(l as u32, c as u32), e).ok();
    check(got == want, "offset_of_a_position");
    if let Some(o) = got {
        check(s.is_char_boundary(o), "offset_is_a_character_boundary");
        reach("found");
    } else {
        reach("nowhere");
    }
}
fn from_offset(n: usize) {
    let e = ENCS[choose(3)];
    let s = content(n);
    let b = s.as_bytes();
    let doc = TextDocument::new(s.clone(), 1).with_language_id("r");
    let o = choose(s.len() + 2);
    note(|| format!("document {s:?} encoding {e:?} offset {o}"));
    check(doc.content() == s && doc.version() == 1 && doc.language_id() == Some("r"), "document_as_created");
    if o > s.len() {
        check(doc.offset_to_position(o, e).is_err(), "out_of_bounds_offset_is_an_error");
        reach("out");
        return;
    }
    // Offsets come from the parser: always between characters, never inside CRLF.
    assume(s.is_char_boundary(o));
    assume(!(o > 0 && o < b.len() && b[o - 1] == b'\r' && b[o] == b'\n'));
    let (l, c) = position(b, o, e);
    let got = doc.offset_to_position(o, e);
    check(got.is_ok(), "every_offset_has_a_position");
    let got = got.unwrap();
    check(got.line as usize == l && got.character as usize == c, "position_of_an_offset");
    let back = doc.position_to_offset(got, e);
    check(back.ok() == Some(o), "round_trip");
    let r = doc.range_of_text(0, o, e);
    check(r.is_ok_and(|r| r.start == Position::new(0, 0) && r.end == got), "range_of_text");
    reach("in");
}
fn keys() {
    let k = [lsp_types::PositionEncodingKind::UTF8, lsp_types::PositionEncodingKind::UTF16, lsp_types::PositionEncodingKind::UTF32];
    let i = choose(3);
    check(PositionEncoding::try_from(&k[i]).ok() == Some(ENCS[i]), "encoding_from_key");
    let b: lsp_types::PositionEncodingKind = ENCS[i].into();
    check(b == k[i], "encoding_to_key");
    check(PositionEncoding::default() == Enc::UTF16, "default_encoding_is_utf16");
    check(PositionEncoding::try_from(&lsp_types::PositionEncodingKind::from("utf-7".to_string())).is_err(), "unknown_encoding_is_an_error");
    reach("keys");
}
pub fn run(i: u32) {
    let n = param(0);
    match i {
        0 => mirror(n, param(1)),
        1 => to_offset(n),
        2 => from_offset(n),
        _ => keys(),
    }
}
