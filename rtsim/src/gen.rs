use simcore::ch;
/// Generate one line's content (no LF inside). Records decisions on the tape.
pub fn line_content() -> Vec<u8> {
    let c = ch();
    let len = match c.weighted(&[6, 6, 3, 2, 1, 1]) {
        0 => c.pick(8) as usize,
        1 => c.pick(40) as usize,
        2 => c.pick(300) as usize,
        3 => 8192 - 6 + c.pick(12) as usize,
        4 => 2 * 8192 - 4 + c.pick(8) as usize,
        _ => c.pick(20_000) as usize,
    };
    let mut v = Vec::with_capacity(len + 4);
    let style = c.weighted(&[5, 3, 2, 2]);
    if len > 400 {
        // long lines: cheap deterministic filler with a few chosen spots
        let b = b'a' + c.pick(26) as u8;
        for i in 0..len {
            v.push(if i % 61 == 0 { b'A' + ((i / 61) % 26) as u8 } else { b });
        }
        if style == 1 {
            // multi-byte characters around the refill boundary
            let at = c.pick(12) as usize;
            let p = (8192usize.saturating_sub(8) + at).min(len.saturating_sub(4));
            v.splice(p..p + 3, "€".bytes());
        }
        if style == 2 {
            let p = c.pick(len as u32) as usize;
            v[p] = b'\r';
        }
        if style == 3 {
            let p = c.pick(len as u32) as usize;
            v[p] = 0xff;
        }
    } else {
        while v.len() < len {
            match style {
                0 => v.push(b' ' + c.pick(95) as u8),
                1 => {
                    let s = *c.of(&["a", "é", "€", "𝄞", "\0", "한", "\r", "\u{feff}"]);
                    v.extend_from_slice(s.as_bytes());
                }
                2 => v.push(*c.of(&[b'x', b'\r', b'\r', 0, b'\t', b'y', 0x7f])),
                _ => {
                    let b = c.byte();
                    v.push(if b == b'\n' { b'\r' } else { b });
                }
            }
        }
    }
    v
}
pub struct Stream {
    pub bytes: Vec<u8>,
}
pub fn stream(max_lines: u32) -> Stream {
    let n = ch().pick(max_lines + 1);
    let mut bytes = vec![];
    for i in 0..n {
        let l = line_content();
        bytes.extend_from_slice(&l);
        let c = ch();
        match c.weighted(&[6, 3, if i + 1 == n { 3 } else { 0 }]) {
            0 => bytes.push(b'\n'),
            1 => bytes.extend_from_slice(b"\r\n"),
            _ => {}
        }
        if bytes.len() > 70_000 {
            break;
        }
    }
    Stream { bytes }
}
/// Reference framing: split on LF, strip one CR before it, last unterminated line kept as is.
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Line(Vec<u8>),
    Bad,
}
pub fn want(line: &[u8]) -> Want {
    if std::str::from_utf8(line).is_ok() {
        Want::Line(line.to_vec())
    } else {
        Want::Bad
    }
}
pub fn frame(b: &[u8]) -> Vec<Want> {
    let mut v = vec![];
    let mut s = 0;
    for i in 0..b.len() {
        if b[i] == b'\n' {
            let mut l = &b[s..i];
            if l.last() == Some(&b'\r') {
                l = &l[..l.len() - 1];
            }
            v.push(want(l));
            s = i + 1;
        }
    }
    if s < b.len() {
        v.push(want(&b[s..]));
    }
    v
}
