//! Reference model: wire framing, field positions, canonical encoders and message generators.
//! Nothing here uses the library.
use crate::engine::Src;
use crate::types::*;

// ---------------------------------------------------------------- fields

/// bits of a field, most significant piece first
pub fn extract<U: Un>(f: &FieldSpec, d: &[U]) -> u64 {
    let mut r = 0u64;
    for &(u, m) in f.pieces {
        let w = m.count_ones();
        let v = ((d[u].to32() & m) >> m.trailing_zeros()) as u64;
        r = r << w | v;
    }
    r
}
pub fn insert<U: Un>(f: &FieldSpec, d: &mut [U], raw: u64) {
    let mut sh = f.codec.bits;
    for &(u, m) in f.pieces {
        sh -= m.count_ones();
        let v = ((raw >> sh) as u32) << m.trailing_zeros() & m;
        d[u] = U::from32(d[u].to32() & !m | v);
    }
}
pub fn width(f: &FieldSpec) -> u32 {
    f.pieces.iter().map(|p| p.1.count_ones()).sum()
}

/// the reading a field must give: canonical code of the typed value
pub fn reading<U: Un>(f: &FieldSpec, d: &[U]) -> u64 {
    (f.codec.canon)(extract(f, d))
}

pub fn put<U: Un>(s: &Spec, f: &FieldSpec, d: &mut [U], raw: u64) {
    if f.shared && s.shape != Shape::Fixed && U::BITS == 32 {
        let st = stride(s);
        for p in d.chunks_mut(st) {
            insert(f, p, raw);
        }
    } else {
        insert(f, d, raw);
    }
}

pub fn stride(s: &Spec) -> usize {
    match s.fam {
        Fam::Cv1 | Fam::Sc | Fam::Ut => 1,
        Fam::Cv2 | Fam::S7 => 2,
        Fam::Flex | Fam::Stream | Fam::S8 => 4,
    }
}
pub fn type_nibble(f: Fam) -> u32 {
    match f {
        Fam::Ut => 0,
        Fam::Sc => 1,
        Fam::Cv1 => 2,
        Fam::S7 => 3,
        Fam::Cv2 => 4,
        Fam::S8 => 5,
        Fam::Flex => 0xD,
        Fam::Stream => 0xF,
    }
}
pub fn packet_words(t: u32) -> usize {
    match t {
        0..=2 | 6 | 7 => 1,
        3 | 4 | 8..=0xA => 2,
        0xB | 0xC => 3,
        _ => 4,
    }
}

// ---------------------------------------------------------------- packets of the multi-packet formats

pub const COMPLETE: u32 = 0;
pub const START: u32 = 1;
pub const CONTINUE: u32 = 2;
pub const END: u32 = 3;

pub fn format_of(fam: Fam, p: &[u32]) -> u32 {
    match fam {
        Fam::Flex => p[0] >> 22 & 3,
        Fam::Stream => p[0] >> 26 & 3,
        _ => p[0] >> 20 & 0xF,
    }
}
pub fn set_format(fam: Fam, p: &mut [u32], f: u32) {
    match fam {
        Fam::Flex => p[0] = p[0] & !(3 << 22) | f << 22,
        Fam::Stream => p[0] = p[0] & !(3 << 26) | f << 26,
        _ => p[0] = p[0] & !(0xF << 20) | f << 20,
    }
}
/// byte positions (word, shift) of the content octets of one packet
pub fn octets(shape: Shape) -> Vec<(usize, u32)> {
    let mut v = vec![];
    let (first, words) = match shape {
        Shape::FlexText => (4, 4),
        Shape::StreamText(o) => (2 + o, 4),
        Shape::Sysex7 => (2, 2),
        Shape::Sysex8 => (3, 4),
        Shape::Fixed => return v,
    };
    for o in first..words * 4 {
        v.push((o / 4, 24 - 8 * (o % 4) as u32));
    }
    v
}
pub fn cap(shape: Shape) -> usize {
    octets(shape).len()
}
pub fn octet_at(p: &[u32], at: (usize, u32)) -> u8 {
    (p[at.0] >> at.1) as u8
}
pub fn set_octet(p: &mut [u32], at: (usize, u32), b: u8) {
    p[at.0] = p[at.0] & !(0xFF << at.1) | (b as u32) << at.1;
}
/// declared number of payload bytes in a sysex packet
pub fn declared(shape: Shape, p: &[u32]) -> usize {
    let n = (p[0] >> 16 & 0xF) as usize;
    match shape {
        Shape::Sysex7 => n,
        _ => n.wrapping_sub(1),
    }
}

/// Payload bytes of a sysex message / text bytes of a text message, read per the wire format.
pub fn content(s: &Spec, d: &[u32]) -> Vec<u8> {
    let oct = octets(s.shape);
    let mut out = vec![];
    for p in d.chunks_exact(stride(s)) {
        match s.shape {
            Shape::Sysex7 => {
                for &o in &oct[..declared(s.shape, p)] {
                    out.push(octet_at(p, o) & 0x7F);
                }
            }
            Shape::Sysex8 => {
                for &o in &oct[..declared(s.shape, p)] {
                    out.push(octet_at(p, o));
                }
            }
            Shape::FlexText | Shape::StreamText(_) => {
                for &o in &oct {
                    if octet_at(p, o) != 0 {
                        out.push(octet_at(p, o));
                    }
                }
            }
            Shape::Fixed => {}
        }
    }
    out
}
pub fn content_bytes_repr(d: &[u8]) -> Vec<u8> {
    d[1..d.len() - 1].to_vec()
}

/// Build packets; `sizes` gives the bytes per packet (None: canonical filling).
pub fn build(s: &Spec, head: u32, bytes: &[u8], sizes: Option<&[usize]>) -> Vec<u32> {
    let st = stride(s);
    let oct = octets(s.shape);
    let c = oct.len();
    let mut chunks: Vec<&[u8]> = vec![];
    match sizes {
        None => chunks.extend(bytes.chunks(c)),
        Some(z) => {
            let mut at = 0;
            for n in z {
                chunks.push(&bytes[at..at + n]);
                at += n;
            }
            assert_eq!(at, bytes.len());
        }
    }
    if chunks.is_empty() {
        chunks.push(&[]);
    }
    let n = chunks.len();
    let mut out = vec![];
    for (i, ch) in chunks.iter().enumerate() {
        let mut p = vec![0u32; st];
        p[0] = head;
        let f = if n == 1 {
            COMPLETE
        } else if i == 0 {
            START
        } else if i + 1 == n {
            END
        } else {
            CONTINUE
        };
        set_format(s.fam, &mut p, f);
        match s.shape {
            Shape::Sysex7 => p[0] = p[0] & !0xF_0000 | (ch.len() as u32) << 16,
            Shape::Sysex8 => p[0] = p[0] & !0xF_0000 | (ch.len() as u32 + 1) << 16,
            _ => {}
        }
        for (b, o) in ch.iter().zip(&oct) {
            set_octet(&mut p, *o, *b);
        }
        out.extend(p);
    }
    out
}
/// the bits of a first word that belong to the message as a whole
pub fn head_mask(s: &Spec) -> u32 {
    match s.shape {
        Shape::FlexText => 0xFF3F_FFFF,
        Shape::StreamText(0) => 0xF3FF_0000,
        Shape::StreamText(_) => 0xF3FF_FF00,
        Shape::Sysex7 => 0xFF00_0000,
        Shape::Sysex8 => 0xFF00_FF00,
        Shape::Fixed => 0xFFFF_FFFF,
    }
}
pub fn const_head(s: &Spec) -> u32 {
    s.consts[0].2
}
pub fn units_for(s: &Spec, content_len: usize) -> usize {
    let c = cap(s.shape);
    stride(s) * content_len.div_ceil(c).max(1)
}

// ---------------------------------------------------------------- reference acceptance

fn enums_ok<U: Un>(s: &Spec, d: &[U]) -> bool {
    s.fields.iter().all(|f| (f.codec.valid)(extract(f, d)))
}
fn consts_ok<U: Un>(s: &Spec, d: &[U]) -> bool {
    s.consts.iter().all(|&(u, m, v)| d.get(u).map_or(false, |x| x.to32() & m == v))
}

/// number of units of the message if the slice starts with a well-formed message of this type
pub fn accept32(s: &Spec, d: &[u32]) -> Option<usize> {
    if d.len() < s.min || !consts_ok(s, d) {
        return None;
    }
    let multi = s.shape != Shape::Fixed;
    if s.fam == Fam::Flex && s.shape == Shape::Fixed {
        if s.addr_nonzero && d[0] >> 20 & 3 == 0 {
            return None;
        }
    }
    if !multi && s.fam != Fam::Stream {
        return if enums_ok(s, d) { Some(s.min) } else { None };
    }
    // formats over the leading run of packets of this message type
    let st = stride(s);
    let t = d[0] >> 28;
    let run: Vec<&[u32]> = d.chunks(st).take_while(|p| p[0] >> 28 == t).collect();
    let n = run.len();
    if n > 1 && run[n - 1].len() < st {
        return None;
    }
    for (i, p) in run.iter().enumerate() {
        let want = if n == 1 {
            COMPLETE
        } else if i == 0 {
            START
        } else if i + 1 == n {
            END
        } else {
            CONTINUE
        };
        if format_of(s.fam, p) != want {
            return None;
        }
        if p[0] & consistent_mask(s) != d[0] & consistent_mask(s) {
            return None;
        }
        match s.shape {
            Shape::Sysex7 if declared(s.shape, p) > 6 => return None,
            Shape::Sysex8 if !(0..=13).contains(&declared(s.shape, p)) => return None,
            _ => {}
        }
    }
    if !enums_ok(s, d) {
        return None;
    }
    if !multi {
        return Some(s.min);
    }
    let len = n * st;
    if matches!(s.shape, Shape::FlexText | Shape::StreamText(_)) && std::str::from_utf8(&content(s, &d[..len])).is_err() {
        return None;
    }
    Some(len)
}
/// bits that must agree on every packet for the message to be well-formed
pub fn consistent_mask(s: &Spec) -> u32 {
    match s.shape {
        Shape::FlexText => 0xFF00_FFFF,
        Shape::StreamText(0) => 0xF3FF_0000,
        Shape::StreamText(_) => 0xF3FF_FF00,
        Shape::Sysex7 => 0xFF00_0000,
        Shape::Sysex8 => 0xFF00_FF00,
        Shape::Fixed => 0,
    }
}

pub fn accept8(s: &Spec, d: &[u8]) -> Option<usize> {
    if d.len() < s.min || !consts_ok(s, d) {
        return None;
    }
    if s.shape == Shape::Sysex7 {
        let e = d.iter().position(|b| *b == 0xF7)?;
        if d[1..e].iter().any(|b| *b >= 0x80) {
            return None;
        }
        return Some(e + 1);
    }
    if enums_ok(s, d) {
        Some(s.min)
    } else {
        None
    }
}

/// unit-generic front
pub trait Model: Un {
    fn accept(s: &Spec, d: &[Self]) -> Option<usize>;
    fn kits() -> &'static [&'static dyn Kit<Self>];
    fn content(s: &Spec, d: &[Self]) -> Vec<u8>;
    fn build(s: &Spec, head: u32, bytes: &[u8], sizes: Option<&[usize]>) -> Vec<Self>;
    fn units_for(s: &Spec, content_len: usize) -> usize;
}
impl Model for u32 {
    fn accept(s: &Spec, d: &[u32]) -> Option<usize> {
        accept32(s, d)
    }
    fn kits() -> &'static [&'static dyn Kit<u32>] {
        crate::kits::UKITS
    }
    fn content(s: &Spec, d: &[u32]) -> Vec<u8> {
        content(s, d)
    }
    fn build(s: &Spec, head: u32, bytes: &[u8], sizes: Option<&[usize]>) -> Vec<u32> {
        build(s, head, bytes, sizes)
    }
    fn units_for(s: &Spec, n: usize) -> usize {
        units_for(s, n)
    }
}
impl Model for u8 {
    fn accept(s: &Spec, d: &[u8]) -> Option<usize> {
        accept8(s, d)
    }
    fn kits() -> &'static [&'static dyn Kit<u8>] {
        crate::kits::BKITS
    }
    fn content(_: &Spec, d: &[u8]) -> Vec<u8> {
        content_bytes_repr(d)
    }
    fn build(_: &Spec, _: u32, bytes: &[u8], _: Option<&[usize]>) -> Vec<u8> {
        let mut v = vec![0xF0];
        v.extend(bytes);
        v.push(0xF7);
        v
    }
    fn units_for(_: &Spec, n: usize) -> usize {
        n + 2
    }
}

/// the default message of a type
pub fn default_units<U: Model>(s: &Spec) -> Vec<U> {
    if s.shape != Shape::Fixed {
        let mut d = U::build(s, const_head(s), &[], None);
        for f in s.fields {
            put(s, f, &mut d, f.codec.default);
        }
        return d;
    }
    let mut d = vec![U::default(); s.min];
    for &(u, m, v) in s.consts {
        d[u] = U::from32(d[u].to32() & !m | v);
    }
    if s.addr_nonzero {
        d[0] = U::from32(d[0].to32() | 0x0010_0000);
    }
    for f in s.fields {
        insert(f, &mut d, f.codec.default);
    }
    d
}

// ---------------------------------------------------------------- generators

const CHARS: [char; 24] = [
    'a', 'Z', '7', ' ', '~', '\u{7F}', '\u{1}', 'é', '\u{7FF}', '€', '\u{FFFF}', '漢', '𝄞', '\u{10FFFF}', '\u{80}', '\n',
    '\r', '\t', '\u{1F}', '\u{800}', '\u{D7FF}', '\u{E000}', '\u{FEFF}', '\u{10000}',
];
/// any scalar value but NUL: of a generated UTF-8 length, or a number the sources mention
fn any_char(src: &mut Src) -> char {
    let v = match src.us(6) {
        0 => 1 + src.us(0x7F),
        1 => 0x80 + src.us(0x780),
        2 => 0x800 + src.us(0xF800),
        3 => 0x1_0000 + src.us(0x10_0000),
        _ => (src.hint() & 0x1F_FFFF) as usize,
    };
    char::from_u32(v as u32).filter(|c| *c != '\0').unwrap_or('z')
}
/// a string of exactly `n` UTF-8 bytes without NUL
pub fn text_of(src: &mut Src, n: usize) -> String {
    let mut s = String::new();
    let wide = src.us(4);
    while s.len() < n {
        let room = n - s.len();
        let c = match wide {
            3 => any_char(src),
            w if w > 0 && src.chance(if w == 1 { 1 } else { 3 }, 5) => *src.pick(&CHARS),
            _ => (b'!' + src.us(90) as u8) as char,
        };
        if c.len_utf8() <= room {
            s.push(c);
        } else {
            s.push((b'a' + src.us(26) as u8) as char);
        }
    }
    s
}
/// content lengths concentrated around multiples of the packet capacity
pub fn content_len(src: &mut Src, shape: Shape, max: usize) -> usize {
    let c = if shape == Shape::Fixed { 6 } else { cap(shape) };
    match src.us(6) {
        5 => {
            let h = (src.hint() & 0xFFFF) as usize;
            let k = h * c + src.us(3);
            if src.chance(1, 2) && h > 0 && k <= max + 1 { k - 1 } else { h.min(max) }
        }
        0 => src.us(3).min(max),
        1 | 2 => {
            let k = src.us(max / c + 1);
            (k * c + src.us(3)).saturating_sub(1).min(max)
        }
        _ => src.us(max + 1),
    }
}
pub fn payload(src: &mut Src, s: &Spec, n: usize) -> Vec<u8> {
    let m = if s.fam == Fam::S7 { 0x7F } else { 0xFF };
    match src.us(5) {
        0 => (0..n).map(|i| (i as u8).wrapping_add(1) & m).collect(),
        1 => vec![m; n],
        4 => (0..n).map(|_| if src.chance(1, 2) { src.hint() as u8 & m } else { src.bits(8) as u8 & m }).collect(),
        _ => (0..n).map(|_| src.bits(8) as u8 & m).collect(),
    }
}
/// split `n` bytes into uneven packets
pub fn uneven(src: &mut Src, shape: Shape, n: usize) -> Vec<usize> {
    let c = cap(shape);
    let mut left = n;
    let mut v = vec![];
    let style = src.us(4);
    let odd = if style == 3 { src.us(n / c + 2) } else { 0 };
    loop {
        if left == 0 && (v.is_empty() || !src.chance(1, 6)) {
            break;
        }
        let k = match style {
            0 => src.us(c.min(left) + 1),
            1 => c.min(left),
            // full but for one packet
            3 => if v.len() == odd { src.us(c.min(left) + 1) } else { c.min(left) },
            _ => src.us(2).min(left) + if src.chance(1, 8) { 0 } else { src.us(c).min(left.saturating_sub(1)) },
        };
        v.push(k.min(c).min(left));
        left -= v[v.len() - 1];
        if v.len() > 120 {
            if left > 0 {
                // finish canonically
                while left > 0 {
                    let k = c.min(left);
                    v.push(k);
                    left -= k;
                }
            }
            break;
        }
    }
    if v.is_empty() {
        v.push(0)
    }
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    /// exactly what the library would write: canonical filling, zero padding
    Canonical,
    /// anything well-formed: reserved bits set, packets unevenly filled, garbage padding
    Wild,
}

pub struct GenMsg<U> {
    pub units: Vec<U>,
    pub content: Vec<u8>,
    /// content packets are not filled canonically
    pub odd: bool,
}

/// a well-formed message of this type
pub fn gen_valid<U: Model>(src: &mut Src, s: &Spec, style: Style, max_content: usize) -> GenMsg<U> {
    if s.shape == Shape::Fixed {
        let mut d: Vec<U> = if style == Style::Canonical { default_units(s) } else { (0..s.min).map(|_| U::from32(src.word())).collect() };
        for &(u, m, v) in s.consts {
            d[u] = U::from32(d[u].to32() & !m | v);
        }
        if s.addr_nonzero {
            let a = 1 + src.us(3) as u32;
            d[0] = U::from32(d[0].to32() & !0x0030_0000 | a << 20);
        }
        for f in s.fields {
            let r = (f.codec.draw)(src);
            insert(f, &mut d, r);
        }
        return GenMsg { units: d, content: vec![], odd: false };
    }
    let n = content_len(src, s.shape, max_content);
    let text = matches!(s.shape, Shape::FlexText | Shape::StreamText(_));
    let bytes = if text { text_of(src, n).into_bytes() } else { payload(src, s, n) };
    let mut head = const_head(s);
    if U::BITS == 32 {
        let mut h = [head];
        for f in s.fields {
            let r = (f.codec.draw)(src);
            insert(f, &mut h, r);
        }
        head = h[0];
    }
    let mut odd = false;
    let mut d: Vec<U> = if style == Style::Wild && U::BITS == 32 && src.chance(1, 2) {
        let z = uneven(src, s.shape, n);
        odd = true;
        U::build(s, head, &bytes, Some(&z))
    } else {
        U::build(s, head, &bytes, None)
    };
    if style == Style::Wild && !text && U::BITS == 32 && src.chance(1, 2) {
        // garbage in the padding bytes
        let st = stride(s);
        let oct = octets(s.shape);
        odd = true;
        for p in d.chunks_mut(st) {
            let mut w: Vec<u32> = p.iter().map(|x| x.to32()).collect();
            let n = declared(s.shape, &w);
            for o in &oct[n..] {
                set_octet(&mut w, *o, src.bits(8) as u8);
            }
            for (x, y) in p.iter_mut().zip(w) {
                *x = U::from32(y);
            }
        }
    }
    GenMsg { units: d, content: bytes, odd }
}

/// units following a message that cannot belong to it
pub fn gen_tail<U: Model>(src: &mut Src, s: &Spec, base: usize) -> Vec<U> {
    let n = src.us(9);
    let mut v: Vec<U> = (0..n).map(|_| U::from32(src.word())).collect();
    if U::BITS == 32 && !v.is_empty() {
        let run = s.shape != Shape::Fixed || s.fam == Fam::Stream;
        if run {
            let t = type_nibble(s.fam);
            let o = (t + 1 + src.us(15) as u32) & 0xF;
            // where the next packet begins (a one-word message leaves the rest of its packet)
            let at = (stride(s) - base % stride(s)) % stride(s);
            if at < v.len() {
                v[at] = U::from32(v[at].to32() & 0x0FFF_FFFF | o << 28);
            }
            // later packets are often of the message's own type
            if at == 0 && src.chance(1, 2) {
                let st = stride(s);
                for (i, w) in v.iter_mut().enumerate() {
                    if i > 0 && i % st == 0 || i == packet_words(o) {
                        *w = U::from32(w.to32() & 0x0FFF_FFFF | t << 28);
                    }
                }
            }
        }
    }
    v
}

/// damage a message a little
pub fn mutate<U: Model>(src: &mut Src, s: &Spec, d: &mut Vec<U>) {
    let st = if U::BITS == 32 { stride(s) } else { 1 };
    for _ in 0..1 + src.us(2) {
        if d.is_empty() {
            d.push(U::from32(src.word()));
            continue;
        }
        let np = d.len().div_ceil(st);
        let p = src.us(np) * st;
        match src.us(9) {
            0 => {
                // header bits of some packet
                let b = src.us(U::BITS as usize);
                d[p] = U::from32(d[p].to32() ^ 1 << b);
            }
            1 => {
                let i = src.us(d.len());
                let b = src.us(U::BITS as usize);
                d[i] = U::from32(d[i].to32() ^ 1 << b);
            }
            2 => {
                let i = src.us(d.len());
                d[i] = U::from32(src.word());
            }
            3 => {
                let n = src.us(d.len() + 1);
                d.truncate(n);
            }
            4 => {
                // drop a packet
                let e = (p + st).min(d.len());
                d.drain(p..e);
            }
            5 => {
                // repeat a packet
                let e = (p + st).min(d.len());
                let c: Vec<U> = d[p..e].to_vec();
                for (i, x) in c.into_iter().enumerate() {
                    d.insert(p + i, x);
                }
            }
            6 => {
                // one unit more or less
                if src.chance(1, 2) {
                    d.remove(src.us(d.len()));
                } else {
                    let i = src.us(d.len() + 1);
                    d.insert(i, U::from32(src.word()));
                }
            }
            7 => {
                // a nibble of the header
                let n = src.us((U::BITS / 4) as usize) as u32 * 4;
                let v = src.us(16) as u32;
                d[p] = U::from32(d[p].to32() & !(0xF << n) | v << n);
            }
            _ => {
                // same-type packet at the end, possibly partial
                let n = 1 + src.us(st);
                let mut c: Vec<U> = d[p..(p + st).min(d.len())].to_vec();
                c.truncate(n);
                d.extend(c);
            }
        }
    }
}

/// unstructured units with plausible first unit
pub fn gen_noise<U: Model>(src: &mut Src, s: &Spec, max: usize) -> Vec<U> {
    let n = src.len_biased(max);
    let mut d: Vec<U> = (0..n).map(|_| U::from32(src.word())).collect();
    let st = if U::BITS == 32 { stride(s) } else { 1 };
    if src.chance(3, 4) {
        for i in (0..n).step_by(st.max(1)) {
            if i == 0 || (U::BITS == 32 && src.chance(3, 4)) {
                for &(u, m, v) in s.consts {
                    if i + u < n {
                        d[i + u] = U::from32(d[i + u].to32() & !m | v);
                    }
                }
            }
        }
    }
    d
}
