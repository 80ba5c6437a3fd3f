//! Histories of edits on one message and the model they are judged against.
use crate::engine::*;
use crate::model::*;
use crate::types::*;

pub struct M<U: Model> {
    pub s: &'static Spec,
    pub units: Vec<U>,
    /// unit bits whose value is unspecified
    pub dc: Vec<u32>,
    pub content: Vec<u8>,
    /// reserved bits that were already set when the message was loaded: a later write may clear them
    pub rdc: Vec<u32>,
    pub edited: bool,
    /// parsed with high bits set in payload bytes
    pub wild7: bool,
    /// the operations must not allocate
    pub heapless: bool,
}

/// bits of a fixed-layout message that no constant and no field covers
fn reserved<U: Model>(s: &Spec, n: usize) -> Vec<u32> {
    if s.shape != Shape::Fixed {
        return vec![0; n];
    }
    let mut d = vec![U::default(); n];
    for f in s.fields {
        put(s, f, &mut d, u64::MAX);
    }
    let mut v: Vec<u32> = d.iter().map(|x| x.to32()).collect();
    for &(u, m, _) in s.consts {
        if u < n {
            v[u] |= m;
        }
    }
    let full = if U::BITS == 8 { 0xFF } else { u32::MAX };
    v.iter().map(|x| !x & full).collect()
}

pub fn is_text(s: &Spec) -> bool {
    matches!(s.shape, Shape::FlexText | Shape::StreamText(_))
}
pub fn is_sysex(s: &Spec) -> bool {
    matches!(s.shape, Shape::Sysex7 | Shape::Sysex8)
}

impl<U: Model> M<U> {
    pub fn fresh(s: &'static Spec) -> Self {
        let units = default_units::<U>(s);
        let n = units.len();
        let mut m = M { s, dc: vec![0; n], units, content: vec![], rdc: vec![0; n], edited: false, wild7: false, heapless: false };
        for i in 0..s.fields.len() {
            let f = &s.fields[i];
            m.mark(i, (f.codec.dc)(f.codec.default));
        }
        m
    }
    pub fn loaded(s: &'static Spec, units: &[U], content: &[u8]) -> Self {
        let n = units.len();
        let rdc = reserved::<U>(s, n).iter().zip(units).map(|(r, u)| r & u.to32()).collect();
        M { s, units: units.to_vec(), dc: vec![0; n], content: content.to_vec(), rdc, edited: false, wild7: units.iter().enumerate().any(|(i, u)| u.to32() & if i % 2 == 0 { 0x8080 } else { 0x8080_8080 } != 0), heapless: false }
    }
    fn mark(&mut self, i: usize, dcbits: u64) {
        let f = &self.s.fields[i];
        let mut d: Vec<U> = self.dc.iter().map(|x| U::from32(*x)).collect();
        put(self.s, f, &mut d, dcbits);
        self.dc = d.iter().map(|x| x.to32()).collect();
    }
    pub fn set(&mut self, i: usize, raw: u64) {
        let f = &self.s.fields[i];
        let c = (f.codec.canon)(raw);
        put(self.s, f, &mut self.units, c);
        self.mark(i, (f.codec.dc)(c));
    }
    pub fn apply(&self, e: &Edit) -> Vec<u8> {
        let mut c = self.content.clone();
        match e {
            Edit::Text(t) => c = t.as_bytes().to_vec(),
            Edit::Set(f) => c = f.bytes.clone(),
            Edit::Append(f) => c.extend(&f.bytes),
            Edit::AppendByte(b) => c.push(*b),
            Edit::Insert(f, i) => {
                c.splice(*i..*i, f.bytes.iter().copied());
            }
            Edit::Splice(f, a, b, _) => {
                c.splice(*a..*b, f.bytes.iter().copied());
            }
            Edit::SetByte(b, i) => c[*i] = *b,
        }
        c
    }
    /// the message after its content became `c`
    pub fn replace(&mut self, e: &Edit, c: Vec<u8>) {
        if let Edit::SetByte(b, i) = e {
            // keeps the packet structure
            self.content = c;
            if U::BITS == 8 {
                self.units[1 + i] = U::from32(*b as u32);
            } else {
                let st = stride(self.s);
                let oct = octets(self.s.shape);
                let mut k = *i;
                for p in self.units.chunks_mut(st) {
                    let mut w: Vec<u32> = p.iter().map(|x| x.to32()).collect();
                    let n = declared(self.s.shape, &w);
                    if k < n {
                        set_octet(&mut w, oct[k], *b);
                        for (x, y) in p.iter_mut().zip(w) {
                            *x = U::from32(y);
                        }
                        break;
                    }
                    k -= n;
                }
            }
            return;
        }
        self.content = c;
        let head = self.units[0].to32() & head_mask(self.s);
        let hdc = self.dc[0];
        self.units = U::build(self.s, head, &self.content, None);
        let st = if U::BITS == 32 { stride(self.s) } else { 1 };
        self.dc = (0..self.units.len()).map(|i| if U::BITS == 32 && i % st == 0 { hdc } else { 0 }).collect();
    }
    pub fn empty(&mut self) {
        self.replace(&Edit::Set(Feed { bytes: vec![], hint: Hint::Exact }), vec![]);
    }
    /// units with unspecified bits cleared
    pub fn masked(&self, d: &[U]) -> Vec<U> {
        let mut v: Vec<U> = d
            .iter()
            .enumerate()
            .map(|(i, x)| {
                let r = if self.edited { self.rdc.get(i).copied().unwrap_or(0) } else { 0 };
                U::from32(x.to32() & !self.dc.get(i).copied().unwrap_or(0) & !r)
            })
            .collect();
        if self.edited && self.s.shape == Shape::FlexText {
            // every address but 0 reads as "no channel", whose channel bits mean nothing
            for p in v.chunks_mut(4) {
                let w = p[0].to32();
                if w & 0x0030_0000 != 0 {
                    p[0] = U::from32(w & !0x003F_0000 | 0x0010_0000);
                }
            }
        }
        if self.edited && self.wild7 && U::BITS == 32 && self.s.shape == Shape::Sysex7 {
            // the high bit of a payload byte is reserved and may linger from the parsed data
            for p in v.chunks_mut(2) {
                p[0] = U::from32(p[0].to32() & 0xFFFF_7F7F);
                if p.len() > 1 {
                    p[1] = U::from32(p[1].to32() & 0x7F7F_7F7F);
                }
            }
        }
        v
    }
    pub fn check_units(&self, got: &[U], at: &str) -> R {
        let (g, w) = (self.masked(got), self.masked(&self.units));
        if g != w {
            return fail(
                format!("units:{}", self.s.name),
                format!("{} {}: expected data {}, got {}", self.s.name, at, hx(&self.units), hx(got)),
            );
        }
        Ok(())
    }
    pub fn check_fields(&self, o: &dyn Obj<U>, at: &str) -> R {
        for (i, f) in self.s.fields.iter().enumerate() {
            let want = reading(f, &self.units);
            let got = o.get(i);
            if got != want {
                return fail(
                    format!("field:{}.{}", self.s.name, f.name),
                    format!("{} {}: field {} should read {:#x}, reads {:#x}; data {}", self.s.name, at, f.name, want, got, hx(o.data())),
                );
            }
        }
        Ok(())
    }
    pub fn check_content(&self, o: &dyn Obj<U>, at: &str) -> R {
        let c = o.content();
        if self.s.shape == Shape::Fixed {
            return Ok(());
        }
        if c.bytes.as_deref() != Some(&self.content[..]) {
            return fail(
                format!("content:{}", self.s.name),
                format!("{} {}: content should be {:02X?}, is {:02X?}; data {}", self.s.name, at, self.content, c.bytes, hx(o.data())),
            );
        }
        if is_text(self.s) {
            let want = String::from_utf8(self.content.clone()).unwrap();
            same!(c.text.as_deref(), Some(&want[..]), format!("text:{}", self.s.name), "{} {} text", self.s.name, at);
        }
        if is_sysex(self.s) {
            same!(o.psize(), Some(self.content.len()), format!("payload_size:{}", self.s.name), "{} {} payload size", self.s.name, at);
        }
        Ok(())
    }
    pub fn check(&self, o: &dyn Obj<U>, at: &str) -> R {
        self.check_units(o.data(), at)?;
        self.check_fields(o, at)?;
        self.check_content(o, at)
    }
    /// the data parses again as the same type, wholly, with the same readings
    pub fn check_reparse(&self, kit: &dyn Kit<U>, d: &[U], at: &str) -> R {
        match kit.parse(d) {
            Err(e) => fail(format!("reparse:{}", self.s.name), format!("{} {}: data {} no longer parses: {}", self.s.name, at, hx(d), e)),
            Ok(o) => {
                same!(o.data(), d, format!("reparse-data:{}", self.s.name), "{} {} re-parsed data", self.s.name, at);
                self.check_fields(&*o, at)?;
                self.check_content(&*o, at)
            }
        }
    }
    pub fn fits(&self, content_len: usize, cap: Option<usize>) -> bool {
        cap.map_or(true, |c| U::units_for(self.s, content_len) <= c)
    }
}

// ---------------------------------------------------------------- buffers

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Place {
    pub kind: Kind,
    pub ctor: Ctor,
    /// capacity for Slice / Fix / Shr; previous length for Vec / MutVec / Grow
    pub n: usize,
}
pub fn capacity(p: &Place, min: usize) -> Option<usize> {
    match p.kind {
        Kind::Vec | Kind::MutVec | Kind::Grow => None,
        Kind::Slice | Kind::Fix | Kind::Shr => Some(p.n),
        Kind::ArrUnder => Some(min - 1),
        Kind::ArrMin => Some(min),
        Kind::ArrOdd => Some(min + ARR_ODD_EXTRA),
        Kind::ArrBig => Some(ARR_BIG),
    }
}
pub fn ctors(k: Kind) -> &'static [Ctor] {
    match k {
        Kind::Vec | Kind::Grow => &[Ctor::New, Ctor::With],
        Kind::MutVec | Kind::Slice => &[Ctor::With],
        Kind::Fix | Kind::Shr | Kind::ArrUnder | Kind::ArrMin => &[Ctor::With, Ctor::TryNew],
        Kind::ArrOdd | Kind::ArrBig => &[Ctor::New, Ctor::With, Ctor::TryNew],
    }
}
pub fn gen_place(src: &mut Src, kinds: &[Kind], max: usize) -> Place {
    let kind = *src.pick(kinds);
    let ctor = *src.pick(ctors(kind));
    let n = match src.us(3) {
        0 => src.us(12),
        _ => src.us(max.min(CUSTOM_MAX) + 1),
    };
    Place { kind, ctor, n }
}
/// previous contents: clean or dirty
pub fn gen_st<U: Un>(src: &mut Src, p: &Place, min: usize) -> St<U> {
    let n = match p.kind {
        Kind::ArrUnder => min - 1,
        Kind::ArrMin => min,
        Kind::ArrOdd => min + ARR_ODD_EXTRA,
        Kind::ArrBig => ARR_BIG,
        _ => p.n,
    };
    let v: Vec<U> = match src.us(4) {
        0 => vec![U::default(); n],
        1 => vec![U::from32(u32::MAX); n],
        2 => {
            let w = U::from32(src.bits(32) as u32);
            vec![w; n]
        }
        _ => (0..n).map(|_| U::from32(src.word())).collect(),
    };
    let len = if n == 0 { 0 } else { src.us(n + 1) };
    St { v, len, allocs: 0 }
}

pub const GROWABLE: [Kind; 3] = [Kind::Vec, Kind::MutVec, Kind::Grow];
pub const FALLIBLE: [Kind; 6] = [Kind::Slice, Kind::Fix, Kind::Shr, Kind::ArrOdd, Kind::ArrBig, Kind::ArrMin];

// ---------------------------------------------------------------- edits

pub fn gen_hint(src: &mut Src) -> Hint {
    match src.us(8) {
        0 | 1 => Hint::Exact,
        2 => Hint::Nothing,
        3 => Hint::HalfLower,
        4 => Hint::LowerOnly,
        5 => Hint::LooseUpper(src.us(40)),
        6 => Hint::LooseLower(1 + src.us(20)),
        _ => Hint::Exact,
    }
}
pub fn gen_feed(src: &mut Src, s: &Spec, max: usize) -> Feed {
    let n = content_len(src, s.shape, max);
    Feed { bytes: payload(src, s, n), hint: gen_hint(src) }
}
/// an edit of a message with `len` content bytes, leaving at most `max`
pub fn gen_edit(src: &mut Src, s: &Spec, len: usize, max: usize) -> Edit {
    if is_text(s) {
        let n = content_len(src, s.shape, max);
        return Edit::Text(text_of(src, n));
    }
    let m = if s.fam == Fam::S7 { 0x7F } else { 0xFF };
    match src.us(8) {
        0 | 1 => Edit::Set(gen_feed(src, s, max)),
        2 => Edit::Append(gen_feed(src, s, max.saturating_sub(len).min(40))),
        3 if len < max => Edit::AppendByte(src.bits(8) as u8 & m),
        4 => {
            let f = gen_feed(src, s, max.saturating_sub(len).min(40));
            let i = src.us(len + 1);
            Edit::Insert(f, i)
        }
        5 if len > 0 => Edit::SetByte(src.bits(8) as u8 & m, src.us(len)),
        _ => {
            let mut a = src.us(len + 1);
            let mut b = a + src.us(len - a + 1);
            let mut k = *src.pick(&[
                RangeKind::HalfOpen,
                RangeKind::Inclusive,
                RangeKind::From,
                RangeKind::To,
                RangeKind::ToInclusive,
                RangeKind::Full,
                RangeKind::ExcludedStart,
            ]);
            match k {
                RangeKind::Inclusive if b == a => k = RangeKind::HalfOpen,
                RangeKind::From => b = len,
                RangeKind::To => a = 0,
                RangeKind::ToInclusive => {
                    a = 0;
                    if b == 0 {
                        k = RangeKind::To;
                    }
                }
                RangeKind::Full => {
                    a = 0;
                    b = len;
                }
                RangeKind::ExcludedStart if a == 0 => k = RangeKind::HalfOpen,
                _ => {}
            }
            let f = gen_feed(src, s, max.saturating_sub(len - (b - a)).min(40));
            Edit::Splice(f, a, b, k)
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Set(usize, u64),
    Edit(Edit),
}
/// a field write or content edit
pub fn gen_op(src: &mut Src, s: &Spec, len: usize, max: usize) -> Option<Op> {
    let has_content = s.shape != Shape::Fixed;
    let nf = s.fields.len();
    if has_content && (nf == 0 || src.chance(1, 2)) {
        Some(Op::Edit(gen_edit(src, s, len, max)))
    } else if nf > 0 {
        let i = src.us(nf);
        Some(Op::Set(i, (s.fields[i].codec.draw)(src)))
    } else {
        None
    }
}
pub fn show_op(s: &Spec, o: &Op) -> String {
    match o {
        Op::Set(i, r) => format!("{}<-{:#x}", s.fields[*i].name, r),
        Op::Edit(Edit::Set(f)) => format!("set {} bytes {:?}", f.bytes.len(), f.hint),
        Op::Edit(Edit::Append(f)) => format!("append {} bytes {:?}", f.bytes.len(), f.hint),
        Op::Edit(Edit::Insert(f, i)) => format!("insert {} bytes at {} {:?}", f.bytes.len(), i, f.hint),
        Op::Edit(Edit::Splice(f, a, b, k)) => format!("splice {}..{} ({:?}) with {} bytes {:?}", a, b, k, f.bytes.len(), f.hint),
        Op::Edit(e) => format!("{e:?}"),
    }
}

/// One operation on object and model. `cap` None: growable. Returns false when the edit overflowed.
pub fn step<U: Model>(o: &mut dyn Obj<U>, m: &mut M<U>, op: &Op, cap: Option<usize>, at: &str) -> Result<bool, Fail> {
    m.edited = true;
    match op {
        Op::Set(i, raw) => {
            let (_, n) = alloc_count(|| o.set(*i, *raw));
            ensure!(n == 0 || !m.heapless, format!("heap:{}", m.s.name), "{} {}: {} made {} heap allocation(s)", m.s.name, at, show_op(m.s, op), n);
            m.set(*i, *raw);
            Ok(true)
        }
        Op::Edit(e) => {
            let c = m.apply(e);
            let grow = !matches!(e, Edit::SetByte(..));
            let fits = !grow || m.fits(c.len(), cap);
            let before = o.data().to_vec();
            let (r, n) = alloc_count(|| o.edit(e));
            ensure!(n == 0 || !m.heapless, format!("heap:{}", m.s.name), "{} {}: {} made {} heap allocation(s)", m.s.name, at, show_op(m.s, op), n);
            if fits {
                ensure!(
                    r.is_ok(),
                    format!("spurious-overflow:{}", m.s.name),
                    "{} {}: {} should fit in {:?} units ({} needed) but overflowed",
                    m.s.name, at, show_op(m.s, op), cap, U::units_for(m.s, c.len())
                );
                m.replace(e, c);
                Ok(true)
            } else {
                ensure!(
                    r.is_err(),
                    format!("missing-overflow:{}", m.s.name),
                    "{} {}: {} cannot fit in {:?} units ({} needed) but reported success",
                    m.s.name, at, show_op(m.s, op), cap, U::units_for(m.s, c.len())
                );
                if is_sysex(m.s) {
                    m.empty();
                } else {
                    same!(hx(o.data()), hx(&before), format!("overflow-changed:{}", m.s.name), "{} {} data after overflow", m.s.name, at);
                }
                Ok(false)
            }
        }
    }
}
