//! Buffers, the uniform faces put over the library's message types, and field codecs.
use crate::codec::CodecSpec;
use midi2::buffer::*;
use midi2::error::BufferOverflow;
use midi2::Packets;
use std::cell::Cell;
use std::fmt::Debug;

// ------------------------------------------------------------------ units

pub trait Un: Unit + Copy + Eq + Debug + Default + Send + Sync + std::hash::Hash + 'static {
    const BITS: u32;
    fn from32(v: u32) -> Self;
    fn to32(self) -> u32;
}
impl Un for u32 {
    const BITS: u32 = 32;
    fn from32(v: u32) -> u32 {
        v
    }
    fn to32(self) -> u32 {
        self
    }
}
impl Un for u8 {
    const BITS: u32 = 8;
    fn from32(v: u32) -> u8 {
        v as u8
    }
    fn to32(self) -> u32 {
        self as u32
    }
}

pub fn hx<U: Un>(d: &[U]) -> String {
    let w = (U::BITS / 4) as usize;
    let v: Vec<String> = d.iter().map(|x| format!("{:0w$X}", x.to32())).collect();
    format!("[{}]", v.join(" "))
}

// ------------------------------------------------------------------ user-defined buffers

pub const CUSTOM_MAX: usize = 192;
thread_local! { static DEF_CAP: Cell<usize> = const { Cell::new(0) }; }
/// capacity that default-constructed and converted user-defined buffers get
pub fn set_default_cap(c: usize) {
    DEF_CAP.with(|x| x.set(c.min(CUSTOM_MAX)))
}
fn def_cap() -> usize {
    DEF_CAP.with(|x| x.get())
}

/// fixed capacity; never changes its length (like an array, but sized at run time)
#[derive(Clone, PartialEq, Eq)]
pub struct Fix<U> {
    d: [U; CUSTOM_MAX],
    cap: usize,
}
/// `try_resize` really changes the length, up to a capacity; contents revealed by growing are stale
#[derive(Clone)]
pub struct Shr<U> {
    d: [U; CUSTOM_MAX],
    len: usize,
    cap: usize,
}
/// infallible resize without heap; new units read as zero
#[derive(Clone)]
pub struct Grow<U> {
    d: [U; CUSTOM_MAX],
    len: usize,
}
impl<U: Un> PartialEq for Shr<U> {
    fn eq(&self, o: &Self) -> bool {
        self.buffer() == o.buffer()
    }
}
impl<U: Un> PartialEq for Grow<U> {
    fn eq(&self, o: &Self) -> bool {
        self.buffer() == o.buffer()
    }
}

impl<U: Un> Fix<U> {
    pub fn dirty(fill: &[U]) -> Self {
        let mut d = [U::default(); CUSTOM_MAX];
        d[..fill.len()].copy_from_slice(fill);
        Fix { d, cap: fill.len() }
    }
}
impl<U: Un> Shr<U> {
    /// length `len`, capacity fill.len(), everything stale
    pub fn dirty(fill: &[U], len: usize) -> Self {
        let mut d = [U::default(); CUSTOM_MAX];
        d[..fill.len()].copy_from_slice(fill);
        Shr { d, len: len.min(fill.len()), cap: fill.len() }
    }
}
impl<U: Un> Grow<U> {
    pub fn dirty(fill: &[U]) -> Self {
        let mut d = [U::default(); CUSTOM_MAX];
        d[..fill.len()].copy_from_slice(fill);
        Grow { d, len: fill.len() }
    }
}
impl<U: Un> Buffer for Fix<U> {
    type Unit = U;
    fn buffer(&self) -> &[U] {
        &self.d[..self.cap]
    }
}
impl<U: Un> Buffer for Shr<U> {
    type Unit = U;
    fn buffer(&self) -> &[U] {
        &self.d[..self.len]
    }
}
impl<U: Un> Buffer for Grow<U> {
    type Unit = U;
    fn buffer(&self) -> &[U] {
        &self.d[..self.len]
    }
}
impl<U: Un> BufferMut for Fix<U> {
    fn buffer_mut(&mut self) -> &mut [U] {
        &mut self.d[..self.cap]
    }
}
impl<U: Un> BufferMut for Shr<U> {
    fn buffer_mut(&mut self) -> &mut [U] {
        &mut self.d[..self.len]
    }
}
impl<U: Un> BufferMut for Grow<U> {
    fn buffer_mut(&mut self) -> &mut [U] {
        &mut self.d[..self.len]
    }
}
impl<U: Un> BufferDefault for Fix<U> {
    fn default() -> Self {
        Fix { d: [U::default(); CUSTOM_MAX], cap: def_cap() }
    }
}
impl<U: Un> BufferDefault for Shr<U> {
    fn default() -> Self {
        Shr { d: [U::default(); CUSTOM_MAX], len: 0, cap: def_cap() }
    }
}
impl<U: Un> BufferDefault for Grow<U> {
    fn default() -> Self {
        Grow { d: [U::default(); CUSTOM_MAX], len: 0 }
    }
}
impl<U: Un> BufferTryResize for Fix<U> {
    fn try_resize(&mut self, n: usize) -> Result<(), BufferOverflow> {
        if n <= self.cap {
            Ok(())
        } else {
            Err(BufferOverflow)
        }
    }
}
impl<U: Un> BufferTryResize for Shr<U> {
    fn try_resize(&mut self, n: usize) -> Result<(), BufferOverflow> {
        if n <= self.cap {
            self.len = n;
            Ok(())
        } else {
            Err(BufferOverflow)
        }
    }
}
impl<U: Un> BufferResize for Grow<U> {
    fn resize(&mut self, n: usize) {
        assert!(n <= CUSTOM_MAX, "Grow: asked for {n} units");
        for x in &mut self.d[self.len.min(n)..n] {
            *x = U::default();
        }
        self.len = n;
    }
}
impl<U: Un> TryFromBuffer<&[U]> for Fix<U> {
    fn try_from_buffer(v: &[U]) -> Result<Self, BufferOverflow> {
        let mut b = <Fix<U> as BufferDefault>::default();
        if v.len() > b.cap {
            return Err(BufferOverflow);
        }
        b.d[..v.len()].copy_from_slice(v);
        Ok(b)
    }
}
impl<U: Un> TryFromBuffer<&[U]> for Shr<U> {
    fn try_from_buffer(v: &[U]) -> Result<Self, BufferOverflow> {
        let mut b = <Shr<U> as BufferDefault>::default();
        if v.len() > b.cap {
            return Err(BufferOverflow);
        }
        b.len = v.len();
        b.d[..v.len()].copy_from_slice(v);
        Ok(b)
    }
}
impl<U: Un> FromBuffer<&[U]> for Grow<U> {
    fn from_buffer(v: &[U]) -> Self {
        Grow::dirty(v)
    }
}
// owned vectors carry spare capacity, which no move may mind
fn roomy<U: Un>(d: &[U]) -> Vec<U> {
    let mut v = Vec::with_capacity(d.len() * 2 + 33);
    v.extend_from_slice(d);
    v
}
impl<U: Un> FromBuffer<Grow<U>> for Vec<U> {
    fn from_buffer(v: Grow<U>) -> Self {
        roomy(v.buffer())
    }
}
impl<U: Un> FromBuffer<Fix<U>> for Vec<U> {
    fn from_buffer(v: Fix<U>) -> Self {
        roomy(v.buffer())
    }
}
/// tells how long the buffer of a message is: moving a message into one keeps the buffer
#[derive(Clone, PartialEq)]
pub struct Probe<U>(pub Vec<U>);
thread_local! {
    pub static PROBED: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
impl<U: Un> Buffer for Probe<U> {
    type Unit = U;
    fn buffer(&self) -> &[U] {
        &self.0
    }
}
impl<U: Un> FromBuffer<Vec<U>> for Probe<U> {
    fn from_buffer(v: Vec<U>) -> Self {
        PROBED.with(|c| c.set(v.len()));
        Probe(v)
    }
}
impl<U: Un> TryFromBuffer<Vec<U>> for Fix<U> {
    fn try_from_buffer(v: Vec<U>) -> Result<Self, BufferOverflow> {
        Fix::try_from_buffer(&v[..])
    }
}

// ------------------------------------------------------------------ edits

/// An iterator over bytes whose size hint is as vague (but never wrong) as asked for.
#[derive(Clone, Debug)]
pub struct Feed {
    pub bytes: Vec<u8>,
    pub hint: Hint,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hint {
    Exact,
    /// (0, None)
    Nothing,
    /// (len/2, None)
    HalfLower,
    /// (len, None)
    LowerOnly,
    /// (0, Some(len + k))
    LooseUpper(usize),
    /// (len.saturating_sub(k), Some(len))
    LooseLower(usize),
}
pub struct FeedIter<'a, T> {
    f: &'a [u8],
    hint: Hint,
    conv: fn(u8) -> T,
}
impl<T> Iterator for FeedIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let (a, b) = self.f.split_first()?;
        self.f = b;
        Some((self.conv)(*a))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.f.len();
        match self.hint {
            Hint::Exact => (n, Some(n)),
            Hint::Nothing => (0, None),
            Hint::HalfLower => (n / 2, None),
            Hint::LowerOnly => (n, None),
            Hint::LooseUpper(k) => (0, Some(n + k)),
            Hint::LooseLower(k) => (n.saturating_sub(k), Some(n)),
        }
    }
}
impl Feed {
    pub fn iter<T>(&self, conv: fn(u8) -> T) -> FeedIter<'_, T> {
        FeedIter { f: &self.bytes, hint: self.hint, conv }
    }
}

#[derive(Clone, Debug)]
pub enum Edit {
    Text(String),
    Set(Feed),
    Append(Feed),
    AppendByte(u8),
    Insert(Feed, usize),
    /// start, end, how the range is written
    Splice(Feed, usize, usize, RangeKind),
    SetByte(u8, usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RangeKind {
    HalfOpen,
    Inclusive,
    From,
    To,
    ToInclusive,
    Full,
    ExcludedStart,
}
pub fn bounds(a: usize, b: usize, k: RangeKind) -> (std::ops::Bound<usize>, std::ops::Bound<usize>) {
    use std::ops::Bound::*;
    match k {
        RangeKind::HalfOpen => (Included(a), Excluded(b)),
        RangeKind::Inclusive => (Included(a), Included(b - 1)),
        RangeKind::From => (Included(a), Unbounded),
        RangeKind::To => (Unbounded, Excluded(b)),
        RangeKind::ToInclusive => (Unbounded, Included(b - 1)),
        RangeKind::Full => (Unbounded, Unbounded),
        RangeKind::ExcludedStart => (Excluded(a - 1), Excluded(b)),
    }
}

/// content beyond the fixed fields
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Content {
    pub text: Option<String>,
    pub bytes: Option<Vec<u8>>,
}

// ------------------------------------------------------------------ iterator driving

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ItOp {
    Next,
    Nth(usize),
    Hint,
    Len,
    /// clone and count the clone
    CloneCount,
    /// clone and collect it (fold)
    CloneCollect,
    /// clone, last
    CloneLast,
    /// clone, skip(k).step_by(s) collect
    CloneSkipStep(usize, usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum ItObs {
    Item(Option<u64>),
    Hint(usize, Option<usize>),
    Num(usize),
    List(Vec<u64>),
}
/// `len` is None for iterators that are not ExactSizeIterator
pub fn drive<I: Iterator + Clone>(it: I, ops: &[ItOp], conv: impl Fn(I::Item) -> u64, len: Option<fn(&I) -> usize>) -> Vec<ItObs> {
    let mut it = it;
    let mut out = vec![];
    for op in ops {
        out.push(match *op {
            ItOp::Next => ItObs::Item(it.next().map(&conv)),
            ItOp::Nth(n) => ItObs::Item(it.nth(n).map(&conv)),
            ItOp::Hint => {
                let (a, b) = it.size_hint();
                ItObs::Hint(a, b)
            }
            ItOp::Len => match len {
                Some(f) => ItObs::Num(f(&it)),
                None => ItObs::Num(usize::MAX),
            },
            ItOp::CloneCount => ItObs::Num(it.clone().count()),
            ItOp::CloneCollect => ItObs::List(it.clone().fold(vec![], |mut v, x| {
                v.push(conv(x));
                v
            })),
            ItOp::CloneLast => ItObs::Item(it.clone().last().map(&conv)),
            ItOp::CloneSkipStep(k, s) => ItObs::List(it.clone().skip(k).step_by(s).map(&conv).collect()),
        })
    }
    out
}
/// for iterators that are not Clone
pub fn drive_noclone<I: Iterator>(it: I, ops: &[ItOp], conv: impl Fn(I::Item) -> u64, len: Option<fn(&I) -> usize>) -> Vec<ItObs> {
    let mut it = it;
    let mut out = vec![];
    for op in ops {
        out.push(match *op {
            ItOp::Next => ItObs::Item(it.next().map(&conv)),
            ItOp::Nth(n) => ItObs::Item(it.nth(n).map(&conv)),
            ItOp::Hint => {
                let (a, b) = it.size_hint();
                ItObs::Hint(a, b)
            }
            ItOp::Len => ItObs::Num(len.map_or(usize::MAX, |f| f(&it))),
            ItOp::CloneCount => {
                out.push(ItObs::Num(it.count()));
                return out;
            }
            ItOp::CloneCollect => {
                out.push(ItObs::List(it.map(&conv).collect()));
                return out;
            }
            ItOp::CloneLast => {
                out.push(ItObs::Item(it.last().map(&conv)));
                return out;
            }
            ItOp::CloneSkipStep(k, s) => {
                out.push(ItObs::List(it.skip(k).step_by(s).map(&conv).collect()));
                return out;
            }
        })
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Which {
    Payload,
    TextBytes,
    Packets,
}

pub fn pk_u64(p: &[u32]) -> u64 {
    let mut h = 0u64;
    for w in p {
        h = h.wrapping_mul(0x1_0000_01B3).wrapping_add(*w as u64 + 1);
    }
    h
}

// ------------------------------------------------------------------ faces

/// Statically dispatched face of one message type over one buffer.
pub trait Face<U: Un>: Sized {
    type Buf: Buffer<Unit = U>;
    fn f_data(&self) -> &[U];
    fn f_get(&self, i: usize) -> u64;
    fn f_dbg(&self) -> String;
    fn f_packets(&self) -> Option<Vec<Vec<u32>>>;
    fn f_content(&self) -> Content;
    fn f_size(&self) -> Option<usize>;
    fn f_drive(&self, w: Which, ops: &[ItOp]) -> Option<Vec<ItObs>>;
    fn f_set(&mut self, i: usize, raw: u64)
    where
        Self::Buf: BufferMut;
    /// edits that need no resize capability (single payload byte)
    fn f_poke(&mut self, b: u8, i: usize)
    where
        Self::Buf: BufferMut;
    fn f_edit(&mut self, e: &Edit)
    where
        Self::Buf: BufferMut + BufferResize;
    fn f_try(&mut self, e: &Edit) -> Result<(), BufferOverflow>
    where
        Self::Buf: BufferMut + BufferTryResize;
}

pub fn packets_vec(p: &impl Packets) -> Vec<Vec<u32>> {
    p.packets().map(|p| p.to_vec()).collect()
}
pub fn packets_drive(p: &impl Packets, ops: &[ItOp]) -> Vec<ItObs> {
    drive(p.packets(), ops, |p| pk_u64(&p), Some(|i| i.len()))
}

/// Dynamically dispatched message.
pub trait Obj<U: Un> {
    fn data(&self) -> &[U];
    fn get(&self, i: usize) -> u64;
    fn dbg(&self) -> String;
    fn packets(&self) -> Option<Vec<Vec<u32>>>;
    fn content(&self) -> Content;
    fn psize(&self) -> Option<usize>;
    fn drive(&self, w: Which, ops: &[ItOp]) -> Option<Vec<ItObs>>;
    fn set(&mut self, i: usize, raw: u64);
    /// None: this buffer has no such edit
    fn edit(&mut self, e: &Edit) -> Result<(), BufferOverflow>;
    fn mutable(&self) -> bool;
    /// edits can fail
    fn fallible(&self) -> bool;
}

pub struct Ro<M>(pub M);
pub struct Rz<M>(pub M);
pub struct Tr<M>(pub M);

macro_rules! obj_reads {
    () => {
        fn data(&self) -> &[U] {
            self.0.f_data()
        }
        fn get(&self, i: usize) -> u64 {
            self.0.f_get(i)
        }
        fn dbg(&self) -> String {
            self.0.f_dbg()
        }
        fn packets(&self) -> Option<Vec<Vec<u32>>> {
            self.0.f_packets()
        }
        fn content(&self) -> Content {
            self.0.f_content()
        }
        fn psize(&self) -> Option<usize> {
            self.0.f_size()
        }
        fn drive(&self, w: Which, ops: &[ItOp]) -> Option<Vec<ItObs>> {
            self.0.f_drive(w, ops)
        }
    };
}
impl<U: Un, M: Face<U>> Obj<U> for Ro<M> {
    obj_reads!();
    fn set(&mut self, _: usize, _: u64) {
        unreachable!()
    }
    fn edit(&mut self, _: &Edit) -> Result<(), BufferOverflow> {
        unreachable!()
    }
    fn mutable(&self) -> bool {
        false
    }
    fn fallible(&self) -> bool {
        false
    }
}
impl<U: Un, M: Face<U>> Obj<U> for Rz<M>
where
    M::Buf: BufferMut + BufferResize,
{
    obj_reads!();
    fn set(&mut self, i: usize, raw: u64) {
        self.0.f_set(i, raw)
    }
    fn edit(&mut self, e: &Edit) -> Result<(), BufferOverflow> {
        if let Edit::SetByte(b, i) = e {
            self.0.f_poke(*b, *i)
        } else {
            self.0.f_edit(e)
        }
        Ok(())
    }
    fn mutable(&self) -> bool {
        true
    }
    fn fallible(&self) -> bool {
        false
    }
}
impl<U: Un, M: Face<U>> Obj<U> for Tr<M>
where
    M::Buf: BufferMut + BufferTryResize,
{
    obj_reads!();
    fn set(&mut self, i: usize, raw: u64) {
        self.0.f_set(i, raw)
    }
    fn edit(&mut self, e: &Edit) -> Result<(), BufferOverflow> {
        if let Edit::SetByte(b, i) = e {
            self.0.f_poke(*b, *i);
            Ok(())
        } else {
            self.0.f_try(e)
        }
    }
    fn mutable(&self) -> bool {
        true
    }
    fn fallible(&self) -> bool {
        true
    }
}

// ------------------------------------------------------------------ kits

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Vec,
    MutVec,
    Grow,
    Slice,
    Fix,
    Shr,
    ArrUnder,
    ArrMin,
    ArrOdd,
    ArrBig,
}
pub const KINDS: [Kind; 10] =
    [Kind::Vec, Kind::MutVec, Kind::Grow, Kind::Slice, Kind::Fix, Kind::Shr, Kind::ArrUnder, Kind::ArrMin, Kind::ArrOdd, Kind::ArrBig];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ctor {
    /// `new()`
    New,
    /// `new_with_buffer` / `try_new_with_buffer` with the given previous contents
    With,
    /// `try_new()`
    TryNew,
}

pub const ARR_BIG: usize = 29;
pub const ARR_ODD_EXTRA: usize = 5;

pub struct St<U> {
    pub v: Vec<U>,
    /// initial length of Shr
    pub len: usize,
    /// heap allocations made by the constructor call
    pub allocs: u64,
}

pub type Made<'a, U> = Result<Box<dyn Obj<U> + 'a>, BufferOverflow>;

pub struct FieldSpec {
    pub name: &'static str,
    /// (unit index, mask), most significant first
    pub pieces: &'static [(usize, u32)],
    pub codec: &'static CodecSpec,
    /// repeated on every packet of the message
    pub shared: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Shape {
    /// one packet / fixed byte count
    Fixed,
    FlexText,
    /// offset 0 or 1 (function block)
    StreamText(usize),
    Sysex7,
    Sysex8,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Fam {
    Cv1,
    Cv2,
    Sc,
    Ut,
    Flex,
    Stream,
    S7,
    S8,
}

pub struct Spec {
    pub name: &'static str,
    pub fam: Fam,
    pub shape: Shape,
    pub min: usize,
    /// (unit, mask, value): must match to be accepted, present after construction
    pub consts: &'static [(usize, u32, u32)],
    /// conditions on the first packet beyond consts (flex: address must be non-zero)
    pub fields: &'static [FieldSpec],
    pub addr_nonzero: bool,
}

pub type Boxed<U> = Box<dyn Obj<U>>;

pub trait Kit<U: Un>: Sync + Send {
    fn spec(&self) -> &'static Spec;
    fn parse<'a>(&self, d: &'a [U]) -> Result<Box<dyn Obj<U> + 'a>, String>;
    /// construct; `st.v` supplies previous contents (its length is the capacity).
    /// None: this buffer kind has no such constructor
    fn make<'a>(&self, k: Kind, c: Ctor, st: &'a mut St<U>) -> Option<Made<'a, U>>;
    /// the parsed units moved into a buffer of the given kind (capacity of Fix/Shr: set_default_cap)
    fn load(&self, k: Kind, d: &[U]) -> Option<Made<'static, U>>;
    fn routes(&self) -> usize;
    /// move the parsed units along a route
    fn rebuffer(&self, route: usize, d: &[U]) -> (&'static str, Option<usize>, Result<Boxed<U>, BufferOverflow>);
    /// construct in a borrowed slice, apply `script`, move to a shared slice and on
    fn mutroutes(&self) -> usize;
    fn mutroute(&self, route: usize, v: &mut [U], script: &mut dyn FnMut(&mut dyn Obj<U>), check: &mut dyn FnMut(&'static str, Option<usize>, Option<&dyn Obj<U>>));
    /// construct in an owned buffer (a vector on `v`, or an array), apply `script`, and move it;
    /// `check(name, source buffer length, destination size, moved)`
    fn ownroutes(&self) -> usize;
    fn ownroute(&self, route: usize, v: Vec<U>, script: &mut dyn FnMut(&mut dyn Obj<U>, Option<usize>), check: &mut dyn FnMut(&'static str, usize, Option<usize>, Option<&dyn Obj<U>>));
    fn eq(&self, a: &[U], b: &[U]) -> bool;
    /// two messages in buffers of the given kind, their equality and copies.
    /// None: one of them does not fit
    fn values(&self, h: Held, a: &Side<U>, b: &Side<U>, play: &mut dyn FnMut(usize, &mut dyn Obj<U>)) -> Option<Vals<U>>;
}

// ------------------------------------------------------------------ messages as values

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Held {
    Shared,
    Vec,
    Grow,
    ArrOdd,
    ArrBig,
    Slice,
}
pub const HELD: [Held; 6] = [Held::Shared, Held::Vec, Held::Grow, Held::ArrOdd, Held::ArrBig, Held::Slice];
#[derive(Clone, Debug)]
pub enum Side<U> {
    /// parsed from these units (the message and what lies behind it)
    Parsed(Vec<U>),
    /// constructed over these previous contents
    Over(Vec<U>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Cmp<U> {
    pub what: &'static str,
    pub equal: bool,
    pub flipped: bool,
    pub not_ne: bool,
    pub a: Vec<U>,
    pub b: Vec<U>,
}
#[derive(Clone, Debug)]
pub struct Vals<U> {
    pub cmps: Vec<Cmp<U>>,
    /// (what, before, after): must be the same
    pub kept: Vec<(&'static str, Vec<U>, Vec<U>)>,
}
fn cmp<U: Un, M: Face<U> + PartialEq>(what: &'static str, a: &M, b: &M) -> Cmp<U> {
    #[allow(clippy::nonminimal_bool)]
    Cmp { what, equal: a == b, flipped: b == a, not_ne: !(a != b), a: a.f_data().to_vec(), b: b.f_data().to_vec() }
}
/// `play(0)` and `play(1)` edit the two messages, `play(2)` a copy
pub fn vals_pair<U: Un, M: Face<U> + PartialEq, W: Obj<U>>(wrap: fn(M) -> W, inner: fn(&W) -> &M, a: M, b: M, play: &mut dyn FnMut(usize, &mut dyn Obj<U>)) -> (W, W, Vals<U>) {
    let (mut x, mut y) = (wrap(a), wrap(b));
    if x.mutable() {
        play(0, &mut x);
        play(1, &mut y);
    }
    let v = Vals {
        cmps: vec![cmp("pair", inner(&x), inner(&y)), cmp("self", inner(&x), inner(&x))],
        kept: vec![],
    };
    (x, y, v)
}
pub fn vals_copy<U: Un, M: Face<U> + PartialEq + Clone, W: Obj<U>>(wrap: fn(M) -> W, inner: fn(&W) -> &M, a: M, b: M, again: M, play: &mut dyn FnMut(usize, &mut dyn Obj<U>)) -> Vals<U> {
    let (mut x, mut y, mut v) = vals_pair(wrap, inner, a, b, play);
    let before = x.data().to_vec();
    let mut z = wrap(inner(&x).clone());
    v.cmps.push(cmp("clone", inner(&z), inner(&x)));
    v.kept.push(("the copy", before.clone(), z.data().to_vec()));
    if x.mutable() {
        play(2, &mut z);
        v.kept.push(("the original after its copy was edited", before, x.data().to_vec()));
        v.cmps.push(cmp("original and edited copy", inner(&x), inner(&z)));
        let mut w = wrap(again);
        play(0, &mut w);
        play(2, &mut w);
        v.cmps.push(cmp("same edits", inner(&z), inner(&w)));
        v.kept.push(("the same edits on the copy and on another message", z.data().to_vec(), w.data().to_vec()));
        let zd = z.data().to_vec();
        // the other way round: the original edited
        play(2, &mut x);
        v.kept.push(("the copy after the original was edited", zd, z.data().to_vec()));
        v.cmps.push(cmp("both edited", inner(&x), inner(&z)));
        // and assigned over another message
        let t = inner(&z).clone();
        drop(z);
        v.kept.push(("the copy of a copy", x.data().to_vec(), t.f_data().to_vec()));
        let yd = y.data().to_vec();
        let mut u = inner(&y).clone();
        u.clone_from(&t);
        v.kept.push(("clone_from", t.f_data().to_vec(), u.f_data().to_vec()));
        v.kept.push(("the source of an overwritten copy", yd, y.data().to_vec()));
        play(3, &mut y);
    }
    v
}
