//! Long messages: sizes around the places where counters of 8 and 16 bits wrap, contents that do
//! not repeat, histories of few but big edits. Contents come from one seed choice, so that a case
//! shrinks by its sizes.
use crate::engine::*;
use crate::hist::*;
use crate::model::*;
use crate::pkt::check_partition;
use crate::props_a::*;
use crate::types::*;

/// content sizes of interest
pub fn size(src: &mut Src, s: &Spec) -> usize {
    let c = cap(s.shape);
    match src.us(36) {
        32..=35 => {
            let h = (src.hint() & 0x3FFF) as usize;
            (if h < 1200 && src.chance(1, 2) { h * c + src.us(3) } else { h }).max(41)
        }
        0..=11 => 120 + src.us(1600),
        12..=19 => {
            let p = *src.pick(&[64, 128, 255, 256, 257, 512]);
            (p * c + src.us(2 * c + 1)).saturating_sub(c)
        }
        20..=23 => *src.pick(&[128, 256, 512, 1024, 2048, 4096, 8192]) + src.us(5) - 2,
        24..=29 => 1500 + src.us(5000),
        30 => 10_000 + src.us(10_000),
        _ => match src.us(40) {
            0 => 65536 * c + src.us(5) - 2,
            1..=9 => 65536 + src.us(9) - 4,
            10..=14 => 32768 + src.us(9) - 4,
            _ => 20_000 + src.us(10_000),
        },
    }
}
fn xs(x: &mut u32) -> u32 {
    *x ^= *x << 13;
    *x ^= *x >> 17;
    *x ^= *x << 5;
    *x
}
pub fn bulk(src: &mut Src, s: &Spec, n: usize) -> Vec<u8> {
    let m = if s.fam == Fam::S7 { 0x7F } else { 0xFF };
    let mut x = src.bits(16) as u32 * 2 + 1;
    (0..n).map(|_| (xs(&mut x) >> 9) as u8 & m).collect()
}
pub fn bulk_text(src: &mut Src, n: usize) -> String {
    let mut x = src.bits(16) as u32 * 2 + 1;
    let wide = src.us(3) as u32;
    let mut t = String::with_capacity(n);
    while t.len() < n {
        let r = xs(&mut x) >> 7;
        let ch = if r % 8 < wide { char::from_u32([0x80, 0x7FF, 0x800, 0xFFFD, 0x10000, 0x10FFFF, 0xE9, 0x6F22][(r >> 4) as usize % 8]).unwrap() } else { (b'!' + (r >> 4) as u8 % 90) as char };
        if t.len() + ch.len_utf8() <= n {
            t.push(ch);
        } else {
            t.push('z');
        }
    }
    t
}
fn feed(src: &mut Src, s: &Spec, n: usize) -> Feed {
    Feed { bytes: bulk(src, s, n), hint: gen_hint(src) }
}
fn at(src: &mut Src, len: usize) -> usize {
    match src.us(7) {
        6 => (src.hint() as usize & 0xFFFF).min(len),
        0 => src.us(40).min(len),
        1 => len - src.us(40).min(len),
        2 => (256 * src.us(len / 256 + 1) + src.us(3)).min(len),
        _ => src.us(len + 1),
    }
}
/// short or long additions
fn amount(src: &mut Src, s: &Spec) -> usize {
    if src.chance(1, 2) {
        src.us(60)
    } else {
        size(src, s)
    }
}
pub fn edit(src: &mut Src, s: &Spec, len: usize) -> Edit {
    if is_text(s) {
        let n = if src.chance(1, 5) { src.us(60) } else { size(src, s) };
        return Edit::Text(bulk_text(src, n));
    }
    let m = if s.fam == Fam::S7 { 0x7F } else { 0xFF };
    if len == 0 || src.chance(1, 8) {
        let n = size(src, s);
        return Edit::Set(feed(src, s, n));
    }
    let n = amount(src, s);
    match src.us(7) {
        0 => Edit::Append(feed(src, s, n)),
        1 => Edit::AppendByte(src.bits(8) as u8 & m),
        2 => {
            let f = feed(src, s, n);
            Edit::Insert(f, at(src, len))
        }
        3 => Edit::SetByte(src.bits(8) as u8 & m, at(src, len).min(len - 1)),
        _ => {
            let (x, y) = (at(src, len), at(src, len));
            let (mut a, mut b) = (x.min(y), x.max(y));
            if src.chance(1, 2) {
                b = (a + src.us(40)).min(len);
            }
            let k = match src.us(5) {
                0 if b > a => RangeKind::Inclusive,
                1 => {
                    b = len;
                    RangeKind::From
                }
                2 => {
                    a = 0;
                    RangeKind::To
                }
                3 if a > 0 => RangeKind::ExcludedStart,
                _ => RangeKind::HalfOpen,
            };
            let f = feed(src, s, n);
            Edit::Splice(f, a, b, k)
        }
    }
}
fn show(s: &Spec, o: &Op) -> String {
    match o {
        Op::Edit(Edit::Text(t)) => format!("text of {} bytes", t.len()),
        o => show_op(s, o),
    }
}

/// a well-formed long message
pub fn gen<U: Model>(src: &mut Src, s: &Spec) -> GenMsg<U> {
    let mut n = size(src, s);
    let bytes = if is_text(s) { bulk_text(src, n).into_bytes() } else { bulk(src, s, n) };
    let mut head = const_head(s);
    if U::BITS == 32 {
        let mut h = [head];
        for f in s.fields {
            let r = (f.codec.draw)(src);
            insert(f, &mut h, r);
        }
        head = h[0];
    }
    let odd = U::BITS == 32 && src.chance(1, 2);
    let units = if odd {
        let c = cap(s.shape);
        let mut v = vec![];
        match src.us(3) {
            0 => {
                // uneven throughout, from one seed
                let mut x = src.bits(16) as u32 * 2 + 1;
                while n > 0 {
                    let k = ((xs(&mut x) >> 8) as usize % (c + 1)).min(n);
                    v.push(k);
                    n -= k;
                }
            }
            1 => {
                // full but for one packet
                let full = n.div_ceil(c);
                let at = src.us(full + 1);
                let short = src.us(c);
                while n > 0 {
                    let k = if v.len() == at { short.min(n) } else { c.min(n) };
                    v.push(k);
                    n -= k;
                }
            }
            _ => {
                // full but for a run of empty packets
                let full = n.div_ceil(c);
                let at = src.us(full + 1);
                let run = src.us(3000);
                while n > 0 || v.len() < at {
                    if v.len() == at {
                        v.extend(std::iter::repeat(0).take(run));
                    }
                    let k = c.min(n);
                    v.push(k);
                    n -= k;
                }
                if v.len() == at {
                    v.extend(std::iter::repeat(0).take(run));
                }
            }
        }
        if v.is_empty() {
            v.push(0);
        }
        U::build(s, head, &bytes, Some(&v))
    } else {
        U::build(s, head, &bytes, None)
    };
    GenMsg { units, content: bytes, odd }
}

/// mostly short, sometimes long
pub fn gen_any<U: Model>(src: &mut Src, s: &Spec, max: usize) -> GenMsg<U> {
    if s.shape != Shape::Fixed && src.us(300) == 299 {
        gen(src, s)
    } else {
        gen_valid(src, s, Style::Wild, max)
    }
}

fn long_kind(s: &Spec) -> bool {
    s.shape != Shape::Fixed
}
/// half of the cases system exclusive, which are few among the types
fn choose_long<U: Model>(c: &mut Ctx) -> K<U> {
    if c.s.chance(1, 2) {
        choose::<U>(c, is_sysex)
    } else {
        choose::<U>(c, long_kind)
    }
}

/// a long or soon long message in a buffer without a small bound
fn with_long<U: Model>(c: &mut Ctx, k: K<U>, bounded: bool, f: &mut dyn FnMut(&mut Ctx, &mut dyn Obj<U>, &mut M<U>, Option<usize>) -> R) -> R {
    let s = k.spec();
    if !bounded && c.s.chance(1, 3) {
        let g = gen::<U>(&mut c.s, s);
        c.note(|| format!("loaded {} content bytes in {} units", g.content.len(), g.units.len()));
        let Some(Ok(mut o)) = k.load(Kind::Vec, &g.units) else { return Ok(()) };
        c.tag("loaded");
        let mut m = M::loaded(s, &g.units, &g.content);
        return f(c, &mut *o, &mut m, None);
    }
    let kind = if bounded { Kind::Slice } else { *c.s.pick(&[Kind::Vec, Kind::MutVec]) };
    let n = if bounded {
        let n = size(&mut c.s, s);
        (U::units_for(s, n) + c.s.us(7)).saturating_sub(3).max(s.min)
    } else {
        c.s.us(3000)
    };
    let p = Place { kind, ctor: Ctor::With, n };
    let fill = U::from32(*c.s.pick(&[0, u32::MAX, 0x3333_3333, 0xF7F7_F7F7]));
    let mut st = St { v: vec![fill; n], len: n, allocs: 0 };
    let cap = capacity(&p, s.min);
    c.note(|| format!("{p:?} of {fill:?}"));
    let Some(Ok(mut o)) = k.make(kind, Ctor::With, &mut st) else { return Ok(()) };
    c.tag("constructed");
    let mut m = M::fresh(s);
    f(c, &mut *o, &mut m, cap)
}

fn itops(src: &mut Src, n: usize) -> Vec<ItOp> {
    (0..1 + src.us(8))
        .map(|_| match src.us(9) {
            0 | 1 => ItOp::Next,
            2 => ItOp::Nth(src.us(n + 3)),
            3 => ItOp::Nth(src.us(n / 4 + 1)),
            4 => ItOp::Nth(*src.pick(&[255, 256, 257, 65535, 65536, 65537])),
            5 => ItOp::Hint,
            6 => ItOp::Len,
            7 => ItOp::CloneCount,
            _ => match src.us(4) {
                0 => ItOp::CloneCollect,
                1 => ItOp::CloneLast,
                _ => ItOp::CloneSkipStep(src.us(n + 1), 1 + src.us(1000)),
            },
        })
        .collect()
}
fn drive_payload<U: Model>(c: &mut Ctx, o: &dyn Obj<U>, m: &M<U>) -> R {
    let ops = itops(&mut c.s, m.content.len());
    if let Some(got) = o.drive(Which::Payload, &ops) {
        let want: Vec<u64> = m.content.iter().map(|b| *b as u64).collect();
        judge_iter(&want, true, true, &ops, &got, m.s.name, "payload")?;
    }
    Ok(())
}

pub fn c02<U: Model>(c: &mut Ctx) -> R {
    let k = choose_long::<U>(c);
    let s = k.spec();
    let mut d = gen::<U>(&mut c.s, s).units;
    if c.s.chance(2, 3) {
        mutate(&mut c.s, s, &mut d);
    }
    c.note(|| format!("{} units", d.len()));
    let want = U::accept(s, &d);
    c.hit(if want.is_some() { "accept" } else { "reject" });
    let got = k.parse(&d);
    ensure!(got.is_err() || want.is_some(), format!("accepts:{}", s.name), "{} accepts an ill-formed message of {} units", s.name, d.len());
    if let (Err(e), Some(_)) = (&got, want) {
        return fail(format!("rejects:{}", s.name), format!("{} rejects a well-formed message of {} units: {e}", s.name, d.len()));
    }
    Ok(())
}

pub fn c03<U: Model>(c: &mut Ctx) -> R {
    let k = choose_long::<U>(c);
    let s = k.spec();
    let g = gen::<U>(&mut c.s, s);
    let tail = gen_tail::<U>(&mut c.s, s, g.units.len());
    let mut d = g.units.clone();
    d.extend(&tail);
    c.note(|| format!("{} units + tail {}", g.units.len(), hx(&tail)));
    c.hit(if tail.is_empty() { "whole" } else { "tail" });
    let Ok(o) = k.parse(&d) else {
        return fail(format!("tail-rejects:{}", s.name), format!("{} rejects {} units followed by {}", s.name, g.units.len(), hx(&tail)));
    };
    let m = M::loaded(s, &g.units, &g.content);
    ensure!(o.data() == &g.units[..], format!("data:{}", s.name), "{}: a message of {} units has {} units with tail {}", s.name, g.units.len(), o.data().len(), hx(&tail));
    m.check_fields(&*o, "with tail")?;
    m.check_content(&*o, "with tail")?;
    let st = if U::BITS == 32 { stride(s) } else { 1 };
    let cut = (c.s.us(g.units.len() / st)) * st;
    if k.parse(&g.units[..cut]).is_ok() {
        return fail(format!("prefix:{}", s.name), format!("{}: {cut} units of a message of {} are accepted", s.name, g.units.len()));
    }
    Ok(())
}

/// the fields of a long message
pub fn c05<U: Model>(c: &mut Ctx) -> R {
    let k = choose_long::<U>(c);
    let s = k.spec();
    if s.fields.is_empty() {
        return Ok(());
    }
    let b = c.s.chance(1, 3);
    with_long(c, k, b, &mut |c, o, m, cap| {
        if c.s.chance(3, 4) {
            let op = Op::Edit(edit(&mut c.s, s, m.content.len()));
            c.note(|| show(s, &op));
            step(o, m, &op, cap, "long edit")?;
        }
        for _ in 0..1 + c.s.us(4) {
            let i = c.s.us(s.fields.len());
            let op = Op::Set(i, (s.fields[i].codec.draw)(&mut c.s));
            c.note(|| show(s, &op));
            c.hit("write");
            step(o, m, &op, cap, "long write")?;
            m.check_units(o.data(), "after a write to a long message")?;
            m.check_fields(o, "after a write to a long message")?;
        }
        m.check_content(o, "after writes to a long message")?;
        let d = o.data().to_vec();
        m.check_reparse(k, &d, "after writes to a long message")
    })
}

pub fn c07<U: Model>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, is_sysex);
    let s = k.spec();
    with_long(c, k, false, &mut |c, o, m, cap| {
        for _ in 0..1 + c.s.us(4) {
            let op = Op::Edit(edit(&mut c.s, s, m.content.len()));
            c.note(|| show(s, &op));
            c.hit("edit");
            step(o, m, &op, cap, "long edit")?;
            m.check_content(o, "after a long edit")?;
            drive_payload(c, o, m)?;
        }
        m.check_fields(o, "after long edits")
    })
}

fn c08<U: Model>(c: &mut Ctx, k: K<U>) -> R {
    let s = k.spec();
    with_long(c, k, true, &mut |c, o, m, cap| {
        for _ in 0..1 + c.s.us(4) {
            let mut e = edit(&mut c.s, s, m.content.len());
            // about what fits
            let room = (cap.unwrap() / if U::BITS == 32 { stride(s) } else { 1 }) * if U::BITS == 32 { self::cap(s.shape) } else { 1 } - if U::BITS == 32 { 0 } else { 2 };
            if c.s.chance(1, 2) {
                let around = |src: &mut Src, n: usize| (n + src.us(5)).saturating_sub(2);
                match &mut e {
                    Edit::Set(f) => {
                        let n = around(&mut c.s, room);
                        *f = feed(&mut c.s, s, n);
                    }
                    Edit::Append(f) | Edit::Insert(f, _) => {
                        let n = around(&mut c.s, room - m.content.len());
                        *f = feed(&mut c.s, s, n);
                    }
                    Edit::Splice(f, a, b, _) => {
                        let n = around(&mut c.s, room - m.content.len() + (*b - *a));
                        *f = feed(&mut c.s, s, n);
                    }
                    Edit::Text(t) => {
                        let n = around(&mut c.s, room);
                        *t = bulk_text(&mut c.s, n);
                    }
                    _ => {}
                }
            }
            let op = Op::Edit(e);
            c.note(|| show(s, &op));
            c.hit(if step(o, m, &op, cap, "long edit")? { "fits" } else { "overflow" });
            m.check_content(o, "after a long edit")?;
            m.check_fields(o, "after a long edit")?;
            let d = o.data().to_vec();
            m.check_reparse(k, &d, "after a long edit")?;
        }
        Ok(())
    })
}
pub fn c08_sysex<U: Model>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, is_sysex);
    c08::<U>(c, k)
}
pub fn c08_text(c: &mut Ctx) -> R {
    let k = choose::<u32>(c, is_text);
    c08::<u32>(c, k)
}

fn long_op(c: &mut Ctx, s: &Spec, len: usize) -> Option<Op> {
    Some(if s.fields.is_empty() || c.s.chance(2, 3) {
        Op::Edit(edit(&mut c.s, s, len))
    } else {
        let i = c.s.us(s.fields.len());
        Op::Set(i, (s.fields[i].codec.draw)(&mut c.s))
    })
}
/// fields and contents in turn; the units are the canonical ones throughout
fn units<U: Model>(c: &mut Ctx, k: K<U>, bounded: bool) -> R {
    let s = k.spec();
    with_long(c, k, bounded, &mut |c, o, m, cap| {
        for _ in 0..2 + c.s.us(4) {
            let Some(op) = long_op(c, s, m.content.len()) else { break };
            c.note(|| show(s, &op));
            c.hit(if matches!(op, Op::Set(..)) { "write" } else { "edit" });
            step(o, m, &op, cap, "long op")?;
            m.check_units(o.data(), "after a long edit")?;
        }
        let d = o.data().to_vec();
        m.check_reparse(k, &d, "after long edits")
    })
}
pub fn c09<U: Model>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, is_sysex);
    let b = c.s.chance(1, 3);
    units(c, k, b)
}
pub fn c14(c: &mut Ctx) -> R {
    let k = choose_long::<u32>(c);
    let b = c.s.chance(1, 3);
    units(c, k, b)
}
pub fn c20<U: Model>(c: &mut Ctx) -> R {
    let k = choose_long::<U>(c);
    let s = k.spec();
    with_long(c, k, true, &mut |c, o, m, cap| {
        m.heapless = true;
        for _ in 0..2 + c.s.us(4) {
            let Some(op) = long_op(c, s, m.content.len()) else { break };
            c.note(|| show(s, &op));
            c.hit("op");
            step(o, m, &op, cap, "long op")?;
            m.check_units(o.data(), "after a long edit")?;
        }
        m.check(o, "after long edits")
    })
}

pub fn c10<U: Model>(c: &mut Ctx) -> R {
    let k = choose_long::<U>(c);
    let s = k.spec();
    let g = gen::<U>(&mut c.s, s);
    let mut d = g.units.clone();
    if c.s.chance(1, 2) {
        d.extend(gen_tail::<U>(&mut c.s, s, d.len()));
    }
    c.note(|| format!("{} content bytes in {} units", g.content.len(), g.units.len()));
    let Ok(o) = k.parse(&d) else { return Ok(()) };
    let bytes: Vec<u64> = g.content.iter().map(|b| *b as u64).collect();
    let ops = itops(&mut c.s, bytes.len());
    c.note(|| format!("{ops:?}"));
    if let Some(got) = o.drive(Which::Payload, &ops) {
        c.hit("payload");
        judge_iter(&bytes, true, true, &ops, &got, s.name, "payload")?;
    }
    if let Some(got) = o.drive(Which::TextBytes, &ops) {
        c.hit("text");
        judge_iter(&bytes, false, false, &ops, &got, s.name, "text")?;
    }
    let st = stride(s);
    let ops = itops(&mut c.s, d.len() / st);
    if let Some(got) = o.drive(Which::Packets, &ops) {
        c.hit("packets");
        let ps: Vec<u64> = g.units.chunks(st).map(|p| pk_u64(&p.iter().map(|x| x.to32()).collect::<Vec<_>>())).collect();
        judge_iter(&ps, true, true, &ops, &got, s.name, "packets")?;
    }
    Ok(())
}

pub fn c11(c: &mut Ctx) -> R {
    let k = choose_long::<u32>(c);
    let s = k.spec();
    let g = gen::<u32>(&mut c.s, s);
    c.note(|| format!("{} content bytes in {} units", g.content.len(), g.units.len()));
    let Ok(o) = k.parse(&g.units) else { return Ok(()) };
    c.hit("parsed");
    let m = M::loaded(s, &g.units, &g.content);
    check_partition(c, &*o, &m)
}
