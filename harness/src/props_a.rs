//! Properties judged on single message types through their kits.
use crate::engine::*;
use crate::hist::*;
use crate::model::*;
use crate::types::*;

pub type K<U> = &'static dyn Kit<U>;

pub fn choose<U: Model>(c: &mut Ctx, f: fn(&Spec) -> bool) -> K<U> {
    let n = U::kits().iter().filter(|k| f(k.spec())).count() as u64;
    let i = (c.idx % n) as usize;
    let k = *U::kits().iter().filter(|k| f(k.spec())).nth(i).unwrap();
    c.key = hash_str(k.spec().name);
    c.note(|| k.spec().name.to_string());
    k
}
pub fn any(_: &Spec) -> bool {
    true
}
fn multi(s: &Spec) -> bool {
    s.shape != Shape::Fixed
}
fn has_fields(s: &Spec) -> bool {
    !s.fields.is_empty()
}
fn flex_text(s: &Spec) -> bool {
    s.shape == Shape::FlexText
}
fn stream_text(s: &Spec) -> bool {
    matches!(s.shape, Shape::StreamText(_))
}

/// content size bound used when data must stay within CUSTOM_MAX units
pub fn max_content(s: &Spec) -> usize {
    match s.shape {
        Shape::Fixed => 0,
        Shape::Sysex7 => 110,
        _ => 120,
    }
}

// ---------------------------------------------------------------- C02

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Src3 {
    Valid,
    Near,
    Noise,
}
pub fn gen_input<U: Model>(c: &mut Ctx, s: &Spec) -> (Vec<U>, Src3) {
    match c.s.us(6) {
        0 | 1 => {
            let mut d = gen_valid::<U>(&mut c.s, s, Style::Wild, max_content(s).min(60)).units;
            if c.s.chance(1, 2) {
                d.extend(gen_tail::<U>(&mut c.s, s, d.len()));
            }
            (d, Src3::Valid)
        }
        2..=4 => {
            let mut d = gen_valid::<U>(&mut c.s, s, Style::Wild, max_content(s).min(50)).units;
            if c.s.chance(1, 3) {
                d.extend(gen_tail::<U>(&mut c.s, s, d.len()));
            }
            mutate(&mut c.s, s, &mut d);
            (d, Src3::Near)
        }
        _ => (gen_noise(&mut c.s, s, 24), Src3::Noise),
    }
}

pub fn c02_msg<U: Model>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, any);
    let s = k.spec();
    let (d, src) = gen_input::<U>(c, s);
    c.note(|| format!("{src:?} {}", hx(&d)));
    let want = U::accept(s, &d);
    let got = k.parse(&d);
    if src != Src3::Noise || want.is_some() {
        c.hit(if want.is_some() { "accept" } else { "reject" });
    }
    match (want, &got) {
        (Some(_), Err(e)) => fail(format!("rejects:{}", s.name), format!("{} rejects the well-formed {}: {}", s.name, hx(&d), e)),
        (None, Ok(_)) => fail(format!("accepts:{}", s.name), format!("{} accepts the ill-formed {}", s.name, hx(&d))),
        _ => Ok(()),
    }
}

/// Every packet has the size its message type nibble says: less is not a message, and what is
/// accepted is whole packets.
pub fn c02_whole(c: &mut Ctx) -> R {
    let k = choose::<u32>(c, any);
    let s = k.spec();
    let st = stride(s);
    let g = gen_valid::<u32>(&mut c.s, s, Style::Wild, 40).units;
    let mut d = g.clone();
    d.resize(st.max(g.len()), 0);
    let cut = c.s.us(d.len());
    if cut % st != 0 {
        d.truncate(cut);
    }
    c.note(|| hx(&d));
    c.hit(if d.len() % st == 0 { "whole" } else { "cut" });
    if let Ok(o) = k.parse(&d) {
        ensure!(d.len() >= st && o.data().len() % st == 0, format!("whole-packet:{}", s.name), "{} accepts {} with data {}: packets of this type have {st} words", s.name, hx(&d), hx(o.data()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

pub fn c03_tail<U: Model>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, any);
    let s = k.spec();
    let g = gen_valid::<U>(&mut c.s, s, Style::Wild, max_content(s));
    let tail = gen_tail::<U>(&mut c.s, s, g.units.len());
    let mut d = g.units.clone();
    d.extend(&tail);
    c.note(|| format!("{} + tail {}", hx(&g.units), hx(&tail)));
    if !tail.is_empty() {
        c.hit("tail");
    }
    let Ok(o) = k.parse(&d) else {
        return fail(format!("tail-rejects:{}", s.name), format!("{} rejects {} followed by {}", s.name, hx(&g.units), hx(&tail)));
    };
    let m = M::loaded(s, &g.units, &g.content);
    same!(hx(o.data()), hx(&g.units), format!("data:{}", s.name), "{} data with tail {}", s.name, hx(&tail));
    m.check_fields(&*o, "with tail")?;
    m.check_content(&*o, "with tail")?;
    let data = o.data().to_vec();
    m.check_reparse(k, &data, "alone")?;
    // debug rendering shows the message only
    let p = k.parse(&data);
    if let Ok(p) = p {

        same!(o.packets(), p.packets(), format!("packets:{}", s.name), "{} packets", s.name);
    }
    // no shorter prefix is a message
    let n = data.len();
    let cut = c.s.us(n);
    if multi(s) || cut < s.min {
        if let Ok(p) = k.parse(&data[..cut]) {
            return fail(format!("prefix:{}", s.name), format!("{}: the prefix {} of {} is accepted as {}", s.name, hx(&data[..cut]), hx(&data), hx(p.data())));
        }
    }
    Ok(())
}

/// metamorphic: a tail of another type changes nothing, for ill-formed inputs too
pub fn c03_meta<U: Model>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, any);
    let s = k.spec();
    let (mut d, _) = gen_input::<U>(c, s);
    let st = if U::BITS == 32 { stride(s) } else { 1 };
    d.truncate(d.len() / st * st);
    if d.len() < s.min || U::BITS == 8 && s.shape == Shape::Sysex7 && !d.contains(&U::from32(0xF7)) {
        return Ok(());
    }
    let mut e = d.clone();
    let mut t = gen_tail::<U>(&mut c.s, s, d.len());
    if U::BITS == 32 && s.shape == Shape::Fixed && s.fam != Fam::Stream && t.is_empty() {
        t.push(U::from32(0xF000_0000));
    }
    e.extend(&t);
    c.note(|| format!("{} + {}", hx(&d), hx(&t)));
    let (a, b) = (k.parse(&d), k.parse(&e));
    if !t.is_empty() {
        c.hit(if a.is_ok() { "accepted" } else { "rejected" });
    }
    match (&a, &b) {
        (Ok(x), Ok(y)) => {
            same!(hx(y.data()), hx(x.data()), format!("meta-data:{}", s.name), "{} data of {} with tail {}", s.name, hx(&d), hx(&t));
            same!(y.content(), x.content(), format!("meta-content:{}", s.name), "{} content of {} with tail {}", s.name, hx(&d), hx(&t));
        }
        (Err(_), Err(_)) => {}
        _ => {
            return fail(
                format!("meta-accept:{}", s.name),
                format!("{}: {} is {} but with tail {} it is {}", s.name, hx(&d), if a.is_ok() { "accepted" } else { "rejected" }, hx(&t), if b.is_ok() { "accepted" } else { "rejected" }),
            )
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

pub const LOADABLE: [Kind; 7] = [Kind::Vec, Kind::Grow, Kind::Fix, Kind::Shr, Kind::ArrMin, Kind::ArrOdd, Kind::ArrBig];

pub fn c04<U: Model>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, any);
    let s = k.spec();
    let g = crate::long::gen_any::<U>(&mut c.s, s, max_content(s));
    let mut d = g.units.clone();
    if c.s.chance(1, 2) {
        d.extend(gen_tail::<U>(&mut c.s, s, d.len()));
    }
    c.note(|| hx(&d));
    if has_fields(s) || multi(s) {
        c.hit("read");
    }
    let m = M::loaded(s, &g.units, &g.content);
    let Ok(o) = k.parse(&d) else {
        // acceptance is decided by C02; nothing is read here
        return Ok(());
    };
    m.check_fields(&*o, "parsed")?;
    m.check_content(&*o, "parsed")?;
    if c.s.chance(1, 8) {
        // the printed form lists the units
        let t = o.dbg();
        let inner = t.split_once('[').and_then(|(_, r)| r.rsplit_once(']')).map_or("", |(x, _)| x);
        let units: Option<Vec<U>> = inner.split(", ").map(|x| x.strip_prefix("0x").and_then(|x| u32::from_str_radix(x, 16).ok()).map(U::from32)).collect();
        ensure!(units.map_or(false, |u| u.starts_with(o.data())), format!("debug:{}", s.name), "{}: prints as {t}, its data is {}", s.name, hx(o.data()));
        c.tag("printed");
    }
    let kind = *c.s.pick(&LOADABLE);
    set_default_cap(d.len() + c.s.us(4));
    if d.len() <= CUSTOM_MAX {
        if let Some(Ok(o)) = k.load(kind, &d) {
            c.tag("loaded");
            let at = format!("in {kind:?}");
            m.check_fields(&*o, &at)?;
            m.check_content(&*o, &at)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

/// an object in some mutable buffer: constructed or loaded; hands (object, model, capacity) to `f`
pub fn with_object<U: Model>(
    c: &mut Ctx,
    k: K<U>,
    kinds: &[Kind],
    cap_max: usize,
    f: &mut dyn FnMut(&mut Ctx, &mut dyn Obj<U>, &mut M<U>, Option<usize>) -> R,
) -> R {
    let s = k.spec();
    if c.s.chance(1, 3) {
        let lk: Vec<Kind> = LOADABLE.iter().copied().filter(|x| kinds.contains(x)).collect();
        if !lk.is_empty() {
            let kind = *c.s.pick(&lk);
            let g = gen_valid::<U>(&mut c.s, s, Style::Wild, max_content(s).min(cap_max));
            let mut d = g.units.clone();
            if c.s.chance(1, 3) {
                // something else behind it, which comes along
                d.extend(gen_tail::<U>(&mut c.s, s, d.len()));
                if k.parse(&d).map_or(true, |o| o.data() != &g.units[..]) {
                    d.truncate(g.units.len());
                }
            }
            let cap = d.len() + if c.s.chance(1, 2) { 0 } else { c.s.us(40) };
            if cap > CUSTOM_MAX {
                return Ok(());
            }
            set_default_cap(cap);
            let cap = capacity(&Place { kind, ctor: Ctor::New, n: cap }, s.min);
            let mut o = match k.load(kind, &d) {
                Some(Ok(o)) => o,
                _ => return Ok(()),
            };
            c.note(|| format!("loaded {} in {kind:?} cap {cap:?}", hx(&d)));
            c.tag("loaded");
            let mut m = M::loaded(s, &g.units, &g.content);
            return f(c, &mut *o, &mut m, cap);
        }
    }
    let p = gen_place(&mut c.s, kinds, cap_max);
    let mut st = gen_st::<U>(&mut c.s, &p, s.min);
    let cap = capacity(&p, s.min);
    c.note(|| format!("{p:?} over {}", hx(&st.v)));
    let mut o = match k.make(p.kind, p.ctor, &mut st) {
        Some(Ok(o)) => o,
        _ => return Ok(()), // C06 decides whether construction should work
    };
    c.tag("constructed");
    let mut m = M::fresh(s);
    f(c, &mut *o, &mut m, cap)
}

pub const MUTABLE: [Kind; 9] = [
    Kind::Vec, Kind::MutVec, Kind::Grow, Kind::Slice, Kind::Fix, Kind::Shr, Kind::ArrMin, Kind::ArrOdd, Kind::ArrBig,
];

pub fn c05<U: Model>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, has_fields);
    let s = k.spec();
    with_object(c, k, &MUTABLE, 40, &mut |c, o, m, cap| {
        let n = 1 + c.s.us(6);
        for j in 0..n {
            let i = c.s.us(s.fields.len());
            let op = Op::Set(i, (s.fields[i].codec.draw)(&mut c.s));
            c.note(|| show_op(s, &op));
            step(o, m, &op, cap, "write")?;
            c.hit("write");
            if j + 1 == n || c.s.chance(1, 3) {
                m.check_units(o.data(), "after writes")?;
                m.check_fields(o, "after writes")?;
            }
        }
        m.check_content(o, "after writes")?;
        let d = o.data().to_vec();
        m.check_reparse(k, &d, "after writes")
    })
}

// ---------------------------------------------------------------- C06

pub fn c06<U: Model>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, any);
    let s = k.spec();
    let p = gen_place(&mut c.s, &KINDS, 40);
    let mut st = gen_st::<U>(&mut c.s, &p, s.min);
    let cap = capacity(&p, s.min);
    c.note(|| format!("{p:?} len {} over {}", st.len, hx(&st.v)));
    c.hit("made");
    let before = hx(&st.v);
    let fits = cap.map_or(true, |x| x >= s.min);
    let Some(r) = k.make(p.kind, p.ctor, &mut st) else { return Ok(()) };
    match r {
        Err(_) => {
            ensure!(!fits, format!("construct-overflow:{}", s.name), "{} {:?}: capacity {:?} holds the {} units but construction overflowed", s.name, p, cap, s.min);
            c.tag("overflow");
        }
        Ok(o) => {
            ensure!(fits, format!("construct-missing-overflow:{}", s.name), "{} {:?}: capacity {:?} cannot hold {} units but construction succeeded", s.name, p, cap, s.min);
            let m = M::fresh(s);
            let at = format!("constructed {p:?} over {before}");
            m.check(&*o, &at)?;
            let d = o.data().to_vec();
            m.check_reparse(k, &d, &at)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07 / C09

fn drain_iter<U: Model>(c: &mut Ctx, o: &dyn Obj<U>, m: &M<U>) -> R {
    let ops: Vec<ItOp> = (0..4).map(|_| gen_itop(&mut c.s)).collect();
    if let Some(got) = o.drive(Which::Payload, &ops) {
        let want: Vec<u64> = m.content.iter().map(|b| *b as u64).collect();
        judge_iter(&want, true, true, &ops, &got, m.s.name, "payload")?;
    }
    Ok(())
}

pub fn c07<U: Model>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, is_sysex);
    let s = k.spec();
    with_object(c, k, &GROWABLE, 60, &mut |c, o, m, cap| {
        let n = 1 + c.s.us(6);
        for _ in 0..n {
            let e = gen_edit(&mut c.s, s, m.content.len(), max_content(s));
            let op = Op::Edit(e);
            c.note(|| show_op(s, &op));
            c.hit(match &op {
                Op::Edit(Edit::Set(_)) => "set",
                Op::Edit(Edit::Append(_) | Edit::AppendByte(_)) => "append",
                Op::Edit(Edit::Insert(..)) => "insert",
                Op::Edit(Edit::Splice(..)) => "splice",
                _ => "set_byte",
            });
            step(o, m, &op, cap, "edit")?;
            m.check_content(o, "after edit")?;
            drain_iter(c, o, m)?;
        }
        m.check_fields(o, "after edits")
    })
}

pub fn c09<U: Model>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, is_sysex);
    let s = k.spec();
    with_object(c, k, &MUTABLE, 60, &mut |c, o, m, cap| {
        let n = 1 + c.s.us(5);
        for _ in 0..n {
            let Some(op) = gen_op(&mut c.s, s, m.content.len(), max_content(s)) else { break };
            c.note(|| show_op(s, &op));
            step(o, m, &op, cap, "edit")?;
            c.hit("edit");
            m.check_units(o.data(), &format!("after {}", show_op(s, &op)))?;
        }
        let d = o.data().to_vec();
        m.check_reparse(k, &d, "after edits")
    })
}

// ---------------------------------------------------------------- C08

pub fn c08_sysex<U: Model>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, is_sysex);
    c08::<U>(c, k)
}
pub fn c08_text(c: &mut Ctx) -> R {
    let k = choose::<u32>(c, is_text);
    c08::<u32>(c, k)
}
fn c08<U: Model>(c: &mut Ctx, k: K<U>) -> R {
    let s = k.spec();
    with_object(c, k, &FALLIBLE, 50, &mut |c, o, m, cap| {
        let n = 1 + c.s.us(5);
        for _ in 0..n {
            let e = gen_edit(&mut c.s, s, m.content.len(), max_content(s));
            let op = Op::Edit(e);
            c.note(|| show_op(s, &op));
            if step(o, m, &op, cap, "edit")? {
                c.tag("fits");
            } else {
                c.hit("overflow");
            }
            m.check_content(o, "after fallible edit")?;
            m.check_fields(o, "after fallible edit")?;
            let d = o.data().to_vec();
            m.check_reparse(k, &d, "after fallible edit")?;
        }
        c.hit("edit");
        Ok(())
    })
}

// ---------------------------------------------------------------- C10

pub fn gen_itop(s: &mut Src) -> ItOp {
    match s.us(12) {
        0..=2 => ItOp::Next,
        3 | 4 => ItOp::Nth(match s.us(7) {
            0 => 0,
            1 => s.us(4),
            2 => s.us(15),
            3 => s.us(40),
            4 => s.us(200),
            5 => s.hint().min(1 << 20) as usize,
            _ => *s.pick(&[usize::MAX, usize::MAX / 2, 1 << 32, 1000]),
        }),
        5 | 6 => ItOp::Hint,
        7 => ItOp::Len,
        8 => ItOp::CloneCount,
        9 => ItOp::CloneCollect,
        10 => ItOp::CloneLast,
        _ => ItOp::CloneSkipStep(s.us(30), 1 + s.us(7)),
    }
}

/// `exact`: the size hint must be exact; `clone`: the iterator is cloneable (otherwise the consuming ops end the run)
pub fn judge_iter(all: &[u64], exact: bool, clone: bool, ops: &[ItOp], got: &[ItObs], name: &str, what: &str) -> R {
    let mut at = 0usize;
    let n = all.len();
    for (op, g) in ops.iter().zip(got) {
        let rest = &all[at.min(n)..];
        let (want, kind) = match *op {
            ItOp::Next => {
                let w = rest.first().copied();
                at = (at + 1).min(n);
                (ItObs::Item(w), "next")
            }
            ItOp::Nth(k) => {
                let w = rest.get(k).copied();
                at = at.saturating_add(k).saturating_add(1).min(n);
                (ItObs::Item(w), "nth")
            }
            ItOp::Hint => {
                let ItObs::Hint(a, b) = *g else { unreachable!() };
                let r = rest.len();
                let ok = a <= r && b.map_or(true, |b| b >= r) && (!exact || (a == r && b == Some(r)));
                ensure!(ok, format!("hint:{name}:{what}"), "{name} {what}: size_hint is ({a}, {b:?}) with {r} elements left (of {n})");
                continue;
            }
            ItOp::Len => {
                if *g == ItObs::Num(usize::MAX) {
                    continue;
                }
                (ItObs::Num(rest.len()), "len")
            }
            ItOp::CloneCount => (ItObs::Num(rest.len()), "count"),
            ItOp::CloneCollect => (ItObs::List(rest.to_vec()), "fold"),
            ItOp::CloneLast => (ItObs::Item(rest.last().copied()), "last"),
            ItOp::CloneSkipStep(k, s) => (ItObs::List(rest.iter().copied().skip(k).step_by(s).collect()), "skip-step"),
        };
        if *g != want {
            return fail(format!("{kind}:{name}:{what}"), format!("{name} {what}: {op:?} after {at} of {n}: expected {want:?}, got {g:?} (ops {ops:?})"));
        }
    }
    let _ = clone;
    Ok(())
}

pub fn c10_msg<U: Model>(c: &mut Ctx) -> R {
    // every kit has packets (words); payload / text only some
    let k = choose::<U>(c, any);
    c10::<U>(c, k)
}
pub fn c10_multi<U: Model>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, multi);
    c10::<U>(c, k)
}
fn c10<U: Model>(c: &mut Ctx, k: K<U>) -> R {
    let s = k.spec();
    let g = crate::long::gen_any::<U>(&mut c.s, s, max_content(s));
    let mut d = g.units.clone();
    if c.s.chance(1, 2) {
        d.extend(gen_tail::<U>(&mut c.s, s, d.len()));
    }
    c.note(|| hx(&d));
    let Ok(o) = k.parse(&d) else { return Ok(()) };
    let ops: Vec<ItOp> = (0..1 + c.s.us(10)).map(|_| gen_itop(&mut c.s)).collect();
    c.note(|| format!("{ops:?}"));
    let bytes: Vec<u64> = g.content.iter().map(|b| *b as u64).collect();
    if let Some(got) = o.drive(Which::Payload, &ops) {
        c.hit("payload");
        judge_iter(&bytes, true, true, &ops, &got, s.name, "payload")?;
    }
    if let Some(got) = o.drive(Which::TextBytes, &ops) {
        c.hit("text");
        judge_iter(&bytes, false, false, &ops, &got, s.name, "text")?;
    }
    if let Some(got) = o.drive(Which::Packets, &ops) {
        c.hit("packets");
        let st = if s.min < stride(s) { s.min } else { stride(s) };
        let ps: Vec<u64> = g
            .units
            .chunks(st)
            .map(|p| {
                let mut w: Vec<u32> = p.iter().map(|x| x.to32()).collect();
                w.resize(stride(s), 0);
                pk_u64(&w)
            })
            .collect();
        judge_iter(&ps, true, true, &ops, &got, s.name, "packets")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C12 / C13

pub fn c12(c: &mut Ctx) -> R {
    let k = choose::<u32>(c, flex_text);
    text_rt(c, k)
}
pub fn c13(c: &mut Ctx) -> R {
    let k = choose::<u32>(c, stream_text);
    text_rt(c, k)
}
fn text_rt(c: &mut Ctx, k: K<u32>) -> R {
    let s = k.spec();
    with_object(c, k, &MUTABLE, 80, &mut |c, o, m, cap| {
        let n = 1 + c.s.us(5);
        for _ in 0..n {
            let Some(op) = gen_op(&mut c.s, s, m.content.len(), 400.min(if cap.is_none() { 400 } else { 120 })) else { break };
            // keep within what user-defined growable buffers hold
            if let Op::Edit(Edit::Text(t)) = &op {
                c.hit(if t.len() > m.content.len() { "longer" } else { "shorter" });
                if t.len() > cap_text(s) && cap.is_none() {
                    continue;
                }
            }
            c.note(|| show_op(s, &op));
            step(o, m, &op, cap, "edit")?;
            m.check(o, &format!("after {}", show_op(s, &op)))?;
        }
        let d = o.data().to_vec();
        m.check_reparse(k, &d, "after edits")?;
        // moved to another buffer
        let (name, _, r) = k.rebuffer(c.s.us(k.routes()), &d);
        if let Ok(r) = r {
            m.check(&*r, name)?;
        }
        Ok(())
    })
}
/// longest text Grow can hold
fn cap_text(s: &Spec) -> usize {
    CUSTOM_MAX / 4 * cap(s.shape)
}
/// long texts in vectors
fn text_long(c: &mut Ctx, k: K<u32>) -> R {
    let s = k.spec();
    let mut st = St { v: vec![], len: 0, allocs: 0 };
    let Some(Ok(mut o)) = k.make(Kind::Vec, Ctor::New, &mut st) else { return Ok(()) };
    let mut m = M::<u32>::fresh(s);
    for _ in 0..1 + c.s.us(2) {
        let n = crate::long::size(&mut c.s, s);
        let op = Op::Edit(Edit::Text(crate::long::bulk_text(&mut c.s, n)));
        c.note(|| format!("text of {n} bytes"));
        c.hit("long");
        step(&mut *o, &mut m, &op, None, "long")?;
        m.check(&*o, "long text")?;
    }
    let d = o.data().to_vec();
    m.check_reparse(k, &d, "long text")
}
pub fn c12_long(c: &mut Ctx) -> R {
    let k = choose::<u32>(c, flex_text);
    text_long(c, k)
}
pub fn c13_long(c: &mut Ctx) -> R {
    let k = choose::<u32>(c, stream_text);
    text_long(c, k)
}

// ---------------------------------------------------------------- C14

pub fn c14(c: &mut Ctx) -> R {
    let k = choose::<u32>(c, multi);
    let s = k.spec();
    with_object(c, k, &MUTABLE, 120, &mut |c, o, m, cap| {
        let n = 2 + c.s.us(6);
        for _ in 0..n {
            let Some(op) = gen_op(&mut c.s, s, m.content.len(), max_content(s)) else { break };
            c.note(|| show_op(s, &op));
            step(o, m, &op, cap, "op")?;
            let d = o.data();
            if d.len() > stride(s) {
                c.hit("several packets");
            }
            let mask = head_mask(s) & !m.dc[0];
            let (dm, um) = (m.masked(d), m.masked(&m.units));
            for (i, p) in dm.chunks(stride(s)).enumerate() {
                if p[0] & mask != um[0] & mask {
                    return fail(
                        format!("shared:{}", s.name),
                        format!("{}: after {} packet {} carries {:08X}, the message's shared attributes are {:08X} (mask {:08X}); data {}", s.name, show_op(s, &op), i, p[0], m.units[0] & mask, mask, hx(d)),
                    );
                }
            }
            m.check_fields(o, "after op")?;
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C16

pub fn c16<U: Model>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, any);
    let s = k.spec();
    let g = crate::long::gen_any::<U>(&mut c.s, s, max_content(s));
    let mut d = g.units.clone();
    if c.s.chance(1, 2) {
        d.extend(gen_tail::<U>(&mut c.s, s, d.len()));
    }
    if c.s.chance(1, 6) {
        // as large as an array, just so
        for n in [s.min, s.min + ARR_ODD_EXTRA, ARR_BIG] {
            if d.len() < n {
                d.resize(n, U::default());
                break;
            }
        }
    }
    if d.len() > CUSTOM_MAX || k.parse(&d).is_err() {
        return Ok(());
    }
    let capn = if c.s.chance(1, 2) { d.len() + c.s.us(5) } else { c.s.us(d.len() + 1) };
    set_default_cap(capn);
    let route = c.s.us(k.routes());
    c.note(|| format!("{} cap {capn}", hx(&d)));
    let m = M::loaded(s, &g.units, &g.content);
    let (name, cap, r) = k.rebuffer(route, &d);
    c.hit(name);
    let cap = cap.map(|x| if x == usize::MAX { capn } else { x });
    let fits = cap.map_or(true, |x| d.len() <= x);
    match r {
        Err(_) => {
            ensure!(!fits, format!("rebuffer-overflow:{name}"), "{} {name}: {} units should fit in {:?}", s.name, d.len(), cap);
            c.tag("overflow");
            Ok(())
        }
        Ok(mut o) => {
            ensure!(fits, format!("rebuffer-missing-overflow:{name}"), "{} {name}: {} units cannot fit in {:?}", s.name, d.len(), cap);
            m.check(&*o, name)?;
            // independent of the source
            if !s.fields.is_empty() {
                let src = d.clone();
                let i = c.s.us(s.fields.len());
                let raw = (s.fields[i].codec.draw)(&mut c.s);
                o.set(i, raw);
                same!(hx(&d), hx(&src), "rebuffer-aliases", "{} {name}: source after writing the copy", s.name);
                let mut m2 = M::loaded(s, &g.units, &g.content);
                m2.edited = true;
                m2.set(i, raw);
                m2.check(&*o, name)?;
            }
            Ok(())
        }
    }
}
pub fn c16_mut<U: Model>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, any);
    let s = k.spec();
    let n = match c.s.us(8) {
        0 | 1 => ARR_BIG,
        2 => ARR_BIG + 1,
        3 => s.min,
        4 => s.min + ARR_ODD_EXTRA,
        _ => s.min + c.s.us(40),
    };
    let route = c.s.us(k.mutroutes());
    let p = Place { kind: Kind::Slice, ctor: Ctor::With, n };
    let mut st = gen_st::<U>(&mut c.s, &p, s.min);
    c.note(|| format!("borrowed slice {}", hx(&st.v)));
    let mut m = M::<U>::fresh(s);
    let mut res: R = Ok(());
    let mut res2: R = Ok(());
    let cell = std::cell::RefCell::new((&mut m, &mut *c));
    k.mutroute(
        route,
        &mut st.v,
        &mut |o| {
            let mut b = cell.borrow_mut();
            let (m, c) = &mut *b;
            for _ in 0..c.s.us(4) {
                if let Some(op) = gen_op(&mut c.s, s, m.content.len(), 60) {
                    c.note(|| show_op(s, &op));
                    c.hit("edited");
                    if let Err(e) = step(o, m, &op, Some(n), "before rebuffer") {
                        res = Err(e);
                        return;
                    }
                }
            }
        },
        &mut |name, cap, o| {
            let mut b = cell.borrow_mut();
            let (m, c) = &mut *b;
            c.hit(name);
            let fits = cap.map_or(true, |x| n <= x);
            if res2.is_ok() {
                res2 = match o {
                    Some(_) if !fits => fail(format!("rebuffer-missing-overflow:{name}"), format!("{} {name}: {n} units cannot fit in {cap:?}", s.name)),
                    Some(o) => m.check(o, name),
                    None if fits => fail(format!("rebuffer-overflow:{name}"), format!("{} {name}: {n} units should fit in {cap:?}", s.name)),
                    None => Ok(()),
                };
            }
        },
    );
    res?;
    res2
}
/// messages built and edited in owned buffers, moved into owned buffers
pub fn c16_own<U: Model>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, any);
    let s = k.spec();
    let route = c.s.us(k.ownroutes());
    let p = Place { kind: Kind::Vec, ctor: Ctor::With, n: c.s.us(40) };
    let st = gen_st::<U>(&mut c.s, &p, s.min);
    let mut v = st.v.clone();
    v.reserve(c.s.us(80));
    let capn = c.s.us(60);
    set_default_cap(capn);
    c.note(|| format!("vector {} capacity {}, custom buffers of {capn}", hx(&v), v.capacity()));
    let mut m = M::<U>::fresh(s);
    let mut res: R = Ok(());
    let mut res2: R = Ok(());
    let cell = std::cell::RefCell::new((&mut m, &mut *c));
    k.ownroute(
        route,
        v,
        &mut |o, cap| {
            let mut b = cell.borrow_mut();
            let (m, c) = &mut *b;
            **m = M::fresh(s);
            for _ in 0..c.s.us(5) {
                if let Some(op) = gen_op(&mut c.s, s, m.content.len(), 60) {
                    c.note(|| show_op(s, &op));
                    c.hit("edited");
                    if let Err(e) = step(o, m, &op, cap, "before the move") {
                        res = Err(e);
                        return;
                    }
                }
            }
        },
        &mut |name, n, cap, o| {
            let mut b = cell.borrow_mut();
            let (m, c) = &mut *b;
            c.hit(name);
            let cap = cap.map(|x| if x == usize::MAX { capn } else { x });
            let fits = cap.map_or(true, |x| n <= x);
            if res2.is_ok() {
                res2 = match o {
                    Some(_) if !fits => fail(format!("rebuffer-missing-overflow:{name}"), format!("{} {name}: {n} units cannot fit in {cap:?}", s.name)),
                    Some(o) => m.check(o, name),
                    None if fits => fail(format!("rebuffer-overflow:{name}"), format!("{} {name}: {n} units should fit in {cap:?}", s.name)),
                    None => {
                        c.tag("overflow");
                        Ok(())
                    }
                };
            }
        },
    );
    res?;
    res2
}

// ---------------------------------------------------------------- C20

/// one script in two buffer kinds
/// histories in buffers without heap, overflowing at times, of parsed messages too
pub fn c20_hist<U: Model>(c: &mut Ctx) -> R {
    const HEAPLESS: [Kind; 7] = [Kind::Grow, Kind::Slice, Kind::Fix, Kind::Shr, Kind::ArrMin, Kind::ArrOdd, Kind::ArrBig];
    let k = if c.s.chance(1, 2) { choose::<U>(c, multi) } else { choose::<U>(c, any) };
    let s = k.spec();
    with_object(c, k, &HEAPLESS, 60, &mut |c, o, m, cap| {
        m.heapless = true;
        for _ in 0..1 + c.s.us(6) {
            let max = if cap.is_none() { 100.min(cap_text(s)) } else { max_content(s) };
            let Some(op) = gen_op(&mut c.s, s, m.content.len(), max) else { break };
            c.note(|| show_op(s, &op));
            c.hit("op");
            step(o, m, &op, cap, "op")?;
        }
        let (_, n) = alloc_count(|| std::hint::black_box((o.psize(), o.data().len())));
        ensure!(n == 0, format!("heap-read:{}", s.name), "{}: reading the sizes made {n} heap allocation(s)", s.name);
        m.check(o, "after the history")
    })
}
pub fn c20<U: Model>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, any);
    let s = k.spec();
    // script
    let mut m = M::<U>::fresh(s);
    let mut ops = vec![];
    let mut biggest = m.units.len();
    for _ in 0..1 + c.s.us(6) {
        if let Some(op) = gen_op(&mut c.s, s, m.content.len(), 50) {
            match &op {
                Op::Set(i, r) => {
                    m.edited = true;
                    m.set(*i, *r)
                }
                Op::Edit(e) => {
                    let x = m.apply(e);
                    m.replace(e, x);
                }
            }
            biggest = biggest.max(m.units.len());
            ops.push(op);
        }
    }
    for op in &ops {
        c.note(|| show_op(s, op));
    }
    let mut first: Option<(Vec<U>, String)> = None;
    for kind in KINDS {
        if kind == Kind::ArrUnder {
            continue;
        }
        let ctor = *c.s.pick(ctors(kind));
        let extra = if c.s.chance(1, 2) { 0 } else { c.s.us(30) };
        let p = Place { kind, ctor, n: (biggest + extra).min(CUSTOM_MAX) };
        if capacity(&p, s.min).map_or(false, |x| x < biggest) {
            continue;
        }
        let mut st = gen_st::<U>(&mut c.s, &p, s.min);
        let heapless = !matches!(kind, Kind::Vec | Kind::MutVec);
        let cap = capacity(&p, s.min);
        let mut o = match k.make(kind, ctor, &mut st) {
            Some(Ok(o)) => o,
            _ => continue,
        };
        for op in &ops {
            let (r, n) = alloc_count(|| match op {
                Op::Set(i, r) => {
                    o.set(*i, *r);
                    Ok(())
                }
                Op::Edit(e) => o.edit(e),
            });
            ensure!(r.is_ok(), format!("result:{}:{kind:?}", s.name), "{}: {} overflows in {:?} cap {:?} although {} units suffice", s.name, show_op(s, op), p, cap, biggest);
            if heapless {
                ensure!(n == 0, format!("heap:{}", s.name), "{}: {} made {} heap allocation(s) in {:?}", s.name, show_op(s, op), n, p);
            }
        }
        c.hit("kind");
        let at = format!("in {p:?}");
        m.check(&*o, &at)?;
        let (_, n) = alloc_count(|| {
            let mut t = 0u64;
            for i in 0..s.fields.len() {
                t = t.wrapping_add(o.get(i));
            }
            std::hint::black_box((t, o.data().len()))
        });
        ensure!(n == 0, format!("heap-read:{}", s.name), "{}: reading fields made {} heap allocation(s)", s.name, n);
        let d = m.masked(o.data());
        match &first {
            None => first = Some((d, at)),
            Some((f, fa)) => same!(hx(&d), hx(f), format!("differs:{}", s.name), "{}: data {at} against {fa}", s.name),
        }
        drop(o);
        if heapless {
            ensure!(st.allocs == 0, format!("heap-new:{}", s.name), "{}: construction made {} heap allocation(s) in {:?}", s.name, st.allocs, p);
        }
    }
    Ok(())
}
