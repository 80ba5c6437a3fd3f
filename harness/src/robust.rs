//! C01: nothing panics or hangs on untrusted input. The oracle is termination without a panic.
use crate::agg::*;
use crate::conv::*;
use crate::engine::*;
use crate::model::*;
use crate::pkt;
use crate::props_a::*;
use crate::types::*;
use std::hint::black_box;

/// parse `d` as `k` and use every reading operation on what comes out
fn exercise<U: AggModel>(c: &mut Ctx, k: K<U>, d: &[U]) {
    let s = k.spec();
    let ops: Vec<ItOp> = (0..1 + c.s.us(8)).map(|_| gen_itop(&mut c.s)).collect();
    let Ok(o) = k.parse(d) else {
        c.tag("rejected");
        return;
    };
    c.hit("accepted");
    c.note(|| format!("as {} {ops:?}", s.name));
    use_all(s, &*o, &ops);
    black_box(k.eq(d, o.data()));
    if d.len() <= CUSTOM_MAX {
        set_default_cap(c.s.us(d.len() + 3));
        let route = c.s.us(k.routes());
        if let (_, _, Ok(x)) = k.rebuffer(route, d) {
            use_all(s, &*x, &ops);
        }
        let kind = *c.s.pick(&KINDS);
        if let Some(Ok(x)) = k.load(kind, d) {
            use_all(s, &*x, &ops);
        }
    }
}
fn use_all<U: Un>(s: &Spec, o: &dyn Obj<U>, ops: &[ItOp]) {
    black_box(o.data().len());
    black_box(o.dbg());
    for i in 0..s.fields.len() {
        black_box(o.get(i));
    }
    black_box(o.content());
    black_box(o.psize());
    black_box(o.packets());
    for w in [Which::Payload, Which::TextBytes, Which::Packets] {
        black_box(o.drive(w, ops));
    }
}

/// more hostile than `gen_input`: also one type glued to another, and streams of one nibble
pub fn hostile<U: Model>(c: &mut Ctx, s: &Spec) -> Vec<U> {
    match c.s.us(8) {
        0 => {
            let mut d = gen_input::<U>(c, s).0;
            let o = *c.s.pick(U::kits());
            d.extend(gen_input::<U>(c, o.spec()).0);
            d
        }
        1 => {
            // a repeated packet, one unit of which varies
            let mut d: Vec<U> = gen_valid::<U>(&mut c.s, s, Style::Wild, 20).units;
            let n = d.len();
            for _ in 0..c.s.us(4) {
                d.extend_from_within(..n);
            }
            let i = c.s.us(d.len());
            d[i] = U::from32(c.s.word());
            d
        }
        2 => {
            let mut d = gen_input::<U>(c, s).0;
            let n = c.s.us(d.len() + 1);
            d.truncate(n);
            d
        }
        _ => gen_input::<U>(c, s).0,
    }
}

pub trait Extra: AggModel {
    fn extra(c: &mut Ctx, k: K<Self>, d: &[Self]);
}
impl Extra for u32 {
    fn extra(c: &mut Ctx, k: K<u32>, d: &[u32]) {
        for f in pkt::FAMS {
            let ops: Vec<ItOp> = (0..1 + c.s.us(4)).map(|_| gen_itop(&mut c.s)).collect();
            let from = if c.s.chance(3, 4) { 0 } else { c.s.us(d.len() + 1) };
            if pkt::see(f, &d[from..], c.s.bits(4) as u8, c.s.bits(4) as u8, &ops).is_some() {
                c.tag("packet");
            }
        }
        if let Some(x) = CONVS.iter().find(|x| x.name() == k.spec().name) {
            if d.len() <= 64 {
                set_default_cap(c.s.us(60));
                let (src, dst) = (c.s.us(SRCS - 2), c.s.us(DSTS));
                if let Some(o) = x.down(src, dst, d) {
                    c.tag("converted");
                    if let Ok(o) = o.res {
                        black_box((o.dbg(), o.content()));
                    }
                }
            }
            black_box(x.trip32(d));
        }
    }
}
impl Extra for u8 {
    fn extra(c: &mut Ctx, k: K<u8>, d: &[u8]) {
        if crate::ci::use_all(d) {
            c.tag("discovery");
        }
        let name = k.spec().name.trim_end_matches("(bytes)");
        if let Some(x) = CONVS.iter().find(|x| x.name() == name) {
            if d.len() <= 64 {
                set_default_cap(c.s.us(60));
                let (src, dst) = (c.s.us(SRCS - 2), c.s.us(DSTS));
                if let Some(o) = x.up(src, dst, d) {
                    c.tag("converted");
                    if let Ok(o) = o.res {
                        black_box((o.dbg(), o.content(), o.packets()));
                    }
                }
            }
            black_box(x.trip8(d));
        }
    }
}

fn all_of<U: Extra>(c: &mut Ctx, k: K<U>, d: &[U]) {
    exercise(c, k, d);
    let fam = k.spec().fam;
    let same: Vec<K<U>> = U::kits().iter().copied().filter(|x| x.spec().fam == fam).collect();
    let k2 = *c.s.pick(&same);
    exercise(c, k2, d);
    let k3 = *c.s.pick(U::kits());
    exercise(c, k3, d);
    black_box(U::parse_all(d));
    black_box(U::parse_families(d));
    let a = *U::aggs().iter().find(|a| a.kit().spec().name == k.spec().name).unwrap();
    if d.len() <= CUSTOM_MAX && a.routes(d).is_ok() {
        c.tag("aggregate");
        set_default_cap(c.s.us(d.len() + 3));
        black_box(a.moves(d));
    }
    U::extra(c, k, d);
}

pub fn c01<U: Extra>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, any);
    let d = hostile::<U>(c, k.spec());
    c.note(|| hx(&d));
    all_of(c, k, &d);
    Ok(())
}

/// slices of thousands of units
pub fn c01_long<U: Extra>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, |s| s.shape != Shape::Fixed);
    let s = k.spec();
    let mut d = crate::long::gen::<U>(&mut c.s, s).units;
    if c.s.chance(1, 2) {
        mutate(&mut c.s, s, &mut d);
    }
    if c.s.chance(1, 3) {
        d.extend(gen_tail::<U>(&mut c.s, s, d.len()));
    }
    c.note(|| format!("{} units", d.len()));
    if d.len() > 500 {
        c.tag("long");
    }
    all_of(c, k, &d);
    Ok(())
}

/// raw discovery-query bytes
pub fn c01_ci(c: &mut Ctx) -> R {
    let d = crate::ci::gen(c, 1 + (c.idx % 2) as u8);
    c.note(|| hx(&d));
    if crate::ci::use_all(&d) {
        c.hit("discovery");
    }
    Ok(())
}
