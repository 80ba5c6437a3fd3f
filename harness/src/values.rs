//! C23: messages, packets and CI messages as values: equality and copies.
use crate::ci;
use crate::engine::*;
use crate::hist::*;
use crate::model::*;
use crate::pkt;
use crate::props_a::*;
use crate::types::*;
use midi2::ci::{Ci, DiscoveryQuery};
use midi2::prelude::*;

/// up to `n` operations that fit, from `m` on
fn plan<U: Model>(c: &mut Ctx, m: &mut M<U>, cap: Option<usize>, n: usize) -> Vec<Op> {
    let s = m.s;
    let mut out = vec![];
    for _ in 0..n {
        let Some(op) = gen_op(&mut c.s, s, m.content.len(), max_content(s).min(60)) else { break };
        if follow(m, &op, cap) {
            out.push(op);
        }
    }
    out
}
fn follow<U: Model>(m: &mut M<U>, op: &Op, cap: Option<usize>) -> bool {
    match op {
        Op::Set(i, raw) => m.set(*i, *raw),
        Op::Edit(e) => {
            let x = m.apply(e);
            if !matches!(e, Edit::SetByte(..)) && !m.fits(x.len(), cap) {
                return false;
            }
            m.replace(e, x);
        }
    }
    true
}
fn play<U: Un>(o: &mut dyn Obj<U>, ops: &[Op]) {
    for op in ops {
        match op {
            Op::Set(i, raw) => o.set(*i, *raw),
            Op::Edit(e) => {
                let _ = o.edit(e);
            }
        }
    }
}
fn whole(s: &Spec, bytes: &[u8]) -> Op {
    if is_text(s) {
        Op::Edit(Edit::Text(String::from_utf8(bytes.to_vec()).unwrap()))
    } else {
        Op::Edit(Edit::Set(Feed { bytes: bytes.to_vec(), hint: Hint::Exact }))
    }
}

pub fn c23_messages<U: Model>(c: &mut Ctx) -> R {
    let k = choose::<U>(c, any);
    let s = k.spec();
    let h = *c.s.pick(&HELD);
    let cap = match h {
        Held::Shared | Held::Vec | Held::Grow => None,
        Held::ArrOdd => Some(s.min + ARR_ODD_EXTRA),
        Held::ArrBig => Some(ARR_BIG),
        Held::Slice => Some(s.min + c.s.us(40)),
    };
    let room = cap.unwrap_or(c.s.us(40)).min(CUSTOM_MAX);
    let over = |c: &mut Ctx| {
        let p = Place { kind: Kind::Vec, ctor: Ctor::With, n: room };
        gen_st::<U>(&mut c.s, &p, s.min).v
    };
    let parsed = h == Held::Shared || h != Held::Slice && c.s.chance(1, 2);
    // the first message
    let (a, mut ma) = if parsed {
        let g = crate::long::gen_any::<U>(&mut c.s, s, max_content(s));
        let mut d = g.units.clone();
        if c.s.chance(1, 2) {
            d.extend(gen_tail::<U>(&mut c.s, s, d.len()));
        }
        let m = M::loaded(s, &g.units, &g.content);
        (Side::Parsed(d), m)
    } else {
        (Side::Over(over(c)), M::fresh(s))
    };
    let n0 = c.s.us(4);
    let ops_a = plan(c, &mut ma, cap, n0);
    let edited = h != Held::Shared;
    let fin = if edited { ma.units.clone() } else { M::<U>::units_of(&a, &ma) };
    // the second
    let how = c.s.us(6);
    let mut mb = M::<U>::fresh(s);
    let (b, ops_b) = match how {
        // the same message with something else behind it
        0 | 1 if h != Held::Slice => {
            let mut d = fin.clone();
            if c.s.chance(2, 3) {
                d.extend(gen_tail::<U>(&mut c.s, s, d.len()));
            }
            (Side::Parsed(d), vec![])
        }
        // the same history, over other contents, after a detour
        2 | 3 => {
            let start = match &a {
                Side::Over(_) => Side::Over(over(c)),
                Side::Parsed(_) => a.clone(),
            };
            let mut m = M::<U>::fresh(s);
            let mut ops = vec![];
            if matches!(start, Side::Over(_)) {
                let detour = plan(c, &mut m, cap, 3);
                ops.extend(detour.into_iter().filter(|o| matches!(o, Op::Edit(_))));
                if !ops.is_empty() {
                    ops.push(whole(s, &[]));
                }
            }
            ops.extend(ops_a.iter().cloned());
            (start, ops)
        }
        // one bit apart
        4 if h != Held::Slice => {
            let mut d = fin.clone();
            let i = c.s.us(d.len());
            d[i] = U::from32(d[i].to32() ^ 1 << c.s.us(U::BITS as usize));
            (Side::Parsed(d), vec![])
        }
        // something else of the type
        _ if h != Held::Slice && c.s.chance(1, 2) => {
            let g = gen_valid::<U>(&mut c.s, s, Style::Wild, 30);
            (Side::Parsed(g.units), vec![])
        }
        _ => {
            let n = c.s.us(4);
            (Side::Over(over(c)), plan(c, &mut mb, cap, n))
        }
    };
    for x in [&a, &b] {
        if let Side::Parsed(d) = x {
            if d.len() > CUSTOM_MAX || k.parse(d).is_err() {
                return Ok(());
            }
        }
    }
    let n2 = 1 + c.s.us(3);
    let more = plan(c, &mut ma, cap, n2);
    c.note(|| format!("{h:?} {} {:?} | {} {:?} | {:?}", side(&a), shown(s, &ops_a), side(&b), shown(s, &ops_b), shown(s, &more)));
    let r = k.values(h, &a, &b, &mut |which, o| match which {
        0 => play(o, &ops_a),
        1 => play(o, &ops_b),
        2 => play(o, &more),
        _ => {}
    });
    let Some(v) = r else { return Ok(()) };
    for x in &v.cmps {
        let same = x.a == x.b;
        ensure!(
            x.equal == same && x.flipped == same && x.not_ne == same,
            format!("equality:{}:{}", s.name, x.what),
            "{} ({h:?}), {}: {} and {} compare equal: {} (and {}, {})",
            s.name, x.what, hx(&x.a), hx(&x.b), x.equal, x.flipped, x.not_ne
        );
        if x.what == "pair" {
            c.hit(if same { "equal" } else { "unequal" });
        }
    }
    for (what, a, b) in &v.kept {
        same!(hx(a), hx(b), format!("copy:{}:{what}", s.name), "{} ({h:?}), {what}", s.name);
    }
    Ok(())
}
fn side<U: Un>(s: &Side<U>) -> String {
    match s {
        Side::Parsed(d) => format!("parsed {}", hx(d)),
        Side::Over(d) => format!("over {}", hx(d)),
    }
}
fn shown(s: &Spec, ops: &[Op]) -> Vec<String> {
    ops.iter().map(|o| show_op(s, o)).collect()
}
impl<U: Model> M<U> {
    /// the units the first message started from
    fn units_of(a: &Side<U>, m: &M<U>) -> Vec<U> {
        match a {
            Side::Parsed(d) => d.clone(),
            Side::Over(_) => m.units.clone(),
        }
    }
}

macro_rules! enums {
    ($f:ident, $U:ty, $E:ident, $N:literal) => {
        /// messages whose type is not known beforehand
        pub fn $f(c: &mut Ctx) -> R {
            type E<B> = midi2::$E<B>;
            let k = choose::<$U>(c, any);
            let s = k.spec();
            let g = gen_valid::<$U>(&mut c.s, s, Style::Wild, 30);
            let mut a = g.units.clone();
            if c.s.chance(1, 2) {
                a.extend(gen_tail::<$U>(&mut c.s, s, a.len()));
            }
            let mut b = match c.s.us(4) {
                0 | 1 => g.units.clone(),
                2 => {
                    let mut d = g.units.clone();
                    let i = c.s.us(d.len());
                    d[i] ^= 1 << c.s.us(<$U>::BITS as usize);
                    d
                }
                _ => {
                    let o = *c.s.pick(<$U as Model>::kits());
                    gen_valid::<$U>(&mut c.s, o.spec(), Style::Wild, 30).units
                }
            };
            if c.s.chance(1, 2) {
                let at = b.len();
                b.extend(gen_tail::<$U>(&mut c.s, s, at));
            }
            c.note(|| format!("{} | {}", hx(&a), hx(&b)));
            let (Ok(x), Ok(y)) = (E::try_from(&a[..]), E::try_from(&b[..])) else { return Ok(()) };
            let want = x.data() == y.data();
            c.hit(if want { "equal" } else { "unequal" });
            let vx: E<Vec<$U>> = x.clone().rebuffer_into();
            let vy: E<Vec<$U>> = y.clone().rebuffer_into();
            let ax: Result<E<[$U; $N]>, _> = x.clone().try_rebuffer_into();
            let ay: Result<E<[$U; $N]>, _> = y.clone().try_rebuffer_into();
            let arrays = match (&ax, &ay) {
                (Ok(p), Ok(q)) => p == q,
                _ => want,
            };
            for (what, got) in [("views", x == y), ("flipped", y == x), ("vectors", vx == vy), ("arrays", arrays)] {
                same!(got, want, format!("enum-equality:{what}"), "{} and {} as messages of unknown type compare equal ({what})", hx(&a), hx(&b));
            }
            ensure!(x == x.clone() && vx == vx.clone(), "enum-copy", "{} as a message of unknown type differs from its copy", hx(&a));
            same!(hx(vx.clone().data()), hx(x.data()), "enum-copy-data", "the copy of a message of unknown type");
            Ok(())
        }
    };
}
enums!(c23_words, u32, UmpMessage, 40);
enums!(c23_bytes, u8, BytesMessage, 64);

macro_rules! pair {
    ($t:path, $a:expr, $b:expr) => {{
        type P = $t;
        match (P::try_from($a), P::try_from($b)) {
            (Ok(p), Ok(q)) => Some((p == q, q == p, p == p.clone(), p.to_vec(), q.to_vec(), p.clone().to_vec())),
            _ => None,
        }
    }};
}
pub fn c23_packets(c: &mut Ctx) -> R {
    let f = pkt::FAMS[(c.idx % 8) as usize];
    let a = pkt::gen_words(&mut c.s, f);
    let mut b = if c.s.chance(3, 4) { a.clone() } else { pkt::gen_words(&mut c.s, f) };
    if !b.is_empty() && c.s.chance(1, 2) {
        let i = c.s.us(b.len());
        b[i] ^= 1 << c.s.us(32);
    }
    if c.s.chance(1, 2) {
        b.push(c.s.word());
    }
    c.note(|| format!("{f:?} {} | {}", hx(&a), hx(&b)));
    if a.len() < pkt::words_of(f) || b.len() < pkt::words_of(f) {
        return Ok(());
    }
    let (x, y) = (&a[..], &b[..]);
    let own = match f {
        Fam::Cv1 => pair!(midi2::channel_voice1::Packet, x, y),
        Fam::Cv2 => pair!(midi2::channel_voice2::Packet, x, y),
        Fam::Sc => pair!(midi2::system_common::Packet, x, y),
        Fam::Ut => pair!(midi2::utility::Packet, x, y),
        Fam::Flex => pair!(midi2::flex_data::Packet, x, y),
        Fam::Stream => pair!(midi2::ump_stream::Packet, x, y),
        Fam::S7 => pair!(midi2::sysex7::Packet, x, y),
        Fam::S8 => pair!(midi2::sysex8::Packet, x, y),
    };
    for (what, r) in [("own", own), ("any", pair!(pkt::AnyPacket, x, y))] {
        let Some((eq, flipped, copy, p, q, z)) = r else { continue };
        let want = p == q;
        c.hit(if want { "equal" } else { "unequal" });
        ensure!(eq == want && flipped == want, format!("packet-equality:{f:?}:{what}"), "{f:?} packets {} and {} compare equal: {eq} / {flipped}", hx(&a), hx(&b));
        ensure!(copy, format!("packet-copy:{f:?}:{what}"), "{f:?} packet {} differs from its copy", hx(&a));
        same!(hx(&z), hx(&p), format!("packet-copy-words:{f:?}:{what}"), "the copy of a {f:?} packet");
    }
    Ok(())
}

macro_rules! discovery {
    ($c:ident, $V:literal) => {{
        type Q<B> = DiscoveryQuery<$V, B>;
        let mut a = ci::gen($c, $V);
        let Some(n) = ci::accept($V, &a) else { return Ok(()) };
        let mut b = if $c.s.chance(3, 4) { a[..n].to_vec() } else { ci::gen($c, $V) };
        if $c.s.chance(1, 2) {
            let i = $c.s.us(b.len());
            b[i] ^= 1 << $c.s.us(7);
        }
        for d in [&mut a, &mut b] {
            if $c.s.chance(1, 2) {
                for _ in 0..1 + $c.s.us(9) {
                    d.push($c.s.word() as u8);
                }
            }
        }
        $c.note(|| format!("v{} {} | {}", $V, hx(&a), hx(&b)));
        let (Ok(x), Ok(y)) = (Q::<&[u8]>::try_from(&a[..]), Q::<&[u8]>::try_from(&b[..])) else { return Ok(()) };
        let want = x.data() == y.data();
        $c.hit(if want { "equal" } else { "unequal" });
        let vx: Q<Vec<u8>> = x.clone().rebuffer_into();
        let vy: Q<Vec<u8>> = y.clone().rebuffer_into();
        let ax: Result<Q<[u8; 60]>, _> = x.clone().try_rebuffer_into();
        let ay: Result<Q<[u8; 60]>, _> = y.clone().try_rebuffer_into();
        let arrays = match (&ax, &ay) {
            (Ok(p), Ok(q)) => p == q,
            _ => want,
        };
        for (what, got) in [("views", x == y), ("flipped", y == x), ("vectors", vx == vy), ("arrays", arrays)] {
            same!(got, want, format!("discovery-equality:{what}"), "discovery queries {} and {} compare equal ({what})", hx(&a), hx(&b));
        }
        let mut z = vx.clone();
        ensure!(z == vx, "discovery-copy", "discovery query {} differs from its copy", hx(&a));
        let before = vx.data().to_vec();
        let v = midi2::ux::u28::new($c.s.bits(28) as u32);
        z.set_source(v);
        same!(hx(vx.data()), hx(&before), "discovery-original", "a discovery query whose copy was written");
        same!(z == vx, u32::from(vx.source()) == u32::from(v), "discovery-edited-copy", "discovery query {} equals its copy with the source {v:?}", hx(&a));
        Ok(())
    }};
}
pub fn c23_discovery(c: &mut Ctx) -> R {
    if c.idx % 2 == 0 {
        discovery!(c, 1)
    } else {
        discovery!(c, 2)
    }
}
