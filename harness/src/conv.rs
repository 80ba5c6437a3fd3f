//! Conversions between the byte-stream and the packet representation.
use crate::engine::*;
use crate::hist::*;
use crate::kits::{arr, mk};
use crate::model::*;
use crate::types::*;
use midi2::buffer::BufferDefault;
use midi2::prelude::*;

/// what a conversion produced, and the capacity of the target (None: grows; usize::MAX: the capacity set by the case)
pub struct Out<U: Un> {
    pub name: &'static str,
    pub cap: Option<usize>,
    pub res: Made<'static, U>,
}

pub trait Conv: Sync {
    fn name(&self) -> &'static str;
    fn up(&self, src: usize, dst: usize, d: &[u8]) -> Option<Out<u32>>;
    fn down(&self, src: usize, dst: usize, d: &[u32]) -> Option<Out<u8>>;
    /// words to bytes to words, and bytes to words to bytes, through vectors
    fn trip32(&self, d: &[u32]) -> Option<Vec<u32>>;
    fn trip8(&self, d: &[u8]) -> Option<Vec<u8>>;
}

pub const SRCS: usize = 6;
pub const DSTS: usize = 11;

/// the array targets that are statically large enough
macro_rules! infallible_arrays {
    (fixed, $U:ty, $m:ident, $into:ident, $($p:ident)::+, $min:literal, $dst:ident) => {
        match $dst {
            8 => {
                let r: $($p)::+<[$U; $min]> = $m.$into();
                Some(Out { name: "exact array, infallible", cap: None, res: mk(Ok(Tr(r))) })
            }
            9 => {
                let r: $($p)::+<[$U; $min + 5]> = $m.$into();
                Some(Out { name: "larger array, infallible", cap: None, res: mk(Ok(Tr(r))) })
            }
            10 => {
                let r: $($p)::+<[$U; 29]> = $m.$into();
                Some(Out { name: "large array, infallible", cap: None, res: mk(Ok(Tr(r))) })
            }
            _ => None,
        }
    };
    (multi, $U:ty, $m:ident, $into:ident, $($p:ident)::+, $min:literal, $dst:ident) => {
        None
    };
}
macro_rules! targets {
    ($fixed:ident, $U:ty, $m:ident, $into:ident, $tryinto:ident, $($p:ident)::+, $min:literal, $dst:ident) => {
        match $dst {
            0 => {
                let r: $($p)::+<Vec<$U>> = $m.$into();
                Some(Out { name: "Vec", cap: None, res: mk(Ok(Rz(r))) })
            }
            1 => {
                let r: $($p)::+<Grow<$U>> = $m.$into();
                Some(Out { name: "growable", cap: None, res: mk(Ok(Rz(r))) })
            }
            2 => {
                let r: Result<$($p)::+<Fix<$U>>, _> = $m.$tryinto();
                Some(Out { name: "fixed-size user buffer", cap: Some(usize::MAX), res: mk(r.map(Tr)) })
            }
            3 => {
                let r: Result<$($p)::+<Shr<$U>>, _> = $m.$tryinto();
                Some(Out { name: "bounded user buffer", cap: Some(usize::MAX), res: mk(r.map(Tr)) })
            }
            4 => {
                let r: Result<$($p)::+<[$U; $min]>, _> = $m.$tryinto();
                Some(Out { name: "exact array", cap: Some($min), res: mk(r.map(Tr)) })
            }
            5 => {
                let r: Result<$($p)::+<[$U; $min + 5]>, _> = $m.$tryinto();
                Some(Out { name: "larger array", cap: Some($min + 5), res: mk(r.map(Tr)) })
            }
            6 => {
                let r: Result<$($p)::+<[$U; 29]>, _> = $m.$tryinto();
                Some(Out { name: "large array", cap: Some(29), res: mk(r.map(Tr)) })
            }
            7 => {
                let r: Result<$($p)::+<[$U; $min - 1]>, _> = $m.$tryinto();
                Some(Out { name: "small array", cap: Some($min - 1), res: mk(r.map(Tr)) })
            }
            _ => infallible_arrays!($fixed, $U, $m, $into, $($p)::+, $min, $dst),
        }
    };
}
macro_rules! sources {
    ($fixed:ident, $U:ty, $T:ty, $d:ident, $src:ident, $dst:ident, $into:ident, $tryinto:ident, $($p:ident)::+, $min:literal) => {{
        let m = <$($p)::+<&[$U]>>::try_from($d).ok()?;
        match $src {
            0 => targets!($fixed, $T, m, $into, $tryinto, $($p)::+, $min, $dst),
            1 => {
                let m: $($p)::+<Vec<$U>> = m.rebuffer_into();
                targets!($fixed, $T, m, $into, $tryinto, $($p)::+, $min, $dst)
            }
            2 => {
                let m: $($p)::+<[$U; 64]> = m.try_rebuffer_into().ok()?;
                targets!($fixed, $T, m, $into, $tryinto, $($p)::+, $min, $dst)
            }
            3 => {
                let m: $($p)::+<Grow<$U>> = m.rebuffer_into();
                targets!($fixed, $T, m, $into, $tryinto, $($p)::+, $min, $dst)
            }
            _ => None,
        }
    }};
}
macro_rules! conv {
    ($K:ident, $name:literal, $fixed:ident, $($p:ident)::+, $bmin:literal, $umin:literal) => {
        pub struct $K;
        impl Conv for $K {
            fn name(&self) -> &'static str {
                $name
            }
            fn up(&self, src: usize, dst: usize, d: &[u8]) -> Option<Out<u32>> {
                sources!($fixed, u8, u32, d, src, dst, into_ump, try_into_ump, $($p)::+, $umin)
            }
            fn down(&self, src: usize, dst: usize, d: &[u32]) -> Option<Out<u8>> {
                sources!($fixed, u32, u8, d, src, dst, into_bytes, try_into_bytes, $($p)::+, $bmin)
            }
            fn trip32(&self, d: &[u32]) -> Option<Vec<u32>> {
                let m = <$($p)::+<&[u32]>>::try_from(d).ok()?;
                let b: $($p)::+<Vec<u8>> = m.into_bytes();
                let r: $($p)::+<Vec<u32>> = b.into_ump();
                Some(r.data().to_vec())
            }
            fn trip8(&self, d: &[u8]) -> Option<Vec<u8>> {
                let m = <$($p)::+<&[u8]>>::try_from(d).ok()?;
                let b: $($p)::+<Vec<u32>> = m.into_ump();
                let r: $($p)::+<Vec<u8>> = b.into_bytes();
                Some(r.data().to_vec())
            }
        }
    };
}
use midi2::channel_voice1 as v1;
use midi2::system_common as sc;
conv!(KNoteOff, "channel_voice1::NoteOff", fixed, v1::NoteOff, 3, 1);
conv!(KNoteOn, "channel_voice1::NoteOn", fixed, v1::NoteOn, 3, 1);
conv!(KKeyPressure, "channel_voice1::KeyPressure", fixed, v1::KeyPressure, 3, 1);
conv!(KControlChange, "channel_voice1::ControlChange", fixed, v1::ControlChange, 3, 1);
conv!(KProgramChange, "channel_voice1::ProgramChange", fixed, v1::ProgramChange, 2, 1);
conv!(KChannelPressure, "channel_voice1::ChannelPressure", fixed, v1::ChannelPressure, 2, 1);
conv!(KPitchBend, "channel_voice1::PitchBend", fixed, v1::PitchBend, 3, 1);
conv!(KTimeCode, "system_common::TimeCode", fixed, sc::TimeCode, 2, 1);
conv!(KSongPosition, "system_common::SongPositionPointer", fixed, sc::SongPositionPointer, 3, 1);
conv!(KSongSelect, "system_common::SongSelect", fixed, sc::SongSelect, 2, 1);
conv!(KTuneRequest, "system_common::TuneRequest", fixed, sc::TuneRequest, 1, 1);
conv!(KTimingClock, "system_common::TimingClock", fixed, sc::TimingClock, 1, 1);
conv!(KStart, "system_common::Start", fixed, sc::Start, 1, 1);
conv!(KContinue, "system_common::Continue", fixed, sc::Continue, 1, 1);
conv!(KStop, "system_common::Stop", fixed, sc::Stop, 1, 1);
conv!(KActiveSensing, "system_common::ActiveSensing", fixed, sc::ActiveSensing, 1, 1);
conv!(KReset, "system_common::Reset", fixed, sc::Reset, 1, 1);
conv!(KSysex7, "sysex7::Sysex7", multi, midi2::sysex7::Sysex7, 2, 2);

pub static CONVS: &[&dyn Conv] = &[
    &KNoteOff, &KNoteOn, &KKeyPressure, &KControlChange, &KProgramChange, &KChannelPressure, &KPitchBend, &KTimeCode, &KSongPosition, &KSongSelect,
    &KTuneRequest, &KTimingClock, &KStart, &KContinue, &KStop, &KActiveSensing, &KReset, &KSysex7, &KSysex7, &KSysex7, &KSysex7,
];

fn ukit(name: &str) -> &'static dyn Kit<u32> {
    *<u32 as Model>::kits().iter().find(|k| k.spec().name == name).unwrap()
}
fn bkit(name: &str) -> &'static dyn Kit<u8> {
    *<u8 as Model>::kits().iter().find(|k| k.spec().name.strip_suffix("(bytes)") == Some(name)).unwrap()
}

/// the converted message: defaults, with every field both representations have, and the content
fn expected<A: Model, B: Model>(from: &'static Spec, to: &'static Spec, d: &[A], content: &[u8]) -> M<B> {
    let mut m = M::<B>::fresh(to);
    for f in from.fields {
        if let Some(j) = to.fields.iter().position(|g| g.name == f.name) {
            m.set(j, reading(f, d));
        }
    }
    if is_sysex(to) {
        m.replace(&Edit::Set(Feed { bytes: content.to_vec(), hint: Hint::Exact }), content.to_vec());
    }
    m
}

fn one_way<A: Model, B: Model>(
    c: &mut Ctx,
    name: &str,
    ka: &'static dyn Kit<A>,
    kb: &'static dyn Kit<B>,
    run: &dyn Fn(usize, usize, &[A]) -> Option<Out<B>>,
    trip: &dyn Fn(&[A]) -> Option<Vec<A>>,
) -> R {
    let (sa, sb) = (ka.spec(), kb.spec());
    let g = gen_valid::<A>(&mut c.s, sa, Style::Wild, 100);
    let mut d = g.units.clone();
    if c.s.chance(1, 3) {
        d.extend(gen_tail::<A>(&mut c.s, sa, d.len()));
    }
    if d.len() > CUSTOM_MAX || ka.parse(&d).is_err() {
        return Ok(());
    }
    let m = expected::<A, B>(sa, sb, &g.units, &g.content);
    let (src, dst) = (c.s.us(SRCS - 2), c.s.us(DSTS));
    let need = m.units.len();
    let capn = match c.s.us(4) {
        0 => need,
        1 => need.saturating_sub(1),
        2 => need + c.s.us(6),
        _ => c.s.us(need + 1),
    };
    // user buffers as sources and targets share one capacity setting: the sources are growable
    set_default_cap(capn);
    c.note(|| format!("{} to {} source {src} target {dst} cap {capn}", hx(&d), sb.name));
    let Some(o) = run(src, dst, &d) else { return Ok(()) };
    c.hit(o.name);
    let cap = o.cap.map(|x| if x == usize::MAX { capn } else { x });
    let fits = cap.map_or(true, |x| need <= x);
    match o.res {
        Err(_) => {
            c.tag("overflow");
            ensure!(!fits, format!("convert-overflow:{}:{name}", o.name), "{name} {} to {}: needs {need} of {cap:?}", hx(&d), o.name);
        }
        Ok(mut x) => {
            ensure!(fits, format!("convert-missing-overflow:{}:{name}", o.name), "{name} {} to {}: needs {need} of {cap:?}", hx(&d), o.name);
            m.check(&*x, "converted")?;
            m.check_reparse(kb, &m.units, "converted")?;
            let u = x.data().to_vec();
            m.check_reparse(kb, &u, "converted data")?;
            // the converted message is usable: write on
            if let Some(op) = gen_op(&mut c.s, sb, m.content.len(), 30) {
                let mut m = m;
                c.note(|| show_op(sb, &op));
                step(&mut *x, &mut m, &op, cap, "after conversion")?;
            }
        }
    }
    // there and back
    let mut back = M::<A>::fresh(sa);
    for (i, f) in sa.fields.iter().enumerate() {
        if sb.fields.iter().any(|g| g.name == f.name) {
            back.set(i, reading(f, &g.units));
        }
    }
    if is_sysex(sa) {
        back.replace(&Edit::Set(Feed { bytes: g.content.clone(), hint: Hint::Exact }), g.content.clone());
    }
    let Some(t) = trip(&d) else { return Ok(()) };
    back.check_units(&t, "there and back")
}

pub fn c15_up(c: &mut Ctx) -> R {
    let k = CONVS[(c.idx % CONVS.len() as u64) as usize];
    c.key = hash_str(k.name());
    c.note(|| k.name().to_string());
    one_way::<u8, u32>(c, k.name(), bkit(k.name()), ukit(k.name()), &|a, b, d| k.up(a, b, d), &|d| k.trip8(d))
}
pub fn c15_down(c: &mut Ctx) -> R {
    let k = CONVS[(c.idx % CONVS.len() as u64) as usize];
    c.key = hash_str(k.name());
    c.note(|| k.name().to_string());
    one_way::<u32, u8>(c, k.name(), ukit(k.name()), bkit(k.name()), &|a, b, d| k.down(a, b, d), &|d| k.trip32(d))
}

// ---------------------------------------------------------------- families

macro_rules! variant_names {
    ($fam:ident, $m:expr, $E:path; $($v:ident),*) => {{
        use $E as E;
        match $m { $(E::$v(_) => stringify!($v),)* _ => "?" }
    }};
}
macro_rules! family {
    ($run:ident, $up:ident, $down:ident, $E:path; $($v:ident),*) => {
        fn $up(d: &[u8], dst: usize) -> Option<(&'static str, Option<usize>, Result<(&'static str, Vec<u32>), ()>)> {
            use $E as E;
            let m = E::<&[u8]>::try_from(d).ok()?;
            macro_rules! see { ($r:expr) => {{ let r = $r; (variant_names!(fam, &r, $E; $($v),*), r.data().to_vec()) }}; }
            Some(match dst {
                0 => { let r: E<Vec<u32>> = m.into_ump(); ("Vec", None, Ok(see!(r))) }
                1 => { let r: E<Grow<u32>> = m.into_ump(); ("growable", None, Ok(see!(r))) }
                2 => { let r: Result<E<Fix<u32>>, _> = m.try_into_ump(); ("fixed-size user buffer", Some(usize::MAX), r.map(|r| see!(r)).map_err(|_| ())) }
                3 => { let r: Result<E<Shr<u32>>, _> = m.try_into_ump(); ("bounded user buffer", Some(usize::MAX), r.map(|r| see!(r)).map_err(|_| ())) }
                4 => { let r: Result<E<[u32; 1]>, _> = m.try_into_ump(); ("exact array", Some(1), r.map(|r| see!(r)).map_err(|_| ())) }
                5 => { let r: Result<E<[u32; 0]>, _> = m.try_into_ump(); ("empty array", Some(0), r.map(|r| see!(r)).map_err(|_| ())) }
                6 => { let r: Result<E<[u32; 4]>, _> = m.try_into_ump(); ("larger array", Some(4), r.map(|r| see!(r)).map_err(|_| ())) }
                _ => { let v: E<Vec<u8>> = m.rebuffer_into(); let r: E<Vec<u32>> = v.into_ump(); ("Vec from Vec", None, Ok(see!(r))) }
            })
        }
        fn $down(d: &[u32], dst: usize) -> Option<(&'static str, Option<usize>, Result<(&'static str, Vec<u8>), ()>)> {
            use $E as E;
            let m = E::<&[u32]>::try_from(d).ok()?;
            macro_rules! see { ($r:expr) => {{ let r = $r; (variant_names!(fam, &r, $E; $($v),*), r.data().to_vec()) }}; }
            Some(match dst {
                0 => { let r: E<Vec<u8>> = m.into_bytes(); ("Vec", None, Ok(see!(r))) }
                1 => { let r: E<Grow<u8>> = m.into_bytes(); ("growable", None, Ok(see!(r))) }
                2 => { let r: Result<E<Fix<u8>>, _> = m.try_into_bytes(); ("fixed-size user buffer", Some(usize::MAX), r.map(|r| see!(r)).map_err(|_| ())) }
                3 => { let r: Result<E<Shr<u8>>, _> = m.try_into_bytes(); ("bounded user buffer", Some(usize::MAX), r.map(|r| see!(r)).map_err(|_| ())) }
                4 => { let r: Result<E<[u8; 3]>, _> = m.try_into_bytes(); ("array of three", Some(3), r.map(|r| see!(r)).map_err(|_| ())) }
                5 => { let r: Result<E<[u8; 2]>, _> = m.try_into_bytes(); ("array of two", Some(2), r.map(|r| see!(r)).map_err(|_| ())) }
                6 => { let r: Result<E<[u8; 1]>, _> = m.try_into_bytes(); ("array of one", Some(1), r.map(|r| see!(r)).map_err(|_| ())) }
                _ => { let v: E<Vec<u32>> = m.rebuffer_into(); let r: E<Vec<u8>> = v.into_bytes(); ("Vec from Vec", None, Ok(see!(r))) }
            })
        }
    };
}
family!(cv1, cv1_up, cv1_down, midi2::channel_voice1::ChannelVoice1; NoteOff, NoteOn, KeyPressure, ControlChange, ProgramChange, ChannelPressure, PitchBend);
family!(sc, sc_up, sc_down, midi2::system_common::SystemCommon; TimeCode, SongPositionPointer, SongSelect, TuneRequest, TimingClock, Start, Continue, Stop, ActiveSensing, Reset);

pub fn c15_family(c: &mut Ctx) -> R {
    let k = CONVS[(c.idx % 17) as usize];
    c.key = hash_str(k.name());
    let (kb, ku) = (bkit(k.name()), ukit(k.name()));
    let voice = kb.spec().fam == Fam::Cv1;
    let short = k.name().rsplit("::").next().unwrap();
    let dst = c.s.us(8);
    let capn = c.s.us(5);
    set_default_cap(capn);
    macro_rules! judge {
        ($A:ty, $B:ty, $ka:ident, $kb:ident, $f:expr) => {{
            let g = gen_valid::<$A>(&mut c.s, $ka.spec(), Style::Wild, 0);
            let mut d = g.units.clone();
            if c.s.chance(1, 3) {
                d.extend(gen_tail::<$A>(&mut c.s, $ka.spec(), d.len()));
            }
            c.note(|| format!("family of {} {} target {dst} cap {capn}", k.name(), hx(&d)));
            let m = expected::<$A, $B>($ka.spec(), $kb.spec(), &g.units, &g.content);
            let need = m.units.len();
            let Some((name, cap, r)) = $f(&d[..], dst) else {
                return fail(format!("family-rejects:{}", k.name()), format!("family of {} rejects {}", k.name(), hx(&d)));
            };
            c.hit(name);
            let cap = cap.map(|x: usize| if x == usize::MAX { capn } else { x });
            let fits = cap.map_or(true, |x| need <= x);
            match r {
                Err(()) => {
                    c.tag("overflow");
                    ensure!(!fits, format!("family-overflow:{name}"), "family of {} {}: needs {need} of {cap:?}", k.name(), hx(&d))
                }
                Ok((v, u)) => {
                    ensure!(fits, format!("family-missing-overflow:{name}"), "family of {} {}: needs {need} of {cap:?}", k.name(), hx(&d));
                    same!(v, short, "family-variant", "family of {} {}: converted type", k.name(), hx(&d));
                    m.check_units(&u, "converted in its family")?;
                }
            }
            Ok(())
        }};
    }
    if c.idx / 17 % 2 == 0 {
        judge!(u8, u32, kb, ku, if voice { cv1_up } else { sc_up })
    } else {
        judge!(u32, u8, ku, kb, if voice { cv1_down } else { sc_down })
    }
}

/// a long system-exclusive payload, there and back
pub fn c15_long(c: &mut Ctx) -> R {
    let n = crate::long::size(&mut c.s, ukit("sysex7::Sysex7").spec());
    let b = crate::long::bulk(&mut c.s, ukit("sysex7::Sysex7").spec(), n);
    let mut d = vec![0xF0u8];
    d.extend(&b);
    d.push(0xF7);
    c.note(|| format!("system exclusive of {n} bytes"));
    c.hit("long");
    let m = expected::<u8, u32>(bkit("sysex7::Sysex7").spec(), ukit("sysex7::Sysex7").spec(), &d, &b);
    let s = midi2::sysex7::Sysex7::<&[u8]>::try_from(&d[..]).map_err(|e| Fail { sig: "long-reject".into(), msg: format!("{n} bytes rejected: {e}") })?;
    let w: midi2::sysex7::Sysex7<Vec<u32>> = s.into_ump();
    m.check_units(w.data(), "long conversion")?;
    let back: midi2::sysex7::Sysex7<Vec<u8>> = w.into_bytes();
    same!(hx(back.data()), hx(&d), "long-back", "system exclusive of {n} bytes there and back");
    Ok(())
}
#[allow(unused)]
fn _unused() {
    let _: Vec<u8> = BufferDefault::default();
    let _ = arr::<u8, 1>;
}
