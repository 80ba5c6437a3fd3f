//! Aggregates: family enums and the all-message enums, as seen from one member message type.
use crate::engine::*;
use crate::hist::*;
use crate::kits::*;
use crate::model::*;
use crate::props_a::*;
use crate::types::*;
use midi2::buffer::{Bytes, Ump};
use midi2::prelude::*;

/// everything read through one route to a message
#[derive(Clone, Debug, PartialEq)]
pub struct View<U> {
    pub member: &'static str,
    pub data: Vec<U>,
    pub packets: Option<Vec<Vec<u32>>>,
    pub fields: Vec<u64>,
    pub content: Content,
    pub group: Option<u8>,
    pub channel: Option<u8>,
    pub flex: Option<(u8, u8)>,
}
pub struct Seen<U> {
    pub route: &'static str,
    pub view: View<U>,
    pub dbg: String,
    pub leaf_dbg: String,
}
pub type Moved<U> = (&'static str, Option<usize>, Option<View<U>>);

pub trait Agg<U: Un>: Sync + Send {
    fn kit(&self) -> &'static dyn Kit<U>;
    /// the message read on its own, then through every aggregate route; Err: some route rejects it
    fn routes(&self, d: &[U]) -> Result<Vec<Seen<U>>, String>;
    /// the same group / channel writes on the message and through the family type
    fn writes(&self, d: &[U], ops: &[(bool, u8)]) -> Vec<(&'static str, Vec<U>)>;
    /// aggregates moved to other buffers: (route, capacity, view or overflow)
    fn moves(&self, d: &[U]) -> Vec<Moved<U>>;
}
/// how an aggregate parses an input: None rejected, else the member and its data
pub type Parsed<U> = Option<(&'static str, Vec<U>)>;

fn spec_of<U: Un>(k: &dyn Kit<U>) -> &'static Spec {
    k.spec()
}
fn leaf_reads<U: Un, F: Face<U>>(s: &'static Spec, x: &F) -> (Vec<u64>, Content) {
    ((0..s.fields.len()).map(|i| x.f_get(i)).collect(), x.f_content())
}
pub fn bank_code(b: midi2::flex_data::Bank) -> u8 {
    use midi2::flex_data::Bank::*;
    match b {
        SetupAndPerformance => 0,
        MetadataText => 1,
        PerformanceText => 2,
    }
}

macro_rules! opt {
    (yes, $e:expr) => {
        Some($e)
    };
    (no, $e:expr) => {
        None
    };
}
macro_rules! when {
    (yes, $e:block) => {
        $e
    };
    (no, $e:block) => {{}};
}
macro_rules! pkts_of {
    (u32, $m:expr) => {
        Some(packets_vec($m))
    };
    (u8, $m:expr) => {
        None
    };
}
// the read of the all-message enums is generic over the families
pub trait FamView<U: Un> {
    fn view(&self) -> View<U>;
    fn leaf_dbg(&self) -> String;
}

macro_rules! family {
    ($E:ident $m:ident $U:tt $All:ident $g:ident $c:ident $x:ident; $($V:ident $K:ident),*) => {
        family!(@view $E $m $U $g $c $x; $($V $K),*);
        $( family!(@leaf $E $m $U $All $g $c $x; $V $K); )*
    };
    (@view $E:ident $m:ident u32 $g:ident $c:ident $x:ident; $($V:ident $K:ident),*) => {
        family!(@imp Ump, $E $m u32 $g $c $x; $($V $K),*);
    };
    (@view $E:ident $m:ident u8 $g:ident $c:ident $x:ident; $($V:ident $K:ident),*) => {
        family!(@imp Bytes, $E $m u8 $g $c $x; $($V $K),*);
    };
    (@imp $Bound:ident, $E:ident $m:ident $U:tt $g:ident $c:ident $x:ident; $($V:ident $K:ident),*) => {
        impl<B: $Bound> FamView<$U> for midi2::$m::$E<B> {
            fn view(&self) -> View<$U> {
                use midi2::$m::$E as E;
                #[allow(unreachable_patterns)]
                let (member, (fields, content)) = match self {
                    $( E::$V(x) => (spec_of::<$U>(&$K).name, leaf_reads::<$U, _>($K.spec(), x)), )*
                    _ => ("?", (vec![], Content::default())),
                };
                View {
                    member,
                    data: Data::data(self).to_vec(),
                    packets: pkts_of!($U, self),
                    fields,
                    content,
                    group: opt!($g, u8::from(Grouped::group(self))),
                    channel: opt!($c, u8::from(Channeled::channel(self))),
                    flex: opt!($x, { use midi2::flex_data::FlexDataMessage; (bank_code(self.bank()), self.status()) }),
                }
            }
            fn leaf_dbg(&self) -> String {
                use midi2::$m::$E as E;
                #[allow(unreachable_patterns)]
                match self {
                    $( E::$V(x) => format!("{x:?}"), )*
                    _ => String::new(),
                }
            }
        }
    };
    (@leaf $E:ident $m:ident $U:tt $All:ident $g:ident $c:ident $x:ident; $V:ident $K:ident) => {
        impl Agg<$U> for $K {
            fn kit(&self) -> &'static dyn Kit<$U> {
                &$K
            }
            fn routes(&self, d: &[$U]) -> Result<Vec<Seen<$U>>, String> {
                type L<B> = midi2::$m::$V<B>;
                type F<B> = midi2::$m::$E<B>;
                type A<B> = midi2::$All<B>;
                let mut out = vec![];
                let l = L::<&[$U]>::try_from(d).map_err(|e| format!("message: {e}"))?;
                {
                    let (fields, content) = leaf_reads::<$U, _>($K.spec(), &l);
                    let view = View {
                        member: $K.spec().name,
                        data: Data::data(&l).to_vec(),
                        packets: pkts_of!($U, &l),
                        fields,
                        content,
                        group: opt!($g, u8::from(Grouped::group(&l))),
                        channel: opt!($c, u8::from(Channeled::channel(&l))),
                        flex: opt!($x, { use midi2::flex_data::FlexDataMessage; (bank_code(l.bank()), l.status()) }),
                    };
                    let dbg = format!("{l:?}");
                    out.push(Seen { route: "message", view, leaf_dbg: dbg.clone(), dbg });
                }
                fn fam<B: FamBuf<$U>>(route: &'static str, f: &F<B>) -> Seen<$U> where F<B>: FamView<$U> + std::fmt::Debug {
                    Seen { route, view: f.view(), dbg: format!("{f:?}"), leaf_dbg: f.leaf_dbg() }
                }
                fn all<B: FamBuf<$U>>(route: &'static str, a: &A<B>) -> Seen<$U> where A<B>: FamView<$U> + std::fmt::Debug {
                    Seen { route, view: a.view(), dbg: format!("{a:?}"), leaf_dbg: a.leaf_dbg() }
                }
                let f1: F<&[$U]> = F::from(l.clone());
                out.push(fam("family from message", &f1));
                let f2 = F::<&[$U]>::try_from(d).map_err(|e| format!("family parse: {e}"))?;
                out.push(fam("family parse", &f2));
                let a1: A<&[$U]> = A::from(f1.clone());
                out.push(all("all from family", &a1));
                let a2 = A::<&[$U]>::try_from(d).map_err(|e| format!("all-message parse: {e}"))?;
                out.push(all("all parse", &a2));
                let a0: A<&[$U]> = A::from(l.clone());
                out.push(all("all from message", &a0));
                if a0 != a1 {
                    return Err("all-message from message and all-message from family differ".into());
                }
                if f1 != f2 {
                    return Err("family from message and family parse differ".into());
                }
                if a1 != a2 {
                    return Err("all-message from family and all-message parse differ".into());
                }
                let v: L<Vec<$U>> = l.rebuffer_into();
                let fv: F<Vec<$U>> = v.into();
                out.push(fam("family from owned message", &fv));
                let av: A<Vec<$U>> = fv.into();
                out.push(all("all from owned family", &av));
                Ok(out)
            }
            fn writes(&self, d: &[$U], ops: &[(bool, u8)]) -> Vec<(&'static str, Vec<$U>)> {
                type L<B> = midi2::$m::$V<B>;
                type F<B> = midi2::$m::$E<B>;
                let l = L::<&[$U]>::try_from(d).expect("harness: writes");
                let mut a: L<Vec<$U>> = l.clone().rebuffer_into();
                let mut b: F<Vec<$U>> = a.clone().into();
                let arr: Result<L<[$U; ARR_BIG]>, _> = l.try_rebuffer_into();
                let mut c: Option<F<[$U; ARR_BIG]>> = arr.ok().map(|x| x.into());
                for &(ch, v) in ops {
                    let v = u4::new(v);
                    let _ = v;
                    if ch {
                        when!($c, { a.set_channel(v); b.set_channel(v); if let Some(c) = &mut c { c.set_channel(v); } });
                    } else {
                        when!($g, { a.set_group(v); b.set_group(v); if let Some(c) = &mut c { c.set_group(v); } });
                    }
                }
                let mut out = vec![("message", Data::data(&a).to_vec()), ("family in a vector", Data::data(&b).to_vec())];
                if let Some(c) = &c {
                    out.push(("family in an array", Data::data(c).to_vec()));
                }
                let _ = (&mut a, &mut b, &mut c);
                out
            }
            fn moves(&self, d: &[$U]) -> Vec<Moved<$U>> {
                type F<B> = midi2::$m::$E<B>;
                type A<B> = midi2::$All<B>;
                let f = F::<&[$U]>::try_from(d).expect("harness: moves");
                let a = A::<&[$U]>::try_from(d).expect("harness: moves");
                let mut out: Vec<Moved<$U>> = vec![];
                let x: F<Grow<$U>> = f.clone().rebuffer_into();
                let x: F<Vec<$U>> = x.rebuffer_into();
                out.push(("family>vec", None, Some(x.view())));
                let y: Result<F<[$U; ARR_BIG]>, _> = x.clone().try_rebuffer_into();
                out.push(("family vec>[29]", Some(ARR_BIG), y.ok().map(|y| y.view())));
                let y: Result<F<[$U; 4]>, _> = f.clone().try_rebuffer_into();
                out.push(("family>[4]", Some(4), y.ok().map(|y| y.view())));
                let y: Result<F<Fix<$U>>, _> = f.clone().try_rebuffer_into();
                out.push(("family>Fix", Some(usize::MAX), y.ok().map(|y| y.view())));
                let x: A<Grow<$U>> = a.clone().rebuffer_into();
                let x: A<Vec<$U>> = x.rebuffer_into();
                out.push(("all>vec", None, Some(x.view())));
                let y: Result<A<[$U; ARR_BIG]>, _> = x.try_rebuffer_into();
                out.push(("all vec>[29]", Some(ARR_BIG), y.clone().ok().map(|y| y.view())));
                if let Ok(y) = y {
                    let z: A<Vec<$U>> = y.rebuffer_into();
                    out.push(("all [29]>vec", None, Some(z.view())));
                }
                let y: Result<A<Shr<$U>>, _> = a.clone().try_rebuffer_into();
                out.push(("all>Shr", Some(usize::MAX), y.ok().map(|y| y.view())));
                let y: Result<A<[$U; 2]>, _> = a.try_rebuffer_into();
                out.push(("all>[2]", Some(2), y.ok().map(|y| y.view())));
                out
            }
        }
    };
}

/// buffers of one unit type that can be used in either representation's aggregates
pub trait FamBuf<U: Un>: midi2::buffer::Buffer<Unit = U> {}
impl<U: Un, B: midi2::buffer::Buffer<Unit = U>> FamBuf<U> for B {}

include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/agg_tables.rs"));

macro_rules! all_view {
    ($E:ident $U:tt $Bound:ident; $($V:ident),*; $($S:ident $K:ident),*) => {
        impl<B: $Bound> FamView<$U> for midi2::$E<B> {
            fn view(&self) -> View<$U> {
                use midi2::$E as E;
                #[allow(unreachable_patterns)]
                let mut v: View<$U> = match self {
                    $( E::$V(x) => FamView::<$U>::view(x), )*
                    $( E::$S(x) => all_view!(@sysex $U x $K), )*
                    _ => panic!("an all-message variant unknown to this harness"),
                };
                v.data = Data::data(self).to_vec();
                v.packets = pkts_of!($U, self);
                v
            }
            fn leaf_dbg(&self) -> String {
                use midi2::$E as E;
                #[allow(unreachable_patterns)]
                match self {
                    $( E::$V(x) => FamView::<$U>::leaf_dbg(x), )*
                    $( E::$S(x) => format!("{x:?}"), )*
                    _ => String::new(),
                }
            }
        }
    };
    (@sysex u32 $x:ident $K:ident) => {{
        let (fields, content) = leaf_reads::<u32, _>($K.spec(), &*$x);
        View { member: $K.spec().name, data: vec![], packets: None, fields, content, group: Some(u8::from($x.group())), channel: None, flex: None }
    }};
    (@sysex u8 $x:ident $K:ident) => {{
        let (fields, content) = leaf_reads::<u8, _>($K.spec(), &*$x);
        View { member: $K.spec().name, data: vec![], packets: None, fields, content, group: None, channel: None, flex: None }
    }};
}
all_view!(UmpMessage u32 Ump; FlexData, ChannelVoice1, ChannelVoice2, SystemCommon, UmpStream, Utility; Sysex7 KS7Sysex7, Sysex8 KS8Sysex8);
all_view!(BytesMessage u8 Bytes; ChannelVoice1, SystemCommon; Sysex7 KS7Sysex7B);

macro_rules! sysex_agg {
    ($K:ident, $L:ident $m:ident, $U:tt, $All:ident, $g:ident) => {
        impl Agg<$U> for $K {
            fn kit(&self) -> &'static dyn Kit<$U> {
                &$K
            }
            fn routes(&self, d: &[$U]) -> Result<Vec<Seen<$U>>, String> {
                type L<B> = midi2::$m::$L<B>;
                type A<B> = midi2::$All<B>;
                let l = L::<&[$U]>::try_from(d).map_err(|e| format!("message: {e}"))?;
                let lr = &l;
                let mut view: View<$U> = all_view!(@sysex $U lr $K);
                view.data = Data::data(&l).to_vec();
                view.packets = pkts_of!($U, &l);
                let dbg = format!("{l:?}");
                let mut out = vec![Seen { route: "message", view, leaf_dbg: dbg.clone(), dbg }];
                fn all<B: FamBuf<$U>>(route: &'static str, a: &A<B>) -> Seen<$U> where A<B>: FamView<$U> + std::fmt::Debug {
                    Seen { route, view: a.view(), dbg: format!("{a:?}"), leaf_dbg: a.leaf_dbg() }
                }
                let a1: A<&[$U]> = A::from(l.clone());
                out.push(all("all from message", &a1));
                let a2 = A::<&[$U]>::try_from(d).map_err(|e| format!("all-message parse: {e}"))?;
                out.push(all("all parse", &a2));
                if a1 != a2 {
                    return Err("all-message from message and all-message parse differ".into());
                }
                let v: L<Vec<$U>> = l.rebuffer_into();
                let av: A<Vec<$U>> = v.into();
                out.push(all("all from owned message", &av));
                Ok(out)
            }
            fn writes(&self, _: &[$U], _: &[(bool, u8)]) -> Vec<(&'static str, Vec<$U>)> {
                vec![]
            }
            fn moves(&self, d: &[$U]) -> Vec<Moved<$U>> {
                type A<B> = midi2::$All<B>;
                let a = A::<&[$U]>::try_from(d).expect("harness: moves");
                let mut out: Vec<Moved<$U>> = vec![];
                let x: A<Grow<$U>> = a.clone().rebuffer_into();
                let x: A<Vec<$U>> = x.rebuffer_into();
                out.push(("all>vec", None, Some(x.view())));
                let y: Result<A<[$U; ARR_BIG]>, _> = x.try_rebuffer_into();
                out.push(("all vec>[29]", Some(ARR_BIG), y.clone().ok().map(|y| y.view())));
                if let Ok(y) = y {
                    let z: A<Vec<$U>> = y.rebuffer_into();
                    out.push(("all [29]>vec", None, Some(z.view())));
                }
                let y: Result<A<Shr<$U>>, _> = a.clone().try_rebuffer_into();
                out.push(("all>Shr", Some(usize::MAX), y.ok().map(|y| y.view())));
                let y: Result<A<[$U; 4]>, _> = a.try_rebuffer_into();
                out.push(("all>[4]", Some(4), y.ok().map(|y| y.view())));
                out
            }
        }
    };
}
sysex_agg!(KS7Sysex7, Sysex7 sysex7, u32, UmpMessage, yes);
sysex_agg!(KS8Sysex8, Sysex8 sysex8, u32, UmpMessage, yes);
sysex_agg!(KS7Sysex7B, Sysex7 sysex7, u8, BytesMessage, no);

/// aggregates of one representation
pub trait AggModel: Model {
    fn aggs() -> &'static [&'static dyn Agg<Self>];
    fn parse_all(d: &[Self]) -> Parsed<Self>;
    /// (family name, members' module prefix, result)
    fn parse_families(d: &[Self]) -> Vec<(&'static str, Parsed<Self>)>;
}
fn short<U: Un, T: FamView<U>, E>(r: Result<T, E>) -> Parsed<U> {
    r.ok().map(|x| {
        let v = x.view();
        (v.member, v.data)
    })
}
impl AggModel for u32 {
    fn aggs() -> &'static [&'static dyn Agg<u32>] {
        UAGGS
    }
    fn parse_all(d: &[u32]) -> Parsed<u32> {
        short(midi2::UmpMessage::<&[u32]>::try_from(d))
    }
    fn parse_families(d: &[u32]) -> Vec<(&'static str, Parsed<u32>)> {
        vec![
            ("channel_voice1::", short::<u32, _, _>(midi2::channel_voice1::ChannelVoice1::<&[u32]>::try_from(d))),
            ("channel_voice2::", short(midi2::channel_voice2::ChannelVoice2::<&[u32]>::try_from(d))),
            ("system_common::", short::<u32, _, _>(midi2::system_common::SystemCommon::<&[u32]>::try_from(d))),
            ("flex_data::", short(midi2::flex_data::FlexData::<&[u32]>::try_from(d))),
            ("ump_stream::", short(midi2::ump_stream::UmpStream::<&[u32]>::try_from(d))),
            ("utility::", short(midi2::utility::Utility::<&[u32]>::try_from(d))),
        ]
    }
}
impl AggModel for u8 {
    fn aggs() -> &'static [&'static dyn Agg<u8>] {
        BAGGS
    }
    fn parse_all(d: &[u8]) -> Parsed<u8> {
        short(midi2::BytesMessage::<&[u8]>::try_from(d))
    }
    fn parse_families(d: &[u8]) -> Vec<(&'static str, Parsed<u8>)> {
        vec![
            ("channel_voice1::", short::<u8, _, _>(midi2::channel_voice1::ChannelVoice1::<&[u8]>::try_from(d))),
            ("system_common::", short::<u8, _, _>(midi2::system_common::SystemCommon::<&[u8]>::try_from(d))),
        ]
    }
}
pub fn choose_agg<U: AggModel>(c: &mut Ctx) -> &'static dyn Agg<U> {
    let n = U::aggs().len() as u64;
    let a = U::aggs()[(c.idx % n) as usize];
    c.key = hash_str(a.kit().spec().name);
    c.note(|| a.kit().spec().name.to_string());
    a
}

// ---------------------------------------------------------------- C02 / C03, aggregates

pub fn c02_agg<U: AggModel>(c: &mut Ctx) -> R {
    let a = choose_agg::<U>(c);
    let s = a.kit().spec();
    let (d, _) = gen_input::<U>(c, s);
    c.note(|| hx(&d));
    // reference: which member types are well-formed here
    let mut want: Parsed<U> = None;
    for k in U::kits() {
        if let Some(n) = U::accept(k.spec(), &d) {
            want = Some((k.spec().name, d[..n].to_vec()));
            break;
        }
    }
    c.hit(if want.is_some() { "well-formed" } else { "ill-formed" });
    let show = |p: &Parsed<U>| match p {
        None => "rejected".to_string(),
        Some((m, d)) => format!("{m} {}", hx(d)),
    };
    let got = U::parse_all(&d);
    ensure!(got == want, format!("all-message:{}", s.name), "all-message of {}: expected {}, got {}", hx(&d), show(&want), show(&got));
    for (fam, got) in U::parse_families(&d) {
        let w = want.clone().filter(|(m, _)| m.starts_with(fam));
        ensure!(got == w, format!("family:{fam}{}", s.name), "{fam} aggregate of {}: expected {}, got {}", hx(&d), show(&w), show(&got));
    }
    Ok(())
}

// ---------------------------------------------------------------- C16, aggregates

pub fn c16_agg<U: AggModel>(c: &mut Ctx) -> R {
    let a = choose_agg::<U>(c);
    let s = a.kit().spec();
    let g = crate::long::gen_any::<U>(&mut c.s, s, max_content(s));
    let mut d = g.units.clone();
    if c.s.chance(1, 2) {
        d.extend(gen_tail::<U>(&mut c.s, s, d.len()));
    }
    if d.len() > CUSTOM_MAX || a.kit().parse(&d).is_err() {
        return Ok(());
    }
    let capn = if c.s.chance(1, 2) { d.len() + c.s.us(5) } else { c.s.us(d.len() + 1) };
    set_default_cap(capn);
    c.note(|| format!("{} cap {capn}", hx(&d)));
    let seen = match a.routes(&d) {
        Ok(s) => s,
        Err(e) => return fail(format!("agg-routes:{}", s.name), format!("{} of {}: {e}", s.name, hx(&d))),
    };
    c.hit("moved");
    for (name, cap, v) in a.moves(&d) {
        let cap = cap.map(|x| if x == usize::MAX { capn } else { x });
        let fits = cap.map_or(true, |x| d.len() <= x);
        match v {
            None => {
                c.tag("overflow");
                ensure!(!fits, format!("agg-overflow:{name}"), "{} {name}: {} units should fit in {:?}", s.name, d.len(), cap)
            }
            Some(v) => {
                ensure!(fits, format!("agg-missing-overflow:{name}"), "{} {name}: {} units cannot fit in {:?}", s.name, d.len(), cap);
                ensure!(v == seen[0].view, format!("agg-moved:{name}"), "{} {name}: reads {:?} after the move, {:?} before", s.name, v, seen[0].view);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

pub fn c17<U: AggModel>(c: &mut Ctx) -> R {
    let a = choose_agg::<U>(c);
    let s = a.kit().spec();
    let g = crate::long::gen_any::<U>(&mut c.s, s, max_content(s));
    let mut d = g.units.clone();
    if c.s.chance(1, 2) {
        d.extend(gen_tail::<U>(&mut c.s, s, d.len()));
    }
    c.note(|| hx(&d));
    let seen = match a.routes(&d) {
        Ok(s) => s,
        Err(e) => return fail(format!("rejected:{}", s.name), format!("{} of {}: {e}", s.name, hx(&d))),
    };
    c.hit("wrapped");
    let m = M::loaded(s, &g.units, &g.content);
    let base = &seen[0];
    // the message itself, against the wire
    for (i, f) in s.fields.iter().enumerate() {
        same!(base.view.fields[i], reading(f, &m.units), format!("field:{}.{}", s.name, f.name), "{} {}", s.name, f.name);
    }
    if let Some(g) = base.view.group {
        same!(g as u32, m.units[0].to32() >> 24 & 0xF, format!("group:{}", s.name), "{} group of {}", s.name, hx(&d));
    }
    if let Some(ch) = base.view.channel {
        let w = if U::BITS == 8 { m.units[0].to32() & 0xF } else { m.units[0].to32() >> 16 & 0xF };
        same!(ch as u32, w, format!("channel:{}", s.name), "{} channel of {}", s.name, hx(&d));
    }
    if let Some((b, st)) = base.view.flex {
        let w = m.units[0].to32();
        same!((b as u32, st as u32), (w >> 8 & 0xFF, w & 0xFF), format!("flex:{}", s.name), "{} bank and status of {}", s.name, hx(&d));
    }
    for x in &seen[1..] {
        ensure!(x.view == base.view, format!("differs:{}:{}", x.route, s.name), "{} of {}: {} reads {:?}, the message reads {:?}", s.name, hx(&d), x.route, x.view, base.view);
        ensure!(x.dbg.contains(&x.leaf_dbg), format!("debug:{}:{}", x.route, s.name), "{}: {} is rendered {} which does not show {}", s.name, x.route, x.dbg, x.leaf_dbg);
        if !x.route.contains("owned") {
            same!(x.leaf_dbg, base.leaf_dbg, format!("debug-leaf:{}:{}", x.route, s.name), "{} {}", s.name, x.route);
        }
    }
    let n = 1 + c.s.us(4);
    let ops: Vec<(bool, u8)> = (0..n).map(|_| (c.s.chance(1, 2), c.s.bits(4) as u8)).collect();
    let w = a.writes(&g.units, &ops);
    if let Some((_, want)) = w.first() {
        c.tag("written");
        for (r, d) in &w[1..] {
            same!(hx(d), hx(want), format!("writes:{}:{}", r, s.name), "{} {:?}: {r} against the message", s.name, ops);
        }
    }
    Ok(())
}
