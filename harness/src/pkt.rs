//! Packets: the pieces messages are made of, as parsed and read through the packet types.
use crate::engine::*;
use crate::hist::*;
use crate::model::*;
use crate::props_a::*;
use crate::types::*;
use midi2::prelude::*;

/// what a packet type says about a packet
#[derive(Clone, Debug, PartialEq, Default)]
pub struct PView {
    pub words: Vec<u32>,
    pub group: Option<u8>,
    pub channel: Option<u8>,
    /// 0 complete, 1 start, 2 continue, 3 end, 4 unexpected end (valid), 5 unexpected end (invalid)
    pub status: Option<u8>,
    pub stream_id: Option<u8>,
    pub payload: Option<Vec<u8>>,
}
pub struct PSeen {
    pub view: PView,
    pub dbg: String,
    /// words after writing the group / channel
    pub with_group: Option<Vec<u32>>,
    pub with_channel: Option<Vec<u32>>,
    pub driven: Option<Vec<ItObs>>,
    pub eq_self: bool,
}

/// the status enums of the sysex packets are not nameable from outside the crate
fn status(s: impl std::fmt::Debug) -> u8 {
    match format!("{s:?}").as_str() {
        "Complete" => 0,
        "Start" => 1,
        "Continue" => 2,
        "End" => 3,
        "UnexpectedEnd(Valid)" => 4,
        "UnexpectedEnd(Invalid)" => 5,
        _ => 9,
    }
}
fn ff(s: midi2::flex_data::Format) -> u8 {
    use midi2::flex_data::Format::*;
    match s {
        Complete => 0,
        Start => 1,
        Continue => 2,
        End => 3,
    }
}
fn sf(s: midi2::ump_stream::Format) -> u8 {
    use midi2::ump_stream::Format::*;
    match s {
        Complete => 0,
        Start => 1,
        Continue => 2,
        End => 3,
    }
}

macro_rules! grp {
    ($p:ident, $seen:ident, $g:expr) => {{
        $seen.view.group = Some(u8::from($p.group()));
        let mut q = $p.clone();
        q.set_group(u4::new($g));
        $seen.with_group = Some(q.to_vec());
    }};
}
macro_rules! chn {
    ($p:ident, $seen:ident, $c:expr) => {{
        $seen.view.channel = Some(u8::from($p.channel()));
        let mut q = $p.clone();
        q.set_channel(u4::new($c));
        $seen.with_channel = Some(q.to_vec());
    }};
}

/// parse `d` as a packet of family `fam`
pub fn see(fam: Fam, d: &[u32], g: u8, ch: u8, ops: &[ItOp]) -> Option<PSeen> {
    let mut seen = PSeen { view: PView::default(), dbg: String::new(), with_group: None, with_channel: None, driven: None, eq_self: false };
    macro_rules! base {
        ($t:path) => {{
            type P = $t;
            let Ok(p) = P::try_from(d) else { return None };
            seen.view.words = p.to_vec();
            seen.dbg = format!("{p:?}");
            seen.eq_self = p == p.clone();
            p
        }};
    }
    match fam {
        Fam::Cv1 => {
            let p = base!(midi2::channel_voice1::Packet);
            grp!(p, seen, g);
            chn!(p, seen, ch);
        }
        Fam::Cv2 => {
            let p = base!(midi2::channel_voice2::Packet);
            grp!(p, seen, g);
            chn!(p, seen, ch);
        }
        Fam::Sc => {
            let p = base!(midi2::system_common::Packet);
            grp!(p, seen, g);
        }
        Fam::Ut => {
            base!(midi2::utility::Packet);
        }
        Fam::Flex => {
            let p = base!(midi2::flex_data::Packet);
            grp!(p, seen, g);
            seen.view.status = Some(ff(p.format()));
        }
        Fam::Stream => {
            let p = base!(midi2::ump_stream::Packet);
            seen.view.status = Some(sf(p.format()));
        }
        Fam::S7 => {
            let p = base!(midi2::sysex7::Packet);
            grp!(p, seen, g);
            seen.view.status = Some(status(p.status()));
            seen.view.payload = Some(p.payload().map(u8::from).collect());
            seen.driven = Some(drive_noclone(p.payload(), ops, |b| u8::from(b) as u64, Some(|i| i.len())));
        }
        Fam::S8 => {
            let p = base!(midi2::sysex8::Packet);
            grp!(p, seen, g);
            seen.view.status = Some(status(p.status()));
            seen.view.stream_id = Some(p.stream_id());
            seen.view.payload = Some(p.payload().collect());
            seen.driven = Some(drive_noclone(p.payload(), ops, |b| b as u64, Some(|i| i.len())));
        }
    }
    Some(seen)
}

pub const FAMS: [Fam; 8] = [Fam::Cv1, Fam::Cv2, Fam::Sc, Fam::Ut, Fam::Flex, Fam::Stream, Fam::S7, Fam::S8];
pub fn words_of(f: Fam) -> usize {
    packet_words(type_nibble(f))
}
fn grouped(f: Fam) -> bool {
    !matches!(f, Fam::Ut | Fam::Stream)
}
fn channeled(f: Fam) -> bool {
    matches!(f, Fam::Cv1 | Fam::Cv2)
}

/// the packet types' reading of one whole packet, per the wire tables. Err: not a packet of the family
pub fn reference(f: Fam, d: &[u32]) -> Result<PView, ()> {
    let n = words_of(f);
    if d.len() < n || d[0] >> 28 != type_nibble(f) {
        return Err(());
    }
    let p = &d[..n];
    let st = p[0] >> 20 & 0xF;
    let sz = (p[0] >> 16 & 0xF) as usize;
    let mut v = PView { words: p.to_vec(), ..PView::default() };
    if grouped(f) {
        v.group = Some((p[0] >> 24 & 0xF) as u8);
    }
    if channeled(f) {
        v.channel = Some((p[0] >> 16 & 0xF) as u8);
    }
    match f {
        Fam::Flex => v.status = Some((p[0] >> 22 & 3) as u8),
        Fam::Stream => v.status = Some((p[0] >> 26 & 3) as u8),
        Fam::S7 => {
            if st > 3 || sz > 6 {
                return Err(());
            }
            v.status = Some(st as u8);
            v.payload = Some(octets(Shape::Sysex7)[..sz].iter().map(|o| octet_at(p, *o) & 0x7F).collect());
        }
        Fam::S8 => {
            if st > 3 {
                return Err(());
            }
            let blank = p[0] & 0xFF == 0 && p[1..].iter().all(|w| *w == 0);
            let invalid_end = st == 3 && sz == 15 && blank;
            if !(1..=14).contains(&sz) && !invalid_end {
                return Err(());
            }
            v.status = Some(if invalid_end {
                5
            } else if st == 3 && sz == 1 && blank {
                4
            } else {
                st as u8
            });
            v.stream_id = Some((p[0] >> 8) as u8);
            v.payload = Some(if invalid_end { vec![] } else { octets(Shape::Sysex8)[..sz - 1].iter().map(|o| octet_at(p, *o)).collect() });
        }
        _ => {}
    }
    Ok(v)
}
pub fn gen_words(src: &mut Src, f: Fam) -> Vec<u32> {
    let n = match src.us(8) {
        0 => src.us(6),
        1 => words_of(f) + 1 + src.us(5),
        _ => words_of(f),
    };
    let mut d: Vec<u32> = (0..n).map(|_| src.word()).collect();
    if let Some(w) = d.first_mut() {
        if !src.chance(1, 10) {
            *w = *w & 0x0FFF_FFFF | type_nibble(f) << 28;
        }
        if matches!(f, Fam::S7 | Fam::S8) {
            if src.chance(3, 4) {
                *w = *w & 0xFF0F_FFFF | (src.us(4) as u32) << 20;
            }
            match src.us(4) {
                0 => {}
                1 => *w = *w & 0xFFF0_FFFF | (src.us(16) as u32) << 16,
                _ => *w = *w & 0xFFF0_FFFF | (src.us(words_of(f) * 4 - 1) as u32) << 16,
            }
        }
    }
    if f == Fam::S8 && src.chance(1, 8) && d.len() >= 4 {
        // unexpected end forms
        d[0] = d[0] & 0xFF00_FF00 | 0x0030_0000 | if src.chance(1, 2) { 0x1_0000 } else { 0xF_0000 };
        for w in &mut d[1..] {
            *w = 0;
        }
        if src.chance(1, 2) {
            // all but blank: a data byte, the last one among them, is not zero
            let o = if src.chance(1, 3) { 12 } else { src.us(13) };
            let o = octets(Shape::Sysex8)[o];
            d[o.0] |= (1 + src.us(255) as u32) << o.1;
        }
    }
    d
}

pub fn c11_packet(c: &mut Ctx) -> R {
    let f = FAMS[(c.idx % 8) as usize];
    let d = gen_words(&mut c.s, f);
    let (g, ch) = (c.s.bits(4) as u8, c.s.bits(4) as u8);
    c.note(|| format!("{f:?} {}", hx(&d)));
    let want = reference(f, &d);
    let got = see(f, &d, g, ch, &[]);
    if d.is_empty() || d.first().map_or(false, |w| w >> 28 != type_nibble(f)) {
        c.hit("other type");
        ensure!(got.is_none(), format!("accepts:{f:?}"), "{f:?} packet from {}", hx(&d));
        return Ok(());
    }
    let n = words_of(f);
    if d.len() < n {
        c.hit("short");
        // acceptance of cut packets is not specified; what is accepted must be the given words
        if let Some(s) = got {
            let mut w = d.clone();
            w.resize(n, 0);
            same!(hx(&s.view.words), hx(&w), format!("short:{f:?}"), "{f:?} packet from {}", hx(&d));
        }
        return Ok(());
    }
    match (want, got) {
        (Err(()), None) => {
            c.hit("ill-formed");
            Ok(())
        }
        (Err(()), Some(_)) => fail(format!("accepts:{f:?}"), format!("{f:?} packet accepts {}", hx(&d))),
        (Ok(_), None) => fail(format!("rejects:{f:?}"), format!("{f:?} packet rejects {}", hx(&d))),
        (Ok(w), Some(s)) => {
            c.hit("packet");
            check_packet(f, &w, &s, g, ch)
        }
    }
}
fn check_packet(f: Fam, w: &PView, s: &PSeen, g: u8, ch: u8) -> R {
    let at = hx(&w.words);
    same!(hx(&s.view.words), hx(&w.words), format!("words:{f:?}"), "{f:?} packet {at} words");
    same!(s.view.group, w.group, format!("group:{f:?}"), "{f:?} packet {at} group");
    same!(s.view.channel, w.channel, format!("channel:{f:?}"), "{f:?} packet {at} channel");
    same!(s.view.status, w.status, format!("status:{f:?}"), "{f:?} packet {at} status / format");
    same!(s.view.stream_id, w.stream_id, format!("stream-id:{f:?}"), "{f:?} packet {at} stream id");
    same!(s.view.payload, w.payload, format!("payload:{f:?}"), "{f:?} packet {at} payload");
    ensure!(s.eq_self, format!("eq:{f:?}"), "{f:?} packet {at} differs from its clone");
    for x in &w.words {
        ensure!(s.dbg.contains(&format!("{x:08X}")), format!("debug:{f:?}"), "{f:?} packet {at} is rendered {}", s.dbg);
    }
    if let Some(d) = &s.with_group {
        let mut e = w.words.clone();
        e[0] = e[0] & 0xF0FF_FFFF | (g as u32) << 24;
        same!(hx(d), hx(&e), format!("set-group:{f:?}"), "{f:?} packet {at} with group {g:X}");
    }
    if let Some(d) = &s.with_channel {
        let mut e = w.words.clone();
        e[0] = e[0] & 0xFFF0_FFFF | (ch as u32) << 16;
        same!(hx(d), hx(&e), format!("set-channel:{f:?}"), "{f:?} packet {at} with channel {ch:X}");
    }
    Ok(())
}

/// the type of the items of [midi2::PacketsIterator], which has no name of its own
pub type AnyPacket = <midi2::PacketsIterator<'static> as Iterator>::Item;
fn family_of(p: &AnyPacket) -> Fam {
    match p {
        AnyPacket::ChannelVoice1(_) => Fam::Cv1,
        AnyPacket::ChannelVoice2(_) => Fam::Cv2,
        AnyPacket::FlexData(_) => Fam::Flex,
        AnyPacket::Sysex7(_) => Fam::S7,
        AnyPacket::Sysex8(_) => Fam::S8,
        AnyPacket::SystemCommon(_) => Fam::Sc,
        AnyPacket::UmpStream(_) => Fam::Stream,
        AnyPacket::Utility(_) => Fam::Ut,
    }
}
/// a packet of any family, the family told by the message type
pub fn c11_any(c: &mut Ctx) -> R {
    let f = FAMS[(c.idx % 8) as usize];
    let d = gen_words(&mut c.s, f);
    c.note(|| hx(&d));
    let got = AnyPacket::try_from(&d[..]);
    let f = d.first().and_then(|w| FAMS.iter().find(|f| type_nibble(**f) == w >> 28));
    let Some(&f) = f else {
        c.hit(if d.is_empty() { "empty" } else { "reserved type" });
        ensure!(got.is_err(), "accepts:any", "a packet from {}", hx(&d));
        return Ok(());
    };
    // whatever the packet type of the family says
    let own = see(f, &d, 0, 0, &[]);
    c.hit(if own.is_some() { "packet" } else { "rejected" });
    ensure!(got.is_ok() == own.is_some(), format!("any:{f:?}"), "packet from {}: {:?}, as {f:?} packet: {}", hx(&d), got, own.is_some());
    if let (Ok(p), Some(own)) = (got, own) {
        same!(family_of(&p), f, "any-family", "family of the packet {}", hx(&d));
        same!(hx(&p), hx(&own.view.words), format!("any-words:{f:?}"), "words of the packet {}", hx(&d));
    }
    Ok(())
}

/// the packets of one message object
pub fn check_partition(c: &mut Ctx, o: &dyn Obj<u32>, m: &M<u32>) -> R {
    let s = m.s;
    let d = o.data().to_vec();
    let Some(ps) = o.packets() else { return Ok(()) };
    let n = stride(s);
    let joined: Vec<u32> = ps.iter().flatten().copied().collect();
    let mut want = d.clone();
    if s.min < n && d.len() < n {
        want.resize(n, 0); // the one-word FunctionBlockDiscovery
    }
    for p in &ps {
        same!(p.len(), n, format!("packet-size:{}", s.name), "{} packet {} of {}", s.name, hx(p), hx(&d));
    }
    same!(hx(&joined), hx(&want), format!("partition:{}", s.name), "{} packets of {}", s.name, hx(&d));
    c.tag(if ps.len() > 1 { "several packets" } else { "one packet" });
    let (g, ch) = (c.s.bits(4) as u8, c.s.bits(4) as u8);
    let mut payload = vec![];
    let group = s.fields.iter().position(|f| f.name == "group").map(|i| o.get(i) as u8);
    let channel = s.fields.iter().position(|f| f.name == "channel").map(|i| o.get(i) as u8);
    let stream = s.fields.iter().position(|f| f.name == "stream_id").map(|i| o.get(i) as u8);
    for (i, p) in ps.iter().enumerate() {
        let Some(seen) = see(s.fam, p, g, ch, &[]) else {
            return fail(format!("packet-rejected:{}", s.name), format!("{}: packet {} of {} is not accepted as a packet", s.name, hx(p), hx(&d)));
        };
        let Ok(w) = reference(s.fam, p) else {
            return fail(format!("packet-ill-formed:{}", s.name), format!("{}: packet {} of {} is ill-formed", s.name, hx(p), hx(&d)));
        };
        check_packet(s.fam, &w, &seen, g, ch)?;
        if let (Some(a), Some(b)) = (seen.view.group, group) {
            same!(a, b, format!("packet-group:{}", s.name), "{}: packet {} against the message's group", s.name, hx(p));
        }
        if let (Some(a), Some(b)) = (seen.view.channel, channel) {
            same!(a, b, format!("packet-channel:{}", s.name), "{}: packet {} against the message's channel", s.name, hx(p));
        }
        if let (Some(a), Some(b)) = (seen.view.stream_id, stream) {
            same!(a, b, format!("packet-stream:{}", s.name), "{}: packet {} against the message's stream id", s.name, hx(p));
        }
        if let Some(st) = seen.view.status {
            if s.shape != Shape::Fixed {
                let want = match (i == 0, i + 1 == ps.len()) {
                    (true, true) => 0,
                    (true, false) => 1,
                    (false, false) => 2,
                    (false, true) => 3,
                };
                let st = if st >= 4 { 3 } else { st };
                same!(st, want, format!("packet-format:{}", s.name), "{}: format of packet {} ({}) of {}", s.name, i, hx(p), hx(&d));
            }
        }
        if let Some(b) = seen.view.payload {
            payload.extend(b);
        }
    }
    if is_sysex(s) {
        let oc = o.content();
        same!(Some(&payload), oc.bytes.as_ref(), format!("packet-payload:{}", s.name), "{}: payload of the packets of {}", s.name, hx(&d));
    }
    Ok(())
}

pub fn c11_parsed(c: &mut Ctx) -> R {
    let k = choose::<u32>(c, any);
    let s = k.spec();
    let g = crate::long::gen_any::<u32>(&mut c.s, s, max_content(s));
    let mut d = g.units.clone();
    if c.s.chance(1, 2) {
        d.extend(gen_tail::<u32>(&mut c.s, s, d.len()));
    }
    c.note(|| hx(&d));
    let Ok(o) = k.parse(&d) else { return Ok(()) };
    c.hit("parsed");
    let m = M::loaded(s, &g.units, &g.content);
    check_partition(c, &*o, &m)
}
pub fn c11_edited(c: &mut Ctx) -> R {
    let k = choose::<u32>(c, any);
    let s = k.spec();
    with_object(c, k, &MUTABLE, 120, &mut |c, o, m, cap| {
        for _ in 0..1 + c.s.us(4) {
            let Some(op) = gen_op(&mut c.s, s, m.content.len(), 100) else { break };
            c.note(|| show_op(s, &op));
            c.hit("edited");
            step(o, m, &op, cap, "op")?;
        }
        check_partition(c, o, m)
    })
}

/// C10 on the payload iterators of single packets
pub fn c10_packet(c: &mut Ctx) -> R {
    let f = if c.idx % 2 == 0 { Fam::S7 } else { Fam::S8 };
    let d = gen_words(&mut c.s, f);
    let ops: Vec<ItOp> = (0..1 + c.s.us(10)).map(|_| gen_itop(&mut c.s)).collect();
    c.note(|| format!("{f:?} {} {ops:?}", hx(&d)));
    if d.len() < words_of(f) {
        return Ok(());
    }
    let Ok(w) = reference(f, &d) else { return Ok(()) };
    let Some(s) = see(f, &d, 0, 0, &ops) else { return Ok(()) };
    c.hit("payload");
    let bytes: Vec<u64> = w.payload.unwrap().iter().map(|b| *b as u64).collect();
    judge_iter(&bytes, true, false, &ops, s.driven.as_ref().unwrap(), if f == Fam::S7 { "sysex7::Packet" } else { "sysex8::Packet" }, "payload")
}
