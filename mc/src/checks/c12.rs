//! Encode and decode: every message of honest conversations and its single- and double-field variations, every value of
//! every small field structure, every buffer size, and the byte reader and writer themselves.
use crate::explore::*;
use crate::model::*;
use crate::user::*;
use crate::world::*;
use codec::{Codec, Reader, Writer};
use spdmlib::common::{opaque, SpdmCodec, SpdmContext, SpdmOpaqueSupport};
use spdmlib::message::*;
use spdmlib::protocol::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// what the specification reserves in a message: (byte, mask) to be written as zero and ignored on input
fn reserved(v: u8, m: &[u8], sig: bool) -> Vec<(usize, u8)> {
    let mut r: Vec<(usize, u8)> = vec![];
    let mut all = |x: &[usize]| r.extend(x.iter().map(|i| (*i, 0xffu8)));
    match m[1] {
        0x84 => all(&[2, 3]),
        0x04 => all(&[2, 3, 4]),
        0xe1 if v == 0x10 => all(&[2, 3]),
        0xe1 | 0x61 => {
            all(&[2, 3, 4, 6, 7]);
            let k = if m[1] == 0xe1 { SpdmRequestCapabilityFlags::all().bits() } else { SpdmResponseCapabilityFlags::all().bits() };
            for (j, x) in k.to_le_bytes().iter().enumerate() {
                r.push((8 + j, !x));
            }
        }
        0xe3 | 0x63 => {
            let rsp = m[1] == 0x63;
            let (words, first) = if rsp { (8usize, 36usize) } else { (8, 32) };
            if rsp {
                all(&[3, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 34, 35]);
            } else {
                all(&[3, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 30, 31]);
            }
            if v < 0x11 {
                all(&[2]);
            }
            r.push((6, !SpdmMeasurementSpecification::all().bits()));
            r.push((7, if v >= 0x12 { !SpdmOpaqueSupport::all().bits() } else { 0xff }));
            let (h, a, mh) = (SpdmBaseHashAlgo::all().bits(), SpdmBaseAsymAlgo::all().bits(), SpdmMeasurementHashAlgo::all().bits());
            let w = if rsp { vec![mh, a, h] } else { vec![a, h] };
            for (i, k) in w.iter().enumerate() {
                for (j, x) in k.to_le_bytes().iter().enumerate() {
                    r.push((words + 4 * i + j, !x));
                }
            }
            let mut at = first;
            while at + 4 <= m.len() {
                let k = match m[at] {
                    2 => SpdmDheAlgo::all().bits(),
                    3 => SpdmAeadAlgo::all().bits(),
                    4 => SpdmReqAsymAlgo::all().bits(),
                    5 => SpdmKeyScheduleAlgo::all().bits(),
                    _ => 0,
                };
                r.push((at + 2, !(k as u8)));
                r.push((at + 3, !((k >> 8) as u8)));
                at += 4;
            }
        }
        0x81 => all(&[2, 3]),
        0x01 => all(&[2]),
        0x03 => r.push((2, 0x70)),
        0x82 | 0x02 => {
            all(&[3]);
            r.push((2, 0xf0));
        }
        0xe0 => {
            // the signature bit; raw bit stream from 1.2
            r.push((2, if v >= 0x12 { 0xfc } else { 0xfe }));
            if m[2] & 1 != 0 && m.len() > 36 {
                r.push((36, 0xf0));
            }
        }
        0x60 if !sig || v < 0x11 => r.push((3, 0xff)),
        0x60 => r.push((3, if v >= 0x12 { 0xc0 } else { 0xf0 })),
        0xe4 => {
            r.push((7, 0xff));
            if v < 0x12 {
                r.push((6, 0xff));
            }
        }
        0x64 => {
            r.push((3, 0xff));
            // (an undefined way of mutual authentication in byte 6 is refused)
            r.push((7, 0xf0));
        }
        0xe5 => {
            r.push((2, 0xfe));
        }
        0x65 | 0xe7 | 0x67 | 0xe8 | 0x68 | 0x6c => all(&[2, 3]),
        0xec => {
            r.push((2, 0xfe));
            r.push((3, 0xff));
        }
        0xe6 => all(&[3]),
        0x66 => all(&[3, 6, 7]),
        0xfe | 0x7e => all(&[2, 3]),
        0xea => all(&[2, 3]),
        0xeb => all(&[3]),
        0x6b => all(&[5, 6, 7]),
        _ => {}
    }
    r.retain(|x| x.0 < m.len());
    r
}
/// (byte, legal values) of enumerated fields: everything else is rejected or preserved
fn enums(v: u8, m: &[u8]) -> Vec<(usize, Vec<u8>)> {
    match m[1] {
        0xe0 => vec![(3, (0..=255).collect())],
        0x83 => vec![(2, (0..8).collect()), (3, vec![0, 1, 0xff])],
        0x82 => vec![(2, (0..8).collect())],
        0x02 => vec![(2, (0..8).collect())],
        0xe4 => vec![(2, vec![0, 1, 0xff]), (3, (0..8).collect())],
        0xe6 => vec![(2, vec![0, 1, 0xff])],
        0xe9 | 0x69 => vec![(2, vec![1, 2, 3]), (3, (0..=255).collect())],
        0x64 => vec![(2, (0..=255).collect())],
        0x66 => vec![(2, (0..=255).collect())],
        0x01 => vec![],
        0xec => vec![(2, vec![0, 1])],
        0x60 if v >= 0x12 => vec![(3, (0..8).flat_map(|s| (0..4).map(move |c| s | c << 4)).collect())],
        0x60 => vec![(3, (0..8).collect())],
        _ => vec![],
    }
}
struct Setup {
    name: String,
    cfg: Cfg,
    msgs: Vec<(String, Vec<u8>)>,
}
pub fn collect(cfg: &Cfg, rev: bool) -> Vec<(String, Vec<u8>)> {
    let out: Rc<RefCell<Vec<(String, Vec<u8>)>>> = Rc::new(RefCell::new(vec![]));
    let ops = long_history(cfg, rev);
    {
        let _w = World::new(cfg);
        let mut m = RefReq::new(cfg);
        let o = out.clone();
        m.tamper = Some(Box::new(move |t, q| o.borrow_mut().push((format!("{t} request"), q.clone()))));
        for op in &ops {
            let _ = m.op(op);
        }
    }
    {
        let (mut w, m) = RefRsp::new(cfg).world();
        let o = out.clone();
        m.borrow_mut().tamper = Some(Box::new(move |t, q| o.borrow_mut().push((format!("{t} response"), q.clone()))));
        for op in &ops {
            let _ = w.op(op);
        }
    }
    let v = out.borrow().clone();
    v
}
fn context<R>(w: &mut World, sum: bool, sig: bool, f: impl FnOnce(&mut SpdmContext) -> R) -> R {
    let c = &mut w.req.common;
    c.runtime_info.need_measurement_summary_hash = sum;
    c.runtime_info.need_measurement_signature = sig;
    f(c)
}
/// decode: the message, the bytes consumed
fn dec(c: &mut SpdmContext, b: &[u8]) -> Option<(SpdmMessage, usize)> {
    let keep = c.negotiate_info.clone();
    let mut r = Reader::init(b);
    let m = if b.len() > 1 && [0xfe, 0x7e, 0xea, 0x6a, 0xeb, 0x6b].contains(&b[1]) {
        // these are read by their handlers
        (|| {
            let header = SpdmMessageHeader::read(&mut r)?;
            let payload = match b[1] {
                0xfe => SpdmMessagePayload::SpdmVendorDefinedRequest(SpdmVendorDefinedRequestPayload::spdm_read(c, &mut r)?),
                0x7e => SpdmMessagePayload::SpdmVendorDefinedResponse(SpdmVendorDefinedResponsePayload::spdm_read(c, &mut r)?),
                #[cfg(feature = "mutauth")]
                0xea => SpdmMessagePayload::SpdmGetEncapsulatedRequestPayload(SpdmGetEncapsulatedRequestPayload::spdm_read(c, &mut r)?),
                #[cfg(feature = "mutauth")]
                0x6a => SpdmMessagePayload::SpdmEncapsulatedRequestPayload(SpdmEncapsulatedRequestPayload::spdm_read(c, &mut r)?),
                #[cfg(feature = "mutauth")]
                0xeb => SpdmMessagePayload::SpdmDeliverEncapsulatedResponsePayload(SpdmDeliverEncapsulatedResponsePayload::spdm_read(c, &mut r)?),
                #[cfg(feature = "mutauth")]
                0x6b => SpdmMessagePayload::SpdmEncapsulatedResponseAckPayload(SpdmEncapsulatedResponseAckPayload::spdm_read(c, &mut r)?),
                _ => return None,
            };
            Some(SpdmMessage { header, payload })
        })()
    } else {
        SpdmMessage::read_with_detailed_error(c, &mut r)
    };
    c.negotiate_info = keep;
    m.map(|m| (m, r.used()))
}
fn enc(c: &mut SpdmContext, m: &SpdmMessage, room: usize) -> Option<Vec<u8>> {
    let mut buf = vec![0xa5u8; room];
    let keep = c.negotiate_info.clone();
    let (r, n) = {
        let mut w = Writer::init(&mut buf);
        let r = m.spdm_encode(c, &mut w);
        (r, w.used())
    };
    c.negotiate_info = keep;
    match r {
        Ok(k) if k == n => {
            buf.truncate(n);
            Some(buf)
        }
        Ok(_) => Some(vec![]),
        Err(_) => None,
    }
}
/// decode what was read, encode it, decode and encode again
fn stable(c: &mut SpdmContext, b: &[u8], rs: Option<&[(usize, u8)]>) -> Result<Option<Vec<u8>>, (String, String)> {
    let (m, used) = match dec(c, b) {
        Some(x) => x,
        None => return Ok(None),
    };
    if used > b.len() {
        return Err(("overread".into(), format!("{used} of {}", b.len())));
    }
    let e = match enc(c, &m, 5000) {
        Some(e) => e,
        None => return Err(("no-encoding".into(), "what was decoded cannot be encoded".into())),
    };
    if e.len() != used {
        return Err(("length".into(), format!("decoded from {used} bytes, encoded as {}", e.len())));
    }
    if let Some(rs) = rs {
        for i in 0..used {
            // a reserved bit may be dropped or kept
            let mask = rs.iter().filter(|x| x.0 == i).map(|x| x.1).fold(0, |a, b| a | b);
            if (e[i] ^ b[i]) & !mask != 0 {
                return Err((format!("value-{i}"), format!("byte {i}: {:02x} decoded, {:02x} encoded", b[i], e[i])));
            }
        }
    }
    let (m2, u2) = match dec(c, &e) {
        Some(x) => x,
        None => return Err(("canonical".into(), "what was encoded cannot be decoded".into())),
    };
    if u2 != used || enc(c, &m2, 5000).as_ref() != Some(&e) {
        return Err(("round-trip".into(), "decoding the encoding gives something else".into()));
    }
    Ok(Some(e))
}

pub fn run(c: &Ctx) {
    messages(c);
    fields(c);
    opaque_lists(c);
    bytes(c);
}
fn messages(c: &Ctx) {
    let mut setups: Vec<Setup> = vec![];
    let mut cfgs: Vec<(String, Cfg)> = vec![];
    for v in [0x12u8, 0x11, 0x10] {
        cfgs.push((format!("{v:x}"), cfg_v(v, Tr::Mctp)));
    }
    for (i, (h, a, d, ae)) in [(1u32, 1u32, 8u16, 1u16), (2, 8, 16, 2), (4, 0x10, 8, 4), (2, 0x80, 8, 2), (4, 0x20, 0x10, 4), (1, 2, 8, 1)].iter().enumerate() {
        let mut k = cfg_v(if i % 2 == 0 { 0x12 } else { 0x11 }, Tr::Mctp);
        set_algs(&mut k, *h, *a, *d, *ae);
        if std::panic::catch_unwind(|| expected_neg(&k)).ok().flatten().is_some() {
            cfgs.push((format!("algs{i}"), k));
        }
    }
    for (n, cfg) in cfgs {
        let mut ms = collect(&cfg, false);
        ms.extend(collect(&cfg, true));
        // shapes once: code, length, first bytes
        let mut seen = BTreeSet::new();
        for (_, m) in ms.iter_mut() {
            // what is encapsulated is a message of its own
            match m[1] {
                0xeb => m.truncate(4),
                0x6b => m.truncate(if m[0] >= 0x12 { 8 } else { 4 }),
                _ => {}
            }
        }
        ms.retain(|(_, m)| seen.insert((m[..m.len().min(4)].to_vec(), m.len())));
        setups.push(Setup { name: n, cfg, msgs: ms });
    }
    let deep = !c.quick();
    let mut jobs = vec![];
    for (s, x) in setups.iter().enumerate() {
        for m in 0..x.msgs.len() {
            for part in 0..if deep || !x.name.starts_with("algs") { 4 } else { 2 } {
                jobs.push((s, m, part));
            }
        }
    }
    let codes: std::sync::Mutex<BTreeMap<u8, usize>> = Default::default();
    c.par("messages", jobs.len(), |i, t| {
        let (s, mi, part) = jobs[i];
        let x = &setups[s];
        let (tag, b) = &x.msgs[mi];
        t.desc = format!("{} {tag} {:02x?}.. ({} bytes) part {part}", x.name, &b[..b.len().min(8)], b.len());
        *codes.lock().unwrap().entry(b[1]).or_default() += 1;
        let n = expected_neg(&x.cfg).unwrap();
        let mut w = World::new(&x.cfg);
        if w.op(&Op::Init).is_err() {
            return t.fail("setup", "");
        }
        // the flags under which the message is what it is
        let mut flags = None;
        for (sum, sig) in [(false, false), (false, true), (true, false), (true, true)] {
            let r = context(&mut w, sum, sig, |c| dec(c, b).map(|x| x.1));
            if r == Some(b.len()) {
                flags = Some((sum, sig));
                break;
            }
        }
        let key = format!("{:02x}", b[1]);
        let (sum, sig) = match flags {
            Some(x) => x,
            None => {
                t.fail(format!("legal-refused/{key}"), format!("{b:02x?}"));
                return;
            }
        };
        let mut cx = |f: &mut dyn FnMut(&mut SpdmContext) -> ()| context(&mut w, sum, sig, |c| f(c));
        let (key2, b2) = (key.clone(), b.clone());
        let check = |c: &mut SpdmContext, t: &mut T, m: &[u8], what: &str, must: bool| -> bool {
            t.steps += 1;
            let rs = (m[..2] == b2[..2]).then(|| reserved(n.ver, m, sig));
            match stable(c, m, rs.as_deref()) {
                Ok(Some(_)) => true,
                Ok(None) if must => {
                    t.fail(format!("{what}-refused/{key2}"), format!("{:02x?}", &m[..m.len().min(48)]));
                    false
                }
                Ok(None) => true,
                Err((k, d)) => {
                    t.fail(format!("{k}/{key2}"), format!("{what}: {d} in {:02x?} from {:02x?}", &m[..m.len().min(48)], &b2[..b2.len().min(48)]));
                    false
                }
            }
        };
        cx(&mut |c| match part {
            0 => {
                // exactly itself; the encoding fits exactly one size; every prefix is refused
                if !check(c, t, b, "legal", true) {
                    return;
                }
                let (m, _) = dec(c, b).unwrap();
                if enc(c, &m, 5000).as_deref() != Some(&b[..]) {
                    t.fail(format!("not-itself/{key}"), format!("{b:02x?}"));
                    return;
                }
                for k in 0..b.len() {
                    t.steps += 2;
                    if let Some(e) = enc(c, &m, k) {
                        t.fail(format!("small-buffer/{key}"), format!("{} bytes encoded into {k}: {:02x?}", b.len(), &e[..e.len().min(16)]));
                        return;
                    }
                    if let Some((_, u)) = dec(c, &b[..k]) {
                        t.fail(format!("prefix/{key}"), format!("{k} of {} bytes, {u} consumed", b.len()));
                        return;
                    }
                }
                if enc(c, &m, b.len()).as_deref() != Some(&b[..]) {
                    t.fail(format!("exact-buffer/{key}"), String::new());
                    return;
                }
                for extra in 1..9 {
                    let mut x = b.clone();
                    x.extend(vec![0xee; extra]);
                    t.steps += 1;
                    if dec(c, &x).map(|x| x.1) != Some(b.len()) && ![0x7f, 0x6a, 0x6b, 0xeb].contains(&b[1]) {
                        t.fail(format!("trailing/{key}"), format!("+{extra}: consumed {:?} of {}", dec(c, &x).map(|x| x.1), b.len()));
                        return;
                    }
                }
                // reserved bits are ignored; legal values are kept
                for (at, mask) in &reserved(n.ver, b, sig) {
                    for k in 0..256usize {
                        let mut x = b.clone();
                        x[*at] = x[*at] & !mask | (k as u8 & mask);
                        if !check(c, t, &x, "reserved", true) {
                            return;
                        }
                    }
                }
                for (at, vals) in enums(n.ver, b) {
                    for v in vals {
                        let mut x = b.clone();
                        x[at] = v;
                        // a request for another slot or kind of hash has the same shape
                        if !check(c, t, &x, "legal-value", true) {
                            return;
                        }
                    }
                }
            }
            1 => {
                // every value of every byte
                for at in 0..b.len().min(if deep { 600 } else { 160 }) {
                    for k in 0..=255u8 {
                        if at >= 48 && !deep && ![0, 1, 2, 0x7f, 0x80, 0xff].contains(&k) {
                            continue;
                        }
                        let mut x = b.clone();
                        x[at] = k;
                        if !check(c, t, &x, "byte", false) {
                            return;
                        }
                    }
                }
            }
            2 => {
                // pairs of bytes near the start
                let m = b.len().min(if deep { 40 } else { 14 });
                let vals: &[u8] = if deep { &[0, 1, 2, 3, 4, 5, 8, 0x0f, 0x10, 0x20, 0x40, 0x7f, 0x80, 0xf0, 0xfe, 0xff] } else { &[0, 1, 2, 4, 0x10, 0x7f, 0x80, 0xff] };
                for p in 1..m {
                    for q in p + 1..m {
                        for a in vals {
                            for d in vals {
                                let mut x = b.clone();
                                x[p] = *a;
                                x[q] = *d;
                                if !check(c, t, &x, "pair", false) {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
            _ => {
                // other versions and codes; other lengths
                for v in [0x10u8, 0x11, 0x12, 0x13, 0, 0xff] {
                    for code in 0..=255u8 {
                        let mut x = b.clone();
                        x[0] = v;
                        x[1] = code;
                        if !check(c, t, &x, "kind", false) {
                            return;
                        }
                    }
                }
                for at in 2..b.len().saturating_sub(1).min(64) {
                    for v in [0u16, 1, 2, 3, 4, 8, 16, 32, 48, 64, 96, 255, 256, 1023, 1024, 1025, 4095, 4096, 0x7fff, 0x8000, 0xffff] {
                        let mut x = b.clone();
                        x[at..at + 2].copy_from_slice(&v.to_le_bytes());
                        if !check(c, t, &x, "word", false) {
                            return;
                        }
                        let k = x.len();
                        x.resize((k + v as usize).min(5000), 0);
                        if !check(c, t, &x, "word", false) {
                            return;
                        }
                    }
                }
            }
        });
        t.step(hash64(&[x.name.as_bytes(), b, &[part as u8]]));
        t.out(if t.fails.is_empty() { "ok" } else { "bad" });
    });
    if c.only.is_none() && c.fam_filter.is_none() {
        let k = codes.lock().unwrap();
        let mut all: Vec<u8> = vec![0x84, 0x04, 0xe1, 0x61, 0xe3, 0x63, 0x81, 0x01, 0x82, 0x02, 0xe0, 0x60, 0xe4, 0x64, 0xe5, 0x65, 0xe6, 0x66, 0xe7, 0x67, 0xe8, 0x68, 0xe9, 0x69, 0xec, 0x6c, 0xfe, 0x7e];
        if can_sign(0x12) {
            all.extend([0x83, 0x03]);
        }
        if MUTAUTH {
            all.extend([0xeb, 0x6b]);
        }
        let missing: Vec<u8> = all.into_iter().filter(|x| !k.contains_key(x)).collect();
        if !missing.is_empty() {
            c.par("coverage", 1, |_, t| t.fail("coverage", format!("messages never seen: {missing:02x?}")));
        }
    }
}

// ---------------------------------------------------------------- plain structures
/// decode and encode one value of a plain structure: None when refused
fn one<S: Codec>(b: &[u8]) -> Option<(Vec<u8>, usize)> {
    let mut r = Reader::init(b);
    let v = S::read(&mut r)?;
    let used = r.used();
    let mut buf = [0xa5u8; 64];
    let n = {
        let mut w = Writer::init(&mut buf);
        match v.encode(&mut w) {
            Ok(k) => {
                if k != w.used() {
                    return Some((vec![], usize::MAX));
                }
                k
            }
            Err(_) => return Some((vec![], used)),
        }
    };
    // a buffer that is too small
    for k in 0..n {
        let mut small = vec![0u8; k];
        let mut w = Writer::init(&mut small);
        if v.encode(&mut w).is_ok() {
            return Some((vec![], usize::MAX - 1));
        }
    }
    Some((buf[..n].to_vec(), used))
}
/// `keep`: the bits that are defined; `known`: for enumerations, every value is preserved
fn scalar<S: Codec>(t: &mut T, name: &str, width: usize, vals: &mut dyn Iterator<Item = u64>, keep: u64, refuse_unknown: bool) {
    for v in vals {
        t.steps += 1;
        let b = v.to_le_bytes()[..width].to_vec();
        let want = (v & keep).to_le_bytes()[..width].to_vec();
        match one::<S>(&b) {
            None if refuse_unknown && v & !keep != 0 => {}
            None => return t.fail(format!("scalar-refused/{name}"), format!("{v:x}")),
            Some((e, u)) => {
                if u != width || e != want {
                    return t.fail(format!("scalar/{name}"), format!("{v:x}: {e:02x?}, expected {want:02x?}, consumed {u}"));
                }
            }
        }
        for k in 0..width {
            if one::<S>(&b[..k]).is_some() {
                return t.fail(format!("scalar-prefix/{name}"), format!("{k} bytes"));
            }
        }
    }
}
fn bits32() -> Vec<u64> {
    let mut v: Vec<u64> = vec![0, 0xffff_ffff];
    for a in 0..32 {
        for b in 0..32 {
            v.push(1 << a | 1 << b);
            v.push(0xffff_ffff & !(1 << a | 1 << b));
        }
    }
    v.extend(0..65536);
    v.extend((0..65536u64).map(|x| x << 16));
    v
}
fn fields(c: &Ctx) {
    let k = 30;
    c.par("fields", k, |i, t| {
        t.desc = format!("field structure {i}");
        let all8 = || 0..256u64;
        let all16 = || 0..65536u64;
        match i {
            0 => scalar::<u8>(t, "u8", 1, &mut all8(), 0xff, false),
            1 => scalar::<u16>(t, "u16", 2, &mut all16(), 0xffff, false),
            2 => scalar::<codec::u24>(t, "u24", 3, &mut (0..1 << 24u64).step_by(if c.quick() { 251 } else { 1 }), 0xff_ffff, false),
            3 => scalar::<u32>(t, "u32", 4, &mut bits32().into_iter(), 0xffff_ffff, false),
            4 => scalar::<u64>(t, "u64", 8, &mut bits32().into_iter().map(|x| x << 32 | x), u64::MAX, false),
            // enumerations keep unassigned values
            5 => scalar::<SpdmRequestResponseCode>(t, "code", 1, &mut all8(), 0xff, false),
            6 => scalar::<SpdmErrorCode>(t, "error-code", 1, &mut all8(), 0xff, false),
            7 => scalar::<SpdmMeasurementSummaryHashType>(t, "summary", 1, &mut all8(), 0xff, false),
            8 => scalar::<SpdmKeyUpdateOperation>(t, "key-update", 1, &mut all8(), 0xff, false),
            9 => scalar::<SpdmMeasurementOperation>(t, "meas-op", 1, &mut all8(), 0xff, false),
            10 => scalar::<SpdmStandardId>(t, "standard-id", 1, &mut all8(), 0xff, false),
            11 => scalar::<SpdmAlgType>(t, "alg-type", 1, &mut all8(), 0xff, false),
            // flags drop what is not defined
            12 => scalar::<SpdmBaseHashAlgo>(t, "hash", 4, &mut bits32().into_iter(), SpdmBaseHashAlgo::all().bits() as u64, false),
            13 => scalar::<SpdmBaseAsymAlgo>(t, "asym", 4, &mut bits32().into_iter(), SpdmBaseAsymAlgo::all().bits() as u64, false),
            14 => scalar::<SpdmMeasurementHashAlgo>(t, "meas-hash", 4, &mut bits32().into_iter(), SpdmMeasurementHashAlgo::all().bits() as u64, false),
            15 => scalar::<SpdmDheAlgo>(t, "dhe", 2, &mut all16(), SpdmDheAlgo::all().bits() as u64, false),
            16 => scalar::<SpdmAeadAlgo>(t, "aead", 2, &mut all16(), SpdmAeadAlgo::all().bits() as u64, false),
            17 => scalar::<SpdmReqAsymAlgo>(t, "req-asym", 2, &mut all16(), SpdmReqAsymAlgo::all().bits() as u64, false),
            18 => scalar::<SpdmKeyScheduleAlgo>(t, "key-schedule", 2, &mut all16(), SpdmKeyScheduleAlgo::all().bits() as u64, false),
            19 => scalar::<SpdmMeasurementSpecification>(t, "meas-spec", 1, &mut all8(), SpdmMeasurementSpecification::all().bits() as u64, false),
            20 => scalar::<SpdmOpaqueSupport>(t, "opaque", 1, &mut all8(), SpdmOpaqueSupport::all().bits() as u64, false),
            21 => scalar::<SpdmRequestCapabilityFlags>(t, "req-caps", 4, &mut bits32().into_iter(), SpdmRequestCapabilityFlags::all().bits() as u64, false),
            22 => scalar::<SpdmResponseCapabilityFlags>(t, "rsp-caps", 4, &mut bits32().into_iter(), SpdmResponseCapabilityFlags::all().bits() as u64, false),
            23 => {
                for a in 0..=255u8 {
                    for b in 0..=255u8 {
                        t.steps += 1;
                        if one::<SpdmMessageHeader>(&[a, b]).map_or(false, |x| x != (vec![a, b], 2)) {
                            return t.fail("scalar/header", format!("{a:x} {b:x}: {:?}", one::<SpdmMessageHeader>(&[a, b])));
                        }
                        if [0x10, 0x11, 0x12].contains(&a) && one::<SpdmMessageHeader>(&[a, b]).is_none() {
                            return t.fail("scalar-refused/header", format!("{a:x} {b:x}"));
                        }
                    }
                }
            }
            24 => scalar::<SpdmVersion>(t, "version", 1, &mut [0x10u64, 0x11, 0x12].into_iter(), 0xff, false),
            25 => {
                // versions that do not exist are preserved or refused
                for v in 0..=255u8 {
                    t.steps += 1;
                    if one::<SpdmVersion>(&[v]).map_or(false, |x| x.0 != [v]) {
                        return t.fail("scalar/version", format!("{v:x}"));
                    }
                }
            }
            26 => scalar::<SpdmDmtfMeasurementType>(t, "meas-type", 1, &mut (0..128u64), 0xff, false),
            27 => {
                // opaque data of every length
                for n in (0..1024usize + 3).step_by(if c.quick() { 7 } else { 1 }).chain([1023, 1024, 1025, 65535]) {
                    t.steps += 1;
                    let mut b = (n as u16).to_le_bytes().to_vec();
                    b.extend((0..n).map(|i| i as u8 ^ 0x5a));
                    let mut r = Reader::init(&b);
                    let v = with_ctx(|c| opaque::SpdmOpaqueStruct::spdm_read(c, &mut r));
                    if v.is_some() != (n <= 1024) {
                        return t.fail("opaque", format!("{n}: {:?}", v.is_some()));
                    }
                    if let Some(v) = v {
                        let u = r.used();
                        let e = enc_ctx(&v, n + 2);
                        if u != n + 2 || e.as_deref() != Some(&b[..]) || n > 0 && enc_ctx(&v, n + 1).is_some() || enc_ctx(&v, 1).is_some() {
                            return t.fail("opaque", format!("{n}: consumed {u}"));
                        }
                        for k in [0, 1, 2, n / 2 + 1, n + 1] {
                            if k < n + 2 {
                                let mut r = Reader::init(&b[..k]);
                                if with_ctx(|c| opaque::SpdmOpaqueStruct::spdm_read(c, &mut r)).is_some() {
                                    return t.fail("opaque-prefix", format!("{k} of {}", n + 2));
                                }
                            }
                        }
                    }
                }
            }
            28 => scalar::<SpdmDmtfMeasurementRepresentation>(t, "meas-repr", 1, &mut [0u64, 0x80].into_iter(), 0xff, false),
            _ => scalar::<RegistryOrStandardsBodyID>(t, "registry", 2, &mut all16(), 0xffff, false),
        }
        t.step(i as u64);
        t.out("ok");
    });
}
/// the DMTF opaque-data lists: what each element count, version count and version makes on the wire, and back
fn opaque_lists(c: &Ctx) {
    use opaque::*;
    let vers: Vec<u16> = if c.quick() { vec![0, 0x0010, 0x1000, 0x1100, 0x12fe, 0xffff, 0xf00f] } else { (0..=0xffff).step_by(17).collect() };
    let mut jobs = vec![];
    for ver in [0x10u8, 0x11, 0x12] {
        for sel in [false, true] {
            for n in 0..=4usize {
                let m: &[usize] = if sel { &[1] } else { &[0, 1, 2, 3] };
                for k in m {
                    for v in &vers {
                        jobs.push((ver, sel, n, *k, *v));
                    }
                }
            }
        }
    }
    c.par("opaque-lists", jobs.len(), |i, t| {
        let (ver, sel, n, k, v) = jobs[i];
        t.desc = format!("{ver:x} {} elements {n} versions {k} {v:04x}", if sel { "selection" } else { "supported" });
        t.step(hash64(&[t.desc.as_bytes()]));
        // the bytes of the specification
        let mut b: Vec<u8> = if ver < 0x12 { vec![0x46, 0x54, 0x4d, 0x44, 1, n as u8, 0, 0] } else { vec![n as u8, 0, 0, 0] };
        for e in 0..n {
            b.extend([0, 0]);
            b.extend(((if sel { 4 } else { 3 + 2 * k }) as u16).to_le_bytes());
            b.extend([1, !sel as u8]);
            if !sel {
                b.push(k as u8);
            }
            for j in 0..k {
                b.extend((v.wrapping_add((e * 0x101 + j * 0x1010) as u16)).to_le_bytes());
            }
            while b.len() % 4 != 0 {
                b.push(0);
            }
        }
        let cfg = base_cfg();
        let mut w = World::new(&cfg);
        let cx = &mut w.req.common;
        cx.negotiate_info.spdm_version_sel = SpdmVersion::read_bytes(&[ver]).unwrap();
        cx.negotiate_info.opaque_data_support = SpdmOpaqueSupport::OPAQUE_DATA_FMT1;
        let good = n <= MAX_OPAQUE_LIST_ELEMENTS_COUNT && (k <= MAX_SECURE_SPDM_VERSION_COUNT || n == 0);
        macro_rules! both {
            ($t:ty, $ok:expr) => {{
                for l in 0..=b.len() {
                    let mut r = Reader::init(&b[..l]);
                    let x = guarded(|| <$t>::spdm_read(cx, &mut r));
                    let Ok(x) = x else { return t.fail("opaque-list/panic", format!("{l} bytes of {b:02x?}")) };
                    if x.is_some() != (l == b.len() && good) {
                        return t.fail("opaque-list/accept", format!("{l} bytes of {b:02x?}: {}", x.is_some()));
                    }
                    let Some(x) = x else { continue };
                    if r.used() != l || !$ok(&x) {
                        return t.fail("opaque-list/values", format!("{b:02x?} read as {x:?}"));
                    }
                    for room in [b.len(), b.len() + 9, b.len() - 1, 3] {
                        let mut buf = vec![0u8; room];
                        let (r, u) = {
                            let mut w = Writer::init(&mut buf);
                            (x.spdm_encode(cx, &mut w), w.used())
                        };
                        if r.is_ok() != (room >= b.len()) || r.map_or(false, |z| z != b.len() || u != z || buf[..u] != b[..]) {
                            return t.fail("opaque-list/encode", format!("room {room}: {r:?}, {:02x?} for {b:02x?}", &buf[..u]));
                        }
                    }
                }
            }};
        }
        let same = |x: &SecuredMessageVersion, e: usize, j: usize| {
            let y = v.wrapping_add((e * 0x101 + j * 0x1010) as u16);
            let z = (x.major_version as u16) << 12 | (x.minor_version as u16) << 8 | (x.update_version_number as u16) << 4 | x.alpha as u16;
            z == y && x.get_secure_spdm_version() == (y >> 8) as u8
        };
        if sel {
            both!(SecuredMessageDMTFVersionSelection, |x: &SecuredMessageDMTFVersionSelection| {
                x.secured_message_general_opaque_data_header.total_elements as usize == n && (0..n).all(|e| same(&x.opaque_element_dmtf_version_selection_list[e].selected_version, e, 0))
            });
        } else {
            both!(SecuredMessageDMTFSupportedVersion, |x: &SecuredMessageDMTFSupportedVersion| {
                x.secured_message_general_opaque_data_header.total_elements as usize == n
                    && (0..n).all(|e| {
                        let l = &x.opaque_element_dmtf_supported_version_list[e].secured_msg_vers;
                        l.version_count as usize == k && (0..k).all(|j| same(&l.versions_list[j], e, j))
                    })
            });
        }
        t.out(if good { "read" } else { "refused" });
    });
}
fn with_ctx<R>(f: impl FnOnce(&mut SpdmContext) -> R) -> R {
    let cfg = base_cfg();
    let mut w = World::new(&cfg);
    f(&mut w.req.common)
}
fn enc_ctx<S: SpdmCodec>(v: &S, room: usize) -> Option<Vec<u8>> {
    with_ctx(|c| {
        let mut buf = vec![0u8; room];
        let (r, n) = {
            let mut w = Writer::init(&mut buf);
            (v.spdm_encode(c, &mut w), w.used())
        };
        r.ok().map(|_| buf[..n].to_vec())
    })
}

// ---------------------------------------------------------------- reader and writer
fn bytes(c: &Ctx) {
    let depth = c.pick(4, 5);
    let sizes = [0usize, 1, 2, 3, 5, 8];
    // reader: take k, sub k, rest, u8, u16, u24, u32, u64
    let l = 12;
    let ns = count_seqs(l, depth);
    c.par("reader", ns * sizes.len(), |i, t| {
        let x = digits(i, &[ns, sizes.len()]);
        let data: Vec<u8> = (0..sizes[x[1]] as u8).map(|i| i.wrapping_mul(37) ^ 0x91).collect();
        let seq = nth_seq(x[0], l, depth);
        t.desc = format!("{} bytes {seq:?}", data.len());
        let mut r = Reader::init(&data);
        let mut at = 0usize;
        for s in seq {
            let int = |k: usize| -> Option<u64> { (data.len() - at >= k).then(|| data[at..at + k].iter().rev().fold(0u64, |a, b| a << 8 | *b as u64)) };
            let (got, want, k): (Option<Vec<u8>>, Option<Vec<u8>>, usize) = match s {
                0..=3 => {
                    let k = [0, 1, 3, 6][s];
                    (r.take(k).map(|x| x.to_vec()), data.get(at..at + k).map(|x| x.to_vec()), k)
                }
                4 | 5 => {
                    let k = [2, 5][s - 4];
                    (r.sub(k).map(|mut x| x.rest().to_vec()), data.get(at..at + k).map(|x| x.to_vec()), k)
                }
                6 => {
                    let k = data.len() - at;
                    (Some(r.rest().to_vec()), Some(data[at..].to_vec()), k)
                }
                7 => (u8::read(&mut r).map(|x| vec![x]), int(1).map(|x| vec![x as u8]), 1),
                8 => (u16::read(&mut r).map(|x| x.to_le_bytes().to_vec()), int(2).map(|x| (x as u16).to_le_bytes().to_vec()), 2),
                9 => (codec::u24::read(&mut r).map(|x| x.get().to_le_bytes().to_vec()), int(3).map(|x| (x as u32).to_le_bytes().to_vec()), 3),
                10 => (u32::read(&mut r).map(|x| x.to_le_bytes().to_vec()), int(4).map(|x| (x as u32).to_le_bytes().to_vec()), 4),
                _ => (u64::read(&mut r).map(|x| x.to_le_bytes().to_vec()), int(8).map(|x| x.to_le_bytes().to_vec()), 8),
            };
            if got != want {
                return t.fail(format!("reader/{s}"), format!("{got:02x?}, expected {want:02x?}"));
            }
            if want.is_some() {
                at += k;
            }
            t.step((at * 100 + data.len()) as u64);
            if r.used() != at || r.left() != data.len() - at || r.any_left() != (at < data.len()) {
                // a refused multi-byte integer consumes nothing
                return t.fail(format!("reader-at/{s}"), format!("used {} left {}, expected {at}", r.used(), r.left()));
            }
        }
        t.out("ok");
    });
    let l = 9;
    let ns = count_seqs(l, depth);
    c.par("writer", ns * sizes.len(), |i, t| {
        let x = digits(i, &[ns, sizes.len()]);
        let size = sizes[x[1]];
        let seq = nth_seq(x[0], l, depth);
        t.desc = format!("room {size} {seq:?}");
        let mut buf = vec![0xa5u8; size];
        let mut want: Vec<u8> = vec![];
        {
            let mut w = Writer::init(&mut buf);
            for (j, s) in seq.iter().enumerate() {
                let b: Vec<u8> = (0..8).map(|k| (j * 16 + k) as u8).collect();
                let k = [1, 0, 1, 3, 6, 2, 4, 8, 0][*s];
                if *s == 8 {
                    w.clear();
                    want.clear();
                    continue;
                }
                let fits = want.len() + k <= size;
                let ok = match s {
                    0 => w.push(b[0]) == Some(b[0]),
                    1..=4 => w.extend_from_slice(&b[..k]) == Some(k),
                    5 => u16::from_le_bytes([b[0], b[1]]).encode(&mut w).map_or(false, |x| x == 2),
                    6 => u32::from_le_bytes(b[..4].try_into().unwrap()).encode(&mut w).map_or(false, |x| x == 4),
                    _ => u64::from_le_bytes(b[..8].try_into().unwrap()).encode(&mut w).map_or(false, |x| x == 8),
                };
                if ok != fits {
                    return t.fail(format!("writer/{s}"), format!("room for {}: {ok}", size - want.len()));
                }
                if !fits {
                    // what a refused write leaves behind is not used
                    break;
                }
                want.extend(&b[..k]);
                t.step((want.len() * 100 + size) as u64);
                if w.used() != want.len() || w.left() != size - want.len() || w.used_slice() != want {
                    return t.fail(format!("writer-at/{s}"), format!("{:02x?}, expected {want:02x?}", w.used_slice()));
                }
            }
        }
        t.out("ok");
    });
}
