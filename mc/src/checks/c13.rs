//! Transport encapsulation: every length, message type, header value and buffer size of both transports, and mislabelled
//! frames presented to real endpoints.
use crate::explore::*;
use crate::trace;
use crate::user::*;
use crate::world::*;
use codec::{Codec, Reader, Writer};
use mctp_transport::*;
use pcidoe_transport::*;
use spdmlib::common::SpdmTransportEncap;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Clear,
    Secured,
    AppSpdm,
    App,
}
const KINDS: [Kind; 4] = [Kind::Clear, Kind::Secured, Kind::AppSpdm, Kind::App];
fn content(n: usize, salt: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(73) ^ (i >> 8) as u8 ^ salt).collect()
}
fn encap(t: &mut dyn SpdmTransportEncap, k: Kind, p: &[u8], out: &mut [u8]) -> Option<usize> {
    match k {
        Kind::Clear => t.encap(p, out, false),
        Kind::Secured => t.encap(p, out, true),
        Kind::AppSpdm => t.encap_app(p, out, false),
        Kind::App => t.encap_app(p, out, true),
    }
    .ok()
}
/// length and kind
fn decap(t: &mut dyn SpdmTransportEncap, app: bool, f: &[u8], out: &mut [u8]) -> Option<(usize, bool)> {
    if app { t.decap_app(f, out) } else { t.decap(f, out) }.ok()
}
/// what the binding specification says a frame is; the padding is free
fn wire(tr: Tr, k: Kind, p: &[u8]) -> (Vec<u8>, usize) {
    match (tr, k) {
        (Tr::Mctp, _) => {
            let mut v = vec![match k {
                Kind::Clear | Kind::AppSpdm => 5,
                Kind::Secured => 6,
                Kind::App => 1,
            }];
            v.extend(p);
            (v, p.len() + 1)
        }
        (Tr::Doe, Kind::AppSpdm | Kind::App) => (p.to_vec(), p.len()),
        (Tr::Doe, _) => {
            let dw = 2 + (p.len() + 3) / 4;
            let mut v = vec![1, 0, if k == Kind::Secured { 2 } else { 1 }, 0];
            v.extend((dw as u32 & 0x3ffff).to_le_bytes());
            v.extend(p);
            (v, dw * 4)
        }
    }
}
/// what a frame contains: payload and the flag, or nothing
fn expect(tr: Tr, app: bool, f: &[u8]) -> Option<(Vec<u8>, bool)> {
    match (tr, app) {
        (Tr::Mctp, _) => {
            let flag = match (f.first()?, app) {
                (5, _) => false,
                (6, false) => true,
                (1, true) => true,
                _ => return None,
            };
            Some((f[1..].to_vec(), flag))
        }
        (Tr::Doe, true) => Some((f.to_vec(), false)),
        (Tr::Doe, false) => {
            if f.len() < 8 || f[0] != 1 || f[1] != 0 || ![1, 2].contains(&f[2]) {
                return None;
            }
            let mut dw = u32::from_le_bytes([f[4], f[5], f[6], f[7]]) as usize & 0x3ffff;
            if dw == 0 {
                dw = 0x40000;
            }
            if dw < 2 || f.len() < dw * 4 {
                return None;
            }
            Some((f[8..dw * 4].to_vec(), f[2] == 2))
        }
    }
}
fn one_encap(t: &mut T, tr: Tr, k: Kind, n: usize, room: usize) {
    let p = content(n, 0x3c);
    let (w, total) = wire(tr, k, &p);
    let mut out = vec![0xa5u8; room];
    let r = encap(transport_of(tr).as_mut(), k, &p, &mut out);
    t.steps += 1;
    let d = || format!("{tr:?} {k:?} payload {n} room {room}: {r:?}, {:02x?}", &out[..out.len().min(16)]);
    if tr == Tr::Doe && matches!(k, Kind::App) {
        // DOE has no form for application data: it must not come out as an SPDM message
        return t.check(r.is_none(), "encap-app/Doe", d);
    }
    if room >= total {
        if r != Some(total) {
            return t.fail(format!("encap-size/{tr:?}"), d());
        }
        if out[..w.len()] != w[..] {
            return t.fail(format!("encap-bytes/{tr:?}"), d());
        }
        if out[total..].iter().any(|b| *b != 0xa5) {
            return t.fail(format!("encap-beyond/{tr:?}"), d());
        }
        // and back, for every size of the receiver
        let pad = total - (w.len() - n) - n;
        for room in [0, n.saturating_sub(1), n, n + pad, n + pad + 1, n + 4100] {
            let mut back = vec![0x5au8; room];
            let app = matches!(k, Kind::App | Kind::AppSpdm);
            let r = decap(transport_of(tr).as_mut(), app, &out[..total], &mut back);
            t.steps += 1;
            let flag = match k {
                Kind::Clear | Kind::AppSpdm => false,
                Kind::Secured => true,
                Kind::App => tr == Tr::Mctp,
            };
            let fits = room >= n + pad;
            if r != fits.then_some((n + pad, flag)) {
                return t.fail(format!("round-trip/{tr:?}"), format!("{tr:?} {k:?} payload {n} into {room}: {r:?}"));
            }
            if fits && (back[..n] != p[..] || back[n + pad..].iter().any(|b| *b != 0x5a)) || !fits && back.iter().any(|b| *b != 0x5a) {
                return t.fail(format!("round-trip-bytes/{tr:?}"), format!("{tr:?} {k:?} payload {n} into {room}"));
            }
        }
    } else if r.is_some() {
        t.fail(format!("encap-overflow/{tr:?}"), d());
    } else if out.get(w.len() - n..).map_or(false, |x| x.iter().any(|b| *b != 0xa5)) {
        t.fail(format!("encap-partial/{tr:?}"), d());
    }
}
fn one_decap(t: &mut T, tr: Tr, app: bool, f: &[u8], room: usize) {
    let want = expect(tr, app, f).filter(|x| x.0.len() <= room);
    let mut out = vec![0x5au8; room];
    let r = decap(transport_of(tr).as_mut(), app, f, &mut out);
    t.steps += 1;
    let d = || format!("{tr:?} {} {:02x?} ({} bytes) into {room}: {r:?}", if app { "app" } else { "frame" }, &f[..f.len().min(12)], f.len());
    match (&want, r) {
        (None, None) => {
            if out.iter().any(|b| *b != 0x5a) {
                t.fail(format!("decap-partial/{tr:?}"), d());
            }
        }
        (Some((p, flag)), Some((n, g))) => {
            if n != p.len() || g != *flag || out[..n] != p[..] || out[n..].iter().any(|b| *b != 0x5a) {
                t.fail(format!("decap/{tr:?}"), d());
            }
        }
        (None, Some(_)) => t.fail(format!("decap-accepts/{tr:?}"), d()),
        (Some(_), None) => t.fail(format!("decap-refuses/{tr:?}"), d()),
    }
}
fn transport_of(tr: Tr) -> Box<dyn SpdmTransportEncap> {
    match tr {
        Tr::Mctp => Box::new(MctpTransportEncap {}),
        Tr::Doe => Box::new(PciDoeTransportEncap {}),
    }
}

pub fn run(c: &Ctx) {
    let trs = [Tr::Mctp, Tr::Doe];
    // every payload length of a legal message and somewhat more
    let lens = 4200;
    c.par("encap", trs.len() * KINDS.len() * lens, |i, t| {
        let x = digits(i, &[lens, KINDS.len(), trs.len()]);
        let (n, k, tr) = (x[0], KINDS[x[1]], trs[x[2]]);
        t.desc = format!("{tr:?} {k:?} payload of {n} bytes");
        let total = wire(tr, k, &content(n, 0)).1;
        let mut rooms: Vec<usize> = (total.saturating_sub(9)..total + 3).chain(0..10).chain([4096, 4160]).collect();
        if n < 64 || !c.quick() && n < 300 {
            rooms.extend(0..total);
        }
        for r in rooms {
            one_encap(t, tr, k, n, r);
        }
        t.step(i as u64);
        t.out(if t.fails.is_empty() { "ok" } else { "bad" });
    });
    // the largest data object
    c.par("encap-large", 2 * 9, |i, t| {
        let n = 0x40000 * 4 - 8 - (i % 9);
        let k = [Kind::Clear, Kind::Secured][i / 9];
        t.desc = format!("DOE {k:?} payload of {n} bytes");
        one_encap(t, Tr::Doe, k, n, 0x40000 * 4);
        one_encap(t, Tr::Doe, k, n, 0x40000 * 4 - 1 - (i % 9) / 4 * 4);
        t.step(i as u64);
        t.out("ok");
    });
    // every first byte, frames of every length
    let lens: Vec<usize> = (0..80).chain([127, 128, 255, 256, 511, 1023, 4095, 4096, 4097, 4159, 4160, 4161]).collect();
    c.par("mctp-decap", 256 * lens.len() * 2, |i, t| {
        let x = digits(i, &[lens.len(), 256, 2]);
        let (n, ty, app) = (lens[x[0]], x[1] as u8, x[2] == 1);
        t.desc = format!("type {ty:02x}, {n} bytes, {}", if app { "application layer" } else { "frame" });
        let mut f = content(n, 0x11);
        if n > 0 {
            f[0] = ty;
        }
        for room in (0..n + 2).filter(|r| n < 40 || *r + 4 > n || *r < 4).chain([4096, 5000]) {
            one_decap(t, Tr::Mctp, app, &f, room);
        }
        t.step(x[1] as u64);
        t.out("ok");
    });
    // every vendor, every type and reserved byte, every length field
    c.par("doe-header", 256 * 3, |i, t| {
        let (a, part) = ((i % 256) as u8, i / 256);
        t.desc = format!("part {part} value {a:02x}");
        let good = wire(Tr::Doe, Kind::Clear, &content(16, 0x77)).0;
        for b in 0..=255u8 {
            for k in [1, 2] {
                let mut f = good.clone();
                f[2] = k;
                match part {
                    0 => (f[0], f[1]) = (a, b),
                    1 => (f[2], f[3]) = (a, b),
                    _ => (f[3], f[7]) = (a, b),
                }
                for room in [15, 16, 17] {
                    one_decap(t, Tr::Doe, false, &f, room);
                }
                for cut in 0..f.len() {
                    one_decap(t, Tr::Doe, false, &f[..cut], 64);
                }
            }
        }
        t.step(i as u64);
        t.out("ok");
    });
    let big = 0x40000usize * 4;
    c.par("doe-length", 0x40000 / 256 + 64, |i, t| {
        t.desc = format!("length fields {:x}..", i * 256);
        if i < 0x400 {
            let f0 = content(4168, 0x21);
            for l in (i * 256) as u32..(i * 256 + 256) as u32 {
                for (k, high) in [(1u8, 0u32), (2, 0xfffc_0000)] {
                    let mut f = f0.clone();
                    f[..4].copy_from_slice(&[1, 0, k, 0]);
                    f[4..8].copy_from_slice(&(l | high).to_le_bytes());
                    one_decap(t, Tr::Doe, false, &f, 4160);
                    // frames that end before, at and after what the length says, and the receiver's room
                    let want = l as usize * 4;
                    if want <= 4168 {
                        for cut in [want.saturating_sub(5), want.saturating_sub(4), want.saturating_sub(1), want, want + 1, want + 4] {
                            if cut <= f.len() {
                                for room in [want.saturating_sub(9), want.saturating_sub(8), 4160] {
                                    one_decap(t, Tr::Doe, false, &f[..cut], room);
                                }
                            }
                        }
                    }
                }
            }
        } else {
            // objects near the largest size
            let k = i - 0x400;
            let l = (0x40000 - (k / 4) as u32) & 0x3ffff;
            let mut f = content(big + 4, 0x42);
            f[..4].copy_from_slice(&[1, 0, 1 + (k % 2) as u8, 0]);
            f[4..8].copy_from_slice(&l.to_le_bytes());
            let want = if l == 0 { big } else { l as usize * 4 };
            for cut in [want - 4, want - 1, want, want + 1] {
                for room in [want - 9, want - 8, want - 7] {
                    one_decap(t, Tr::Doe, false, &f[..cut], room);
                }
            }
        }
        t.step(i as u64);
        t.out("ok");
    });
    headers(c);
    endpoints(c);
}
fn headers(c: &Ctx) {
    c.par("header-codec", 256, |i, t| {
        let a = i as u8;
        t.desc = format!("{a:02x}");
        let mut r = Reader::init(std::slice::from_ref(&a));
        let ok = MctpMessageHeader::read(&mut r).map_or(false, |h| {
            let mut b = [0xa5u8; 2];
            let mut w = Writer::init(&mut b);
            h.encode(&mut w).is_ok() && w.used() == 1 && b[0] == a
        });
        t.check(ok && r.used() == 1, "mctp-header", || String::new());
        t.check(MctpMessageHeader::read(&mut Reader::init(&[])).is_none(), "mctp-header", || "an empty frame".into());
        for b in 0..=255u8 {
            for (v, l) in [([a, b, 1, 0], 0x11u32), ([1, 0, a, b], 0x11), ([1, 0, 1, 0], (a as u32) << 8 | b as u32), ([1, 0, 2, 0], (a as u32) << 10 | b as u32), ([1, 0, 2, 0xff], (a as u32) << 24 | (b as u32) << 16)] {
                t.steps += 1;
                let mut f = v.to_vec();
                f.extend(l.to_le_bytes());
                let l = match l & 0x3ffff {
                    0 => 0x40000,
                    x => x,
                };
                let h = PciDoeMessageHeader::read(&mut Reader::init(&f));
                let good = h.map(|h| {
                    let mut b = [0xa5u8; 9];
                    let mut w = Writer::init(&mut b);
                    let ok = h.encode(&mut w).is_ok() && w.used() == 8;
                    (h.payload_length, ok && b[..3] == f[..3] && b[3] == 0 && u32::from_le_bytes([b[4], b[5], b[6], b[7]]) == l & 0x3ffff)
                });
                let want = (l >= 2).then(|| (l * 4 - 8, true));
                t.check(good == want, "doe-header", || format!("{f:02x?}: {good:?}, expected {want:?}"));
                for k in 0..8 {
                    t.check(PciDoeMessageHeader::read(&mut Reader::init(&f[..k])).is_none(), "doe-header", || format!("{k} bytes"));
                    if let Some(h) = h {
                        let mut small = vec![0u8; k];
                        t.check(h.encode(&mut Writer::init(&mut small)).is_err(), "doe-header", || format!("encoded into {k} bytes"));
                    }
                }
            }
        }
        t.step(i as u64);
        t.out("ok");
    });
}
/// frames of real conversations under another label: the responder neither answers nor changes; the requester refuses
fn endpoints(c: &Ctx) {
    for tr in [Tr::Mctp, Tr::Doe] {
        let cfg = cfg_v(0x12, tr);
        let ops = long_history(&cfg, false);
        let frames = match trace::record(&cfg, &ops) {
            Some(f) => f,
            None => {
                c.par("setup", 1, |_, t| t.fail("setup", "no history"));
                continue;
            }
        };
        let labels = if tr == Tr::Mctp { 256 } else { 512 };
        let per = if c.quick() { 16 } else { 1 };
        let nf = frames.len();
        c.par(&format!("mislabel-{tr:?}"), nf * (labels / per), |i, t| {
            let x = digits(i, &[labels / per, nf]);
            let fr = &frames[x[1]];
            t.desc = format!("frame {} ({:?} {:?}) under labels {}..", x[1], fr.dir, ops[fr.op], x[0] * per);
            for l in x[0] * per..(x[0] + 1) * per {
                let (at, v) = match tr {
                    Tr::Mctp => (0, l as u8),
                    Tr::Doe => ([0, 2][l / 256], l as u8),
                };
                if c.quick() && l % 256 > 8 && ![0x7e, 0x7f, 0x80, 0x85, 0x86, 0xff].contains(&(l % 256)) {
                    continue;
                }
                let own = fr.frame[at] == v;
                let mut w = World::new(&cfg);
                let mut r = Ok(Out::Unit);
                on_one(x[1], v, at);
                for (j, op) in ops.iter().enumerate() {
                    r = w.op(op);
                    t.steps += 1;
                    if r.is_err() || j == fr.op {
                        break;
                    }
                }
                link(|l| l.hook = None);
                t.step(w.fp());
                // the label of the other legal kind is a legal label: the frame must still not be taken for what it is not
                let ok = r.is_ok() == own;
                t.check(ok, &format!("mislabel/{tr:?}"), || format!("label {v:02x} at {at}: {r:?}"));
                let r = w.op(&Op::Init);
                t.check(r.is_ok(), &format!("mislabel-later/{tr:?}"), || format!("label {v:02x} at {at}: {r:?}"));
            }
            t.out(if t.fails.is_empty() { "ok" } else { "bad" });
        });
    }
}
fn on_one(k: usize, v: u8, at: usize) {
    trace::on_frame(k, move |f| {
        let mut x = f.to_vec();
        x[at] = v;
        vec![x]
    });
}
