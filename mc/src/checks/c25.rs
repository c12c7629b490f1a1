//! Vendor-defined exchanges: payloads pass through both ways, nothing else changes.
use crate::explore::*;
use crate::fake::{self, Actor, Kind};
use crate::model::*;
use crate::user::*;
use crate::world::*;
use spdmlib::message::*;

const MAX: usize = MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE;
fn std_id(s: u16) -> RegistryOrStandardsBodyID {
    use RegistryOrStandardsBodyID::*;
    match s {
        0 => DMTF,
        1 => TCG,
        2 => USB,
        3 => PCISIG,
        4 => IANA,
        5 => HDBASET,
        6 => MIPI,
        7 => CXL,
        8 => JEDEC,
        x => Unknown(x),
    }
}
fn pat(n: usize, seed: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(7) ^ (i >> 8) as u8 ^ seed).collect()
}
fn ask(w: &mut World, sid: Option<u32>, std: u16, id: &[u8], d: &[u8]) -> Result<Vec<u8>, spdmlib::error::SpdmStatus> {
    let old = fake::set_actor(Actor::Req);
    let mut p = VendorDefinedReqPayloadStruct { req_length: d.len() as u16, vendor_defined_req_payload: [0; MAX] };
    p.vendor_defined_req_payload[..d.len()].copy_from_slice(d);
    let mut v = VendorIDStruct { len: id.len() as u8, vendor_id: [0; MAX_SPDM_VENDOR_DEFINED_VENDOR_ID_LEN] };
    v.vendor_id[..id.len()].copy_from_slice(id);
    let r = w.req.send_spdm_vendor_defined_request(sid, std_id(std), v, p);
    fake::set_actor(old);
    r.map(|r| r.vendor_defined_rsp_payload.get(..r.rsp_length as usize).map(|x| x.to_vec()).unwrap_or_default())
}
/// what a vendor exchange may not change
fn face(w: &World) -> (Vec<u8>, Vec<u8>, Vec<(u32, u8)>, Vec<(u32, u8)>) {
    (nego(&w.req.common), rsp(|r| nego(&r.common)), sess_table(&w.req.common), rsp(|r| sess_table(&r.common)))
}
struct Case<'a> {
    std: u16,
    id: &'a [u8],
    req: usize,
    /// None: the default answer of the handler
    rsp: Option<usize>,
    fail: bool,
}
/// one exchange, judged
fn exchange(w: &mut World, s: Option<usize>, k: &Case, t: &mut T) {
    let cfg = w.cfg.clone();
    let n = expected_neg(&cfg).unwrap();
    let d = pat(k.req, 0x31);
    let calls = fake::with(|e| {
        e.vendor_rsp = k.rsp.map(|n| pat(n, 0x99));
        if k.fail {
            e.fail_nth = Some((Actor::Rsp, Kind::Vendor, 0));
        }
        e.vendor_calls.len()
    });
    let before = face(w);
    let sid = s.map(|h| w.sids.get(h).copied().unwrap_or(0));
    let sent = link(|l| l.nmsg);
    let r = ask(w, sid, k.std, k.id, &d);
    t.steps += 1;
    fake::with(|e| {
        e.vendor_rsp = None;
        e.fail_nth = None;
    });
    let got = fake::with(|e| e.vendor_calls[calls..].to_vec());
    let nframes = link(|l| l.nmsg) - sent;
    let mut want = match k.rsp {
        Some(n) => pat(n, 0x99),
        None => def_vendor_rsp(&d),
    };
    want.truncate(MAX);
    let head = 9 + k.id.len();
    // the length announced by the peer, or else the buffer of a message
    let lim = |dts: u32| if n.ver >= 0x12 && dts != 0 { (dts as usize).min(4096) } else { 4096 };
    let fits = head + d.len() <= lim(cfg.rsp.dts);
    let back = head + want.len() <= lim(cfg.req.dts) && want.len() <= MAX;
    // a secured record has an overhead of its own
    let tight = s.is_some() && (head + d.len() + 64 > 4096 || head + want.len() + 64 > 4096);
    t.check(face(w) == before, "exchange/state", || "negotiated parameters or sessions changed".into());
    t.check(got.len() <= 1 && got.iter().all(|g| *g == d), "exchange/handler", || format!("handler called {} times", got.len()));
    if !fits {
        t.check(r.is_err() && got.is_empty() && nframes == 0, "exchange/oversize", || format!("{:?} {} frames", r.is_ok(), nframes));
        t.out("request too long".to_string());
    } else if k.fail || !back {
        t.check(r.is_err(), "exchange/failure", || "the operation succeeds".into());
        t.check(tight || nframes == 2, "exchange/failure-frames", || format!("{nframes} frames"));
        t.out(if k.fail { "handler fails" } else { "answer too long" }.to_string());
    } else if tight {
        t.check(r.as_ref().map_or(true, |x| *x == want), "exchange/answer", || "another answer".into());
        t.out(format!("tight {}", r.is_ok()));
    } else {
        t.check(r.as_ref().ok() == Some(&want), "exchange/answer", || format!("{:?} bytes, expected {}", r.as_ref().map(|x| x.len()), want.len()));
        t.check(got.len() == 1, "exchange/handler", || format!("handler called {} times", got.len()));
        t.check(nframes == 2, "exchange/frames", || format!("{nframes}"));
        // in the clear the bytes are there to see
        if s.is_none() {
            let f: Vec<Vec<u8>> = link(|l| l.wire[l.wire.len() - 2..].iter().map(|x| x.1.clone()).collect());
            let mut rq = vec![n.ver, 0xfe, 0, 0];
            rq.extend(k.std.to_le_bytes());
            rq.push(k.id.len() as u8);
            rq.extend(k.id);
            let mut rs = rq.clone();
            rs[1] = 0x7e;
            rq.extend((d.len() as u16).to_le_bytes());
            rq.extend(&d);
            rs.extend((want.len() as u16).to_le_bytes());
            rs.extend(&want);
            for (fr, want, what) in [(&f[0], rq, "request"), (&f[1], rs, "response")] {
                let p = unframe(cfg.tr, fr).map(|x| x.1).unwrap_or_default();
                t.check(p.len() >= want.len() && p[..want.len()] == want[..], &format!("exchange/wire-{what}"), || format!("{:02x?}", &p[..p.len().min(24)]));
            }
        }
        t.out("ok".to_string());
    }
}
fn start(cfg: &Cfg, t: &mut T) -> World {
    let mut w = World::new(cfg);
    let mut ops = vec![Op::Init];
    if can_ke(cfg) {
        ops.extend([Op::Digest(None), Op::Cert(None, 0), Op::Ke(0, 0)]);
    }
    if can_psk(cfg) {
        ops.push(Op::Psk(0));
    }
    for o in ops {
        let r = w.op(&o);
        t.check(r.is_ok(), "setup", || format!("{} {r:?}", o.short()));
    }
    w
}
/// everything still works
fn after(w: &mut World, t: &mut T) {
    let cfg = w.cfg.clone();
    if let Err((k, d)) = agreement(w) {
        t.fail(format!("after/{k}"), d);
    }
    w.op(&Op::Cert(None, 0)).ok();
    let mut ops: Vec<Op> = (0..w.sids.len()).flat_map(|h| [Op::Hb(h), Op::Ku(h, 2), Op::Meas(Some(h), false, 1, 0)]).collect();
    if can_sign(common_ver(&cfg)) {
        ops.extend([Op::Meas(None, true, 1, 0), Op::Chal(0, 0)]);
        ops.extend((0..w.sids.len()).map(|h| Op::Meas(Some(h), true, 1, 0)));
    }
    ops.extend((0..w.sids.len()).map(Op::End));
    for o in ops {
        if matches!(o, Op::Chal(..)) {
            w.op(&Op::Cert(None, 0)).ok();
        }
        let r = w.op(&o);
        t.steps += 1;
        t.check(r.is_ok(), "after/op", || format!("{} {r:?}", o.short()));
    }
}
pub fn run(c: &Ctx) {
    let mut cfgs: Vec<(String, Cfg)> = vec![];
    for v in [0x12u8, 0x11, 0x10] {
        for tr in [Tr::Mctp, Tr::Doe] {
            cfgs.push((format!("{v:x} {tr:?}"), cfg_v(v, tr)));
        }
    }
    let mut k = cfg_v(0x12, Tr::Mctp);
    k.req.dts = 500;
    k.rsp.dts = 450;
    k.req.max_msg = 500;
    k.rsp.max_msg = 450;
    let small = cfgs.len();
    cfgs.push(("12 small transfers".into(), k.clone()));
    k.req.dts = 450;
    k.rsp.dts = 1000;
    k.req.max_msg = 450;
    k.rsp.max_msg = 1000;
    cfgs.push(("12 small answers".into(), k));
    let wheres = |cfg: &Cfg| -> Vec<Option<usize>> {
        let n = can_ke(cfg) as usize + can_psk(cfg) as usize;
        (0..=n).map(|i| i.checked_sub(1)).collect()
    };
    // identifiers x lengths
    let stds: Vec<u16> = (0..12).chain([0x7fff, 0xffff]).collect();
    let ids = [0usize, 1, 2, 4, 5, 64, 254, 255];
    let lens = |q: bool| -> Vec<usize> {
        let mut v = vec![0usize, 1, 2, 3, 4, 5, 15, 16, 17, 100, 255, 256, 257, 1000, MAX - 260, MAX - 64, MAX - 5, MAX - 2, MAX - 1, MAX];
        if !q {
            v.extend((6..MAX).step_by(211));
        }
        v
    };
    let ls = lens(c.quick());
    let mut list = vec![];
    for (ci, (_, cfg)) in cfgs.iter().enumerate() {
        for s in wheres(cfg) {
            for (si, _) in stds.iter().enumerate() {
                for (ii, _) in ids.iter().enumerate() {
                    for li in 0..ls.len() {
                        // quick: standards and identifiers in pairs
                        if c.quick() && (si + ii + li) % 4 != 0 {
                            continue;
                        }
                        list.push((ci, s, si, ii, li));
                    }
                }
            }
        }
    }
    c.par("grid", list.len(), |i, t| {
        let (ci, s, si, ii, li) = list[i];
        t.desc = format!("{} session {s:?} standard {} id of {} payload {}", cfgs[ci].0, stds[si], ids[ii], ls[li]);
        let mut w = start(&cfgs[ci].1, t);
        let id = pat(ids[ii], 0x40);
        for rsp in [None, Some(0), Some(ls[ls.len() - 1 - li]), Some(ls[(li * 7 + ii) % ls.len()])] {
            exchange(&mut w, s, &Case { std: stds[si], id: &id, req: ls[li], rsp, fail: false }, t);
        }
        exchange(&mut w, s, &Case { std: stds[si], id: &id, req: ls[li], rsp: None, fail: true }, t);
        exchange(&mut w, s, &Case { std: 3, id: b"ab", req: 7, rsp: None, fail: false }, t);
        after(&mut w, t);
        t.step(w.fp());
    });
    // every length of request and answer
    let per = 16;
    let mut list = vec![];
    for (ci, (_, cfg)) in cfgs.iter().enumerate() {
        for s in wheres(cfg) {
            for b in 0..(MAX + 1 + per - 1) / per {
                if c.quick() && (ci + b) % 3 != 0 && b * per > 400 && (b + 1) * per < MAX - 300 {
                    continue;
                }
                list.push((ci, s, b));
            }
        }
    }
    c.par("lengths", list.len(), |i, t| {
        let (ci, s, b) = list[i];
        t.desc = format!("{} session {s:?} lengths from {}", cfgs[ci].0, b * per);
        let mut w = start(&cfgs[ci].1, t);
        for n in b * per..((b + 1) * per).min(MAX + 1) {
            exchange(&mut w, s, &Case { std: 3, id: b"ab", req: n, rsp: Some(n.min(40)), fail: false }, t);
            exchange(&mut w, s, &Case { std: 4, id: b"abcd", req: n.min(40), rsp: Some(n), fail: false }, t);
        }
        after(&mut w, t);
        t.step(w.fp());
    });
    // requests no requester of this library would send
    let mut list = vec![];
    for (ci, (_, cfg)) in cfgs.iter().enumerate() {
        for s in wheres(cfg) {
            for full in [false, true] {
                for x in 0..RAW {
                    list.push((ci, s, full, x));
                }
            }
        }
    }
    c.par("raw", list.len(), |i, t| {
        let (ci, s, full, x) = list[i];
        t.desc = format!("{} session {s:?} handler {full} raw {x}", cfgs[ci].0);
        raw(&cfgs[ci].1, s, full, x, t);
    });
    let mut list = vec![];
    for (ci, (_, cfg)) in cfgs.iter().enumerate() {
        for s in wheres(cfg) {
            for x in 0..FORGED {
                list.push((ci, s, x));
            }
        }
    }
    c.par("forged", list.len(), |i, t| {
        let (ci, s, x) = list[i];
        t.desc = format!("{} session {s:?} forged {x}", cfgs[ci].0);
        forged(&cfgs[ci].1, s, x, t);
    });
    // at every point of a history
    let mut hs: Vec<(String, Cfg, Vec<Op>)> = vec![];
    for (n, k) in if c.quick() { cfgs[..small].to_vec() } else { catalogue() } {
        for rev in [false, true] {
            let h = long_history(&k, rev);
            hs.push((n.clone(), k.clone(), h));
        }
    }
    let mut list = vec![];
    for (hi, (_, k, h)) in hs.iter().enumerate() {
        for p in 0..=h.len() {
            for x in 0..4 {
                if !matches!(k.tr, Tr::Mctp) && c.quick() && p % 2 == 1 {
                    continue;
                }
                list.push((hi, p, x));
            }
        }
    }
    c.par("history", list.len(), |i, t| {
        let (hi, p, x) = list[i];
        let (n, cfg, h) = &hs[hi];
        t.desc = format!("{n}: vendor exchange {x} before operation {p} of {}", h.len());
        let mut u = User::default();
        let mut w = World::new(cfg);
        if !honest(&mut w, &h[..p], t, &mut u) {
            return;
        }
        let live: Vec<usize> = u.live.iter().copied().collect();
        let s = match x {
            0 | 3 => None,
            1 => live.first().copied(),
            _ => live.last().copied(),
        };
        if x > 0 && x < 3 && s.is_none() {
            return;
        }
        let before = face(&w);
        let calls = fake::with(|e| {
            if x == 3 {
                e.fail_nth = Some((Actor::Rsp, Kind::Vendor, 0));
            }
            e.vendor_calls.len()
        });
        let r = w.op(&Op::Vendor(s, b"in between".to_vec()));
        fake::with(|e| e.fail_nth = None);
        let n = fake::with(|e| e.vendor_calls.len()) - calls;
        if p > 0 {
            t.check(r.is_ok() == (x != 3) && n == (x != 3) as usize, "history/exchange", || format!("{r:?} {n} calls"));
        } else {
            // nothing is negotiated yet
            t.check(r.is_err() && n == 0, "history/early", || format!("{r:?} {n} calls"));
        }
        t.check(face(&w) == before, "history/state", || "changed".into());
        t.step(w.fp());
        honest_more(&mut w, &h[p..], t, &mut u);
        probe_sessions(&mut w, &u, t);
    });
}
/// the rest of a history, on the same user
fn honest_more(w: &mut World, ops: &[Op], t: &mut T, u: &mut User) {
    honest(w, ops, t, u);
}
const RAW: usize = 40;
/// malformed and unusual requests
fn raw(cfg: &Cfg, s: Option<usize>, fill: bool, x: usize, t: &mut T) {
    let w = World::new(cfg);
    let mut m = RefReq::new(cfg);
    let mut r = m.init().and_then(|_| m.cert(None, 0, 512));
    if r.is_ok() && can_ke(cfg) {
        r = m.ke(0, 0).map(|_| ());
    }
    if r.is_ok() && can_psk(cfg) {
        r = m.psk(0).map(|_| ());
    }
    if let Err(e) = r {
        return t.fail("raw/setup", e);
    }
    let n = m.n.clone();
    let payload = if fill { pat(100, 1) } else { vec![] };
    let good = |std: u16, id: &[u8]| {
        let mut v = vec![n.ver, 0xfe, 0, 0];
        v.extend(std.to_le_bytes());
        v.push(id.len() as u8);
        v.extend(id);
        v.extend((payload.len() as u16).to_le_bytes());
        v.extend(&payload);
        v
    };
    let mut q = good(3, b"ab");
    let len = q.len();
    // Some(true): served, Some(false): refused, None: either
    let verdict = match x {
        0..=10 => {
            q.truncate(x);
            if cfg.tr == Tr::Doe && s.is_none() && x > 8 {
                None
            } else {
                Some(false)
            }
        }
        11 => {
            q[9] = q[9].wrapping_add(1);
            // padding completes the message on some transports
            if cfg.tr == Tr::Doe {
                None
            } else {
                Some(false)
            }
        }
        12 => {
            q[9..11].copy_from_slice(&[0xff, 0xff]);
            Some(false)
        }
        13 => {
            q[9..11].copy_from_slice(&(MAX as u16 + 1).to_le_bytes());
            q.resize(11 + MAX.min(4000), 0);
            Some(false)
        }
        14 => {
            q[6] = 255;
            Some(false)
        }
        15 => {
            q[0] = 0x19;
            Some(false)
        }
        16 => {
            q.truncate(len - payload.len());
            q[9] = 1;
            q[10] = 1;
            Some(false)
        }
        17 => {
            q.push(0);
            None
        }
        18 => {
            q[2] = 0xff;
            None
        }
        19 => {
            q[3] = 0xff;
            None
        }
        20 => {
            q = good(0, b"");
            Some(true)
        }
        21 => {
            q = good(0xffff, b"ab");
            None
        }
        _ => {
            let id = pat((x - 21) * 13, 3);
            q = good(4, &id);
            if n.ver >= 0x12 && cfg.req.dts != 0 && 11 + id.len() + payload.len() > (cfg.req.dts as usize).min(4000) {
                return;
            }
            Some(true)
        }
    };
    let calls = fake::with(|e| e.vendor_calls.len());
    let before = face(&w);
    m.resets(0xfe, s);
    let a = m.any(s, "vendor", &q);
    t.steps += 1;
    let got = fake::with(|e| e.vendor_calls[calls..].to_vec());
    let served = matches!(&a, Ok(a) if a.len() > 1 && a[1] == 0x7e);
    t.check(face(&w) == before, "raw/state", || "changed".into());
    t.check(got.len() == served as usize, "raw/handler", || format!("{} calls, answer {:02x?}", got.len(), a.as_ref().map(|x| x[..x.len().min(8)].to_vec())));
    match verdict {
        Some(true) => {
            t.check(served && got.get(0) == Some(&payload), "raw/served", || format!("{:02x?}", a));
            let idl = q[6] as usize;
            let mut want = q[..7 + idl].to_vec();
            want[1] = 0x7e;
            want[2] = 0;
            want[3] = 0;
            let rs = def_vendor_rsp(&payload);
            want.extend((rs.len() as u16).to_le_bytes());
            want.extend(&rs);
            t.check(matches!(&a, Ok(a) if a.len() >= want.len() && a[..want.len()] == want[..]), "raw/answer", || format!("{:02x?}", a));
        }
        Some(false) => t.check(!served, "raw/malformed", || format!("{:02x?}", a)),
        None => (),
    }
    t.out(format!("{served}"));
    // the next one is served
    let sess_dead = a.is_err() && s.is_some();
    if !sess_dead {
        if let Err(e) = m.vendor(s, b"next") {
            t.fail("raw/next", e);
        }
    }
    t.step(w.fp());
}
const FORGED: usize = 26;
/// answers no responder of this library would send
fn forged(cfg: &Cfg, s: Option<usize>, x: usize, t: &mut T) {
    let r = RefRsp::new(cfg);
    let (mut w, r) = r.world();
    let mut ops = vec![Op::Init, Op::Cert(None, 0)];
    if can_ke(cfg) {
        ops.push(Op::Ke(0, 0));
    }
    if can_psk(cfg) {
        ops.push(Op::Psk(0));
    }
    for o in ops {
        let a = w.op(&o);
        t.check(a.is_ok(), "forged/setup", || format!("{} {a:?}", o.short()));
    }
    let verdict = std::rc::Rc::new(std::cell::Cell::new(None));
    let v2 = verdict.clone();
    let doe = cfg.tr == Tr::Doe;
    r.borrow_mut().tamper = Some(Box::new(move |tag, m| {
        if tag != "vendor" {
            return;
        }
        let n = m.len();
        v2.set(match x {
            0..=10 => {
                m.truncate(x);
                if doe && x > 8 {
                    None
                } else {
                    Some(false)
                }
            }
            11 => {
                m.truncate(n - 1);
                if doe {
                    None
                } else {
                    Some(false)
                }
            }
            12 => {
                m[9..11].copy_from_slice(&[0xff, 0xff]);
                Some(false)
            }
            13 => {
                m[9..11].copy_from_slice(&(MAX as u16 + 1).to_le_bytes());
                m.resize(11 + 4000, 0);
                Some(false)
            }
            14 => {
                m[6] = 255;
                Some(false)
            }
            15 => {
                m[0] = 0x19;
                Some(false)
            }
            16 => {
                m[1] = 0x61;
                Some(false)
            }
            17 => {
                m[1] = 0xfe;
                Some(false)
            }
            18..=21 => {
                *m = m_err(m[0], [1, 3, 4, 7][x - 18], 0);
                Some(false)
            }
            22 => {
                m.push(0);
                None
            }
            23 => {
                m[2] = 0xff;
                m[3] = 0xff;
                None
            }
            24 => {
                m.truncate(9);
                m.extend([0, 0]);
                Some(true)
            }
            _ => Some(true),
        });
    }));
    let before = (nego(&w.req.common), sess_table(&w.req.common));
    let a = w.op(&Op::Vendor(s, b"hello".to_vec()));
    t.steps += 1;
    if let Some(v) = verdict.get() {
        t.check(a.is_ok() == v, "forged/outcome", || format!("{a:?}"));
    }
    if let Ok(Out::Data(d)) = &a {
        let want = if x == 24 { vec![] } else { def_vendor_rsp(b"hello") };
        t.check(verdict.get().is_none() || *d == want, "forged/answer", || format!("{d:02x?}"));
    }
    t.check((nego(&w.req.common), sess_table(&w.req.common)) == before, "forged/state", || "changed".into());
    r.borrow_mut().tamper = None;
    // no answer at all leaves a session's record numbers different
    if x > 0 || s.is_none() {
        let a = w.op(&Op::Vendor(s, b"next".to_vec()));
        t.check(matches!(&a, Ok(Out::Data(d)) if *d == def_vendor_rsp(b"next")), "forged/next", || format!("{a:?}"));
    }
    t.out(format!("{}", a.is_ok()));
    t.step(w.fp());
}
