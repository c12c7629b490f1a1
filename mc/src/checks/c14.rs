//! Certificate chains and digests: every provisioning, every chain size, every portion size, every offset and length, every
//! inconsistent portion stream and every damaged chain.
use crate::cert;
use crate::explore::*;
use crate::model::*;
use crate::user::*;
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

/// the chain the requester holds for a slot
pub fn held(w: &World, slot: usize) -> Option<Vec<u8>> {
    w.req.common.peer_info.peer_cert_chain[slot].as_ref().map(|c| c.data[..c.data_size as usize].to_vec())
}
fn holds(t: &mut T, w: &World, slot: usize, want: &Option<Vec<u8>>, key: &str, what: &str) {
    let h = held(w, slot);
    t.check(&h == want, key, || {
        let at = h.iter().flatten().zip(want.iter().flatten()).position(|(a, b)| a != b);
        format!("{what}: slot {slot} holds {:?} bytes, expected {:?}; first difference {at:?}", h.as_ref().map(|x| x.len()), want.as_ref().map(|x| x.len()))
    })
}
/// may this chain be accepted: independent of how it arrived
fn acceptable(n: &Neg, trust: Option<&[u8]>, c: &[u8]) -> bool {
    let hs = n.hs();
    if c.len() <= 4 + hs || u16::from_le_bytes([c[0], c[1]]) as usize != c.len() || c.len() > 4 + hs + 4096 {
        return false;
    }
    let der = &c[4 + hs..];
    if !cert::verify(der) {
        return false;
    }
    let (b, e) = cert::split(der).unwrap()[0];
    c[4..4 + hs] == n.hash(&der[b..e])[..] && trust.map_or(true, |t| t == &der[b..e])
}
fn wrap(n: &Neg, der: &[u8]) -> Vec<u8> {
    let (b, e) = cert::split(der).map_or((0, der.len()), |v| v[0]);
    let mut v = ((4 + n.hs() + der.len()) as u16).to_le_bytes().to_vec();
    v.extend([0, 0]);
    v.extend(n.hash(&der[b..e]));
    v.extend(der);
    v
}
fn trust_of(cfg: &Cfg) -> Option<Vec<u8>> {
    let a = cfg.rsp.asym;
    cfg.req.trust.map(|t| cert::root_cert(t, if a == 0 { 0x80 } else { 1 << (31 - a.leading_zeros()) }))
}
/// the operations that use the chain of a slot work exactly when there is one
fn usable(t: &mut T, w: &mut World, slot: u8, yes: bool, key: &str) {
    if can_sign(expected_neg(&w.cfg).unwrap().ver) {
        let r = w.op(&Op::Chal(slot, 0));
        t.check(r.is_ok() == yes, key, || format!("CHALLENGE of slot {slot}: {r:?}, expected success {yes}"));
    }
    if can_ke(&w.cfg) {
        let r = w.op(&Op::Ke(slot, 0));
        t.check(r.is_ok() == yes, key, || format!("KEY_EXCHANGE of slot {slot}: {r:?}, expected success {yes}"));
    }
}

pub fn run(c: &Ctx) {
    sizes(c);
    slots(c);
    portions(c);
    requests(c);
    streams(c);
    damaged(c);
}
fn configs(deep: bool) -> Vec<(&'static str, Cfg)> {
    let mut v = vec![("12", cfg_v(0x12, Tr::Mctp)), ("12doe", cfg_v(0x12, Tr::Doe)), ("11", cfg_v(0x11, Tr::Mctp)), ("10", cfg_v(0x10, Tr::Mctp))];
    for (name, h, a, d, ae) in [("256", 1u32, 0x10u32, 8u16, 1u16), ("512", 4, 4, 16, 4)] {
        let mut k = cfg_v(0x12, Tr::Mctp);
        set_algs(&mut k, h, a, d, ae);
        if std::panic::catch_unwind(|| expected_neg(&k)).ok().flatten().is_some() && (deep || name == "256") {
            v.push((name, k));
        }
    }
    v
}
fn sizes(c: &Ctx) {
    let cfgs = configs(!c.quick());
    let max = 4096usize;
    // around every portion boundary, and (thorough) everything
    let mut list: Vec<usize> = vec![0];
    for n in 300..=max {
        let near = (n + 52) % 512;
        if !c.quick() || near < 3 || near > 509 || n % 97 == 0 || n > max - 4 || (n + 36) % 512 < 2 {
            list.push(n);
        }
    }
    c.par("sizes", cfgs.len() * list.len(), |i, t| {
        let x = digits(i, &[list.len(), cfgs.len()]);
        let mut cfg = cfgs[x[1]].1.clone();
        let slot = x[0] % 8;
        cfg.rsp.slots = vec![(0, 0)];
        if slot != 0 {
            cfg.rsp.slots.push((slot, list[x[0]]));
        } else {
            cfg.rsp.slots[0].1 = list[x[0]];
        }
        let n = expected_neg(&cfg).unwrap();
        let want = wire_chain(&n, &cfg.rsp, false, slot);
        t.desc = format!("{} slot {slot} chain of {:?} bytes", cfgs[x[1]].0, want.as_ref().map(|w| w.len()));
        let mut w = World::new(&cfg);
        t.check(w.op(&Op::Init).is_ok(), "setup", || String::new());
        let r = w.op(&Op::Cert(None, slot as u8));
        t.steps += 2;
        t.check(r.is_ok(), "sizes/refused", || format!("{r:?}"));
        holds(t, &w, slot, &want, "sizes/chain", "in the clear");
        t.step(hash64(&[&want.clone().unwrap_or_default()]));
        // in a session, for a requester that has only another slot
        if can_ke(&cfg) && (x[0] % 4 == 0 || !c.quick()) {
            let mut w = World::new(&cfg);
            let _ = w.op(&Op::Init);
            let first = if slot == 0 { 0 } else { 0 };
            let _ = w.op(&Op::Cert(None, first));
            if w.op(&Op::Ke(first, 0)).is_ok() {
                w.req.common.peer_info.peer_cert_chain[slot] = None;
                let r = w.op(&Op::Cert(Some(0), slot as u8));
                t.check(r.is_ok(), "sizes/session-refused", || format!("{r:?}"));
                holds(t, &w, slot, &want, "sizes/session-chain", "in a session");
                t.steps += 4;
            } else {
                t.fail("sizes/session", "no session");
            }
        }
        t.out(if t.fails.is_empty() { "ok" } else { "bad" });
    });
}
/// every subset of slots, every slot asked for
fn slots(c: &Ctx) {
    let cfgs = configs(false);
    c.par("slots", cfgs.len() * 256, |i, t| {
        let x = digits(i, &[256, cfgs.len()]);
        let mask = x[0];
        let mut cfg = cfgs[x[1]].1.clone();
        // sizes that differ from slot to slot
        cfg.rsp.slots = (0..8).filter(|s| mask >> s & 1 != 0).map(|s| (s, 400 + 150 * s)).collect();
        t.desc = format!("{} provisioned slots {mask:08b}", cfgs[x[1]].0);
        let n = expected_neg(&cfg).unwrap();
        // what the responder sends
        {
            let _w = World::new(&cfg);
            let mut m = RefReq::new(&cfg);
            let r = m.init().and_then(|_| m.digest(None));
            t.check(r.is_ok(), "slots/digests", || format!("{r:?}"));
            for s in 0..=255u8 {
                // any slot number, in the bits of the slot number
                let q = m_get_cert(n.ver, s, 0, 512);
                let r = m.any(None, "cert", &q).unwrap_or_default();
                t.steps += 1;
                let s4 = s as usize & 15;
                // reserved bits are ignored or refused
                let good = s4 < 8 && mask >> s4 & 1 != 0 && !(s > 15 && r.get(1) == Some(&0x7f));
                t.check(good == (r.get(1) == Some(&2)), "slots/answer", || format!("slot byte {s:02x}: {:02x?}", &r[..r.len().min(8)]));
                if good {
                    let want = m_cert(n.ver, s4 as u8, &wire_chain(&n, &cfg.rsp, false, s4).unwrap(), 0, 512);
                    t.check(r.get(..want.len()) == Some(&want[..]), "slots/content", || format!("slot {s:02x}"));
                } else {
                    t.check(r.len() >= 4 && r[1] == 0x7f, "slots/error", || format!("slot {s:02x}: {r:02x?}"));
                }
            }
        }
        // what the requester obtains, one slot after the other, then again backwards
        let mut w = World::new(&cfg);
        t.check(w.op(&Op::Init).is_ok(), "setup", || String::new());
        let r = w.op(&Op::Digest(None));
        t.check(r.is_ok(), "slots/digest-op", || format!("{r:?}"));
        for s in (0..10u8).chain((0..8).rev()) {
            if !HASHED {
                // its transcript buffer holds only so many chains
                let _ = w.op(&Op::Init);
            }
            let r = w.op(&Op::Cert(None, s));
            t.steps += 1;
            let good = s < 8 && mask >> s & 1 != 0;
            t.check(r.is_ok() == good, "slots/op", || format!("slot {s}: {r:?}"));
            if good {
                holds(t, &w, s as usize, &wire_chain(&n, &cfg.rsp, false, s as usize), "slots/chain", "at once");
            }
        }
        for s in (0..8).filter(|_| HASHED) {
            holds(t, &w, s, &wire_chain(&n, &cfg.rsp, false, s), "slots/chain", "after all");
        }
        for s in 0..8u8 {
            // the non-hashed transcript of so many chains may not fit; a fresh one does
            let _ = w.op(&Op::Init);
            let good = mask >> s & 1 != 0;
            if good {
                let r = w.op(&Op::Cert(None, s));
                t.check(r.is_ok(), "slots/op", || format!("slot {s}: {r:?}"));
            }
            usable(t, &mut w, s, good, "slots/use");
        }
        t.step(w.fp());
        t.out(if t.fails.is_empty() { "ok" } else { "bad" });
    });
}
/// whatever portions the responder returns
fn portions(c: &Ctx) {
    let cfgs = configs(false);
    let lens = [0usize, 460, 972, 1500];
    let sizes: Vec<usize> = (1..=512).collect();
    c.par("portion", cfgs.len() * lens.len() * sizes.len(), |i, t| {
        let x = digits(i, &[sizes.len(), lens.len(), cfgs.len()]);
        let mut cfg = cfgs[x[2]].1.clone();
        cfg.rsp.slots = vec![(0, lens[x[1]])];
        let p = sizes[x[0]];
        if c.quick() && (x[2] > 1 && p > 8 && p < 500 || p < 6 && lens[x[1]] > 500) {
            return t.out("skipped");
        }
        t.desc = format!("{} chain {} portions of {p}", cfgs[x[2]].0, lens[x[1]]);
        let n = expected_neg(&cfg).unwrap();
        let want = wire_chain(&n, &cfg.rsp, false, 0);
        let l = want.as_ref().unwrap().len();
        if !HASHED && l + 16 * (l / p + 1) > 3800 {
            // its transcript buffer holds only so many messages
            return t.out("skipped");
        }
        let (mut w, m) = RefRsp::new(&cfg).world();
        link(|l| l.horizon = 12000);
        m.borrow_mut().portion = p;
        t.check(w.op(&Op::Init).is_ok(), "setup", || String::new());
        let r = w.op(&Op::Cert(None, 0));
        t.steps += 3000 / p as u64;
        t.check(r.is_ok(), "portion/refused", || format!("{r:?}"));
        holds(t, &w, 0, &want, "portion/chain", "");
        if HASHED || p > 100 {
            usable(t, &mut w, 0, true, "portion/use");
        }
        t.check(m.borrow().bad.is_empty(), "portion/request", || m.borrow().bad.join("; "));
        t.step(hash64(&[&(p as u64).to_le_bytes(), &[x[1] as u8]]));
        t.out("ok");
    });
    // every sequence of a few different portions, in the clear and in a session
    let vals = [1usize, 2, 31, 255, 511, 512];
    let depth = c.pick(4, 5);
    let ns = count_seqs(vals.len(), depth);
    c.par("portion-seq", cfgs.len() * 2 * ns, |i, t| {
        let x = digits(i, &[ns, 2, cfgs.len()]);
        let mut cfg = cfgs[x[2]].1.clone();
        if c.quick() && x[2] > 2 || x[1] == 1 && !can_ke(&cfg) {
            return t.out("skipped");
        }
        cfg.rsp.slots = vec![(0, 0), (3, 1200)];
        let seq: Vec<usize> = nth_seq(x[0], vals.len(), depth).iter().map(|k| vals[*k]).collect();
        t.desc = format!("{} portions {seq:?} {}", cfgs[x[2]].0, if x[1] == 1 { "in a session" } else { "" });
        let n = expected_neg(&cfg).unwrap();
        let chain = wire_chain(&n, &cfg.rsp, false, 3).unwrap();
        let (mut w, m) = RefRsp::new(&cfg).world();
        let mut s = None;
        let mut ok = w.op(&Op::Init).is_ok();
        if x[1] == 1 {
            ok &= w.op(&Op::Cert(None, 0)).is_ok() && w.op(&Op::Ke(0, 0)).is_ok();
            s = Some(0);
        }
        t.check(ok, "setup", || String::new());
        let (ch, mut k) = (chain.clone(), 0);
        let asked: Rc<RefCell<Vec<(u8, usize, usize, usize)>>> = Default::default();
        let a2 = asked.clone();
        m.borrow_mut().cert_fn = Some(Box::new(move |slot, off, len| {
            let p = *seq.get(k).unwrap_or(&512);
            k += 1;
            let r = m_cert(n.ver, slot, &ch, off, len.min(p));
            a2.borrow_mut().push((slot, off, len, r.len() - 8));
            r
        }));
        let r = w.op(&Op::Cert(s, 3));
        t.steps += 6;
        t.check(r.is_ok(), "portion/refused", || format!("{r:?}"));
        holds(t, &w, 3, &Some(chain.clone()), "portion/chain", "");
        // the requests cover the chain without gaps, and never ask for more than is left
        let mut at = 0;
        for (slot, off, len, got) in asked.borrow().iter() {
            t.check(*slot == 3 && *off == at && *len <= 512 && *len > 0 && (at == 0 || *len <= chain.len() - at), "portion/ask", || format!("slot {slot} offset {off} length {len} at {at} of {}", chain.len()));
            at += got;
        }
        t.step(w.fp());
        t.out("ok");
    });
}
/// every offset and length asked of the responder
fn requests(c: &Ctx) {
    let cfgs = configs(false);
    let mut k = cfgs[0].1.clone();
    k.rsp.slots = vec![(0, 0)];
    let len = wire_chain(&expected_neg(&k).unwrap(), &k.rsp, false, 0).unwrap().len();
    let lens: Vec<usize> = (0..20).chain([63, 64, 255, 256, 300, 511, 512, 513, 1024, 4096, 65535]).collect();
    let step = if c.quick() { 3 } else { 1 };
    c.par("requests", cfgs.len() * 2 * lens.len(), |i, t| {
        let x = digits(i, &[lens.len(), 2, cfgs.len()]);
        let cfg = &cfgs[x[2]].1;
        if x[1] == 1 && !can_ke(cfg) {
            return t.out("skipped");
        }
        let n = expected_neg(cfg).unwrap();
        t.desc = format!("{} length {} {}", cfgs[x[2]].0, lens[x[0]], if x[1] == 1 { "in a session" } else { "" });
        let chain = wire_chain(&n, &cfg.rsp, false, 0).unwrap();
        let _w = World::new(cfg);
        link(|l| l.horizon = 100_000);
        let mut m = RefReq::new(cfg);
        let s = match m.init().and_then(|_| if x[1] == 1 { m.ke(0, 0).map(Some) } else { Ok(None) }) {
            Ok(s) => s,
            Err(e) => return t.fail("setup", e),
        };
        for off in (0..len + 4).step_by(step).chain(len - 3..len + 3).chain([1023, 4095, 4096, 32767, 32768, 65534, 65535]) {
            let r = match m.any(s, "cert", &m_get_cert(n.ver, 0, off, lens[x[0]])) {
                Ok(r) => r,
                Err(e) => return t.fail("requests/answer", format!("offset {off}: {e}")),
            };
            t.steps += 1;
            // non-hashed transcripts fill up
            if !HASHED && x[1] == 0 && r.get(1) == Some(&0x7f) && off <= chain.len() {
                let _ = m.init();
                continue;
            }
            if off > chain.len() {
                t.check(r.get(1) == Some(&0x7f), "requests/beyond", || format!("offset {off}: {:02x?}", &r[..r.len().min(8)]));
            } else {
                let want = m_cert(n.ver, 0, &chain, off, lens[x[0]].min(512));
                let empty = off == chain.len() || lens[x[0]] == 0;
                let ok = r.get(..want.len()) == Some(&want[..]) || empty && r.get(1) == Some(&0x7f);
                t.check(ok, "requests/portion", || format!("offset {off}: {:02x?}, expected {:02x?}", &r[..r.len().min(12)], &want[..want.len().min(12)]));
            }
        }
        t.step(i as u64);
        t.out(if t.fails.is_empty() { "ok" } else { "bad" });
    });
}
const DEV: usize = 40;
/// the k-th answer deviates; the requester accepts exactly what is consistent and adds up to an acceptable chain
fn streams(c: &Ctx) {
    let cfgs = configs(false);
    let ports = [512usize, 200, 37];
    let at = c.pick(6, 30);
    c.par("streams", cfgs.len() * ports.len() * at * DEV * 2, |i, t| {
        let x = digits(i, &[DEV, at, ports.len(), 2, cfgs.len()]);
        let mut cfg = cfgs[x[4]].1.clone();
        let insess = x[3] == 1;
        if insess && !can_ke(&cfg) || c.quick() && x[4] > 2 {
            return t.out("skipped");
        }
        cfg.rsp.slots = vec![(0, 0), (2, 1100)];
        let n = expected_neg(&cfg).unwrap();
        let (dev, k, p) = (x[0], x[1], ports[x[2]]);
        t.desc = format!("{} portions of {p}, answer {k} deviates by {dev}{}", cfgs[x[4]].0, if insess { ", in a session" } else { "" });
        let chain = wire_chain(&n, &cfg.rsp, false, 2).unwrap();
        let trust = trust_of(&cfg);
        let (mut w, m) = RefRsp::new(&cfg).world();
        let mut ok = w.op(&Op::Init).is_ok() && w.op(&Op::Cert(None, 0)).is_ok();
        if insess {
            ok &= w.op(&Op::Ke(0, 0)).is_ok();
        }
        t.check(ok, "setup", || String::new());
        // what a requester that follows the rules would make of it
        #[derive(Default)]
        struct Rx {
            got: Vec<u8>,
            total: usize,
            refused: bool,
            done: bool,
            n: usize,
        }
        let rx: Rc<RefCell<Rx>> = Default::default();
        let (r2, ch, ver) = (rx.clone(), chain.clone(), n.ver);
        let cap = 4 + n.hs() + 4096;
        m.borrow_mut().cert_fn = Some(Box::new(move |slot, off, len| {
            let mut s = r2.borrow_mut();
            let me = s.n;
            s.n += 1;
            let off2 = off.min(ch.len());
            let mut v = m_cert(ver, slot, &ch, off2, len.min(p));
            if me == k {
                v = deviate(dev, v, slot, off2, len, &ch);
            }
            // judge
            let w = |i: usize| v.get(i..i + 2).map_or(0, |b| u16::from_le_bytes([b[0], b[1]]) as usize);
            let (pl, rl) = (w(4), w(6));
            let tot = off + pl + rl;
            let fine = v.len() >= 8 && v[0] == ver && v[1] == 2 && v[2] & 15 == slot && pl > 0 && pl <= len && pl <= 512 && v.len() >= 8 + pl && tot <= cap && (s.total == 0 || s.total == tot) && off == s.got.len();
            if !fine || s.done {
                s.refused = true;
            } else {
                s.total = tot;
                let part = v[8..8 + pl].to_vec();
                s.got.extend(part);
                s.done = s.got.len() == tot;
            }
            v
        }));
        let r = w.op(&Op::Cert(insess.then_some(0), 2));
        t.steps += 4;
        let rx = rx.borrow();
        if rx.n <= k {
            // the stream is over before the deviation
            holds(t, &w, 2, &Some(chain.clone()), "streams/chain", "undisturbed");
            return t.out("undisturbed");
        }
        let mut accept = !rx.refused && rx.done && acceptable(&n, trust.as_deref(), &rx.got);
        if dev == 17 || dev == 18 {
            // reserved bits are ignored or refused
            accept &= r.is_ok();
        }
        t.check(r.is_ok() == accept, "streams/verdict", || format!("{r:?}, expected success {accept}; {} of {} bytes in {} answers", rx.got.len(), rx.total, rx.n));
        holds(t, &w, 2, &accept.then(|| rx.got.clone()), "streams/chain", "after the stream");
        drop(rx);
        m.borrow_mut().cert_fn = None;
        if !accept && !insess {
            usable(t, &mut w, 2, false, "streams/use");
        }
        // the true chain can still be obtained
        let r = w.op(&Op::Init);
        t.check(r.is_ok(), "streams/later", || format!("connect {r:?}"));
        let r = w.op(&Op::Cert(None, 2));
        t.check(r.is_ok(), "streams/later", || format!("{r:?}"));
        holds(t, &w, 2, &Some(chain), "streams/later", "again");
        usable(t, &mut w, 2, true, "streams/later-use");
        t.step(w.fp());
        t.out(if accept { "accepted" } else { "refused" });
    });
}
fn deviate(d: usize, mut v: Vec<u8>, slot: u8, off: usize, len: usize, ch: &[u8]) -> Vec<u8> {
    let n = v.len() - 8;
    let rem = ch.len() - off - n;
    let set = |v: &mut Vec<u8>, p: usize, r: usize| {
        v[4..6].copy_from_slice(&(p as u16).to_le_bytes());
        v[6..8].copy_from_slice(&(r as u16).to_le_bytes());
    };
    match d {
        0 => set(&mut v, 0, rem + n),
        1 => set(&mut v, 0, 0),
        2 => {
            set(&mut v, 0, rem + n);
            v.truncate(8);
        }
        3 => set(&mut v, n, rem + 1),
        4 => set(&mut v, n, rem.wrapping_sub(1)),
        5 => set(&mut v, n, 0),
        6 => set(&mut v, n, 0xffff),
        7 => set(&mut v, n, 0xffff - n),
        8 => set(&mut v, n + 1, rem),
        9 => {
            set(&mut v, n - 1, rem + 1);
        }
        10 => {
            set(&mut v, n - 1, rem);
        }
        11 => {
            v.truncate(v.len() - 1);
        }
        12 => v.push(0),
        // more than was asked for
        13 => {
            v.resize(8, 0);
            v.extend(ch[off..].iter().chain(&[0u8; 600]).take(len + 1));
            set(&mut v, len + 1, (ch.len() - off).saturating_sub(len + 1));
        }
        14 => {
            v.resize(8, 0);
            v.extend(ch[off..].iter().chain(&[0u8; 600]).take(513));
            set(&mut v, 513, (ch.len() - off).saturating_sub(513));
        }
        15 => v[2] = slot ^ 1,
        16 => v[2] = slot + 8,
        17 => v[2] |= 0x10,
        18 => v[2] |= 0xf0,
        19 => v[3] = 0xff,
        20 => v[0] ^= 1,
        21 => v[0] = 0x10 + (v[0] + 1) % 3,
        22 => v[1] = 0x01,
        23 => v = vec![v[0], 0x7f, 1, 0],
        24 => v = vec![v[0], 0x7f, 3, 0],
        25 => v.truncate(4),
        26 => v.truncate(8),
        // another part of the chain
        27 => {
            let k = v.len();
            v[8..].copy_from_slice(&ch[..k - 8].to_vec());
        }
        28 => {
            let k = v.len() - 8;
            v[8..].copy_from_slice(&ch[ch.len() - k..]);
        }
        29 => v[8] ^= 1,
        30 => {
            let k = v.len() - 1;
            v[k] ^= 0x80;
        }
        31 => v[8..].iter_mut().for_each(|b| *b = 0),
        // the whole rest announced as another length
        32 => set(&mut v, n, 4096),
        33 => set(&mut v, n, (4 + 32 + 4096usize).saturating_sub(off + n)),
        34 => set(&mut v, n, (4 + 48 + 4096usize).saturating_sub(off + n)),
        35 => set(&mut v, n, (4 + 48 + 4096usize + 1).saturating_sub(off + n)),
        36 => set(&mut v, 0x8000, rem),
        37 => set(&mut v, 0xffff, 1),
        38 => set(&mut v, n.saturating_sub(n / 2).max(1), rem + n / 2),
        // a shorter portion that is consistent
        _ => {
            let k = (n / 2).max(1);
            v.truncate(8 + k);
            set(&mut v, k, rem + n - k);
        }
    }
    v
}
/// every damaged chain
fn damaged(c: &Ctx) {
    let cfgs = configs(false);
    let mut base: Vec<Vec<u8>> = vec![];
    for (_, k) in &cfgs {
        base.push(wire_chain(&expected_neg(k).unwrap(), &k.rsp, false, 0).unwrap());
    }
    let kinds = 5;
    let max = base.iter().map(|b| b.len()).max().unwrap();
    c.par("damaged", cfgs.len() * kinds * (max + 40), |i, t| {
        let x = digits(i, &[max + 40, kinds, cfgs.len()]);
        let (at, kind) = (x[0], x[1]);
        let cfg = cfgs[x[2]].1.clone();
        if c.quick() && x[2] > 1 && kind < 3 && at % 5 != 0 && at > 100 {
            return t.out("skipped");
        }
        let n = expected_neg(&cfg).unwrap();
        let b = &base[x[2]];
        let key = (n.asym, cfg.rsp.root, cfg.rsp.key);
        let mut v = b.clone();
        let what = match kind {
            0 | 1 if at < b.len() => {
                v[at] ^= if kind == 0 { 1 } else { 0x80 };
                "bit"
            }
            2 if at < b.len() => {
                v.remove(at);
                let k = v.len() as u16;
                v[..2].copy_from_slice(&k.to_le_bytes());
                "byte missing"
            }
            3 if at < b.len() => {
                // cut here, the length corrected
                v.truncate(at.max(2));
                let k = v.len() as u16;
                v[..2].copy_from_slice(&k.to_le_bytes());
                "cut"
            }
            4 if at < 40 => {
                let top = 1u32 << (31 - cfg.rsp.asym.leading_zeros());
                let ch = |root, leaf| cert::chain(root, leaf, 2, top, 0);
                let leaf = cert::make(key.1, key.2, 2, top, 0);
                let root = cert::root_cert(key.1, top);
                let mid = cert::make(key.1, 0x4d49, 9, top, 0);
                let low = cert::make(0x4d49, key.2, 3, top, 0);
                let cat = |p: &[&Vec<u8>]| p.iter().flat_map(|x| x.iter().copied()).collect::<Vec<u8>>();
                let der: Vec<u8> = match at {
                    0 => ch(key.1, key.2),
                    1 => ch(0xbad, key.2),
                    2 => ch(key.1, 0x666),
                    3 => leaf,
                    4 => root,
                    5 => cat(&[&leaf, &root]),
                    6 => cat(&[&root, &leaf, &leaf]),
                    7 => cat(&[&root, &root, &leaf]),
                    8 => cat(&[&root, &mid, &low]),
                    9 => cat(&[&root, &low, &mid]),
                    10 => cat(&[&root, &low]),
                    11 => cat(&[&mid, &low]),
                    12 => cat(&[&root, &mid, &leaf]),
                    13 => cat(&[&root, &leaf, &vec![0]]),
                    14 => cat(&[&root, &leaf, &vec![0x30, 0]]),
                    15 => cat(&[&vec![0x30, 0], &root, &leaf]),
                    16 => cat(&[&cert::root_cert(0xbad, top), &leaf]),
                    17 => cat(&[&cert::root_cert(0xbad, top), &cert::make(0xbad, key.2, 2, top, 0)]),
                    _ => ch(key.1, key.2),
                };
                v = wrap(&n, &der);
                match at {
                    18 => v[..2].copy_from_slice(&(b.len() as u16 - 1).to_le_bytes()),
                    19 => v[..2].copy_from_slice(&(b.len() as u16 + 1).to_le_bytes()),
                    20 => v[..2].copy_from_slice(&[0, 0]),
                    21 => v[..2].copy_from_slice(&[0xff, 0xff]),
                    22 => v.swap(0, 1),
                    23 => v[4..4 + n.hs()].iter_mut().for_each(|x| *x = 0),
                    24 => {
                        // the hash of the leaf, of the whole
                        let d = n.hash(&v[4 + n.hs()..].to_vec());
                        v[4..4 + n.hs()].copy_from_slice(&d);
                    }
                    25 => {
                        v.push(0);
                    }
                    26 => {
                        v.push(0);
                        let k = v.len() as u16;
                        v[..2].copy_from_slice(&k.to_le_bytes());
                    }
                    27 => v[2..4].copy_from_slice(&[0xff, 0xff]),
                    28 => v.truncate(4 + n.hs()),
                    29 => v.truncate(4 + n.hs() + 1),
                    30 => v.truncate(1),
                    31 => v.truncate(3),
                    32 => {
                        // the hash of another certificate of the chain
                        let d = cert::split(&v[4 + n.hs()..]).unwrap()[1];
                        let d = n.hash(&v[4 + n.hs() + d.0..4 + n.hs() + d.1].to_vec());
                        v[4..4 + n.hs()].copy_from_slice(&d);
                    }
                    33 => v = vec![0; 600],
                    34 => v = vec![0xff; 600],
                    _ => {}
                }
                if (28..32).contains(&at) {
                    let k = v.len() as u16;
                    if v.len() > 1 {
                        v[..2].copy_from_slice(&k.to_le_bytes());
                    }
                }
                "chain"
            }
            _ => return t.out("none"),
        };
        for trusted in [true, false] {
            let mut cfg = cfg.clone();
            if !trusted {
                // no trust anchor provisioned: any root will do
                if kind != 4 {
                    continue;
                }
                cfg.req.trust = None;
            }
            let trust = trust_of(&cfg);
            let ok = acceptable(&n, trust.as_deref(), &v);
            // who would answer with the key of that chain
            let leaf = if ok { cert::leaf_key(&v[4 + n.hs()..]) } else { None };
            for first in [false, true] {
                if first && kind != 4 && (at % 7 != 0 || c.quick() && at % 49 != 0) {
                    continue;
                }
                t.desc = format!("{} {what} {at} kind {kind} trust {trusted} after the right one {first}", cfgs[x[2]].0);
                let (mut w, m) = RefRsp::new(&cfg).world();
                t.check(w.op(&Op::Init).is_ok(), "setup", || String::new());
                if first {
                    t.check(w.op(&Op::Cert(None, 0)).is_ok(), "setup", || String::new());
                }
                m.borrow_mut().chains.insert(0, v.clone());
                let r = w.op(&Op::Cert(None, 0));
                t.steps += 3;
                t.check(r.is_ok() == ok, "damaged/verdict", || format!("{r:?}, expected success {ok}"));
                let want = if ok { Some(v.clone()) } else { first.then(|| b.clone()) };
                holds(t, &w, 0, &want, "damaged/chain", "");
                // a connection with what the requester now holds
                if let Some(k) = leaf {
                    m.borrow_mut().sign_key = k;
                }
                if !first || ok {
                    usable(t, &mut w, 0, ok, "damaged/use");
                }
                t.step(w.fp());
            }
        }
        t.out(if t.fails.is_empty() { "ok" } else { "bad" });
    });
}
