//! Measurements: what the user gets is what the device has, for every table, index, order of queries and party.
use crate::explore::*;
use crate::fake::{self, meas_record, MeasBlock};
use crate::model::*;
use crate::user::*;
use crate::world::*;
use spdmlib::common::SpdmMeasurementContentChanged;

fn block(index: u8, repr: u8, n: usize) -> MeasBlock {
    MeasBlock { index, repr, value: (0..n).map(|k| (k as u8).wrapping_mul(7) ^ index ^ repr).collect() }
}
/// device tables: name, blocks
fn tables(deep: bool) -> Vec<(String, Vec<MeasBlock>)> {
    let mut v = vec![
        ("empty".to_string(), vec![]),
        ("one".into(), vec![block(1, 0, 48)]),
        ("three".into(), std_meas(48)),
        ("sparse".into(), vec![block(2, 1, 48), block(5, 0x84, 9), block(0xfd, 4, 48)]),
        ("manifest".into(), vec![block(1, 0, 48), block(0xfd, 0x84, 100), block(0xfe, 0x85, 4)]),
        ("novalue".into(), vec![block(1, 0x81, 0), block(2, 1, 48)]),
        ("high".into(), vec![block(0xfe, 0x83, 5)]),
        ("ten".into(), (1..=10).map(|i| if i % 2 == 0 { block(i, 0x81, 32 + i as usize) } else { block(i, 1, 48) }).collect()),
        ("many".into(), (1..=254).map(|i| block(i, 0x81, 1 + (i as usize % 3))).collect()),
        ("raw".into(), vec![block(1, 0x83, 1024), block(2, 0x83, 1023), block(3, 0x83, 1)]),
    ];
    if deep {
        for i in [1u8, 2, 7, 0x7f, 0x80, 0xf0, 0xfd, 0xfe] {
            v.push((format!("only{i:x}"), vec![block(i, 0, 48)]));
        }
        for k in [4usize, 5, 50, 100, 253] {
            v.push((format!("n{k}"), (1..=k as u8).map(|i| block(i, 0x81, 2)).collect()));
        }
    }
    v
}
fn with_table(cfg: &Cfg, m: &[MeasBlock]) -> Cfg {
    let mut c = cfg.clone();
    c.meas = m.to_vec();
    c
}
fn configs(deep: bool) -> Vec<(String, Cfg)> {
    let mut v: Vec<(String, Cfg)> = vec![];
    for (n, ver, tr) in [("12", 0x12, Tr::Mctp), ("11", 0x11, Tr::Mctp), ("10", 0x10, Tr::Mctp), ("12doe", 0x12, Tr::Doe), ("11doe", 0x11, Tr::Doe)] {
        if n == "11doe" && !deep {
            continue;
        }
        let mut c = cfg_v(ver, tr);
        c.rsp.slots = vec![(0, 0), (1, 0), (7, 0)];
        v.push((n.into(), c));
    }
    v
}
fn setup(cfg: &Cfg, slot: u8, sess: bool) -> Vec<Op> {
    let mut v = vec![Op::Init, Op::Cert(None, 0)];
    if slot != 0 {
        v.push(Op::Cert(None, slot));
    }
    if sess {
        v.push(if can_psk(cfg) { Op::Psk(0) } else { Op::Ke(0, 0) });
    }
    v
}
fn has_session(cfg: &Cfg) -> bool {
    can_ke(cfg) || can_psk(cfg)
}
/// requester, responder and device: every index of a table
fn table(cfg: &Cfg, sess: bool, sig: bool, slot: u8, ops: &[u8], t: &mut T) {
    let mut w = World::new(cfg);
    for o in setup(cfg, slot, sess) {
        let a = w.op(&o);
        if a.is_err() {
            return t.fail("table/setup", format!("{}: {a:?}", o.short()));
        }
    }
    let s = if sess { Some(0) } else { None };
    let (mut ok, mut no) = (0, 0);
    for o in ops {
        let op = Op::Meas(s, sig, *o, slot);
        let r = w.op(&op);
        t.step(w.fp());
        let want = expect_value(cfg, &op);
        match (&r, &want) {
            (Ok(x), Some(e)) => {
                ok += 1;
                if x != e {
                    return t.fail("table/value", format!("index {o:x}: {x:x?}, expected {e:x?}"));
                }
            }
            (Err(_), None) => no += 1,
            (Ok(x), None) => return t.fail("table/invented", format!("index {o:x}: {x:x?} although the device has none")),
            (Err(e), Some(_)) => return t.fail("table/refused", format!("index {o:x}: {e:x?}")),
        }
    }
    t.out(format!("{ok} {no}"));
    if let Err((k, d)) = agreement(&w) {
        t.fail(format!("table/{k}"), d);
    }
}
/// the same seen by an independent requester
fn table_ref(cfg: &Cfg, sess: bool, sig: bool, slot: u8, ops: &[u8], t: &mut T) {
    let w = World::new(cfg);
    let mut m = RefReq::new(cfg);
    for o in setup(cfg, slot, sess) {
        if let Err(e) = m.op(&o) {
            return t.fail("table-ref/setup", e);
        }
    }
    let s = if sess { Some(0) } else { None };
    for o in ops {
        let have = *o == 0 || meas_record(&cfg.meas, *o as usize).is_some();
        if have {
            if let Err(e) = m.meas(s, sig, *o, slot) {
                return t.fail("table-ref/answer", format!("index {o:x}: {e}"));
            }
        } else {
            m.answer.clear();
            if !missing(&mut m, s, sig, *o, slot) {
                return t.fail("table-ref/invented", format!("index {o:x}: {:02x?}", m.answer));
            }
        }
        t.step(w.fp());
    }
    t.out("ok");
}
/// a query that must be answered by an ERROR
fn missing(m: &mut RefReq, s: Option<usize>, sig: bool, o: u8, slot: u8) -> bool {
    m.resets(0xe0, s);
    let mut q = vec![m.n.ver, 0xe0, sig as u8, o];
    if sig {
        q.extend(fake::ext_random(32));
        if m.n.ver >= 0x11 {
            q.push(slot);
        }
    }
    matches!(m.any(s, "meas", &q), Ok(r) if is_err(&r) && r.len() == 4)
}
// ---------------------------------------------------------------- orders of queries
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum L {
    /// where (0: in the clear, k: session k - 1), signed, index, slot
    M(usize, bool, u8, u8),
    Digest(usize),
    Cert,
    Chal,
    Vendor(usize),
    Hb(usize),
    Ku(usize),
    Psk,
    Ke,
}
fn letters(cfg: &Cfg, nsess: usize) -> Vec<L> {
    let sign = can_sign(common_ver(cfg));
    let mut v = vec![];
    for k in 0..=nsess {
        v.extend([L::M(k, false, 1, 0), L::M(k, false, 0, 0), L::M(k, false, 9, 0)]);
        if sign {
            v.extend([L::M(k, true, 0xff, 0), L::M(k, true, 9, 0)]);
            if common_ver(cfg) > 0x10 && k != 2 {
                v.push(L::M(k, true, 1, 1));
            }
        }
    }
    v.extend([L::Digest(0), L::Cert, L::Vendor(0)]);
    if sign {
        v.push(L::Chal);
    }
    for k in 1..=nsess {
        v.extend([L::Hb(k), L::Vendor(k), L::Digest(k), L::Ku(k)]);
    }
    if can_psk(cfg) {
        v.push(L::Psk);
    }
    if can_ke(cfg) {
        v.push(L::Ke);
    }
    v
}
fn op_of(l: L) -> Op {
    let s = |k: usize| if k == 0 { None } else { Some(k - 1) };
    match l {
        L::M(k, g, i, n) => Op::Meas(s(k), g, i, n),
        L::Digest(k) => Op::Digest(s(k)),
        L::Cert => Op::Cert(None, 0),
        L::Chal => Op::Chal(0, 0xff),
        L::Vendor(k) => Op::Vendor(s(k), b"v".to_vec()),
        L::Hb(k) => Op::Hb(k - 1),
        L::Ku(k) => Op::Ku(k - 1, 2),
        L::Psk => Op::Psk(0xff),
        L::Ke => Op::Ke(0, 0xff),
    }
}
fn absent(cfg: &Cfg, l: L) -> bool {
    matches!(l, L::M(_, _, i, _) if i != 0 && meas_record(&cfg.meas, i as usize).is_none())
}
/// independent requester
fn order_req(cfg: &Cfg, pre: &[Op], ls: &[L], t: &mut T) {
    let w = World::new(cfg);
    let mut m = RefReq::new(cfg);
    for o in pre {
        if let Err(e) = m.op(o) {
            return t.fail("order/setup", e);
        }
    }
    for l in ls {
        if let (L::M(k, g, i, n), true) = (*l, absent(cfg, *l)) {
            let s = if k == 0 { None } else { Some(k - 1) };
            if !missing(&mut m, s, g, i, n) {
                return t.fail("order/invented", format!("{l:?} {:02x?}", m.answer));
            }
        } else if let Err(e) = m.op(&op_of(*l)) {
            return t.fail(format!("order/responder/{}", op_kind(&op_of(*l))), format!("{l:?}: {e}"));
        }
        t.step(w.fp());
    }
    t.out("ok");
}
/// independent responder
fn order_rsp(cfg: &Cfg, pre: &[Op], ls: &[L], t: &mut T) {
    let (mut w, m) = RefRsp::new(cfg).world();
    let mut certs = 0;
    for o in pre {
        let a = w.op(o);
        if a.is_err() {
            return t.fail("order/setup", format!("{a:?}"));
        }
        if let Op::Cert(..) = o {
            certs += 1;
        }
    }
    let _ = certs;
    for l in ls {
        let o = op_of(*l);
        let r = w.op(&o);
        t.step(w.fp());
        if let Some(b) = m.borrow().bad.first() {
            return t.fail(format!("order/requester/{}", op_kind(&o)), format!("{l:?}: {b}"));
        }
        if absent(cfg, *l) {
            if r.is_ok() {
                return t.fail("order/absent", format!("{l:?} {r:?}"));
            }
            continue;
        }
        match r {
            Err(e) => return t.fail(format!("order/refused/{}", op_kind(&o)), format!("{l:?}: {e:x?}")),
            Ok(x) => {
                if let Some(e) = expect_value(cfg, &o) {
                    if x != e {
                        return t.fail(format!("order/value/{}", op_kind(&o)), format!("{l:?}: {x:x?}, expected {e:x?}"));
                    }
                }
            }
        }
    }
    t.out("ok");
}
// ---------------------------------------------------------------- slots and attributes
fn slots(cfg: &Cfg, sess: bool, attr: u8, slot: u8, t: &mut T) {
    let w = World::new(cfg);
    let mut m = RefReq::new(cfg);
    for o in setup(cfg, 0, sess) {
        if let Err(e) = m.op(&o) {
            return t.fail("slots/setup", e);
        }
    }
    let s = if sess { Some(0) } else { None };
    let ver = m.n.ver;
    let have = cfg.rsp.slots.iter().any(|x| x.0 == slot as usize);
    m.resets(0xe0, s);
    let mut q = vec![ver, 0xe0, attr, 1];
    let sig = attr & 1 != 0;
    if sig {
        q.extend(fake::ext_random(32));
        if ver >= 0x11 {
            q.push(slot);
        }
    }
    let r = m.any(s, "meas", &q);
    t.step(w.fp());
    let Ok(r) = r else {
        return t.fail("slots/none", format!("{r:?}"));
    };
    let served = !is_err(&r);
    t.out(format!("{served}"));
    if !served {
        t.check(r.len() == 4, "slots/error", || format!("{r:02x?}"));
        // a signature by a slot that is there, with no other wish, is not refused
        if attr <= 1 && (have && can_sign(ver) || !sig) {
            t.fail("slots/refused", format!("{r:02x?}"));
        }
    } else {
        if sig && ver >= 0x11 && (slot > 7 || !have) {
            return t.fail("slots/served", format!("{:02x?}", &r[..12]));
        }
        let (nb, rec) = meas_record(&cfg.meas, 1).unwrap();
        let want = [vec![ver, 0x60, 0, if sig && ver >= 0x11 { slot } else { 0 }, nb], (rec.len() as u32).to_le_bytes()[..3].to_vec(), rec].concat();
        if r[..want.len()] != want {
            return t.fail("slots/content", format!("{:02x?}, expected {want:02x?}", &r[..want.len()]));
        }
        let ol = u16::from_le_bytes([r[want.len() + 32], r[want.len() + 33]]) as usize;
        let all = want.len() + 34 + ol + if sig { m.n.sig() } else { 0 };
        let pad = if cfg.tr == Tr::Doe && !sess { (4 - all % 4) % 4 } else { 0 };
        t.check(r.len() == all || r.len() == all + pad, "slots/length", || format!("{} bytes, expected {all}", r.len()));
        if sig {
            // what is signed is this exchange
            let mut l1 = if ver >= 0x12 { m.a.clone() } else { vec![] };
            l1.extend(&q);
            l1.extend(&r[..want.len() + 34 + ol]);
            let x = m.n.sign(cfg.rsp.key, m.n.asym, CTX_MEAS, &l1);
            t.check(r[want.len() + 34 + ol..all] == x[..], "slots/signature", || "not of this exchange".into());
        }
    }
    // the next one is answered as it should be
    if served && !sig || !served {
        let sign = can_sign(ver);
        if served {
            return;
        }
        if let Err(e) = m.meas(s, sign, 2, 0) {
            t.fail("slots/next", e);
        }
    }
}
// ---------------------------------------------------------------- content change
fn change(cfg: &Cfg, support: bool, val: u8, sess: bool, sig: bool, t: &mut T) {
    let mut cfg = cfg.clone();
    cfg.rsp.content_change = support;
    let ver = common_ver(&cfg);
    let mut w = World::new(&cfg);
    for o in setup(&cfg, 0, sess) {
        let a = w.op(&o);
        if a.is_err() {
            return t.fail("change/setup", format!("{a:?}"));
        }
    }
    let v = [SpdmMeasurementContentChanged::NOT_SUPPORTED, SpdmMeasurementContentChanged::DETECTED_CHANGE, SpdmMeasurementContentChanged::NO_CHANGE][val as usize];
    rsp(|r| r.common.runtime_info.content_changed = v);
    let s = if sess { Some(0) } else { None };
    let o = Op::Meas(s, sig, 1, 0);
    let r = w.op(&o);
    t.step(w.fp());
    t.check(r.as_ref().ok() == expect_value(&cfg, &o).as_ref(), "change/value", || format!("{r:?}"));
    let got = w.req.common.runtime_info.content_changed.bits();
    let want = if ver >= 0x12 && support && sig { v.bits() } else { 0 };
    t.check(got == want, "change/status", || format!("{got:02x}, expected {want:02x}"));
    t.out(format!("{got:x}"));
}
/// a responder reporting it
fn change_rsp(cfg: &Cfg, val: u8, sess: bool, sig: bool, t: &mut T) {
    let ver = common_ver(cfg);
    let mut r = RefRsp::new(cfg);
    r.change = val;
    let (mut w, m) = r.world();
    for o in setup(cfg, 0, sess) {
        let a = w.op(&o);
        if a.is_err() {
            return t.fail("change-rsp/setup", format!("{a:?}"));
        }
    }
    let s = if sess { Some(0) } else { None };
    let o = Op::Meas(s, sig, 1, 0);
    let r = w.op(&o);
    t.step(w.fp());
    if let Some(b) = m.borrow().bad.first() {
        return t.fail("change-rsp/requester", b.clone());
    }
    let got = w.req.common.runtime_info.content_changed.bits() >> 4;
    if ver >= 0x12 && val < 3 {
        t.check(r.as_ref().ok() == expect_value(cfg, &o).as_ref(), "change-rsp/value", || format!("{r:?}"));
        t.check(got == val, "change-rsp/status", || format!("{got}, expected {val}"));
    } else if r.is_ok() {
        t.check(r.as_ref().ok() == expect_value(cfg, &o).as_ref(), "change-rsp/value", || format!("{r:?}"));
        t.check(got == 0 || ver >= 0x12 && got == val, "change-rsp/status", || format!("{got}"));
    }
    t.out(format!("{} {got}", r.is_ok()));
}
// ---------------------------------------------------------------- a responder whose (signed) answer makes no sense
const DEVIANT: usize = 24;
fn deviant(cfg: &Cfg, x: usize, sess: bool, sig: bool, op: u8, t: &mut T) {
    let mut r = RefRsp::new(cfg);
    let ver = common_ver(cfg);
    r.strict = false;
    let wire = std::rc::Rc::new(std::cell::RefCell::new((vec![], None)));
    let w2 = wire.clone();
    r.craft = Some(Box::new(move |tag, m| {
        if tag != "meas" {
            return;
        }
        // header 4, blocks 1, length 3, record
        let len = u32::from_le_bytes([m[5], m[6], m[7], 0]) as usize;
        let mut set_len = |m: &mut Vec<u8>, n: usize| m[5..8].copy_from_slice(&(n as u32).to_le_bytes()[..3]);
        let some = len > 0;
        // Some(true): as good as the original; Some(false): to be refused; None: either
        let verdict = match x {
            0 => Some(true),
            1 => {
                m[4] = m[4].wrapping_add(1);
                Some(false)
            }
            2 if some => {
                m[4] -= 1;
                Some(false)
            }
            3 if some => {
                set_len(m, len - 1);
                Some(false)
            }
            4 => {
                set_len(m, len + 1);
                Some(false)
            }
            5 if some => {
                m[10] = m[10].wrapping_add(1);
                Some(false)
            }
            6 if some => {
                m[13] = m[13].wrapping_add(1);
                Some(false)
            }
            7 if some => {
                // another specification
                m[9] = 2;
                Some(false)
            }
            8 if some => {
                m[9] = 0;
                Some(false)
            }
            9 => {
                set_len(m, 4001);
                Some(false)
            }
            10 => {
                set_len(m, 0xffffff);
                Some(false)
            }
            11 if m[4] > 1 => {
                // not in order
                m[8] = 9;
                Some(false)
            }
            12 => {
                m[3] ^= 1;
                if sig && ver >= 0x11 {
                    Some(false)
                } else {
                    None
                }
            }
            13 => {
                // reserved
                m[3] |= 0x30;
                None
            }
            14 if some => {
                // index zero is the number of blocks, not a block
                m[8] = 0;
                Some(false)
            }
            15 => {
                m[2] = m[2].wrapping_add(1);
                None
            }
            16 if some => {
                let rest = m.split_off(8 + len);
                m.push(0);
                m.extend(rest);
                set_len(m, len + 1);
                Some(false)
            }
            17 if some => {
                // value shorter than announced
                m.remove(8 + len - 1);
                set_len(m, len - 1);
                Some(false)
            }
            18 => {
                let at = 8 + len + 32;
                m[at..at + 2].copy_from_slice(&1025u16.to_le_bytes());
                Some(false)
            }
            19 => {
                let at = 8 + len + 32;
                m[at..at + 2].copy_from_slice(&[0xff, 0xff]);
                Some(false)
            }
            20 => {
                m.truncate(8 + len + 10);
                None
            }
            21 => {
                m[0] = 0x13;
                Some(false)
            }
            22 => {
                m[1] = 0x61;
                Some(false)
            }
            23 if some => {
                // other measurements altogether, honestly signed: the device's word
                m[15] ^= 0xff;
                None
            }
            _ => None,
        };
        *w2.borrow_mut() = (m.clone(), verdict);
    }));
    let (mut w, m) = r.world();
    for o in setup(cfg, 0, sess) {
        let a = w.op(&o);
        if a.is_err() {
            return t.fail("deviant/setup", format!("{a:?}"));
        }
    }
    let s = if sess { Some(0) } else { None };
    let o = Op::Meas(s, sig, op, 0);
    let r = w.op(&o);
    t.step(w.fp());
    let (sent, verdict) = wire.borrow().clone();
    if sent.is_empty() {
        return t.fail("deviant/unsent", format!("{r:?}"));
    }
    t.out(format!("{x} {}", r.is_ok()));
    match verdict {
        Some(v) if v != r.is_ok() => return t.fail(format!("deviant/outcome/{x}"), format!("{r:?}")),
        _ => {}
    }
    if let Ok(Out::Meas { total, n, rec, .. }) = &r {
        let len = u32::from_le_bytes([sent[5], sent[6], sent[7], 0]) as usize;
        let want = (if op == 0 { sent[2] } else { sent[4] }, sent[4], &sent[8..(8 + len).min(sent.len())]);
        t.check((*total, *n, &rec[..]) == want, "deviant/value", || format!("{total} {n} {rec:02x?}, expected {want:02x?}"));
    }
    // it does not last
    m.borrow_mut().craft = None;
    m.borrow_mut().bad.clear();
    let again = [Op::Init, Op::Cert(None, 0), Op::Meas(None, can_sign(ver), 0xff, 0)];
    for o in &again {
        let r = w.op(o);
        let e = expect_value(cfg, o);
        if r.is_err() || e.is_some() && r.as_ref().ok() != e.as_ref() {
            return t.fail("deviant/next", format!("{} {r:?} {:?}", o.short(), m.borrow().bad));
        }
    }
}
/// sizes up to what a message holds
fn size(cfg: &Cfg, n: usize, sess: bool, sig: bool, t: &mut T) {
    // blocks of 1024 and a rest
    let mut left = n;
    let mut m = vec![];
    let mut i = 1;
    while left > 0 {
        let k = left.min(1024 + 7);
        let k = if left > k && left - k < 7 { k - 7 } else { k };
        m.push(block(i, 0x83, k - 7));
        left -= k;
        i += 1;
    }
    let cfg = with_table(cfg, &m);
    let mut w = World::new(&cfg);
    for o in setup(&cfg, 0, sess) {
        let a = w.op(&o);
        if a.is_err() {
            return t.fail("size/setup", format!("{a:?}"));
        }
    }
    let s = if sess { Some(0) } else { None };
    let o = Op::Meas(s, sig, 0xff, 0);
    let r = w.op(&o);
    t.step(w.fp());
    let total = 8 + n + 34 + if sig { expected_neg(&cfg).unwrap().sig() } else { 0 };
    t.out(format!("{}", r.is_ok()));
    match &r {
        Ok(_) => t.check(r.as_ref().ok() == expect_value(&cfg, &o).as_ref(), "size/value", || format!("{n}")),
        Err(e) => {
            // a message of at most 4096 bytes, which a secured record has to hold with its headers
            let room = if sess { 4000 } else { 4096 };
            let transcript = if HASHED { usize::MAX } else { 3800 };
            t.check(total > room || total > transcript, "size/refused", || format!("{total} bytes: {e:x?}"));
        }
    }
    let one = Op::Meas(s, can_sign(common_ver(&cfg)), 0, 0);
    let r = w.op(&one);
    t.check(r.as_ref().ok() == expect_value(&cfg, &one).as_ref(), "size/next", || format!("{r:?}"));
}
/// a device whose summary hash does not have the negotiated size: no answer is made of it
fn summary(cfg: &Cfg, o: &Op, n: usize, t: &mut T) {
    t.desc = format!("{} with a summary hash of {n} bytes", o.short());
    let mut w = World::new(cfg);
    for o in setup(cfg, 0, false) {
        if let Err(e) = w.op(&o) {
            return t.fail("summary/setup", format!("{} {e:?}", o.short()));
        }
    }
    let good = expected_neg(cfg).unwrap().hs() == n;
    crate::fake::with(|e| e.summary_len = Some(n));
    let r = w.op(o);
    crate::fake::with(|e| e.summary_len = None);
    t.step(w.fp());
    t.out(format!("{}", r.is_ok()));
    t.check(r.is_ok() == good, "summary/size", || format!("{r:?}"));
    let n = rsp(|r| r.common.session.iter().filter(|s| s.get_session_id() != 0).count());
    t.check(n == w.sids.len(), "summary/session", || format!("the responder has {n} sessions, the requester {}", w.sids.len()));
    for o in [o.clone(), Op::Init, Op::Cert(None, 0), o.clone()] {
        let r = w.op(&o);
        t.check(r.is_ok(), "summary/next", || format!("{} {r:?}", o.short()));
    }
}
pub fn run(c: &Ctx) {
    let cfgs = configs(!c.quick());
    let mut jobs = vec![];
    for (n, cfg) in &cfgs {
        for o in [Op::Chal(0, 1), Op::Chal(0, 0xff), Op::Ke(0, 1), Op::Ke(0, 0xff), Op::Psk(1), Op::Psk(0xff)] {
            let fits = match o {
                Op::Chal(..) => can_sign(common_ver(cfg)),
                Op::Ke(..) => can_ke(cfg),
                _ => can_psk(cfg),
            };
            for n2 in [0usize, 1, 31, 32, 33, 47, 48, 49, 63, 64] {
                if fits {
                    jobs.push((n, cfg, o.clone(), n2));
                }
            }
        }
    }
    c.par("summary", jobs.len(), |i, t| {
        let (_, cfg, o, n) = &jobs[i];
        summary(cfg, o, *n, t);
    });
    // every index of every table
    let mut jobs = vec![];
    for (n, cfg) in &cfgs {
        let sign = can_sign(common_ver(cfg));
        for (tn, tab) in tables(!c.quick()) {
            let k = with_table(cfg, &tab);
            for sess in [false, true] {
                if sess && !has_session(cfg) {
                    continue;
                }
                for (sig, slot) in [(false, 0u8), (true, 0), (true, 1), (true, 7)] {
                    if sig && !sign || slot > 0 && (common_ver(cfg) == 0x10 || c.quick() && tn != "three") {
                        continue;
                    }
                    for r in 0..2 {
                        // the operation space split into runs of 16 in different orders
                        let all: Vec<u8> = if r == 0 { (0..=255).collect() } else { (0..=255u8).map(|x| x.wrapping_mul(97)).collect() };
                        if r == 1 && c.quick() && n != "12" {
                            continue;
                        }
                        for ch in all.chunks(c.pick(32, 4)) {
                            jobs.push((n.clone(), tn.clone(), k.clone(), sess, sig, slot, ch.to_vec()));
                        }
                    }
                }
            }
        }
    }
    for (f, model) in [("table", false), ("table-ref", true)] {
        c.par(f, jobs.len(), |i, t| {
            let (n, tn, k, sess, sig, slot, ops) = &jobs[i];
            t.desc = format!("{n} table {tn} session {sess} signed {sig} slot {slot} indices {ops:x?}");
            if model {
                table_ref(k, *sess, *sig, *slot, ops, t)
            } else {
                table(k, *sess, *sig, *slot, ops, t)
            }
        });
    }
    // every order of queries
    let mut jobs: Vec<(String, Cfg, Vec<Op>, Vec<L>, usize)> = vec![];
    for (n, cfg) in &cfgs {
        let main = n == "12";
        let mut pre = vec![Op::Init, Op::Cert(None, 0)];
        if common_ver(cfg) > 0x10 {
            pre.push(Op::Cert(None, 1));
        }
        let mut starts = vec![(pre.clone(), 0)];
        if has_session(cfg) {
            let mut p = pre.clone();
            p.push(if can_ke(cfg) { Op::Ke(0, 0) } else { Op::Psk(0) });
            starts.push((p.clone(), 1));
            if can_psk(cfg) {
                p.push(Op::Psk(0));
                starts.push((p, 2));
            }
        }
        for (p, k) in starts {
            let ls = letters(cfg, k);
            // the last query is a signed one when there are any
            let d = if main { c.pick(if k == 0 { 4 } else if k == 1 { 3 } else { 2 }, if k == 0 { 5 } else { 4 }) } else { c.pick(2, 3) };
            jobs.push((n.clone(), cfg.clone(), p, ls, d));
        }
    }
    for (j, (n, cfg, p, ls, d)) in jobs.iter().enumerate() {
        let k = ls.len();
        let total = k.pow(*d as u32);
        c.par(&format!("order-{n}-{j}"), total, |i, t| {
            let seq: Vec<L> = digits(i, &vec![k; *d]).into_iter().map(|x| ls[x]).collect();
            t.desc = format!("{n} {} then {seq:?}", show_ops(p));
            let last = ls.iter().filter_map(|l| if let L::M(k, true, 0xff, 0) = l { Some(*k) } else { None }).max();
            let mut seq2 = seq.clone();
            seq2.extend((0..=last.unwrap_or(0)).filter(|_| last.is_some()).map(|k| L::M(k, true, 1, 0)));
            // sessions are not more than four, and certificates may not fit a finite transcript twice
            order_req(cfg, p, &seq2, t);
            if t.fails.is_empty() {
                crate::world::reset_thread();
                order_rsp(cfg, p, &seq2, t);
            }
        });
    }
    let mut jobs: Vec<(String, Cfg, usize, [usize; 4])> = vec![];
    for (n, cfg) in &cfgs {
        let sign = can_sign(common_ver(cfg));
        for sess in 0..=has_session(cfg) as usize {
            for attr in 0..c.pick(8usize, 256) {
                if attr & 1 != 0 && !sign {
                    continue;
                }
                for slot in 0..if attr & 1 == 0 || common_ver(cfg) == 0x10 { 1usize } else { c.pick(32, 256) } {
                    jobs.push((n.clone(), cfg.clone(), 0, [sess, attr, slot, 0]));
                }
            }
            for sig in 0..=sign as usize {
                for val in 0..3 {
                    for sup in 0..2 {
                        jobs.push((n.clone(), cfg.clone(), 1, [sess, sig, val, sup]));
                    }
                }
                for val in 0..4 {
                    jobs.push((n.clone(), cfg.clone(), 2, [sess, sig, val, 0]));
                }
                for x in 0..DEVIANT {
                    for op in [0usize, 1, 3, 0xff] {
                        jobs.push((n.clone(), cfg.clone(), 3, [sess, sig, x, op]));
                    }
                }
                let sizes: Vec<usize> = c.pick(vec![7, 8, 1031, 1032, 2000, 3000, 3800, 3858, 3859, 3900, 3950, 3957, 3958, 3959, 3960, 3999, 4000], (7..4001).collect());
                for z in sizes {
                    jobs.push((n.clone(), cfg.clone(), 4, [sess, sig, z, 0]));
                }
            }
        }
    }
    c.par("single", jobs.len(), |i, t| {
        let (n, cfg, f, x) = &jobs[i];
        t.desc = format!("{n} {} {x:?}", ["slots", "change", "change-rsp", "deviant", "size"][*f]);
        match f {
            0 => slots(cfg, x[0] == 1, x[1] as u8, x[2] as u8, t),
            1 => change(cfg, x[3] == 1, x[2] as u8, x[0] == 1, x[1] == 1, t),
            2 => change_rsp(cfg, x[2] as u8, x[0] == 1, x[1] == 1, t),
            3 => deviant(cfg, x[2], x[0] == 1, x[1] == 1, x[3] as u8, t),
            _ => size(cfg, x[2], x[0] == 1, x[1] == 1, t),
        }
    });
}
