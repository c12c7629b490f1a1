//! Negotiation: every pair of offers, and every answer or offer a peer could send instead.
use crate::explore::*;
use crate::model::*;
use crate::user::*;
use crate::world::*;
use spdmlib::common::SpdmConnectionState as CS;

fn masked(mut v: Vec<u8>) -> Vec<u8> {
    if v[0] == 0x10 {
        v[1..5].fill(0);
        v[9] = 0;
    }
    v
}
pub fn negotiated(s: u8) -> bool {
    s >= CS::SpdmConnectionNegotiated.get_u8()
}
fn honest_setup(cfg: &Cfg, t: &mut T) {
    let exp = expected_neg(cfg);
    let mut w = World::new(cfg);
    let r = w.op(&Op::Init);
    t.step(w.fp());
    let a = masked(nego(&w.req.common));
    let b = masked(rsp(|r| nego(&r.common)));
    let sb = rsp(|r| r.common.runtime_info.get_connection_state().get_u8());
    match exp {
        Some(n) => {
            t.out("agreed");
            let e = n.bytes();
            t.check(r.is_ok(), "setup-refused", || format!("{r:x?}"));
            if r.is_ok() {
                t.check(a == e, "requester-selection", || format!("{a:02x?}, expected {e:02x?}"));
                t.check(b == e, "responder-selection", || format!("{b:02x?}, expected {e:02x?}"));
                t.check(negotiated(sb), "state-after-setup", || format!("{sb}"));
            }
        }
        None => {
            t.out("no common choice");
            t.check(r.is_err(), "requester-accepts-no-common-choice", || format!("{a:02x?} {b:02x?}"));
            t.check(!negotiated(sb), "responder-negotiated-without-choice", || format!("{sb} {b:02x?}"));
        }
    }
}
fn orders(v: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for a in 0..v.len() {
        out.push(vec![v[a]]);
        for b in 0..v.len() {
            if b != a {
                out.push(vec![v[a], v[b]]);
                for c in 0..v.len() {
                    if c != a && c != b {
                        out.push(vec![v[a], v[b], v[c]]);
                    }
                }
            }
        }
    }
    out
}
fn profiles() -> Vec<(&'static str, u32, u32)> {
    // capability bits removed from the requester and from the responder
    let sess = rc::KEX | rc::ENC | rc::MAC | rc::HB | rc::KU | rc::PSK | rc::MUT | rc::ENCAP;
    vec![
        ("all", 0, 0),
        ("no kex", rc::KEX, rc::KEX),
        ("no psk", rc::PSK, sc::PSK | sc::PSK_CTX),
        ("no session", sess, sess | sc::PSK_CTX),
        ("req no session", sess, 0),
        ("rsp no session", 0, sess | sc::PSK_CTX),
        ("no meas", 0, sc::MEAS_SIG | sc::FRESH),
        ("rsp no kex, req no psk", rc::PSK, rc::KEX),
    ]
}
/// capability sets a responder or requester may legally announce
fn tidy(c: &mut Cfg) {
    for (s, req) in [(&mut c.req, true), (&mut c.rsp, false)] {
        if s.caps & (rc::KEX | rc::PSK | if req { 0 } else { sc::PSK_CTX }) == 0 {
            s.caps &= !(rc::ENC | rc::MAC | rc::HB | rc::KU);
        }
        if s.caps & rc::KEX == 0 {
            s.caps &= !rc::CLEAR;
        }
    }
}
pub fn run(c: &Ctx) {
    let o = orders(&[0x10, 0x11, 0x12]);
    c.par("versions", o.len() * o.len() * 2, |i, t| {
        let d = digits(i, &[o.len(), o.len(), 2]);
        let mut cfg = base_cfg();
        cfg.tr = if d[2] == 0 { Tr::Mctp } else { Tr::Doe };
        cfg.req.vers = o[d[0]].clone();
        cfg.rsp.vers = o[d[1]].clone();
        t.desc = format!("{:x?} {:x?}", o[d[0]], o[d[1]]);
        honest_setup(&cfg, t);
    });
    let vers = [0x12u8, 0x11, 0x10];
    let pf = profiles();
    let np = pf.len();
    let base = |v: usize, p: usize| {
        let mut cfg = cfg_v(vers[v], Tr::Mctp);
        cfg.req.caps &= !pf[p].1;
        cfg.rsp.caps &= !pf[p].2;
        tidy(&mut cfg);
        cfg
    };
    c.par("hash", 3 * np * 64, |i, t| {
        let d = digits(i, &[3, np, 8, 8]);
        let mut cfg = base(d[0], d[1]);
        cfg.req.hash = d[2] as u32;
        cfg.rsp.hash = d[3] as u32;
        t.desc = format!("{:x} {} hash {:x} {:x}", vers[d[0]], pf[d[1]].0, d[2], d[3]);
        honest_setup(&cfg, t);
    });
    // asymmetric families: quick, all subsets against all subsets of at most two choices or their complements
    let small: Vec<u32> = (0..256u32).filter(|x| x.count_ones() <= 2 || x.count_ones() >= 7).collect();
    let full: Vec<u32> = (0..256).collect();
    let sets = if c.quick() { &small } else { &full };
    for (fam, isreq) in [("asym", false), ("req-asym", true)] {
        let nv = if isreq { 2 } else { 3 };
        c.par(fam, nv * full.len() * sets.len(), |i, t| {
            let d = digits(i, &[nv, full.len(), sets.len()]);
            let mut cfg = base(d[0], 0);
            let (a, b) = (full[d[1]], sets[d[2]]);
            if isreq {
                cfg.req.req_asym = a as u16 as _;
                cfg.rsp.req_asym = b as u16 as _;
            } else {
                cfg.req.asym = a;
                cfg.rsp.asym = b;
            }
            t.desc = format!("{:x} {fam} {a:x} {b:x}", vers[d[0]]);
            honest_setup(&cfg, t);
        });
    }
    c.par("dhe-aead", 2 * np * 16 * 64, |i, t| {
        let d = digits(i, &[2, np, 4, 4, 8, 8]);
        let mut cfg = base(d[0], d[1]);
        cfg.req.dhe = (d[2] << 3) as u16;
        cfg.rsp.dhe = (d[3] << 3) as u16;
        cfg.req.aead = d[4] as u16;
        cfg.rsp.aead = d[5] as u16;
        t.desc = format!("{:x} {} dhe {:x} {:x} aead {:x} {:x}", vers[d[0]], pf[d[1]].0, d[2] << 3, d[3] << 3, d[4], d[5]);
        honest_setup(&cfg, t);
    });
    c.par("schedule-spec-opaque", 3 * np * 64, |i, t| {
        let d = digits(i, &[3, np, 4, 4, 4]);
        let mut cfg = base(d[0], d[1]);
        cfg.req.ks = (d[2] & 1) as u16;
        cfg.rsp.ks = (d[2] >> 1) as u16;
        cfg.req.meas_spec = (d[3] & 1) as u8;
        cfg.rsp.meas_spec = (d[3] >> 1) as u8;
        cfg.req.opaque = (d[4] & 1) as u8 * 2;
        cfg.rsp.opaque = (d[4] >> 1) as u8 * 2;
        t.desc = format!("{:x} {} {:?}", vers[d[0]], pf[d[1]].0, &d[2..]);
        honest_setup(&cfg, t);
    });
    // what the device measures with: one algorithm, or none
    c.par("measurement-hash", 3 * np * 9, |i, t| {
        let d = digits(i, &[3, np, 9]);
        let mut cfg = base(d[0], d[1]);
        cfg.rsp.meas_hash = (1 << d[2]) & 0xff;
        t.desc = format!("{:x} {} meas hash {:x}", vers[d[0]], pf[d[1]].0, d[2]);
        honest_setup(&cfg, t);
    });
    // every combination of {both, requester only, responder only, neither, different} over the families
    let k = if c.quick() { 4 } else { 5 };
    let rad = vec![3, np, k, k, k, k, k, 2, 2];
    let n: usize = rad.iter().product();
    c.par("combinations", n, |i, t| {
        let d = digits(i, &rad);
        let mut cfg = base(d[0], d[1]);
        let two = |m: usize, a: u32, b: u32| match m {
            0 => (a | b, b | a),
            1 => (a, b),
            2 => (a | b, b),
            3 => (a, 0),
            _ => (0, a | b),
        };
        let (a, b) = two(d[2], 2, 1);
        (cfg.req.hash, cfg.rsp.hash) = (a, b);
        let (a, b) = two(d[3], 0x80, 8);
        (cfg.req.asym, cfg.rsp.asym) = (a, b);
        let (a, b) = two(d[4], 8, 16);
        (cfg.req.dhe, cfg.rsp.dhe) = (a as u16, b as u16);
        let (a, b) = two(d[5], 1, 4);
        (cfg.req.aead, cfg.rsp.aead) = (a as u16, b as u16);
        let (a, b) = two(d[6], 0x10, 0x40);
        (cfg.req.req_asym, cfg.rsp.req_asym) = (a as u16, b as u16);
        cfg.rsp.ks = d[7] as u16;
        cfg.rsp.meas_spec = d[8] as u8;
        t.desc = format!("{:x} {} {:?}", vers[d[0]], pf[d[1]].0, &d[2..]);
        honest_setup(&cfg, t);
    });
    // answers that select something else
    let muts = edits(c);
    c.par("answers", 3 * 3 * muts.len(), |i, t| {
        let d = digits(i, &[3, 3, muts.len()]);
        let mut cfg = cfg_v(vers[d[0]], Tr::Mctp);
        if d[1] == 1 {
            cfg.req.hash = 7;
            cfg.req.asym = 0xff;
            cfg.req.dhe = 0x18;
            cfg.req.aead = 7;
            cfg.req.req_asym = 0xff;
        }
        if d[1] == 2 {
            cfg.req.hash = 6;
            cfg.req.asym = 0x90;
            cfg.req.aead = 3;
            clear_caps(&mut cfg, rc::MUT);
        }
        let (off, mask, set) = muts[d[2]];
        t.desc = format!("{:x} offer {} ALGORITHMS byte {off}: &{mask:02x} |{set:02x}", vers[d[0]], d[1]);
        answer(&cfg, t, move |m| {
            if off < m.len() {
                m[off] = m[off] & mask | set;
            }
        });
    });
    c.par("answers-pairs", 2 * 24 * 24, |i, t| {
        // two selections changed together
        let d = digits(i, &[2, 24, 24]);
        let mut cfg = cfg_v(vers[d[0]], Tr::Mctp);
        cfg.req.hash = 7;
        cfg.req.asym = 0xff;
        cfg.req.dhe = 0x18;
        cfg.req.aead = 7;
        cfg.req.req_asym = 0xff;
        let val = |k: usize| -> (usize, u8) {
            let f = [(6, 0u8), (7, 0), (8, 0), (12, 0), (16, 0), (38, 0), (42, 0), (46, 0)][k / 3];
            (f.0, [0u8, 1, 0x30][k % 3])
        };
        let (x, y) = (val(d[1]), val(d[2]));
        t.desc = format!("{:x} {x:x?} {y:x?}", vers[d[0]]);
        answer(&cfg, t, move |m| {
            m[x.0] = x.1;
            m[y.0] = y.1;
        });
    });
    // version lists
    let vals: Vec<(u8, u8)> = vec![(0, 0x10), (0, 0x11), (0, 0x12), (0, 0x13), (0, 0), (0x12, 0x12), (0, 0x21), (0xff, 0x11)];
    let nl = count_seqs(vals.len(), c.pick(3, 4));
    c.par("version-lists", 7 * nl, |i, t| {
        let seq = nth_seq(i / 7, vals.len(), 4);
        let mut cfg = base_cfg();
        cfg.req.vers = [vec![0x10], vec![0x11], vec![0x12], vec![0x10, 0x11], vec![0x11, 0x12], vec![0x12, 0x10], vec![0x10, 0x11, 0x12]][i % 7].clone();
        let list: Vec<(u8, u8)> = seq.iter().map(|x| vals[*x]).collect();
        t.desc = format!("requester {:x?}, VERSION {list:x?}", cfg.req.vers);
        let want = list.iter().map(|x| x.1).filter(|x| cfg.req.vers.contains(x)).max();
        let mut m = RefRsp::new(&base_cfg());
        m.cfg.req.vers = cfg.req.vers.clone();
        let l2 = list.clone();
        m.craft = Some(Box::new(move |tag, v| {
            if tag == "version" {
                v.truncate(5);
                v.push(l2.len() as u8);
                for x in &l2 {
                    v.extend([x.0, x.1]);
                }
            }
        }));
        let (mut w, _m) = m.world();
        let r = w.op(&Op::Version);
        t.step(w.fp());
        let got = w.req.common.negotiate_info.spdm_version_sel.get_u8();
        match (want, &r) {
            (Some(v), Ok(_)) => t.check(got == v, "version-choice", || format!("chose {got:x}, expected {v:x}")),
            (Some(_), Err(_)) => t.check(list.len() > 3, "version-refused", || format!("{r:x?}")),
            (None, Ok(_)) => t.fail("version-without-common", format!("chose {got:x}")),
            (None, Err(_)) => {}
        }
        t.out(if r.is_ok() { "accepted" } else { "refused" });
    });
    c.par("version-header", 256 * 2, |i, t| {
        let d = digits(i, &[256, 2]);
        let mut m = RefRsp::new(&base_cfg());
        t.desc = format!("VERSION byte {} = {:02x}", d[1], d[0]);
        let (at, val) = (d[1], d[0] as u8);
        m.craft = Some(Box::new(move |tag, v| {
            if tag == "version" {
                v[at] = val;
            }
        }));
        let (mut w, _m) = m.world();
        let r = w.op(&Op::Version);
        let legal = d[0] == [0x10, 4][d[1]];
        t.check(r.is_ok() == legal, "version-header", || format!("{r:x?}"));
        t.out(if r.is_ok() { "accepted" } else { "refused" });
    });
    // requests of another implementation
    let muts = edits(c);
    c.par("offers", 3 * 2 * muts.len(), |i, t| {
        let d = digits(i, &[3, 2, muts.len()]);
        let mut cfg = cfg_v(vers[d[0]], Tr::Mctp);
        if d[1] == 1 {
            cfg.rsp.hash = 7;
            cfg.rsp.asym = 0xff;
            cfg.rsp.dhe = 0x18;
            cfg.rsp.aead = 7;
            cfg.rsp.req_asym = 0xff;
            cfg.req.hash = 3;
            cfg.req.asym = 0x8c;
        }
        let (off, mask, set) = muts[d[2]];
        t.desc = format!("{:x} cfg {} NEGOTIATE_ALGORITHMS byte {off}: &{mask:02x} |{set:02x}", vers[d[0]], d[1]);
        offer(&cfg, t, move |m| {
            if off < m.len() {
                m[off] = m[off] & mask | set;
            }
        });
    });
    // order and number of the algorithm structures of an offer
    c.par("offer-structures", count_seqs(4, 5) * 2, |i, t| {
        let seq = nth_seq(i / 2, 4, 5);
        let cfg = cfg_v(vers[i % 2], Tr::Mctp);
        t.desc = format!("{:x} structures {:?}", vers[i % 2], seq);
        offer(&cfg, t, move |m| {
            let s: Vec<Vec<u8>> = m[32..].chunks(4).map(|x| x.to_vec()).collect();
            m.truncate(32);
            for k in &seq {
                m.extend(&s[*k]);
            }
            m[2] = seq.len() as u8;
            let l = m.len();
            m[4..6].copy_from_slice(&u16b(l));
        });
    });
    c.par("caps-version", 256 * 7, |i, t| {
        let vs = [vec![0x10], vec![0x11], vec![0x12], vec![0x10, 0x11], vec![0x11, 0x12], vec![0x10, 0x12], vec![0x10, 0x11, 0x12]][i / 256].clone();
        let mut cfg = base_cfg();
        cfg.rsp.vers = vs.clone();
        let v = (i % 256) as u8;
        t.desc = format!("responder {vs:x?}, GET_CAPABILITIES version {v:x}");
        let w = World::new(&cfg);
        let mut r = RefReq::new(&cfg);
        let res = r.version();
        t.check(res.is_ok(), "version", || format!("{res:?}"));
        let q = m_get_caps(v, &cfg.req);
        let a = r.clear("caps", &q);
        t.step(w.fp());
        let sel = rsp(|r| r.common.negotiate_info.spdm_version_sel.get_u8());
        let st = rsp(|r| r.common.runtime_info.get_connection_state().get_u8());
        if vs.contains(&v) {
            t.check(matches!(&a, Ok(m) if m[..2] == [v, 0x61]) && sel == v, "configured-version-refused", || format!("{a:02x?} {sel:x}"));
        } else {
            t.check(!matches!(&a, Ok(m) if m[1] == 0x61) && st < CS::SpdmConnectionAfterCapabilities.get_u8(), "version-not-configured-accepted", || format!("{a:02x?} {sel:x} {st}"));
            t.out("refused");
        }
    });
}
fn edits(_c: &Ctx) -> Vec<(usize, u8, u8)> {
    let mut v = vec![];
    for off in 2..52 {
        for x in 0..=255u8 {
            v.push((off, 0, x));
        }
        for b in 0..8 {
            v.push((off, 0xff, 1 << b));
        }
    }
    v
}
struct Sel {
    mspec: u8,
    opaque: u8,
    mhash: u32,
    asym: u32,
    hash: u32,
    s: [Option<u16>; 4],
    wellformed: bool,
}
fn parse(m: &[u8], fixed: usize) -> Option<Sel> {
    if m.len() < fixed {
        return None;
    }
    let g = |o: usize| u32::from_le_bytes(m[o..o + 4].try_into().unwrap());
    let rsp = fixed == 36;
    let o = if rsp { 8 } else { 4 };
    // bits without a meaning in this library are reserved: ignored
    let mut s = Sel { mspec: m[6] & 1, opaque: m[7] & 2, mhash: if rsp { g(8) & 0xff } else { 0 }, asym: g(o + 4) & 0xff, hash: g(o + 8) & 7, s: [None; 4], wellformed: true };
    let mut p = fixed;
    for _ in 0..m[2] {
        if p + 4 > m.len() {
            s.wellformed = false;
            break;
        }
        let (t, v) = (m[p], u16::from_le_bytes([m[p + 2], m[p + 3]]));
        if (2..=5).contains(&t) {
            s.s[t as usize - 2] = Some(v & [0x18, 7, 0xff, 1][t as usize - 2]);
        } else {
            s.wellformed = false;
        }
        p += 4;
    }
    Some(s)
}
/// the requester against a changed ALGORITHMS
fn answer(cfg: &Cfg, t: &mut T, f: impl Fn(&mut Vec<u8>) + 'static) {
    let mut m = RefRsp::new(cfg);
    let sent = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let s2 = sent.clone();
    m.craft = Some(Box::new(move |tag, v| {
        if tag == "algs" {
            f(v);
            *s2.borrow_mut() = v.clone();
        }
    }));
    let n = m.n.clone();
    let (mut w, _m) = m.world();
    let r = w.op(&Op::Init);
    t.step(w.fp());
    let sent = sent.borrow().clone();
    let s = parse(&sent, 36).unwrap();
    let one = |v: u32, offered: u32, needed: bool| v & !offered == 0 && v.count_ones() <= 1 && (!needed || v != 0);
    let q = &cfg.req;
    let meas = n.sc & (sc::MEAS_NOSIG | sc::MEAS_SIG) != 0;
    let both = n.rc & n.sc;
    let kex = both & rc::KEX != 0;
    let psk = n.rc & rc::PSK != 0 && n.sc & (sc::PSK | sc::PSK_CTX) != 0;
    let v11 = n.ver >= 0x11;
    let mut bad = vec![];
    let mut chk = |ok: bool, w: &'static str| {
        if !ok {
            bad.push(w)
        }
    };
    chk(one(s.hash, q.hash, true), "hash");
    chk(one(s.asym, q.asym, true), "asym");
    chk(one(s.mspec as u32, q.meas_spec as u32, meas), "measurement specification");
    chk(s.mhash.count_ones() <= 1 && (!meas || s.mhash != 0), "measurement hash");
    if n.ver >= 0x12 {
        chk(one(s.opaque as u32, q.opaque as u32, n.sc & (sc::KEX | sc::PSK | sc::PSK_CTX) != 0), "opaque format");
    }
    if v11 {
        let g = |k: usize| s.s[k].unwrap_or(0) as u32;
        chk(one(g(0), q.dhe as u32, kex), "DHE");
        chk(one(g(1), q.aead as u32, both & (rc::ENC | rc::MAC) != 0), "AEAD");
        chk(one(g(2), q.req_asym as u32, both & rc::MUT != 0), "requester asym");
        chk(one(g(3), q.ks as u32, kex || psk), "key schedule");
    }
    t.out(if r.is_ok() { "accepted" } else { "refused" });
    if r.is_ok() {
        t.check(bad.is_empty(), &format!("bad-answer-accepted/{}", bad.first().unwrap_or(&"")), || format!("{bad:?} in {sent:02x?}"));
        let i = &w.req.common.negotiate_info;
        let same = i.base_hash_sel.bits() == s.hash && i.base_asym_sel.bits() == s.asym && (!v11 || (i.dhe_sel.bits() as u32 == s.s[0].unwrap_or(0) as u32 && i.aead_sel.bits() as u32 == s.s[1].unwrap_or(0) as u32 && i.req_asym_sel.bits() as u32 == s.s[2].unwrap_or(0) as u32));
        t.check(same, "answer-recorded-differently", || format!("{:02x?} for {sent:02x?}", nego(&w.req.common)));
    }
}
/// the responder against a changed NEGOTIATE_ALGORITHMS
fn offer(cfg: &Cfg, t: &mut T, f: impl Fn(&mut Vec<u8>)) {
    let w = World::new(cfg);
    let mut r = RefReq::new(cfg);
    let ver = r.n.ver;
    if let Err(e) = r.version().and_then(|_| r.caps()) {
        t.fail("setup", e);
        return;
    }
    let mut q = m_neg_algs(ver, &cfg.req);
    f(&mut q);
    let a = r.clear("algs", &q);
    t.step(w.fp());
    let st = rsp(|r| r.common.runtime_info.get_connection_state().get_u8());
    let a = match a {
        Err(_) => {
            t.out("no answer");
            t.check(!negotiated(st), "negotiated-silently", String::new);
            return;
        }
        Ok(a) => a,
    };
    if a.len() < 2 || a[1] != 0x63 {
        t.out("error");
        t.check(!negotiated(st), "negotiated-with-error", || format!("{a:02x?}"));
        return;
    }
    t.out("answered");
    let (o, s) = match (parse(&q, 32), parse(&a, 36)) {
        (Some(o), Some(s)) => (o, s),
        _ => return t.fail("answer-malformed", format!("{a:02x?}")),
    };
    let p = &cfg.rsp;
    let mut chk = |what: &str, got: u32, offered: u32, have: u32, order: &[u32]| {
        let want = order.iter().copied().find(|x| offered & have & x != 0).unwrap_or(0);
        t.check(got == want, &format!("answer-choice/{what}"), || format!("selected {got:x}, offered {offered:x}, configured {have:x}"));
    };
    chk("hash", s.hash, o.hash, p.hash, &PRIO_HASH);
    chk("asym", s.asym, o.asym, p.asym, &PRIO_ASYM);
    chk("measurement specification", s.mspec as u32, o.mspec as u32, p.meas_spec as u32, &[1]);
    if ver >= 0x12 {
        chk("opaque", s.opaque as u32, o.opaque as u32, p.opaque as u32, &[2]);
    }
    if ver >= 0x11 && o.wellformed {
        for (k, (name, have, order)) in [("DHE", p.dhe, &PRIO_DHE[..]), ("AEAD", p.aead, &PRIO_AEAD[..]), ("requester asym", p.req_asym, &PRIO_ASYM[..]), ("key schedule", p.ks, &[1][..])].into_iter().enumerate() {
            chk(name, s.s[k].unwrap_or(0) as u32, o.s[k].unwrap_or(0) as u32, have as u32, order);
        }
    }
    // what it recorded is what it said
    let got = rsp(|r| {
        let i = &r.common.negotiate_info;
        vec![i.base_hash_sel.bits(), i.base_asym_sel.bits(), i.measurement_specification_sel.bits() as u32]
    });
    t.check(got == vec![s.hash, s.asym, s.mspec as u32], "recorded-differs-from-answer", || format!("{got:x?} {a:02x?}"));
}
