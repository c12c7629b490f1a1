//! Capability flags, timing exponents and sizes: accepted exactly when legal, recorded exactly, refused without a trace.
use crate::explore::*;
use crate::model::*;
use crate::user::*;
use crate::world::*;
use spdmlib::common::SpdmContext;
use std::cell::RefCell;
use std::rc::Rc;

const fn b(k: u32) -> u32 {
    1 << k
}
const CERT: u32 = b(1);
const CHAL: u32 = b(2);
const ENC: u32 = b(6);
const MAC: u32 = b(7);
const MUT: u32 = b(8);
const KEX: u32 = b(9);
const PSK: u32 = b(10);
const PSKX: u32 = b(11);
const ENCAP: u32 = b(12);
const HB: u32 = b(13);
const KU: u32 = b(14);
const CLEAR: u32 = b(15);
const PUB: u32 = b(16);
const NOSIG: u32 = b(3);
const SIG: u32 = b(4);
const FRESH: u32 = b(5);
const ALIAS: u32 = b(18);
const SETC: u32 = b(19);
const CSR: u32 = b(20);
const RESET: u32 = b(21);
/// bits the specification defines: (requester, responder) of a version
fn defined(ver: u8, is_req: bool) -> u32 {
    match (is_req, ver) {
        (true, 0x10) => 0,
        (true, 0x11) => 0x1_ffc6,
        (true, _) => 0x3_ffc6,
        (false, 0x10) => 0x3f,
        (false, 0x11) => 0x1_ffff,
        (false, _) => 0x3f_ffff,
    }
}
/// the rules of the specification, written as a table of (premises, consequence): every rule must hold
fn legal(ver: u8, is_req: bool, f: u32) -> bool {
    let f = f & defined(ver, is_req);
    let any = |m: u32| f & m != 0;
    let all = |m: u32| f & m == m;
    if is_req {
        if ver == 0x10 {
            return true;
        }
        let mut ok = !any(PSKX);
        ok &= if any(KEX | PSK) { any(MAC) } else { !any(MAC | ENC | CLEAR | HB | KU) };
        ok &= any(KEX) || !all(PSK | CLEAR);
        ok &= !all(CERT | PUB);
        ok &= if any(CERT | PUB) { any(CHAL | KEX) } else { !any(CHAL | MUT) };
        ok &= ver != 0x11 || !any(MUT) || any(ENCAP);
        return ok;
    }
    let mut ok = !all(NOSIG | SIG) && (!any(FRESH) || any(NOSIG | SIG));
    if ver == 0x10 {
        return ok && if any(SIG) { any(CERT) } else { any(CERT) == any(CHAL) };
    }
    ok &= !all(PSK | PSKX);
    ok &= if any(KEX | PSK | PSKX) { any(MAC) } else { !any(MAC | ENC | CLEAR | HB | KU) };
    ok &= any(KEX) || !any(PSK | PSKX) || !any(CLEAR);
    ok &= !all(CERT | PUB);
    ok &= if any(CERT | PUB) { any(CHAL | KEX | SIG) } else { !any(CHAL | KEX | SIG | MUT) };
    if ver == 0x11 {
        ok &= !any(MUT) || any(ENCAP);
    } else {
        ok &= any(CERT) || !any(ALIAS | SETC);
        ok &= !any(CSR) || any(SETC);
        ok &= !any(RESET) || any(CSR | SETC);
    }
    ok
}
fn size_ok(dts: u32, max: u32) -> bool {
    dts >= 42 && max >= dts
}
#[derive(Clone, Copy, Debug)]
struct Ann {
    flags: u32,
    ct: u8,
    dts: u32,
    max: u32,
}
const STD: Ann = Ann { flags: 0, ct: 0, dts: 4096, max: 4096 };
fn side(a: &Ann) -> Side {
    let mut s = base_cfg().req;
    s.caps = a.flags;
    s.ct = a.ct;
    s.dts = a.dts;
    s.max_msg = a.max;
    s
}
fn plain(flags: u32) -> Ann {
    Ann { flags, ..STD }
}
/// what an end has recorded about the two announcements
fn check_record(c: &SpdmContext, ver: u8, req: &Ann, rsp: &Ann, peer_is_req: bool) -> Result<(), String> {
    let n = &c.negotiate_info;
    if n.spdm_version_sel.get_u8() != ver {
        return Err(format!("version {:x?}", n.spdm_version_sel));
    }
    let (mine, mine_ct, theirs, theirs_ct) = if peer_is_req {
        (n.rsp_capabilities_sel.bits(), n.rsp_ct_exponent_sel, n.req_capabilities_sel.bits(), n.req_ct_exponent_sel)
    } else {
        (n.req_capabilities_sel.bits(), n.req_ct_exponent_sel, n.rsp_capabilities_sel.bits(), n.rsp_ct_exponent_sel)
    };
    let (own, peer) = if peer_is_req { (rsp, req) } else { (req, rsp) };
    if mine != own.flags || mine_ct != own.ct {
        return Err(format!("own flags {mine:x} exponent {mine_ct}, configured {:x} {}", own.flags, own.ct));
    }
    // bits of a later version may be kept or cleared
    let (must, may) = (defined(ver, peer_is_req), if peer_is_req && ver == 0x10 { 0 } else { defined(0x12, peer_is_req) });
    if theirs & must != peer.flags & must || theirs & !may != 0 || theirs & !peer.flags != 0 {
        return Err(format!("recorded {theirs:x}, announced {:x}", peer.flags));
    }
    let ct = if peer_is_req && ver == 0x10 { 0 } else { peer.ct };
    if theirs_ct != ct {
        return Err(format!("exponent {theirs_ct}, announced {ct}"));
    }
    let s = [n.req_data_transfer_size_sel, n.req_max_spdm_msg_size_sel, n.rsp_data_transfer_size_sel, n.rsp_max_spdm_msg_size_sel];
    let want = if ver >= 0x12 { [req.dts, req.max, rsp.dts, rsp.max] } else { [0; 4] };
    if s != want {
        return Err(format!("sizes {s:?}, announced {want:?}"));
    }
    Ok(())
}
fn ann_of(s: &Side) -> Ann {
    Ann { flags: s.caps, ct: s.ct, dts: s.dts, max: s.max_msg }
}
fn say(tr: Tr, m: &[u8]) -> Vec<u8> {
    let r = inject(&frame(tr, false, m));
    r.first().and_then(|f| unframe(tr, f)).map(|x| x.1).unwrap_or_default()
}
fn snap() -> Vec<u8> {
    rsp(|r| {
        let mut v = nego(&r.common);
        v.push(r.common.runtime_info.get_connection_state().get_u8());
        for (s, k) in sess_table(&r.common) {
            v.extend(s.to_le_bytes());
            v.push(k);
        }
        v
    })
}
/// one announcement made to the responder in a fresh connection
fn to_rsp(cfg: &Cfg, ver: u8, a: &Ann, t: &mut T) -> bool {
    link(|l| l.nmsg = 0);
    let v = say(cfg.tr, &m_get_version());
    if v.get(1) != Some(&4) {
        t.fail("rsp/version", format!("{v:02x?}"));
        return false;
    }
    let before = snap();
    let ok = legal(ver, true, a.flags) && (ver < 0x12 || size_ok(a.dts, a.max));
    let r = say(cfg.tr, &m_get_caps(ver, &side(a)));
    let want = m_caps(ver, &cfg.rsp);
    let exp = a.ct > 31 && ver > 0x10;
    if ok && !(exp && r.get(1) == Some(&0x7f)) {
        if r.len() < want.len() || r[..want.len()] != want[..] {
            t.fail("rsp/refused", format!("{ver:x} {a:x?}: answered {r:02x?}, expected {want:02x?}"));
            return false;
        }
        if let Err(e) = rsp(|r| check_record(&r.common, ver, a, &ann_of(&cfg.rsp), true)) {
            t.fail("rsp/recorded", format!("{ver:x} {a:x?}: {e}"));
            return false;
        }
        return true;
    }
    if r.get(1) != Some(&0x7f) {
        t.fail("rsp/accepted", format!("{ver:x} {a:x?}: answered {r:02x?}"));
        return false;
    }
    if snap() != before {
        t.fail("rsp/refused-trace", format!("{ver:x} {a:x?}: {:02x?} -> {:02x?}", before, snap()));
        return false;
    }
    // the refusal leaves the requester free to announce something legal
    let again = plain(CERT | CHAL);
    let r = say(cfg.tr, &m_get_caps(ver, &side(&again)));
    if r.len() < want.len() || r[..want.len()] != want[..] {
        t.fail("rsp/after-refusal", format!("{ver:x} {a:x?}: then {r:02x?}"));
        return false;
    }
    if let Err(e) = rsp(|r| check_record(&r.common, ver, &again, &ann_of(&cfg.rsp), true)) {
        t.fail("rsp/after-refusal", format!("{ver:x} {a:x?}: {e}"));
        return false;
    }
    true
}
fn world_rsp(ver: u8, tr: Tr) -> (Cfg, World) {
    let cfg = cfg_v(ver, tr);
    let w = World::new(&cfg);
    (cfg, w)
}
/// a bare responder that announces whatever it is told to
struct Bare {
    cfg: Cfg,
    w: World,
    ann: Rc<RefCell<Ann>>,
    seen: Rc<RefCell<Vec<u8>>>,
}
fn bare(ver: u8, tr: Tr) -> Bare {
    bare_cfg(cfg_v(ver, tr), ver)
}
fn bare_cfg(cfg: Cfg, ver: u8) -> Bare {
    let ann = Rc::new(RefCell::new(STD));
    let seen = Rc::new(RefCell::new(vec![]));
    let (a, s, tr) = (ann.clone(), seen.clone(), cfg.tr);
    let p: Peer = Box::new(move |f| {
        let m = match unframe(tr, f) {
            Some((false, m)) => m,
            _ => return vec![],
        };
        let r = match m.get(1) {
            Some(0x84) => m_version(&[ver]),
            Some(0xe1) => {
                *s.borrow_mut() = m.clone();
                m_caps(ver, &side(&a.borrow()))
            }
            _ => m_err(ver, 4, 0),
        };
        vec![frame(tr, false, &r)]
    });
    Bare { w: World::with_peer(&cfg, p), cfg, ann, seen }
}
impl Bare {
    /// one announcement made to the requester in a fresh connection
    fn go(&mut self, ver: u8, a: &Ann, t: &mut T) -> bool {
        *self.ann.borrow_mut() = *a;
        link(|l| l.nmsg = 0);
        if let Err(e) = self.w.op(&Op::Version) {
            t.fail("req/version", format!("{e:?}"));
            return false;
        }
        let before = nego(&self.w.req.common);
        let ok = legal(ver, false, a.flags) && (ver < 0x12 || size_ok(a.dts, a.max));
        let r = self.w.op(&Op::Caps);
        let want = m_get_caps(ver, &self.cfg.req);
        {
            let s = self.seen.borrow();
            if s.len() < want.len() || s[..want.len()] != want[..] {
                t.fail("req/own", format!("sent {s:02x?}, expected {want:02x?}"));
                return false;
            }
        }
        if ok && !(a.ct > 31 && r.is_err()) {
            if r.is_err() {
                t.fail("req/refused", format!("{ver:x} {a:x?}: {r:?}"));
                return false;
            }
            if let Err(e) = check_record(&self.w.req.common, ver, &ann_of(&self.cfg.req), a, false) {
                t.fail("req/recorded", format!("{ver:x} {a:x?}: {e}"));
                return false;
            }
            return true;
        }
        if r.is_ok() {
            t.fail("req/accepted", format!("{ver:x} {a:x?}"));
            return false;
        }
        let after = nego(&self.w.req.common);
        if after != before {
            t.fail("req/refused-trace", format!("{ver:x} {a:x?}: {before:02x?} -> {after:02x?}"));
            return false;
        }
        true
    }
}
/// deposit the low bits of x in the set bits of m
fn dep(mut x: u32, m: u32) -> u32 {
    let mut r = 0;
    for k in 0..32 {
        if m & b(k) != 0 {
            r |= (x & 1) << k;
            x >>= 1;
        }
    }
    r
}
const VERS: [u8; 3] = [0x10, 0x11, 0x12];
const CH: usize = 1024;
fn flags_rsp(c: &Ctx) {
    // every combination of the bits the responder knows, alone and with all the other bits set
    let m = defined(0x12, true);
    let n = 1usize << m.count_ones();
    let per = n / CH;
    let fill: [u32; 2] = [0, !m];
    c.par("req-flags", 3 * 2 * per, |i, t| {
        let d = digits(i, &[per, 2, 3]);
        let ver = VERS[d[2]];
        let (cfg, _w) = world_rsp(ver, if d[0] % 2 == 0 { Tr::Mctp } else { Tr::Doe });
        let mut acc = 0usize;
        for k in 0..CH {
            let f = dep((d[0] * CH + k) as u32, m) | fill[d[1]];
            if !to_rsp(&cfg, ver, &plain(f), t) {
                return;
            }
            acc += legal(ver, true, f) as usize;
            t.step(hash64(&[&[ver], &f.to_le_bytes(), &snap()]));
        }
        t.out(format!("{ver:x}/{acc}"));
    });
    // reserved bits, one and two at a time, on legal and illegal combinations
    let deep = !c.quick();
    c.par("req-reserved", 3 * 64, |i, t| {
        let d = digits(i, &[64, 3]);
        let ver = VERS[d[1]];
        let (cfg, _w) = world_rsp(ver, Tr::Mctp);
        for j in 0..32u32 {
            for k in 0..=j {
                for q in 0..if deep { 16 } else { 1 } {
                    let base = dep((d[0] as u32).wrapping_mul(0x9e5) ^ (q * 0x123), m);
                    let f = base ^ b(j) ^ if k == j { 0 } else { b(k) };
                    if !to_rsp(&cfg, ver, &plain(f), t) {
                        return;
                    }
                    t.step(hash64(&[&[ver], &f.to_le_bytes(), &snap()]));
                }
            }
        }
    });
}
fn flags_req(c: &Ctx) {
    let run = |ver: u8, tr: Tr, fs: &mut dyn Iterator<Item = u32>, t: &mut T| {
        let mut w = bare(ver, tr);
        let mut acc = 0usize;
        for f in fs {
            if !w.go(ver, &plain(f), t) {
                return;
            }
            acc += legal(ver, false, f) as usize;
            t.step(hash64(&[&[ver], &f.to_le_bytes(), &nego(&w.w.req.common)]));
        }
        t.out(format!("{ver:x}/{acc}"));
    };
    // The 22 bits make 4 million combinations per version; in the quick tier, for 1.0 and 1.1, the bits no rule of
    // the version mentions take two values together (all clear and all set).
    let free = |ver: u8| match ver {
        0x10 => 0x3f_ffc1,
        0x11 => 0x3e_0001,
        _ => 0x02_0001u32,
    };
    for (vi, ver) in VERS.iter().enumerate() {
        let ver = *ver;
        let all = defined(0x12, false);
        let (m, fills): (u32, Vec<u32>) = match (c.quick(), ver) {
            (true, 0x12) => (all, vec![0]),
            (true, _) => (all & !free(ver), vec![0, free(ver), !all, free(ver) | !all]),
            _ => (all, vec![0, !all]),
        };
        let ch = CH.min(1 << m.count_ones());
        let per = (1usize << m.count_ones()) / ch;
        c.par(["rsp-flags10", "rsp-flags11", "rsp-flags12"][vi], per * fills.len(), |i, t| {
            let d = digits(i, &[per, fills.len()]);
            let mut it = (0..ch).map(|k| dep((d[0] * ch + k) as u32, m) | fills[d[1]]);
            run(ver, if d[0] % 2 == 0 { Tr::Mctp } else { Tr::Doe }, &mut it, t);
        });
    }
    // the certificate-setting rules in full, over a frame of the other bits
    let m = CERT | PUB | CHAL | KEX | MAC | MUT | ENCAP | ALIAS | SETC | CSR | RESET | b(17);
    let per = (1usize << m.count_ones()) / CH;
    c.par("rsp-cert", 3 * 4 * per, |i, t| {
        let d = digits(i, &[per, 4, 3]);
        let add = [0, SIG, PSK, NOSIG | FRESH][d[1]];
        let mut it = (0..CH).map(|k| dep((d[0] * CH + k) as u32, m) | add);
        run(VERS[d[2]], Tr::Mctp, &mut it, t);
    });
    let deep = !c.quick();
    c.par("rsp-reserved", 3 * 64, |i, t| {
        let d = digits(i, &[64, 3]);
        let mut v = vec![];
        for q in 0..if deep { 16u32 } else { 1 } {
            let base = dep((d[0] as u32).wrapping_mul(0x1_9e5b) ^ (q * 0x12345), defined(0x12, false));
            for j in 0..32u32 {
                for k in 0..=j {
                    v.push(base ^ b(j) ^ if k == j { 0 } else { b(k) });
                }
            }
        }
        run(VERS[d[1]], Tr::Mctp, &mut v.into_iter(), t);
    });
}
const OK_REQ: u32 = CERT | CHAL;
const OK_RSP: u32 = CERT | CHAL | SIG;
fn sizes(deep: bool) -> Vec<u32> {
    let mut v = vec![0, 1, 41, 42, 43, 64, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX];
    if deep {
        v.extend(2..41);
        v.extend(44..64);
        v.extend((5..32).flat_map(|k| [b(k) - 1, b(k), b(k) + 1]));
        v.extend([0x2a00, 0x2a0000, 0x2a000000, 0x2900, 0x0100_0029]);
        v.sort();
        v.dedup();
    }
    v
}
fn fields(c: &Ctx) {
    c.par("ct", 3 * 4, |i, t| {
        let d = digits(i, &[4, 3]);
        let ver = VERS[d[1]];
        let tr = if d[0] & 1 == 0 { Tr::Mctp } else { Tr::Doe };
        if d[0] < 2 {
            let (cfg, _w) = world_rsp(ver, tr);
            for ct in 0..=255u8 {
                if !to_rsp(&cfg, ver, &Ann { ct, ..plain(OK_REQ) }, t) {
                    return;
                }
                t.step(hash64(&[&[ver, ct], &snap()]));
            }
        } else {
            let mut w = bare(ver, tr);
            for ct in 0..=255u8 {
                if !w.go(ver, &Ann { ct, ..plain(OK_RSP) }, t) {
                    return;
                }
                t.step(hash64(&[&[ver, ct], &nego(&w.w.req.common)]));
            }
        }
    });
    let sz = sizes(!c.quick());
    c.par("sizes", 3 * 2 * sz.len(), |i, t| {
        let d = digits(i, &[sz.len(), 2, 3]);
        let ver = VERS[d[2]];
        let dts = sz[d[0]];
        let mut out = String::new();
        if d[1] == 0 {
            let (cfg, _w) = world_rsp(ver, Tr::Mctp);
            for max in &sz {
                if !to_rsp(&cfg, ver, &Ann { dts, max: *max, ..plain(OK_REQ) }, t) {
                    return;
                }
                out.push(if size_ok(dts, *max) { '1' } else { '0' });
                t.step(hash64(&[&[ver], &dts.to_le_bytes(), &max.to_le_bytes(), &snap()]));
            }
        } else {
            let mut w = bare(ver, Tr::Mctp);
            for max in &sz {
                if !w.go(ver, &Ann { dts, max: *max, ..plain(OK_RSP) }, t) {
                    return;
                }
                out.push(if size_ok(dts, *max) { '1' } else { '0' });
                t.step(hash64(&[&[ver], &dts.to_le_bytes(), &max.to_le_bytes(), &nego(&w.w.req.common)]));
            }
        }
        t.out(out);
    });
}
/// the two real ends: each announces what it is configured with, and both record it
fn own(c: &Ctx) {
    let bits_q = [CERT, CHAL, ENC, MAC, MUT, KEX, PSK, ENCAP, HB, KU, CLEAR, PUB, b(17)];
    let bits_s = [b(0), CERT, CHAL, NOSIG, SIG, FRESH, ENC, MAC, MUT, KEX, PSK, PSKX, ENCAP, HB, KU, CLEAR, PUB, b(17), ALIAS, SETC, CSR, RESET];
    let (full_q, full_s) = (base_cfg().req.caps, base_cfg().rsp.caps);
    // flips of the full set and of the bare set, one and two at a time
    let flips = |full: u32, small: u32, bits: &[u32], deep: bool| -> Vec<u32> {
        let mut v = vec![];
        for base in [full, small] {
            v.push(base);
            for (i, x) in bits.iter().enumerate() {
                v.push(base ^ x);
                if deep {
                    v.extend(bits[..i].iter().map(|y| base ^ x ^ y));
                }
            }
        }
        v
    };
    let deep = !c.quick();
    let q = flips(full_q, OK_REQ, &bits_q, deep);
    let s = flips(full_s, OK_RSP, &bits_s, deep);
    c.par("own", 3 * q.len(), |i, t| {
        let d = digits(i, &[q.len(), 3]);
        let ver = VERS[d[1]];
        for (k, f) in s.iter().enumerate() {
            let mut cfg = cfg_v(ver, if k % 2 == 0 { Tr::Mctp } else { Tr::Doe });
            cfg.req.caps = q[d[0]];
            cfg.rsp.caps = *f;
            cfg.req.ct = (k % 32) as u8;
            cfg.rsp.ct = (d[0] % 32) as u8;
            cfg.req.dts = 500 + k as u32;
            cfg.rsp.dts = 600 + d[0] as u32;
            cfg.req.max_msg = 4000 + d[0] as u32 % 90;
            cfg.rsp.max_msg = 4000 + k as u32;
            let mut w = World::new(&cfg);
            let _ = w.op(&Op::Version);
            let r = w.op(&Op::Caps);
            let (lq, ls) = (legal(ver, true, q[d[0]]), legal(ver, false, *f));
            t.step(w.fp());
            if r.is_ok() != (lq && ls) {
                return t.fail("own/result", format!("{ver:x} {:x} {f:x}: {r:?}, legal {lq} {ls}", q[d[0]]));
            }
            if lq {
                if let Err(e) = rsp(|r| check_record(&r.common, ver, &ann_of(&cfg.req), &ann_of(&cfg.rsp), true)) {
                    return t.fail("own/responder", e);
                }
            }
            if r.is_ok() {
                if let Err(e) = check_record(&w.req.common, ver, &ann_of(&cfg.req), &ann_of(&cfg.rsp), false) {
                    return t.fail("own/requester", e);
                }
            }
        }
    });
}
/// several connections of one pair: nothing of an earlier announcement survives
fn reconnect(c: &Ctx) {
    let anns: Vec<(u8, Ann)> = {
        let mut v = vec![];
        for ver in VERS {
            v.push((ver, Ann { flags: OK_REQ, ct: 3, dts: 100, max: 200 }));
            v.push((ver, Ann { flags: 0x1_f7c6 & !PUB, ct: 31, dts: 4096, max: 70000 }));
            v.push((ver, Ann { flags: MAC, ct: 7, dts: 999, max: 9999 }));
            v.push((ver, Ann { flags: OK_REQ, ct: 9, dts: 41, max: 50 }));
        }
        v
    };
    let k = c.pick(3, 4);
    let tot = count_seqs(anns.len(), k);
    let ch = 64;
    c.par("reconnect-rsp", (tot + ch - 1) / ch, |i, t| {
        for j in i * ch..((i + 1) * ch).min(tot) {
            let mut cfg = cfg_v(0x12, Tr::Mctp);
            cfg.rsp.vers = vec![0x10, 0x11, 0x12];
            cfg.rsp.ct = 5;
            let _w = World::new(&cfg);
            for x in nth_seq(j, anns.len(), k) {
                let (ver, a) = &anns[x];
                if !to_rsp(&cfg, *ver, a, t) {
                    return;
                }
                t.step(hash64(&[&snap()]));
            }
        }
    });
    let rsps: Vec<(u8, Ann)> = anns.iter().map(|(v, a)| (*v, Ann { flags: if a.flags == OK_REQ { OK_RSP } else if a.flags == MAC { FRESH } else { 0x3f_fff7 & !(PUB | PSKX) }, ..*a })).collect();
    c.par("reconnect-req", (tot + ch - 1) / ch, |i, t| {
        for j in i * ch..((i + 1) * ch).min(tot) {
            let mut cfg = cfg_v(0x12, Tr::Mctp);
            cfg.req.vers = vec![0x10, 0x11, 0x12];
            cfg.req.ct = 6;
            let ann = Rc::new(RefCell::new((0x12u8, STD)));
            let a2 = ann.clone();
            let p: Peer = Box::new(move |f| {
                let (ver, a) = *a2.borrow();
                let r = match unframe(Tr::Mctp, f).map(|x| x.1[1]) {
                    Some(0x84) => m_version(&[ver]),
                    _ => m_caps(ver, &side(&a)),
                };
                vec![frame(Tr::Mctp, false, &r)]
            });
            let mut w = World::with_peer(&cfg, p);
            for x in nth_seq(j, rsps.len(), k) {
                let (ver, a) = rsps[x];
                *ann.borrow_mut() = (ver, a);
                if w.op(&Op::Version).is_err() {
                    return t.fail("req/version", String::new());
                }
                let before = nego(&w.req.common);
                let r = w.op(&Op::Caps);
                t.step(hash64(&[&nego(&w.req.common)]));
                let ok = legal(ver, false, a.flags) && (ver < 0x12 || size_ok(a.dts, a.max));
                if r.is_ok() != ok {
                    return t.fail(if ok { "req/refused" } else { "req/accepted" }, format!("{ver:x} {a:x?}: {r:?}"));
                }
                if !ok {
                    if nego(&w.req.common) != before {
                        return t.fail("req/refused-trace", format!("{ver:x} {a:x?}"));
                    }
                } else if let Err(e) = check_record(&w.req.common, ver, &ann_of(&cfg.req), &a, false) {
                    return t.fail("req/recorded", format!("{ver:x} {a:x?}: {e}"));
                }
            }
        }
    });
}
pub fn run(c: &Ctx) {
    flags_rsp(c);
    fields(c);
    own(c);
    reconnect(c);
    flags_req(c);
}
