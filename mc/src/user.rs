//! The honest user's view: which operations may be issued, what they must return, and the configuration catalogue.
use crate::fake;
use crate::world::*;

/// common version of two sides, 0 if none
pub fn common_ver(c: &Cfg) -> u8 {
    c.req.vers.iter().copied().filter(|v| c.rsp.vers.contains(v)).max().unwrap_or(0)
}
#[derive(Clone, Debug, Default)]
pub struct User {
    pub conn: bool,
    pub certs: u8,
    pub live: Vec<usize>,
    pub nsess: usize,
    /// certificate portions pending in a finite transcript buffer
    pub pending: bool,
}
pub struct Profile {
    /// leave out variants of the same operation
    pub slim: bool,
    pub slots: Vec<u8>,
}
fn has(c: u32, b: u32) -> bool {
    c & b != 0
}
/// can this build sign and verify with the negotiated version?
pub fn can_sign(v: u8) -> bool {
    !HASHED || v >= 0x12
}
pub fn can_ke(c: &Cfg) -> bool {
    common_ver(c) >= 0x11 && can_sign(common_ver(c)) && has(c.req.caps & c.rsp.caps, rc::KEX)
}
pub fn can_psk(c: &Cfg) -> bool {
    common_ver(c) >= 0x11 && has(c.req.caps, rc::PSK) && has(c.rsp.caps, sc::PSK | sc::PSK_CTX)
}
impl User {
    pub fn enabled(&self, c: &Cfg, p: &Profile) -> Vec<Op> {
        let mut v = vec![Op::Init];
        if !self.conn {
            return v;
        }
        let ver = common_ver(c);
        let both = c.req.caps & c.rsp.caps;
        let cert = has(c.rsp.caps, sc::CERT);
        let meas = has(c.rsp.caps, sc::MEAS_NOSIG | sc::MEAS_SIG);
        let msig = has(c.rsp.caps, sc::MEAS_SIG) && can_sign(ver);
        if cert {
            v.push(Op::Digest(None));
            let big = !HASHED && c.rsp.slots.iter().any(|x| x.1 > 2000);
            if !(big && self.pending) {
                for s in &p.slots {
                    v.push(Op::Cert(None, *s));
                }
            }
        }
        let all = if meas { 0xff } else { 0 };
        let slots = p.slots.iter().copied().filter(|s| self.certs & (1 << s) != 0).collect::<Vec<_>>();
        for s in &slots {
            if has(c.rsp.caps, sc::CHAL) && can_sign(ver) {
                v.push(Op::Chal(*s, if *s == 0 { all } else { 0 }));
                if !p.slim && meas {
                    v.push(Op::Chal(*s, 1));
                }
            }
            if msig && (ver > 0x10 || *s == 0) {
                v.push(Op::Meas(None, true, 0xff, *s));
                if !p.slim {
                    v.push(Op::Meas(None, true, 0, *s));
                }
            }
            if can_ke(c) && self.live.len() < 4 {
                v.push(Op::Ke(*s, if *s == 0 { all } else { 0 }));
                if !p.slim && meas {
                    v.push(Op::Ke(*s, 1));
                }
            }
        }
        if meas {
            v.push(Op::Meas(None, false, 2, 0));
            if !p.slim {
                v.push(Op::Meas(None, false, 0, 0));
                v.push(Op::Meas(None, false, 0xff, 0));
            }
        }
        if can_psk(c) && self.live.len() < 4 {
            v.push(Op::Psk(all));
            if !p.slim {
                v.push(Op::Psk(0));
            }
        }
        v.push(Op::Vendor(None, b"vn".to_vec()));
        for h in &self.live {
            let h = *h;
            if has(both, rc::HB) {
                v.push(Op::Hb(h));
            }
            if has(both, rc::KU) {
                v.push(Op::Ku(h, 1));
                v.push(Op::Ku(h, 2));
            }
            if c.tr == Tr::Mctp {
                v.push(Op::App(h, b"app!".to_vec()));
            }
            v.push(Op::Vendor(Some(h), b"vendor data".to_vec()));
            if cert {
                v.push(Op::Digest(Some(h)));
                v.push(Op::Cert(Some(h), *p.slots.last().unwrap()));
            }
            if meas {
                v.push(Op::Meas(Some(h), false, 0xff, 0));
                if msig && self.certs & 1 != 0 {
                    v.push(Op::Meas(Some(h), true, 1, 0));
                }
            }
            v.push(Op::End(h));
        }
        v
    }
    pub fn apply(&mut self, op: &Op) {
        if !matches!(op, Op::Cert(..) | Op::Vendor(..) | Op::App(..)) {
            self.pending = false;
        }
        match op {
            Op::Init => {
                self.conn = true;
                self.certs = 0;
                self.live.clear();
            }
            Op::Cert(x, s) => {
                self.certs |= 1 << s;
                self.pending |= x.is_none();
            }
            Op::Ke(..) | Op::Psk(_) => {
                self.live.push(self.nsess);
                self.nsess += 1;
            }
            Op::End(h) => self.live.retain(|x| x != h),
            _ => {}
        }
    }
    /// all sequences of exactly `depth` enabled operations
    pub fn sequences(&self, c: &Cfg, p: &Profile, depth: usize, pre: &[Op], out: &mut Vec<Vec<Op>>) {
        if depth == 0 {
            out.push(pre.to_vec());
            return;
        }
        for o in self.enabled(c, p) {
            let mut u = self.clone();
            u.apply(&o);
            let mut q = pre.to_vec();
            q.push(o);
            u.sequences(c, p, depth - 1, &q, out);
        }
    }
}
/// None: any success will do
pub fn expect_value(c: &Cfg, op: &Op) -> Option<Out> {
    match op {
        Op::Meas(_, _, o, _) => {
            if *o == 0 {
                Some(Out::Meas { total: c.meas.len() as u8, n: 0, rec: vec![], changed: None })
            } else {
                let (n, rec) = fake::meas_record(&c.meas, *o as usize)?;
                Some(Out::Meas { total: n, n, rec, changed: None })
            }
        }
        Op::App(_, d) => {
            let mut v = b"AR".to_vec();
            v.extend(d.iter().map(|b| b ^ 0xAA));
            Some(Out::Data(v))
        }
        Op::Vendor(_, d) => {
            let mut v = b"VR".to_vec();
            v.extend(d.iter().map(|b| b ^ 0x55));
            Some(Out::Data(v))
        }
        Op::Ke(..) | Op::Psk(_) => None,
        _ => Some(Out::Unit),
    }
}
/// the two sides describe the same connection and the same sessions
pub fn agreement(w: &World) -> Result<(), (String, String)> {
    let mut a = nego(&w.req.common);
    let mut b = rsp(|r| nego(&r.common));
    if a[0] == 0x10 {
        // the 1.0 GET_CAPABILITIES carries nothing about the requester
        for x in [&mut a, &mut b] {
            x[1..5].fill(0);
            x[9] = 0;
        }
    }
    if a != b {
        return Err(("nego-differs".into(), format!("req {a:02x?} rsp {b:02x?}")));
    }
    let a = sess_table(&w.req.common);
    let b = rsp(|r| sess_table(&r.common));
    if a != b {
        return Err(("sessions-differ".into(), format!("req {a:x?} rsp {b:x?}")));
    }
    Ok(())
}
/// run one honest history; every operation must succeed with the right value, the sides must agree
pub fn honest(w: &mut World, ops: &[Op], t: &mut crate::explore::T, u: &mut User) -> bool {
    for (i, o) in ops.iter().enumerate() {
        let r = w.op(o);
        t.step(w.fp());
        u.apply(o);
        match &r {
            Err(e) => {
                t.out(format!("{} failed", o.short()));
                t.fail(format!("refused/{}", op_kind(o)), format!("op {i} {} failed: {:x?}", o.short(), e.status_code));
                return false;
            }
            Ok(x) => {
                if let Some(e) = expect_value(&w.cfg, o) {
                    if *x != e {
                        t.fail(format!("value/{}", op_kind(o)), format!("op {i} {} returned {x:x?}, expected {e:x?}", o.short()));
                        return false;
                    }
                }
                if let Out::Sid(s) = x {
                    if *s == 0 || *s & 0xffff == 0 || *s >> 16 == 0 {
                        t.fail("zero-session-id", format!("{s:x}"));
                    }
                    if u.live.iter().filter(|h| w.sids[**h] == *s).count() > 1 {
                        t.fail("duplicate-session-id", format!("{s:x}"));
                    }
                }
            }
        }
        if let Err((k, d)) = agreement(w) {
            t.fail(k, format!("after op {i} {}: {d}", o.short()));
            return false;
        }
        let mut live: Vec<(u32, u8)> = u.live.iter().map(|h| (w.sids[*h], 2)).collect();
        live.sort();
        let st = sess_table(&w.req.common);
        if st.iter().map(|x| x.0).collect::<Vec<_>>() != live.iter().map(|x| x.0).collect::<Vec<_>>() {
            t.fail("sessions-wrong", format!("after op {i} {}: sessions {st:x?}, expected {live:x?}", o.short()));
            return false;
        }
    }
    true
}
/// every live session still carries traffic in both directions
pub fn probe_sessions(w: &mut World, u: &User, t: &mut crate::explore::T) {
    for h in &u.live {
        let o = if w.cfg.tr == Tr::Mctp { Op::App(*h, b"probe".to_vec()) } else { Op::Vendor(Some(*h), b"probe".to_vec()) };
        let r = w.op(&o);
        t.step(w.fp());
        if r.as_ref().ok() != expect_value(&w.cfg, &o).as_ref() {
            t.fail("session-dead", format!("probe of session {h}: {r:x?}"));
        }
    }
}
pub fn op_kind(o: &Op) -> &'static str {
    match o {
        Op::Init => "init",
        Op::Version => "version",
        Op::Caps => "caps",
        Op::Algs => "algs",
        Op::Digest(None) => "digest",
        Op::Digest(_) => "digest-in-session",
        Op::Cert(None, _) => "cert",
        Op::Cert(..) => "cert-in-session",
        Op::Chal(..) => "challenge",
        Op::Meas(None, true, ..) => "meas-signed",
        Op::Meas(None, ..) => "meas",
        Op::Meas(_, true, ..) => "meas-signed-in-session",
        Op::Meas(..) => "meas-in-session",
        Op::Ke(..) => "ke",
        Op::Psk(_) => "psk",
        Op::Hb(_) => "hb",
        Op::Ku(..) => "ku",
        Op::App(..) => "app",
        Op::Vendor(None, _) => "vendor",
        Op::Vendor(..) => "vendor-in-session",
        Op::End(_) => "end",
    }
}

// ------------------------------------------------------------------ configurations

pub fn set_vers(c: &mut Cfg, v: &[u8]) {
    c.req.vers = v.to_vec();
    c.rsp.vers = v.to_vec();
}
/// the same algorithm choice on both sides
pub fn set_algs(c: &mut Cfg, hash: u32, asym: u32, dhe: u16, aead: u16) {
    for s in [&mut c.req, &mut c.rsp] {
        s.hash = hash;
        s.asym = asym;
        s.dhe = dhe;
        s.aead = aead;
        s.meas_hash = hash << 1;
    }
    c.meas = std_meas(match hash {
        1 => 32,
        2 => 48,
        _ => 64,
    });
}
/// version v (0: all), transport, and a named variation
pub fn cfg_v(v: u8, tr: Tr) -> Cfg {
    let mut c = base_cfg();
    c.tr = tr;
    if v != 0 {
        set_vers(&mut c, &[v]);
    }
    c
}
pub fn clear_caps(c: &mut Cfg, b: u32) {
    c.req.caps &= !b;
    c.rsp.caps &= !b;
}
/// named compatible configurations
pub fn catalogue() -> Vec<(String, Cfg)> {
    let mut out: Vec<(String, Cfg)> = vec![];
    let sets: [&[u8]; 7] = [&[0x10], &[0x11], &[0x12], &[0x10, 0x11], &[0x11, 0x12], &[0x10, 0x12], &[0x10, 0x11, 0x12]];
    for a in sets {
        for b in sets {
            if a.iter().any(|x| b.contains(x)) {
                let mut c = base_cfg();
                c.req.vers = a.to_vec();
                c.rsp.vers = b.to_vec();
                out.push((format!("vers {a:x?}/{b:x?}"), c));
            }
        }
    }
    for v in [0x10u8, 0x11, 0x12] {
        out.push((format!("doe {v:x}"), cfg_v(v, Tr::Doe)));
    }
    let mut add = |n: &str, vs: &[u8], f: &dyn Fn(&mut Cfg)| {
        for v in vs {
            for tr in [Tr::Mctp, Tr::Doe] {
                let mut c = cfg_v(*v, tr);
                f(&mut c);
                out.push((format!("{n} {v:x} {tr:?}"), c));
            }
        }
    };
    let s: &[u8] = &[0x11, 0x12];
    let all: &[u8] = &[0x10, 0x11, 0x12];
    for (hn, h) in [("sha256", 1u32), ("sha384", 2), ("sha512", 4)] {
        for (an, a) in [("rsassa2048", 1u32), ("rsapss2048", 2), ("rsassa3072", 4), ("rsapss3072", 8), ("p256", 0x10), ("rsassa4096", 0x20), ("rsapss4096", 0x40), ("p384", 0x80)] {
            let dhe = if h == 1 { 8 } else { 16 };
            let aead = match h {
                1 => 1,
                2 => 2,
                _ => 4,
            };
            add(&format!("{hn}-{an}"), &[0x12], &|c| {
                set_algs(c, h, a, dhe, aead);
                c.req.req_asym = a as u16;
                c.rsp.req_asym = a as u16;
            });
        }
    }
    for d in [8u16, 16] {
        for a in [1u16, 2, 4] {
            add(&format!("dhe{d}-aead{a}"), s, &|c| set_algs(c, 2, 0x80, d, a));
        }
    }
    add("clear-handshake", s, &|c| {
        c.req.caps |= rc::CLEAR;
        c.rsp.caps |= sc::CLEAR;
    });
    add("clear-one-sided-req", s, &|c| c.req.caps |= rc::CLEAR);
    add("clear-one-sided-rsp", s, &|c| c.rsp.caps |= sc::CLEAR);
    add("psk-without-context", s, &|c| {
        c.rsp.caps &= !sc::PSK_CTX;
        c.rsp.caps |= sc::PSK;
    });
    add("psk-only", s, &|c| {
        c.req.caps = rc::ENC | rc::MAC | rc::PSK | rc::HB | rc::KU;
        c.rsp.caps = sc::MEAS_NOSIG | sc::ENC | sc::MAC | sc::PSK_CTX | sc::HB | sc::KU;
    });
    add("no-psk", s, &|c| {
        c.req.caps &= !rc::PSK;
        c.rsp.caps &= !(sc::PSK | sc::PSK_CTX);
    });
    add("no-kex", s, &|c| clear_caps(c, rc::KEX));
    add("no-hb", s, &|c| clear_caps(c, rc::HB));
    add("no-ku", s, &|c| clear_caps(c, rc::KU));
    add("no-chal", all, &|c| clear_caps(c, rc::CHAL));
    add("no-meas", s, &|c| c.rsp.caps &= !(sc::MEAS_SIG | sc::MEAS_NOSIG | sc::FRESH));
    add("meas-nosig", s, &|c| {
        c.rsp.caps &= !sc::MEAS_SIG;
        c.rsp.caps |= sc::MEAS_NOSIG;
    });
    add("slots", s, &|c| c.rsp.slots = vec![(0, 0), (3, 900), (7, 2000)]);
    add("big-chain", all, &|c| c.rsp.slots = vec![(0, 4096)]);
    add("heartbeat-period", s, &|c| c.rsp.heartbeat = 0x20);
    add("ct", s, &|c| {
        c.req.ct = 20;
        c.rsp.ct = 14;
    });
    add("small-dts", &[0x12], &|c| {
        c.req.dts = 1024;
        c.rsp.dts = 1100;
        c.req.max_msg = 1024;
        c.rsp.max_msg = 1100;
    });
    add("policy", s, &|c| c.req.policy = 1);
    add("secure-ver-11", s, &|c| {
        c.req.secure_vers = vec![0x11];
        c.rsp.secure_vers = vec![0x11];
    });
    add("secure-ver-10", s, &|c| {
        c.rsp.secure_vers = vec![0x10];
    });
    add("prefer-common", s, &|c| {
        c.req.hash = 7;
        c.rsp.hash = 3;
        c.req.dhe = 8 | 16;
        c.rsp.dhe = 16 | 8;
        c.req.aead = 7;
        c.rsp.aead = 3;
        c.req.asym = 0x80;
        c.rsp.asym = 0x80;
    });
    add("content-change", all, &|c| c.rsp.content_change = true);
    add("no-trust-root", all, &|c| {
        c.req.trust = None;
        c.rsp.trust = None;
    });
    add("req-slots", s, &|c| c.req.slots = vec![(0, 1200), (1, 300)]);
    out
}

/// a history that uses every enabled operation, in order or in reverse
pub fn long_history(cfg: &Cfg, rev: bool) -> Vec<Op> {
    let slots: Vec<u8> = cfg.rsp.slots.iter().map(|x| x.0 as u8).collect();
    let p = Profile { slim: false, slots };
    let mut u = User::default();
    let mut ops = vec![Op::Init];
    u.apply(&Op::Init);
    for round in 0..3 {
        let mut en = u.enabled(cfg, &p);
        if rev {
            en.reverse();
        }
        for o in en {
            if o == Op::Init && round != 2 {
                continue;
            }
            // re-check that it is still enabled
            if u.enabled(cfg, &p).contains(&o) {
                u.apply(&o);
                ops.push(o);
            }
        }
    }
    ops
}
/// start states for operation orders
pub fn prefixes(cfg: &Cfg) -> Vec<Vec<Op>> {
    let mut v = vec![vec![Op::Init]];
    let ver = common_ver(cfg);
    if cfg.rsp.caps & sc::CERT != 0 {
        let mut p = vec![Op::Init, Op::Digest(None), Op::Cert(None, 0)];
        v.push(p.clone());
        if can_ke(cfg) {
            p.push(Op::Ke(0, if cfg.rsp.caps & (sc::MEAS_SIG | sc::MEAS_NOSIG) != 0 { 0xff } else { 0 }));
            v.push(p.clone());
            if can_psk(cfg) {
                p.push(Op::Psk(0));
                v.push(p);
            }
            return v;
        }
    }
    if ver >= 0x11 && can_psk(cfg) {
        v.push(vec![Op::Init, Op::Psk(0)]);
        v.push(vec![Op::Init, Op::Psk(0), Op::Psk(0)]);
    }
    v
}
