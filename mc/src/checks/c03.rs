//! Request ordering: every short legal history, then every request that the protocol does not permit there.
use crate::explore::*;
use crate::fake::ext_random;
use crate::model::*;
use crate::user::*;
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum L {
    Version,
    Caps,
    Algs,
    Digest,
    Cert,
    Chal,
    MeasN,
    MeasS,
    Vendor,
    KeStart,
    PskStart,
    Encap(usize),
    Finish(usize),
    PskFinish(usize),
    Hb(usize),
    Ku(usize, u8),
    SMeas(usize),
    SDigest(usize),
    SCert(usize),
    SVendor(usize),
    App(usize),
    End(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ph {
    Hand { psk: bool, encap: bool },
    Est,
    Dead,
}
/// what the specification lets a requester do next
#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub conn: u8,
    pub ss: Vec<Ph>,
    /// the session a FINISH in the clear is for: that of the last KEY_EXCHANGE
    pub last: Option<usize>,
}
impl Spec {
    pub fn legal(&self, c: &Cfg, n: &Neg) -> Vec<L> {
        let mut v = vec![L::Version];
        match self.conn {
            1 => v.push(L::Caps),
            2 => v.push(L::Algs),
            3 => {
                let meas = c.rsp.caps & (sc::MEAS_NOSIG | sc::MEAS_SIG) != 0;
                v.extend([L::Digest, L::Cert, L::Vendor]);
                if can_sign(n.ver) {
                    v.push(L::Chal);
                }
                if meas {
                    v.push(L::MeasN);
                    if can_sign(n.ver) {
                        v.push(L::MeasS);
                    }
                }
                let live = self.ss.iter().filter(|s| **s != Ph::Dead).count();
                if live < 3 {
                    if can_ke(c) {
                        v.push(L::KeStart);
                    }
                    if can_psk(c) {
                        v.push(L::PskStart);
                    }
                }
                for (i, s) in self.ss.iter().enumerate() {
                    match s {
                        Ph::Hand { psk: true, .. } => v.push(L::PskFinish(i)),
                        Ph::Hand { encap: true, .. } => v.push(L::Encap(i)),
                        Ph::Hand { .. } => {
                            if !n.clear() || self.last == Some(i) {
                                v.push(L::Finish(i))
                            }
                        }
                        Ph::Est => {
                            v.extend([L::SVendor(i), L::Hb(i), L::Ku(i, 1), L::Ku(i, 2), L::SDigest(i), L::SCert(i), L::End(i)]);
                            if meas {
                                v.push(L::SMeas(i));
                            }
                            if c.tr == Tr::Mctp {
                                v.push(L::App(i));
                            }
                        }
                        Ph::Dead => {}
                    }
                }
            }
            _ => {}
        }
        v
    }
    pub fn apply(&mut self, l: L, n: &Neg) {
        match l {
            L::Version => {
                self.conn = 1;
                self.ss.iter_mut().for_each(|s| *s = Ph::Dead);
            }
            L::Caps => self.conn = 2,
            L::Algs => self.conn = 3,
            L::KeStart => {
                self.last = Some(self.ss.len());
                self.ss.push(Ph::Hand { psk: false, encap: MUTAUTH });
            }
            L::PskStart => {
                self.ss.push(if n.psk_ctx() { Ph::Hand { psk: true, encap: false } } else { Ph::Est });
            }
            L::Encap(i) => self.ss[i] = Ph::Hand { psk: false, encap: false },
            L::Finish(i) | L::PskFinish(i) => self.ss[i] = Ph::Est,
            L::End(i) => self.ss[i] = Ph::Dead,
            _ => {}
        }
    }
}
pub fn legal_step(m: &mut RefReq, l: L) -> Res<()> {
    match l {
        L::Version => m.version(),
        L::Caps => m.caps(),
        L::Algs => m.algs(),
        L::Digest => m.digest(None),
        L::Cert => m.cert(None, 0, 512),
        L::Chal => m.challenge(0, 0),
        L::MeasN => m.meas(None, false, 1, 0),
        L::MeasS => m.meas(None, true, 0xff, 0),
        L::Vendor => m.vendor(None, b"v"),
        L::KeStart => m.ke_start(0, 0).map(|_| ()),
        L::PskStart => m.psk_start(0).map(|_| ()),
        L::Encap(i) => m.encap(i),
        L::Finish(i) => m.finish(i),
        L::PskFinish(i) => m.psk_finish(i),
        L::Hb(i) => m.heartbeat(i),
        L::Ku(i, o) => m.key_update(i, o, 9),
        L::SMeas(i) => m.meas(Some(i), can_sign(m.n.ver), 1, 0),
        L::SDigest(i) => m.digest(Some(i)),
        L::SCert(i) => m.cert(Some(i), 0, 512),
        L::SVendor(i) => m.vendor(Some(i), b"sv"),
        L::App(i) => m.app(i, b"app"),
        L::End(i) => m.end(i),
    }
}
/// finish whatever is open, then use everything once
pub fn complete(m: &mut RefReq, s: &mut Spec) -> Res<()> {
    let cfg = m.cfg.clone();
    let n = m.n.clone();
    let go = |m: &mut RefReq, s: &mut Spec, l: L| -> Res<()> {
        legal_step(m, l).map_err(|e| format!("{l:?}: {e}"))?;
        s.apply(l, &n);
        Ok(())
    };
    let mut guard = 0;
    loop {
        guard += 1;
        let l = match s.conn {
            0 => L::Version,
            1 => L::Caps,
            2 => L::Algs,
            _ => match s.legal(&cfg, &m.n).into_iter().find(|l| matches!(l, L::Encap(_) | L::Finish(_) | L::PskFinish(_))) {
                Some(l) => l,
                None => break,
            },
        };
        go(m, s, l)?;
        if guard > 40 {
            return Err("completion does not end".into());
        }
    }
    let legal = |s: &Spec, m: &RefReq, l: L| s.legal(&cfg, &m.n).contains(&l);
    for l in [L::Digest, L::Cert, L::Chal, L::MeasN, L::MeasS, L::Vendor] {
        if legal(s, m, l) && !(l == L::Cert && !HASHED && m.b.len() > 3000) {
            go(m, s, l)?;
        }
    }
    for i in 0..s.ss.len() {
        for l in [L::SMeas(i), L::SVendor(i), L::Hb(i), L::Ku(i, 2), L::App(i), L::End(i)] {
            if s.ss[i] == Ph::Est && legal(s, m, l) {
                go(m, s, l)?;
            }
        }
    }
    for (a, ke) in [(L::KeStart, true), (L::PskStart, false)] {
        if legal(s, m, a) {
            let i = s.ss.len();
            go(m, s, a)?;
            if ke && MUTAUTH {
                go(m, s, L::Encap(i))?;
            }
            if s.ss[i] != Ph::Est {
                go(m, s, if ke { L::Finish(i) } else { L::PskFinish(i) })?;
            }
            for l in [L::SVendor(i), L::SMeas(i), L::End(i)] {
                if legal(s, m, l) {
                    go(m, s, l)?;
                }
            }
        }
    }
    Ok(())
}
#[derive(Clone, Debug)]
pub struct Probe {
    pub name: String,
    /// None: in the clear
    pub sess: Option<usize>,
    pub msg: Vec<u8>,
}
/// well-formed requests of every kind, as far as they can be without state
pub fn request_kinds(m: &RefReq) -> Vec<(&'static str, Vec<u8>)> {
    let v = m.n.ver;
    let hs = m.n.hs();
    let mut ke = vec![v, 0xe4, 0, 0, 0x77, 0x77, 0, 0];
    ke.extend(ext_random(32));
    let dh = if m.n.dhe == 0 { spdmlib::protocol::SpdmDheAlgo::SECP_256_R1 } else { m.n.dh() };
    ke.extend(crate::fake::dhe_public(dh, 12345));
    let op = m_opaque_req(v);
    ke.extend(u16b(op.len()));
    ke.extend(&op);
    let mut psk = vec![v, 0xe6, 0, 0, 0x78, 0x78];
    psk.extend([4, 0]);
    psk.extend(u16b(hs));
    psk.extend(u16b(op.len()));
    psk.extend(b"hint");
    psk.extend(ext_random(hs));
    psk.extend(&op);
    let mut chal = vec![v, 0x83, 0, 0];
    chal.extend([7; 32]);
    let mut meas = vec![v, 0xe0, 1, 0xff];
    meas.extend([8; 32]);
    if v >= 0x11 {
        meas.push(0);
    }
    let mut fin = vec![v, 0xe5, 0, 0];
    fin.extend(vec![0x31; hs]);
    let mut pfin = vec![v, 0xe7, 0, 0];
    pfin.extend(vec![0x32; hs]);
    let mut del = vec![v, 0xeb, 0, 0];
    del.extend(m_digests(&m.n, &m.cfg.req, true));
    vec![
        ("GET_VERSION", m_get_version()),
        ("GET_CAPABILITIES", m_get_caps(v, &m.cfg.req)),
        ("NEGOTIATE_ALGORITHMS", m_neg_algs(v, &m.cfg.req)),
        ("GET_DIGESTS", vec![v, 0x81, 0, 0]),
        ("GET_CERTIFICATE", m_get_cert(v, 0, 0, 512)),
        ("CHALLENGE", chal),
        ("GET_MEASUREMENTS", meas),
        ("GET_MEASUREMENTS plain", vec![v, 0xe0, 0, 1]),
        ("KEY_EXCHANGE", ke),
        ("FINISH", fin),
        ("PSK_EXCHANGE", psk),
        ("PSK_FINISH", pfin),
        ("HEARTBEAT", vec![v, 0xe8, 0, 0]),
        ("KEY_UPDATE", vec![v, 0xe9, 1, 7]),
        ("KEY_UPDATE all", vec![v, 0xe9, 2, 7]),
        ("KEY_UPDATE verify", vec![v, 0xe9, 3, 7]),
        ("GET_ENCAPSULATED_REQUEST", vec![v, 0xea, 0, 0]),
        ("DELIVER_ENCAPSULATED_RESPONSE", del),
        ("END_SESSION", vec![v, 0xec, 0, 0]),
        ("VENDOR", m_vendor(v, true, b"x")),
        ("GET_CSR", vec![v, 0xed, 0, 0, 0, 0, 0, 0]),
        ("SET_CERTIFICATE", vec![v, 0xee, 0, 0]),
        ("CHUNK_SEND", vec![v, 0x85, 0, 0]),
        ("RESPOND_IF_READY", vec![v, 0xff, 0x81, 1]),
        ("unknown e2", vec![v, 0xe2, 0, 0]),
        ("ERROR", vec![v, 0x7f, 5, 0]),
        ("VERSION", m_version(&[0x10, 0x11, 0x12])),
        ("DIGESTS", m_digests(&m.n, &m.cfg.rsp, false)),
        ("FINISH_RSP", vec![v, 0x65, 0, 0]),
        ("KEY_UPDATE_ACK", vec![v, 0x69, 1, 7]),
    ]
}
/// everything the protocol does not permit in this state
pub fn probes(m: &RefReq, s: &Spec) -> Vec<Probe> {
    let kinds = request_kinds(m);
    let mut out = vec![];
    let mut add = |name: String, sess: Option<usize>, msg: &[u8]| out.push(Probe { name, sess, msg: msg.to_vec() });
    for (n, q) in &kinds {
        let code = q[1];
        // in the clear
        let ok = match code {
            0x84 => true,
            0xe1 => s.conn == 1,
            0xe3 => s.conn == 2,
            0x81 | 0x82 | 0x83 | 0xe0 | 0xe4 | 0xe6 | 0xfe => s.conn == 3,
            // a finish in the clear of a handshaking session is C05's business
            0xe5 => m.n.clear() && s.last.map_or(false, |i| matches!(s.ss[i], Ph::Hand { psk: false, .. })),
            _ => false,
        };
        if !ok {
            add(format!("{n} in the clear"), None, q);
        } else if code != 0xe1 {
            // a version that was not negotiated
            for v in [0x10u8, 0x11, 0x12, 0x13] {
                if v != q[0] {
                    let mut q = q.clone();
                    q[0] = v;
                    add(format!("{n} with version {v:x}"), None, &q);
                }
            }
        }
        for (i, ph) in s.ss.iter().enumerate() {
            let ok = match ph {
                // END_SESSION of a session that never got established must not end others; a finish there is C05's
                Ph::Hand { psk, .. } => match code {
                    0xe5 => !*psk,
                    0xe7 => *psk,
                    0xeb | 0xea => MUTAUTH && !*psk,
                    // served by design; C25 checks that it has no effect on the session
                    0xfe => true,
                    _ => false,
                },
                Ph::Est => matches!(code, 0x81 | 0x82 | 0xe0 | 0xe8 | 0xe9 | 0xec | 0xfe),
                Ph::Dead => false,
            };
            if !ok {
                add(format!("{n} in session {i} {ph:?}"), Some(i), q);
            }
        }
    }
    out
}
pub fn rsp_state() -> Vec<u8> {
    rsp(|r| {
        let mut v = nego(&r.common);
        v.push(r.common.runtime_info.get_connection_state().get_u8());
        for (id, st) in sess_table(&r.common) {
            v.extend(id.to_le_bytes());
            v.push(st);
            if let Some(s) = r.common.get_session_via_id(id) {
                let (a, b) = s.export_keys();
                for k in [a, b] {
                    v.extend(k.encryption_key.as_ref());
                    v.extend(k.salt.as_ref());
                }
                v.push(s.get_slot_id());
                v.push(s.heartbeat_period);
            }
        }
        v
    })
}
/// true: refused as it should be
fn refused(m: &mut RefReq, p: &Probe) -> Result<bool, String> {
    match p.sess {
        None => {
            let out = inject(&frame(m.tr(), false, &p.msg));
            if out.len() > 1 {
                return Err(format!("{} responses", out.len()));
            }
            Ok(match out.first() {
                None => true,
                Some(f) => matches!(unframe(m.tr(), f), Some((false, r)) if r.len() >= 4 && r[1] == 0x7f),
            })
        }
        Some(i) => {
            let f = m.ss[i].seal(0, &p.msg, false);
            let out = inject(&f);
            if out.len() > 1 {
                return Err(format!("{} responses", out.len()));
            }
            Ok(match out.first() {
                None => true,
                Some(f) => {
                    if matches!(unframe(m.tr(), f), Some((false, r)) if r.len() >= 4 && r[1] == 0x7f) {
                        true
                    } else if m.ss[i].dead {
                        false
                    } else {
                        let (app, r) = m.ss[i].open(1, f)?;
                        !app && r.len() >= 4 && r[1] == 0x7f
                    }
                }
            })
        }
    }
}
fn case(cfg: &Cfg, hist: &[L], ps: &[usize], t: &mut T) {
    let w = World::new(cfg);
    let mut m = RefReq::new(cfg);
    let mut s = Spec::default();
    for l in hist {
        if let Err(e) = legal_step(&mut m, *l) {
            t.fail(format!("legal-refused/{}", lname(l)), format!("{l:?} after {hist:?}: {e}"));
            return;
        }
        s.apply(*l, &m.n);
        t.step(w.fp());
    }
    for p in ps {
        let all = probes(&m, &s);
        let p = &all[p % all.len()];
        t.desc = format!("{} | {}", t.desc, p.name);
        let before = rsp_state();
        let kind = p.name.split(' ').next().unwrap().to_string();
        match refused(&mut m, p) {
            Ok(true) => {}
            Ok(false) => return t.fail(format!("served/{kind}"), p.name.clone()),
            Err(e) => return t.fail(format!("answer/{kind}"), format!("{}: {e}", p.name)),
        }
        t.step(w.fp());
        let after = rsp_state();
        if before != after {
            return t.fail(format!("state-changed/{kind}"), format!("{}: {before:02x?} -> {after:02x?}", p.name));
        }
    }
    match complete(&mut m, &mut s) {
        Ok(()) => t.out("ok"),
        Err(e) => t.fail(format!("later-answers/{}", t.desc.rsplit("| ").next().unwrap_or("").split(' ').next().unwrap_or("")), e),
    }
}
fn lname(l: &L) -> String {
    format!("{l:?}").split('(').next().unwrap().to_string()
}
/// all legal histories up to a depth (every one, not only the maximal ones)
pub fn histories(cfg: &Cfg, start: &[L], depth: usize, alphabet: &dyn Fn(&L) -> bool) -> Vec<Vec<L>> {
    let n = expected_neg(cfg).unwrap();
    let mut out = vec![];
    fn rec(cfg: &Cfg, n: &Neg, s: &Spec, h: &mut Vec<L>, d: usize, al: &dyn Fn(&L) -> bool, out: &mut Vec<Vec<L>>) {
        out.push(h.clone());
        if d == 0 {
            return;
        }
        for l in s.legal(cfg, n) {
            if !al(&l) || h.iter().filter(|x| matches!(x, L::Cert)).count() >= 2 && l == L::Cert {
                continue;
            }
            let mut s2 = s.clone();
            s2.apply(l, n);
            h.push(l);
            rec(cfg, n, &s2, h, d - 1, al, out);
            h.pop();
        }
    }
    let mut s = Spec::default();
    start.iter().for_each(|l| s.apply(*l, &n));
    rec(cfg, &n, &s, &mut start.to_vec(), depth, alphabet, &mut out);
    out
}
/// number of probes in the state a history leads to
fn nprobes(cfg: &Cfg, hist: &[L]) -> usize {
    let m = RefReq::new(cfg);
    let mut s = Spec::default();
    hist.iter().for_each(|l| s.apply(*l, &m.n));
    probes(&m, &s).len()
}
pub fn run(c: &Ctx) {
    let base = vec![L::Version, L::Caps, L::Algs];
    let mut cfgs: Vec<(&str, Cfg)> = vec![("12", cfg_v(0x12, Tr::Mctp)), ("11", cfg_v(0x11, Tr::Mctp)), ("10", cfg_v(0x10, Tr::Mctp)), ("12doe", cfg_v(0x12, Tr::Doe))];
    let mut k = cfg_v(0x12, Tr::Mctp);
    k.req.caps |= rc::CLEAR;
    k.rsp.caps |= sc::CLEAR;
    cfgs.push(("12clear", k));
    let mut k = cfg_v(0x12, Tr::Mctp);
    k.rsp.caps = k.rsp.caps & !sc::PSK_CTX | sc::PSK;
    cfgs.push(("12psk", k));
    for (n, cfg) in &cfgs {
        let main = *n == "12";
        // one probe after every legal history
        let d = if main { c.pick(3, 4) } else { c.pick(2, 3) };
        let mut hs = histories(cfg, &[], 3, &|_| true);
        hs.extend(histories(cfg, &base, d, &|_| true));
        let ke = [&base[..], &[L::KeStart]].concat();
        if can_ke(cfg) {
            let mut s = ke.clone();
            if MUTAUTH {
                s.push(L::Encap(0));
            }
            s.push(L::Finish(0));
            hs.extend(histories(cfg, &s, d - 1, &|_| true));
            if can_psk(cfg) {
                s.push(L::PskStart);
                hs.extend(histories(cfg, &s, d - 1, &|l| *l != L::Version));
            }
        }
        crate::world::reset_thread();
        crate::world::setup_env(cfg);
        let mut jobs = vec![];
        for (i, h) in hs.iter().enumerate() {
            for p in 0..nprobes(cfg, h) {
                jobs.push((i, p));
            }
        }
        c.par(&format!("one-{n}"), jobs.len(), |i, t| {
            let (h, p) = jobs[i];
            t.desc = format!("{n} {:?}", hs[h]);
            case(cfg, &hs[h], &[p], t);
        });
        // two probes in a row
        if c.quick() && !main && *n != "12clear" {
            continue;
        }
        let mut h2: Vec<Vec<L>> = histories(cfg, &[], 3, &|l| *l != L::Version);
        h2.dedup();
        h2.insert(0, vec![L::Version]);
        h2.insert(0, vec![L::Version, L::Caps]);
        h2.insert(0, base.clone());
        if can_ke(cfg) {
            h2.push(ke.clone());
            let mut s = ke.clone();
            if MUTAUTH {
                s.push(L::Encap(0));
                h2.push(s.clone());
            }
            s.push(L::Finish(0));
            h2.push(s.clone());
            s.push(L::MeasN);
            h2.push(s);
        }
        if can_psk(cfg) {
            h2.push([&base[..], &[L::PskStart]].concat());
        }
        if can_sign(expected_neg(cfg).unwrap().ver) {
            h2.push([&base[..], &[L::Digest, L::Cert]].concat());
            h2.push([&base[..], &[L::MeasN]].concat());
        }
        let mut jobs = vec![];
        for (i, h) in h2.iter().enumerate() {
            let k = nprobes(cfg, h);
            for a in 0..k {
                for b in 0..k {
                    jobs.push((i, a, b));
                }
            }
        }
        c.par(&format!("two-{n}"), jobs.len(), |i, t| {
            let (h, a, b) = jobs[i];
            t.desc = format!("{n} {:?}", h2[h]);
            case(cfg, &h2[h], &[a, b], t);
        });
    }
}
