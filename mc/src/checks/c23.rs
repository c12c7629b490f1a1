//! Secrets and protected plaintext: what the device is given, and what stays in memory after a session.
use super::c03::request_kinds;
use super::c07::{exec, E};
use crate::explore::*;
use crate::fake::{self, Actor, Kind};
use crate::faults::*;
use crate::leak::{self, Runs};
use crate::model::*;
use crate::user::*;
use crate::world::*;
use spdmlib::common::SpdmContext;
use std::collections::HashSet;

fn clear_handshake(c: &SpdmContext) -> bool {
    use spdmlib::protocol::{SpdmRequestCapabilityFlags as Q, SpdmResponseCapabilityFlags as P};
    let n = &c.negotiate_info;
    n.req_capabilities_sel.contains(Q::HANDSHAKE_IN_THE_CLEAR_CAP) && n.rsp_capabilities_sel.contains(P::HANDSHAKE_IN_THE_CLEAR_CAP)
}
fn sids(c: &SpdmContext) -> Vec<u32> {
    sess_table(c).iter().map(|x| x.0).collect()
}
/// the session an operation is about
fn session_of(o: &Op) -> Option<usize> {
    match o {
        Op::Digest(s) | Op::Cert(s, _) | Op::Meas(s, ..) | Op::Vendor(s, _) => *s,
        Op::Hb(s) | Op::Ku(s, _) | Op::App(s, _) | Op::End(s) => Some(*s),
        _ => None,
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum In {
    No,
    Start(bool),
    Sess(u32),
}
pub struct Mon {
    /// which exchange (number) each secret came from; None: of the connection (none such exist)
    owner: Vec<Option<usize>>,
    /// exchanges: session id and number
    gens: Vec<u32>,
    wire: usize,
    aead: usize,
    secrets: Runs,
    /// what applications and vendors said inside sessions
    marks: Runs,
    /// every plaintext that was protected
    plain: Runs,
    sealed: HashSet<Vec<u8>>,
    /// the session the last exchange on the wire was for
    started: Option<u32>,
    pub frames: Vec<(Dir, u32, Vec<u8>)>,
    pub searched: usize,
}
impl Mon {
    pub fn new() -> Mon {
        let mut m = Mon { owner: vec![], gens: vec![], wire: 0, aead: 0, secrets: Runs::new(), marks: Runs::new(), plain: Runs::new(), sealed: HashSet::new(), started: None, frames: vec![], searched: 0 };
        fake::with(|e| {
            for p in &e.psk {
                m.secrets.add(p);
            }
        });
        m
    }
    pub fn mark(&mut self, d: &[u8]) {
        self.marks.add(d);
        self.marks.add(&d.iter().map(|b| b ^ 0x55).collect::<Vec<_>>());
        self.marks.add(&d.iter().map(|b| b ^ 0xaa).collect::<Vec<_>>());
    }
    /// everything given to the device since the last call
    fn scan(&mut self, w: &World, inn: In, faulty: bool, t: &mut T) {
        let tr = w.cfg.tr;
        fake::with(|e| {
            let alg = w.req.common.negotiate_info.aead_sel;
            for r in &e.aead[self.aead.min(e.aead.len())..] {
                if r.enc && r.ok {
                    self.plain.add(&r.pt);
                    let (mut c, tag) = fake::p_seal(alg, &r.key, &r.iv, &r.aad, &r.pt);
                    c.extend(tag);
                    let mut f = r.aad.clone();
                    f.extend(c);
                    self.sealed.insert(f);
                }
            }
            self.aead = e.aead.len();
            let n = self.owner.len();
            for s in &e.secrets[n.min(e.secrets.len())..] {
                self.secrets.add(s);
            }
        });
        let wire = link(|l| l.wire[self.wire..].to_vec());
        self.wire += wire.len();
        let mut keys = matches!(inn, In::Sess(_));
        let mut fin = false;
        let mut half = 0u16;
        self.started = None;
        for (d, f) in &wire {
            self.searched += 1;
            let who = if *d == Dir::ToReq { "responder" } else { "requester" };
            if let Some(i) = self.secrets.find(f) {
                t.fail(format!("secret/{who}"), format!("{who} gave the device bytes of a secret (at {i}): {f:02x?}"));
            }
            if let Some(i) = self.marks.find(f) {
                t.fail(format!("plaintext/{who}"), format!("{who} gave the device data protected in a session (at {i}): {f:02x?}"));
            }
            let (sec, p) = match unframe(tr, f) {
                Some(x) => x,
                None => {
                    t.fail(format!("frame/{who}"), format!("{who} sent {f:02x?}"));
                    continue;
                }
            };
            if sec {
                if let Some(i) = self.plain.find(f) {
                    t.fail(format!("plaintext/{who}"), format!("{who} sent a record with its plaintext in it (at {i}): {f:02x?}"));
                }
                let n = p.len();
                let ok = (0..4.min(n)).any(|pad| self.sealed.contains(&p[..n - pad]));
                t.check(ok, &format!("unsealed/{who}"), || format!("{who} sent a record that is not the output of the encryption: {f:02x?}"));
                if n >= 4 {
                    self.frames.push((*d, u32::from_le_bytes(p[..4].try_into().unwrap()), f.clone()));
                }
                continue;
            }
            let code = p.get(1).copied().unwrap_or(0);
            if keys {
                // an ERROR about a record that could not be read, or the FINISH of a handshake in the clear
                let ok = if *d == Dir::ToReq { code == 0x7f && (faulty || fin) && p.len() <= 4 || fin && code == 0x65 } else { fin && code == 0xe5 };
                t.check(ok, &format!("in the clear/{who}/{code:02x}"), || format!("{who} sent this of a session in the clear: {p:02x?}"));
                if let Some(i) = self.plain.find(f).filter(|_| !ok || code == 0x7f) {
                    t.fail(format!("plaintext/{who}"), format!("{who} sent protected bytes in the clear (at {i}): {f:02x?}"));
                }
            }
            if let In::Start(clear) = inn {
                if matches!(code, 0xe4 | 0xe6) && p.len() >= 6 {
                    half = u16::from_le_bytes([p[4], p[5]]);
                }
                if matches!(code, 0x64 | 0x66) && p.len() >= 6 {
                    self.started = Some((u16::from_le_bytes([p[4], p[5]]) as u32) << 16 | half as u32);
                }
                if matches!(code, 0x64 | 0x66) && *d == Dir::ToReq {
                    keys = true;
                    fin = clear && code == 0x64;
                }
            }
        }
    }
    /// no secret of an exchange that gave no session, or whose session is over, is left in either endpoint
    fn erased(&mut self, w: &mut World, inn: In, before: &[u32], t: &mut T) {
        let rs = sids(&w.req.common);
        let ss = if has_rsp() { rsp(|r| sids(&r.common)) } else { vec![] };
        match inn {
            In::Start(_) => {
                // the id of the session: as the messages say, else new in the table
                let id = self.started.or(ss.iter().chain(&rs).find(|s| !before.contains(s)).copied());
                self.gens.push(id.unwrap_or(0));
            }
            _ => {}
        }
        let n = fake::with(|e| e.secrets.len());
        let g = match inn {
            In::Start(_) => Some(self.gens.len() - 1),
            In::Sess(s) => self.gens.iter().rposition(|x| *x == s),
            In::No => None,
        };
        self.owner.resize(n, g);
        let live = |tab: &[u32], g: usize| -> bool { self.gens[g] != 0 && tab.contains(&self.gens[g]) && self.gens.iter().rposition(|x| *x == self.gens[g]) == Some(g) };
        for (who, id, tab) in [("requester", 1u8, &rs), ("responder", 2, &ss)] {
            if id == 2 && !has_rsp() {
                continue;
            }
            let mut dead = Runs::new();
            fake::with(|e| {
                for (i, s) in e.secrets.iter().enumerate() {
                    if self.owner[i].map_or(true, |g| !live(tab, g)) {
                        dead.add(s);
                    }
                }
                for p in &e.psk {
                    dead.add(p);
                }
            });
            if let Some((n, i)) = leak::held(id, &dead) {
                t.fail(format!("left/{who}"), format!("the {who} still holds, at byte {i} of a block of {n}, part of a secret of a session that is over; its sessions: {tab:x?}"));
            }
        }
        freed(t);
    }
    pub fn event(&mut self, w: &mut World, e: &E, n: usize, t: &mut T) -> bool {
        let before: Vec<u32> = if has_rsp() { rsp(|r| sids(&r.common)) } else { vec![] }.into_iter().chain(sids(&w.req.common)).collect();
        let clear = clear_handshake(&w.req.common);
        let sid = |s: usize| w.sids.get(s).copied().unwrap_or(0x0bad_0bad);
        let (mut inn, faulty) = match e {
            E::O(o, f) => (
                match o {
                    Op::Ke(..) => In::Start(clear),
                    Op::Psk(_) => In::Start(false),
                    o => session_of(o).map_or(In::No, |s| In::Sess(sid(s))),
                },
                *f != F::No,
            ),
            E::Push(s, _) | E::Fire(s, _) => (In::Sess(sid(*s)), false),
        };
        // a session with one endpoint only cannot be read by the other
        let both = |w: &World, s: u32| sids(&w.req.common).contains(&s) && rsp(|r| sids(&r.common)).contains(&s);
        let odd = match inn {
            In::Sess(s) => !has_rsp() || !both(w, s),
            _ => false,
        };
        if let E::Push(s, _) | E::Fire(s, _) = e {
            let d = if matches!(e, E::Push(..)) { format!("push {n}") } else { format!("fire {n}") };
            let _ = (s, d);
        }
        if let E::O(Op::App(_, d) | Op::Vendor(Some(_), d), _) = e {
            self.mark(d);
        }
        let old: Vec<(Vec<u8>, Vec<u8>)> = match (inn, e) {
            (In::Sess(s), E::O(Op::Ku(..), _)) => keys(w, s),
            _ => vec![],
        };
        let ok = exec(w, e, n);
        if let In::Start(c) = inn {
            inn = In::Start(c && !matches!(e, E::O(Op::Psk(_), _)));
        }
        self.scan(w, inn, faulty || odd || self.out_of_step(w, inn), t);
        self.erased(w, inn, &before, t);
        if ok {
            if let In::Sess(s) = inn {
                let new = keys(w, s);
                let mut gone = Runs::new();
                for ((k, iv), (k2, _)) in old.iter().zip(&new) {
                    if k != k2 {
                        gone.add(k);
                        gone.add(iv);
                    }
                }
                let r = leak::held(1, &gone);
                let p = leak::held(2, &gone);
                t.check(r.is_none() && p.is_none(), "superseded", || format!("keys of {s:x} replaced by a completed update are still there: requester {r:?}, responder {p:?}"));
            }
        }
        ok
    }
    /// do the endpoints disagree about the keys or numbers of the session?
    fn out_of_step(&self, w: &World, inn: In) -> bool {
        let s = match inn {
            In::Sess(s) => s,
            _ => return false,
        };
        let f = |c: &SpdmContext| c.session.iter().find(|x| x.get_session_id() == s).map(|x| { let (a, b) = x.clone().export_keys(); (a.encryption_key.as_ref().to_vec(), b.encryption_key.as_ref().to_vec(), a.sequence_number, b.sequence_number) });
        !has_rsp() || f(&w.req.common) != rsp(|r| f(&r.common))
    }
    /// at the end: nothing under the keys of a session that is over is accepted by either side
    pub fn refuse(&mut self, w: &mut World, t: &mut T) {
        let tr = w.cfg.tr;
        let rs = sids(&w.req.common);
        let ss = if has_rsp() { rsp(|r| sids(&r.common)) } else { vec![] };
        let alg = w.req.common.negotiate_info.aead_sel;
        // keys per session, with the nonce of their first record
        let mut used: Vec<(u32, Vec<u8>, Vec<u8>)> = vec![];
        fake::with(|e| {
            for r in e.aead.iter().filter(|r| r.enc && r.ok && r.aad.len() >= 4) {
                if !used.iter().any(|u| u.1 == r.key) {
                    used.push((u32::from_le_bytes(r.aad[..4].try_into().unwrap()), r.key.clone(), r.iv.clone()));
                }
            }
        });
        let owner_live = |k: &[u8], tab: &[u32], m: &Mon| -> bool {
            fake::with(|e| e.secrets.iter().zip(&m.owner).any(|(s, o)| s == k && o.map_or(false, |g| m.gens[g] != 0 && tab.contains(&m.gens[g]) && m.gens.iter().rposition(|x| *x == m.gens[g]) == Some(g))))
        };
        let (sn, al) = if tr == Tr::Mctp { (2usize, true) } else { (0, false) };
        let v = w.req.common.negotiate_info.spdm_version_sel.get_u8();
        let mut n = 0;
        for to_rsp in [true, false] {
            let tab = if to_rsp { &ss } else { &rs };
            if to_rsp && !has_rsp() {
                continue;
            }
            let mut fr: Vec<Vec<u8>> = vec![];
            for (s, key, iv) in &used {
                // (a session id that is used again answers with its new keys: that is C05's business)
                if tab.contains(s) || owner_live(key, tab, self) {
                    continue;
                }
                for seq in 0..4u64 {
                    for body in [vec![v, if to_rsp { 0xe8 } else { 0x68 }, 0, 0], vec![v, if to_rsp { 0xec } else { 0x6c }, 0, 0], b"data".to_vec()] {
                        let mut pt = vec![];
                        if al {
                            pt.push(if body == b"data" { 1 } else { 5 });
                        }
                        pt.extend(&body);
                        let mut pt2 = (pt.len() as u16).to_le_bytes().to_vec();
                        pt2.extend(pt);
                        let mut nonce = iv.clone();
                        for (i, b) in seq.to_le_bytes().iter().enumerate() {
                            nonce[i] ^= b;
                        }
                        let mut p = s.to_le_bytes().to_vec();
                        p.extend(&seq.to_le_bytes()[..sn]);
                        p.extend(((pt2.len() + 16) as u16).to_le_bytes());
                        let (c, tag) = fake::p_seal(alg, key, &nonce, &p, &pt2);
                        p.extend(c);
                        p.extend(tag);
                        fr.push(frame(tr, true, &p));
                    }
                }
            }
            for (d, s, f) in &self.frames {
                if (*d != Dir::ToReq) == to_rsp && !tab.contains(s) {
                    fr.push(f.clone());
                }
            }
            for f in fr {
                n += 1;
                let a0 = fake::with(|e| (e.aead.len(), e.app_calls.len(), e.vendor_calls.len()));
                if to_rsp {
                    link(|l| l.nmsg = 0);
                    let out = inject(&f);
                    let secured = out.iter().any(|x| matches!(unframe(tr, x), Some((true, _))));
                    t.check(!secured, "answered/responder", || format!("a record of a session that is over was answered: {f:02x?}"));
                    let now = rsp(|r| sids(&r.common));
                    t.check(&now == tab, "sessions/responder", || format!("a record of a session that is over changed the sessions: {tab:x?} to {now:x?}"));
                } else {
                    let s = f[if tr == Tr::Mctp { 1 } else { 8 }..][..4].try_into().map(u32::from_le_bytes).unwrap();
                    link(|l| {
                        l.to_req.clear();
                        l.to_req.push_back(f.clone());
                    });
                    let mut b = [0u8; spdmlib::config::RECEIVER_BUFFER_SIZE];
                    let r = fake::as_actor(Actor::Req, || w.req.receive_secured_message(s, &mut b, false).map(|_| ()));
                    t.check(r.is_err(), "accepted/requester", || format!("a record of a session that is over was accepted: {f:02x?}"));
                    let now = sids(&w.req.common);
                    t.check(&now == tab, "sessions/requester", || format!("a record of a session that is over changed the sessions: {tab:x?} to {now:x?}"));
                }
                let a1 = fake::with(|e| (e.aead[a0.0..].iter().any(|r| !r.enc && r.ok), e.app_calls.len(), e.vendor_calls.len()));
                t.check(!a1.0 && (a1.1, a1.2) == (a0.1, a0.2), "opened", || format!("a record of a session that is over was opened: {f:02x?}"));
            }
        }
        link(|l| {
            l.to_req.clear();
            l.to_rsp.clear();
        });
        t.out(if n == 0 { "no session over" } else { "old records refused" });
    }
}
/// no block goes back to the heap with a secret in it
fn freed(t: &mut T) {
    for (who, n, i) in leak::freed() {
        let who = if who == 1 { "requester" } else { "responder" };
        t.fail(format!("not erased/{who}"), format!("the {who} gave back a block of {n} bytes with part of a secret at {i}"));
    }
}
/// the keys a session uses, on both sides
fn keys(w: &World, s: u32) -> Vec<(Vec<u8>, Vec<u8>)> {
    let f = |c: &SpdmContext| -> Vec<(Vec<u8>, Vec<u8>)> {
        c.session.iter().filter(|x| x.get_session_id() == s).flat_map(|x| { let (a, b) = x.clone().export_keys(); [a, b].map(|k| (k.encryption_key.as_ref().to_vec(), k.salt.as_ref().to_vec())) }).collect()
    };
    let mut v = f(&w.req.common);
    v.extend(if has_rsp() { rsp(|r| f(&r.common)) } else { vec![] });
    v
}
/// data of its own for every event
fn mark(i: usize) -> Vec<u8> {
    let mut v = vec![];
    for k in 0..3u64 {
        v.extend(hash64(&[b"protected", &(i as u64).to_le_bytes(), &k.to_le_bytes()]).to_le_bytes());
    }
    v
}
fn dressed(e: &E, i: usize) -> E {
    match e {
        E::O(Op::App(s, _), f) => E::O(Op::App(*s, mark(i)), *f),
        E::O(Op::Vendor(Some(s), _), f) => E::O(Op::Vendor(Some(*s), mark(i)), *f),
        e => e.clone(),
    }
}
/// anything that can happen, with anything that can go wrong in it
fn letters(cfg: &Cfg, deep: bool) -> Vec<E> {
    let mut v = vec![];
    let frames = |n: usize| {
        let mut v = vec![F::No];
        for k in 0..n {
            v.extend([F::Lose(k), F::Corrupt(k), F::Dup(k)]);
            if k % 2 == 1 {
                v.extend([F::Error(k, 6), F::Error(k, 5)]);
            }
        }
        v
    };
    let calls = |kinds: &[Kind], n: usize| {
        let mut v = vec![];
        for k in kinds {
            for a in [Actor::Req, Actor::Rsp] {
                for i in 0..n {
                    v.push(F::Call(a, *k, i));
                }
            }
        }
        v
    };
    use Kind::*;
    let rec = [Encrypt, Decrypt, IoSend, IoRecv];
    let mut add = |o: Op, fs: Vec<F>| v.extend(fs.into_iter().map(|f| E::O(o.clone(), f)));
    let with = |a: Vec<F>, b: Vec<F>| a.into_iter().chain(b).collect::<Vec<_>>();
    let s = 0;
    for k in [1, 2] {
        add(Op::Ku(s, k), with(frames(4), calls(&[Encrypt, Decrypt, IoSend, IoRecv, Expand, Random], if deep { 3 } else { 2 })));
    }
    add(Op::End(s), with(frames(2), calls(&rec, 1)));
    add(Op::Hb(s), with(frames(2), calls(&rec, 1)));
    add(Op::Vendor(Some(s), vec![]), with(frames(2), calls(&[Encrypt, Decrypt, IoSend, Vendor], 1)));
    if cfg.tr == Tr::Mctp {
        add(Op::App(s, vec![]), with(frames(2), calls(&[Encrypt, Decrypt, IoSend, App], 1)));
    }
    add(Op::Meas(Some(s), can_sign(common_ver(cfg)), 0xff, 0), with(frames(2), calls(&[Encrypt, Decrypt, IoSend, Measure, Sign, Verify], 1)));
    add(Op::Vendor(None, b"in the clear".to_vec()), vec![F::No]);
    add(Op::Meas(None, false, 1, 0), vec![F::No, F::Lose(1)]);
    add(Op::Init, vec![F::No, F::Lose(0), F::Lose(1), F::Lose(3)]);
    for o in [Op::Psk(0), Op::Ke(0, 0)] {
        let ke = matches!(o, Op::Ke(..));
        if ke && !can_ke(cfg) || !ke && !can_psk(cfg) {
            continue;
        }
        let n = if ke && MUTAUTH { 10 } else { 4 };
        let kinds = [Random, Expand, Extract, Hmac, HmacVerify, HashFinal, HashAll, Encrypt, Decrypt, IoSend, IoRecv, DheGen, DheFinal, Sign, Verify, PskHs, PskMaster];
        add(o, with(frames(n), calls(&kinds, if deep { 12 } else { 3 })));
    }
    v.extend([true, false].iter().flat_map(|a| [E::Push(s, *a), E::Fire(s, *a)]));
    v
}
fn start_ops(cfg: &Cfg) -> Vec<Op> {
    let mut v = vec![Op::Init];
    if can_ke(cfg) {
        v.extend([Op::Digest(None), Op::Cert(None, 0), Op::Ke(0, 0)]);
    } else {
        v.push(Op::Psk(0));
    }
    v
}
fn begin(cfg: &Cfg, ops: &[Op], t: &mut T) -> Option<(World, Mon)> {
    let mut w = World::new(cfg);
    let mut m = Mon::new();
    for o in ops {
        if !m.event(&mut w, &E::O(o.clone(), F::No), 0, t) {
            t.fail("setup", o.short());
            return None;
        }
    }
    Some((w, m))
}
pub fn run(c: &Ctx) {
    leak::activate();
    // long histories of every configuration
    let cat = catalogue();
    let jobs: Vec<(usize, Vec<Op>)> = cat.iter().enumerate().flat_map(|(i, (_, cfg))| [false, true].map(|rev| (i, long_history(cfg, rev)))).collect();
    c.par("config", jobs.len(), |i, t| {
        let (k, ops) = &jobs[i];
        let (n, cfg) = &cat[*k];
        t.desc = format!("{n}: {}", show_ops(ops));
        let mut w = World::new(cfg);
        let mut m = Mon::new();
        for (i, o) in ops.iter().enumerate() {
            m.event(&mut w, &dressed(&E::O(o.clone(), F::No), i), i, t);
            t.step(w.fp());
        }
        m.refuse(&mut w, t);
    });
    let mut cfgs = vec![("12-mctp", cfg_v(0x12, Tr::Mctp)), ("12-doe", cfg_v(0x12, Tr::Doe)), ("11-mctp", cfg_v(0x11, Tr::Mctp))];
    let mut x = cfg_v(0x12, Tr::Mctp);
    clear_caps(&mut x, rc::KEX);
    cfgs.push(("12-psk", x));
    let mut x = cfg_v(0x12, Tr::Mctp);
    x.req.caps |= rc::CLEAR;
    x.rsp.caps |= sc::CLEAR;
    cfgs.push(("12-clear", x));
    for (n, cfg) in &cfgs {
        let deep = !c.quick();
        let l = letters(cfg, deep);
        let heads: Vec<Vec<Op>> = {
            let a = start_ops(cfg);
            let mut v = vec![a[..1].to_vec(), a.clone()];
            if can_psk(cfg) && can_ke(cfg) {
                v.push(vec![Op::Init, Op::Psk(0)]);
            }
            let mut e = a.clone();
            e.push(Op::End(0));
            v.push(e);
            if can_psk(cfg) {
                let mut e = a.clone();
                e.push(Op::Psk(0));
                v.push(e);
            }
            v
        };
        // each thing, after each way to get there; then two of them one after the other
        let few = letters(cfg, false);
        let pairs = deep && *n == "12-mctp";
        let jobs = heads.len() * count_seqs(l.len(), 1);
        c.par(&format!("faults-{n}"), jobs + if pairs { few.len() * few.len() } else { 0 }, |i, t| {
            let (x, seq): (usize, Vec<E>) = if i < jobs {
                let x = digits(i, &[heads.len(), jobs / heads.len()]);
                (x[0], nth_seq(x[1], l.len(), 1).iter().map(|x| l[*x].clone()).collect())
            } else {
                let x = digits(i - jobs, &[few.len(), few.len()]);
                (1, vec![few[x[0]].clone(), few[x[1]].clone()])
            };
            t.desc = format!("{} then {}", show_ops(&heads[x]), super::c07::show(&seq));
            let (mut w, mut m) = match begin(cfg, &heads[x], t) {
                Some(x) => x,
                None => return,
            };
            for (i, e) in seq.iter().enumerate() {
                m.event(&mut w, &dressed(e, i), i, t);
                t.step(w.fp());
            }
            // life goes on
            for (i, e) in [E::O(Op::Vendor(Some(0), vec![]), F::No), E::O(Op::Ku(0, 2), F::No), E::O(Op::Psk(0), F::No)].iter().enumerate() {
                if !matches!(e, E::O(Op::Psk(_), _)) || can_psk(cfg) {
                    m.event(&mut w, &dressed(e, 50 + i), 50 + i, t);
                }
            }
            m.refuse(&mut w, t);
        });
    }
    // sequences without faults and with the commonest ones, two sessions
    for (n, cfg) in &cfgs {
        let mut l: Vec<E> = vec![];
        for s in 0..2 {
            l.extend([E::O(Op::Ku(s, 1), F::No), E::O(Op::Ku(s, 2), F::No), E::O(Op::End(s), F::No), E::O(Op::Vendor(Some(s), vec![]), F::No)]);
        }
        l.extend([E::O(Op::Init, F::No), E::O(Op::Ku(0, 1), F::Lose(1)), E::O(Op::Ku(1, 2), F::Corrupt(3)), E::O(Op::Hb(0), F::Corrupt(0)), E::O(Op::End(1), F::Lose(1))]);
        if can_psk(cfg) {
            l.extend([E::O(Op::Psk(0), F::No), E::O(Op::Psk(0), F::Lose(3)), E::O(Op::Psk(0), F::Corrupt(2))]);
        }
        if can_ke(cfg) {
            l.extend([E::O(Op::Ke(0, 0), F::No), E::O(Op::Ke(0, 0), F::Lose(2))]);
        }
        let d = c.pick(if *n == "12-mctp" { 3 } else { 2 }, if *n == "12-mctp" { 4 } else { 3 });
        let ops: Vec<Op> = start_ops(cfg).into_iter().chain(if can_psk(cfg) { Some(Op::Psk(0)) } else { None }).collect();
        c.par(&format!("seq-{n}"), count_seqs(l.len(), d), |i, t| {
            let seq: Vec<E> = nth_seq(i, l.len(), d).iter().map(|x| l[*x].clone()).collect();
            t.desc = super::c07::show(&seq);
            let (mut w, mut m) = match begin(cfg, &ops, t) {
                Some(x) => x,
                None => return,
            };
            for (i, e) in seq.iter().enumerate() {
                m.event(&mut w, &dressed(e, i), i, t);
                t.step(w.fp());
            }
            m.refuse(&mut w, t);
        });
    }
    rogue_requests(c, &cfgs);
    rogue_answers(c, &cfgs);
}
/// a peer with the keys says anything at all: what does the responder give away?
fn rogue_requests(c: &Ctx, cfgs: &[(&str, Cfg)]) {
    for (n, cfg) in cfgs {
        let mut jobs: Vec<(usize, Vec<u8>)> = vec![];
        reset_thread();
        setup_env(cfg);
        let m = RefReq::new(cfg);
        for st in 0..4 {
            for (_, q) in request_kinds(&m) {
                let ks: Vec<usize> = if c.quick() { vec![q.len(), 4.min(q.len()), 2] } else { (1..=q.len().min(80)).chain([q.len()]).collect() };
                for k in ks {
                    for ver in if c.quick() { vec![q[0]] } else { vec![0x10u8, 0x11, 0x12, 0x13] } {
                        let mut x = q[..k].to_vec();
                        x[0] = ver;
                        jobs.push((st, x.clone()));
                        for p in [(1u8, 0u8), (0, 1), (0xff, 0xff)] {
                            if k >= 4 {
                                let mut y = x.clone();
                                y[2] = p.0;
                                y[3] = p.1;
                                jobs.push((st, y));
                            }
                        }
                    }
                }
            }
            for code in 0..=255u8 {
                jobs.push((st, vec![m.n.ver, code, 0, 0]));
            }
        }
        // without a session, in a handshake, in a session, with two
        c.par(&format!("rogue-req-{n}"), jobs.len(), |i, t| {
            let (st, q) = &jobs[i];
            t.desc = format!("state {st}: {q:02x?}");
            let w = World::new(cfg);
            let mut r = RefReq::new(cfg);
            let mut mon = Mon::new();
            let go = || -> Result<(), String> {
                r.version()?;
                r.caps()?;
                r.algs()?;
                if *st >= 1 && can_psk(cfg) {
                    if *st == 1 {
                        r.psk_start(0)?;
                    } else {
                        r.psk(0)?;
                    }
                }
                if *st == 3 && can_psk(cfg) {
                    r.psk(0)?;
                }
                Ok(())
            };
            let mut go = go;
            if let Err(e) = go() {
                t.fail("setup", e);
                return;
            }
            let gens: Vec<u32> = rsp(|r| sids(&r.common));
            // the model's sealing does not appear in the log: only the responder's frames are looked at
            mon.aead = fake::with(|e| e.aead.len());
            mon.wire = link(|l| l.wire.len());
            fake::with(|e| e.secrets.iter().for_each(|s| mon.secrets.add(s)));
            let tr = cfg.tr;
            let n0 = r.ss.len();
            let f = match r.ss.last_mut() {
                Some(s) => s.seal(0, q, false),
                None => frame(tr, false, q),
            };
            let out = inject(&f);
            let alg = rsp(|r| r.common.negotiate_info.aead_sel);
            let sealed: Vec<Vec<u8>> = fake::with(|e| {
                e.aead[mon.aead..]
                    .iter()
                    .filter(|r| r.enc && r.ok)
                    .map(|r| {
                        let (c, tag) = fake::p_seal(alg, &r.key, &r.iv, &r.aad, &r.pt);
                        [r.aad.clone(), c, tag].concat()
                    })
                    .collect()
            });
            for o in &out {
                if let Some(k) = mon.secrets.find(o) {
                    t.fail("secret/responder", format!("at {k} of {o:02x?}"));
                }
                match unframe(tr, o) {
                    Some((true, p)) => t.check(n0 > 0 && (0..4.min(p.len())).any(|d| sealed.contains(&p[..p.len() - d].to_vec())), "unsealed/responder", || format!("{o:02x?}")),
                    Some((false, p)) => t.check(n0 == 0, &format!("in the clear/responder/{:02x}", p.get(1).copied().unwrap_or(0)), || format!("a request in a session was answered in the clear: {p:02x?}")),
                    None => t.fail("frame/responder", format!("{o:02x?}")),
                }
            }
            // sessions that ended leave nothing
            let left: Vec<u32> = rsp(|r| sids(&r.common));
            if left.is_empty() && !gens.is_empty() {
                if let Some((n, k)) = leak::held(2, &mon.secrets) {
                    t.fail("left/responder", format!("at {k} of a block of {n}"));
                }
                freed(t);
                t.out("session ended");
            }
            t.out(if out.is_empty() { "silent" } else { "answered" });
            t.step(w.fp());
        });
    }
}
/// a responder with the keys answers anything at all
fn rogue_answers(c: &Ctx, cfgs: &[(&str, Cfg)]) {
    const TAGS: usize = 7;
    for (n, cfg) in cfgs {
        let mut h = start_ops(cfg);
        if can_psk(cfg) && can_ke(cfg) {
            h.push(Op::Psk(0));
        }
        let s = 0;
        h.extend([Op::Vendor(Some(s), vec![]), Op::Hb(s), Op::Ku(s, 1), Op::Meas(Some(s), can_sign(common_ver(cfg)), 0xff, 0), Op::Digest(Some(s)), Op::Ku(s, 2), Op::End(s)]);
        let na = 40;
        c.par(&format!("rogue-rsp-{n}"), na * TAGS * if c.quick() { 1 } else { 24 }, |i, t| {
            let x = digits(i, &[na, TAGS, if c.quick() { 1 } else { 24 }]);
            let (at, how, k) = (x[0], x[1], x[2]);
            t.desc = format!("answer {at} changed in way {how}.{k}");
            let r = RefRsp::new(cfg);
            let (mut w, r) = r.world();
            let count = std::rc::Rc::new(std::cell::Cell::new(0usize));
            let hit = std::rc::Rc::new(std::cell::Cell::new(false));
            let (c2, h2) = (count.clone(), hit.clone());
            r.borrow_mut().tamper = Some(Box::new(move |_, m: &mut Vec<u8>| {
                let j = c2.get();
                c2.set(j + 1);
                if j != at {
                    return;
                }
                h2.set(true);
                match how {
                    0 => m.truncate(m.len().saturating_sub(1 + k)),
                    1 => {
                        let z = m.len() - 1 - k.min(m.len() - 1);
                        m[z] ^= 0x11
                    }
                    2 => *m = vec![m[0], 0x7f, [5u8, 6, 1, 3, 7, 0x41, 0x42, 0x43][k % 8], 0],
                    3 => m[1] ^= 1 << (k % 8),
                    4 => m[0] = [0x10u8, 0x13, 0, 0xff][k % 4],
                    5 => m.extend(vec![0x55; 1 + k]),
                    _ => m.truncate(2 + k),
                }
            }));
            let mut secrets = Runs::new();
            let mut marks = Runs::new();
            let mut wire = 0;
            let mut ns = 0;
            let mut bad_memory = false;
            for (i, o) in h.iter().enumerate() {
                let o = match dressed(&E::O(o.clone(), F::No), i) {
                    E::O(o, _) => o,
                    _ => unreachable!(),
                };
                if let Op::Vendor(_, d) = &o {
                    marks.add(d);
                }
                let clear = clear_handshake(&w.req.common);
                let _ = w.op(&o);
                fake::with(|e| {
                    e.secrets[ns..].iter().for_each(|s| secrets.add(s));
                    ns = e.secrets.len();
                });
                let fr = link(|l| l.wire[wire..].to_vec());
                wire += fr.len();
                for (j, (d, f)) in fr.iter().enumerate() {
                    if *d == Dir::ToReq {
                        continue;
                    }
                    if let Some(k) = secrets.find(f).or(marks.find(f)) {
                        t.fail("secret/requester", format!("in {} at {k}: {f:02x?}", o.short()));
                    }
                    let (sec, p) = unframe(cfg.tr, f).unwrap_or((false, vec![]));
                    let start = matches!(o, Op::Ke(..) | Op::Psk(_));
                    let code = p.get(1).copied().unwrap_or(0);
                    if !sec && (session_of(&o).is_some() || start && j > 0) {
                        t.check(start && (code == 0xe5 && clear || matches!(code, 0xe4 | 0xe6)), &format!("in the clear/requester/{code:02x}"), || format!("{}: {p:02x?}", o.short()));
                    }
                }
                if sids(&w.req.common).is_empty() && ns > 0 && !bad_memory {
                    if let Some((n, k)) = leak::held(1, &secrets) {
                        bad_memory = true;
                        t.fail("left/requester", format!("after {}: at {k} of a block of {n}", o.short()));
                    }
                    t.out("all sessions over");
                }
                t.step(w.fp());
            }
            if !hit.get() {
                t.out("nothing to change");
            }
        });
    }
}
