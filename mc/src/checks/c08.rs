//! Key updates: which keys each endpoint holds, uses and accepts after every sequence of exchanges.
use super::c07;
use crate::explore::*;
use crate::fake::*;
use crate::faults::*;
use crate::model::*;
use crate::user::*;
use crate::world::*;
use spdmlib::common::session::{SpdmSession, SpdmSessionState};
use spdmlib::protocol::*;
use spdmlib::common::SpdmContext;
use std::cell::RefCell;
use std::rc::Rc;

/// (key, iv) of both directions when the session is established
fn real(c: &mut SpdmContext, sid: u32) -> Option<[(Vec<u8>, Vec<u8>); 2]> {
    let s = c.get_session_via_id(sid)?;
    if s.get_session_state() != SpdmSessionState::SpdmSessionEstablished {
        return None;
    }
    let (a, b) = s.export_keys();
    Some([a, b].map(|k| (k.encryption_key.as_ref().to_vec(), k.salt.as_ref().to_vec())))
}
fn want(s: &Sess) -> [(Vec<u8>, Vec<u8>); 2] {
    [0, 1].map(|d| (s.data[d].key.clone(), s.data[d].iv.clone()))
}
/// the keys of the generations around the current one
fn gens(s: &Sess, d: usize, past: &[[DirKeys; 2]]) -> Vec<(String, DirKeys)> {
    let mut v = vec![];
    for (j, p) in past.iter().enumerate() {
        v.push((format!("generation {j}"), p[d].clone()));
    }
    let mut x = s.clone();
    for j in 1..3 {
        x.update(d);
        v.push((format!("current+{j}"), x.data[d].clone()));
    }
    v.push(("handshake".into(), s.hs[d].clone()));
    v.push(("other direction".into(), s.data[1 - d].clone()));
    v.retain(|k| k.1.key != s.data[d].key);
    v
}

// ---------------------------------------------------------------- the responder
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ev {
    /// KEY_UPDATE operation, session
    Ku(u8, usize),
    /// the same, without the last byte / with a wrong version
    Short(u8),
    Ver(u8),
    /// the same, sealed with a key of another generation (-1: the one before; 1, 2: the ones to come)
    Other(u8, i8),
    /// the record is damaged on the way
    Bad(u8),
    /// the n-th key derivation fails
    Fail(u8, usize),
    /// a request that must be answered
    Msg(usize),
    /// one sealed with a key of another generation
    MsgOther(i8),
}
fn refused(m: &mut RefReq, i: usize, f: &[u8], t: &mut T, key: &str) -> bool {
    let calls = with(|e| e.vendor_calls.len());
    let out = inject(f);
    let mut ok = true;
    if with(|e| e.vendor_calls.len()) != calls {
        t.fail(format!("delivered/{key}"), "a message under a key that is not active");
        ok = false;
    }
    // an answer that opens with the session's key would mean it was acted on
    for o in &out {
        let mut s = m.ss[i].clone();
        if s.open(1, o).is_ok() {
            t.fail(format!("answered/{key}"), format!("{:02x?}", &o[..o.len().min(16)]));
            ok = false;
        }
    }
    ok
}
fn step(m: &mut RefReq, past: &mut Vec<[DirKeys; 2]>, e: Ev, n: usize, t: &mut T) -> bool {
    let v = m.n.ver;
    let tag = 0x10 + n as u8;
    let other = |s: &Sess, g: i8, past: &[[DirKeys; 2]]| -> Option<DirKeys> {
        if g < 0 {
            past.iter().rev().find(|p| p[0].key != s.data[0].key).map(|p| p[0].clone())
        } else {
            let mut x = s.clone();
            (0..g).for_each(|_| x.update(0));
            Some(x.data[0].clone())
        }
    };
    let r: Result<(), String> = match e {
        Ev::Ku(op, i) => {
            let f = m.ss[i].seal(0, &[v, 0xe9, op, tag], false);
            let out = inject(&f);
            if i == 0 {
                past.push(m.ss[0].data.clone());
            }
            let legal = (1..=3).contains(&op);
            if op == 1 || op == 2 {
                m.ss[i].update(0);
                if op == 2 {
                    m.ss[i].update(1);
                }
            }
            match out.first() {
                None => Err("no answer".into()),
                Some(o) => m.ss[i].open(1, o).and_then(|(_, x)| if legal { diff("KEY_UPDATE_ACK", &x, &[v, 0x69, op, tag]) } else if is_err(&x) { Ok(()) } else { Err(format!("operation {op} answered {x:02x?}")) }),
            }
        }
        Ev::Short(op) | Ev::Ver(op) | Ev::Fail(op, _) => {
            let q: Vec<u8> = match e {
                Ev::Short(_) => vec![v, 0xe9, op],
                Ev::Ver(_) => vec![v ^ 2, 0xe9, op, tag],
                _ => vec![v, 0xe9, op, tag],
            };
            let f = m.ss[0].seal(0, &q, false);
            if let Ev::Fail(_, k) = e {
                with(|e| e.fail_nth = Some((Actor::Rsp, Kind::Expand, k)));
            }
            let f0 = with(|e| e.failed);
            let out = inject(&f);
            let hit = with(|e| {
                e.fail_nth = None;
                e.failed > f0
            });
            if matches!(e, Ev::Fail(..)) && !hit {
                // nothing failed: an ordinary update
                past.push(m.ss[0].data.clone());
                m.ss[0].update(0);
                if op == 2 {
                    m.ss[0].update(1);
                }
                match out.first() {
                    None => Err("no answer".into()),
                    Some(o) => m.ss[0].open(1, o).and_then(|(_, x)| diff("KEY_UPDATE_ACK", &x, &[v, 0x69, op, tag])),
                }
            } else {
                match out.first() {
                    None => Err("no answer".into()),
                    Some(o) => m.ss[0].open(1, o).and_then(|(_, x)| if is_err(&x) { Ok(()) } else { Err(format!("answered {x:02x?}")) }),
                }
            }
        }
        Ev::Other(op, g) => match other(&m.ss[0], g, past) {
            None => Ok(()),
            Some(k) => {
                let x = m.ss[0].inner(&[v, 0xe9, op, tag], false);
                let f = frame(m.cfg.tr, true, &m.ss[0].seal_raw(&k, &x));
                if !refused(m, 0, &f, t, "key-update") {
                    return false;
                }
                Ok(())
            }
        },
        Ev::MsgOther(g) => match other(&m.ss[0], g, past) {
            None => Ok(()),
            Some(k) => {
                let x = m.ss[0].inner(&m_vendor(v, true, b"other"), false);
                let f = frame(m.cfg.tr, true, &m.ss[0].seal_raw(&k, &x));
                if !refused(m, 0, &f, t, "message") {
                    return false;
                }
                Ok(())
            }
        },
        Ev::Bad(op) => {
            let mut s = m.ss[0].clone();
            let f = s.seal(0, &[v, 0xe9, op, tag], false);
            let f = spoil(m.cfg.tr, &f);
            if !refused(m, 0, &f, t, "damaged") {
                return false;
            }
            Ok(())
        }
        Ev::Msg(i) => m.vendor(Some(i), format!("m{n}").as_bytes()),
    };
    if let Err(d) = r {
        t.fail(format!("responder/{}", format!("{e:?}").split('(').next().unwrap()), format!("{e:?}: {d}"));
        return false;
    }
    for s in &m.ss {
        let r = rsp(|r| real(&mut r.common, s.sid));
        if r != Some(want(s)) {
            t.fail("responder-keys", format!("after {e:?}: {r:02x?}, expected {:02x?}", want(s)));
            return false;
        }
    }
    true
}
fn responder(c: &Ctx, n: &str, cfg: &Cfg, depth: usize) {
    let mut l = vec![Ev::Msg(0), Ev::Msg(1), Ev::Ku(1, 1), Ev::Ku(2, 1), Ev::Ku(0, 0), Ev::Ku(4, 0), Ev::Ku(0xff, 0), Ev::MsgOther(-1), Ev::MsgOther(1), Ev::MsgOther(2)];
    for op in 1..=3 {
        l.extend([Ev::Ku(op, 0), Ev::Short(op), Ev::Ver(op), Ev::Other(op, -1), Ev::Other(op, 1), Ev::Bad(op)]);
    }
    for k in 0..4 {
        l.push(Ev::Fail(1, k));
    }
    for k in 0..7 {
        l.push(Ev::Fail(2, k));
    }
    c.par(&format!("responder-{n}"), count_seqs(l.len(), depth), |i, t| {
        let seq: Vec<Ev> = nth_seq(i, l.len(), depth).iter().map(|x| l[*x]).collect();
        t.desc = format!("{seq:?}");
        let w = World::new(cfg);
        let mut m = RefReq::new(cfg);
        let mut go = || -> Res<()> {
            m.init()?;
            if can_ke(cfg) {
                m.ke(0, 0)?;
            } else {
                m.psk(0)?;
            }
            m.psk(0)?;
            Ok(())
        };
        if let Err(e) = go() {
            t.fail("setup", e);
            return;
        }
        let mut past = vec![m.ss[0].data.clone()];
        for (n, e) in seq.iter().enumerate() {
            if !step(&mut m, &mut past, *e, n, t) {
                return;
            }
            t.step(hash64(&[&w.fp().to_le_bytes(), &m.ss[0].data[0].key, &m.ss[0].data[1].key]));
        }
        // every other key is refused, whatever sequence number it is used with
        for (who, k) in gens(&m.ss[0], 0, &past) {
            for seq in [k.seq, 0, m.ss[0].data[0].seq] {
                let mut k = k.clone();
                k.seq = seq;
                let x = m.ss[0].inner(&m_vendor(m.n.ver, true, b"probe"), false);
                let f = frame(cfg.tr, true, &m.ss[0].seal_raw(&k, &x));
                if !refused(&mut m, 0, &f, t, who.split(' ').next().unwrap()) {
                    return;
                }
            }
        }
        for i in 0..2 {
            if let Err(e) = m.vendor(Some(i), b"last").and_then(|_| m.heartbeat(i)) {
                t.fail("responder/usable", format!("session {i}: {e}"));
                return;
            }
        }
        t.out("ok");
    });
}

// ---------------------------------------------------------------- the requester
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum B {
    Good,
    /// no answer, the request took effect or did not
    Lost,
    LostReq,
    Damaged,
    /// an authentic ERROR: nothing was updated
    Refuse(u8),
    /// ERROR in the clear, the request took effect
    Clear(u8),
    /// an acknowledgement under the response key of another generation
    Gen(i8),
    Short,
    Code,
    Ver,
    Fail(Kind, usize),
}
type Plan = Rc<RefCell<Vec<B>>>;
fn peer(m: Rc<RefCell<RefRsp>>, plan: Plan) -> Peer {
    Box::new(move |f| {
        let b = if plan.borrow().is_empty() { B::Good } else { plan.borrow_mut().remove(0) };
        let mut m = m.borrow_mut();
        let v = m.n.ver;
        let tr = m.cfg.tr;
        let before = m.ss.first().map(|s| s.data.clone());
        let again = |m: &RefRsp, x: &[u8]| -> Vec<Vec<u8>> {
            // reseal something else at the place of the answer just sealed
            let s = &m.ss[0];
            let mut k = s.data[1].clone();
            k.seq -= 1;
            vec![frame(tr, true, &s.seal_raw(&k, &s.inner(x, false)))]
        };
        match b {
            B::LostReq => vec![],
            B::Refuse(c) => match m.ss[0].open(0, f) {
                Ok(_) => vec![m.ss[0].seal(1, &[v, 0x7f, c, 0], false)],
                Err(e) => {
                    m.bad.push(e);
                    vec![]
                }
            },
            _ => {
                let out = m.serve(f);
                if out.is_empty() {
                    return out;
                }
                match b {
                    B::Lost => vec![],
                    B::Damaged => vec![spoil(tr, &out[0])],
                    B::Clear(c) => vec![frame(tr, false, &[v, 0x7f, c, 0])],
                    B::Short => again(&m, &[v, 0x69]),
                    B::Code => again(&m, &[v, 0x68, 0, 0]),
                    B::Ver => again(&m, &[v ^ 2, 0x69, 1, 1]),
                    B::Gen(g) => {
                        let s = &m.ss[0];
                        let mut k = if g < 0 { before.unwrap()[1].clone() } else { s.data[1].clone() };
                        if g > 0 {
                            let mut x = s.clone();
                            x.update(1);
                            k = x.data[1].clone();
                        } else if k.key == s.data[1].key {
                            return out;
                        }
                        vec![frame(tr, true, &s.seal_raw(&k, &s.inner(&[v, 0x69, 1, 1], false)))]
                    }
                    _ => out,
                }
            }
        }
    })
}
fn requester(c: &Ctx, n: &str, cfg: &Cfg, depth: usize) {
    let mut bs = vec![B::Lost, B::LostReq, B::Damaged, B::Refuse(3), B::Refuse(5), B::Refuse(6), B::Clear(3), B::Clear(6), B::Clear(1), B::Gen(-1), B::Gen(1), B::Short, B::Code, B::Ver];
    for k in 0..6 {
        bs.push(B::Fail(Kind::Expand, k));
    }
    for k in [Kind::Encrypt, Kind::Decrypt, Kind::IoSend, Kind::IoRecv] {
        bs.extend([B::Fail(k, 0), B::Fail(k, 1)]);
    }
    // (operation, behaviour for its first and second exchange)
    let mut l: Vec<(u8, B, B)> = vec![(0, B::Good, B::Good), (3, B::Good, B::Good)];
    for op in [1, 2] {
        l.push((op, B::Good, B::Good));
        for b in &bs {
            l.push((op, *b, B::Good));
            if !matches!(b, B::Fail(..)) {
                l.push((op, B::Good, *b));
            }
        }
    }
    c.par(&format!("requester-{n}"), count_seqs(l.len(), depth), |i, t| {
        let seq: Vec<(u8, B, B)> = nth_seq(i, l.len(), depth).iter().map(|x| l[*x]).collect();
        t.desc = format!("{seq:?}");
        let plan: Plan = Default::default();
        let m = Rc::new(RefCell::new(RefRsp::new(cfg)));
        let mut w = World::with_peer(cfg, peer(m.clone(), plan.clone()));
        for o in c07::start_ops(cfg) {
            if let Err(e) = w.op(&o) {
                t.fail("setup", format!("{} {e:x?} {:?}", o.short(), m.borrow().bad));
                return;
            }
        }
        let sid = w.sids[0];
        let mut past = vec![m.borrow().ss[0].data.clone()];
        let mut out_of_step = false;
        for (n, (op, a, b)) in seq.iter().enumerate() {
            let live = real(&mut w.req.common, sid).is_some();
            *plan.borrow_mut() = if let B::Fail(k, x) = a {
                with(|e| e.fail_nth = Some((Actor::Req, *k, *x)));
                vec![]
            } else {
                vec![*a, *b]
            };
            let f0 = with(|e| e.failed);
            let before = real(&mut w.req.common, sid);
            let r = match op {
                0 => w.op(&Op::Vendor(Some(0), vec![n as u8])),
                3 => w.op(&Op::Ku(0, 3)),
                o => w.op(&Op::Ku(0, *o)),
            };
            let hit = with(|e| {
                e.fail_nth = None;
                e.failed > f0
            });
            plan.borrow_mut().clear();
            past.push(m.borrow().ss[0].data.clone());
            let now = real(&mut w.req.common, sid);
            t.step(hash64(&[&w.fp().to_le_bytes(), &now.iter().flatten().flat_map(|x| x.0.clone()).collect::<Vec<u8>>()]));
            let want = want(&m.borrow().ss[0]);
            let what = format!("exchange {n} {op} {a:?} {b:?}: {r:x?}");
            let disturbed = |b: &B| !matches!(b, B::Good | B::Fail(..)) && (*op == 2 || *b != B::Gen(-1));
            let bad = (1..=2).contains(op) && (disturbed(a) || (*b != B::Gen(-1) && disturbed(b))) || hit || *op == 3;
            // decryption of the first answer can fail only if there is one
            if live && bad && r.is_ok() {
                t.fail(format!("false-success/{}", format!("{a:?}{b:?}").split('(').next().unwrap()), what);
                return;
            }
            if live && !bad && !out_of_step && r.is_err() {
                t.fail("refused", what);
                return;
            }
            if !live && r.is_ok() {
                t.fail("dead-session-worked", what);
                return;
            }
            if let Some(k) = &now {
                if *k != want {
                    t.fail(format!("requester-keys/{}", format!("{a:?}").split('(').next().unwrap()), format!("{what}: {k:02x?}, the peer has {want:02x?}"));
                    return;
                }
                // only what was asked for changes
                let b4 = before.unwrap();
                let up = (1..=2).contains(op) && r.is_ok();
                if (k[0] != b4[0]) != up && !bad || (k[1] != b4[1]) != (up && *op == 2) && !bad {
                    t.fail("directions", what);
                    return;
                }
            }
            // a refusal of a single-key update keeps the session (code 6, DecryptError, ends it)
            if live && *op == 1 && matches!(a, B::Refuse(c) if *c != 6) && now.is_none() && !out_of_step {
                t.fail("refusal-ends-session", what);
                return;
            }
            // a record that was sealed but never sent, or an answer never read, breaks the order
            if hit || matches!(a, B::Lost | B::LostReq | B::Damaged | B::Clear(_) | B::Gen(_)) || matches!(b, B::Lost | B::LostReq | B::Damaged | B::Clear(_) | B::Gen(_)) {
                out_of_step = true;
            }
        }
        // nothing under another key is accepted
        if real(&mut w.req.common, sid).is_some() {
            let (s, list) = {
                let m = m.borrow();
                (m.ss[0].clone(), gens(&m.ss[0], 1, &past))
            };
            for (who, k) in list {
                for seq in [k.seq, 0, s.data[1].seq] {
                    let mut k = k.clone();
                    k.seq = seq;
                    let f = frame(cfg.tr, true, &s.seal_raw(&k, &s.inner(b"probe of a key", cfg.tr == Tr::Mctp)));
                    link(|l| l.to_req.push_back(f));
                    let mut buf = [0u8; spdmlib::config::RECEIVER_BUFFER_SIZE];
                    let r = as_actor(Actor::Req, || w.req.receive_secured_message(sid, &mut buf, false));
                    link(|l| l.to_req.clear());
                    if r.is_ok() {
                        t.fail(format!("accepted/{}", who.split(' ').next().unwrap()), format!("a record under the key of {who}"));
                        return;
                    }
                }
            }
            if !out_of_step {
                let r = w.op(&Op::Vendor(Some(0), b"last".to_vec()));
                t.check(r.is_ok(), "requester/usable", || format!("{r:x?}"));
            }
            t.out("live");
        } else {
            t.out("failed");
        }
        let bad = m.borrow().bad.clone();
        if !bad.is_empty() && !out_of_step {
            t.fail("peer", bad[0].clone());
        }
    });
}
/// an established session, as the library sets one up
fn session(seq_bytes: u8) -> SpdmSession {
    let mut s = SpdmSession::new();
    let _ = s.setup(0xfffe_fffd);
    s.set_crypto_param(SpdmBaseHashAlgo::TPM_ALG_SHA_384, SpdmDheAlgo::SECP_384_R1, SpdmAeadAlgo::AES_256_GCM, SpdmKeyScheduleAlgo::SPDM_KEY_SCHEDULE);
    s.set_transport_param(seq_bytes, 0);
    let v = SpdmVersion::SpdmVersion12;
    let _ = s.set_dhe_secret(v, SpdmDheFinalKeyStruct::from(&[7u8; 48][..]));
    let th = SpdmDigestStruct::from(&[9u8; 48][..]);
    let _ = s.generate_handshake_secret(v, &th);
    let _ = s.generate_data_secret(v, &th);
    s.set_session_state(SpdmSessionState::SpdmSessionEstablished);
    s
}
/// the same session after `gens` updates of each direction, with the given sequence numbers
fn session_at(seq_bytes: u8, gens: [usize; 2], seqs: [u64; 2]) -> SpdmSession {
    let mut s = session(seq_bytes);
    for d in 0..2 {
        for _ in 0..gens[d] {
            let _ = s.create_data_secret_update(SpdmVersion::SpdmVersion12, d == 0, d == 1);
        }
    }
    s.set_request_direction_sequence_number(seqs[0]);
    s.set_response_direction_sequence_number(seqs[1]);
    s
}
/// the session's own interface: updates, confirmations and roll-backs of either direction between records of either direction
fn objects(c: &Ctx) {
    const DIRS: [[bool; 2]; 3] = [[true, false], [false, true], [true, true]];
    let (k, d) = (13, c.pick(4, 5));
    for seq_bytes in [0u8, 2, 8] {
        c.par(&format!("object-{seq_bytes}"), count_seqs(k, d), |i, t| {
            let seq = nth_seq(i, k, d);
            t.desc = format!("{seq:?}");
            let mut s = session(seq_bytes);
            // of each direction: generation, sequence number, what a roll-back returns to
            let mut m: [(usize, u64, Option<(usize, u64)>); 2] = [(0, 0, None); 2];
            let v = SpdmVersion::SpdmVersion12;
            let (mut rec, mut out) = ([0u8; 200], [0u8; 200]);
            for (n, l) in seq.iter().enumerate() {
                let gens = [m[0].0, m[1].0];
                let seqs = [m[0].1, m[1].1];
                let data = [n as u8 ^ 0x5a; 21];
                let is_req = l % 2 == 0;
                let dir = l % 2;
                match *l {
                    0 | 1 => {
                        let r = s.encode_spdm_secured_message(&data, &mut rec, is_req);
                        t.check(r.is_ok(), "object/encode", || format!("{r:?}"));
                        if let Ok(len) = r {
                            let mut peer = session_at(seq_bytes, gens, seqs);
                            let r = peer.decode_spdm_secured_message(&rec[..len], &mut out, is_req);
                            t.check(matches!(r, Ok(21)) && out[..21] == data, "object/keys", || format!("step {n}: the record is not under generation {gens:?}, number {seqs:?}"));
                            m[dir].1 += 1;
                        }
                    }
                    2 | 3 => {
                        let mut peer = session_at(seq_bytes, gens, seqs);
                        match peer.encode_spdm_secured_message(&data, &mut rec, is_req) {
                            Ok(len) => {
                                let r = s.decode_spdm_secured_message(&rec[..len], &mut out, is_req);
                                t.check(matches!(r, Ok(21)) && out[..21] == data, "object/keys", || format!("step {n}: a record of generation {gens:?}, number {seqs:?} is refused"));
                                m[dir].1 += 1;
                            }
                            Err(e) => t.fail("object/encode", format!("{e:?}")),
                        }
                    }
                    4..=6 => {
                        let w = DIRS[l - 4];
                        let r = s.create_data_secret_update(v, w[0], w[1]);
                        t.check(r.is_ok(), "object/create", || format!("{r:?}"));
                        for d in (0..2).filter(|d| w[*d]) {
                            m[d] = (m[d].0 + 1, 0, Some((m[d].0, m[d].1)));
                        }
                    }
                    _ => {
                        let (w, keep) = (DIRS[(l - 7) % 3], *l < 10);
                        if !keep && (0..2).any(|d| w[d] && m[d].2.is_none()) {
                            t.out("nothing to return to");
                            return;
                        }
                        let r = s.activate_data_secret_update(v, w[0], w[1], keep);
                        t.check(r.is_ok(), "object/activate", || format!("{r:?}"));
                        for d in (0..2).filter(|d| w[*d]) {
                            if keep {
                                m[d].2 = None;
                            } else {
                                let (g, q) = m[d].2.unwrap_or_default();
                                m[d] = (g, q, Some((g, q)));
                            }
                        }
                    }
                }
                t.check(
                    s.get_request_direction_sequence_number() == m[0].1 && s.get_response_direction_sequence_number() == m[1].1,
                    "object/numbers",
                    || format!("step {n}: {} and {}, not {} and {}", s.get_request_direction_sequence_number(), s.get_response_direction_sequence_number(), m[0].1, m[1].1),
                );
                t.step(hash64(&[format!("{m:?}").as_bytes()]));
            }
            // what is under the keys of another generation, another number or the other direction is refused
            let (gens, seqs) = ([m[0].0, m[1].0], [m[0].1, m[1].1]);
            for dir in 0..2 {
                for (what, g, q) in [("a later generation", 1, 0), ("a later number", 0, 1)] {
                    let (mut g2, mut q2) = (gens, seqs);
                    g2[dir] += g;
                    q2[dir] += q;
                    let mut peer = session_at(seq_bytes, g2, q2);
                    if let Ok(len) = peer.encode_spdm_secured_message(b"x", &mut rec, dir == 0) {
                        let r = s.decode_spdm_secured_message(&rec[..len], &mut out, dir == 0);
                        t.check(r.is_err(), "object/accepts", || format!("{what} of direction {dir} is accepted"));
                    }
                }
                if gens[dir] > 0 {
                    let mut g2 = gens;
                    g2[dir] -= 1;
                    let mut peer = session_at(seq_bytes, g2, seqs);
                    if let Ok(len) = peer.encode_spdm_secured_message(b"x", &mut rec, dir == 0) {
                        let r = s.decode_spdm_secured_message(&rec[..len], &mut out, dir == 0);
                        t.check(r.is_err(), "object/accepts", || format!("the generation before in direction {dir} is accepted"));
                    }
                }
                if let Ok(len) = session_at(seq_bytes, gens, seqs).encode_spdm_secured_message(b"x", &mut rec, dir == 1) {
                    let r = s.decode_spdm_secured_message(&rec[..len], &mut out, dir == 0);
                    t.check(r.is_err(), "object/accepts", || format!("a record of the other direction is accepted in direction {dir}"));
                }
            }
        });
    }
}
pub fn run(c: &Ctx) {
    objects(c);
    let mut cfgs = vec![("12-mctp", cfg_v(0x12, Tr::Mctp)), ("12-doe", cfg_v(0x12, Tr::Doe)), ("11-mctp", cfg_v(0x11, Tr::Mctp))];
    for (n, a) in [("aes128", 1), ("chacha", 4)] {
        let mut x = cfg_v(0x12, Tr::Mctp);
        clear_caps(&mut x, rc::KEX);
        x.req.aead = a;
        x.rsp.aead = a;
        cfgs.push((n, x));
    }
    for (i, (n, cfg)) in cfgs.iter().enumerate() {
        responder(c, n, cfg, if i == 0 { c.pick(3, 4) } else { c.pick(2, 3) });
        requester(c, n, cfg, if i == 0 { c.pick(2, 3) } else { 2 });
    }
    // both real: whatever happens to the frames, two live ends of a session hold the same keys
    for (n, cfg) in &cfgs[..c.pick(2, 3)] {
        let l: Vec<c07::E> = c07::letters(cfg, false).into_iter().filter(|e| !matches!(e, c07::E::O(Op::Init | Op::Psk(_) | Op::Ke(..), _))).collect();
        let d = if *n == "12-mctp" && !c.quick() { 3 } else { 2 };
        c.par(&format!("both-{n}"), count_seqs(l.len(), d), |i, t| {
            let seq: Vec<c07::E> = nth_seq(i, l.len(), d).iter().map(|x| l[*x].clone()).collect();
            t.desc = c07::show(&seq);
            let mut w = World::new(cfg);
            for o in c07::start_ops(cfg) {
                if let Err(e) = w.op(&o) {
                    t.fail("setup", format!("{} {e:?}", o.short()));
                    return;
                }
            }
            let sid = w.sids[0];
            for (i, e) in seq.iter().enumerate() {
                c07::exec(&mut w, e, i);
                t.step(w.fp());
                let a = real(&mut w.req.common, sid);
                let b = rsp(|r| real(&mut r.common, sid));
                if let (Some(a), Some(b)) = (a, b) {
                    if a != b {
                        t.fail("desynchronised", format!("after {}: {a:02x?} and {b:02x?}", e.short()));
                        return;
                    }
                    t.out("both live");
                }
            }
        });
    }
}
