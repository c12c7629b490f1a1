//! Every record ever encrypted: no key and nonce pair protects two different plaintexts.
use crate::explore::*;
use crate::fake::*;
use crate::faults::*;
use crate::user::*;
use crate::world::*;
use std::collections::HashMap;

/// the monitor: over everything both endpoints encrypted in this execution
pub fn nonces(t: &mut T) {
    let (bad, n) = with(|e| {
        let mut m: HashMap<(Vec<u8>, Vec<u8>), usize> = HashMap::new();
        let mut n = 0;
        for (i, r) in e.aead.iter().enumerate().filter(|(_, r)| r.enc && r.ok) {
            n += 1;
            if r.key.is_empty() || r.key.iter().all(|x| *x == 0) || r.iv.len() != 12 {
                return (Some(("null-key".to_string(), format!("record {i} of {:?}: key {:02x?} nonce {:02x?}", r.actor, r.key, r.iv))), n);
            }
            if let Some(j) = m.insert((r.key.clone(), r.iv.clone()), i) {
                let o = &e.aead[j];
                if o.pt != r.pt || o.aad != r.aad {
                    let who = if o.actor == r.actor { format!("{:?}", r.actor) } else { "both".into() };
                    return (Some((format!("reuse/{who}"), format!("records {j} and {i}: {:02x?} and {:02x?}", o.pt, r.pt))), n);
                }
            }
        }
        (None, n)
    });
    if let Some((k, d)) = bad {
        t.fail(k, d);
    }
    t.out(if n == 0 { "nothing encrypted" } else if n < 8 { "<8 records" } else { "8+ records" });
}
#[derive(Clone, Debug)]
pub enum E {
    O(Op, F),
    /// the responder sends a message of its own accord; it arrives or not
    Push(usize, bool),
    /// the requester sends one and does not wait; it arrives or not
    Fire(usize, bool),
}
impl E {
    pub fn short(&self) -> String {
        match self {
            E::O(o, f) => format!("{}{}", o.short(), f.short()),
            e => format!("{e:?}"),
        }
    }
}
pub fn show(s: &[E]) -> String {
    s.iter().map(|e| e.short()).collect::<Vec<_>>().join(" ")
}
pub fn exec(w: &mut World, e: &E, n: usize) -> bool {
    let sid = |w: &World, s: usize| w.sids.get(s).copied().unwrap_or(0x0bad_0bad);
    match e {
        E::O(o, f) => op_fault(w, o, *f).is_ok(),
        E::Push(s, arrives) => {
            let i = sid(w, *s);
            let ok = as_actor(Actor::Rsp, || rsp(|r| r.send_secured_message(i, format!("push {n}").as_bytes(), true).is_ok()));
            if *arrives && ok {
                let mut b = [0u8; spdmlib::config::RECEIVER_BUFFER_SIZE];
                let _ = as_actor(Actor::Req, || w.req.receive_secured_message(i, &mut b, false));
            }
            ok
        }
        E::Fire(s, arrives) => {
            let i = sid(w, *s);
            let ok = as_actor(Actor::Req, || w.req.send_secured_message(i, format!("fire {n}").as_bytes(), true).is_ok());
            if *arrives && ok {
                // the answer is received too
                let mut b = [0u8; spdmlib::config::RECEIVER_BUFFER_SIZE];
                let _ = as_actor(Actor::Req, || w.req.receive_secured_message(i, &mut b, false));
            }
            ok
        }
    }
}
/// traffic in every session that ever existed, in both directions, with a key update
pub fn tail(w: &mut World, cfg: &Cfg) {
    let n = w.sids.len();
    for s in 0..n {
        for (i, e) in [
            E::Fire(s, true),
            E::Push(s, true),
            E::O(Op::Vendor(Some(s), b"after".to_vec()), F::No),
            E::O(Op::Ku(s, 2), F::No),
            E::O(Op::Hb(s), F::No),
            E::O(Op::Ku(s, 1), F::No),
            E::Push(s, true),
            E::Fire(s, false),
            E::O(Op::Vendor(Some(s), b"last".to_vec()), F::No),
        ]
        .iter()
        .enumerate()
        {
            exec(w, e, 100 + i);
        }
    }
    if can_psk(cfg) {
        let _ = w.op(&Op::Psk(0));
        let s = w.sids.len() - 1;
        let _ = w.op(&Op::Vendor(Some(s), b"new".to_vec()));
    }
}
pub fn letters(cfg: &Cfg, two: bool) -> Vec<E> {
    let mut v = vec![];
    let ss: &[usize] = if two { &[0, 1] } else { &[0] };
    for s in ss {
        let frames = |n: usize| {
            let mut v = vec![F::No];
            for k in 0..n {
                v.extend([F::Lose(k), F::Corrupt(k), F::Dup(k)]);
                if k % 2 == 1 {
                    v.push(F::Error(k, 6));
                }
            }
            v
        };
        for f in frames(4) {
            v.push(E::O(Op::Ku(*s, 1), f));
            v.push(E::O(Op::Ku(*s, 2), f));
        }
        for f in frames(2) {
            v.push(E::O(Op::Hb(*s), f));
            v.push(E::O(Op::End(*s), f));
        }
        v.extend([F::No, F::Lose(1), F::Corrupt(1)].map(|f| E::O(Op::Vendor(Some(*s), b"v".to_vec()), f)));
        if cfg.tr == Tr::Mctp {
            v.push(E::O(Op::App(*s, b"a".to_vec()), F::No));
            v.push(E::O(Op::App(*s, b"a".to_vec()), F::Lose(0)));
        }
        v.extend([E::Push(*s, true), E::Fire(*s, true), E::Push(*s, false), E::Fire(*s, false)]);
        if *s == 0 {
            for k in [Kind::Encrypt, Kind::Decrypt, Kind::Expand, Kind::IoSend, Kind::IoRecv] {
                for a in [Actor::Req, Actor::Rsp] {
                    for n in 0..2 {
                        v.push(E::O(Op::Ku(*s, 1), F::Call(a, k, n)));
                        v.push(E::O(Op::Ku(*s, 2), F::Call(a, k, n)));
                    }
                    v.push(E::O(Op::Hb(*s), F::Call(a, k, 0)));
                }
            }
        }
    }
    v.push(E::O(Op::Init, F::No));
    v.push(E::O(Op::Init, F::Lose(1)));
    for o in [Op::Psk(0), Op::Ke(0, 0)] {
        if matches!(o, Op::Ke(..)) && !can_ke(cfg) || matches!(o, Op::Psk(_)) && !can_psk(cfg) {
            continue;
        }
        let n = if matches!(o, Op::Ke(..)) && MUTAUTH { 10 } else { 4 };
        v.push(E::O(o.clone(), F::No));
        for k in 0..n {
            v.extend([F::Lose(k), F::Corrupt(k)].map(|f| E::O(o.clone(), f)));
        }
        for a in [Actor::Req, Actor::Rsp] {
            for k in [Kind::Random, Kind::Expand, Kind::Hmac, Kind::Encrypt, Kind::IoSend] {
                v.push(E::O(o.clone(), F::Call(a, k, 0)));
            }
        }
    }
    v
}
pub fn start_ops(cfg: &Cfg) -> Vec<Op> {
    let mut v = vec![Op::Init];
    if can_ke(cfg) {
        v.extend([Op::Digest(None), Op::Cert(None, 0), Op::Ke(0, 0)]);
    } else {
        v.push(Op::Psk(0));
    }
    v
}
pub fn run(c: &Ctx) {
    let cat = catalogue();
    let jobs: Vec<(usize, Vec<Op>)> = cat.iter().enumerate().flat_map(|(i, (_, cfg))| [false, true].map(|rev| (i, long_history(cfg, rev)))).collect();
    c.par("config", jobs.len(), |i, t| {
        let (k, ops) = &jobs[i];
        let (n, cfg) = &cat[*k];
        t.desc = format!("{n}: {}", show_ops(ops));
        let mut w = World::new(cfg);
        for o in ops {
            let _ = w.op(o);
            t.step(w.fp());
        }
        tail(&mut w, cfg);
        nonces(t);
    });
    let mut cfgs = vec![("12-mctp", cfg_v(0x12, Tr::Mctp)), ("12-doe", cfg_v(0x12, Tr::Doe)), ("11-mctp", cfg_v(0x11, Tr::Mctp))];
    let mut x = cfg_v(0x12, Tr::Mctp);
    clear_caps(&mut x, rc::KEX);
    cfgs.push(("12-psk", x));
    let mut x = cfg_v(0x12, Tr::Mctp);
    x.req.caps |= rc::CLEAR;
    x.rsp.caps |= sc::CLEAR;
    cfgs.push(("12-clear", x));
    for (n, cfg) in &cfgs {
        // all sequences of events, each with anything that can go wrong
        let l = letters(cfg, false);
        let d = if *n == "12-mctp" && !c.quick() { 3 } else { 2 };
        c.par(&format!("faults-{n}"), count_seqs(l.len(), d), |i, t| {
            let seq: Vec<E> = nth_seq(i, l.len(), d).iter().map(|x| l[*x].clone()).collect();
            t.desc = show(&seq);
            let mut w = World::new(cfg);
            for o in start_ops(cfg) {
                if let Err(e) = w.op(&o) {
                    t.fail("setup", format!("{} {e:?}", o.short()));
                    return;
                }
            }
            for (i, e) in seq.iter().enumerate() {
                exec(&mut w, e, i);
                t.step(w.fp());
            }
            tail(&mut w, cfg);
            nonces(t);
        });
    }
    // long sequences without faults, two sessions
    for (n, cfg) in &cfgs[..c.pick(1, 3)] {
        let mut l = vec![];
        for s in 0..2 {
            l.extend([
                E::O(Op::Ku(s, 1), F::No),
                E::O(Op::Ku(s, 2), F::No),
                E::O(Op::Vendor(Some(s), b"v".to_vec()), F::No),
                E::Push(s, true),
                E::Push(s, false),
                E::Fire(s, false),
                E::O(Op::Ku(s, 1), F::Lose(3)),
                E::O(Op::Ku(s, 2), F::Lose(1)),
            ]);
        }
        let d = c.pick(3, 5);
        c.par(&format!("two-{n}"), count_seqs(l.len(), d), |i, t| {
            let seq: Vec<E> = nth_seq(i, l.len(), d).iter().map(|x| l[*x].clone()).collect();
            t.desc = show(&seq);
            let mut w = World::new(cfg);
            for o in start_ops(cfg).into_iter().chain([Op::Psk(0)]) {
                if let Err(e) = w.op(&o) {
                    t.fail("setup", format!("{} {e:?}", o.short()));
                    return;
                }
            }
            for (i, e) in seq.iter().enumerate() {
                exec(&mut w, e, i);
                t.step(w.fp());
            }
            tail(&mut w, cfg);
            nonces(t);
        });
    }
    // the end of the sequence numbers, in either direction, and the boundaries of their bytes
    let edges: Vec<u64> = [8u32, 16, 24, 32, 40, 48, 56].iter().map(|b| (1u64 << b) - 2).chain([u64::MAX - 1, u64::MAX - 2, u64::MAX - 3, u64::MAX]).collect();
    for (n, cfg) in &cfgs {
        let l = [E::Fire(0, true), E::Push(0, true), E::O(Op::Vendor(Some(0), b"v".to_vec()), F::No), E::O(Op::Hb(0), F::No), E::O(Op::Ku(0, 1), F::No), E::O(Op::Ku(0, 2), F::No)];
        let d = c.pick(3, 5);
        let ns = count_seqs(l.len(), d);
        c.par(&format!("wrap-{n}"), ns * edges.len() * 3, |i, t| {
            let x = digits(i, &[ns, edges.len(), 3]);
            let seq: Vec<E> = nth_seq(x[0], l.len(), d).iter().map(|x| l[*x].clone()).collect();
            let (seq_no, dirs) = (edges[x[1]], x[2] + 1);
            t.desc = format!("directions {dirs} at {seq_no:x}: {}", show(&seq));
            let mut w = World::new(cfg);
            for o in start_ops(cfg) {
                let _ = w.op(&o);
            }
            // the first few records of this key
            for _ in 0..3 {
                let _ = w.op(&Op::Vendor(Some(0), b"early".to_vec()));
            }
            let sid = w.sids[0];
            let set = |c: &mut spdmlib::common::SpdmContext| {
                let s = c.get_session_via_id(sid).unwrap();
                if dirs & 1 != 0 {
                    s.set_request_direction_sequence_number(seq_no);
                }
                if dirs & 2 != 0 {
                    s.set_response_direction_sequence_number(seq_no);
                }
            };
            set(&mut w.req.common);
            rsp(|r| set(&mut r.common));
            let from = with(|e| e.aead.len());
            let mut oks = 0;
            for (i, e) in seq.iter().enumerate() {
                oks += exec(&mut w, e, i) as usize;
                t.step(w.fp());
            }
            // well before the end everything works (nothing is pushed or lost, which would break the order)
            if seq_no < u64::MAX - 100 && !seq.iter().any(|e| matches!(e, E::Push(..) | E::Fire(..))) {
                t.check(oks == seq.len(), "boundary", || format!("{oks} of {} worked", seq.len()));
            }
            let _ = from;
            tail(&mut w, cfg);
            nonces(t);
        });
    }
}
