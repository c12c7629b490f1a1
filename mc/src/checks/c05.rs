//! Impostors: forged and misdirected finish messages against the responder, forged proofs against the requester.
use crate::explore::*;
use crate::fake::*;
use crate::model::*;
use crate::user::*;
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum F {
    Good,
    /// proof by the responder's key
    RspKey,
    Zero,
    Empty,
    /// over the transcript without the finish header
    NoHeader,
    /// the finish message of the other session
    OfOther,
    /// sealed in the other session
    InOther,
    /// the other finish code, with a proof that is right for it
    OtherCode,
    /// unsecured where it has to be secured, or the reverse
    OtherChannel,
    /// as application data
    AsApp,
    /// sealed with the data keys the session would have
    DataKeys,
    Header(u8, u8),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum E {
    Fin(usize, F),
    App(usize),
    Vendor(usize),
}
fn established() -> Vec<u32> {
    rsp(|r| sess_table(&r.common)).into_iter().filter(|s| s.1 == spdmlib::common::session::SpdmSessionState::SpdmSessionEstablished.get_u8()).map(|s| s.0).collect()
}
fn finish_of(m: &mut RefReq, i: usize) -> Vec<u8> {
    if m.ss[i].psk {
        m.psk_finish_msg(i)
    } else {
        m.finish_msg(i)
    }
}
fn clear_fin(m: &RefReq, i: usize) -> bool {
    m.n.clear() && !m.ss[i].psk
}
/// the session a FINISH in the clear is for
fn last_ke(m: &RefReq) -> Option<usize> {
    m.ss.iter().rposition(|s| !s.psk)
}
/// send a finish message made for session i; the session it has every right to establish
fn send_fin(m: &mut RefReq, i: usize, k: F) -> (Option<usize>, Vec<Vec<u8>>) {
    let o = 1 - i;
    let hs = m.n.hs();
    let mut q = finish_of(m, i);
    let n = m.n.clone();
    let l = q.len();
    let mut via = i;
    let mut clear = clear_fin(m, i);
    let mut app = false;
    let head = |m: &mut RefReq, q: &mut Vec<u8>, f: Vec<u8>, d: usize| {
        let l = q.len();
        m.ss[i].f = f;
        let mac = n.hmac(&m.ss[i].fin[d], &n.hash(&m.ss[i].th()));
        q.truncate(l - hs);
        q.extend(mac);
    };
    match k {
        F::Good => {}
        F::RspKey => {
            let f = q[..l - hs].to_vec();
            head(m, &mut q, f, 1)
        }
        F::Zero => q[l - hs..].fill(0),
        F::Empty => q.truncate(l - hs),
        F::NoHeader => head(m, &mut q, vec![], 0),
        F::OfOther => q = finish_of(m, o),
        F::InOther => {
            via = o;
            clear = false
        }
        F::OtherCode => {
            q[1] ^= 0xe5 ^ 0xe7;
            let f = q[..l - hs].to_vec();
            head(m, &mut q, f, 0)
        }
        F::OtherChannel => clear = !clear,
        F::AsApp => {
            app = true;
            clear = false
        }
        F::DataKeys => {
            let was = m.ss[i].clone();
            m.ss[i].establish();
            let f = m.ss[i].seal(0, &q, false);
            m.ss[i] = was;
            return (None, inject(&f));
        }
        F::Header(b, x) => q[b as usize] ^= x,
    }
    let target = if clear { last_ke(m) } else { Some(via) };
    let good = target.filter(|x| !app && !m.ss[*x].established && !m.ss[*x].dead && clear == clear_fin(m, *x) && finish_of(m, *x) == q);
    let f = if clear { frame(m.tr(), false, &q) } else { m.ss[via].seal(0, &q, app) };
    let out = inject(&f);
    (good, out)
}
fn rsp_case(cfg: &Cfg, open: &[bool], evs: &[E], t: &mut T) {
    let w = World::new(cfg);
    let mut m = RefReq::new(cfg);
    if let Err(e) = m.init() {
        return t.fail("setup", e);
    }
    for psk in open {
        let r = if *psk { m.psk_start(0).map(|_| ()) } else { m.ke_start(0, 0).and_then(|i| if m.ss[i].mut_auth { m.encap(i) } else { Ok(()) }) };
        if let Err(e) = r {
            return t.fail("setup", e);
        }
    }
    // a PSK session of a responder without context is established by the exchange itself
    let mut est: Vec<bool> = m.ss.iter().map(|s| s.established).collect();
    let mut spoiled = vec![false; open.len()];
    for e in evs {
        let apps = with(|x| x.app_calls.len());
        let vends = with(|x| x.vendor_calls.len());
        match *e {
            E::Fin(i, k) => {
                if est[i] || m.ss[i].dead {
                    t.out("-");
                    continue;
                }
                let (good, out) = send_fin(&mut m, i, k);
                t.step(w.fp());
                let ids = established();
                for f in &out {
                    for s in m.ss.iter_mut() {
                        if s.open(1, f).is_ok() {
                            break;
                        }
                    }
                }
                match good {
                    Some(j) => {
                        let is = ids.contains(&m.ss[j].sid);
                        if !is && !spoiled.iter().any(|x| *x) {
                            return t.fail("good-finish-refused", format!("{e:?} of {evs:?}: {out:02x?}"));
                        }
                        if is {
                            let q = finish_of(&mut m, j);
                            m.ss[j].f = q;
                            let code = if m.ss[j].psk { 0x67 } else { 0x65 };
                            m.ss[j].f.extend([m.n.ver, code, 0, 0]);
                            if clear_fin(&m, j) {
                                let n = m.n.clone();
                                let mac = n.hmac(&m.ss[j].fin[1], &n.hash(&m.ss[j].th()));
                                m.ss[j].f.extend(mac);
                            }
                            m.ss[j].establish();
                            est[j] = true;
                        } else {
                            spoiled[j] = true;
                        }
                    }
                    None => {
                        if ids.contains(&m.ss[i].sid) && !est[i] {
                            return t.fail(format!("established/{k:?}"), format!("{e:?} of {evs:?} established session {:x}", m.ss[i].sid));
                        }
                        spoiled.iter_mut().for_each(|x| *x = true);
                    }
                }
                let st = rsp(|r| sess_table(&r.common));
                for (j, s) in m.ss.iter_mut().enumerate() {
                    if !st.iter().any(|x| x.0 == s.sid) {
                        if est[j] {
                            return t.fail("established-ended", format!("{e:?} of {evs:?} ended session {j}"));
                        }
                        s.dead = true;
                    }
                }
            }
            E::App(i) | E::Vendor(i) => {
                let is_app = matches!(e, E::App(_));
                let mut s = m.ss[i].clone();
                if !s.established {
                    // what an impostor would hold
                    s.establish();
                }
                let q = if is_app { b"secret".to_vec() } else { m_vendor(m.n.ver, true, b"secret") };
                let f = s.seal(0, &q, is_app);
                if est[i] && !m.ss[i].dead {
                    m.ss[i] = s;
                }
                let out = inject(&f);
                t.step(w.fp());
                let got = with(|x| if is_app { x.app_calls.len() - apps } else { x.vendor_calls.len() - vends });
                if est[i] && !m.ss[i].dead {
                    if got != 1 || out.len() != 1 {
                        return t.fail("undelivered", format!("{e:?} of {evs:?}: delivered {got}, {} responses", out.len()));
                    }
                    if m.ss[i].open(1, &out[0]).is_err() {
                        return t.fail("reply", format!("{e:?} of {evs:?}"));
                    }
                } else if got != 0 {
                    return t.fail("delivered-unestablished", format!("{e:?} of {evs:?}"));
                }
            }
        }
        let a = with(|x| x.app_calls.len());
        let b = with(|x| x.vendor_calls.len());
        if matches!(e, E::Fin(..)) && (a != apps || b != vends) {
            return t.fail("finish-delivered", format!("{e:?}"));
        }
        let ids = established();
        for (j, s) in m.ss.iter().enumerate() {
            if ids.contains(&s.sid) != est[j] && !s.dead {
                return t.fail("established-other", format!("{e:?} of {evs:?}: session {j} established {} expected {}", ids.contains(&s.sid), est[j]));
            }
        }
        if ids.len() > est.iter().filter(|x| **x).count() {
            return t.fail("established-unknown", format!("{ids:x?}"));
        }
    }
    t.out(format!("{est:?}"));
}
fn alphabet(n: usize, deep: bool) -> Vec<E> {
    let mut v = vec![];
    let mut ks = vec![F::Good, F::RspKey, F::Zero, F::Empty, F::NoHeader, F::OfOther, F::InOther, F::OtherCode, F::OtherChannel, F::AsApp, F::DataKeys];
    if deep {
        ks.extend([F::Header(0, 1), F::Header(2, 1), F::Header(3, 1)]);
    }
    for i in 0..n {
        v.extend(ks.iter().map(|k| E::Fin(i, *k)));
        v.push(E::App(i));
        v.push(E::Vendor(i));
    }
    v
}
fn keep(cfg: &Cfg, evs: &[E]) -> bool {
    cfg.tr == Tr::Mctp || !evs.iter().any(|e| matches!(e, E::App(_) | E::Fin(_, F::AsApp)))
}

// ------------------------------------------------------------------ requester against an impostor
#[derive(Clone, Debug)]
enum Imp {
    Sig(u8),
    Mac(u8),
    Key(u64),
    BadDh,
    Psk(Vec<u8>),
    /// a bit of a message flipped after it was signed
    Flip(&'static str, usize, u8),
    /// a message cut after it was signed
    Cut(&'static str, usize),
    /// answered by something else
    Instead(&'static str, Vec<u8>),
    /// another chain of certificates, with its key
    Chain { root: u64, key: u64 },
    /// no chain was retrieved
    NoCert,
    /// the impostor's chain is presented after the real one
    ChainLater { root: u64, key: u64 },
    OtherSlot,
}
fn target(imp: &Imp, op: &Op) -> bool {
    // is this operation one the impostor cannot get through
    match imp {
        Imp::Sig(_) | Imp::Key(_) => matches!(op, Op::Chal(..) | Op::Meas(_, true, ..) | Op::Ke(..)),
        Imp::BadDh => matches!(op, Op::Ke(..)),
        Imp::Mac(_) => matches!(op, Op::Ke(..) | Op::Psk(..)),
        Imp::Psk(_) => matches!(op, Op::Psk(..)),
        Imp::Flip(..) | Imp::Cut(..) | Imp::Instead(..) => matches!(op, Op::Ke(..) | Op::Psk(..) | Op::Chal(..)),
        _ => matches!(op, Op::Chal(..) | Op::Meas(_, true, ..) | Op::Ke(..)),
    }
}
fn req_case(cfg: &Cfg, imp: &Imp, op: &Op, mut_req: u8, t: &mut T) {
    t.desc = format!("{imp:?} {} mut {mut_req}", op.short());
    let mut r = RefRsp::new(cfg);
    r.mut_req = mut_req;
    let (mut w, r) = r.world();
    let honest_cfg = r.borrow().cfg.clone();
    let mut setup = vec![Op::Init];
    if !matches!(imp, Imp::NoCert) {
        setup.push(Op::Cert(None, 0));
    }
    if let Imp::Chain { root, key } = imp {
        let mut r = r.borrow_mut();
        r.cfg.rsp.root = *root;
        r.cfg.rsp.key = *key;
        r.sign_key = *key;
    }
    for o in &setup {
        let x = w.op(o);
        t.step(w.fp());
        let bad = matches!((imp, o), (Imp::Chain { .. }, Op::Cert(..)));
        if x.is_ok() == bad {
            return t.fail(if bad { "foreign-chain-accepted" } else { "setup" }, format!("{} {x:x?} {:?}", o.short(), r.borrow().bad));
        }
    }
    let mut op = op.clone();
    {
        let mut r = r.borrow_mut();
        match imp {
            Imp::Sig(k) => r.sig_mode = *k,
            Imp::Mac(k) => r.mac_mode = *k,
            Imp::Key(k) => r.sign_key = *k,
            Imp::BadDh => r.bad_dh = true,
            Imp::Psk(k) => r.psk = k.clone(),
            Imp::ChainLater { root, key } => {
                r.cfg.rsp.root = *root;
                r.cfg.rsp.key = *key;
                r.sign_key = *key;
            }
            Imp::OtherSlot => {
                op = match op {
                    Op::Chal(_, s) => Op::Chal(1, s),
                    Op::Ke(_, s) => Op::Ke(1, s),
                    Op::Meas(s, g, o, _) => Op::Meas(s, g, o, 1),
                    o => o,
                }
            }
            _ => {}
        }
        let (tag, edit): (&'static str, Rc<dyn Fn(&mut Vec<u8>) -> bool>) = match imp.clone() {
            Imp::Flip(tag, i, x) => (
                tag,
                Rc::new(move |m| {
                    let k = if i >= 100000 { m.len().wrapping_sub(i - 100000) } else { i };
                    if k < m.len() {
                        m[k] ^= x;
                        true
                    } else {
                        false
                    }
                }),
            ),
            Imp::Cut(tag, i) => (
                tag,
                Rc::new(move |m| {
                    let l = m.len().saturating_sub(i + 1);
                    m.truncate(l);
                    true
                }),
            ),
            Imp::Instead(tag, v) => (
                tag,
                Rc::new(move |m| {
                    *m = v.clone();
                    true
                }),
            ),
            _ => ("", Rc::new(|_| false)),
        };
        if !tag.is_empty() {
            let hit = Rc::new(RefCell::new(false));
            let h2 = hit.clone();
            r.tamper = Some(Box::new(move |g, m| {
                if g == tag {
                    let x = edit(m);
                    *h2.borrow_mut() |= x;
                }
            }));
            drop(r);
            let x = w.op(&op);
            t.step(w.fp());
            if !*hit.borrow() {
                return t.out("not reached");
            }
            return judge(&mut w, &x, imp, &op, t);
        }
    }
    if matches!(imp, Imp::ChainLater { .. }) {
        let x = w.op(&Op::Cert(None, 0));
        t.step(w.fp());
        if x.is_ok() {
            return t.fail("foreign-chain-accepted", format!("{imp:?}"));
        }
    }
    let x = w.op(&op);
    t.step(w.fp());
    if !judge_b(&mut w, &x, imp, &op, t) {
        return;
    }
    // with the real responder back, it works
    {
        let mut r = r.borrow_mut();
        r.cfg = honest_cfg;
        r.sign_key = r.cfg.rsp.key;
        r.sig_mode = 0;
        r.mac_mode = 0;
        r.bad_dh = false;
        r.psk = PSK.to_vec();
        r.ss.clear();
    }
    for o in [Op::Init, Op::Cert(None, 0), op.clone()] {
        if matches!(imp, Imp::OtherSlot) {
            break;
        }
        if let Err(e) = w.op(&o) {
            return t.fail(format!("later/{}", op_kind(&o)), format!("{imp:?} {}: {:x?} {:?}", o.short(), e.status_code, r.borrow().bad));
        }
    }
}
fn judge(w: &mut World, x: &R, imp: &Imp, op: &Op, t: &mut T) {
    judge_b(w, x, imp, op, t);
}
fn judge_b(w: &mut World, x: &R, imp: &Imp, op: &Op, t: &mut T) -> bool {
    let name = format!("{imp:?}");
    let name = name.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string();
    t.out(format!("{name} {} {}", op_kind(op), x.is_ok()));
    if x.is_ok() {
        t.fail(format!("accepted/{name}/{}", op_kind(op)), format!("{imp:?}: {} succeeded", op.short()));
        return false;
    }
    let st = sess_table(&w.req.common);
    if !st.is_empty() {
        t.fail(format!("session/{name}/{}", op_kind(op)), format!("{imp:?}: {st:x?} after a failed {}", op.short()));
        return false;
    }
    true
}
fn req_jobs(c: &Ctx, cfg: &Cfg) -> Vec<(Imp, Op, u8)> {
    let n = expected_neg(cfg).unwrap();
    let mut v = vec![];
    let mut imps: Vec<Imp> = (1..=SIG_MODES).map(Imp::Sig).chain((1..=MAC_MODES).map(Imp::Mac)).collect();
    for k in [0u64, 1, 0x666, cfg.req.key, cfg.rsp.key ^ 1, cfg.rsp.root] {
        imps.push(Imp::Key(k));
        imps.push(Imp::Chain { root: 0x777, key: k });
        imps.push(Imp::Chain { root: cfg.req.root ^ 0x5000, key: cfg.rsp.key });
        imps.push(Imp::ChainLater { root: 0x777, key: k });
    }
    imps.extend([Imp::NoCert, Imp::OtherSlot, Imp::BadDh]);
    for p in [vec![], vec![0; PSK.len()], [PSK, &[0]].concat(), PSK[1..].to_vec(), [&[PSK[0] ^ 1], &PSK[1..]].concat()] {
        imps.push(Imp::Psk(p));
    }
    let ops = [Op::Chal(0, 0), Op::Chal(0, 0xff), Op::Meas(None, true, 1, 0), Op::Meas(None, true, 0xff, 0), Op::Ke(0, 0), Op::Ke(0, 0xff), Op::Psk(0), Op::Psk(0xff)];
    let able = |o: &Op| match o {
        Op::Ke(..) => can_ke(cfg),
        Op::Psk(..) => can_psk(cfg),
        _ => can_sign(n.ver),
    };
    let muts: Vec<u8> = if MUTAUTH { vec![0, 1, 2, 4] } else { vec![0] };
    for imp in &imps {
        for o in &ops {
            // signatures before 1.2 have no context
            if able(o) && target(imp, o) && !(n.ver < 0x12 && matches!(imp, Imp::Sig(1))) {
                // in a handshake that is not in the clear the finish response carries no proof of its own
                let ms: &[u8] = if matches!(o, Op::Ke(..)) { &muts } else { &[0] };
                for m in ms {
                    v.push((imp.clone(), o.clone(), *m));
                }
            }
        }
    }
    let step = c.pick(1, 1);
    for (tag, o) in [("ke", Op::Ke(0, 0xff)), ("finish", Op::Ke(0, 0)), ("psk", Op::Psk(0xff)), ("challenge", Op::Chal(0, 0xff))] {
        if !able(&o) || tag == "finish" && !n.clear() {
            continue;
        }
        for i in (0..700).step_by(step) {
            for x in c.pick(vec![1, 0x80, 0xff], vec![1, 2, 4, 8, 16, 32, 64, 128, 255]) {
                v.push((Imp::Flip(tag, i, x), o.clone(), 0));
            }
            v.push((Imp::Cut(tag, i), o.clone(), 0));
        }
        for x in [m_err(n.ver, 1, 0), m_err(n.ver, 5, 0), vec![n.ver, 0x65, 0, 0], vec![n.ver, 0x67, 0, 0], vec![n.ver, 0x64, 0, 0], vec![n.ver, 0x66, 0, 0], vec![], vec![n.ver], vec![0; 64]] {
            if n.ver >= 0x11 || tag == "challenge" {
                v.push((Imp::Instead(tag, x), o.clone(), 0));
            }
        }
    }
    // the finish responses of a secured handshake
    for (tag, o) in [("finish", Op::Ke(0, 0)), ("psk_finish", Op::Psk(0))] {
        if !able(&o) || tag == "finish" && n.clear() || tag == "psk_finish" && !n.psk_ctx() {
            continue;
        }
        for x in [m_err(n.ver, 1, 0), vec![n.ver, if tag == "finish" { 0x67 } else { 0x65 }, 0, 0], vec![n.ver, 0x64, 0, 0], vec![n.ver], vec![n.ver ^ 1, if tag == "finish" { 0x65 } else { 0x67 }, 0, 0], vec![0; 40]] {
            v.push((Imp::Instead(tag, x), o.clone(), 0));
        }
    }
    v
}
pub fn run(c: &Ctx) {
    let mut cfgs: Vec<(&str, Cfg)> = vec![("12", cfg_v(0x12, Tr::Mctp)), ("11", cfg_v(0x11, Tr::Mctp)), ("doe", cfg_v(0x12, Tr::Doe))];
    for (nm, v) in [("clear", 0x12), ("clear11", 0x11)] {
        let mut k = cfg_v(v, Tr::Mctp);
        k.req.caps |= rc::CLEAR;
        k.rsp.caps |= sc::CLEAR;
        cfgs.push((nm, k));
    }
    let mut k = cfg_v(0x12, Tr::Mctp);
    k.rsp.caps = k.rsp.caps & !sc::PSK_CTX | sc::PSK;
    cfgs.push(("psk1", k));
    for (n, cfg) in &cfgs {
        let mut opens: Vec<Vec<bool>> = vec![];
        for a in [false, true] {
            for b in [false, true] {
                if (can_ke(cfg) || (a && b)) && (can_psk(cfg) || !(a || b)) {
                    opens.push(vec![a, b]);
                }
            }
        }
        let deep = *n == "12" || *n == "clear";
        for (x, open) in opens.iter().enumerate() {
            let al = alphabet(2, !c.quick() || deep);
            let d = if deep { c.pick(3, 4) } else { c.pick(2, 3) };
            let tot = count_seqs(al.len(), d);
            c.par(&format!("rsp-{n}-{x}"), tot, |i, t| {
                let evs: Vec<E> = nth_seq(i, al.len(), d).iter().map(|k| al[*k]).collect();
                if !keep(cfg, &evs) {
                    return t.out("not on this transport");
                }
                t.desc = format!("{n} open {open:?} {evs:?}");
                rsp_case(cfg, open, &evs, t);
            });
            // every bit of the finish message, from someone who holds the handshake keys
            let al: Vec<E> = (0..2).flat_map(|i| (0..4u8).flat_map(move |b| (0..8).map(move |x| E::Fin(i, F::Header(b, 1 << x))))).collect();
            c.par(&format!("header-{n}-{x}"), al.len(), |i, t| {
                t.desc = format!("{n} open {open:?} {:?}", al[i]);
                rsp_case(cfg, open, &[al[i], E::App(0), E::Vendor(1)][..if cfg.tr == Tr::Doe { 1 } else { 3 }], t);
            });
        }
        let jobs = req_jobs(c, cfg);
        c.par(&format!("req-{n}"), jobs.len(), |i, t| {
            let (imp, op, m) = &jobs[i];
            req_case(cfg, imp, op, *m, t);
        });
    }
    // 1.0 has challenges and measurements only
    let cfg = cfg_v(0x10, Tr::Mctp);
    if can_sign(0x10) {
        let jobs = req_jobs(c, &cfg);
        c.par("req-10", jobs.len(), |i, t| {
            let (imp, op, m) = &jobs[i];
            req_case(&cfg, imp, op, *m, t);
        });
    }
}
