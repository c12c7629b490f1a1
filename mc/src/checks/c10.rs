//! Arbitrary bytes to the responder: every mutation of every request in every state, in the clear, inside a session
//! and at frame level.
use super::c03::{complete, legal_step, Spec, L};
use crate::explore::*;
use crate::model::*;
use crate::user::*;
use crate::world::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

// ---------------------------------------------------------------- mutations
/// the i-th mutation of a message of n bytes
#[derive(Clone, Copy, Debug)]
pub enum M {
    Cut(usize),
    Ext(usize, u8),
    Set(usize, u8),
    Xor(usize, u8),
    Add(usize, u8),
    Word(usize, u16),
}
impl M {
    pub fn apply(self, q: &[u8]) -> Option<Vec<u8>> {
        let mut v = q.to_vec();
        match self {
            M::Cut(n) => v.truncate(n),
            M::Ext(n, b) => v.extend(std::iter::repeat(b).take(n)),
            M::Set(i, b) => v[i] = b,
            M::Xor(i, b) => v[i] ^= b,
            M::Add(i, b) => v[i] = v[i].wrapping_add(b),
            M::Word(i, w) => v[i..i + 2].copy_from_slice(&w.to_le_bytes()),
        }
        if v == q {
            None
        } else {
            Some(v)
        }
    }
}
pub fn mutations(n: usize, deep: bool) -> Vec<M> {
    let mut v = vec![];
    v.extend((0..n).map(M::Cut));
    for k in [1, 2, 3, 4, 5, 15, 64, 512, 1024, 2048, 3900, 4000, 4040, 4064, 4080, 4087, 4088, 4096, 4159, 5000] {
        v.push(M::Ext(k, 0xff));
        if k < 65 {
            v.push(M::Ext(k, 0));
        }
    }
    for i in 0..n {
        let bulk = i >= 64;
        if deep && !bulk {
            v.extend((0..=255u8).map(|b| M::Set(i, b)));
        } else {
            v.extend([M::Xor(i, 1), M::Xor(i, 0x80)]);
            if !bulk || deep {
                v.extend([M::Set(i, 0), M::Set(i, 0xff), M::Set(i, 0x7f), M::Set(i, 1), M::Add(i, 1), M::Add(i, 255), M::Xor(i, 0x10)]);
            }
        }
        if i + 1 < n && (!bulk || deep) {
            v.extend([0xffff, 0x7fff, 0x1000, 0x0fff, 0x0400, 0x0100].map(|w| M::Word(i, w)));
        }
    }
    v
}

// ---------------------------------------------------------------- what the responder may answer
pub fn well_formed(n: &Neg, tr: Tr, req: Option<&[u8]>, r: &[u8], sealed: bool) -> Result<(), String> {
    let bad = |w: &str| Err(format!("{w}: {:02x?} (length {})", &r[..r.len().min(16)], r.len()));
    if r.len() < 4 {
        return bad("short response");
    }
    if ![0x10, 0x11, 0x12].contains(&r[0]) {
        return bad("response version");
    }
    if let Some(q) = req {
        if r[1] != 0x7f && (q.len() < 2 || r[1] != q[1] & 0x7f) {
            return bad("response code");
        }
    }
    let (hs, sig) = (n.hs(), n.sig());
    let w = |i: usize| r.get(i..i + 2).map(|x| u16::from_le_bytes([x[0], x[1]]) as usize);
    let mut len: Vec<usize> = vec![];
    match r[1] {
        0x7f => len.push(4),
        0x04 => len.extend(r.get(5).map(|k| 6 + 2 * *k as usize)),
        0x61 => len.extend([12, 20]),
        0x63 => len.extend(w(4)),
        0x01 => len.push(4 + hs * r[3].count_ones() as usize),
        0x02 => len.extend(w(4).map(|l| 8 + l)),
        0x03 => {
            for s in [0, hs] {
                let at = 4 + hs + 32 + s;
                len.extend(w(at).filter(|o| *o <= 1024).map(|o| at + 2 + o + sig));
            }
        }
        0x60 => {
            if let Some(x) = r.get(5..8) {
                let rl = u32::from_le_bytes([x[0], x[1], x[2], 0]) as usize;
                for nonce in [0, 32] {
                    let at = 8 + rl + nonce;
                    for s in [0, sig] {
                        len.extend(w(at).filter(|o| *o <= 1024).map(|o| at + 2 + o + s));
                    }
                }
            }
        }
        0x64 => {
            for s in [0, hs] {
                let at = 8 + 32 + n.dh().get_size() as usize + s;
                for mac in [0, hs] {
                    len.extend(w(at).filter(|o| *o <= 1024).map(|o| at + 2 + o + sig + mac));
                }
            }
        }
        0x65 => len.extend([4, 4 + hs]),
        0x66 => {
            if let (Some(c), Some(o)) = (w(8), w(10)) {
                for s in [0, hs] {
                    len.push(12 + s + c + o + hs);
                }
            }
        }
        0x67 | 0x68 | 0x69 | 0x6c => len.push(4),
        0x7e => {
            if let Some(vl) = r.get(6) {
                len.extend(w(7 + *vl as usize).map(|l| 9 + *vl as usize + l));
            }
        }
        0x6a | 0x6b => len.push(r.len().max(4)),
        _ => return bad("unknown response code"),
    }
    let pad = if tr == Tr::Doe && !sealed { 3 } else { 0 };
    if !len.iter().any(|l| r.len() >= *l && r.len() <= *l + pad && r[*l..].iter().all(|b| *b == 0)) {
        return bad(&format!("inconsistent response, expected length {len:?}"));
    }
    Ok(())
}
#[derive(PartialEq, Clone)]
pub struct St {
    nego: Vec<u8>,
    ss: BTreeMap<u32, Vec<u8>>,
}
pub fn st() -> St {
    rsp(|r| {
        let mut nego = nego(&r.common);
        nego.push(r.common.runtime_info.get_connection_state().get_u8());
        let mut ss = BTreeMap::new();
        for (id, s) in sess_table(&r.common) {
            let mut v = vec![s];
            if let Some(s) = r.common.get_session_via_id(id) {
                let (a, b) = s.export_keys();
                for k in [a, b] {
                    v.extend(k.encryption_key.as_ref());
                    v.extend(k.salt.as_ref());
                }
                v.extend([s.get_slot_id(), s.heartbeat_period]);
            }
            ss.insert(id, v);
        }
        St { nego, ss }
    })
}
#[derive(PartialEq, Clone, Copy, Debug)]
enum V {
    Refused,
    Served,
    /// the session it was for is gone or the answer was lost with it
    Killed,
}
/// hand over a frame and judge the answer; `sess`: the session it names; `req`: the message when it is one
fn judge(n: &Neg, tr: Tr, f: &[u8], sess: Option<&mut Sess>, req: Option<&[u8]>, may_kill: Option<u32>) -> Result<V, (String, String)> {
    let e = |k: &str, d: String| Err((k.to_string(), d));
    let b = st();
    let out = inject(f);
    if out.len() > 1 {
        return e("answers", format!("{} responses", out.len()));
    }
    let mut v = V::Refused;
    if let Some(o) = out.first() {
        match unframe(tr, o) {
            None => return e("frame", format!("{:02x?}", &o[..o.len().min(16)])),
            Some((false, p)) => {
                if let Err(d) = well_formed(n, tr, req, &p, false) {
                    return e("format", d);
                }
                if !is_err(&p) {
                    v = V::Served;
                }
            }
            Some((true, _)) => {
                let s = match sess {
                    None => return e("secured", "a secured answer to a message in the clear".into()),
                    Some(s) => s,
                };
                let mut got = s.clone().open(1, o);
                let mut upd = false;
                for m in 1..4 {
                    if got.is_err() && s.established {
                        let mut x = s.clone();
                        if m & 1 != 0 {
                            x.update(0);
                        }
                        if m & 2 != 0 {
                            x.update(1);
                        }
                        got = x.open(1, o);
                        upd = true;
                    }
                }
                match got {
                    Err(d) => return e("record", d),
                    Ok((true, _)) => {
                        if req.is_some() {
                            return e("app", "an application reply to an SPDM message".into());
                        }
                        v = V::Served;
                    }
                    Ok((false, p)) => {
                        if let Err(d) = well_formed(n, tr, req, &p, true) {
                            return e("format", d);
                        }
                        if !is_err(&p) {
                            v = V::Served;
                        }
                    }
                }
                if !upd {
                    s.keys(1).seq += 1;
                }
            }
        }
    }
    let a = st();
    if v == V::Refused && a != b {
        if a.nego != b.nego {
            return e("changed", "refused, but negotiated parameters or the connection state changed".into());
        }
        for (id, s) in &b.ss {
            if a.ss.get(id) != Some(s) && may_kill != Some(*id) {
                return e("changed", format!("refused, but session {id:x} changed"));
            }
        }
        if a.ss.keys().any(|k| !b.ss.contains_key(k)) {
            return e("changed", "refused, but a session appeared".into());
        }
        return Ok(V::Killed);
    }
    Ok(v)
}
/// a new connection works in full
fn fresh(cfg: &Cfg) -> Res<()> {
    let mut m = RefReq::new(cfg);
    m.half = 0x4000;
    m.init().map_err(|e| format!("connect: {e}"))?;
    if can_sign(m.n.ver) {
        m.challenge(0, 0)?;
    }
    if can_ke(cfg) {
        let i = m.ke(0, 0)?;
        m.vendor(Some(i), b"x")?;
        m.end(i)?;
    }
    if can_psk(cfg) {
        let i = m.psk(0)?;
        m.vendor(Some(i), b"x")?;
    }
    Ok(())
}
fn replay(cfg: &Cfg, h: &[L]) -> Res<(World, RefReq, Spec)> {
    let w = World::new(cfg);
    link(|l| l.horizon = usize::MAX);
    let mut m = RefReq::new(cfg);
    let mut s = Spec::default();
    for l in h {
        legal_step(&mut m, *l).map_err(|e| format!("{l:?}: {e}"))?;
        s.apply(*l, &m.n);
    }
    Ok((w, m, s))
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Layer {
    /// the SPDM message
    Msg,
    /// what is encrypted
    Plain,
    /// what is sent
    Frame,
}
/// the messages a letter sends: (tag, session, length per layer)
fn base(cfg: &Cfg, h: &[L], l: L) -> Vec<(String, bool, [usize; 3])> {
    let (w, mut m, _) = match replay(cfg, h) {
        Ok(x) => x,
        Err(e) => panic!("base: {h:?} {e}"),
    };
    let out = Rc::new(RefCell::new(vec![]));
    let o2 = out.clone();
    let tr = cfg.tr;
    m.before = Some(Box::new(move |tag, s, q| {
        let sec = s.is_some();
        let (pl, fl) = match &s {
            Some(s) => (2 + s.inner(q, false).len(), Sess::clone(s).seal(0, q, false).len()),
            None => (0, frame(tr, false, q).len()),
        };
        o2.borrow_mut().push((tag.to_string(), sec, [q.len(), pl, fl]));
    }));
    let r = legal_step(&mut m, l);
    drop(m);
    drop(w);
    if let Err(e) = r {
        panic!("base: {h:?} {l:?} {e}");
    }
    let v = out.borrow().clone();
    v
}
#[derive(Clone)]
struct Job {
    h: usize,
    l: L,
    k: usize,
    layer: Layer,
    n: usize,
    lo: usize,
    hi: usize,
}
#[derive(Default)]
struct Run {
    at: usize,
    stop: Option<V>,
    err: Option<(String, String, M)>,
    last: Option<M>,
    seen: usize,
}
fn case(cfg: &Cfg, h: &[L], j: &Job, deep: bool, t: &mut T) {
    let ms = mutations(j.n, deep);
    let ms: Vec<M> = ms[j.lo..j.hi.min(ms.len())].to_vec();
    t.desc = format!("{:?} then {:?}#{} {:?} with {:?}..{:?}", h, j.l, j.k, j.layer, ms[0], ms[ms.len() - 1]);
    let mut at = 0;
    let mut one = false;
    while at < ms.len() {
        let (w, mut m, mut s) = match replay(cfg, h) {
            Ok(x) => x,
            Err(e) => return t.fail("setup", e),
        };
        let run = Rc::new(RefCell::new(Run { at, ..Default::default() }));
        let (r2, n, tr, layer, k) = (run.clone(), m.n.clone(), cfg.tr, j.layer, j.k);
        let l = j.l;
        let start = at;
        let stop_at = if one { at + 1 } else { ms.len() };
        let all = ms.clone();
        let clear_fin = m.n.clear().then(|| s.last.map(|i| m.ss[i].sid)).flatten();
        m.before = Some(Box::new(move |_, mut sess, q| {
            let mut r = r2.borrow_mut();
            r.seen += 1;
            if r.seen != k + 1 {
                return;
            }
            while r.at < stop_at && r.stop.is_none() && r.err.is_none() {
                let mu = all[r.at];
                r.at += 1;
                let kill = match &sess {
                    Some(s) => Some(s.sid),
                    None if matches!(l, L::Finish(_)) => clear_fin,
                    None => None,
                };
                let (f, req): (Vec<u8>, Option<Vec<u8>>) = match (&mut sess, layer) {
                    (None, Layer::Frame) => match mu.apply(&frame(tr, false, q)) {
                        Some(f) => (f, None),
                        None => continue,
                    },
                    (None, _) => match mu.apply(q) {
                        Some(x) => (frame(tr, false, &x), Some(x)),
                        None => continue,
                    },
                    (Some(s), Layer::Msg) => match mu.apply(q) {
                        Some(x) if x.len() < 65000 => (s.seal(0, &x, false), Some(x)),
                        _ => continue,
                    },
                    (Some(s), Layer::Plain) => {
                        let p = s.inner(q, false);
                        let mut pt = (p.len() as u16).to_le_bytes().to_vec();
                        pt.extend(p);
                        match mu.apply(&pt) {
                            Some(x) => {
                                let f = frame(tr, true, &s.seal_pt(&s.clone().keys(0).clone(), &x));
                                s.keys(0).seq += 1;
                                (f, None)
                            }
                            None => continue,
                        }
                    }
                    (Some(s), Layer::Frame) => match mu.apply(&s.clone().seal(0, q, false)) {
                        Some(f) => (f, None),
                        None => continue,
                    },
                };
                r.last = Some(mu);
                // padding makes the message another one
                let req = if tr == Tr::Doe { None } else { req };
                match judge(&n, tr, &f, sess.as_deref_mut(), req.as_deref(), kill) {
                    Ok(V::Refused) if layer == Layer::Frame && sess.is_some() => r.stop = Some(V::Killed),
                    // longer than the receive buffer: like a lost one
                    Ok(V::Refused) if sess.is_some() && f.len() > spdmlib::config::RECEIVER_BUFFER_SIZE => r.stop = Some(V::Killed),
                    // what was decrypted may or may not have used up a number
                    Ok(V::Refused) if layer == Layer::Plain => r.stop = Some(V::Killed),
                    // a request of another kind may restart the transcript of CHALLENGE
                    Ok(V::Refused) if l == L::Chal && f.windows(2).take(10).any(|x| x[0] == q[0] && x[1] != q[1]) => r.stop = Some(V::Killed),
                    Ok(V::Refused) => {}
                    Ok(v) => r.stop = Some(v),
                    Err((k, d)) => r.err = Some((k, d, mu)),
                }
            }
        }));
        let r = legal_step(&mut m, j.l);
        m.before = None;
        let x = run.borrow();
        t.step(w.fp());
        t.steps += (x.at - start) as u64;
        let tag = format!("{:?}", j.l).split('(').next().unwrap().to_string();
        if let Some((k, d, mu)) = &x.err {
            t.fail(format!("{k}/{tag}/{:?}", j.layer), format!("{mu:?}: {d}"));
            return;
        }
        if x.stop.is_none() {
            // nothing was accepted: the request itself and everything after it works
            let encap = matches!(j.l, L::Encap(_));
            let res = r.and_then(|_| {
                s.apply(j.l, &m.n);
                complete(&mut m, &mut s)
            });
            match res {
                Ok(()) => t.out("refused"),
                Err(_) if encap => {}
                Err(e) => {
                    if one || x.at - start == 1 {
                        return t.fail(format!("later/{tag}/{:?}", j.layer), format!("{:?}: {e}", x.last));
                    }
                    one = true;
                    continue;
                }
            }
        } else {
            t.out(if x.stop == Some(V::Served) { "served" } else { "killed" });
        }
        if let Err(e) = fresh(cfg) {
            return t.fail(format!("fresh/{tag}/{:?}", j.layer), format!("{:?}: {e}", x.last));
        }
        at = x.at;
    }
    t.outcome = t.outcome.split('|').collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>().join("|");
}
fn states(cfg: &Cfg, deep: bool) -> Vec<Vec<L>> {
    let b = vec![L::Version, L::Caps, L::Algs];
    let n = expected_neg(cfg).unwrap();
    let mut v: Vec<Vec<L>> = vec![vec![], b[..1].to_vec(), b[..2].to_vec(), b.clone()];
    let with = |x: &[L]| [&b[..], x].concat();
    v.push(with(&[L::Digest, L::Cert]));
    if can_sign(n.ver) {
        v.push(with(&[L::Digest, L::Cert, L::Chal]));
    }
    if can_ke(cfg) {
        v.push(with(&[L::KeStart]));
        let mut e = vec![L::KeStart];
        if MUTAUTH {
            e.push(L::Encap(0));
            v.push(with(&e));
        }
        e.push(L::Finish(0));
        v.push(with(&e));
        let mut f = e.clone();
        f.push(L::SMeas(0));
        v.push(with(&f));
        if deep {
            f = e.clone();
            f.extend([L::Ku(0, 2), L::PskStart]);
            if can_psk(cfg) {
                v.push(with(&f));
            }
            f = e.clone();
            f.push(L::End(0));
            v.push(with(&f));
        }
    }
    if can_psk(cfg) {
        v.push(with(&[L::MeasN, L::PskStart]));
        let mut e = vec![L::PskStart];
        if n.psk_ctx() {
            e.push(L::PskFinish(0));
        }
        v.push(with(&e));
    }
    v
}
/// the configuration with some algorithm families missing, and with the capabilities that need them
pub fn partial(ver: u8, tr: Tr, mask: usize) -> Cfg {
    let mut k = cfg_v(ver, tr);
    let has = |b: usize| mask >> b & 1 != 0;
    if !has(0) {
        k.req.dhe = 0;
        k.req.caps &= !rc::KEX;
    }
    if !has(1) {
        k.req.aead = 0;
        k.req.caps &= !(rc::ENC | rc::MAC);
    }
    if !has(2) {
        k.req.req_asym = 0;
        k.req.caps &= !rc::MUT;
    }
    if !has(3) {
        k.req.ks = 0;
        k.req.caps &= !(rc::KEX | rc::PSK);
    }
    if !has(4) {
        k.req.meas_spec = 0;
        k.rsp.caps &= !(sc::MEAS_SIG | sc::MEAS_NOSIG | sc::FRESH);
    }
    if !has(5) {
        k.req.opaque = 0;
        k.req.caps &= !(rc::KEX | rc::PSK);
    }
    if !has(6) {
        k.rsp.meas_hash = 0;
        k.rsp.caps &= !(sc::MEAS_SIG | sc::MEAS_NOSIG | sc::FRESH);
    }
    // what only makes sense together
    if k.req.caps & (rc::ENC | rc::MAC) == 0 {
        k.req.caps &= !(rc::KEX | rc::PSK);
    }
    if k.req.caps & (rc::KEX | rc::PSK) == 0 {
        k.req.caps &= !(rc::ENC | rc::MAC | rc::HB | rc::KU | rc::CLEAR | rc::MUT | rc::ENCAP);
    }
    k
}
fn partials(c: &Ctx) {
    let full = cfg_v(0x12, Tr::Mctp);
    reset_thread();
    let mut msgs: Vec<Vec<u8>> = super::c12::collect(&full, false).into_iter().chain(super::c12::collect(&full, true)).map(|x| x.1).filter(|m| m[1] >= 0x80).collect();
    let mut seen = std::collections::BTreeSet::new();
    msgs.retain(|m| seen.insert((m[..4].to_vec(), m.len())) && m.len() < 1200);
    let vers = [0x12u8, 0x11, 0x10];
    // in order, and each one directly after negotiation
    c.par("partial", vers.len() * 2 * 128 * (msgs.len() + 1), |i, t| {
        let x = digits(i, &[msgs.len() + 1, 128, vers.len(), 2]);
        let cfg = partial(vers[x[2]], [Tr::Mctp, Tr::Doe][x[3]], x[1]);
        t.desc = format!("{:x} {:?} families {:07b} request {}", vers[x[2]], cfg.tr, x[1], x[0]);
        let _w = World::new(&cfg);
        let n = match expected_neg(&cfg) {
            None => return t.out("no-negotiation"),
            Some(n) => n,
        };
        // a responder that refuses the combination stays where it is
        let up = RefReq::new(&cfg).init().is_ok();
        let list: Vec<&Vec<u8>> = if x[0] < msgs.len() { vec![&msgs[x[0]]] } else { msgs.iter().collect() };
        for q in list {
            let mut q = q.clone();
            if q[1] != 0x84 {
                q[0] = n.ver;
            }
            t.steps += 1;
            let r = inject(&frame(cfg.tr, false, &q));
            t.check(r.len() <= 1, "partial/answers", || format!("{} answers to {:02x?}", r.len(), &q[..q.len().min(16)]));
            for f in r {
                match unframe(cfg.tr, &f) {
                    Some((false, p)) => {
                        if p.len() < 4 || p[1] != 0x7f && p[1] != q[1] & 0x7f {
                            t.fail("partial/answer", format!("{p:02x?} to {:02x?}", &q[..q.len().min(16)]));
                        }
                    }
                    _ => t.fail("partial/frame", format!("{f:02x?}")),
                }
            }
        }
        t.step(hash64(&[&x[1].to_le_bytes(), &[x[0] as u8, x[2] as u8]]));
        if !up {
            return t.out("refused");
        }
        let mut m = RefReq::new(&cfg);
        m.half = 0x4000;
        let r = m.init().and_then(|_| m.cert(None, 0, 512)).and_then(|_| if can_sign(m.n.ver) { m.challenge(0, 0) } else { Ok(()) });
        match r {
            Ok(()) => t.out("ok"),
            Err(e) => t.fail("fresh/partial", e),
        }
    });
}
pub fn run(c: &Ctx) {
    partials(c);
    let mut cfgs: Vec<(&str, Cfg)> = vec![("12", cfg_v(0x12, Tr::Mctp)), ("12doe", cfg_v(0x12, Tr::Doe)), ("11", cfg_v(0x11, Tr::Mctp)), ("10", cfg_v(0x10, Tr::Mctp))];
    let mut k = cfg_v(0x12, Tr::Mctp);
    k.req.caps |= rc::CLEAR;
    k.rsp.caps |= sc::CLEAR;
    cfgs.push(("12clear", k));
    let mut k = cfg_v(0x12, Tr::Mctp);
    k.rsp.caps = k.rsp.caps & !sc::PSK_CTX | sc::PSK;
    cfgs.push(("12psk", k));
    let deep = !c.quick();
    for (ci, (name, cfg)) in cfgs.iter().enumerate() {
        if c.quick() && ci > 2 {
            continue;
        }
        reset_thread();
        setup_env(cfg);
        let n = expected_neg(cfg).unwrap();
        let hs = states(cfg, deep);
        let mut jobs = vec![];
        for (h, hist) in hs.iter().enumerate() {
            let mut s = Spec::default();
            hist.iter().for_each(|l| s.apply(*l, &n));
            for l in s.legal(cfg, &n) {
                if matches!(l, L::App(_)) {
                    continue;
                }
                // what the clear requests do does not depend on more history in the quick tier
                let insession = matches!(l, L::Encap(_) | L::Finish(_) | L::PskFinish(_) | L::Hb(_) | L::Ku(..) | L::SMeas(_) | L::SDigest(_) | L::SCert(_) | L::SVendor(_) | L::End(_));
                if c.quick() && !insession && (hist.len() > 3 && ![4, 5].contains(&h) || ci > 0 && hist.len() == 5) {
                    continue;
                }
                for (k, (tag, sec, len)) in base(cfg, hist, l).into_iter().enumerate() {
                    if k > 2 || k > 0 && tag == "cert" {
                        continue;
                    }
                    for layer in [Layer::Msg, Layer::Plain, Layer::Frame] {
                        if layer == Layer::Plain && !sec || layer == Layer::Frame && c.quick() && ci > 1 {
                            continue;
                        }
                        let n = len[layer as usize];
                        // a certificate or a large payload
                        let n2 = n.min(if deep { 300 } else { 200 });
                        let tot = mutations(n2, deep).len();
                        let step = 48;
                        for lo in (0..tot).step_by(step) {
                            jobs.push(Job { h, l, k, layer, n: n2, lo, hi: lo + step });
                        }
                    }
                }
            }
        }
        c.par(&format!("mutate-{name}"), jobs.len(), |i, t| {
            let j = &jobs[i];
            case(cfg, &hs[j.h], j, deep, t);
        });
        // headers of every kind, with short and long bodies
        let vers: &[u8] = if deep { &[0x10, 0x11, 0x12, 0, 0x13, 0xff] } else { &[0x10, 0x11, 0x12] };
        let ps: &[u8] = if deep { &[0, 1, 2, 3, 0x7f, 0x80, 0xfe, 0xff] } else { &[0, 1, 0xff] };
        let bodies: &[(usize, u8)] = if deep { &[(0, 0), (1, 0), (4, 0xff), (64, 0), (64, 0xff), (600, 1)] } else { &[(0, 0), (64, 0), (64, 0xff)] };
        let mut jobs = vec![];
        for h in 0..hs.len() {
            for kind in 0..3 {
                // in the clear, in the first session, as application data there
                let live = hs[h].iter().any(|l| matches!(l, L::KeStart | L::PskStart)) && !hs[h].iter().any(|l| matches!(l, L::End(_)));
                if kind > 0 && !live || kind == 2 && cfg.tr == Tr::Doe {
                    continue;
                }
                for v in vers {
                    for code in (0..=255u8).step_by(4) {
                        jobs.push((h, kind, *v, code));
                    }
                }
            }
        }
        c.par(&format!("header-{name}"), jobs.len(), |i, t| {
            let (h, kind, v, c0) = jobs[i];
            t.desc = format!("{:?} then version {v:x} codes {c0:02x}.. {}", hs[h], ["clear", "secured", "application"][kind]);
            let mut all = vec![];
            for code in c0..=c0 + 3 {
                for p1 in ps {
                    for p2 in ps {
                        for (bl, bv) in bodies {
                            let mut q = vec![v, code, *p1, *p2];
                            q.extend(std::iter::repeat(*bv).take(*bl));
                            all.push(q);
                        }
                    }
                }
                for cut in 0..4 {
                    all.push([v, code, 0, 0][..cut].to_vec());
                }
            }
            let mut at = 0;
            while at < all.len() {
                let (w, mut m, mut s) = match replay(cfg, &hs[h]) {
                    Ok(x) => x,
                    Err(e) => return t.fail("setup", e),
                };
                let mut stop = false;
                let lastf = m.n.clear().then(|| s.last.map(|i| m.ss[i].sid)).flatten();
                let mut last = vec![];
                while at < all.len() && !stop {
                    let q = &all[at];
                    at += 1;
                    last = q.clone();
                    let n = m.n.clone();
                    let r = if kind == 0 {
                        judge(&n, cfg.tr, &frame(cfg.tr, false, q), None, if cfg.tr == Tr::Mctp { Some(q) } else { None }, if q.get(1) == Some(&0xe5) { lastf } else { None })
                    } else {
                        let f = m.ss[0].seal(0, q, kind == 2);
                        let sid = m.ss[0].sid;
                        judge(&n, cfg.tr, &f, Some(&mut m.ss[0]), if kind == 1 && cfg.tr == Tr::Mctp { Some(q) } else { None }, Some(sid))
                    };
                    t.steps += 1;
                    match r {
                        Ok(V::Refused) => {}
                        Ok(V::Served) if kind == 2 => {}
                        Ok(_) => stop = true,
                        Err((k, d)) => {
                            t.fail(format!("{k}/header"), format!("{q:02x?}: {d}"));
                            return;
                        }
                    }
                }
                t.step(w.fp());
                if !stop {
                    if let Err(e) = complete(&mut m, &mut s) {
                        return t.fail("later/header", format!("{:02x?}: {e}", &last[..last.len().min(8)]));
                    }
                }
                if let Err(e) = fresh(cfg) {
                    return t.fail("fresh/header", format!("{:02x?}: {e}", &last[..last.len().min(8)]));
                }
            }
            t.out("ok");
        });
        // frames of up to two (three) bytes, and every value of the first bytes of a long one
        let hsel: Vec<usize> = (0..hs.len()).filter(|h| deep || hs[*h].len() == 3 || hs[*h].contains(&L::Finish(0))).collect();
        let lens = 256 + if deep && ci < 2 { 256 } else { 0 };
        c.par(&format!("short-{name}"), hsel.len() * lens, |i, t| {
            let x = digits(i, &[lens, hsel.len()]);
            let hist = &hs[hsel[x[1]]];
            let (w, mut m, mut s) = match replay(cfg, hist) {
                Ok(x) => x,
                Err(e) => return t.fail("setup", e),
            };
            let a = (x[0] % 256) as u8;
            t.desc = format!("{hist:?} then short frames {a:02x}..");
            let mut fs: Vec<Vec<u8>> = vec![vec![], vec![a]];
            for b in 0..=255u8 {
                fs.push(vec![a, b]);
                if x[0] >= 256 {
                    for c in 0..=255u8 {
                        fs.push(vec![a, b, c]);
                    }
                }
                for (at, n) in [(0, 64), (1, 64), (2, 64), (4, 64), (8, 64)] {
                    let mut f = vec![b; n];
                    f[0] = if cfg.tr == Tr::Mctp { 5 } else { 1 };
                    f[at] = a;
                    if cfg.tr == Tr::Doe && at != 4 {
                        f[1] = 0;
                        f[2] = if b & 1 == 0 { 1 } else { 2 };
                        f[3] = 0;
                        f[4..8].copy_from_slice(&16u32.to_le_bytes());
                    }
                    fs.push(f);
                }
            }
            for f in &fs {
                t.steps += 1;
                match judge(&m.n.clone(), cfg.tr, f, None, None, None) {
                    Ok(V::Refused) => {}
                    Ok(v) => {
                        // only a request that is served
                        if let Err(e) = fresh(cfg) {
                            return t.fail("fresh/short", format!("{v:?} {:02x?}: {e}", &f[..f.len().min(12)]));
                        }
                        return t.out("served");
                    }
                    Err((k, d)) => return t.fail(format!("{k}/short"), format!("{:02x?}: {d}", &f[..f.len().min(12)])),
                }
            }
            t.step(w.fp());
            if let Err(e) = complete(&mut m, &mut s) {
                // which one was it?
                for f in &fs {
                    let (_w, mut m, mut s) = match replay(cfg, hist) {
                        Ok(x) => x,
                        Err(e) => return t.fail("setup", e),
                    };
                    let _ = inject(f);
                    if let Err(e) = complete(&mut m, &mut s) {
                        return t.fail("later/short", format!("{:02x?}: {e}", &f[..f.len().min(12)]));
                    }
                }
                return t.fail("later/short-many", e);
            }
            t.out("ok");
        });
    }
}
