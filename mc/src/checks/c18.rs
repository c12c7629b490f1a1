//! Mutual authentication: whom the responder takes the requester for, and what the requester signs.
use crate::cert;
use crate::explore::*;
use crate::fake::{self, Actor, Kind};
use crate::faults::*;
use crate::model::*;
use crate::user::*;
use crate::world::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ch {
    /// the requester's own chain
    X,
    /// another acceptable chain, of another key
    Y,
    /// issued by a root the responder does not trust
    Foreign,
    /// names another root than it has
    RootHash,
    /// a certificate not signed by its issuer
    Broken,
    /// its own length is wrong
    Length,
}
const BAD_CH: [Ch; 4] = [Ch::Foreign, Ch::RootHash, Ch::Broken, Ch::Length];
const Y_KEY: u64 = 0x7777;
fn chain_of(n: &Neg, cfg: &Cfg, c: Ch) -> Vec<u8> {
    let wrap = |der: Vec<u8>| {
        let (b, e) = cert::split(&der).unwrap()[0];
        let mut v = ((4 + n.hs() + der.len()) as u16).to_le_bytes().to_vec();
        v.extend([0, 0]);
        v.extend(n.hash(&der[b..e]));
        v.extend(der);
        v
    };
    let x = wire_chain(n, &cfg.req, true, 0).unwrap();
    let der = x[4 + n.hs()..].to_vec();
    match c {
        Ch::X => x,
        Ch::Y => wrap(cert::chain(cfg.req.root, Y_KEY, 9, n.req_asym as u32, 700)),
        Ch::Foreign => wrap(cert::chain(0x4444, cfg.req.key, 3, n.req_asym as u32, 700)),
        Ch::RootHash => {
            let mut v = x;
            v[4] ^= 1;
            v
        }
        Ch::Broken => {
            let mut d = der;
            let k = d.len() - 1;
            d[k] ^= 1;
            wrap(d)
        }
        Ch::Length => {
            let mut v = x;
            v[0] ^= 1;
            v
        }
    }
}
fn key_of(cfg: &Cfg, c: Ch) -> u64 {
    if c == Ch::Y {
        Y_KEY
    } else {
        cfg.req.key
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum L {
    /// another session
    Ke,
    /// DIGESTS and all portions
    All(usize, Ch),
    Get(usize),
    Dig(usize),
    /// the first portion, the rest
    First(usize, Ch),
    Rest(usize, Ch),
    /// one deviation in the first (false) or last portion of the requester's chain
    Odd(usize, bool, u8),
    /// an encapsulated ERROR with this code
    Err(usize, u8),
    /// some other encapsulated message
    Raw(usize, u8),
}
const ODD: u8 = 5;
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fin {
    /// signed with the key of the chain
    Good(Ch),
    /// another slot in the header
    Slot,
    /// without a signature
    NoSig,
    Zero,
    /// the key of the one, the chain of the other
    Cross(Ch, Ch),
    /// the signing context of another message
    Context,
    /// without the chain in the transcript
    NoChain,
    /// one bit off
    Bit,
    /// the signature is right, the verify data is not
    Mac,
    /// flagged as without signature, which is there all the same
    Flag,
}
const FINS: [Fin; 12] =
    [Fin::Good(Ch::X), Fin::Good(Ch::Y), Fin::Good(Ch::Foreign), Fin::Slot, Fin::NoSig, Fin::Zero, Fin::Cross(Ch::X, Ch::Y), Fin::Cross(Ch::Y, Ch::X), Fin::Context, Fin::NoChain, Fin::Bit, Fin::Mac];
fn finish(m: &mut RefReq, cfg: &Cfg, i: usize, f: Fin) -> Vec<u8> {
    let n = m.n.clone();
    let (key, ch) = match f {
        Fin::Good(c) => (key_of(cfg, c), c),
        Fin::Cross(k, c) => (key_of(cfg, k), c),
        _ => (cfg.req.key, Ch::X),
    };
    let cm = n.hash(&chain_of(&n, cfg, ch));
    let s = &mut m.ss[i];
    s.cm = if f == Fin::NoChain { vec![] } else { cm };
    let sig = !matches!(f, Fin::NoSig | Fin::Flag);
    let mut q = vec![n.ver, 0xe5, sig as u8, if f == Fin::Slot { 1 } else { 0 }];
    s.f = q.clone();
    if f != Fin::NoSig {
        let ctx = if f == Fin::Context { CTX_KE } else { CTX_FIN };
        let mut v = n.sign(key, n.req_asym as u32, ctx, &s.th());
        match f {
            Fin::Zero => v.iter_mut().for_each(|b| *b = 0),
            Fin::Bit => *v.last_mut().unwrap() ^= 1,
            _ => (),
        }
        q.extend(v);
        s.f = q.clone();
    }
    let mut mac = n.hmac(&s.fin[0], &n.hash(&s.th()));
    if f == Fin::Mac {
        mac[0] ^= 1;
    }
    q.extend(mac);
    s.f = q.clone();
    q
}
fn state_of(sid: u32) -> Option<u8> {
    rsp(|r| sess_table(&r.common).iter().find(|x| x.0 == sid).map(|x| x.1))
}
/// what has to be true of the retrieval for the responder to accept it
#[derive(Default)]
struct Model {
    /// the bytes delivered since the last DIGESTS that was accepted
    got: Vec<u8>,
    /// per session, the chain it completed
    done: Vec<Option<Ch>>,
    last: Option<Ch>,
}
/// one letter of a hostile requester against the real responder
fn letter(m: &mut RefReq, cfg: &Cfg, md: &mut Model, l: L, t: &mut T) {
    let n = m.n.clone();
    let deliver = |m: &mut RefReq, md: &mut Model, i: usize, msg: &[u8], t: &mut T| {
        if i >= m.ss.len() || m.ss[i].dead {
            return false;
        }
        let mut q = vec![n.ver, 0xeb, 0, 0];
        q.extend(msg);
        t.steps += 1;
        let r = match m.secured(i, "encap", &q) {
            Ok(r) => r,
            Err(e) => {
                if e.contains("panic") {
                    t.fail("hostile/panic", e);
                }
                m.ss[i].dead = true;
                return false;
            }
        };
        if is_err(&r) {
            t.out(format!("encap refused {}", r[2]));
            return false;
        }
        if r.len() < 4 || r[..3] != [n.ver, 0x6b, 0] {
            t.fail("hostile/answer", format!("{l:?}: {:02x?}", &r[..r.len().min(8)]));
            return false;
        }
        t.out(format!("ack {}", r[3]));
        match msg[1] {
            1 => md.got.clear(),
            2 => {
                let len = u16::from_le_bytes([msg[4], msg[5]]) as usize;
                md.got.extend(&msg[8..8 + len]);
            }
            _ => (),
        }
        if r[3] == 2 {
            let c = [Ch::X, Ch::Y].into_iter().find(|c| chain_of(&n, cfg, *c) == md.got);
            t.check(c.is_some() && msg[1] == 2, "hostile/accepted", || format!("{l:?} completes {} bytes which are no acceptable chain", md.got.len()));
            t.check(msg[2] == 0, "hostile/slot", || format!("{l:?}"));
            md.done[i] = c;
            md.last = c;
        }
        true
    };
    match l {
        L::Ke => {
            if m.ss.len() < 3 {
                match m.ke_start(0, 0) {
                    Ok(_) => md.done.push(None),
                    Err(e) => t.fail("hostile/ke", e),
                }
            }
        }
        L::All(i, c) => {
            let ch = chain_of(&n, cfg, c);
            let mut ok = deliver(m, md, i, &m_digests(&n, &cfg.req, true), t);
            let mut off = 0;
            while ok && off < ch.len() {
                ok = deliver(m, md, i, &m_cert(n.ver, 0, &ch, off, 512), t);
                off += 512;
            }
        }
        L::Get(i) => {
            if i < m.ss.len() && !m.ss[i].dead {
                let r = m.secured(i, "get_encap", &[n.ver, 0xea, 0, 0]);
                m.ss[i].dead |= r.is_err();
            }
        }
        L::Dig(i) => {
            deliver(m, md, i, &m_digests(&n, &cfg.req, true), t);
        }
        L::First(i, c) => {
            deliver(m, md, i, &m_cert(n.ver, 0, &chain_of(&n, cfg, c), 0, 512), t);
        }
        L::Rest(i, c) => {
            let ch = chain_of(&n, cfg, c);
            deliver(m, md, i, &m_cert(n.ver, 0, &ch, 512, 512), t);
        }
        L::Odd(i, last, k) => {
            let ch = chain_of(&n, cfg, Ch::X);
            let mut v = m_cert(n.ver, 0, &ch, if last { 512 } else { 0 }, 512);
            match k {
                0 => v[2] = 1,
                // ends early, or goes on
                1 => v[6..8].copy_from_slice(if last { &[1, 0] } else { &[0, 0] }),
                // nothing
                2 => {
                    v.truncate(8);
                    v[4..8].copy_from_slice(&[0, 0, 1, 0]);
                }
                // nothing, and done
                3 => {
                    v.truncate(8);
                    v[4..8].copy_from_slice(&[0; 4]);
                }
                _ => v[0] = 0x19,
            }
            deliver(m, md, i, &v, t);
        }
        L::Err(i, c) => {
            deliver(m, md, i, &m_err(n.ver, c, 0), t);
        }
        L::Raw(i, k) => {
            let v = match k {
                0 => vec![n.ver, 3, 0, 0],
                1 => vec![n.ver, 1, 0, 0],
                _ => vec![n.ver],
            };
            if v.len() < 4 {
                if i < m.ss.len() && !m.ss[i].dead {
                    let r = m.secured(i, "encap", &[n.ver, 0xeb, 0, 0, n.ver]);
                    m.ss[i].dead |= r.is_err();
                }
            } else {
                deliver(m, md, i, &v, t);
            }
        }
    }
}
fn letters(two: bool, deep: bool) -> Vec<L> {
    let mut v = vec![];
    for i in 0..if two { 2 } else { 1 } {
        v.extend([L::All(i, Ch::X), L::All(i, Ch::Y), L::Dig(i), L::First(i, Ch::X), L::Rest(i, Ch::X), L::First(i, Ch::Y), L::Rest(i, Ch::Y), L::Get(i)]);
        if !two || deep {
            for c in BAD_CH {
                v.push(L::All(i, c));
            }
            for k in 0..ODD {
                v.push(L::Odd(i, false, k));
                v.push(L::Odd(i, true, k));
            }
            v.extend([L::Err(i, 0x42), L::Err(i, 3), L::Raw(i, 0), L::Raw(i, 1), L::Raw(i, 2)]);
        }
    }
    v.push(L::Ke);
    v
}
fn hostile(name: &str, cfg: &Cfg, seq: &[L], f: Fin, who: usize, two: bool, t: &mut T) {
    t.desc = format!("{name} {seq:?} then session {who} finish {f:?}");
    let w = World::new(cfg);
    let mut m = RefReq::new(cfg);
    if let Err(e) = m.init() {
        return t.fail("hostile/setup", e);
    }
    let mut md = Model::default();
    for _ in 0..if two { 2 } else { 1 } {
        match m.ke_start(0, 0) {
            Ok(_) => md.done.push(None),
            Err(e) => return t.fail("hostile/setup", e),
        }
    }
    for l in seq {
        letter(&mut m, cfg, &mut md, *l, t);
        for s in &m.ss {
            t.check(state_of(s.sid) != Some(2), "hostile/established", || format!("before FINISH, after {l:?}"));
        }
    }
    t.step(w.fp());
    if m.ss[who].dead {
        return t.out("dead".to_string());
    }
    // a FINISH in the clear is for the session of the last KEY_EXCHANGE
    let n = m.n.clone();
    let clear = n.clear();
    let to = if clear { m.ss.len() - 1 } else { who };
    let q = finish(&mut m, cfg, to, f);
    let sid = m.ss[to].sid;
    let r = if clear { m.clear("finish", &q) } else { m.secured(to, "finish", &q) };
    t.steps += 1;
    let est = state_of(sid) == Some(2);
    let have = md.done[to];
    let genuine = match f {
        Fin::Good(c) => have == Some(c),
        // the slot in FINISH is of no consequence: the responder asked for one
        Fin::Slot => have == Some(Ch::X),
        // 1.1 signs without a context
        Fin::Context => n.ver < 0x12 && have == Some(Ch::X),
        _ => false,
    };
    t.check(!est || genuine, "hostile/identity", || format!("session {to} is established by {f:?} although {have:?} was delivered in it"));
    t.check(est == matches!(&r, Ok(a) if a.len() >= 4 && a[1] == 0x65), "hostile/answer", || format!("established {est}, answer {r:?}"));
    if matches!(f, Fin::Good(_)) && genuine && md.last == have {
        t.check(est, "hostile/refused", || format!("{r:?}"));
    }
    for (i, s) in m.ss.iter().enumerate() {
        t.check(i == to || state_of(s.sid) != Some(2), "hostile/other", || format!("session {i} established"));
    }
    t.out(format!("established {est}"));
}

// ------------------------------------------------------------------ the requester against a responder that misbehaves
/// changes of a message of the encapsulated exchange
#[derive(Clone, Debug)]
enum X {
    Byte(usize, u8),
    Cut(usize),
    Add,
    None_,
    Error(u8),
    Ack(u8),
    Instead(Vec<u8>),
}
fn apply(x: &X, v: &mut Vec<u8>) {
    let ver = v[0];
    match x {
        X::Byte(i, b) => {
            if let Some(p) = v.get_mut(*i) {
                *p = *b;
            }
        }
        X::Cut(n) => v.truncate(*n),
        X::Add => v.push(0),
        X::None_ => v.clear(),
        X::Error(c) => *v = m_err(ver, *c, 0),
        X::Ack(k) => {
            let h = if ver >= 0x12 { 8 } else { 4 };
            let mut a = v[..h.min(v.len())].to_vec();
            a[3] = *k;
            if *k == 2 {
                a.push(0);
            }
            *v = a;
        }
        X::Instead(d) => {
            let h = if ver >= 0x12 { 8 } else { 4 };
            v.truncate(h);
            v[3] = 1;
            v.extend(d);
        }
    }
}
fn changes(ver: u8) -> Vec<X> {
    let mut v = vec![X::None_, X::Add, X::Ack(0), X::Ack(1), X::Ack(2), X::Ack(3)];
    for i in 0..16 {
        for b in [0u8, 1, 2, 3, 7, 8, 0x0f, 0x80, 0xff, 0x10, 0x11, 0x12, 0x6a, 0x6b, 0x81, 0x82] {
            v.push(X::Byte(i, b));
        }
    }
    for n in 1..17 {
        v.push(X::Cut(n));
    }
    for c in [1u8, 3, 4, 5, 6, 7, 0x42] {
        v.push(X::Error(c));
    }
    for d in [vec![ver, 0x81, 0, 0], vec![ver, 0x83, 0, 0], m_get_cert(ver, 0, 0, 512), m_get_cert(ver, 1, 0, 512), m_get_cert(ver, 0, 0xffff, 0xffff), m_get_cert(ver, 8, 0, 16), vec![0x19, 0x81, 0, 0], vec![0x19, 0x82, 0, 0, 0, 0, 0, 2], vec![]] {
        v.push(X::Instead(d));
    }
    v
}
/// the requester's session is established only if the responder's is, by a FINISH with the right signature
fn deviant(name: &str, cfg: &Cfg, mode: u8, tag: &'static str, occ: usize, x: &X, t: &mut T) {
    t.desc = format!("{name} mode {mode} {tag} #{occ} {x:?}");
    let mut r = RefRsp::new(cfg);
    r.mut_req = mode;
    r.strict = false;
    let mut left = occ as i64;
    let x2 = x.clone();
    r.tamper = Some(Box::new(move |g, v| {
        if g == tag {
            if left == 0 {
                apply(&x2, v);
            }
            left -= 1;
        }
    }));
    let (mut w, r) = r.world();
    let a = [w.op(&Op::Init), w.op(&Op::Cert(None, 0))];
    t.check(a.iter().all(|x| x.is_ok()), "deviant/setup", || format!("{a:?}"));
    let signs = fake::with(|e| e.signs.len());
    let o = w.op(&Op::Ke(0, 0));
    t.steps += 6;
    let signed = fake::with(|e| e.signs[signs..].len());
    let est: Vec<u32> = sess_table(&w.req.common).iter().filter(|x| x.1 == 2).map(|x| x.0).collect();
    let left = sess_table(&w.req.common).len();
    let b = r.borrow();
    let peer = b.ss.last().map(|s| (s.sid, s.established));
    let finished = b.bad.iter().all(|e| !e.contains("FINISH:") && !e.starts_with("FINISH "));
    t.check(o.is_ok() == !est.is_empty(), "deviant/outcome", || format!("{o:?} but sessions {est:?}"));
    if o.is_ok() {
        t.check(peer.map_or(false, |p| p.1 && est == [p.0]), "deviant/established", || format!("responder {peer:?}, requester {est:?}"));
        t.check(signed > 0 && (finished || b.bad.iter().any(|e| e.contains("complete"))), "deviant/unsigned", || format!("{:?}", b.bad));
    } else {
        t.check(left == 0, "deviant/left", || format!("{o:?} leaves {left} sessions"));
    }
    t.out(format!("{}", if o.is_ok() { "ok" } else { "refused" }));
    t.step(w.fp());
    drop(b);
    // the failure is of no consequence for the next attempt
    r.borrow_mut().tamper = None;
    let ok = [w.op(&Op::Init), w.op(&Op::Cert(None, 0)), w.op(&Op::Ke(0, 0))];
    t.check(ok.iter().all(|x| x.is_ok()), "deviant/next", || format!("{ok:?}"));
}
/// faults and failing callbacks in an honest exchange between two real parties
fn faulty(name: &str, cfg: &Cfg, f: F, t: &mut T) {
    t.desc = format!("{name} KEY_EXCHANGE{}", f.short());
    let mut w = World::new(cfg);
    let a = [w.op(&Op::Init), w.op(&Op::Cert(None, 0))];
    t.check(a.iter().all(|x| x.is_ok()), "faulty/setup", || format!("{a:?}"));
    let signs = fake::with(|e| e.signs.len());
    let o = op_fault(&mut w, &Op::Ke(0, 0), f);
    t.steps += 6;
    let req: Vec<u32> = sess_table(&w.req.common).iter().filter(|x| x.1 == 2).map(|x| x.0).collect();
    let peer: Vec<u32> = rsp(|r| sess_table(&r.common).iter().filter(|x| x.1 == 2).map(|x| x.0).collect());
    let n = fake::with(|e| e.signs[signs..].len());
    t.check(o.is_ok() == !req.is_empty(), "faulty/outcome", || format!("{o:?} {req:?}"));
    t.check(req.iter().all(|s| peer.contains(s)), "faulty/established", || format!("requester {req:?} responder {peer:?}"));
    // one by the responder, one by the requester
    t.check(peer.is_empty() || !MUTAUTH || n >= 2, "faulty/unsigned", || format!("{n} signatures"));
    t.step(w.fp());
    let ok = [w.op(&Op::Init), w.op(&Op::Cert(None, 0)), w.op(&Op::Ke(0, 0))];
    t.check(ok.iter().all(|x| x.is_ok()), "faulty/next", || format!("{ok:?}"));
    t.out(format!("{}", o.is_ok()));
}
fn configs(deep: bool) -> Vec<(String, Cfg)> {
    let mut v = vec![];
    for ver in [0x12u8, 0x11] {
        for tr in [Tr::Mctp, Tr::Doe] {
            if tr == Tr::Doe && !deep || !can_sign(ver) {
                continue;
            }
            let mut k = cfg_v(ver, tr);
            k.req.slots = vec![(0, 700)];
            let mut s = k.clone();
            clear_caps(&mut s, rc::CLEAR);
            v.push((format!("{ver:x} {tr:?} clear handshake"), k));
            v.push((format!("{ver:x} {tr:?} sealed handshake"), s));
        }
    }
    v
}
pub fn run(c: &Ctx) {
    let deep = !c.quick();
    let cfgs = configs(deep);
    if !MUTAUTH {
        return without(c, &cfgs);
    }
    // one session, everything
    let ls = letters(false, true);
    let depth = c.pick(3, 4);
    let mut list = vec![];
    for ci in 0..cfgs.len() {
        for k in 0..count_seqs(ls.len(), depth) {
            let q = nth_seq(k, ls.len(), depth);
            for (fi, f) in FINS.iter().enumerate() {
                // long sequences: the honest FINISH of each chain
                if q.len() > depth - 1 && !matches!(f, Fin::Good(Ch::X | Ch::Y)) && (!deep || (q.iter().sum::<usize>() + fi) % 8 != 0) {
                    continue;
                }
                list.push((ci, k, *f));
            }
        }
    }
    c.par("one", list.len(), |i, t| {
        let (ci, k, f) = list[i];
        let seq: Vec<L> = nth_seq(k, ls.len(), depth).iter().map(|x| ls[*x]).collect();
        hostile(&cfgs[ci].0, &cfgs[ci].1, &seq, f, 0, false, t);
    });
    let ls = letters(true, deep);
    let depth = c.pick(4, 4);
    let mut list = vec![];
    for ci in 0..cfgs.len() {
        for k in 0..count_seqs(ls.len(), depth) {
            let q = nth_seq(k, ls.len(), depth);
            for who in 0..2 {
                if cfgs[ci].0.contains("clear") && who == 0 {
                    continue;
                }
                for f in FINS {
                    let main = matches!(f, Fin::Good(Ch::X | Ch::Y));
                    if !main && q.len() > 2 || q.len() > 3 && ls.len() > 20 && (k + k / 29 + who) % 48 != 0 || q.len() > 3 && !deep && (k + k / 17 + who) % 6 != 0 {
                        continue;
                    }
                    list.push((ci, k, f, who));
                }
            }
        }
    }
    c.par("two", list.len(), |i, t| {
        let (ci, k, f, who) = list[i];
        let seq: Vec<L> = nth_seq(k, ls.len(), depth).iter().map(|x| ls[*x]).collect();
        hostile(&cfgs[ci].0, &cfgs[ci].1, &seq, f, who, true, t);
    });
    let mut list = vec![];
    for ci in 0..cfgs.len() {
        for mode in [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 0x80] {
            for (tag, n) in [("ke", 0), ("get_encap", 1), ("deliver", 4)] {
                for occ in 0..n {
                    for k in 0..changes(0x12).len() {
                        if [1, 2, 4].contains(&mode) {
                            list.push((ci, mode, tag, occ, k));
                        }
                    }
                }
            }
        }
    }
    c.par("deviant", list.len(), |i, t| {
        let (ci, mode, tag, occ, k) = list[i];
        let cfg = &cfgs[ci].1;
        deviant(&cfgs[ci].0, cfg, mode, tag, occ, &changes(common_ver(cfg))[k], t);
    });
    modes(c, &cfgs);
    let mut list = vec![];
    for ci in 0..cfgs.len() {
        for k in 0..16 {
            for f in [F::Lose(k), F::Corrupt(k), F::Dup(k), F::Error(k, 1), F::Error(k, 3), F::Error(k, 6)] {
                list.push((ci, f));
            }
        }
        use Kind::*;
        for k in [HashAll, HashInit, HashUpdate, HashFinal, HashDup, Hmac, HmacVerify, Encrypt, Decrypt, Verify, Extract, Expand, GetCert, VerifyChain, DheGen, DheFinal, Random, Sign, IoSend, IoRecv] {
            for n in 0..c.pick(24, 80) {
                for a in [Actor::Req, Actor::Rsp] {
                    list.push((ci, F::Call(a, k, n)));
                }
            }
        }
    }
    c.par("faulty", list.len(), |i, t| faulty(&cfgs[list[i].0].0, &cfgs[list[i].0].1, list[i].1, t));
}
/// what the requester makes of the modes of mutual authentication, and of a slot other than the first
fn modes(c: &Ctx, cfgs: &[(String, Cfg)]) {
    let mut list = vec![];
    for ci in 0..cfgs.len() {
        for mode in 0..=255u8 {
            list.push((ci, mode, true));
            if [1, 2, 4].contains(&mode) {
                list.push((ci, mode, false));
            }
        }
    }
    c.par("modes", list.len(), |i, t| {
        let (ci, mode, caps) = list[i];
        let mut cfg = cfgs[ci].1.clone();
        if !caps {
            clear_caps(&mut cfg, rc::MUT);
        }
        t.desc = format!("{} mode {mode} caps {caps}", cfgs[ci].0);
        let mut r = RefRsp::new(&cfg);
        r.mut_req = mode;
        r.strict = false;
        let (mut w, r) = r.world();
        let _ = (w.op(&Op::Init), w.op(&Op::Cert(None, 0)));
        let signs = fake::with(|e| e.signs.len());
        let o = w.op(&Op::Ke(0, 0));
        t.steps += 6;
        let n = fake::with(|e| e.signs[signs..].iter().filter(|_| true).count());
        let b = r.borrow();
        if !MUTAUTH {
            // nothing but a handshake without it
            t.check(o.is_ok() == (mode == 0), "modes/without", || format!("{o:?} {:?}", b.bad));
            t.check(sess_table(&w.req.common).len() == o.is_ok() as usize, "modes/left", || format!("{:?}", sess_table(&w.req.common)));
            return;
        }
        let want = mode == 0 || caps && [1, 2, 4].contains(&mode);
        t.check(o.is_ok() == want, "modes/outcome", || format!("{o:?} {:?}", b.bad));
        t.check(b.bad.is_empty() || !want, "modes/messages", || format!("{:?}", b.bad));
        t.check(!o.is_ok() || (n > 0) == (mode != 0), "modes/signature", || format!("{n}"));
        t.check(sess_table(&w.req.common).len() == o.is_ok() as usize, "modes/left", || format!("{:?}", sess_table(&w.req.common)));
        t.out(format!("{want}"));
    });
}
/// a build without mutual authentication never takes part in it
fn without(c: &Ctx, cfgs: &[(String, Cfg)]) {
    modes(c, cfgs);
    c.par("unasked", cfgs.len() * (FINS.len() + 8), |i, t| {
        let (ci, k) = (i % cfgs.len(), i / cfgs.len());
        let cfg = &cfgs[ci].1;
        t.desc = format!("{} {k}", cfgs[ci].0);
        let w = World::new(cfg);
        let mut m = RefReq::new(cfg);
        let s = match m.init().and_then(|_| m.ke_start(0, 0)) {
            Ok(s) => s,
            Err(e) => return t.fail("unasked/setup", e),
        };
        let n = m.n.clone();
        let sid = m.ss[s].sid;
        if k < FINS.len() {
            let q = finish(&mut m, cfg, s, FINS[k]);
            let r = if n.clear() { m.clear("finish", &q) } else { m.secured(s, "finish", &q) };
            t.check(state_of(sid) != Some(2), "unasked/finish", || format!("{:?} {r:?}", FINS[k]));
        } else {
            let k = k - FINS.len();
            let mut q = vec![n.ver, if k & 1 == 0 { 0xea } else { 0xeb }, 0, 0];
            if k & 1 == 1 {
                q.extend(if k & 2 == 0 { m_digests(&n, &cfg.req, true) } else { m_cert(n.ver, 0, &chain_of(&n, cfg, Ch::X), 0, 512) });
            }
            let r = if k & 4 == 0 { m.secured(s, "encap", &q) } else { m.clear("encap", &q) };
            t.check(!matches!(&r, Ok(a) if !is_err(a)), "unasked/encap", || format!("{r:02x?}"));
            if matches!(&r, Ok(a) if is_err(a)) {
                if let Err(e) = m.finish(s) {
                    t.fail("unasked/then", e);
                }
            }
        }
        t.step(w.fp());
        t.out("ok");
    });
}
