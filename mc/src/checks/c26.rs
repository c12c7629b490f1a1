//! Error responses: what they do to the requester, and which ones the responder sends.
use super::c03::{complete, histories, legal_step, probes, rsp_state, Ph, Spec, L};
use super::c24::same_keys;
use crate::explore::*;
use crate::fake::{self, Actor, Kind};
use crate::model::*;
use crate::user::*;
use crate::world::*;

// ---------------------------------------------------------------- the requester receives errors
/// an ERROR message: code, data, extended data
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Er(pub u8, pub u8, pub Vec<u8>);
impl Er {
    fn msg(&self, ver: u8) -> Vec<u8> {
        let mut v = m_err(ver, self.0, self.1);
        v.extend(&self.2);
        v
    }
    /// the session in which it arrives is over
    fn ends(&self) -> bool {
        self.0 == 6 || self.0 == 0x43
    }
}
fn codes() -> Vec<Er> {
    let mut v: Vec<Er> = [0u8, 1, 3, 4, 5, 6, 7, 8, 9, 0xa, 0xb, 0xc, 0xd, 0xe, 0xf, 0x41, 0x43, 0x44, 0x80, 0xfe].iter().map(|c| Er(*c, 0, vec![])).collect();
    v.extend([Er(1, 0xff, vec![]), Er(5, 1, vec![]), Er(7, 0xe4, vec![]), Er(6, 1, vec![]), Er(0x42, 0, vec![]), Er(0x42, 0, vec![1, 0xe4, 0, 1]), Er(0x42, 3, vec![9, 0x81, 7, 2])]);
    v.extend([Er(0xff, 0, vec![]), Er(0xff, 3, vec![2, 0x86, 0x80, 1, 2, 3]), Er(0xd, 0, vec![0, 0x10, 0, 0]), Er(3, 0, vec![0; 32])]);
    v
}
fn few() -> Vec<Er> {
    vec![Er(1, 0, vec![]), Er(6, 0, vec![]), Er(0x43, 0, vec![]), Er(3, 0, vec![]), Er(0x42, 0, vec![1, 0xe4, 0, 1]), Er(0xff, 0, vec![])]
}
fn all_codes() -> Vec<Er> {
    (0..=255u8).flat_map(|c| [0u8, 1, 0xff].into_iter().map(move |d| Er(c, d, vec![]))).collect()
}
/// how many requests each operation sends
fn counts(cfg: &Cfg, ops: &[Op]) -> Vec<usize> {
    reset_thread();
    let (mut w, m) = RefRsp::new(cfg).world();
    let mut v = vec![];
    let mut was = 0;
    for o in ops {
        let r = w.op(o);
        assert!(r.is_ok(), "{} {:?} {:?}", o.short(), r, m.borrow().bad);
        let n = m.borrow().served.len();
        v.push(if matches!(o, Op::App(..)) { 0 } else { n - was });
        was = n;
    }
    v
}
fn of_session(o: &Op) -> Option<usize> {
    match o {
        Op::Digest(s) | Op::Cert(s, _) | Op::Meas(s, ..) | Op::Vendor(s, _) => *s,
        Op::Hb(h) | Op::Ku(h, _) | Op::App(h, _) | Op::End(h) => Some(*h),
        _ => None,
    }
}
type M = std::rc::Rc<std::cell::RefCell<RefRsp>>;
/// refuse the k-th request of the next operation
fn arm(m: &M, k: usize, e: Er) -> std::rc::Rc<std::cell::RefCell<Option<String>>> {
    let hit = std::rc::Rc::new(std::cell::RefCell::new(None));
    let (h2, mut left) = (hit.clone(), k as i64);
    m.borrow_mut().refuse = Some(Box::new(move |tag, n| {
        left -= 1;
        if left == -1 {
            *h2.borrow_mut() = Some(tag.to_string());
            Some(e.msg(if n.ver == 0 || tag == "version" { 0x10 } else { n.ver }))
        } else {
            None
        }
    }));
    hit
}
/// an operation that must succeed
fn good(w: &mut World, m: &M, cfg: &Cfg, o: &Op, what: &str, t: &mut T) -> bool {
    let r = w.op(o);
    t.step(w.fp());
    if let Some(b) = m.borrow().bad.first() {
        t.fail(format!("{what}/requester/{}", op_kind(o)), format!("{}: {b}", o.short()));
        return false;
    }
    match r {
        Err(e) => {
            t.fail(format!("{what}/refused/{}", op_kind(o)), format!("{} failed: {:x?}", o.short(), e.status_code));
            return false;
        }
        Ok(x) => {
            if let Some(e) = expect_value(cfg, o) {
                if x != e {
                    t.fail(format!("{what}/value/{}", op_kind(o)), format!("{}: {x:x?}, expected {e:x?}", o.short()));
                    return false;
                }
            }
        }
    }
    if let Err(e) = same_keys(&mut w.req.common, &m.borrow().ss) {
        t.fail(format!("{what}/keys/{}", op_kind(o)), format!("after {}: {e}", o.short()));
        return false;
    }
    true
}
/// the operation, refused at its k-th request; false: give up
fn refused(w: &mut World, m: &M, o: &Op, k: usize, e: &Er, dead: &mut Vec<usize>, t: &mut T) -> bool {
    let before = (nego(&w.req.common), sess_table(&w.req.common));
    let hit = arm(m, k, e.clone());
    let r = w.op(o);
    m.borrow_mut().refuse = None;
    t.step(w.fp());
    let kind = op_kind(o);
    let Some(tag) = hit.borrow().clone() else {
        t.fail(format!("error/messages/{kind}"), format!("request {k} of {} was not sent: {r:?} {:?}", o.short(), m.borrow().bad));
        return false;
    };
    if let Some(b) = m.borrow().bad.first() {
        t.fail(format!("error/requester/{kind}"), format!("{}: {b}", o.short()));
        return false;
    }
    t.out(format!("{kind}/{tag}/{:02x}", e.0));
    if r.is_ok() {
        t.fail(format!("error/succeeds/{kind}/{tag}"), format!("{r:?} although the responder answered {e:?}"));
        return false;
    }
    let after = sess_table(&w.req.common);
    let mut want = before.1.clone();
    if let Some(h) = of_session(o) {
        let sid = w.sids[h];
        if e.ends() {
            want.retain(|x| x.0 != sid);
            dead.push(h);
            m.borrow_mut().ss.retain(|s| s.sid != sid);
        } else if (matches!(o, Op::Ku(..)) && k > 0 || matches!(o, Op::Ku(_, 2))) && after.iter().all(|x| x.0 != sid) {
            // the refusal itself is not readable with the new keys, or they could not be verified
            want.retain(|x| x.0 != sid);
            dead.push(h);
            m.borrow_mut().ss.retain(|s| s.sid != sid);
        }
    }
    if matches!(o, Op::Init) {
        // what is left of the sessions of the connection that was given up does not matter
        return true;
    }
    if matches!(o, Op::Ke(..) | Op::Psk(_)) {
        // the responder forgets the half-done session
        m.borrow_mut().ss.retain(|s| before.1.iter().any(|b| b.0 == s.sid));
    }
    if after != want {
        t.fail(format!("error/sessions/{kind}/{tag}"), format!("{e:?}: {:x?} -> {after:x?}, expected {want:x?}", before.1));
        return false;
    }
    if !matches!(o, Op::Version | Op::Caps | Op::Algs) {
        let n = nego(&w.req.common);
        if n != before.0 {
            t.fail(format!("error/negotiated/{kind}/{tag}"), format!("{:02x?} -> {n:02x?}", before.0));
            return false;
        }
    }
    true
}
/// ops[j] is refused at its k-th request by each of `es` in turn, then retried; then the history goes on
fn history(cfg: &Cfg, ops: &[Op], js: &[(usize, usize)], es: &[Er], probe_first: bool, t: &mut T) {
    let (mut w, m) = RefRsp::new(cfg).world();
    let mut dead = vec![];
    let mut u = User::default();
    for (i, o) in ops.iter().enumerate() {
        if of_session(o).map_or(false, |h| dead.contains(&h)) {
            continue;
        }
        if let Some((_, k)) = js.iter().find(|x| x.0 == i) {
            for e in es {
                if of_session(o).map_or(false, |h| dead.contains(&h)) {
                    break;
                }
                if !refused(&mut w, &m, o, *k, e, &mut dead, t) {
                    return;
                }
            }
            u.live.retain(|h| !dead.contains(h));
            if probe_first && !matches!(o, Op::Init | Op::Version | Op::Caps | Op::Algs) && !probes_ok(&mut w, &m, cfg, &u, t) {
                return;
            }
            if of_session(o).map_or(false, |h| dead.contains(&h)) {
                continue;
            }
            if !good(&mut w, &m, cfg, o, "retry", t) {
                return;
            }
        } else if !good(&mut w, &m, cfg, o, "later", t) {
            return;
        }
        u.apply(o);
        u.live.retain(|h| !dead.contains(h));
    }
    probes_ok(&mut w, &m, cfg, &u, t);
}
/// every session and the connection work
fn probes_ok(w: &mut World, m: &M, cfg: &Cfg, u: &User, t: &mut T) -> bool {
    let mut ops: Vec<Op> = vec![];
    for h in &u.live {
        ops.push(Op::Vendor(Some(*h), b"probe".to_vec()));
        if cfg.req.caps & cfg.rsp.caps & rc::HB != 0 {
            ops.push(Op::Hb(*h));
        }
        if cfg.tr == Tr::Mctp {
            ops.push(Op::App(*h, b"probe".to_vec()));
        }
    }
    if u.conn {
        ops.push(Op::Vendor(None, b"probe".to_vec()));
    }
    ops.iter().all(|o| good(w, m, cfg, o, "probe", t))
}
/// what it is all about: every operation once, with a transcript to lose in front of it
fn table(cfg: &Cfg) -> Vec<(Vec<Op>, usize)> {
    let ver = common_ver(cfg);
    let meas = cfg.rsp.caps & (sc::MEAS_NOSIG | sc::MEAS_SIG) != 0;
    let cert = cfg.rsp.caps & sc::CERT != 0;
    let mut setup = vec![Op::Init];
    if cert {
        setup.extend([Op::Digest(None), Op::Cert(None, 0)]);
    }
    let mut v = vec![(vec![Op::Init], 0)];
    v.extend((0..3).map(|j| (vec![Op::Version, Op::Caps, Op::Algs], j)));
    let mut one = |pre: &[Op], o: Op, post: &[Op]| {
        let mut q = pre.to_vec();
        q.push(o);
        q.extend(post.to_vec());
        v.push((q, pre.len()));
    };
    let sign = can_sign(ver) && cert;
    let msig = sign && cfg.rsp.caps & sc::MEAS_SIG != 0;
    let mut tail = vec![];
    if sign && cfg.rsp.caps & sc::CHAL != 0 {
        tail.push(Op::Chal(0, if meas { 0xff } else { 0 }));
    }
    if msig {
        tail.push(Op::Meas(None, true, 1, 0));
    }
    if cert {
        one(&setup[..1], Op::Digest(None), &[&[Op::Cert(None, 0)], &tail[..]].concat());
        one(&setup[..2], Op::Cert(None, 0), &tail);
        one(&setup[..3], Op::Cert(None, 0), &tail);
    }
    if sign && cfg.rsp.caps & sc::CHAL != 0 {
        one(&setup, Op::Chal(0, if meas { 0xff } else { 0 }), &tail);
    }
    let m1 = [setup.clone(), vec![Op::Meas(None, false, 1, 0)]].concat();
    if meas {
        one(&m1, Op::Meas(None, false, 2, 0), &tail);
        if msig {
            one(&m1, Op::Meas(None, true, 2, 0), &tail);
        }
    }
    one(&setup, Op::Vendor(None, b"v".to_vec()), &tail);
    let all = if meas { 0xff } else { 0 };
    let mut starts = vec![];
    if can_ke(cfg) {
        one(&setup, Op::Ke(0, all), &tail);
        starts.push([setup.clone(), vec![Op::Ke(0, 0)]].concat());
    }
    if can_psk(cfg) {
        one(&setup, Op::Psk(all), &tail);
        starts.push([setup.clone(), vec![Op::Psk(0)]].concat());
    }
    if can_ke(cfg) && can_psk(cfg) {
        starts.push([setup.clone(), vec![Op::Ke(0, 0), Op::Psk(0)]].concat());
    }
    for s in starts {
        let last = s.len() - 1 - setup.len();
        let mut st = vec![];
        if msig {
            st.push(Op::Meas(Some(last), true, 1, 0));
        }
        if can_ke(cfg) {
            one(&s, Op::Ke(0, 0), &st);
        }
        if can_psk(cfg) {
            one(&s, Op::Psk(0), &st);
        }
        for h in 0..=last {
            let h = Some(h);
            if meas {
                let m1 = [s.clone(), vec![Op::Meas(h, false, 1, 0)]].concat();
                one(&m1, Op::Meas(h, false, 0xff, 0), &st);
                if msig {
                    one(&m1, Op::Meas(h, true, 2, 0), &st);
                    one(&m1, Op::Meas(None, true, 2, 0), &st);
                }
            }
            if cert {
                one(&s, Op::Digest(h), &st);
                one(&s, Op::Cert(h, 0), &st);
            }
            one(&s, Op::Vendor(h, b"v".to_vec()), &st);
            let h = h.unwrap();
            if cfg.req.caps & cfg.rsp.caps & rc::HB != 0 {
                one(&s, Op::Hb(h), &st);
            }
            if cfg.req.caps & cfg.rsp.caps & rc::KU != 0 {
                one(&s, Op::Ku(h, 1), &st);
                one(&s, Op::Ku(h, 2), &st);
            }
            one(&s, Op::End(h), &[]);
        }
    }
    v
}
// ---------------------------------------------------------------- the responder sends errors
#[derive(Clone, Debug)]
enum Q {
    /// a version that is not the negotiated one
    Ver(u8),
    /// a truncated request
    Cut(usize),
    /// a callback that fails
    Fail(Kind, usize),
}
/// the exact ERROR
fn is(n: &Neg, conn: u8, a: &[u8], codes: &[u8], data: u8) -> Result<(), String> {
    let ver = if conn < 2 { 0x10 } else { n.ver };
    if a.len() == 4 && a[0] == ver && a[1] == 0x7f && codes.contains(&a[2]) && a[3] == data {
        Ok(())
    } else {
        Err(format!("answer {:02x?}, expected ERROR {codes:02x?} with data {data:02x} of version {ver:02x}", &a[..a.len().min(16)]))
    }
}
fn reach(cfg: &Cfg, h: &[L]) -> (World, RefReq, Spec) {
    let w = World::new(cfg);
    let mut m = RefReq::new(cfg);
    let mut s = Spec::default();
    for l in h {
        let r = legal_step(&mut m, *l);
        assert!(r.is_ok(), "{l:?} of {h:?}: {r:?}");
        s.apply(*l, &m.n);
    }
    (w, m, s)
}
fn strip(cfg: &Cfg, sec: bool, a: &[u8]) -> Vec<u8> {
    // over DOE a message is padded to a multiple of four bytes: an ERROR needs none
    let _ = (cfg, sec);
    a.to_vec()
}
/// requests sent by a letter
fn sends(cfg: &Cfg, h: &[L], l: L) -> Vec<(String, usize)> {
    let (_w, mut m, _) = reach(cfg, h);
    let log = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let l2 = log.clone();
    m.tamper = Some(Box::new(move |t, q| l2.borrow_mut().push((t.to_string(), q.len()))));
    let _ = legal_step(&mut m, l);
    let v = log.borrow().clone();
    v
}
fn lname(l: L) -> String {
    format!("{l:?}").split('(').next().unwrap().to_string()
}
/// the k-th request of the letter is refused because of q
fn answer(cfg: &Cfg, h: &[L], l: L, k: usize, q: &Q, t: &mut T) {
    let (w, mut m, mut s) = reach(cfg, h);
    let conn = std::rc::Rc::new(std::cell::Cell::new(s.conn));
    t.steps += h.len() as u64;
    let q2 = q.clone();
    let mut left = k as i64;
    let hit = std::rc::Rc::new(std::cell::Cell::new(false));
    let h2 = hit.clone();
    let before = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let b2 = before.clone();
    m.tamper = Some(Box::new(move |_, x| {
        left -= 1;
        if left != -1 {
            return;
        }
        h2.set(true);
        *b2.borrow_mut() = rsp_state();
        match &q2 {
            Q::Ver(v) => x[0] = *v,
            Q::Cut(n) => x.truncate(*n),
            Q::Fail(k, n) => fake::with(|e| e.fail_nth = Some((Actor::Rsp, *k, *n))),
        }
    }));
    m.answer.clear();
    let r = legal_step(&mut m, l);
    let failed = fake::with(|e| {
        e.fail_nth = None;
        std::mem::replace(&mut e.failed, 0) > 0
    });
    m.tamper = None;
    t.step(w.fp());
    let kind = lname(l);
    if !hit.get() || (matches!(q, Q::Fail(..)) && !failed) {
        return t.out("not reached");
    }
    if matches!(q, Q::Fail(..)) && r.is_ok() {
        return t.out("does not matter");
    }
    let a = strip(cfg, false, &m.answer);
    let want: (&[u8], u8) = match q {
        // no such version ever existed
        Q::Ver(v) if *v < 0x10 && l == L::Caps => (&[0x41, 1], 0),
        Q::Ver(_) => (&[0x41], 0),
        // an encapsulated response that is not one
        Q::Cut(_) if kind == "Encap" => (&[1, 9], 0),
        Q::Fail(..) if kind == "Encap" => (&[5, 9], 0),
        Q::Cut(_) => (&[1], 0),
        // a chain whose digest is not available is not one that can be used
        // a device that gives nothing for an index may not have it
        Q::Fail(Kind::Measure, _) if kind.contains("Meas") => (&[1, 5], 0),
        Q::Fail(Kind::HashAll, _) => (if kind.ends_with("Finish") { &[1, 4, 5, 6] } else { &[1, 4, 5] }, 0),
        Q::Fail(Kind::Verify | Kind::HmacVerify, _) if kind.ends_with("Finish") => (&[6], 0),
        Q::Fail(..) if kind.ends_with("Finish") => (&[5, 6], 0),
        Q::Fail(..) => (&[5], 0),
    };
    if let Err(e) = is(&m.n, conn.get(), &a, want.0, want.1) {
        return t.fail(format!("answer/{kind}/{}", format!("{q:?}").split('(').next().unwrap()), format!("{e}; {r:?}"));
    }
    t.out(format!("{kind} {:02x}", a[2]));
    if !matches!(q, Q::Fail(..)) && l != L::Encap(0) && !kind.ends_with("Finish") {
        let now = rsp_state();
        if now != *before.borrow() {
            return t.fail(format!("answer-state/{kind}"), format!("{:02x?} -> {now:02x?}", before.borrow()));
        }
    }
    // nothing is half done
    if matches!(q, Q::Fail(..)) || kind.ends_with("Finish") || kind == "Encap" || kind.starts_with("Meas") || kind == "Chal" || kind == "SMeas" {
        return;
    }
    match legal_step(&mut m, l) {
        Ok(()) => s.apply(l, &m.n),
        Err(e) => return t.fail(format!("answer-retry/{kind}"), e),
    }
    if let Err(e) = complete(&mut m, &mut s) {
        t.fail(format!("answer-later/{kind}"), e);
    }
}
/// a request out of place
fn misplaced(cfg: &Cfg, h: &[L], i: usize, t: &mut T) {
    let (w, mut m, s) = reach(cfg, h);
    t.steps += h.len() as u64;
    let all = probes(&m, &s);
    let p = all[i].clone();
    t.desc = format!("{} | {}", t.desc, p.name);
    let (q0, code) = (p.msg[0], p.msg[1]);
    let dead = p.sess.map_or(false, |i| m.ss[i].dead);
    // a session whose handshake is in the clear carries nothing yet
    let mute = m.n.clear() && p.sess.map_or(false, |i| matches!(s.ss[i], Ph::Hand { psk: false, .. }));
    // requests outside the ones this responder knows, or that exist only in a session
    let mute = mute || !(0x81..=0x84).contains(&code) && ![0xe0, 0xe1, 0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xec, 0xfe, 0xff].contains(&code);
    let r = m.any(p.sess, "probe", &p.msg);
    t.step(w.fp());
    let a = strip(cfg, p.sess.is_some(), &m.answer);
    if dead {
        return t.check(a.is_empty(), "misplaced/dead", || format!("{a:02x?}"));
    }
    let ver = if s.conn < 2 { 0 } else { m.n.ver };
    let (codes, data): (&[u8], u8) = match code {
        // its version may be wrong only after the check that it is in place
        _ if q0 != ver && s.conn >= 2 => (&[0x41, 4], 0),
        0xff => (&[7, 0x41], 0),
        0xe8 | 0xe9 | 0xec if p.sess.is_none() => (&[4, 0xb, 0x41], 0),
        // the wrong way to finish a handshake
        0xe5 | 0xe7 if p.sess.is_some() => (&[1, 4], 0),
        0xe4 | 0xe6 if m.n.ver == 0x10 => (&[4, 7], 0),
        _ => (&[4, 0x41], 0),
    };
    match r {
        Ok(_) => {
            let data = if a.len() == 4 && a[2] == 7 { code } else { data };
            if let Err(e) = is(&m.n, s.conn, &a, codes, data) {
                t.fail(format!("misplaced/{}", p.name.split(' ').next().unwrap()), format!("{}: {e}", p.name));
            } else {
                t.out(format!("{} {:02x}", p.name.split(' ').next().unwrap(), a[2]));
            }
        }
        Err(_) if mute && a.is_empty() => t.out("none"),
        Err(e) => t.fail(format!("misplaced/none/{}", p.name.split(' ').next().unwrap()), format!("{}: {e}", p.name)),
    }
}
/// every request code there is, as a bare header
fn code(cfg: &Cfg, h: &[L], s: Option<usize>, code: u8, t: &mut T) {
    let (w, mut m, sp) = reach(cfg, h);
    t.steps += h.len() as u64;
    let before = rsp_state();
    let v = if sp.conn < 2 { 0x10 } else { m.n.ver };
    let q = [v, code, 0, 0];
    let r = m.any(s, "code", &q);
    t.step(w.fp());
    let mute = m.n.clear() && s.map_or(false, |i| matches!(sp.ss[i], Ph::Hand { psk: false, .. }));
    let hand = MUTAUTH && s.map_or(false, |i| matches!(sp.ss[i], Ph::Hand { psk: false, .. }));
    let known = hand && [0xea, 0xeb].contains(&code) || !mute && ((0x81..=0x84).contains(&code) || [0xe0, 0xe1, 0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xec, 0xfe, 0xff].contains(&code));
    if !known {
        // not served; whether it is answered is up to the responder
        let a = m.answer.clone();
        if !a.is_empty() {
            if let Err(e) = is(&m.n, sp.conn, &a, &[7, 1, 4, 9], a[3]) {
                return t.fail("code/unknown", e);
            }
            t.check(a[2] != 7 || a[3] == code, "code/data", || format!("{a:02x?}"));
        }
        t.check(rsp_state() == before, "code/state", || format!("{code:02x}"));
        t.out(format!("unknown {}", a.len()));
        return;
    }
    if code == 0xff {
        match &r {
            Err(e) => t.fail("code/respond-if-ready", e.clone()),
            Ok(a) => {
                let x = is(&m.n, sp.conn, a, &[7], 0xff).or_else(|e| if sp.conn < 2 { is(&m.n, sp.conn, a, &[0x41], 0) } else { Err(e) });
                t.check(x.is_ok(), "code/respond-if-ready", || format!("{x:?}"));
            }
        }
        t.check(rsp_state() == before, "code/state", || format!("{code:02x}"));
        return;
    }
    match r {
        Ok(a) if is_err(&a) => {
            if let Err(e) = is(&m.n, sp.conn, &a, if code == 0xeb { &[1, 4, 9] } else { &[1, 4, 7, 0x41] }, a[3]) {
                return t.fail(format!("code/{code:02x}"), e);
            }
            t.check(if a[2] == 7 { a[3] == code } else { a[3] == 0 }, "code/data", || format!("{a:02x?}"));
            t.out(format!("{code:02x} {:02x}", a[2]));
        }
        Ok(a) => t.check(a[1] == code & 0x7f, "code/served", || format!("{code:02x}: {a:02x?}")),
        // served, and the keys are other ones now
        Err(_) if code == 0xe9 || code == 0x84 => {}
        Err(e) => t.fail(format!("code/none/{code:02x}"), e),
    }
}
/// session table full
fn full(cfg: &Cfg, psk: bool, t: &mut T) {
    let mut h = vec![L::Version, L::Caps, L::Algs];
    let n = 4;
    for i in 0..n {
        if can_psk(cfg) && (i % 2 == 0 || !can_ke(cfg)) {
            h.push(L::PskStart);
        } else {
            h.push(L::KeStart);
        }
    }
    let (w, mut m, s) = reach(cfg, &h);
    let before = rsp_state();
    m.answer.clear();
    let r = legal_step(&mut m, if psk { L::PskStart } else { L::KeStart });
    t.step(w.fp());
    t.check(r.is_err(), "full/served", || "a fifth session".into());
    let x = is(&m.n, s.conn, &m.answer, &[0xa], 0);
    t.check(x.is_ok(), "full/answer", || format!("{x:?}"));
    t.check(rsp_state() == before, "full/state", || "changed".into());
}

pub fn configs(deep: bool) -> Vec<(String, Cfg)> {
    let mut v: Vec<(String, Cfg)> = vec![];
    for (n, ver, tr) in [("12", 0x12, Tr::Mctp), ("11", 0x11, Tr::Mctp), ("10", 0x10, Tr::Mctp), ("12doe", 0x12, Tr::Doe), ("11doe", 0x11, Tr::Doe)] {
        if n == "11doe" && !deep {
            continue;
        }
        v.push((n.into(), cfg_v(ver, tr)));
    }
    let mut k = cfg_v(0x12, Tr::Mctp);
    k.req.caps |= rc::CLEAR;
    k.rsp.caps |= sc::CLEAR;
    v.push(("12clear".into(), k));
    let mut k = cfg_v(0x12, Tr::Mctp);
    k.rsp.caps = k.rsp.caps & !sc::PSK_CTX | sc::PSK;
    v.push(("12psk".into(), k));
    v
}
pub fn run(c: &Ctx) {
    let cfgs = configs(!c.quick());
    // one error at every request of every operation
    let mut jobs: Vec<(String, Cfg, Vec<Op>, Vec<(usize, usize)>, Vec<Er>, bool)> = vec![];
    for (n, cfg) in &cfgs {
        let main = n == "12";
        for (ops, j) in table(cfg) {
            let cnt = counts(cfg, &ops);
            for k in 0..cnt[j] {
                // portions of a certificate chain are alike
                if c.quick() && k > 2 && k + 2 < cnt[j] {
                    continue;
                }
                for pf in [false, true] {
                    if pf && c.quick() && !main {
                        continue;
                    }
                    for e in if main || !c.quick() { codes() } else { few() } {
                        jobs.push((n.clone(), cfg.clone(), ops.clone(), vec![(j, k)], vec![e], pf));
                    }
                }
                // every code there is, many in a row
                let all: Vec<Er> = all_codes().into_iter().filter(|e| of_session(&ops[j]).is_none() || !e.ends()).collect();
                let step = c.pick(48, 4);
                if main || !c.quick() {
                    for ch in all.chunks(step) {
                        jobs.push((n.clone(), cfg.clone(), ops.clone(), vec![(j, k)], ch.to_vec(), false));
                    }
                }
            }
        }
        // errors anywhere in a long history
        for rev in [false, true] {
            let ops = long_history(cfg, rev);
            let cnt = counts(cfg, &ops);
            for j in 0..ops.len() {
                for k in 0..cnt[j] {
                    if c.quick() && (!main || k > 1 && k + 1 < cnt[j]) {
                        continue;
                    }
                    for e in c.pick(vec![Er(1, 0, vec![]), Er(6, 0, vec![])], few()) {
                        if ops[j] == Op::Init && j > 0 && e.ends() {
                            continue;
                        }
                        jobs.push((n.clone(), cfg.clone(), ops.clone(), vec![(j, k)], vec![e], false));
                    }
                }
            }
        }
        // two refused operations
        if main || !c.quick() {
            let tab = table(cfg);
            for (ops, j) in tab {
                let cnt = counts(cfg, &ops);
                for j2 in j + 1..ops.len() {
                    for k in 0..cnt[j].min(c.pick(3, 9)) {
                        for k2 in 0..cnt[j2].min(c.pick(2, 9)) {
                            for e in c.pick(vec![Er(1, 0, vec![])], few()) {
                                jobs.push((n.clone(), cfg.clone(), ops.clone(), vec![(j, k), (j2, k2)], vec![e], true));
                            }
                        }
                    }
                }
            }
        }
    }
    c.par("requester", jobs.len(), |i, t| {
        let (n, cfg, ops, js, es, pf) = &jobs[i];
        t.desc = format!("{n} {} at {js:?} {} {pf}", show_ops(ops), if es.len() > 4 { format!("{:?}..", es[0]) } else { format!("{es:?}") });
        history(cfg, ops, js, es, *pf, t);
    });
    // what the responder sends
    let base = vec![L::Version, L::Caps, L::Algs];
    for (n, cfg) in &cfgs {
        let main = n == "12";
        let mut hs = vec![vec![], vec![L::Version], vec![L::Version, L::Caps], base.clone()];
        let ext = |a: &[L], b: &[L]| [a, b].concat();
        hs.push(ext(&base, &[L::Digest, L::Cert]));
        if cfg.rsp.caps & (sc::MEAS_NOSIG | sc::MEAS_SIG) != 0 {
            hs.push(ext(&base, &[L::MeasN]));
        }
        if can_ke(cfg) {
            let mut s = ext(&base, &[L::KeStart]);
            hs.push(s.clone());
            if MUTAUTH {
                s.push(L::Encap(0));
                hs.push(s.clone());
            }
            s.push(L::Finish(0));
            hs.push(s.clone());
            if can_psk(cfg) {
                hs.push(ext(&s, &[L::PskStart]));
            }
            hs.push(ext(&s, &[L::End(0)]));
        }
        if can_psk(cfg) {
            hs.push(ext(&base, &[L::PskStart]));
            if cfg.rsp.caps & sc::PSK_CTX != 0 {
                hs.push(ext(&base, &[L::PskStart, L::PskFinish(0)]));
            }
        }
        if !c.quick() {
            let extra: Vec<Vec<L>> = hs.iter().flat_map(|h| histories(cfg, h, 1, &|_| true)).collect();
            for h in extra {
                if !hs.contains(&h) {
                    hs.push(h);
                }
            }
        }
        let mut jobs: Vec<(usize, L, usize, Q)> = vec![];
        let mut miss: Vec<(usize, usize)> = vec![];
        let mut cds: Vec<(usize, Option<usize>, u8)> = vec![];
        for (i, h) in hs.iter().enumerate() {
            reset_thread();
            let (_w, m, s) = reach(cfg, h);
            let letters = s.legal(cfg, &m.n);
            miss.extend((0..probes(&m, &s).len()).map(|p| (i, p)));
            let mut sess: Vec<Option<usize>> = vec![None];
            sess.extend(m.ss.iter().enumerate().filter(|x| !x.1.dead).map(|x| Some(x.0)));
            for s in sess {
                cds.extend((0..=255u8).filter(|k| main || !c.quick() || *k >= 0x7c).map(|k| (i, s, k)));
            }
            for l in letters {
                if matches!(l, L::App(_)) {
                    continue;
                }
                reset_thread();
                for (k, (tag, len)) in sends(cfg, h, l).iter().enumerate() {
                    let sec = matches!(l, L::Hb(_) | L::Ku(..) | L::SMeas(_) | L::SDigest(_) | L::SCert(_) | L::SVendor(_) | L::End(_) | L::PskFinish(_));
                    if c.quick() && k > 2 {
                        continue;
                    }
                    let vs: Vec<u8> = c.pick(vec![0, 0x10, 0x11, 0x12, 0x13, 0xff], (0..=255).collect());
                    let ver = if tag == "version" { 0x10 } else { m.n.ver };
                    for v in vs {
                        // GET_CAPABILITIES selects the version
                        if v != ver && (tag != "caps" || !(0x10..=0x12).contains(&v)) {
                            jobs.push((i, l, k, Q::Ver(v)));
                        }
                    }
                    if cfg.tr == Tr::Mctp || sec {
                        for n in 2..*len {
                            if !c.quick() || n < 12 || n + 4 > *len || n % 16 == 0 {
                                jobs.push((i, l, k, Q::Cut(n)));
                            }
                        }
                    }
                    if main || !c.quick() {
                        use Kind::*;
                        for f in [HashAll, HashInit, HashUpdate, HashFinal, HashDup, Hmac, HmacVerify, Verify, Extract, Expand, DheGen, DheFinal, Random, Measure, MeasSummary, PskHs, PskMaster, Sign, Vendor] {
                            for nth in 0..c.pick(6, 10) {
                                jobs.push((i, l, k, Q::Fail(f, nth)));
                            }
                        }
                    }
                }
            }
        }
        c.par(&format!("answer-{n}"), jobs.len(), |i, t| {
            let (h, l, k, q) = &jobs[i];
            t.desc = format!("{n} {:?} {l:?}#{k} {q:?}", hs[*h]);
            answer(cfg, &hs[*h], *l, *k, q, t);
        });
        c.par(&format!("misplaced-{n}"), miss.len(), |i, t| {
            t.desc = format!("{n} {:?}", hs[miss[i].0]);
            misplaced(cfg, &hs[miss[i].0], miss[i].1, t);
        });
        c.par(&format!("code-{n}"), cds.len(), |i, t| {
            let (h, s, k) = cds[i];
            t.desc = format!("{n} {:?} {s:?} code {k:02x}", hs[h]);
            code(cfg, &hs[h], s, k, t);
        });
        if can_psk(cfg) || can_ke(cfg) {
            c.par(&format!("full-{n}"), 2, |i, t| {
                t.desc = format!("{n} {i}");
                if (i == 0 && can_ke(cfg)) || (i == 1 && can_psk(cfg)) {
                    full(cfg, i == 1, t);
                }
            });
        }
    }
}
