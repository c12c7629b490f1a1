//! Sessions: places, identifiers, endings, failed attempts.
use super::c07;
use crate::explore::*;
use crate::fake::*;
use crate::faults::*;
use crate::model::*;
use crate::user::*;
use crate::world::*;
use spdmlib::common::SpdmContext;
use std::cell::RefCell;
use std::rc::Rc;

const MAX: usize = spdmlib::config::MAX_SPDM_SESSION_COUNT;

/// places in use, with the state; free places hold no secret
fn table(c: &mut SpdmContext, t: &mut T, who: &str) -> Vec<(u32, u8)> {
    let all = c.get_session_status();
    let v: Vec<(u32, u8)> = all.iter().filter(|x| x.0 != 0).map(|x| (x.0, x.1.get_u8())).collect();
    for (i, a) in v.iter().enumerate() {
        if v[..i].iter().any(|b| b.0 == a.0) {
            t.fail(format!("{who}/same-id"), format!("{v:x?}"));
        }
    }
    for (i, s) in c.session.iter_mut().enumerate() {
        if s.get_session_id() == 0 {
            let (a, b) = s.export_keys();
            if [&a, &b].iter().any(|k| k.encryption_key.as_ref().iter().any(|x| *x != 0) || k.salt.as_ref().iter().any(|x| *x != 0) || k.sequence_number != 0) || s.get_session_state().get_u8() != 0 {
                t.fail(format!("{who}/not-erased"), format!("place {i}"));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- the responder
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ev {
    Start(bool),
    Full(bool),
    /// finish the oldest session in a handshake
    Finish,
    /// with a damaged proof / a byte short / a wrong version
    Forged,
    ShortFin,
    /// end the oldest / the newest live session
    End(bool),
    /// a damaged record for the oldest session
    Damaged,
    /// END_SESSION that is a byte short, or under another version
    BadEnd(bool),
    Init,
    /// an exchange whose n-th call of a kind fails (psk)
    StartFail(bool, Kind, usize),
    FinishFail(Kind, usize),
    EndFail(Kind),
    /// an exchange that must be refused (psk, what)
    Refused(bool, u8),
}
struct R {
    m: RefReq,
    /// sessions that hold a place: index, established
    place: Vec<usize>,
    /// the last exchange: FINISH in the clear is for its session only
    last: Option<usize>,
    same_half: bool,
}
impl R {
    fn pending(&self) -> Option<usize> {
        self.place.iter().copied().find(|i| !self.m.ss[*i].established)
    }
    fn live(&self, last: bool) -> Option<usize> {
        let mut v = self.place.iter().copied().filter(|i| self.m.ss[*i].established);
        if last {
            v.last()
        } else {
            v.next()
        }
    }
    fn drop(&mut self, i: usize) {
        self.m.ss[i].dead = true;
        self.place.retain(|x| *x != i);
    }
    fn start(&mut self, psk: bool) -> Res<usize> {
        if self.same_half {
            self.m.half = 0x1234u16.wrapping_sub(0x0101);
        }
        self.last = None;
        let i = if psk { self.m.psk_start(0)? } else { self.m.ke_start(0, 0)? };
        self.place.push(i);
        self.last = Some(i);
        Ok(i)
    }
    fn finish(&mut self, i: usize) -> Res<()> {
        if self.m.ss[i].psk {
            return self.m.psk_finish(i);
        }
        if self.m.ss[i].mut_auth {
            self.m.encap(i)?;
        }
        self.m.finish(i)
    }
    /// every place in use is what the responder's table holds
    fn same(&self, t: &mut T, what: &str) -> bool {
        let n = t.fails.len();
        let mut got = rsp(|r| table(&mut r.common, t, "responder"));
        let mut want: Vec<(u32, u8)> = self.place.iter().map(|i| (self.m.ss[*i].sid, if self.m.ss[*i].established { 2 } else { 1 })).collect();
        let norm = |v: &mut Vec<(u32, u8)>| {
            v.iter_mut().for_each(|x| x.1 = (x.1 == 2) as u8);
            v.sort();
        };
        // the numeric encoding of the states is the library's own
        got.iter_mut().for_each(|x| x.1 = if x.1 == spdmlib::common::session::SpdmSessionState::SpdmSessionEstablished.get_u8() { 2 } else { 1 });
        norm(&mut got);
        norm(&mut want);
        if got != want {
            t.fail(format!("responder/places/{}", what.split('(').next().unwrap()), format!("after {what}: {got:x?}, expected {want:x?}"));
        }
        t.fails.len() == n
    }
    fn step(&mut self, e: Ev, t: &mut T) -> Result<(), String> {
        let v = self.m.n.ver;
        let full = self.place.len() >= MAX;
        match e {
            Ev::Start(p) | Ev::Full(p) => {
                let r = self.start(p);
                if r.is_ok() == full {
                    return Err(format!("{} sessions in place: {r:?}", self.place.len()));
                }
                if let (Ok(i), Ev::Full(_)) = (r, e) {
                    if !self.m.ss[i].established {
                        self.finish(i)?;
                    }
                }
            }
            Ev::Finish => {
                if let Some(i) = self.pending() {
                    // in the clear FINISH is for the last exchange only
                    if self.m.n.clear() && !self.m.ss[i].psk && self.last != Some(i) {
                        return Ok(());
                    }
                    self.finish(i)?;
                }
            }
            Ev::Forged => {
                if let Some(i) = self.pending() {
                    if !self.m.ss[i].psk && self.m.ss[i].mut_auth {
                        self.m.encap(i)?;
                    }
                    let mut q = if self.m.ss[i].psk { self.m.psk_finish_msg(i) } else { self.m.finish_msg(i) };
                    let n = q.len();
                    q[n - 1] ^= 1;
                    let f = if self.m.n.clear() && !self.m.ss[i].psk {
                        if self.last != Some(i) {
                            return Ok(());
                        }
                        frame(self.m.cfg.tr, false, &q)
                    } else {
                        self.m.ss[i].seal(0, &q, false)
                    };
                    let _ = inject(&f);
                    self.drop(i);
                }
            }
            Ev::ShortFin => {
                if let Some(i) = self.pending() {
                    let mut q = if self.m.ss[i].psk { self.m.psk_finish_msg(i) } else { self.m.finish_msg(i) };
                    q.pop();
                    let f = if self.m.n.clear() && !self.m.ss[i].psk {
                        if self.last != Some(i) {
                            return Ok(());
                        }
                        frame(self.m.cfg.tr, false, &q)
                    } else {
                        self.m.ss[i].seal(0, &q, false)
                    };
                    let _ = inject(&f);
                    // malformed: it may be ignored or end the attempt
                    let sid = self.m.ss[i].sid;
                    if rsp(|r| r.common.get_session_via_id(sid).is_none()) {
                        self.drop(i);
                    } else {
                        rsp(|r| {
                            let _ = r.common.get_session_via_id(sid).unwrap().teardown(sid);
                        });
                        self.drop(i);
                        t.out("kept");
                    }
                }
            }
            Ev::End(last) => {
                if let Some(i) = self.live(last) {
                    self.m.end(i)?;
                    self.drop(i);
                }
            }
            Ev::Damaged => {
                if let Some(i) = self.place.first().copied() {
                    let f = self.m.ss[i].clone().seal(0, &[v, 0xe8, 0, 0], false);
                    let _ = inject(&spoil(self.m.cfg.tr, &f));
                }
            }
            Ev::BadEnd(short) => {
                if let Some(i) = self.live(false) {
                    let q = if short { vec![v, 0xec, 0] } else { vec![v ^ 2, 0xec, 0, 0] };
                    let r = self.m.secured(i, "end", &q)?;
                    if !is_err(&r) {
                        return Err(format!("answered {r:02x?}"));
                    }
                }
            }
            Ev::Init => {
                self.m.init()?;
                self.place.clear();
            }
            Ev::StartFail(p, k, n) => {
                let f0 = with(|e| {
                    e.fail_nth = Some((Actor::Rsp, k, n));
                    e.failed
                });
                let r = self.start(p);
                let hit = with(|e| {
                    e.fail_nth = None;
                    e.failed > f0
                });
                if r.is_ok() && (hit || full) || r.is_err() && !hit && !full {
                    return Err(format!("{} in place, failed {hit}: {r:?}", self.place.len()));
                }
            }
            Ev::FinishFail(k, n) => {
                if let Some(i) = self.pending() {
                    if self.m.n.clear() && !self.m.ss[i].psk && self.last != Some(i) {
                        return Ok(());
                    }
                    if !self.m.ss[i].psk && self.m.ss[i].mut_auth {
                        self.m.encap(i)?;
                    }
                    let before = self.m.ss[i].clone();
                    let f0 = with(|e| {
                        e.fail_nth = Some((Actor::Rsp, k, n));
                        e.failed
                    });
                    let r = if self.m.ss[i].psk { self.m.psk_finish(i) } else { self.m.finish(i) };
                    let hit = with(|e| {
                        e.fail_nth = None;
                        e.failed > f0
                    });
                    if r.is_ok() == hit {
                        return Err(format!("failed {hit}: {r:?}"));
                    }
                    if hit {
                        // refused before the handshake was touched: it can still be finished
                        let sid = before.sid;
                        if k == Kind::HashAll && before.mut_auth && rsp(|r| sess_table(&r.common)).iter().any(|x| x.0 == sid && x.1 != 2) {
                            let hs = self.m.ss[i].hs.clone();
                            self.m.ss[i] = before;
                            self.m.ss[i].hs = hs;
                        } else {
                            self.drop(i);
                        }
                    }
                }
            }
            Ev::EndFail(k) => {
                if let Some(i) = self.live(false) {
                    with(|e| e.fail_nth = Some((Actor::Rsp, k, 0)));
                    let _ = self.m.end(i);
                    with(|e| e.fail_nth = None);
                    self.m.ss[i].dead = true;
                    // whether it ended or not, nothing else may have changed
                    let sid = self.m.ss[i].sid;
                    self.place.retain(|x| *x != i);
                    if rsp(|r| r.common.get_session_via_id(sid).is_some()) {
                        rsp(|r| {
                            let _ = r.common.get_session_via_id(sid).unwrap().teardown(sid);
                        });
                        t.out("kept");
                    }
                }
            }
            Ev::Refused(p, what) => {
                let n = self.m.n.clone();
                let mut q = if p {
                    let op = m_opaque_req(v);
                    let mut q = vec![v, 0xe6, 0, 0, 0x77, 0x77];
                    q.extend(u16b(4));
                    q.extend(u16b(n.hs()));
                    q.extend(u16b(op.len()));
                    q.extend(b"hint");
                    q.extend(ext_random(n.hs()));
                    q.extend(op);
                    q
                } else {
                    let op = m_opaque_req(v);
                    let mut q = vec![v, 0xe4, 0, 0, 0x77, 0x77, 0, 0];
                    q.extend(ext_random(32));
                    q.extend(dhe_public(n.dh(), 7));
                    q.extend(u16b(op.len()));
                    q.extend(op);
                    q
                };
                match what {
                    // more than the padding of a frame
                    0 => q.truncate(q.len() - 4),
                    1 => q[0] ^= 2,
                    // a slot without a chain, or a summary type that does not exist
                    2 => {
                        if p {
                            q[2] = 7
                        } else {
                            q[3] = 5
                        }
                    }
                    _ => {}
                }
                let out = inject(&frame(self.m.cfg.tr, false, &q));
                if out.len() != 1 || !unframe(self.m.cfg.tr, &out[0]).map_or(false, |x| is_err(&x.1)) {
                    return Err(format!("answered {:02x?}", out.first().map(|x| x[..x.len().min(12)].to_vec())));
                }
            }
        }
        Ok(())
    }
}
fn responder(c: &Ctx, n: &str, cfg: &Cfg, depth: usize, same_half: bool) {
    let ke = can_ke(cfg);
    let mut l = vec![Ev::Finish, Ev::Forged, Ev::ShortFin, Ev::End(false), Ev::End(true), Ev::Damaged, Ev::BadEnd(true), Ev::BadEnd(false), Ev::Init, Ev::EndFail(Kind::Encrypt), Ev::EndFail(Kind::IoSend), Ev::EndFail(Kind::Decrypt)];
    for p in [true, false] {
        if !p && !ke {
            continue;
        }
        l.extend([Ev::Start(p), Ev::Full(p)]);
        for w in 0..3 {
            l.push(Ev::Refused(p, w));
        }
        for k in [Kind::Random, Kind::HashAll, Kind::HashInit, Kind::HashUpdate, Kind::HashFinal, Kind::HashDup, Kind::Hmac, Kind::DheGen, Kind::DheFinal, Kind::Sign, Kind::Expand, Kind::Extract, Kind::PskHs, Kind::IoSend] {
            let m = if depth != 2 || c.quick() { 2 } else { 8 };
            for n in 0..m {
                l.push(Ev::StartFail(p, k, n));
            }
        }
    }
    for k in [Kind::HashAll, Kind::HashInit, Kind::HashUpdate, Kind::HashFinal, Kind::HashDup, Kind::Hmac, Kind::HmacVerify, Kind::Expand, Kind::Extract, Kind::PskMaster, Kind::Verify, Kind::Encrypt, Kind::IoSend] {
        for n in 0..if depth != 2 { 2 } else { c.pick(2, 6) } {
            l.push(Ev::FinishFail(k, n));
        }
    }
    let starts: Vec<Vec<Ev>> = {
        let k = !ke;
        vec![vec![], vec![Ev::Full(k), Ev::Start(k)], vec![Ev::Full(true), Ev::Start(k), Ev::Full(true), Ev::Start(true)]]
    };
    let ns = count_seqs(l.len(), depth);
    c.par(&format!("responder-{n}{}", if same_half { "-same-half" } else { "" }), ns * starts.len(), |i, t| {
        let x = digits(i, &[ns, starts.len()]);
        let seq: Vec<Ev> = starts[x[1]].iter().copied().chain(nth_seq(x[0], l.len(), depth).iter().map(|x| l[*x])).collect();
        t.desc = format!("{seq:?}");
        let w = World::new(cfg);
        let mut r = R { m: RefReq::new(cfg), place: vec![], last: None, same_half };
        if let Err(e) = r.m.init() {
            t.fail("setup", e);
            return;
        }
        for e in &seq {
            let what = format!("{e:?}");
            if let Err(d) = r.step(*e, t) {
                t.fail(format!("responder/{}", what.split('(').next().unwrap()), format!("{what}: {d}"));
                return;
            }
            t.step(w.fp());
            if !r.same(t, &what) {
                return;
            }
        }
        // what holds a place works or can be finished; what is free can be used; not one more
        for round in 0..2 {
            for k in r.place.len()..MAX {
                if let Err(d) = r.step(Ev::Full(true), t) {
                    t.fail("responder/fill", format!("place {k} of {MAX}: {d}"));
                    return;
                }
            }
            if let Err(d) = r.step(Ev::Start(true), t).and_then(|_| if ke { r.step(Ev::Start(false), t) } else { Ok(()) }) {
                t.fail("responder/limit", d);
                return;
            }
            if !r.same(t, "limit") {
                return;
            }
            if !r.m.n.clear() {
                while let Some(i) = r.pending() {
                    if let Err(d) = r.finish(i) {
                        t.fail("responder/pending", format!("{:x}: {d}", r.m.ss[i].sid));
                        return;
                    }
                }
            }
            for i in r.place.clone() {
                if !r.m.ss[i].established {
                    continue;
                }
                if let Err(d) = r.m.vendor(Some(i), b"probe") {
                    t.fail("responder/disturbed", format!("{:x}: {d}", r.m.ss[i].sid));
                    return;
                }
            }
            if round == 0 {
                let e = if x[0] % 2 == 0 { Ev::Init } else { Ev::End(x[0] % 4 == 1) };
                if let Err(d) = r.step(e, t) {
                    t.fail("responder/last", format!("{e:?}: {d}"));
                    return;
                }
                if !r.same(t, "last") {
                    return;
                }
            }
        }
        t.out("ok");
    });
}

// ---------------------------------------------------------------- the requester
fn requester(c: &Ctx, n: &str, cfg: &Cfg, depth: usize, odd_ids: bool) {
    let mut l: Vec<(Op, F)> = vec![(Op::Init, F::No), (Op::Init, F::Lose(1)), (Op::Init, F::Lose(5))];
    for (o, enc) in [(Op::Ke(0, 0), MUTAUTH), (Op::Psk(0), false)] {
        if matches!(o, Op::Ke(..)) && !can_ke(cfg) {
            continue;
        }
        l.push((o.clone(), F::No));
        for k in 0..if enc { 12 } else { 4 } {
            l.push((o.clone(), F::Lose(k)));
            if k % 2 == 1 {
                l.extend([(o.clone(), F::Corrupt(k)), (o.clone(), F::Error(k, 1)), (o.clone(), F::Error(k, 6))]);
            }
        }
        for k in [Kind::Random, Kind::HashAll, Kind::HashInit, Kind::HashUpdate, Kind::HashFinal, Kind::HashDup, Kind::Hmac, Kind::HmacVerify, Kind::DheGen, Kind::DheFinal, Kind::Verify, Kind::Sign, Kind::Expand, Kind::Extract, Kind::PskHs, Kind::PskMaster, Kind::Encrypt, Kind::Decrypt, Kind::IoSend, Kind::IoRecv] {
            for n in 0..if depth != 2 { 2 } else { c.pick(2, 6) } {
                l.push((o.clone(), F::Call(Actor::Req, k, n)));
            }
        }
    }
    for h in [0, 1] {
        l.extend([(Op::End(h), F::No), (Op::End(h), F::Error(1, 6)), (Op::Hb(h), F::Error(1, 6)), (Op::Hb(h), F::Error(1, 5)), (Op::Vendor(Some(h), b"v".to_vec()), F::No)]);
    }
    let starts = [0usize, 3];
    let ns = count_seqs(l.len(), depth);
    c.par(&format!("requester-{n}{}", if odd_ids { "-odd-ids" } else { "" }), ns * starts.len(), |i, t| {
        let x = digits(i, &[ns, starts.len()]);
        let seq: Vec<(Op, F)> = nth_seq(x[0], l.len(), depth).iter().map(|x| l[*x].clone()).collect();
        t.desc = format!("{} sessions, {}", starts[x[1]], seq.iter().map(|(o, f)| format!("{}{}", o.short(), f.short())).collect::<Vec<_>>().join(" "));
        let (mut w, m) = RefRsp::new(cfg).world();
        let mut place: Vec<usize> = vec![];
        let mut pre = vec![Op::Init];
        if can_ke(cfg) {
            pre.extend([Op::Digest(None), Op::Cert(None, 0)]);
        }
        for k in 0..starts[x[1]] {
            pre.push(if k == 1 && can_ke(cfg) { Op::Ke(0, 0) } else { Op::Psk(0) });
        }
        for o in &pre {
            if odd_ids {
                m.borrow_mut().half = 0x7000;
            }
            match w.op(o) {
                Ok(Out::Sid(_)) => place.push(w.sids.len() - 1),
                Ok(_) => {}
                Err(e) => {
                    t.fail("setup", format!("{} {e:x?} {:?}", o.short(), m.borrow().bad));
                    return;
                }
            }
        }
        let mut conn = true;
        let same = |w: &mut World, place: &[usize], t: &mut T, what: &str| {
            let n = t.fails.len();
            let mut got: Vec<u32> = table(&mut w.req.common, t, "requester").iter().map(|x| x.0).collect();
            let mut want: Vec<u32> = place.iter().map(|i| w.sids[*i]).collect();
            got.sort();
            want.sort();
            if got != want {
                t.fail(format!("requester/places/{}", what.split('(').next().unwrap()), format!("after {what}: {got:x?}, expected {want:x?}"));
            }
            t.fails.len() == n
        };
        for (o, f) in &seq {
            // handles are positions among the live sessions
            let o = match o {
                // after a failed reconnect the sessions are the requester's alone
                Op::End(_) | Op::Hb(_) | Op::Vendor(..) if !conn => continue,
                Op::End(h) | Op::Hb(h) | Op::Vendor(Some(h), _) if *h >= place.len() => continue,
                Op::End(h) => Op::End(place[*h]),
                Op::Hb(h) => Op::Hb(place[*h]),
                Op::Vendor(Some(h), d) => Op::Vendor(Some(place[*h]), d.clone()),
                o => o.clone(),
            };
            if odd_ids {
                m.borrow_mut().half = 0x7000;
            }
            if odd_ids {
                let live = w.req.common.get_session_status();
                m.borrow_mut().ss.iter_mut().filter(|s| live.iter().all(|x| x.0 != s.sid)).for_each(|s| s.dead = true);
            }
            let what = format!("{}{}", o.short(), f.short());
            let f0 = with(|e| e.failed);
            let r = match (&o, f) {
                // an authentic ERROR
                (Op::End(_) | Op::Hb(_), F::Error(_, code)) => {
                    let code = *code;
                    m.borrow_mut().tamper = Some(Box::new(move |_, q| {
                        q.truncate(1);
                        q.extend([0x7f, code, 0]);
                    }));
                    let r = w.op(&o);
                    m.borrow_mut().tamper = None;
                    if let (Op::End(h) | Op::Hb(h), 6) = (&o, code) {
                        let sid = w.sids[*h];
                        m.borrow_mut().ss.iter_mut().filter(|s| s.sid == sid).for_each(|s| s.dead = true);
                    }
                    r
                }
                _ => op_fault(&mut w, &o, *f),
            };
            t.step(w.fp());
            let hit = with(|e| e.failed) > f0;
            let smooth = *f == F::No || matches!(f, F::Call(..)) && !hit;
            match &o {
                Op::Init => {
                    conn = r.is_ok();
                    // a connection that failed may or may not have ended them
                    if conn || w.req.common.get_session_status().iter().all(|x| x.0 == 0) {
                        place.clear();
                    }
                    // the certificate belongs to the connection
                    if conn && can_ke(cfg) {
                        for p in [Op::Digest(None), Op::Cert(None, 0)] {
                            if let Err(e) = w.op(&p) {
                                t.fail("requester/reconnect", format!("{} {e:x?}", p.short()));
                                return;
                            }
                        }
                    }
                }
                Op::Ke(..) | Op::Psk(_) => {
                    if r.is_ok() {
                        place.push(w.sids.len() - 1);
                    }
                    // the record in which frames are damaged may have been the last one: then it fails
                    if smooth && conn && (place.len() > MAX || r.is_err() && place.len() < MAX) {
                        t.fail("requester/open", format!("{what}: {r:x?} {:?}", m.borrow().bad));
                        return;
                    }
                }
                Op::End(h) => {
                    if r.is_ok() || matches!(f, F::Error(_, 6)) {
                        place.retain(|x| x != h);
                    }
                    if smooth && r.is_err() {
                        t.fail("requester/end", format!("{what}: {r:x?}"));
                        return;
                    }
                }
                Op::Hb(h) => {
                    if matches!(f, F::Error(_, 6)) {
                        place.retain(|x| x != h);
                    }
                }
                _ => {}
            }
            if !same(&mut w, &place, t, &what) {
                return;
            }
        }
        if !conn {
            place.clear();
            for o in [Op::Init, Op::Digest(None), Op::Cert(None, 0)] {
                if !can_ke(cfg) && o != Op::Init {
                    continue;
                }
                if let Err(e) = w.op(&o) {
                    t.fail("requester/recover", format!("{} {e:x?} {:?}", o.short(), m.borrow().bad));
                    return;
                }
            }
        }
        let ke = can_ke(cfg);
        while place.len() < MAX {
            if odd_ids {
                let live = w.req.common.get_session_status();
                m.borrow_mut().ss.iter_mut().filter(|s| live.iter().all(|x| x.0 != s.sid)).for_each(|s| s.dead = true);
            }
            let o = if place.len() % 2 == 0 || !ke { Op::Psk(0) } else { Op::Ke(0, 0) };
            match w.op(&o) {
                Ok(_) => place.push(w.sids.len() - 1),
                Err(e) => {
                    t.fail("requester/fill", format!("{} of {MAX}: {e:x?} {:?}", place.len(), m.borrow().bad));
                    return;
                }
            }
        }
        for o in [Op::Psk(0), Op::Ke(0, 0)] {
            if w.op(&o).is_ok() {
                t.fail("requester/limit", format!("one session too many {place:?} {:x?}", w.req.common.get_session_status()));
                return;
            }
        }
        if !same(&mut w, &place, t, "limit") {
            return;
        }
        for h in place.clone() {
            if let Err(e) = w.op(&Op::Vendor(Some(h), b"probe".to_vec())) {
                t.fail("requester/disturbed", format!("session {h}: {e:x?} {:?}", m.borrow().bad));
                return;
            }
        }
        t.out("ok");
    });
}
pub fn run(c: &Ctx) {
    let mut cfgs = vec![("12-mctp", cfg_v(0x12, Tr::Mctp)), ("12-doe", cfg_v(0x12, Tr::Doe)), ("11-mctp", cfg_v(0x11, Tr::Mctp))];
    let mut x = cfg_v(0x12, Tr::Mctp);
    x.req.caps |= rc::CLEAR;
    x.rsp.caps |= sc::CLEAR;
    cfgs.push(("12-clear", x));
    for (i, (n, cfg)) in cfgs.iter().enumerate() {
        if i != 1 && i != 3 || !c.quick() {
            responder(c, n, cfg, if i == 0 { c.pick(2, 3) } else { c.pick(1, 2) }, false);
        }
        if *n != "12-clear" || !MUTAUTH {
            requester(c, n, cfg, if i == 0 { c.pick(2, 3) } else { c.pick(1, 2) }, false);
        }
    }
    responder(c, cfgs[0].0, &cfgs[0].1, c.pick(1, 2), true);
    requester(c, cfgs[0].0, &cfgs[0].1, c.pick(1, 2), true);
    // both real: openings and endings in every order
    let l = ["ke", "psk", "end-old", "end-new"];
    let d = c.pick(6, 8);
    let cfg = &cfgs[0].1;
    c.par("both", count_seqs(l.len(), d), |i, t| {
        let seq = nth_seq(i, l.len(), d);
        t.desc = seq.iter().map(|x| l[*x]).collect::<Vec<_>>().join(" ");
        let mut w = World::new(cfg);
        for o in c07::start_ops(cfg) {
            let _ = w.op(&o);
        }
        let mut place: Vec<usize> = (0..w.sids.len()).collect();
        for s in seq {
            let o = match s {
                0 if can_ke(cfg) => Op::Ke(0, 0),
                0 | 1 => Op::Psk(0),
                2 if !place.is_empty() => Op::End(place[0]),
                3 if !place.is_empty() => Op::End(*place.last().unwrap()),
                _ => continue,
            };
            let want = matches!(o, Op::End(_)) || place.len() < MAX;
            let r = w.op(&o);
            t.step(w.fp());
            if r.is_ok() != want {
                t.fail("both/limit", format!("{} with {} in place: {r:x?}", o.short(), place.len()));
                return;
            }
            match (&o, &r) {
                (Op::End(h), _) => place.retain(|x| x != h),
                (_, Ok(_)) => place.push(w.sids.len() - 1),
                _ => {}
            }
            let mut want: Vec<u32> = place.iter().map(|i| w.sids[*i]).collect();
            want.sort();
            for (who, mut v) in [("requester", table(&mut w.req.common, t, "requester")), ("responder", rsp(|r| table(&mut r.common, t, "responder")))] {
                v.sort();
                if v.iter().map(|x| x.0).collect::<Vec<_>>() != want {
                    t.fail(format!("both/{who}"), format!("{v:x?}, expected {want:x?}"));
                    return;
                }
            }
        }
        for h in place {
            let r = w.op(&Op::Hb(h));
            if r.is_err() {
                t.fail("both/disturbed", format!("session {h}: {r:x?}"));
                return;
            }
        }
        t.out("ok");
    });
}
