//! Secured records: every delivery order of an adversary's choosing, every change of every byte.
use crate::explore::*;
use crate::fake::*;
use crate::model::*;
use crate::trace::*;
use crate::user::*;
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

fn payload(s: usize, i: usize) -> Vec<u8> {
    format!("message {i} of session {s}").into_bytes()
}
fn app(tr: Tr) -> bool {
    tr == Tr::Mctp
}
fn delivered() -> Vec<Vec<u8>> {
    with(|e| e.app_calls.iter().map(|x| x.1.clone()).chain(e.vendor_calls.iter().map(|x| x.clone())).collect())
}
fn two_sessions(cfg: &Cfg, t: &mut T) -> Option<RefReq> {
    let mut m = RefReq::new(cfg);
    let mut go = || -> Res<()> {
        m.init()?;
        if can_ke(cfg) {
            m.ke(0, 0)?;
        } else {
            m.psk(0)?;
        }
        m.psk(0)?;
        Ok(())
    };
    match go() {
        Ok(()) => Some(m),
        Err(e) => {
            t.fail("setup", e);
            None
        }
    }
}
fn request(m: &RefReq, s: usize, i: usize, as_app: bool) -> Vec<u8> {
    if as_app {
        payload(s, i)
    } else {
        m_vendor(m.n.ver, true, &payload(s, i))
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum D {
    /// record i of session s
    Rec(usize, usize),
    /// the response to it, sent back
    Refl(usize, usize),
    /// it with the identifier of the other session
    Cross(usize, usize),
    /// it with the sequence number field of the one expected
    Renum(usize, usize),
    /// a record of the handshake phase
    Hand(usize),
}
/// the records to send and what was answered
fn record_of(m: &RefReq, d: D, as_app: bool, next: [usize; 2]) -> Vec<u8> {
    let tr = m.tr();
    match d {
        D::Rec(s, i) => {
            let mut x = m.ss[s].clone();
            x.data[0].seq = i as u64;
            x.seal(0, &request(m, s, i, as_app), as_app)
        }
        D::Refl(s, i) => {
            let mut x = m.ss[s].clone();
            x.data[1].seq = i as u64;
            x.seal(1, &request(m, s, i, as_app), as_app)
        }
        D::Cross(s, i) => {
            let f = record_of(m, D::Rec(s, i), as_app, next);
            let (_, mut p) = unframe(tr, &f).unwrap();
            p[..4].copy_from_slice(&m.ss[1 - s].sid.to_le_bytes());
            frame(tr, true, &p)
        }
        D::Renum(s, i) => {
            let f = record_of(m, D::Rec(s, i), as_app, next);
            let (_, mut p) = unframe(tr, &f).unwrap();
            if tr == Tr::Mctp {
                p[4..6].copy_from_slice(&(next[s] as u16).to_le_bytes());
            }
            frame(tr, true, &p)
        }
        D::Hand(s) => {
            let mut x = m.ss[s].clone();
            x.established = false;
            x.hs[0].seq = next[s] as u64;
            x.seal(0, &request(m, s, 0, as_app), as_app)
        }
    }
}
fn order_case(cfg: &Cfg, ds: &[D], as_app: bool, t: &mut T) {
    let w = World::new(cfg);
    let m = match two_sessions(cfg, t) {
        Some(m) => m,
        None => return,
    };
    let mut m = m;
    let mut next = [0usize; 2];
    let mut spoiled = [false; 2];
    for (k, d) in ds.iter().enumerate() {
        let f = record_of(&m, *d, as_app, next);
        let before = delivered();
        let out = inject(&f);
        t.step(w.fp());
        let got = delivered()[before.len()..].to_vec();
        let right = match d {
            D::Rec(s, i) => *i == next[*s],
            // the right number put on the right record changes nothing
            D::Renum(s, i) => *i == next[*s],
            _ => false,
        };
        let (s, i) = match d {
            D::Rec(s, i) | D::Renum(s, i) => (*s, *i),
            D::Refl(s, _) | D::Hand(s) => (*s, 99),
            D::Cross(s, _) => (1 - *s, 99),
        };
        if !got.is_empty() && !(right && got == vec![payload(s, i)]) {
            return t.fail(format!("delivered/{}", dname(d)), format!("{k}: {d:?} of {ds:?} delivered {:?}", got.iter().map(|x| String::from_utf8_lossy(x).to_string()).collect::<Vec<_>>()));
        }
        if right && got.is_empty() && !spoiled[s] {
            return t.fail(format!("lost/{}", dname(d)), format!("{k}: {d:?} of {ds:?} was not delivered"));
        }
        if got.is_empty() {
            spoiled[s] = true;
        } else {
            next[s] += 1;
            if !spoiled[s] {
                match out.first().map(|o| m.ss[s].open(1, o)) {
                    Some(Ok((a, _))) if a == as_app && out.len() == 1 => {}
                    x => return t.fail("reply", format!("{k}: {d:?} of {ds:?}: {x:x?}")),
                }
            }
        }
        t.out(if got.is_empty() { "-" } else { "+" });
    }
    for s in 0..2 {
        if !spoiled[s] {
            let f = record_of(&m, D::Rec(s, next[s]), as_app, next);
            let n = delivered().len();
            let out = inject(&f);
            if delivered().len() != n + 1 || out.len() != 1 {
                return t.fail("other-session-stopped", format!("session {s} after {ds:?}"));
            }
        }
    }
}
fn dname(d: &D) -> String {
    format!("{d:?}").split('(').next().unwrap().to_string()
}
#[derive(Clone, Debug)]
enum Ch {
    Xor(usize, u8),
    Cut(usize),
    Ext(Vec<u8>),
    Del(usize),
    Ins(usize, u8),
}
fn change(p: &[u8], c: &Ch) -> Vec<u8> {
    let mut v = p.to_vec();
    match c {
        Ch::Xor(i, x) => v[*i] ^= x,
        Ch::Cut(n) => v.truncate(*n),
        Ch::Ext(e) => v.extend(e),
        Ch::Del(i) => {
            v.remove(*i);
        }
        Ch::Ins(i, x) => v.insert(*i, *x),
    }
    v
}
fn changes(n: usize, all: bool) -> Vec<Ch> {
    let mut v = vec![];
    for i in 0..n {
        if all {
            v.extend((1..=255u8).map(|x| Ch::Xor(i, x)));
        } else {
            v.extend((0..8).map(|b| Ch::Xor(i, 1 << b)));
            v.push(Ch::Xor(i, 0xff));
        }
        v.push(Ch::Cut(i));
        v.push(Ch::Del(i));
        v.push(Ch::Ins(i, 0));
        v.push(Ch::Ins(i, 0xa5));
    }
    for k in 1..24 {
        v.push(Ch::Ext(vec![0; k]));
        v.push(Ch::Ext(vec![0x5a; k]));
    }
    v
}
/// the bytes of the record are unchanged, whatever follows it
fn same_record(new: &[u8], old: &[u8]) -> bool {
    new.len() >= old.len() && new[..old.len()] == *old
}
fn change_case(cfg: &Cfg, pre: usize, as_app: bool, c: &Ch, t: &mut T) {
    let w = World::new(cfg);
    let m = match two_sessions(cfg, t) {
        Some(m) => m,
        None => return,
    };
    for i in 0..pre {
        inject(&record_of(&m, D::Rec(0, i), as_app, [0, 0]));
    }
    let n = delivered().len();
    if n != pre {
        return t.fail("setup", "records were not delivered".to_string());
    }
    let mut x = m.ss[0].clone();
    x.data[0].seq = pre as u64;
    let r = x.seal_raw(&x.data[0], &x.inner(&request(&m, 0, pre, as_app), as_app));
    let q = change(&r, c);
    let out = inject(&frame(m.tr(), true, &q));
    t.step(w.fp());
    let got = delivered()[n..].to_vec();
    if same_record(&q, &r) {
        if !got.is_empty() && got != vec![payload(0, pre)] {
            return t.fail("delivered/extended", format!("{got:x?}"));
        }
        t.out(format!("ext {}", got.len()));
    } else if !got.is_empty() {
        return t.fail("delivered/changed", format!("{got:x?}"));
    } else {
        t.out(format!("refused {}", out.len()));
    }
    // the other session goes on, unless it is the one the changed record names
    if q.len() >= 4 && q[..4] != m.ss[1].sid.to_le_bytes() {
        let n = delivered().len();
        inject(&record_of(&m, D::Rec(1, 0), as_app, [0, 0]));
        if delivered().len() != n + 1 {
            return t.fail("other-session-stopped", "".to_string());
        }
    }
    // and the named one never takes anything but its next record
    let n = delivered().len();
    let expect = if got.is_empty() { pre } else { pre + 1 };
    for i in [expect + 1, expect.wrapping_sub(1), expect] {
        if i > 100 {
            continue;
        }
        inject(&record_of(&m, D::Rec(0, i), as_app, [0, 0]));
        let g = delivered()[n..].to_vec();
        if !g.is_empty() && (i != expect || g != vec![payload(0, i)]) {
            return t.fail("delivered/later", format!("record {i}, expected {expect}"));
        }
    }
    t.step(w.fp());
}
// ------------------------------------------------------------------ the requester's side
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum A {
    Ok,
    Drop,
    Dup,
    /// an earlier response in place of this one
    Replay(usize),
    /// the request sent back
    Reflect,
    /// this one is kept back and the next one comes first
    Hold,
    Flip,
    /// the request never arrives
    DropReq,
    /// the request arrives twice
    DupReq,
}
const ACTS: [A; 10] = [A::Ok, A::Drop, A::Dup, A::Replay(1), A::Replay(2), A::Reflect, A::Hold, A::Flip, A::DropReq, A::DupReq];
fn req_case(cfg: &Cfg, seq: &[(usize, A)], as_app: bool, t: &mut T) {
    let mut w = World::new(cfg);
    let mut setup = vec![Op::Init];
    if can_ke(cfg) {
        setup.extend([Op::Cert(None, 0), Op::Ke(0, 0)]);
    } else {
        setup.push(Op::Psk(0));
    }
    setup.push(Op::Psk(0));
    for o in &setup {
        if w.op(o).is_err() {
            return t.fail("setup", o.short());
        }
    }
    let cur = Rc::new(RefCell::new((A::Ok, Vec::<Vec<u8>>::new(), Vec::<u8>::new(), Vec::<Vec<u8>>::new())));
    let c2 = cur.clone();
    let tr = cfg.tr;
    link(|l| {
        l.flush_on_send = false;
        l.hook = Some(Box::new(move |d, _, f| {
            let mut c = c2.borrow_mut();
            let (act, seen, req, held) = &mut *c;
            if d == Dir::ToRsp {
                *req = f.clone();
                return match act {
                    A::DropReq => vec![],
                    A::DupReq => vec![f.clone(), f],
                    _ => vec![f],
                };
            }
            seen.push(f.clone());
            match act {
                A::Drop => vec![],
                A::Dup => vec![f.clone(), f],
                A::Replay(k) => seen.len().checked_sub(1 + *k).map(|i| vec![seen[i].clone()]).unwrap_or_default(),
                A::Reflect => vec![req.clone()],
                A::Hold => {
                    held.push(f);
                    vec![]
                }
                A::Flip => {
                    let (s, mut p) = unframe(tr, &f).unwrap();
                    let l = p.len();
                    p[l / 2] ^= 1;
                    vec![frame(tr, s, &p)]
                }
                _ => {
                    let mut v = vec![f];
                    v.append(held);
                    v
                }
            }
        }));
    });
    let mut spoiled = [false; 2];
    let mut sent: [Vec<Vec<u8>>; 2] = Default::default();
    let mut deliv: [Vec<Vec<u8>>; 2] = Default::default();
    let mut got = [0usize; 2];
    for (k, (s, act)) in seq.iter().enumerate() {
        cur.borrow_mut().0 = *act;
        let stale = link(|l| !l.to_req.is_empty() || !l.to_rsp.is_empty());
        let held = !cur.borrow().3.is_empty();
        let data = payload(*s, k);
        let o = if as_app { Op::App(*s, data.clone()) } else { Op::Vendor(Some(*s), data.clone()) };
        let before = delivered().len();
        let r = w.op(&o);
        t.step(w.fp());
        sent[*s].push(data.clone());
        // what the responder takes is what was sent in the session, in that order, each at most once
        for x in &delivered()[before..] {
            let h = (0..2).find(|h| deliv[*h].len() < sent[*h].len() && sent[*h][deliv[*h].len()..].contains(x));
            match h {
                Some(h) if sent[h][deliv[h].len()] == *x => deliv[h].push(x.clone()),
                _ => return t.fail("delivered/request", format!("{k} of {seq:?}: {:?}", String::from_utf8_lossy(x))),
            }
        }
        match &r {
            Ok(x) => {
                // the next answer of this session that was not taken yet
                let of = |d: &[u8]| expect_value(&w.cfg, &if as_app { Op::App(*s, d.to_vec()) } else { Op::Vendor(Some(*s), d.to_vec()) });
                match (got[*s]..deliv[*s].len()).find(|j| of(&deliv[*s][*j]).as_ref() == Some(x)) {
                    Some(j) => got[*s] = j + 1,
                    None => return t.fail(format!("value/{act:?}"), format!("{k} of {seq:?}: {x:x?}")),
                }
            }
            Err(e) => {
                if *act == A::Ok && !stale && !spoiled[*s] {
                    return t.fail("refused", format!("{k} of {seq:?}: {:x?}", e.status_code));
                }
            }
        }
        t.out(if r.is_ok() { "+" } else { "-" });
        if r.is_err() || *act != A::Ok || held {
            spoiled[*s] = true;
        }
        // stale answers that are already on their way
        if link(|l| l.to_req.len()) > 6 {
            break;
        }
    }
    link(|l| {
        l.hook = None;
        l.to_req.clear();
        l.to_rsp.clear();
    });
    for s in 0..2 {
        // a session no message of which was touched works on
        let touched = spoiled[s] || seq.iter().enumerate().any(|(k, x)| x.0 != s && x.1 != A::Ok && seq[k..].iter().any(|y| y.0 == s));
        if !touched {
            let o = if as_app { Op::App(s, b"probe".to_vec()) } else { Op::Vendor(Some(s), b"probe".to_vec()) };
            let r = w.op(&o);
            if r.as_ref().ok() != expect_value(&w.cfg, &o).as_ref() {
                return t.fail("other-session-stopped", format!("session {s} after {seq:?}: {r:x?}"));
            }
        }
    }
}
/// one response changed; the operation fails, the other session goes on
fn rsp_change(cfg: &Cfg, op: &Op, c: &Ch, t: &mut T) {
    let mut w = World::new(cfg);
    let setup = if can_ke(cfg) { vec![Op::Init, Op::Cert(None, 0), Op::Ke(0, 0), Op::Psk(0)] } else { vec![Op::Init, Op::Psk(0), Op::Psk(0)] };
    for o in &setup {
        if w.op(o).is_err() {
            return t.fail("setup", o.short());
        }
    }
    let info = Rc::new(RefCell::new((false, false, 0u32)));
    let i2 = info.clone();
    let (tr, c2) = (cfg.tr, c.clone());
    link(|l| {
        l.hook = Some(Box::new(move |d, _, f| {
            if d == Dir::ToRsp {
                return vec![f];
            }
            let (s, p) = unframe(tr, &f).unwrap();
            let h = if tr == Tr::Mctp { 6 } else { 4 };
            let l = h + 2 + u16::from_le_bytes([p[h], p[h + 1]]) as usize;
            let p = &p[..l];
            let ok = match &c2 {
                Ch::Xor(i, _) | Ch::Del(i) | Ch::Ins(i, _) | Ch::Cut(i) => *i < l,
                _ => true,
            };
            if !ok {
                return vec![f];
            }
            let q = change(p, &c2);
            let nf = frame(tr, s, &q);
            let mut x = i2.borrow_mut();
            x.0 = nf != f;
            x.1 = same_record(&q, p);
            x.2 = if q.len() >= 4 { u32::from_le_bytes(q[..4].try_into().unwrap()) } else { 0 };
            vec![nf]
        }));
    });
    let r = w.op(op);
    t.step(w.fp());
    let (changed, same, sid) = *info.borrow();
    link(|l| {
        l.hook = None;
        l.to_req.clear();
        l.to_rsp.clear();
    });
    if !changed {
        return t.out("not applicable");
    }
    t.out(format!("{} {}", same, r.is_ok()));
    if r.is_ok() && !same {
        return t.fail(format!("accepted/{}", op_kind(op)), format!("{c:x?}: {r:x?}"));
    }
    if let (Ok(x), Some(e)) = (&r, expect_value(&w.cfg, op)) {
        if *x != e {
            return t.fail(format!("value/{}", op_kind(op)), format!("{c:x?}: {x:x?}"));
        }
    }
    if sid != w.sids[1] {
        let o = if app(cfg.tr) { Op::App(1, b"probe".to_vec()) } else { Op::Vendor(Some(1), b"probe".to_vec()) };
        let r = w.op(&o);
        if r.as_ref().ok() != expect_value(&w.cfg, &o).as_ref() {
            return t.fail("other-session-stopped", format!("{c:x?}: {r:x?}"));
        }
    }
}
pub fn run(c: &Ctx) {
    let mut cfgs: Vec<(String, Cfg)> = vec![("mctp".into(), cfg_v(0x12, Tr::Mctp)), ("doe".into(), cfg_v(0x12, Tr::Doe)), ("mctp11".into(), cfg_v(0x11, Tr::Mctp))];
    for a in [1u16, 2, 4] {
        let mut k = cfg_v(0x12, if a == 2 { Tr::Doe } else { Tr::Mctp });
        k.req.aead = a;
        k.rsp.aead = a;
        cfgs.push((format!("aead{a}"), k));
    }
    for (x, (n, cfg)) in cfgs.iter().enumerate() {
        let mut al = vec![];
        for s in 0..2 {
            for i in 0..3 {
                al.extend([D::Rec(s, i), D::Refl(s, i), D::Cross(s, i)]);
                if cfg.tr == Tr::Mctp {
                    al.push(D::Renum(s, i));
                }
            }
            al.push(D::Hand(s));
        }
        let d = if x < 2 { c.pick(3, 4) } else { c.pick(2, 3) };
        for as_app in if app(cfg.tr) { vec![true, false] } else { vec![false] } {
            c.par(&format!("order-{n}-{as_app}"), count_seqs(al.len(), d), |i, t| {
                let ds: Vec<D> = nth_seq(i, al.len(), d).iter().map(|k| al[*k]).collect();
                t.desc = format!("{ds:?}");
                order_case(cfg, &ds, as_app, t);
            });
            // longer, records only
            let rec: Vec<D> = (0..2).flat_map(|s| (0..3).map(move |i| D::Rec(s, i))).collect();
            let d2 = if x < 2 { c.pick(5, 7) } else { c.pick(4, 5) };
            c.par(&format!("records-{n}-{as_app}"), count_seqs(6, d2), |i, t| {
                let ds: Vec<D> = nth_seq(i, 6, d2).iter().map(|k| rec[*k]).collect();
                t.desc = format!("{ds:?}");
                order_case(cfg, &ds, as_app, t);
            });
            let len = 4 + 2 + 2 + 2 + 1 + 9 + 24 + 16;
            let mut jobs = vec![];
            for pre in [0usize, 1] {
                for ch in changes(len, !c.quick()) {
                    jobs.push((pre, ch));
                }
            }
            c.par(&format!("change-{n}-{as_app}"), jobs.len(), |i, t| {
                let (pre, ch) = &jobs[i];
                t.desc = format!("after {pre}: {ch:x?}");
                let m = payload(0, 0).len();
                let l = if cfg.tr == Tr::Mctp { 4 + 2 + 2 + 2 + 1 } else { 4 + 2 + 2 } + m + if as_app { 0 } else { 11 } + 16;
                if let Ch::Xor(i, _) | Ch::Del(i) | Ch::Ins(i, _) | Ch::Cut(i) = ch {
                    if *i >= l {
                        return t.out("past the end");
                    }
                }
                change_case(cfg, *pre, as_app, ch, t);
            });
            let k = 2 * ACTS.len();
            let d3 = if x < 2 { c.pick(3, 4) } else { c.pick(2, 3) };
            c.par(&format!("answers-{n}-{as_app}"), count_seqs(k, d3), |i, t| {
                let seq: Vec<(usize, A)> = nth_seq(i, k, d3).iter().map(|x| (x / ACTS.len(), ACTS[x % ACTS.len()])).collect();
                t.desc = format!("{seq:?}");
                req_case(cfg, &seq, as_app, t);
            });
        }
        let mut ops = vec![Op::Vendor(Some(0), b"vv".to_vec()), Op::Hb(0), Op::Ku(0, 1), Op::Ku(0, 2), Op::End(0), Op::Meas(Some(0), false, 1, 0), Op::Digest(Some(0))];
        if app(cfg.tr) {
            ops.push(Op::App(0, b"aa".to_vec()));
        }
        let chs = changes(if x < 2 { 260 } else { 60 }, !c.quick() && x < 2);
        c.par(&format!("answer-change-{n}"), chs.len() * ops.len(), |i, t| {
            let (o, ch) = (&ops[i % ops.len()], &chs[i / ops.len()]);
            t.desc = format!("{} {ch:x?}", o.short());
            rsp_change(cfg, o, ch, t);
        });
    }
    // a session of an earlier connection with the same identifier
    for (n, cfg) in cfgs.iter().take(3) {
        let ops: Vec<Op> = if can_ke(cfg) { vec![Op::Init, Op::Cert(None, 0), Op::Ke(0, 0)] } else { vec![Op::Init, Op::Psk(0)] };
        let send = |h: usize| if app(cfg.tr) { Op::App(h, b"one".to_vec()) } else { Op::Vendor(Some(h), b"one".to_vec()) };
        let mut all = ops.clone();
        all.extend([send(0), send(0), Op::Hb(0)]);
        all.extend(ops.clone());
        all.push(send(1));
        let fr = record(cfg, &all);
        c.par(&format!("old-connection-{n}"), 1, |_, t| {
            if fr.is_none() {
                t.fail("setup", "");
            }
        });
        let fr = match fr {
            Some(f) => f,
            None => continue,
        };
        let old: Vec<Vec<u8>> = fr.iter().filter(|f| f.secured && f.op < all.len() - 1).map(|f| f.frame.clone()).collect();
        let np = old.len();
        c.par(&format!("old-records-{n}"), np * np + np, |i, t| {
            let seq = if i < np { vec![i] } else { vec![(i - np) / np, (i - np) % np] };
            t.desc = format!("{seq:?}");
            let mut w = World::new(cfg);
            for o in &all {
                if w.op(o).is_err() {
                    return t.fail("setup", o.short());
                }
            }
            let n = delivered().len();
            let before = crate::checks::c03::rsp_state();
            for k in seq {
                inject(&old[k]);
                t.step(w.fp());
            }
            if delivered().len() != n {
                return t.fail("delivered/old-connection", "");
            }
            let _ = before;
        });
    }
}
