//! Every call of every device, random, secret and crypto callback failed in turn, in every flow.
use crate::explore::*;
use crate::fake::{self, Actor, Kind};
use crate::user::*;
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

fn configs(deep: bool) -> Vec<(String, Cfg)> {
    let mut v = vec![];
    for ver in [0x12u8, 0x11, 0x10] {
        for tr in [Tr::Mctp, Tr::Doe] {
            let mut k = cfg_v(ver, tr);
            v.push((format!("{ver:x} {tr:?}"), k.clone()));
            if ver > 0x10 {
                clear_caps(&mut k, rc::CLEAR);
                v.push((format!("{ver:x} {tr:?} sealed handshake"), k));
            }
        }
    }
    let mut k = cfg_v(0x12, Tr::Mctp);
    set_algs(&mut k, 4, 4, 16, 4);
    k.rsp.slots = vec![(0, 1200), (3, 0)];
    v.push(("12 other algorithms".into(), k));
    if deep {
        for (n, c) in catalogue() {
            v.push((n, c));
        }
    }
    v
}
/// the SPDM message in a frame the named side is just sending
pub fn sent(tr: Tr, fr: &[u8], who: Actor) -> Option<Vec<u8>> {
    match unframe(tr, fr)? {
        (false, p) => Some(p.to_vec()),
        (true, _) => {
            let pt = fake::with(|e| e.aead.iter().rev().find(|r| r.enc && r.ok && r.actor == who).map(|r| r.pt.clone()))?;
            let n = u16::from_le_bytes([*pt.get(0)?, *pt.get(1)?]) as usize;
            let p = pt.get(2..2 + n)?;
            match tr {
                Tr::Mctp if p.first() == Some(&5) => Some(p[1..].to_vec()),
                Tr::Mctp => None,
                Tr::Doe => Some(p.to_vec()),
            }
        }
    }
}
/// what the flow looks like to everyone: frames and results
fn face(cfg: &Cfg, ops: &[Op], fail: &[usize], bend: &[usize]) -> u64 {
    let mut w = World::new(cfg);
    fake::with(|e| {
        e.fail_at = fail.to_vec();
        e.bend_at = bend.to_vec();
    });
    let mut h = 0u64;
    for o in ops {
        let r = w.op(o);
        h = hash64(&[&h.to_le_bytes(), format!("{r:?}").as_bytes()]);
    }
    fake::with(|e| {
        e.fail_at.clear();
        e.bend_at.clear();
    });
    link(|l| l.wire.iter().fold(h, |h, (d, f)| hash64(&[&h.to_le_bytes(), &[*d as u8], f])))
}
/// the flow with some calls failing; (number of calls made, the calls that failed)
pub fn flow(cfg: &Cfg, ops: &[Op], fail: &[usize], short: Option<usize>, strict: bool, t: &mut T) -> usize {
    let mut w = World::new(cfg);
    fake::with(|e| match short {
        None => e.fail_at = fail.to_vec(),
        Some(n) => {
            e.bend_at = fail.to_vec();
            e.short = n;
        }
    });
    let seen: Rc<RefCell<Vec<(Dir, usize, Option<Vec<u8>>)>>> = Default::default();
    let (s2, tr) = (seen.clone(), cfg.tr);
    link(|l| {
        l.hook = Some(Box::new(move |d, _, fr| {
            let f = fake::with(|e| e.failed);
            let m = if f > 0 { sent(tr, &fr, if d == Dir::ToReq { Actor::Rsp } else { Actor::Req }) } else { None };
            s2.borrow_mut().push((d, f, m));
            vec![fr]
        }))
    });
    let mut u = User::default();
    let p = Profile { slim: false, slots: cfg.rsp.slots.iter().map(|x| x.0 as u8).collect() };
    let mut hit = 0;
    for (i, o) in ops.iter().enumerate() {
        if hit > 0 && !u.enabled(cfg, &p).contains(o) {
            continue;
        }
        let before = fake::with(|e| e.failed);
        seen.borrow_mut().clear();
        let est = |c: &spdmlib::common::SpdmContext| sess_table(c).into_iter().filter(|x| x.1 == 2).collect::<Vec<_>>();
        let (re, se) = (est(&w.req.common), rsp(|r| est(&r.common)));
        let r = w.op(o);
        t.steps += 1;
        let failed = fake::with(|e| e.failed) - before;
        if r.is_ok() && (failed > 0 || hit > 0) {
            if let Some(v) = expect_value(cfg, o) {
                t.check(r.as_ref().ok() == Some(&v), "value", || format!("op {i} {} returned {r:x?}, expected {v:x?}", o.short()));
            }
        }
        if failed == 0 {
            if hit == 0 {
                t.check(r.is_ok(), "setup", || format!("op {i} {} {r:?}", o.short()));
            }
            if r.is_ok() {
                u.apply(o);
            } else {
                // whatever a failed operation leaves: go on with what the requester still has
                follow(&mut u, &w, o);
            }
            continue;
        }
        hit += failed;
        let (who, kind) = fake::with(|e| fail.iter().rev().filter_map(|k| e.calls.get(*k)).next().copied()).unwrap_or((Actor::Req, Kind::Random));
        let tag = format!("{}/{who:?}/{kind:?}", op_kind(o));
        let (rn, sn) = (est(&w.req.common), rsp(|r| est(&r.common)));
        let frames: Vec<_> = seen.borrow().iter().filter(|x| x.1 > before).cloned().collect();
        if fail.len() == 1 && strict {
            match who {
                Actor::Rsp => {
                    // what it sends next is an error or nothing
                    let mut answered = true;
                    if let Some((Dir::ToReq, _, m)) = frames.first() {
                        let err = m.as_ref().map_or(false, |m| m.get(1) == Some(&0x7f));
                        t.check(err, &format!("pretends/{tag}"), || format!("op {i} {}: answer {:02x?}", o.short(), m.as_ref().map(|m| m[..m.len().min(16)].to_vec())));
                        answered = false;
                    } else if frames.is_empty() && r.is_err() {
                        answered = false;
                    }
                    if !answered {
                        t.check(r.is_err(), &format!("succeeds/{tag}"), || format!("op {i} {}: {r:?}", o.short()));
                        t.check(sn.iter().all(|x| se.contains(x)), &format!("established/{tag}"), || format!("op {i} {}: {se:x?} became {sn:x?}", o.short()));
                    } else {
                        t.out(format!("late {tag}"));
                        t.check(r.is_err(), &format!("late/{tag}"), || format!("op {i} {}: {r:?}", o.short()));
                    }
                }
                Actor::Req => {
                    t.check(r.is_err(), &format!("succeeds/{tag}"), || format!("op {i} {}: {r:?}", o.short()));
                    t.check(rn.iter().all(|x| re.contains(x)), &format!("established/{tag}"), || format!("op {i} {}: {re:x?} became {rn:x?}", o.short()));
                    // and it does not go on
                    let more: Vec<_> = frames.iter().filter(|x| x.0 == Dir::ToRsp).collect();
                    let err = more.iter().all(|x| x.2.as_ref().map_or(false, |m| m.get(1) == Some(&0x7f) || m.get(1) == Some(&0xeb) && m.get(5) == Some(&0x7f)));
                    t.check(err, &format!("goes-on/{tag}"), || format!("op {i} {}: {:02x?}", o.short(), more.iter().map(|x| x.2.as_ref().map(|m| m[..m.len().min(8)].to_vec())).collect::<Vec<_>>()));
                }
                _ => {}
            }
        }
        if r.is_ok() {
            u.apply(o);
        } else {
            follow(&mut u, &w, o);
        }
        t.out(format!("{tag} {}", if r.is_ok() { "ok" } else { "refused" }));
        t.step(w.fp());
    }
    let n = fake::with(|e| e.ncalls);
    // the fault is gone: a fresh connection works, with all sessions
    fake::with(|e| {
        e.fail_at.clear();
        e.bend_at.clear();
    });
    link(|l| l.hook = None);
    if !fail.is_empty() {
        fresh(&mut w, cfg, t);
    }
    n
}
/// the user's view after a failed operation
pub fn follow(u: &mut User, w: &World, o: &Op) {
    let live = sess_table(&w.req.common);
    let sids = w.sids.clone();
    u.nsess = sids.len();
    u.live.retain(|h| live.iter().any(|x| x.0 == sids[*h] && x.1 == 2));
    if *o == Op::Init {
        u.conn = false;
    }
}
/// a fresh connection and as many sessions as there are places
pub fn fresh(w: &mut World, cfg: &Cfg, t: &mut T) {
    let base = w.sids.len();
    let mut ops = vec![Op::Init];
    if cfg.rsp.caps & sc::CERT != 0 {
        ops.extend([Op::Digest(None), Op::Cert(None, 0)]);
        if cfg.rsp.caps & sc::CHAL != 0 && can_sign(common_ver(cfg)) {
            ops.push(Op::Chal(0, 0));
        }
    }
    if cfg.rsp.caps & sc::MEAS_SIG != 0 && can_sign(common_ver(cfg)) {
        ops.push(Op::Meas(None, true, 0xff, 0));
    }
    let mut k = 0;
    while k < 4 && (can_ke(cfg) || can_psk(cfg)) {
        ops.push(if can_ke(cfg) && (k % 2 == 0 || !can_psk(cfg)) { Op::Ke(0, 0) } else { Op::Psk(0) });
        k += 1;
    }
    for s in 0..k {
        ops.push(Op::Vendor(Some(base + s), b"fresh".to_vec()));
    }
    for o in &ops {
        let r = w.op(o);
        if r.is_err() {
            t.fail(format!("fresh/{}", op_kind(o)), format!("{}: {r:?}", o.short()));
            return;
        }
    }
    if let Err((k, d)) = agreement(w) {
        t.fail(format!("fresh/{k}"), d);
    }
    t.steps += ops.len() as u64;
}
pub fn run(c: &Ctx) {
    for rev in [false, true] {
        let mut list = vec![];
        let cfgs = configs(!c.quick());
        let (mut faces, mut kinds) = (vec![], vec![]);
        for (ci, (_, cfg)) in cfgs.iter().enumerate() {
            reset_thread();
            let ops = long_history(cfg, rev);
            let mut t = T::new();
            let n = flow(cfg, &ops, &[], None, true, &mut t);
            for i in 0..n {
                list.push((ci, i));
            }
            kinds.push(fake::with(|e| e.calls.clone()));
            reset_thread();
            faces.push(face(cfg, &ops, &[], &[]));
        }
        let step = if c.quick() && rev { 7 } else { 1 };
        let list: Vec<_> = list.into_iter().step_by(step).collect();
        c.par(if rev { "single-rev" } else { "single" }, list.len(), |i, t| {
            let (ci, k) = list[i];
            let cfg = &cfgs[ci].1;
            t.desc = format!("{} call {k}", cfgs[ci].0);
            let ops = long_history(cfg, rev);
            let mut strict = true;
            // a copy of a running hash that is made and dropped unused may fail without a trace
            if matches!(kinds[ci][k].1, Kind::HashFinal | Kind::HashDup) && face(cfg, &ops, &[], &[k]) == faces[ci] {
                reset_thread();
                t.out(format!("unused {:?}", kinds[ci][k]));
                strict = false;
            }
            reset_thread();
            flow(cfg, &ops, &[k], None, strict, t);
        });
    }
    // two calls fail
    let mut list = vec![];
    let cfgs: Vec<_> = configs(false).into_iter().filter(|x| !x.0.contains("Doe")).collect();
    let short = |cfg: &Cfg| {
        let mut v: Vec<Op> = vec![Op::Init];
        let mut u = User::default();
        u.apply(&Op::Init);
        for _ in 0..2 {
            for o in u.enabled(cfg, &Profile { slim: true, slots: vec![0] }) {
                if !v.contains(&o) && u.enabled(cfg, &Profile { slim: true, slots: vec![0] }).contains(&o) && !matches!(o, Op::Vendor(..) | Op::Digest(_) | Op::Cert(Some(_), _) | Op::App(..)) {
                    u.apply(&o);
                    v.push(o);
                }
            }
        }
        v
    };
    for (ci, (_, cfg)) in cfgs.iter().enumerate() {
        reset_thread();
        let mut t = T::new();
        let n = flow(cfg, &short(cfg), &[], None, true, &mut t);
        for i in 0..n {
            for d in 1..c.pick(3, n) {
                if !c.quick() || (i + d + ci) % 4 == 0 {
                    list.push((ci, i, i + d));
                }
            }
        }
    }
    c.par("pair", list.len(), |i, t| {
        let (ci, a, b) = list[i];
        let cfg = &cfgs[ci].1;
        t.desc = format!("{} calls {a} and {b}", cfgs[ci].0);
        flow(cfg, &short(cfg), &[a, b], None, true, t);
    });
}
