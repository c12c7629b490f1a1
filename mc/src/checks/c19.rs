//! Application data inside a session is only ever application data, and protocol messages never are.
use super::c03::request_kinds;
use super::c24::same_keys;
use crate::explore::*;
use crate::fake;
use crate::model::*;
use crate::user::*;
use crate::world::*;
use spdmlib::common::SpdmContext;

/// payloads that look like protocol messages, and short ones
fn payloads(m: &RefReq, deep: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    for a in 0..=255u8 {
        v.push(vec![a]);
    }
    let heads: Vec<u8> = if deep { vec![0, 1, 5, 6, 0x0f, 0x10, 0x11, 0x12, 0x13, 0x7f, 0x80, 0xff] } else { vec![1, 5, 0x11, 0x12] };
    let tails: Vec<Vec<u8>> = if deep { vec![vec![], vec![0], vec![0, 0], vec![1, 1], vec![2, 2], vec![3, 3], vec![0; 3], vec![0; 40]] } else { vec![vec![], vec![0], vec![0, 0], vec![1, 7]] };
    for h in &heads {
        for c in 0..=255u8 {
            for t in &tails {
                let mut x = vec![*h, c];
                x.extend(t);
                v.push(x);
            }
        }
    }
    for (_, q) in request_kinds(m) {
        for ver in [0x10u8, 0x11, 0x12] {
            let mut q = q.clone();
            q[0] = ver;
            for k in [q.len(), 3, 2] {
                v.push(q[..k.min(q.len())].to_vec());
            }
            // the same behind the message type of the transport
            let mut z = vec![5];
            z.extend(&q);
            v.push(z);
            // as an answer
            q[1] &= 0x7f;
            v.push(q);
        }
    }
    v.push(vec![0x55; 1000]);
    v.push(vec![0x12; 4000]);
    v
}
/// everything application data must not change: session keys are compared separately
fn still(c: &SpdmContext) -> Vec<u8> {
    let mut v = nego(c);
    v.push(c.runtime_info.get_connection_state().get_u8());
    for (s, k) in sess_table(c) {
        v.extend(s.to_le_bytes());
        v.push(k);
    }
    v.extend(c.runtime_info.get_last_session_id().unwrap_or(0).to_le_bytes());
    for x in c.peer_info.peer_cert_chain.iter() {
        v.push(x.is_some() as u8);
    }
    v
}
fn handlers() -> (usize, usize, usize) {
    fake::with(|e| (e.app_calls.len(), e.vendor_calls.len(), e.meas_calls.len()))
}
fn configs() -> Vec<(String, Cfg)> {
    let mut v = vec![];
    for ver in [0x11u8, 0x12] {
        let c = cfg_v(ver, Tr::Mctp);
        v.push((format!("{ver:x}"), c.clone()));
        let mut s = c.clone();
        s.req.caps |= rc::CLEAR;
        s.rsp.caps |= sc::CLEAR;
        v.push((format!("{ver:x} clear"), s));
    }
    v
}
/// ways to get sessions
fn heads(cfg: &Cfg) -> Vec<Vec<Op>> {
    let mut v = vec![vec![Op::Init, Op::Psk(0)], vec![Op::Init, Op::Psk(0), Op::Ku(0, 1), Op::Ku(0, 2), Op::Psk(0)], vec![Op::Init, Op::Psk(0), Op::Meas(Some(0), false, 1, 0)]];
    if can_ke(cfg) {
        v.push(vec![Op::Init, Op::Cert(None, 0), Op::Ke(0, 0)]);
        v.push(vec![Op::Init, Op::Cert(None, 0), Op::Ke(0, 0xff), Op::Psk(0), Op::Ku(1, 2), Op::Meas(Some(0), true, 1, 0)]);
    }
    v
}
fn start(cfg: &Cfg, head: &[Op], t: &mut T) -> Option<(World, RefReq)> {
    let w = World::new(cfg);
    let mut m = RefReq::new(cfg);
    for o in head {
        if let Err(e) = m.op(o) {
            t.fail("setup", format!("{}: {e}", o.short()));
            return None;
        }
    }
    link(|l| l.horizon = 1_000_000);
    Some((w, m))
}
/// seal as application data; the frames that come back
fn send_app(m: &mut RefReq, i: usize, d: &[u8]) -> Vec<Vec<u8>> {
    let f = m.ss[i].seal(0, d, true);
    inject(&f)
}
fn requests(c: &Ctx) {
    let deep = !c.quick();
    for (name, cfg) in configs() {
        let hs = heads(&cfg);
        // the payload list does not depend on the session
        let all = {
            reset_thread();
            setup_env(&cfg);
            payloads(&RefReq::new(&cfg), deep)
        };
        let ch = 256;
        let per = (all.len() + ch - 1) / ch;
        c.par(&format!("request {name}"), hs.len() * per, |i, t| {
            let d = digits(i, &[per, hs.len()]);
            let (w, mut m) = match start(&cfg, &hs[d[1]], t) {
                Some(x) => x,
                None => return,
            };
            let n = m.ss.len();
            for p in &all[d[0] * ch..((d[0] + 1) * ch).min(all.len())] {
                let s = p.len() % n;
                let before = (rsp(|r| still(&r.common)), handlers());
                fake::with(|e| e.app_rsp = Some(def_app_rsp(p)[..(p.len() + 2).min(4000)].to_vec()));
                let out = send_app(&mut m, s, p);
                t.step(w.fp());
                if out.len() != 1 {
                    return t.fail("request/answers", format!("{} answers to application data {:02x?}", out.len(), &p[..p.len().min(8)]));
                }
                match m.ss[s].open(1, &out[0]) {
                    Ok((true, r)) if r == def_app_rsp(p)[..(p.len() + 2).min(4000)] => {}
                    x => return t.fail("request/answer", format!("application data {:02x?} answered {x:02x?}", &p[..p.len().min(8)])),
                }
                let now = handlers();
                if now != (before.1 .0 + 1, before.1 .1, before.1 .2) {
                    return t.fail("request/handler", format!("{:?} -> {now:?} on {:02x?}", before.1, &p[..p.len().min(8)]));
                }
                let sid = m.ss[s].sid;
                if fake::with(|e| e.app_calls.last() != Some(&(sid, p.clone()))) {
                    return t.fail("request/delivered", format!("{:02x?}", &p[..p.len().min(8)]));
                }
                if rsp(|r| still(&r.common)) != before.0 {
                    return t.fail("request/state", format!("{:02x?}", &p[..p.len().min(8)]));
                }
                if let Err(e) = rsp(|r| same_keys(&mut r.common, &m.ss)) {
                    return t.fail("request/keys", format!("{:02x?}: {e}", &p[..p.len().min(8)]));
                }
            }
            // everything still works, measurement transcripts included
            for s in 0..n {
                let mut ops = vec![Op::Hb(s), Op::Meas(Some(s), false, 1, 0)];
                if can_sign(m.n.ver) && hs[d[1]].iter().any(|o| matches!(o, Op::Cert(..))) {
                    ops.insert(0, Op::Meas(Some(s), true, 1, 0));
                }
                ops.extend([Op::Ku(s, 1), Op::End(s)]);
                for o in ops {
                    if let Err(e) = m.op(&o) {
                        return t.fail("request/after", format!("{}: {e}", o.short()));
                    }
                }
            }
        });
    }
}
/// replies of the application, whatever they look like, reach the user as they are
fn replies(c: &Ctx) {
    let deep = !c.quick();
    for (name, cfg) in configs() {
        let hs = heads(&cfg);
        let all = {
            reset_thread();
            setup_env(&cfg);
            payloads(&RefReq::new(&cfg), deep)
        };
        let ch = 256;
        let per = (all.len() + ch - 1) / ch;
        c.par(&format!("reply {name}"), hs.len() * per, |i, t| {
            let d = digits(i, &[per, hs.len()]);
            let mut w = World::new(&cfg);
            let mut u = User::default();
            link(|l| l.horizon = 1_000_000);
            if !honest(&mut w, &hs[d[1]], t, &mut u) {
                return;
            }
            let n = w.sids.len();
            for p in &all[d[0] * ch..((d[0] + 1) * ch).min(all.len())] {
                let s = p.len() % n;
                fake::with(|e| e.app_rsp = Some(p.clone()));
                let before = (still(&w.req.common), rsp(|r| still(&r.common)), keys(&mut w.req.common));
                let q = vec![0x12, 0xec, 0, 0, p.len() as u8];
                let r = w.op(&Op::App(s, q.clone()));
                t.step(w.fp());
                if r != Ok(Out::Data(p.clone())) {
                    return t.fail("reply/value", format!("application reply {:02x?}: {:x?}", &p[..p.len().min(8)], r.map(|x| format!("{x:02x?}").chars().take(80).collect::<String>())));
                }
                if (still(&w.req.common), rsp(|r| still(&r.common))) != (before.0, before.1) {
                    return t.fail("reply/state", format!("{:02x?}", &p[..p.len().min(8)]));
                }
                if keys(&mut w.req.common) != before.2 || rsp(|r| keys(&mut r.common)) != before.2 {
                    return t.fail("reply/keys", format!("{:02x?}", &p[..p.len().min(8)]));
                }
            }
            fake::with(|e| e.app_rsp = None);
            probe_sessions(&mut w, &u, t);
            if let Err((k, d)) = agreement(&w) {
                t.fail(k, d);
            }
        });
    }
}
/// the keys of all sessions (without record counters)
fn keys(c: &mut SpdmContext) -> Vec<(u32, Vec<u8>)> {
    let ids: Vec<u32> = sess_table(c).iter().map(|x| x.0).collect();
    ids.iter()
        .filter_map(|s| {
            let x = c.get_session_via_id(*s)?;
            let (a, b) = x.export_keys();
            let mut v = vec![];
            for k in [&a, &b] {
                v.extend(k.encryption_key.as_ref());
                v.extend(k.salt.as_ref());
            }
            Some((*s, v))
        })
        .collect()
}
/// the same bytes as a protocol message never reach the application, and are answered as protocol
fn protocol(c: &Ctx) {
    let deep = !c.quick();
    for (name, cfg) in configs() {
        let hs = heads(&cfg);
        let all: Vec<Vec<u8>> = {
            reset_thread();
            setup_env(&cfg);
            payloads(&RefReq::new(&cfg), deep).into_iter().filter(|p| p.len() < 2000).collect()
        };
        let ch = 64;
        let per = (all.len() + ch - 1) / ch;
        c.par(&format!("protocol {name}"), hs.len() * per, |i, t| {
            let d = digits(i, &[per, hs.len()]);
            let mut x = match start(&cfg, &hs[d[1]], t) {
                Some(x) => x,
                None => return,
            };
            for p in &all[d[0] * ch..((d[0] + 1) * ch).min(all.len())] {
                let s = p.len() % x.1.ss.len();
                let calls = handlers().0;
                let f = x.1.ss[s].seal(0, p, false);
                let out = inject(&f);
                t.step(x.0.fp());
                if handlers().0 != calls {
                    return t.fail("protocol/application", format!("protocol message {:02x?} reached the application", &p[..p.len().min(8)]));
                }
                if out.len() > 1 {
                    return t.fail("protocol/answers", format!("{:02x?}: {}", &p[..p.len().min(8)], out.len()));
                }
                // an answer, under the keys of before or after a key update, is a protocol message
                let mut served = false;
                for f in &out {
                    let m = &mut x.1;
                    let mut tries = vec![m.ss[s].clone()];
                    for dd in [vec![0], vec![1], vec![0, 1]] {
                        let mut k = m.ss[s].clone();
                        dd.iter().for_each(|z| k.update(*z));
                        tries.push(k);
                    }
                    match tries.iter_mut().find_map(|k| k.open(1, f).ok().map(|x| (x, k.clone()))) {
                        Some(((false, r), k)) if r.len() >= 4 => {
                            served = r[1] != 0x7f;
                            m.ss[s] = k;
                        }
                        Some(((app, r), _)) => return t.fail("protocol/answer", format!("{:02x?} answered {app} {r:02x?}", &p[..p.len().min(8)])),
                        None => return t.fail("protocol/answer-open", format!("{:02x?}", &p[..p.len().min(8)])),
                    }
                }
                // what was served or left unanswered changed the session: continue with a new one
                if served || out.is_empty() {
                    x = match start(&cfg, &hs[d[1]], t) {
                        Some(x) => x,
                        None => return,
                    };
                }
            }
        });
        // every other message type of the transport is neither
        c.par(&format!("type {name}"), hs.len(), |i, t| {
            for ty in 0..=255u8 {
                for tail in [vec![], vec![0x12, 0xe8, 0, 0], vec![0x12, 0xec, 0, 0], vec![1, 5]] {
                    if ty == 1 || ty == 5 {
                        continue;
                    }
                    let (_w, mut m) = match start(&cfg, &hs[i], t) {
                        Some(x) => x,
                        None => return,
                    };
                    let before = (rsp(|r| still(&r.common)), handlers());
                    let mut inner = vec![ty];
                    inner.extend(&tail);
                    let k = m.ss[0].keys(0).clone();
                    let r = m.ss[0].seal_raw(&k, &inner);
                    m.ss[0].keys(0).seq += 1;
                    let out = inject(&frame(Tr::Mctp, true, &r));
                    t.step(hash64(&[&[ty, tail.len() as u8]]));
                    if !out.is_empty() || (rsp(|r| still(&r.common)), handlers()) != before {
                        return t.fail("type/effect", format!("inner type {ty:x} {tail:02x?}: {out:02x?}"));
                    }
                    if let Err(e) = m.op(&Op::Hb(0)) {
                        return t.fail("type/after", format!("inner type {ty:x}: {e}"));
                    }
                }
            }
        });
    }
}
/// the requester: answers of the wrong kind are not taken
fn wrong_kind(c: &Ctx) {
    for (name, cfg) in configs() {
        let hs = heads(&cfg);
        let ver = common_ver(&cfg);
        let mut ops = vec![Op::Hb(0), Op::Ku(0, 1), Op::Ku(0, 2), Op::Digest(Some(0)), Op::Cert(Some(0), 0), Op::Meas(Some(0), false, 1, 0), Op::Meas(Some(0), false, 0xff, 0), Op::Vendor(Some(0), b"x".to_vec()), Op::End(0)];
        if can_sign(ver) {
            ops.push(Op::Meas(Some(0), true, 0xff, 0));
        }
        c.par(&format!("typed {name}"), hs.len() * ops.len() * 3, |i, t| {
            let d = digits(i, &[hs.len(), ops.len(), 3]);
            let op = &ops[d[1]];
            if matches!(op, Op::Meas(_, true, ..)) && !hs[d[0]].iter().any(|o| matches!(o, Op::Cert(..))) {
                return;
            }
            let (mut w, _m) = RefRsp::new(&cfg).world();
            SEAL.with(|h| *h.borrow_mut() = None);
            for o in &hs[d[0]] {
                if let Err(e) = w.op(o) {
                    return t.fail("typed/setup", format!("{} {e:x?}", o.short()));
                }
            }
            let (st, kb) = (still(&w.req.common), keys(&mut w.req.common));
            let ty = [1u8, 0x7e, 6][d[2]];
            SEAL.with(|h| {
                *h.borrow_mut() = Some(Box::new(move |dir, pt: &mut Vec<u8>| {
                    if dir == 1 && pt.len() > 2 {
                        pt[2] = ty;
                    }
                }))
            });
            let r = w.op(op);
            SEAL.with(|h| *h.borrow_mut() = None);
            t.step(w.fp());
            if let Ok(x) = r {
                return t.fail("typed/taken", format!("{}: an answer of message type {ty:x} was taken: {x:x?}", op.short()));
            }
            // a refused answer may end the session (a key update does), but it never installs anything
            let after = still(&w.req.common);
            let sid = w.sids[0];
            let alive = sess_table(&w.req.common).iter().any(|x| x.0 == sid);
            if alive && (after != st || keys(&mut w.req.common) != kb) {
                return t.fail("typed/state", format!("{}: {st:02x?} {after:02x?}", op.short()));
            }
            if !alive && !matches!(op, Op::Ku(..)) {
                return t.fail("typed/ended", op.short());
            }
        });
        // an SPDM message instead of an application reply has no protocol effect
        let mut msgs: Vec<Vec<u8>> = vec![];
        for code in 0..=255u8 {
            for tail in [vec![0u8, 0], vec![1, 1], vec![2, 1], vec![6, 0]] {
                let mut q = vec![ver, code];
                q.extend(tail);
                msgs.push(q);
            }
        }
        c.par(&format!("instead {name}"), hs.len() * 8, |i, t| {
            let d = digits(i, &[hs.len(), 8]);
            for q in msgs.iter().skip(d[1]).step_by(8) {
                let (mut w, _m) = RefRsp::new(&cfg).world();
                for o in &hs[d[0]] {
                    if let Err(e) = w.op(o) {
                        return t.fail("instead/setup", format!("{} {e:x?}", o.short()));
                    }
                }
                let (st, kb) = (still(&w.req.common), keys(&mut w.req.common));
                let qq = q.clone();
                SEAL.with(|h| {
                    *h.borrow_mut() = Some(Box::new(move |dir, pt: &mut Vec<u8>| {
                        if dir == 1 {
                            let n = qq.len() + 1;
                            *pt = vec![n as u8, 0, 5];
                            pt.extend(&qq);
                        }
                    }))
                });
                let _ = w.op(&Op::App(0, b"hello".to_vec()));
                SEAL.with(|h| *h.borrow_mut() = None);
                t.step(hash64(&[q]));
                if still(&w.req.common) != st || keys(&mut w.req.common) != kb {
                    return t.fail("instead/state", format!("{q:02x?}"));
                }
                for o in [Op::Hb(0), Op::App(0, b"again".to_vec()), Op::Ku(0, 2)] {
                    let r = w.op(&o);
                    if r.as_ref().ok() != expect_value(&cfg, &o).as_ref() {
                        return t.fail("instead/after", format!("{q:02x?} then {}: {r:x?}", o.short()));
                    }
                }
            }
        });
    }
}
/// in sessions that are not established yet, or not any more
fn phases(c: &Ctx) {
    for (name, cfg) in configs() {
        let all: Vec<Vec<u8>> = {
            reset_thread();
            setup_env(&cfg);
            payloads(&RefReq::new(&cfg), false).into_iter().filter(|p| p.len() != 1 || p[0] % 16 < 3).collect()
        };
        let kinds = if can_ke(&cfg) { 2 } else { 1 };
        let ch = 128;
        let per = (all.len() + ch - 1) / ch;
        c.par(&format!("phase {name}"), kinds * 2 * per, |i, t| {
            let d = digits(i, &[per, 2, kinds]);
            let psk = d[2] == 0;
            let head = if psk { vec![Op::Init] } else { vec![Op::Init, Op::Cert(None, 0)] };
            let (w, mut m) = match start(&cfg, &head, t) {
                Some(x) => x,
                None => return,
            };
            let r = if psk { m.psk_start(0) } else { m.ke_start(0, 0) };
            let s = match r {
                Ok(s) => s,
                Err(e) => return t.fail("phase/setup", e),
            };
            if MUTAUTH && !psk {
                if let Err(e) = m.encap(s) {
                    return t.fail("phase/setup", e);
                }
            }
            let ended = d[1] == 1;
            if ended {
                let r = if psk { m.psk_finish(s) } else { m.finish(s) };
                if let Err(e) = r.and_then(|_| m.op(&Op::End(s))) {
                    return t.fail("phase/setup", e);
                }
            }
            for p in &all[d[0] * ch..((d[0] + 1) * ch).min(all.len())] {
                let before = (rsp(|r| still(&r.common)), handlers());
                let out = send_app(&mut m, s, p);
                t.step(w.fp());
                let after = (rsp(|r| still(&r.common)), handlers());
                if after != before {
                    return t.fail(if ended { "phase/ended" } else { "phase/handshake" }, format!("{:02x?}: {before:02x?} {after:02x?} {out:02x?}", &p[..p.len().min(8)]));
                }
                for f in &out {
                    // an ERROR at most
                    if let Ok((app, r)) = m.ss[s].open(1, f) {
                        if app || !is_err(&r) {
                            return t.fail("phase/answer", format!("{:02x?} answered {app} {r:02x?}", &p[..p.len().min(8)]));
                        }
                    }
                }
            }
            if !ended {
                let r = if psk { m.psk_finish(s) } else { m.finish(s) };
                if let Err(e) = r.and_then(|_| m.app(s, b"now")) {
                    return t.fail("phase/after", e);
                }
            }
        });
    }
}
/// sequences of application and protocol traffic over two sessions
fn orders(c: &Ctx) {
    let k = c.pick(4, 5);
    for (name, cfg) in configs() {
        let v = common_ver(&cfg);
        let traps: Vec<Vec<u8>> = vec![vec![v, 0xec, 0, 0], vec![v, 0xe9, 2, 9], vec![v, 0xfe], vec![]];
        let mut letters: Vec<Op> = traps.iter().map(|p| Op::App(0, p.clone())).collect();
        letters.extend([Op::App(1, traps[0].clone()), Op::App(1, traps[1].clone()), Op::Hb(0), Op::Ku(0, 1), Op::Ku(1, 2), Op::Vendor(Some(0), traps[0].clone()), Op::Meas(Some(0), false, 1, 0), Op::Digest(Some(1)), Op::Psk(0), Op::End(1)]);
        let total = count_seqs(letters.len(), k);
        let ch = 512;
        let hs: Vec<Vec<Op>> = if can_ke(&cfg) { vec![vec![Op::Init, Op::Cert(None, 0), Op::Ke(0, 0), Op::Psk(0)]] } else { vec![vec![Op::Init, Op::Psk(0), Op::Psk(0)]] };
        let per = (total + ch - 1) / ch;
        c.par(&format!("order {name}"), hs.len() * per, |i, t| {
            let d = digits(i, &[per, hs.len()]);
            for j in d[0] * ch..((d[0] + 1) * ch).min(total) {
                let seq: Vec<Op> = nth_seq(j, letters.len(), k).iter().map(|x| letters[*x].clone()).collect();
                // only histories that keep application data and protocol apart are interesting, the others are C08's
                if !seq.iter().any(|o| matches!(o, Op::App(..))) || seq.iter().position(|o| *o == Op::End(1)).map_or(false, |e| seq[e + 1..].iter().any(|o| show_ops(&[o.clone()]).contains("@1"))) {
                    continue;
                }
                if seq.iter().filter(|o| **o == Op::Psk(0)).count() > 2 {
                    continue;
                }
                let mut w = World::new(&cfg);
                let mut u = User::default();
                if !honest(&mut w, &hs[d[1]], t, &mut u) || !honest(&mut w, &seq, t, &mut u) {
                    return;
                }
                let want: Vec<(u32, Vec<u8>)> = seq.iter().filter_map(|o| if let Op::App(s, d) = o { Some((w.sids[*s], d.clone())) } else { None }).collect();
                if fake::with(|e| e.app_calls != want) {
                    return t.fail("order/handler", format!("{}: {:02x?}", show_ops(&seq), fake::with(|e| e.app_calls.clone())));
                }
                let a = keys(&mut w.req.common);
                if rsp(|r| keys(&mut r.common)) != a {
                    return t.fail("order/keys", show_ops(&seq));
                }
                probe_sessions(&mut w, &u, t);
            }
        });
    }
}
/// a transport that cannot carry application data does not carry it as something else
fn doe(c: &Ctx) {
    for ver in [0x11u8, 0x12] {
        let cfg = cfg_v(ver, Tr::Doe);
        let all: Vec<Vec<u8>> = {
            reset_thread();
            setup_env(&cfg);
            payloads(&RefReq::new(&cfg), !c.quick())
        };
        let ch = 256;
        let per = (all.len() + ch - 1) / ch;
        c.par(&format!("doe {ver:x}"), per, |i, t| {
            let mut w = World::new(&cfg);
            let mut u = User::default();
            link(|l| l.horizon = 1_000_000);
            if !honest(&mut w, &[Op::Init, Op::Psk(0), Op::Psk(0)], t, &mut u) {
                return;
            }
            for p in &all[i * ch..((i + 1) * ch).min(all.len())] {
                let before = (still(&w.req.common), rsp(|r| still(&r.common)), handlers(), keys(&mut w.req.common), link(|l| l.wire.len()));
                let r = w.op(&Op::App(0, p.clone()));
                t.step(w.fp());
                let after = (still(&w.req.common), rsp(|r| still(&r.common)), handlers(), keys(&mut w.req.common), link(|l| l.wire.len()));
                let k = after.2 .0 - before.2 .0;
                if (&after.0, &after.1, after.2 .1, after.2 .2, &after.3) != (&before.0, &before.1, before.2 .1, before.2 .2, &before.3) || k > 1 {
                    return t.fail("doe/effect", format!("application data {:02x?} over DOE: {:?} -> {:?}", &p[..p.len().min(8)], before.2, after.2));
                }
                // carried as application data, or not at all
                if (r.is_ok() && k != 1) || (r.is_err() && after.4 != before.4 && k != 1) {
                    return t.fail("doe/carried", format!("application data {:02x?} over DOE as a protocol message: {:x?}", &p[..p.len().min(8)], r));
                }
            }
            probe_sessions(&mut w, &u, t);
        });
    }
}
pub fn run(c: &Ctx) {
    doe(c);
    requests(c);
    replies(c);
    protocol(c);
    wrong_kind(c);
    phases(c);
    orders(c);
}
