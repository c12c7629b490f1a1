//! Announced message sizes: no message longer than the receiver announced; answers that are too long are replaced by one
//! ResponseTooLarge error and leave no trace; everything that fits works.
use crate::explore::*;
use crate::fake;
use crate::model::*;
use crate::user::*;
use crate::world::*;

/// the SPDM messages of wire frames from `k` on: (direction, secured, exact length known, message, application data)
struct Msg {
    dir: Dir,
    sec: bool,
    app: bool,
    pay: Vec<u8>,
}
type Mark = (usize, usize);
fn mark() -> Mark {
    (link(|l| l.wire.len()), fake::with(|e| e.aead.len()))
}
fn messages(tr: Tr, k: Mark) -> Vec<Msg> {
    let fr = link(|l| l.wire[k.0..].to_vec());
    let mut v = vec![];
    let mut at = k.1;
    for (dir, f) in fr {
        let (sec, p) = match unframe(tr, &f) {
            Some(x) => x,
            None => continue,
        };
        if !sec {
            v.push(Msg { dir, sec, app: false, pay: p });
            continue;
        }
        // the plaintext, from the record of the encryption that produced it
        let h = if tr == Tr::Mctp { 8 } else { 6 };
        let pt = fake::with(|e| {
            let j = e.aead[at..].iter().position(|a| a.enc && p.len() >= h && a.aad == p[..h])?;
            at += j + 1;
            Some(e.aead[at - 1].pt.clone())
        })
        .unwrap_or_default();
        let n = if pt.len() < 2 { 0 } else { u16::from_le_bytes([pt[0], pt[1]]) as usize };
        let inner = pt.get(2..2 + n).unwrap_or(&[]).to_vec();
        let (app, pay) = match tr {
            Tr::Mctp => (inner.first() == Some(&1), inner.get(1..).unwrap_or(&[]).to_vec()),
            Tr::Doe => (false, inner),
        };
        v.push(Msg { dir, sec, app, pay });
    }
    v
}
/// (longest request, longest answer) of an operation, parts that adapt to the limit left out
type Need = (usize, usize);
fn need_of(ms: &[Msg]) -> Need {
    let mut r = (0, 0);
    for m in ms {
        if m.app {
            continue;
        }
        let adapts = m.pay.get(1) == Some(&2) || (m.pay.get(1) == Some(&0xeb) && m.pay.get(5) == Some(&2));
        let n = if adapts { 42 } else { m.pay.len() };
        match m.dir {
            Dir::ToRsp => r.0 = r.0.max(n),
            _ => r.1 = r.1.max(n),
        }
    }
    r
}
/// every operation of a history in a run without limits, over a transport that shows lengths
fn needs(cfg: &Cfg, ops: &[Op]) -> Option<Vec<Need>> {
    let mut c = cfg.clone();
    c.tr = Tr::Mctp;
    c.req.dts = 4096;
    c.rsp.dts = 4096;
    c.req.max_msg = 4096;
    c.rsp.max_msg = 4096;
    let mut w = World::new(&c);
    let mut v = vec![];
    for o in ops {
        let k = mark();
        if w.op(o).is_err() {
            return None;
        }
        v.push(need_of(&messages(Tr::Mctp, k)));
    }
    Some(v)
}
fn too_large(ver: u8) -> Vec<u8> {
    m_err(ver, 0xd, 0)
}
/// whether every message of these respects the limits
fn respect(cfg: &Cfg, ms: &[Msg], t: &mut T) -> bool {
    for m in ms {
        let lim = match m.dir {
            Dir::ToRsp => cfg.rsp.dts,
            _ => cfg.req.dts,
        } as usize;
        // a DOE data object is padded to whole dwords
        let lim = if cfg.tr == Tr::Doe && !m.sec { (lim + 3) / 4 * 4 } else { lim };
        if !m.app && m.pay.len() > lim {
            t.fail(if m.dir == Dir::ToRsp { "limit/request" } else { "limit/answer" }, format!("a message of {} bytes ({:02x?}…), announced {lim}", m.pay.len(), &m.pay[..4]));
            return false;
        }
    }
    true
}
/// run a history under limits: operations that fit succeed with the right result, the others fail and change nothing
fn run_limited(cfg: &Cfg, ops: &[Op], nd: &[Need], t: &mut T) {
    let mut w = World::new(cfg);
    let mut u = User::default();
    let mut out = String::new();
    // sessions of the plan and whether they exist here
    let mut plan: Vec<Option<usize>> = vec![];
    for (i, o) in ops.iter().enumerate() {
        let k = mark();
        let (nq, ns) = nd[i];
        let fits = nq <= cfg.rsp.dts as usize && ns <= cfg.req.dts as usize;
        // renumber the session
        let o = match rename(o, &plan) {
            Some(o) => o,
            None => continue,
        };
        let opens = matches!(o, Op::Ke(..) | Op::Psk(_));
        if fits {
            if opens {
                plan.push(Some(w.sids.len()));
            }
            if !honest(&mut w, &[o.clone()], t, &mut u) {
                return;
            }
            out.push('1');
            if !respect(cfg, &messages(cfg.tr, k), t) {
                return;
            }
            continue;
        }
        out.push('0');
        let before = (nego(&w.req.common), sess_table(&w.req.common), rsp(|r| (nego(&r.common), sess_table(&r.common))));
        let r = w.op(&o);
        t.step(w.fp());
        let ms = messages(cfg.tr, k);
        if !respect(cfg, &ms, t) {
            return;
        }
        if let Ok(x) = r {
            return t.fail("limit/success", format!("op {i} {} returned {x:x?} although a message of {nq}/{ns} bytes exceeds {}/{}", o.short(), cfg.rsp.dts, cfg.req.dts));
        }
        // what ended the operation: a request that was not sent, or one ResponseTooLarge
        let errs = ms.iter().filter(|m| m.pay.get(1) == Some(&0x7f)).count();
        if nq <= cfg.rsp.dts as usize {
            let last = match ms.last() {
                Some(m) => m,
                None => return t.fail("limit/silent", format!("op {i} {}", o.short())),
            };
            let want = too_large(common_ver(cfg));
            let padded = last.pay.len() >= 4 && last.pay[..4] == want[..] && last.pay[4..].iter().all(|x| *x == 0) && (cfg.tr == Tr::Doe || last.pay.len() == 4);
            if errs != 1 || last.dir != Dir::ToReq || !padded {
                return t.fail("limit/error", format!("op {i} {}: {errs} errors, last {:?} {:02x?}", o.short(), last.dir, &last.pay[..last.pay.len().min(16)]));
            }
            let sec = ms.iter().rev().find(|m| m.dir == Dir::ToRsp).map_or(false, |m| m.sec);
            if last.sec != sec {
                return t.fail("limit/error-form", format!("op {i} {}: request secured {sec}, error secured {}", o.short(), last.sec));
            }
        }
        if opens {
            plan.push(None);
            w.sids.push(0xdead_beef);
            u.nsess += 1;
        }
        if matches!(o, Op::Init) {
            // nothing else works without a connection
            let st = (sess_table(&w.req.common), rsp(|r| sess_table(&r.common)));
            if !st.0.is_empty() || !st.1.is_empty() {
                return t.fail("limit/init", format!("{st:x?}"));
            }
            return t.out(out);
        }
        let after = (nego(&w.req.common), sess_table(&w.req.common), rsp(|r| (nego(&r.common), sess_table(&r.common))));
        let half = opens && ms.iter().any(|m| m.dir == Dir::ToReq && matches!(m.pay.get(1), Some(0x64 | 0x66)));
        if half {
            // the handshake had begun: what is left at the responder is no established session
            let left: Vec<_> = (after.2).1.iter().filter(|x| !(before.2).1.contains(x)).collect();
            if after.1 != before.1 || left.iter().any(|x| x.1 == 2) || left.len() > 1 {
                return t.fail("limit/half", format!("op {i} {}: {before:x?} {after:x?}", o.short()));
            }
            return t.out(out);
        }
        if after != before {
            return t.fail("limit/trace", format!("op {i} {}: {before:x?} -> {after:x?}", o.short()));
        }
    }
    probe_sessions(&mut w, &u, t);
    t.out(out);
}
fn rename(o: &Op, plan: &[Option<usize>]) -> Option<Op> {
    let s = |h: &usize| plan.get(*h).copied().flatten();
    let so = |h: &Option<usize>| match h {
        None => Some(None),
        Some(h) => s(h).map(Some),
    };
    Some(match o {
        Op::Digest(h) => Op::Digest(so(h)?),
        Op::Cert(h, x) => Op::Cert(so(h)?, *x),
        Op::Meas(h, a, b, c) => Op::Meas(so(h)?, *a, *b, *c),
        Op::Hb(h) => Op::Hb(s(h)?),
        Op::Ku(h, x) => Op::Ku(s(h)?, *x),
        Op::App(h, d) => Op::App(s(h)?, d.clone()),
        Op::Vendor(h, d) => Op::Vendor(so(h)?, d.clone()),
        Op::End(h) => Op::End(s(h)?),
        x => x.clone(),
    })
}
fn configs(deep: bool) -> Vec<(String, Cfg)> {
    let mut v = vec![];
    for tr in [Tr::Mctp, Tr::Doe] {
        let mut c = cfg_v(0x12, tr);
        c.rsp.slots = vec![(0, 0), (1, 0)];
        v.push((format!("std {tr:?}"), c.clone()));
        let mut s = c.clone();
        set_algs(&mut s, 1, 4, 8, 1);
        s.req.req_asym = 4;
        s.rsp.req_asym = 4;
        v.push((format!("rsa {tr:?}"), s));
        let mut s = c.clone();
        s.req.caps |= rc::CLEAR;
        s.rsp.caps |= sc::CLEAR;
        v.push((format!("clear {tr:?}"), s));
        if deep {
            let mut s = c.clone();
            s.meas = (1..=20).map(|i| fake::MeasBlock { index: i, repr: 0x81, value: vec![i; 100] }).collect();
            s.rsp.slots = (0..8).map(|k| (k, 0)).collect();
            v.push((format!("many {tr:?}"), s));
            let mut s = c.clone();
            set_algs(&mut s, 4, 0x40, 16, 4);
            v.push((format!("sha512 {tr:?}"), s));
            let mut s = c.clone();
            s.rsp.caps = (s.rsp.caps & !sc::PSK) | sc::PSK_CTX;
            v.push((format!("pskctx {tr:?}"), s));
        }
    }
    v
}
fn limit(cfg: &Cfg, who: usize, l: u32) -> Cfg {
    let mut c = cfg.clone();
    if who != 1 {
        c.req.dts = l;
        c.req.max_msg = c.req.max_msg.max(l);
    }
    if who != 0 {
        c.rsp.dts = l;
        c.rsp.max_msg = c.rsp.max_msg.max(l);
    }
    c
}
/// every length from the least legal one
fn flows(c: &Ctx) {
    let deep = !c.quick();
    for (name, cfg) in configs(deep) {
        for rev in [false, true] {
            if rev && !deep {
                continue;
            }
            let ops = long_history(&cfg, rev);
            let mut nd = None;
            c.par(&format!("flow {name}{}", if rev { " rev" } else { "" }), 3, |_, t| {
                if needs(&cfg, &ops).is_none() {
                    t.fail("flow/plan", "the history fails without limits".to_string());
                }
            });
            if nd.is_none() {
                nd = needs(&cfg, &ops);
            }
            let nd = match nd {
                Some(x) => x,
                None => continue,
            };
            let top = nd.iter().map(|x| x.0.max(x.1)).max().unwrap_or(0);
            let ls: Vec<u32> = (42..=top as u32 + 2).filter(|l| deep || l % 4 == 0 || nd.iter().any(|x| [x.0, x.1].iter().any(|y| (*y as i64 - *l as i64).abs() <= 1))).collect();
            c.par(&format!("limit {name}{}", if rev { " rev" } else { "" }), 3 * ls.len(), |i, t| {
                let d = digits(i, &[ls.len(), 3]);
                run_limited(&limit(&cfg, d[1], ls[d[0]]), &ops, &nd, t);
            });
        }
    }
}
/// orders of operations at the limits that divide them
fn orders(c: &Ctx) {
    for (name, cfg) in configs(!c.quick()).into_iter().filter(|x| !x.0.contains("Doe") || !c.quick()) {
        let mut letters = vec![Op::Digest(None), Op::Cert(None, 0), Op::Meas(None, false, 0xff, 0), Op::Meas(None, false, 1, 0), Op::Vendor(None, vec![1; 30]), Op::Psk(0)];
        if can_sign(0x12) {
            letters.extend([Op::Chal(0, 0), Op::Chal(0, 0xff), Op::Meas(None, true, 0xff, 0), Op::Meas(None, true, 0, 0)]);
        }
        if can_ke(&cfg) {
            letters.extend([Op::Ke(0, 0), Op::Ke(0, 0xff)]);
        }
        letters.extend([Op::Digest(Some(0)), Op::Cert(Some(0), 0), Op::Meas(Some(0), false, 0xff, 0), Op::Vendor(Some(0), vec![2; 30]), Op::Hb(0), Op::Ku(0, 1), Op::Ku(0, 2), Op::End(0)]);
        if can_sign(0x12) {
            letters.push(Op::Meas(Some(0), true, 0xff, 0));
        }
        let heads: Vec<Vec<Op>> = vec![vec![Op::Init, Op::Cert(None, 0)], vec![Op::Init, Op::Cert(None, 0), Op::Psk(0)]];
        let k = c.pick(2, 3);
        let total = count_seqs(letters.len(), k);
        let ch = 16;
        let per = (total + ch - 1) / ch;
        c.par(&format!("order {name}"), heads.len() * per, |i, t| {
            let d = digits(i, &[per, heads.len()]);
            for j in d[0] * ch..((d[0] + 1) * ch).min(total) {
                let mut ops = heads[d[1]].clone();
                ops.extend(nth_seq(j, letters.len(), k).iter().map(|x| letters[*x].clone()));
                let nd = match needs(&cfg, &ops) {
                    Some(n) => n,
                    None => continue, // not a history of this configuration
                };
                let mut ls: Vec<u32> = nd.iter().skip(1).flat_map(|x| [x.0 as u32, x.1 as u32]).filter(|x| *x > 52).flat_map(|x| [x - 1, x]).collect();
                ls.sort();
                ls.dedup();
                for l in ls {
                    for who in 0..2 {
                        run_limited(&limit(&cfg, who, l), &ops, &nd, t);
                        if !t.fails.is_empty() {
                            t.fail("order/limit", format!("limit {l} of {}", ["requester", "responder"][who]));
                            return;
                        }
                    }
                }
            }
        });
    }
}
/// vendor-defined and application payloads of every length around the limit
fn payloads(c: &Ctx) {
    let deep = !c.quick();
    let ls: Vec<u32> = if deep { (42..=300).chain([511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4000, 4095, 4096]).collect() } else { vec![60, 61, 62, 63, 64, 150, 255, 256, 257, 512, 1024, 4095, 4096] };
    for tr in [Tr::Mctp, Tr::Doe] {
        c.par(&format!("payload {tr:?}"), ls.len() * 2 * 2, |i, t| {
            let d = digits(i, &[ls.len(), 2, 2]);
            let (l, who, sess) = (ls[d[0]], d[1], d[2] == 1);
            let cfg = limit(&cfg_v(0x12, tr), who, l.max(150));
            let mut w = World::new(&cfg);
            let mut u = User::default();
            let mut head = vec![Op::Init];
            if sess {
                head.push(Op::Psk(0));
            }
            if !honest(&mut w, &head, t, &mut u) {
                return;
            }
            // the announced sizes of the next connection are the same: only the payload lengths vary
            let lim = l.max(150) as usize;
            let over = m_vendor(0x12, true, &[]).len();
            for n in lim.saturating_sub(over + 6)..=lim + 3 {
                for rn in [n, n.saturating_sub(1), 0] {
                    if n + over > 4096 || rn + over > 4096 {
                        continue;
                    }
                    // a request of n bytes, an answer of rn bytes
                    let data: Vec<u8> = (0..n).map(|k| k as u8 ^ 0x31).collect();
                    let reply: Vec<u8> = (0..rn).map(|k| k as u8 ^ 0x77).collect();
                    let rp = reply.clone();
                    fake::with(|e| e.vendor_rsp = Some(rp.clone()));
                    let k = mark();
                    let calls = fake::with(|e| e.vendor_calls.len());
                    let r = w.op(&Op::Vendor(if sess { Some(0) } else { None }, data.clone()));
                    t.step(w.fp());
                    let ms = messages(tr, k);
                    if !respect(&cfg, &ms, t) {
                        return;
                    }
                    let okq = n + over <= cfg.rsp.dts as usize;
                    let oks = rn + over <= cfg.req.dts as usize;
                    let want = okq && oks;
                    if r.is_ok() != want {
                        return t.fail("payload/result", format!("request {} answer {} limits {}/{}: {:?}", n + over, rn + over, cfg.rsp.dts, cfg.req.dts, r.map(|_| ())));
                    }
                    if let Ok(x) = &r {
                        if *x != Out::Data(reply) {
                            return t.fail("payload/value", format!("{n} {rn}"));
                        }
                    }
                    if fake::with(|e| e.vendor_calls.len()) - calls != okq as usize {
                        return t.fail("payload/handler", format!("{n} {rn}"));
                    }
                    if okq && !oks {
                        let e = ms.last().map(|m| m.pay.clone()).unwrap_or_default();
                        if ms.len() != 2 || e.len() < 4 || e[..4] != too_large(0x12)[..] || ms[1].sec != sess {
                            return t.fail("payload/error", format!("{:02x?}", &e[..e.len().min(8)]));
                        }
                    }
                    if let Err((k, d)) = agreement(&w) {
                        return t.fail(k, d);
                    }
                }
            }
            fake::with(|e| e.vendor_rsp = None);
            // application data carries no such limit
            if sess && tr == Tr::Mctp {
                for n in lim.saturating_sub(4)..=(lim + 4).min(4000) {
                    let r = w.op(&Op::App(0, vec![7; n]));
                    if r.as_ref().ok() != expect_value(&cfg, &Op::App(0, vec![7; n])).as_ref() {
                        return t.fail("payload/app", format!("{n}: {:?}", r.map(|_| ())));
                    }
                }
            }
        });
    }
}
/// certificate chains arrive whole whatever the limit, in portions that fit
fn certs(c: &Ctx) {
    let deep = !c.quick();
    let ls: Vec<u32> = (42..=530).filter(|l| deep || *l < 60 || *l > 505 || l % 16 == 0).chain([700, 1024, 4096]).collect();
    let sizes: Vec<usize> = if deep { vec![0, 1000, 1500, 2040, 3000] } else { vec![0, 1500] };
    for tr in [Tr::Mctp, Tr::Doe] {
        c.par(&format!("chain {tr:?}"), ls.len() * sizes.len(), |i, t| {
            let d = digits(i, &[ls.len(), sizes.len()]);
            let mut cfg = cfg_v(0x12, tr);
            cfg.rsp.slots = vec![(0, sizes[d[1]]), (3, sizes[d[1]])];
            cfg.req.dts = ls[d[0]].max(52);
            cfg.req.max_msg = cfg.req.max_msg.max(cfg.req.dts);
            // ALGORITHMS needs 52 bytes; the smaller limits are announced to a raw exchange below
            let mut w = World::new(&cfg);
            let mut u = User::default();
            let k = mark();
            if !honest(&mut w, &[Op::Init, Op::Cert(None, 0), Op::Cert(None, 3)], t, &mut u) {
                return;
            }
            let ms = messages(tr, k);
            if !respect(&cfg, &ms, t) {
                return;
            }
            let n = ms.iter().filter(|m| m.pay.get(1) == Some(&2)).count();
            t.out(format!("{n}"));
            for s in [0usize, 3] {
                if super::c14::held(&w, s) != wire_chain(&expected_neg(&cfg).unwrap(), &cfg.rsp, false, s) {
                    return t.fail("chain/value", format!("slot {s}"));
                }
            }
        });
    }
    // a requester's own chain, delivered encapsulated
    if MUTAUTH {
        c.par("chain encap", ls.len() * sizes.len(), |i, t| {
            let d = digits(i, &[ls.len(), sizes.len()]);
            let mut cfg = cfg_v(0x12, Tr::Mctp);
            cfg.req.slots = vec![(0, sizes[d[1]])];
            cfg.rsp.dts = ls[d[0]];
            cfg.rsp.max_msg = cfg.rsp.max_msg.max(cfg.rsp.dts);
            let ops = vec![Op::Init, Op::Cert(None, 0), Op::Ke(0, 0)];
            let nd = match needs(&cfg, &ops) {
                Some(n) => n,
                None => return t.fail("chain/plan", String::new()),
            };
            run_limited(&cfg, &ops, &nd, t);
        });
    }
}
/// announced sizes that are illegal are refused by either side
fn illegal(c: &Ctx) {
    let sz = [0u32, 1, 8, 41, 42, 43, 100, 4095, 4096, 4097, u32::MAX];
    c.par("illegal", sz.len() * sz.len() * 2, |i, t| {
        let d = digits(i, &[sz.len(), sz.len(), 2]);
        let (dts, max) = (sz[d[0]], sz[d[1]]);
        let mut cfg = cfg_v(0x12, Tr::Mctp);
        let s = if d[2] == 0 { &mut cfg.req } else { &mut cfg.rsp };
        s.dts = dts;
        s.max_msg = max;
        let mut w = World::new(&cfg);
        let _ = w.op(&Op::Version);
        let r = w.op(&Op::Caps);
        t.step(w.fp());
        let ok = dts >= 42 && max >= dts;
        t.out(format!("{ok}"));
        if r.is_ok() != ok {
            return t.fail("illegal/result", format!("{dts} {max}: {r:?}"));
        }
        if !ok {
            let n = &w.req.common.negotiate_info;
            if n.req_data_transfer_size_sel | n.rsp_data_transfer_size_sel | n.req_max_spdm_msg_size_sel | n.rsp_max_spdm_msg_size_sel != 0 {
                return t.fail("illegal/recorded", format!("{dts} {max}"));
            }
        }
    });
}
/// the limits are those of the current connection
fn reconnect(c: &Ctx) {
    let ls = [52u32, 60, 104, 200, 400, 600, 4096];
    c.par("reconnect", ls.len() * ls.len() * 2, |i, t| {
        let d = digits(i, &[ls.len(), ls.len(), 2]);
        let base = cfg_v(0x12, Tr::Mctp);
        let ops = {
            let mut v = vec![Op::Init, Op::Cert(None, 0), Op::Digest(None), Op::Meas(None, false, 0xff, 0), Op::Vendor(None, vec![3; 60])];
            if can_sign(0x12) {
                v.push(Op::Chal(0, 0xff));
            }
            v
        };
        let nd = match needs(&base, &ops) {
            Some(n) => n,
            None => return t.fail("flow/plan", String::new()),
        };
        let first = limit(&base, d[2], ls[d[0]]);
        let second = limit(&base, d[2], ls[d[1]]);
        let mut w = World::new(&first);
        for (cfg, k) in [(&first, 0), (&second, 1), (&first, 2)] {
            if k > 0 {
                w.req.common.config_info.data_transfer_size = cfg.req.dts;
                w.req.common.config_info.max_spdm_msg_size = cfg.req.max_msg;
                rsp(|r| {
                    r.common.config_info.data_transfer_size = cfg.rsp.dts;
                    r.common.config_info.max_spdm_msg_size = cfg.rsp.max_msg;
                });
            }
            for (o, n) in ops.iter().zip(&nd) {
                let at = mark();
                let r = w.op(o);
                t.step(w.fp());
                if !respect(cfg, &messages(Tr::Mctp, at), t) {
                    return;
                }
                let fits = n.0 <= cfg.rsp.dts as usize && n.1 <= cfg.req.dts as usize;
                if r.is_ok() != fits {
                    return t.fail("reconnect/result", format!("{} in connection {k}: {r:?}, needs {n:?}", o.short()));
                }
            }
        }
    });
}
pub fn run(c: &Ctx) {
    illegal(c);
    reconnect(c);
    payloads(c);
    certs(c);
    flows(c);
    orders(c);
}
