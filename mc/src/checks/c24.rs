//! Both real endpoints against independent implementations written from the specification.
use crate::explore::*;
use crate::fake;
use crate::model::*;
use crate::user::*;
use crate::world::*;

/// the traffic keys of every live session of the model are the ones the real side holds
pub fn same_keys(c: &mut spdmlib::common::SpdmContext, ss: &[Sess]) -> Result<(), String> {
    for s in ss.iter().filter(|s| !s.dead && s.established) {
        let x = c.get_session_via_id(s.sid).ok_or(format!("no session {:x}", s.sid))?;
        let (a, b) = x.export_keys();
        for (d, k) in [a, b].iter().enumerate() {
            let m = &s.data[d];
            if k.encryption_key.as_ref() != &m.key[..] || k.salt.as_ref() != &m.iv[..] || k.sequence_number != m.seq {
                return Err(format!("session {:x} direction {d}: key {:02x?} iv {:02x?} seq {}; expected {:02x?} {:02x?} {}", s.sid, k.encryption_key.as_ref(), k.salt.as_ref(), k.sequence_number, m.key, m.iv, m.seq));
            }
        }
        if !fake::with(|e| e.secrets.contains(&s.export)) {
            return Err(format!("session {:x}: the export master secret was not derived", s.sid));
        }
    }
    Ok(())
}
/// independent requester, real responder
pub fn ref_req(cfg: &Cfg, ops: &[Op], t: &mut T) {
    let w = World::new(cfg);
    let mut m = RefReq::new(cfg);
    for (i, o) in ops.iter().enumerate() {
        let r = m.op(o);
        t.step(w.fp());
        if let Err(e) = r {
            t.fail(format!("responder/{}", op_kind(o)), format!("op {i} {}: {e}", o.short()));
            return;
        }
        if let Err(e) = rsp(|r| same_keys(&mut r.common, &m.ss)) {
            t.fail("responder/keys", format!("after op {i} {}: {e}", o.short()));
            return;
        }
    }
    if ops.contains(&Op::Init) {
        let (a, mut b) = (m.n.bytes(), rsp(|r| nego(&r.common)));
        if m.n.ver == 0x10 {
            b[1..5].fill(0);
            b[9] = 0;
        }
        t.check(a == b, "responder/negotiated", || format!("{b:02x?}, expected {a:02x?}"));
    }
    t.out("ok");
}
/// real requester, independent responder
pub fn ref_rsp(m: RefRsp, ops: &[Op], t: &mut T) {
    let cfg = m.cfg.clone();
    let (mut w, m) = m.world();
    for (i, o) in ops.iter().enumerate() {
        let r = w.op(o);
        t.step(w.fp());
        if let Some(b) = m.borrow().bad.first() {
            t.fail(format!("requester/{}", op_kind(o)), format!("op {i} {}: {b}", o.short()));
            return;
        }
        match r {
            Err(e) => {
                t.fail(format!("requester-refused/{}", op_kind(o)), format!("op {i} {}: {:x?}", o.short(), e.status_code));
                return;
            }
            Ok(x) => {
                if let Some(e) = expect_value(&cfg, o) {
                    if x != e {
                        t.fail(format!("requester-value/{}", op_kind(o)), format!("op {i} {}: {x:x?}, expected {e:x?}", o.short()));
                    }
                }
            }
        }
        if let Err(e) = same_keys(&mut w.req.common, &m.borrow().ss) {
            t.fail("requester/keys", format!("after op {i} {}: {e}", o.short()));
            return;
        }
    }
    let (a, mut b) = (m.borrow().n.bytes(), nego(&w.req.common));
    if a[0] == 0x10 {
        b[1..5].fill(0);
        b[9] = 0;
    }
    t.check(a == b, "requester/negotiated", || format!("{b:02x?}, expected {a:02x?}"));
    t.out("ok");
}
pub fn run(c: &Ctx) {
    let cat = catalogue();
    let mut jobs = vec![];
    for (n, cfg) in &cat {
        for rev in [false, true] {
            jobs.push((n, cfg, long_history(cfg, rev)));
        }
    }
    let d = c.pick(1, 2);
    for (n, cfg) in &cat {
        let slots: Vec<u8> = cfg.rsp.slots.iter().map(|x| x.0 as u8).collect();
        let p = Profile { slim: true, slots };
        for pre in prefixes(cfg) {
            let mut u = User::default();
            pre.iter().for_each(|o| u.apply(o));
            let mut out = vec![];
            u.sequences(cfg, &p, d, &pre, &mut out);
            jobs.extend(out.into_iter().map(|o| (n, cfg, o)));
        }
    }
    c.par("reference-requester", jobs.len(), |i, t| {
        let (n, cfg, ops) = &jobs[i];
        t.desc = format!("{n}: {}", show_ops(ops));
        ref_req(cfg, ops, t);
    });
    c.par("reference-responder", jobs.len(), |i, t| {
        let (n, cfg, ops) = &jobs[i];
        t.desc = format!("{n}: {}", show_ops(ops));
        ref_rsp(RefRsp::new(cfg), ops, t);
    });
    // free choices of the responder: portions, opaque data, contexts, status bits, kinds of mutual authentication
    let mut jobs = vec![];
    for (n, cfg) in [("12", cfg_v(0x12, Tr::Mctp)), ("11", cfg_v(0x11, Tr::Mctp)), ("10", cfg_v(0x10, Tr::Mctp)), ("12doe", cfg_v(0x12, Tr::Doe))] {
        for portion in [1, 2, 37, 511, 512] {
            for ol in [0usize, 1, 17, 1024] {
                for ctx in [32, 33, 48, 64] {
                    for change in 0..4 {
                        for mr in if MUTAUTH { vec![0u8, 1, 2, 4] } else { vec![0] } {
                            if (ol != 0 && portion != 512) || (ctx != 32 && portion != 512) || (change != 0 && ol != 0) || (change > 0 && !n.starts_with("12")) {
                                continue;
                            }
                            if portion < 30 && !HASHED {
                                continue;
                            }
                            jobs.push((n, cfg.clone(), portion, ol, ctx, change, mr));
                        }
                    }
                }
            }
        }
    }
    c.par("responder-choices", jobs.len(), |i, t| {
        let (n, cfg, portion, ol, ctx, change, mr) = &jobs[i];
        t.desc = format!("{n} portion {portion} opaque {ol} context {ctx} change {change} mutual {mr}");
        let mut m = RefRsp::new(cfg);
        m.portion = *portion;
        m.opaque = (0..*ol).map(|x| x as u8).collect();
        m.ctx_len = *ctx;
        m.change = *change;
        m.mut_req = *mr;
        let mut ops = vec![Op::Init, Op::Digest(None), Op::Cert(None, 0)];
        if can_sign(common_ver(cfg)) {
            if HASHED || *portion > 30 {
                ops.push(Op::Chal(0, 0xff));
            }
            if HASHED || *ol < 1000 {
                ops.extend([Op::Meas(None, false, 1, 0), Op::Meas(None, true, 0xff, 0)]);
            }
        }
        let mut k = 0;
        if can_ke(cfg) {
            ops.extend([Op::Ke(0, 1), Op::Hb(0), Op::Vendor(Some(0), b"x".to_vec())]);
            k = 1;
        }
        if can_psk(cfg) {
            ops.extend([Op::Psk(0xff), Op::Ku(k, 2), Op::Vendor(Some(k), b"x".to_vec())]);
        }
        ref_rsp(m, &ops, t);
    });
    let depth = c.pick(3, 4);
    for (n, cfg, depth) in [
        ("mctp12", cfg_v(0x12, Tr::Mctp), depth),
        ("mctp11", cfg_v(0x11, Tr::Mctp), c.pick(2, 4)),
        ("mctp10", cfg_v(0x10, Tr::Mctp), c.pick(2, 4)),
        ("doe12", cfg_v(0x12, Tr::Doe), c.pick(2, 4)),
    ] {
        let p = Profile { slim: true, slots: vec![0] };
        let mut jobs = vec![];
        for pre in prefixes(&cfg) {
            let mut u = User::default();
            pre.iter().for_each(|o| u.apply(o));
            u.sequences(&cfg, &p, depth, &pre, &mut jobs);
        }
        c.par(&format!("orders-{n}-requester"), jobs.len(), |i, t| {
            t.desc = show_ops(&jobs[i]);
            ref_rsp(RefRsp::new(&cfg), &jobs[i], t);
        });
        c.par(&format!("orders-{n}-responder"), jobs.len(), |i, t| {
            t.desc = show_ops(&jobs[i]);
            ref_req(&cfg, &jobs[i], t);
        });
    }
}
