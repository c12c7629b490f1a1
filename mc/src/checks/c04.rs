//! Binding: every change to every message of every authenticated flow.
use crate::explore::*;
use crate::trace::*;
use crate::user::*;
use crate::world::*;

/// is the message exchange of ops[k] part of what ops[j] authenticates
fn covered(ops: &[Op], k: usize, j: usize, ver: u8) -> bool {
    if k > j {
        return false;
    }
    let auth = matches!(ops[j], Op::Chal(..) | Op::Meas(_, true, ..) | Op::Ke(..) | Op::Psk(..));
    if !auth {
        return false;
    }
    if k == j {
        return true;
    }
    let between = &ops[k + 1..j];
    if between.iter().any(|o| matches!(o, Op::Init)) {
        return false;
    }
    match (&ops[k], &ops[j]) {
        (Op::Init, Op::Meas(..)) => ver >= 0x12,
        (Op::Init, _) => true,
        (Op::Digest(None), Op::Chal(..)) => between.iter().all(|o| matches!(o, Op::Cert(None, _))),
        (Op::Cert(None, a), Op::Chal(b, _)) => a == b && between.iter().all(|o| matches!(o, Op::Cert(None, _))),
        (Op::Meas(a, false, ..), Op::Meas(b, true, ..)) => a == b && between.iter().all(|o| matches!(o, Op::Meas(c, false, ..) if c == a)),
        _ => false,
    }
}
#[derive(Clone, Debug)]
enum Ch {
    Xor(usize, u8),
    Set(usize, u8),
    Cut(usize),
    Drop,
    Subst(usize),
    Ins(usize, u8),
    Del(usize),
}
fn keys(c: &mut spdmlib::common::SpdmContext, id: u32) -> Option<(u8, Vec<u8>)> {
    let s = c.get_session_via_id(id)?;
    let (a, b) = s.export_keys();
    let mut v = vec![];
    for k in [a, b] {
        v.extend(k.encryption_key.as_ref());
        v.extend(k.salt.as_ref());
    }
    Some((s.get_session_state().get_u8(), v))
}
fn case(cfg: &Cfg, ops: &[Op], fr: &[Fr], k: usize, ch: &Ch, t: &mut T) {
    let f = &fr[k];
    t.desc = format!("{} | frame {k} ({:?} of {}, code {:02x}) {ch:x?}", show_ops(ops), f.dir, ops[f.op].short(), f.pay.get(1).copied().unwrap_or(0));
    let mut p = f.pay.clone();
    let mut drop = false;
    match ch {
        Ch::Xor(i, x) => p[*i] ^= x,
        Ch::Set(i, x) => {
            if p[*i] == *x {
                return t.out("same");
            }
            p[*i] = *x
        }
        Ch::Cut(n) => p.truncate(*n),
        Ch::Drop => drop = true,
        Ch::Subst(j) => {
            if fr[*j].pay == p {
                return t.out("same");
            }
            p = fr[*j].pay.clone()
        }
        Ch::Ins(i, x) => p.insert(*i, *x),
        Ch::Del(i) => {
            p.remove(*i);
        }
    }
    // every byte of the message is as it was; what follows it is not part of it
    let extended = p.len() > f.pay.len() && p.starts_with(&f.pay);
    let nf = frame(cfg.tr, f.secured, &p);
    if cfg.tr == Tr::Doe && nf == f.frame {
        return t.out("same");
    }
    let mut w = World::new(cfg);
    on_frame(k, move |_| if drop { vec![] } else { vec![nf.clone()] });
    let fail = |t: &mut T, key: String, d: String| t.fail(key, d);
    let mut tampered_ok = false;
    for (j, o) in ops.iter().enumerate() {
        let r = w.op(o);
        t.step(w.fp());
        // before 1.2 a measurement signature does not cover the connection setup
        let ver = nego(&w.req.common)[0];
        t.out(if r.is_ok() { "+" } else { "-" });
        if j == f.op {
            tampered_ok = r.is_ok();
        }
        let code = f.pay.get(1).copied().unwrap_or(0);
        // the transcript covers the message if the operation it belongs to went through
        if r.is_ok() && !extended && j >= f.op && (j == f.op || tampered_ok) && covered(ops, f.op, j, ver) {
            return fail(t, format!("accepted/{}/{}{code:02x}", op_kind(o), if f.secured { "s" } else { "" }), format!("{} succeeded", o.short()));
        }
        if j == f.op && !tampered_ok && matches!(o, Op::Ke(..) | Op::Psk(..)) {
            // not established on either side, unless the only thing changed was the last answer
            let a = sess_table(&w.req.common);
            let b = rsp(|r| sess_table(&r.common));
            let known: Vec<u32> = w.sids.clone();
            if a.iter().any(|x| !known.contains(&x.0)) {
                return fail(t, format!("requester-session/{code:02x}"), format!("{a:x?} after a failed {}", o.short()));
            }
            let psk1 = matches!(o, Op::Psk(..)) && !crate::model::expected_neg(cfg).unwrap().psk_ctx();
            // a responder without a PSK context establishes on PSK_EXCHANGE itself
            if !(f.last && f.dir == Dir::ToReq) && !psk1 && b.iter().any(|x| !known.contains(&x.0) && x.1 == spdmlib::common::session::SpdmSessionState::SpdmSessionEstablished.get_u8()) {
                return fail(t, format!("responder-session/{code:02x}"), format!("{b:x?} after a failed {}", o.short()));
            }
        }
        if let (Op::Meas(_, true, ..), Ok(x)) = (o, &r) {
            if expect_value(cfg, o).map_or(false, |e| e != *x) {
                return fail(t, "wrong-record".into(), format!("{x:x?}"));
            }
        }
        // an established session is the same one on both sides
        for id in &w.sids.clone() {
            let a = keys(&mut w.req.common, *id);
            let b = rsp(|r| keys(&mut r.common, *id));
            if let (Some(a), Some(b)) = (a, b) {
                if a != b && a.0 == b.0 {
                    return fail(t, "keys-differ".into(), format!("{a:x?} {b:x?}"));
                }
            }
        }
        if r.is_ok() && matches!(o, Op::Chal(..) | Op::Ke(..) | Op::Psk(..)) {
            let mut a = nego(&w.req.common);
            let mut b = rsp(|r| nego(&r.common));
            if a[0] == 0x10 {
                for x in [&mut a, &mut b] {
                    x[1..5].fill(0);
                    x[9] = 0;
                }
            }
            if a != b {
                return fail(t, format!("nego-differs/{code:02x}"), format!("{a:x?} {b:x?}"));
            }
            if let Op::Chal(s, _) | Op::Ke(s, _) = o {
                let c = w.req.common.peer_info.peer_cert_chain[*s as usize].as_ref().map(|c| c.data[..c.data_size as usize].to_vec());
                let n = crate::model::expected_neg(cfg).unwrap();
                let want = crate::model::wire_chain(&n, &cfg.rsp, false, *s as usize);
                if c != want {
                    return fail(t, format!("other-chain/{code:02x}"), "the authenticated chain is not the one the responder has".into());
                }
            }
        }
    }
}
fn flows(cfg: &Cfg, thorough: bool) -> Vec<Vec<Op>> {
    let v = common_ver(cfg);
    let mut out = vec![];
    let (d, c0, c1) = (Op::Digest(None), Op::Cert(None, 0), Op::Cert(None, 1));
    if can_sign(v) {
        out.push(vec![Op::Init, d.clone(), c0.clone(), Op::Chal(0, 0xff)]);
        out.push(vec![Op::Init, c0.clone(), Op::Meas(None, false, 1, 0), Op::Meas(None, true, 0xff, 0)]);
        out.push(vec![Op::Init, c0.clone(), Op::Chal(0, 0), Op::Meas(None, false, 0, 0), Op::Meas(None, false, 0xff, 0), Op::Meas(None, true, 1, 0)]);
        if thorough {
            out.push(vec![Op::Init, d.clone(), c1.clone(), Op::Chal(1, 1)]);
            out.push(vec![Op::Init, d.clone(), c0.clone(), c1.clone(), Op::Meas(None, true, 0, 1)]);
            out.push(vec![Op::Init, d.clone(), c0.clone(), Op::Chal(0, 1), Op::Init, d.clone(), c0.clone(), Op::Chal(0, 1)]);
        }
    }
    if can_ke(cfg) {
        out.push(vec![Op::Init, c0.clone(), Op::Ke(0, 0xff), Op::App(0, b"x".to_vec())]);
        if thorough {
            out.push(vec![Op::Init, c1.clone(), Op::Ke(1, 1), Op::Meas(Some(0), true, 0xff, 1)]);
            out.push(vec![Op::Init, c0.clone(), Op::Ke(0, 0), Op::Ke(0, 0)]);
        }
    }
    if can_psk(cfg) {
        out.push(vec![Op::Init, Op::Psk(0xff), Op::App(0, b"x".to_vec())]);
        if thorough {
            out.push(vec![Op::Init, Op::Psk(0), Op::Psk(1)]);
        }
    }
    if cfg.tr == Tr::Doe {
        out.iter_mut().for_each(|f| f.retain(|o| !matches!(o, Op::App(..))));
    }
    out
}
pub fn run(c: &Ctx) {
    let th = !c.quick();
    let mut cfgs: Vec<(String, Cfg)> = vec![];
    for v in [0x12u8, 0x11, 0x10] {
        let mut k = cfg_v(v, Tr::Mctp);
        k.rsp.slots = vec![(0, 0), (1, 700)];
        cfgs.push((format!("{v:x}"), k));
    }
    cfgs.push(("all".into(), cfg_v(0, Tr::Mctp)));
    cfgs.push(("doe".into(), cfg_v(0x12, Tr::Doe)));
    let mut k = cfg_v(0x12, Tr::Mctp);
    k.req.caps |= rc::CLEAR;
    k.rsp.caps |= sc::CLEAR;
    cfgs.push(("clear".into(), k));
    let mut k = cfg_v(0x12, Tr::Mctp);
    k.rsp.caps = k.rsp.caps & !sc::PSK_CTX | sc::PSK;
    cfgs.push(("psk1".into(), k));
    if th {
        let mut k = cfg_v(0x11, Tr::Mctp);
        k.req.caps |= rc::CLEAR;
        k.rsp.caps |= sc::CLEAR;
        cfgs.push(("clear11".into(), k));
        cfgs.push(("doe11".into(), cfg_v(0x11, Tr::Doe)));
    }
    cfgs.iter_mut().for_each(|c| c.1.rsp.slots = vec![(0, 0), (1, 700)]);
    let deep = |n: &str| th || n == "12";
    for (n, cfg) in &cfgs {
        let mut jobs: Vec<(usize, usize, Ch)> = vec![];
        let mut fl = vec![];
        for ops in flows(cfg, deep(n)) {
            let fr = match record(cfg, &ops) {
                Some(f) => f,
                None => {
                    c.par(&format!("honest-{n}"), 1, |_, t| {
                        t.desc = show_ops(&ops);
                        t.fail("honest-run", "an honest operation fails");
                    });
                    continue;
                }
            };
            let x = fl.len();
            for (k, f) in fr.iter().enumerate() {
                // application data protects itself: C06
                if matches!(ops[f.op], Op::App(..)) {
                    continue;
                }
                for i in 0..f.pay.len() {
                    let head = i < 48;
                    if th && head {
                        (1..=255u8).for_each(|b| jobs.push((x, k, Ch::Xor(i, b))));
                    } else {
                        (0..8).for_each(|b| jobs.push((x, k, Ch::Xor(i, 1 << b))));
                        jobs.push((x, k, Ch::Xor(i, 0xff)));
                        jobs.push((x, k, Ch::Set(i, 0)));
                        jobs.push((x, k, Ch::Set(i, 0xff)));
                    }
                    if head || th || i + 40 > f.pay.len() {
                        jobs.push((x, k, Ch::Ins(i, 0)));
                        jobs.push((x, k, Ch::Del(i)));
                    }
                    if th || i < 64 || i + 64 > f.pay.len() {
                        jobs.push((x, k, Ch::Cut(i)));
                    }
                }
                jobs.push((x, k, Ch::Drop));
                for j in 0..fr.len() {
                    if j != k && fr[j].secured == f.secured {
                        jobs.push((x, k, Ch::Subst(j)));
                    }
                }
            }
            fl.push((ops, fr));
        }
        c.par(&format!("change-{n}"), jobs.len(), |i, t| {
            let (x, k, ch) = &jobs[i];
            case(cfg, &fl[*x].0, &fl[*x].1, *k, ch, t);
        });
        // replay: the whole flow twice, each message of the second pass replaced by any earlier one
        let mut jobs = vec![];
        let mut fl = vec![];
        for ops in flows(cfg, deep(n)) {
            let twice: Vec<Op> = ops.iter().cloned().chain(ops.iter().map(|o| if let Op::App(_, d) = o { Op::App(1, d.clone()) } else { o.clone() })).collect();
            if twice.iter().any(|o| matches!(o, Op::Meas(Some(_), ..))) {
                continue;
            }
            if let Some(fr) = record(cfg, &twice) {
                for k in 0..fr.len() {
                    if fr[k].op < ops.len() || matches!(twice[fr[k].op], Op::App(..)) {
                        continue;
                    }
                    for j in 0..k {
                        if fr[j].secured == fr[k].secured {
                            jobs.push((fl.len(), k, Ch::Subst(j)));
                        }
                    }
                }
                fl.push((twice, fr));
            }
        }
        c.par(&format!("replay-{n}"), jobs.len(), |i, t| {
            let (x, k, ch) = &jobs[i];
            case(cfg, &fl[*x].0, &fl[*x].1, *k, ch, t);
        });
    }
}
