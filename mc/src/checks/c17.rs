//! Transcripts across refused, failed, lost, damaged and repeated operations: what follows is authenticated as if nothing happened.
use crate::explore::*;
use crate::fake::{Actor, Kind};
use crate::faults::*;
use crate::model::*;
use crate::user::*;
use crate::world::*;

/// how badly an event may disturb what both sides have logged
#[derive(Clone, Copy, PartialEq, Debug)]
enum Cl {
    /// an honest operation
    Fine,
    /// answered with an error, which arrives
    Refused,
    /// the two sides may have seen different things
    Lost,
}
type Ev = (Cl, Op, F);
fn events(cfg: &Cfg, deep: bool) -> Vec<Ev> {
    use Actor::*;
    let mut v: Vec<Ev> = vec![];
    let ver = common_ver(cfg);
    let sg = can_sign(ver);
    let sess = can_ke(cfg) || can_psk(cfg);
    let s0 = Some(0);
    let mut fine = vec![Op::Digest(None), Op::Cert(None, 0), Op::Cert(None, 3), Op::Meas(None, false, 2, 0), Op::Meas(None, false, 0, 0), Op::Vendor(None, b"v".to_vec())];
    if sg {
        fine.extend([Op::Chal(0, 0), Op::Meas(None, true, 0xff, 0), Op::Meas(None, true, 1, 0)]);
    }
    if sess {
        fine.extend([Op::Digest(s0), Op::Cert(s0, 3), Op::Meas(s0, false, 1, 0), Op::Hb(0), Op::Ku(0, 1), Op::Vendor(s0, b"v".to_vec())]);
        if sg {
            fine.push(Op::Meas(s0, true, 2, 0));
        }
        if can_ke(cfg) {
            fine.push(Op::Ke(0, 0));
        }
        if can_psk(cfg) {
            fine.push(Op::Psk(0));
        }
    }
    for o in &fine {
        v.push((Cl::Fine, o.clone(), F::No));
    }
    let mut refused = vec![(Op::Cert(None, 5), F::No), (Op::Meas(None, false, 77, 0), F::No), (Op::Digest(None), F::Call(Rsp, Kind::HashAll, 0))];
    refused.push((Op::Meas(None, false, 2, 0), F::Call(Rsp, Kind::Measure, 0)));
    refused.push((Op::Vendor(None, b"v".to_vec()), F::Call(Rsp, Kind::Vendor, 0)));
    refused.push((Op::Meas(None, false, 2, 0), F::Call(Rsp, Kind::Random, 0)));
    if sg {
        refused.extend([
            (Op::Meas(None, true, 77, 0), F::No),
            (Op::Chal(0, 0), F::Call(Rsp, Kind::Sign, 0)),
            (Op::Chal(0, 0), F::Call(Rsp, Kind::Random, 0)),
            (Op::Chal(0, 0), F::Call(Rsp, Kind::HashAll, 0)),
            (Op::Meas(None, true, 1, 0), F::Call(Rsp, Kind::Sign, 0)),
            (Op::Meas(None, true, 1, 0), F::Call(Rsp, Kind::Random, 0)),
            (Op::Meas(None, true, 1, 3), F::Call(Rsp, Kind::Measure, 0)),
        ]);
    }
    if can_ke(cfg) {
        refused.extend([(Op::Ke(0, 0), F::Call(Rsp, Kind::Sign, 0)), (Op::Ke(0, 0), F::Call(Rsp, Kind::DheGen, 0)), (Op::Ke(0, 0), F::Call(Rsp, Kind::Random, 0))]);
    }
    if can_psk(cfg) {
        refused.push((Op::Psk(0), F::Call(Rsp, Kind::PskHs, 0)));
    }
    if sess {
        refused.extend([
            (Op::Cert(s0, 5), F::No),
            (Op::Meas(s0, false, 77, 0), F::No),
            (Op::Meas(s0, false, 1, 0), F::Call(Rsp, Kind::Measure, 0)),
            (Op::Vendor(s0, b"v".to_vec()), F::Call(Rsp, Kind::Vendor, 0)),
        ]);
        if sg {
            refused.extend([(Op::Meas(s0, true, 77, 0), F::No), (Op::Meas(s0, true, 1, 0), F::Call(Rsp, Kind::Sign, 0)), (Op::Meas(s0, true, 1, 0), F::Call(Rsp, Kind::Random, 0))]);
        }
    }
    // refused before anything is sent
    refused.extend([
        (Op::Cert(None, 9), F::No),
        (Op::Chal(9, 0), F::No),
        (Op::Ke(9, 0), F::No),
        (Op::Vendor(None, vec![7; 4087]), F::No),
        (Op::Digest(Some(9)), F::No),
        (Op::Cert(Some(9), 0), F::No),
        (Op::Meas(Some(9), false, 1, 0), F::No),
        (Op::Meas(None, true, 1, 9), F::No),
        (Op::Vendor(Some(9), b"v".to_vec()), F::No),
        (Op::Hb(9), F::No),
        (Op::Ku(9, 1), F::No),
        (Op::End(9), F::No),
    ]);
    for (o, f) in refused {
        v.push((Cl::Refused, o, f));
    }
    for o in fine {
        if matches!(o, Op::Vendor(..)) {
            continue;
        }
        let fs: &[F] = if deep {
            &[F::Lose(0), F::Lose(1), F::Corrupt(0), F::Corrupt(1), F::Error(1, 1), F::Error(1, 3), F::Lose(2), F::Lose(3), F::Corrupt(3)]
        } else {
            &[F::Lose(0), F::Lose(1), F::Error(1, 3), F::Lose(3)]
        };
        for f in fs {
            let long = matches!(o, Op::Ke(..) | Op::Psk(..) | Op::Ku(..));
            let second = matches!(f, F::Lose(2 | 3) | F::Corrupt(2 | 3));
            if second && !long || matches!(f, F::Error(..) | F::Corrupt(_)) && o.session().is_some() {
                continue;
            }
            v.push((Cl::Lost, o.clone(), *f));
        }
        if sg && matches!(o, Op::Chal(..) | Op::Meas(_, true, ..) | Op::Ke(..)) {
            v.push((Cl::Lost, o.clone(), F::Call(Req, Kind::Verify, 0)));
            v.push((Cl::Lost, o.clone(), F::Call(Req, Kind::Random, 0)));
        }
    }
    v
}
trait Sess_ {
    fn session(&self) -> Option<usize>;
}
impl Sess_ for Op {
    fn session(&self) -> Option<usize> {
        match self {
            Op::Digest(s) | Op::Cert(s, _) | Op::Meas(s, ..) | Op::Vendor(s, _) => *s,
            Op::Hb(s) | Op::Ku(s, _) | Op::App(s, _) | Op::End(s) => Some(*s),
            _ => None,
        }
    }
}
fn show(e: &[Ev]) -> String {
    e.iter().map(|(_, o, f)| format!("{}{}", o.short(), f.short())).collect::<Vec<_>>().join(" ")
}
/// each probe: operations that lead to an authentication, the last one authenticates
fn probes(cfg: &Cfg) -> Vec<(&'static str, Vec<Op>)> {
    let sg = can_sign(common_ver(cfg));
    let mut v: Vec<(&'static str, Vec<Op>)> = vec![];
    let m = |s: Option<usize>, sig, i| Op::Meas(s, sig, i, 0);
    if sg {
        v.push(("challenge", vec![Op::Chal(0, 0)]));
        v.push(("challenge-all", vec![Op::Digest(None), Op::Cert(None, 0), Op::Chal(0, 0)]));
        v.push(("meas", vec![m(None, true, 1)]));
        v.push(("meas-log", vec![m(None, false, 2), m(None, false, 1), m(None, true, 2)]));
    }
    if can_ke(cfg) {
        v.push(("ke", vec![Op::Ke(0, 0)]));
    }
    if can_psk(cfg) {
        v.push(("psk", vec![Op::Psk(0)]));
    }
    if sg && (can_ke(cfg) || can_psk(cfg)) {
        v.push(("session-meas", vec![m(Some(0), true, 1)]));
        v.push(("session-meas-log", vec![m(Some(0), false, 2), m(Some(0), true, 1)]));
    }
    v
}
fn starts(cfg: &Cfg) -> Vec<Vec<Op>> {
    let mut v = vec![vec![Op::Init, Op::Digest(None), Op::Cert(None, 0)]];
    if can_ke(cfg) {
        v.push(vec![Op::Init, Op::Cert(None, 0), Op::Ke(0, 0)]);
    } else if can_psk(cfg) {
        v.push(vec![Op::Init, Op::Digest(None), Op::Cert(None, 0), Op::Psk(0)]);
    }
    v
}
fn configs(deep: bool) -> Vec<(String, Cfg)> {
    let mut v = vec![];
    for ver in [0x12u8, 0x11, 0x10] {
        for tr in [Tr::Mctp, Tr::Doe] {
            if tr == Tr::Doe && !deep {
                continue;
            }
            let mut k = cfg_v(ver, tr);
            k.rsp.slots = vec![(0, 0), (3, 700)];
            v.push((format!("{ver:x} {tr:?}"), k.clone()));
            if ver == 0x12 {
                clear_caps(&mut k, rc::CLEAR);
                v.push((format!("{ver:x} {tr:?} sealed handshake"), k));
            }
        }
    }
    v
}
/// after these events the probe works: at once, or (if something was lost) at the second attempt, or at least on a new connection
fn case(cfg: &Cfg, start: &[Op], ev: &[Ev], name: &str, probe: &[Op], t: &mut T) {
    let mut w = World::new(cfg);
    for o in start {
        let r = w.op(o);
        t.check(r.is_ok(), "setup", || format!("{} {r:?}", o.short()));
    }
    let mut worst = Cl::Fine;
    // sessions and transcripts that a lost message may have left different
    for (cl, o, f) in ev {
        let r = op_fault(&mut w, o, *f);
        t.steps += 1;
        match cl {
            Cl::Fine => {
                // certificates needed may be missing, sessions used up
                if r.is_err() && worst == Cl::Fine {
                    t.out(format!("{} refused", op_kind(o)));
                    if !matches!(o, Op::Meas(Some(_), ..) | Op::Digest(Some(_)) | Op::Cert(Some(_), _) | Op::Hb(_) | Op::Ku(..) | Op::Vendor(Some(_), _)) {
                        t.fail(format!("honest/{}", op_kind(o)), format!("{} after {}: {r:?}", o.short(), show(ev)));
                    }
                }
            }
            Cl::Refused => {
                if *f == F::No {
                    t.check(r.is_err(), "expected-refusal", || format!("{} {r:?}", o.short()));
                }
                if worst == Cl::Fine {
                    worst = Cl::Refused;
                }
            }
            Cl::Lost => worst = Cl::Lost,
        }
    }
    t.step(w.fp());
    let alive = |w: &World| {
        let s = w.sids.get(0).copied();
        let est = |c: &spdmlib::common::SpdmContext| sess_table(c).iter().any(|x| Some(x.0) == s && x.1 == 2);
        s.is_some() && est(&w.req.common) && rsp(|r| est(&r.common))
    };
    // a loss inside a session leaves its record numbers different
    let torn = ev.iter().any(|(cl, o, _)| *cl == Cl::Lost && o.session().is_some());
    let needs = probe.iter().any(|o| o.session().is_some());
    if !needs || alive(&w) {
        let full = matches!(probe[0], Op::Ke(..) | Op::Psk(..)) && sess_table(&w.req.common).len().max(rsp(|r| sess_table(&r.common).len())) >= 4;
        let mut ok = false;
        let mut last = None;
        for k in 0..if worst == Cl::Lost { 2 } else { 1 } {
            let r: Vec<R> = probe.iter().map(|o| w.op(o)).collect();
            t.steps += probe.len() as u64;
            ok = r.iter().all(|x| x.is_ok());
            last = r.into_iter().find(|x| x.is_err());
            if ok {
                t.out(format!("attempt {k}"));
                break;
            }
        }
        if !full && !(needs && worst == Cl::Lost && (torn || !alive(&w))) {
            t.check(ok, &format!("probe/{name}/{worst:?}"), || format!("after {}: {last:?}", show(ev)));
        }
    } else {
        t.check(worst == Cl::Lost || w.sids.is_empty(), "session-gone", || format!("after {}", show(ev)));
        t.out("no session");
    }
    // a new connection always works
    let base = w.sids.len();
    let mut all = vec![Op::Init, Op::Digest(None), Op::Cert(None, 0)];
    for o in probe {
        if o.session().is_some() && w.sids.len() == base && !all.iter().any(|x| matches!(x, Op::Ke(..) | Op::Psk(..))) {
            all.push(if can_ke(cfg) { Op::Ke(0, 0) } else { Op::Psk(0) });
        }
        all.push(match o {
            Op::Meas(Some(_), a, b, c) => Op::Meas(Some(base), *a, *b, *c),
            o => o.clone(),
        });
    }
    for o in &all {
        let r = w.op(o);
        t.steps += 1;
        if r.is_err() {
            t.fail(format!("fresh/{name}"), format!("after {}: {} {r:?}", show(ev), o.short()));
            break;
        }
    }
}
pub fn run(c: &Ctx) {
    let cfgs = configs(!c.quick());
    let depth = 2;
    let mut list = vec![];
    for (ci, (_, cfg)) in cfgs.iter().enumerate() {
        let ev = events(cfg, !c.quick());
        let np = probes(cfg).len();
        for s in 0..starts(cfg).len() {
            for k in 0..count_seqs(ev.len(), depth) {
                let q = nth_seq(k, ev.len(), depth);
                // at most two events that are not honest; quick: one of the two is not a loss
                if c.quick() && q.len() == 2 && q.iter().filter(|e| ev[**e].0 == Cl::Lost).count() == 2 {
                    continue;
                }
                for p in 0..np {
                    if c.quick() && q.len() == 2 && (p + q[0] + q[1] + s) % 2 == 1 {
                        continue;
                    }
                    list.push((ci, s, k, p));
                }
            }
        }
    }
    let evs: Vec<Vec<Ev>> = cfgs.iter().map(|x| events(&x.1, !c.quick())).collect();
    c.par("events", list.len(), |i, t| {
        let (ci, s, k, p) = list[i];
        let cfg = &cfgs[ci].1;
        let ev: Vec<Ev> = nth_seq(k, evs[ci].len(), depth).iter().map(|e| evs[ci][*e].clone()).collect();
        let (name, probe) = &probes(cfg)[p];
        t.desc = format!("{} start {s}: {} then {name}", cfgs[ci].0, show(&ev));
        case(cfg, &starts(cfg)[s], &ev, name, probe, t);
    });
    if !c.quick() {
        // three events, of which at most one is a loss
        let mut list = vec![];
        let evs: Vec<Vec<Ev>> = cfgs.iter().map(|x| events(&x.1, false)).collect();
        for (ci, (_, cfg)) in cfgs.iter().enumerate().filter(|x| !x.1 .0.contains("Doe") && !probes(&x.1 .1).is_empty()) {
            let n = evs[ci].len();
            for s in 0..starts(cfg).len() {
                for k in 0..n * n * n {
                    let q = [k % n, k / n % n, k / n / n];
                    let lost = q.iter().filter(|e| evs[ci][**e].0 == Cl::Lost).count();
                    if lost < 2 {
                        let p = (k + s) % probes(cfg).len();
                        list.push((ci, s, q, p));
                    }
                }
            }
        }
        c.par("three", list.len(), |i, t| {
            let (ci, s, q, p) = list[i];
            let cfg = &cfgs[ci].1;
            let ev: Vec<Ev> = q.iter().map(|e| evs[ci][*e].clone()).collect();
            let (name, probe) = &probes(cfg)[p];
            t.desc = format!("{} start {s}: {} then {name}", cfgs[ci].0, show(&ev));
            case(cfg, &starts(cfg)[s], &ev, name, probe, t);
        });
    }
    reference(c);
    buffers(c);
    reference_session(c);
}
/// an independent requester with its own transcripts, refused requests in between
fn reference(c: &Ctx) {
    #[derive(Clone, Debug)]
    enum L {
        Dig,
        Cert,
        CertS(usize),
        Chal,
        Meas(bool, u8),
        Vend,
        Ke,
        /// refused: nothing but the restarts its code prescribes, which it makes for sure (Some(true)) or maybe
        Bad(&'static str, Option<bool>, Vec<u8>),
    }
    let mut all = vec![];
    for ver in [0x12u8, 0x11, 0x10] {
        if !can_sign(ver) {
            continue;
        }
        let mut cfg = cfg_v(ver, Tr::Mctp);
        cfg.rsp.slots = vec![(0, 0), (3, 700)];
        let mut ls = vec![L::Dig, L::Cert, L::CertS(100), L::Chal, L::Meas(false, 2), L::Meas(true, 1), L::Vend];
        if can_ke(&cfg) {
            ls.push(L::Ke);
        }
        let chal = |slot: u8| {
            let mut v = vec![ver, 0x83, slot, 0];
            v.extend([0x5a; 32]);
            v
        };
        let mut meas = vec![ver, 0xe0, 1, 77];
        meas.extend([0x5a; 32]);
        if ver > 0x10 {
            meas.push(0);
        }
        ls.extend([
            L::Bad("certificate of no slot", Some(true), m_get_cert(ver, 5, 0, 512)),
            L::Bad("certificate beyond its end", Some(true), m_get_cert(ver, 0, 5000, 512)),
            L::Bad("short certificate", None, vec![ver, 0x82, 0, 0, 0]),
            L::Bad("challenge of no slot", Some(true), chal(5)),
            L::Bad("short challenge", None, vec![ver, 0x83, 0, 0, 1, 2]),
            L::Bad("measurement of no index", Some(true), vec![ver, 0xe0, 0, 77]),
            L::Bad("signed measurement of no index", Some(true), meas),
            L::Bad("unknown request", None, vec![ver, 0xc3, 0, 0]),
            L::Bad("wrong version", None, vec![0x19, 0x81, 0, 0]),
            L::Bad("finish", None, vec![ver, 0xe5, 0, 0, 1, 2, 3, 4]),
            L::Bad("heartbeat", None, vec![ver, 0xe8, 0, 0]),
            L::Bad("short capabilities", None, vec![ver, 0xe1, 0, 0]),
        ]);
        all.push((ver, cfg, ls));
    }
    let depth = c.pick(3, 4);
    let mut list = vec![];
    for (k, (_, _, ls)) in all.iter().enumerate() {
        for i in 0..count_seqs(ls.len(), depth) {
            list.push((k, i));
        }
    }
    c.par("reference", list.len(), |i, t| {
        let (k, s) = list[i];
        let (ver, cfg, ls) = &all[k];
        let seq: Vec<L> = nth_seq(s, ls.len(), depth).iter().map(|x| ls[*x].clone()).collect();
        t.desc = format!("{ver:x} {seq:?}");
        let mut maybe: Vec<&'static str> = seq.iter().filter_map(|l| if let L::Bad(n, None, _) = l { Some(*n) } else { None }).collect();
        maybe.sort();
        maybe.dedup();
        let mut attempt = |resets: &[&str]| -> Result<(), (String, String)> {
            let w = World::new(cfg);
            let mut m = RefReq::new(cfg);
            if let Err(e) = m.init().and_then(|_| m.digest(None)).and_then(|_| m.cert(None, 0, 512)) {
                return Err(("reference/setup".to_string(), e));
            }
            let mut sessions = 0;
            let tail = [L::Chal, L::Meas(true, 1), L::Dig, L::Chal];
            for (j, l) in seq.iter().chain(if s % 2 == 0 { &tail[..1] } else { &tail[1..] }).enumerate() {
                let r = match l {
                    L::Dig => m.digest(None),
                    L::Cert => m.cert(None, 3, 512),
                    L::CertS(p) => m.cert(None, 0, *p),
                    L::Chal => m.challenge(0, 0),
                    L::Meas(sig, i) => m.meas(None, *sig, *i, 0),
                    L::Vend => m.vendor(None, b"v"),
                    L::Ke if sessions < 4 => {
                        sessions += 1;
                        m.ke(0, 0).map(|_| ())
                    }
                    L::Ke => Ok(()),
                    L::Bad(n, sure, q) => {
                        if *sure == Some(true) || resets.contains(n) {
                            m.resets(q[1], None);
                        }
                        match m.any(None, "bad", q) {
                            Ok(a) if is_err(&a) => Ok(()),
                            Ok(a) => Err(format!("answered {:02x?}", &a[..a.len().min(8)])),
                            Err(_) => Ok(()),
                        }
                    }
                };
                t.steps += 1;
                if let Err(e) = r {
                    let prev: Vec<String> = seq[..j.min(seq.len())].iter().filter_map(|l| if let L::Bad(n, ..) = l { Some(n.to_string()) } else { None }).collect();
                    return Err((format!("reference/{:?}/{}", l, prev.last().cloned().unwrap_or_default()), format!("step {j} {l:?}: {e}")));
                }
            }
            t.step(w.fp());
            Ok(())
        };
        let mut first = None;
        for k in 0..1usize << maybe.len() {
            let r: Vec<&str> = maybe.iter().enumerate().filter(|x| k >> x.0 & 1 == 1).map(|x| *x.1).collect();
            match attempt(&r) {
                Ok(()) => {
                    first = None;
                    break;
                }
                Err(e) => first = first.or(Some(e)),
            }
        }
        if let Some((k, d)) = first {
            t.fail(k, d);
        }
        t.out("ok");
    });
}
/// the same inside a session (and across it): requests of an independent requester, and an independent responder
fn reference_session(c: &Ctx) {
    let mut all = vec![];
    for (ver, tr) in [(0x12u8, Tr::Mctp), (0x12, Tr::Doe), (0x11, Tr::Mctp)] {
        if !can_sign(ver) || tr == Tr::Doe && c.quick() {
            continue;
        }
        let mut cfg = cfg_v(ver, tr);
        cfg.rsp.slots = vec![(0, 0), (3, 700)];
        let s = Some(0);
        let mut ops = vec![Op::Digest(s), Op::Cert(s, 3), Op::Meas(s, false, 1, 0), Op::Meas(s, true, 2, 0), Op::Hb(0), Op::Ku(0, 1), Op::Ku(0, 2), Op::Vendor(s, b"v".to_vec())];
        ops.extend([Op::Meas(None, false, 2, 0), Op::Meas(None, true, 1, 0), Op::Digest(None), Op::Vendor(None, b"v".to_vec())]);
        if tr == Tr::Mctp {
            ops.push(Op::App(0, b"a".to_vec()));
        }
        if can_psk(&cfg) {
            ops.push(Op::Psk(0));
        }
        all.push((ver, cfg, ops));
    }
    let depth = c.pick(3, 4);
    let mut list = vec![];
    for (k, (_, _, ls)) in all.iter().enumerate() {
        for i in 0..count_seqs(ls.len(), depth) {
            for rsp_side in [false, true] {
                list.push((k, i, rsp_side, false));
                list.push((k, i, rsp_side, true));
            }
        }
    }
    c.par("session-reference", list.len(), |i, t| {
        let (k, q, rsp_side, chal) = list[i];
        let (ver, cfg, ls) = &all[k];
        let mut ops = vec![Op::Init, Op::Digest(None), Op::Cert(None, 0), if can_ke(cfg) { Op::Ke(0, 0) } else { Op::Psk(0) }];
        let mut psk = 0;
        for x in nth_seq(q, ls.len(), depth) {
            psk += matches!(ls[x], Op::Psk(_)) as usize;
            ops.push(ls[x].clone());
        }
        if psk > 2 {
            return;
        }
        if chal {
            ops.push(Op::Chal(0, 0));
        }
        ops.extend(if q % 2 == 0 { [Op::Meas(Some(0), true, 1, 0), Op::Meas(None, true, 1, 0)] } else { [Op::Meas(None, true, 1, 0), Op::Meas(Some(0), true, 1, 0)] });
        t.desc = format!("{ver:x} {:?} {} {}", cfg.tr, if rsp_side { "responder" } else { "requester" }, show_ops(&ops));
        if rsp_side {
            let (mut w, m) = RefRsp::new(cfg).world();
            for o in &ops {
                let r = w.op(o);
                t.steps += 1;
                if r.is_err() {
                    t.fail(format!("session-reference/responder/{}", op_kind(o)), format!("{}: {r:?} {:?}", o.short(), m.borrow().bad));
                    break;
                }
            }
            t.step(w.fp());
        } else {
            let w = World::new(cfg);
            let mut m = RefReq::new(cfg);
            for o in &ops {
                let r = m.op(o);
                t.steps += 1;
                if let Err(e) = r {
                    t.fail(format!("session-reference/requester/{}", op_kind(o)), format!("{}: {e}", o.short()));
                    break;
                }
            }
            t.step(w.fp());
        }
        t.out("ok");
    });
}
/// the buffers the messages are logged in: what was appended, all of it and in order, or a refusal that changes nothing
fn buffers(c: &Ctx) {
    use spdmlib::common::*;
    let depth = c.pick(4, 5);
    // seven lengths and a reset
    let n = count_seqs(8, depth);
    c.par("buffers", 10 * n, |i, t| {
        let (which, q) = (i % 10, i / 10);
        let seq = nth_seq(q, 8, depth);
        macro_rules! run {
            ($b:ty) => {{
                let mut b = <$b>::default();
                let mut cap = 0;
                while cap < 1 << 20 && b.append_message(&[0xa5; 1]).is_some() {
                    cap += 1;
                }
                t.desc = format!("{} of {cap} bytes: {seq:?}", stringify!($b));
                if b.as_ref().len() != cap || cap == 0 {
                    t.fail("buffer/capacity", format!("{cap} bytes appended, {} held", b.as_ref().len()));
                }
                b.reset_message();
                let mut model: Vec<u8> = vec![];
                for (s, k) in seq.iter().enumerate() {
                    t.steps += 1;
                    if *k == 7 {
                        b.reset_message();
                        model.clear();
                    } else {
                        let l = [0, 1, 3, cap / 3, cap - 1, cap, cap + 1][*k];
                        let m: Vec<u8> = (0..l).map(|x| (x * 7 + s * 31 + 1) as u8).collect();
                        let fits = model.len() + l <= cap;
                        let r = guarded(|| b.append_message(&m).is_some());
                        if fits {
                            model.extend(&m);
                        }
                        if r.as_ref().ok() != Some(&fits) {
                            t.fail("buffer/answer", format!("{l} bytes onto {}: {r:?}", model.len()));
                            break;
                        }
                    }
                    if b.as_ref() != &model[..] {
                        t.fail("buffer/content", format!("after step {s}: {} bytes held, {} logged", b.as_ref().len(), model.len()));
                        break;
                    }
                    t.step(hash64(&[&[which as u8], &model]));
                }
            }};
        }
        match which {
            0 => run!(ManagedBufferA),
            1 => run!(ManagedBufferB),
            2 => run!(ManagedBufferC),
            3 => run!(ManagedBufferM),
            4 => run!(ManagedBufferK),
            5 => run!(ManagedBufferF),
            6 => run!(ManagedBufferM1M2),
            7 => run!(ManagedBufferL1L2),
            8 => run!(ManagedBufferTH),
            _ => run!(ManagedBuffer12Sign),
        }
        t.out("ok");
    });
}
