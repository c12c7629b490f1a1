//! Every random-bearing field on the wire is a draw of its own, made in full for that message by the side that sends it.
use super::c15;
use crate::explore::*;
use crate::fake::{self, Actor, Kind};
use crate::faults::*;
use crate::model::*;
use crate::user::*;
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

/// (name, bytes, is it a key share)
fn fields(n: &Neg, m: &[u8], psk_sum: bool) -> Vec<(&'static str, Vec<u8>, bool)> {
    let g = |a: usize, k: usize| m.get(a..a + k).map(|x| x.to_vec()).unwrap_or_default();
    let w = |a: usize| m.get(a..a + 2).map_or(0, |x| u16::from_le_bytes([x[0], x[1]]) as usize);
    let dh = fake::dhe_size(spdmlib::protocol::SpdmDheAlgo::from_bits_truncate(n.dhe));
    match m.get(1) {
        Some(0x83) => vec![("CHALLENGE nonce", g(4, 32), false)],
        Some(0x03) => vec![("CHALLENGE_AUTH nonce", g(4 + n.hs(), 32), false)],
        Some(0xe0) if m[2] & 1 != 0 => vec![("GET_MEASUREMENTS nonce", g(4, 32), false)],
        Some(0x60) => {
            let len = u32::from_le_bytes([m[5], m[6], m[7], 0]) as usize;
            vec![("MEASUREMENTS nonce", g(8 + len, 32), false)]
        }
        Some(0xe4) => vec![("KEY_EXCHANGE random", g(8, 32), false), ("KEY_EXCHANGE share", g(40, dh), true)],
        Some(0x64) => vec![("KEY_EXCHANGE_RSP random", g(8, 32), false), ("KEY_EXCHANGE_RSP share", g(40, dh), true)],
        Some(0xe6) => vec![("PSK_EXCHANGE context", g(12 + w(6), w(8)), false)],
        Some(0x66) if w(8) > 0 => vec![("PSK_EXCHANGE_RSP context", g(12 + if psk_sum { n.hs() } else { 0 }, w(8)), false)],
        _ => vec![],
    }
}
struct Mon {
    last: [(usize, usize); 2],
    used: Vec<Vec<u8>>,
    sum: bool,
    bad: Vec<(String, String)>,
    n: usize,
}
/// watch every frame of this execution
fn watch(cfg: &Cfg, mut edit: impl FnMut(usize, Dir, &[u8]) -> Vec<Vec<u8>> + 'static) -> Rc<RefCell<Mon>> {
    let mon = Rc::new(RefCell::new(Mon { last: [(0, 0); 2], used: vec![], sum: false, bad: vec![], n: 0 }));
    let m2 = mon.clone();
    let n = expected_neg(cfg).unwrap();
    let tr = cfg.tr;
    link(|l| {
        l.hook = Some(Box::new(move |d, k, fr| {
            let (who, i) = if d == Dir::ToReq { (Actor::Rsp, 1) } else { (Actor::Req, 0) };
            let mut s = m2.borrow_mut();
            if let Some(m) = c15::sent(tr, &fr, who) {
                if m.get(1) == Some(&0xe6) {
                    s.sum = m[2] != 0;
                }
                for (name, v, share) in fields(&n, &m, s.sum) {
                    s.n += 1;
                    let (d0, h0) = s.last[i];
                    let fresh: Vec<Vec<u8>> = fake::with(|e| if share { e.dhe_pubs[h0..].iter().filter(|x| x.0 == who).map(|x| x.1.clone()).collect() } else { e.draws[d0..].iter().filter(|x| x.0 == who).map(|x| x.1.clone()).collect() });
                    let detail = |what: &str| format!("{name} in frame {k}: {what}; {:02x?}", &v[..v.len().min(40)]);
                    if v.len() < 32 {
                        s.bad.push((format!("short/{name}"), detail("too short")));
                    } else if s.used.contains(&v) {
                        s.bad.push((format!("reused/{name}"), detail("sent before")));
                    } else if !fresh.iter().any(|x| x.starts_with(&v)) {
                        s.bad.push((format!("stale/{name}"), detail(&format!("not drawn for this message: len {} draws {:?}", v.len(), fresh.iter().map(|x| (x.len(), x[0])).collect::<Vec<_>>()))));
                    }
                    s.used.push(v);
                }
                s.last[i] = fake::with(|e| (e.draws.len(), e.dhe_pubs.len()));
            }
            drop(s);
            edit(k, d, &fr)
        }))
    });
    mon
}
fn verdict(t: &mut T, mon: &Rc<RefCell<Mon>>) {
    let m = mon.borrow();
    for (k, d) in &m.bad {
        t.fail(k.clone(), d.clone());
    }
    t.steps += m.n as u64;
    t.out(format!("{} fields", (m.n + 4) / 5 * 5));
}
fn some_cfgs() -> Vec<(String, Cfg)> {
    let mut v = vec![];
    for ver in [0x12u8, 0x11, 0x10] {
        for tr in [Tr::Mctp, Tr::Doe] {
            v.push((format!("{ver:x} {tr:?}"), cfg_v(ver, tr)));
        }
    }
    let mut k = cfg_v(0x12, Tr::Mctp);
    set_algs(&mut k, 4, 4, 16, 4);
    clear_caps(&mut k, rc::CLEAR);
    v.push(("12 other algorithms".into(), k));
    v
}
fn encrypted(c: &Cfg) -> bool {
    c.req.caps & c.rsp.caps & rc::ENC != 0
}
pub fn run(c: &Ctx) {
    // everything honest
    let all: Vec<(String, Cfg)> = catalogue().into_iter().filter(|x| encrypted(&x.1)).collect();
    c.par("honest", all.len() * 2, |i, t| {
        let (name, cfg) = &all[i / 2];
        t.desc = format!("{name} order {}", i % 2);
        let mut w = World::new(cfg);
        let mon = watch(cfg, |_, _, f| vec![f.to_vec()]);
        for o in long_history(cfg, i % 2 == 1) {
            let r = w.op(&o);
            t.check(r.is_ok(), "setup", || format!("{} {r:?}", o.short()));
            t.step(w.fp());
        }
        verdict(t, &mon);
    });
    // all short orders
    let cfgs = some_cfgs();
    let depth = c.pick(2, 3);
    let mut list = vec![];
    for (ci, (_, cfg)) in cfgs.iter().enumerate() {
        for pre in prefixes(cfg) {
            let mut u = User::default();
            pre.iter().for_each(|o| u.apply(o));
            let mut seqs = vec![];
            u.sequences(cfg, &Profile { slim: c.quick(), slots: vec![0] }, depth, &pre, &mut seqs);
            list.extend(seqs.into_iter().map(|s| (ci, s)));
        }
    }
    c.par("orders", list.len(), |i, t| {
        let (ci, ops) = &list[i];
        let cfg = &cfgs[*ci].1;
        t.desc = format!("{} {}", cfgs[*ci].0, ops.iter().map(|o| o.short()).collect::<Vec<_>>().join(" "));
        let mut w = World::new(cfg);
        let mon = watch(cfg, |_, _, f| vec![f.to_vec()]);
        for o in ops {
            let _ = w.op(o);
        }
        t.step(w.fp());
        verdict(t, &mon);
    });
    // something goes wrong with one frame (or two), and the operation is tried again
    let mut list = vec![];
    for (ci, (_, cfg)) in cfgs.iter().enumerate() {
        reset_thread();
        let ops = long_history(cfg, false);
        let mut w = World::new(cfg);
        ops.iter().for_each(|o| {
            let _ = w.op(o);
        });
        let n = link(|l| l.nmsg);
        for k in 0..n {
            for f in 0..6 {
                list.push((ci, k, f));
            }
        }
    }
    c.par("faults", list.len(), |i, t| {
        let (ci, k, f) = list[i];
        let cfg = &cfgs[ci].1;
        t.desc = format!("{} frame {k} fault {f}", cfgs[ci].0);
        let (tr, ver) = (cfg.tr, common_ver(cfg));
        let mut w = World::new(cfg);
        let mon = watch(cfg, move |n, d, fr| {
            if n != k {
                return vec![fr.to_vec()];
            }
            match (f, d) {
                (0, _) => vec![],
                (1, _) => vec![spoil(tr, fr)],
                (2, _) => vec![fr.to_vec(), fr.to_vec()],
                (3, Dir::ToReq) => vec![frame(tr, false, &[ver, 0x7f, 3, 0])],
                (4, Dir::ToReq) => vec![frame(tr, false, &[ver, 0x7f, 0x42, 0, 1, 2, 3, 4])],
                (5, Dir::ToReq) => vec![frame(tr, false, &[ver, 0x7f, 1, 0])],
                _ => vec![fr.to_vec()],
            }
        });
        for o in long_history(cfg, false) {
            for _ in 0..2 {
                if w.op(&o).is_ok() {
                    break;
                }
            }
            t.steps += 1;
        }
        t.step(w.fp());
        verdict(t, &mon);
    });
    // a random source that fails, or gives less than was asked for
    let mut list = vec![];
    for rev in [false, true] {
        for (ci, (_, cfg)) in cfgs.iter().enumerate() {
            reset_thread();
            let mut t = T::new();
            c15::flow(cfg, &long_history(cfg, rev), &[], None, true, &mut t);
            let calls = fake::with(|e| e.calls.clone());
            for (k, x) in calls.iter().enumerate() {
                if x.1 == Kind::Random || x.1 == Kind::DheGen {
                    for s in [None, Some(0), Some(1), Some(2), Some(3), Some(9)] {
                        if s.is_none() || x.1 == Kind::Random {
                            list.push((ci, rev, k, s));
                        }
                    }
                }
            }
        }
    }
    c.par("source", list.len(), |i, t| {
        let (ci, rev, k, s) = list[i];
        let cfg = &cfgs[ci].1;
        t.desc = format!("{} call {k} {s:?} rev {rev}", cfgs[ci].0);
        c15::flow(cfg, &long_history(cfg, rev), &[k], s, true, t);
    });
}
