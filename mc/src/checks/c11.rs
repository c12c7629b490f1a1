//! Arbitrary responses to the requester: every mutation of every response of every operation, before and after it is
//! authenticated, at record and frame level; stuck and babbling peers.
use super::c10::{mutations, M};
use crate::explore::*;
use crate::model::*;
use crate::user::*;
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Layer {
    /// before signatures and MACs are computed
    Craft,
    /// the finished message
    Msg,
    Plain,
    Frame,
}
type Evs = Vec<(Layer, String, usize)>;
struct Edit {
    seen: usize,
    at: usize,
    f: Box<dyn FnMut(Layer, &mut Vec<u8>)>,
    log: Option<Evs>,
}
type E = Rc<RefCell<Edit>>;
/// every response passes `f` at every layer, with a running number
fn install(m: &Rc<RefCell<RefRsp>>, e: &E) {
    let ev = |e: &E, l: Layer, tag: &str, q: &mut Vec<u8>| {
        let mut e = e.borrow_mut();
        if let Some(x) = &mut e.log {
            x.push((l, tag.to_string(), q.len()));
        }
        let i = e.seen;
        e.seen += 1;
        if i == e.at || e.at == usize::MAX {
            (e.f)(l, q);
        }
    };
    let (a, b, c, d) = (e.clone(), e.clone(), e.clone(), e.clone());
    let mut m = m.borrow_mut();
    m.craft = Some(Box::new(move |t, q| ev(&a, Layer::Craft, t, q)));
    m.tamper = Some(Box::new(move |t, q| ev(&b, Layer::Msg, t, q)));
    SEAL.with(|s| {
        *s.borrow_mut() = Some(Box::new(move |d, q| {
            if d == 1 {
                ev(&c, Layer::Plain, "", q)
            }
        }))
    });
    link(|l| {
        l.hook = Some(Box::new(move |dir, _, mut f| {
            if dir == Dir::ToReq {
                ev(&d, Layer::Frame, "", &mut f);
            }
            vec![f]
        }))
    });
}
fn remove(m: &Rc<RefCell<RefRsp>>) {
    let mut m = m.borrow_mut();
    m.craft = None;
    m.tamper = None;
    SEAL.with(|s| *s.borrow_mut() = None);
    link(|l| l.hook = None);
}
fn start(cfg: &Cfg, h: &[Op]) -> Res<(World, Rc<RefCell<RefRsp>>)> {
    let (mut w, m) = RefRsp::new(cfg).world();
    SEAL.with(|s| *s.borrow_mut() = None);
    link(|l| l.horizon = 10000);
    for o in h {
        if let Err(e) = w.op(o) {
            return Err(format!("{} {e:x?} {:?}", o.short(), m.borrow().bad));
        }
    }
    Ok((w, m))
}
/// a new connection to an honest peer works
fn fresh(w: &mut World, m: &Rc<RefCell<RefRsp>>) -> Res<()> {
    let cfg = w.cfg.clone();
    m.borrow_mut().bad.clear();
    let mut go = |w: &mut World, o: Op| w.op(&o).map_err(|e| format!("{}: {e:x?} {:?}", o.short(), m.borrow().bad));
    go(w, Op::Init)?;
    if can_sign(common_ver(&cfg)) {
        go(w, Op::Digest(None))?;
        go(w, Op::Cert(None, 0))?;
        go(w, Op::Chal(0, 0))?;
    }
    if can_ke(&cfg) {
        go(w, Op::Ke(0, 0))?;
        let h = w.sids.len() - 1;
        go(w, Op::Vendor(Some(h), b"v".to_vec()))?;
        go(w, Op::End(h))?;
    }
    if can_psk(&cfg) {
        go(w, Op::Psk(0))?;
        let h = w.sids.len() - 1;
        go(w, Op::Vendor(Some(h), b"v".to_vec()))?;
    }
    Ok(())
}
fn events(cfg: &Cfg, h: &[Op], o: &Op) -> Evs {
    let (mut w, m) = start(cfg, h).unwrap_or_else(|e| panic!("base {e}"));
    let e: E = Rc::new(RefCell::new(Edit { seen: 0, at: usize::MAX, f: Box::new(|_, _| {}), log: Some(vec![]) }));
    install(&m, &e);
    let r = w.op(o);
    remove(&m);
    if let Err(x) = r {
        panic!("base {} {x:x?} {:?}", o.short(), m.borrow().bad);
    }
    let l = e.borrow_mut().log.take().unwrap();
    l
}
fn ops(cfg: &Cfg, deep: bool) -> Vec<(Vec<Op>, Op)> {
    let mut v = vec![(vec![], Op::Init)];
    let n = expected_neg(cfg).unwrap();
    let sign = can_sign(n.ver);
    let mut b = vec![Op::Init];
    v.push((b.clone(), Op::Digest(None)));
    b.push(Op::Digest(None));
    v.push((b.clone(), Op::Cert(None, 0)));
    b.push(Op::Cert(None, 0));
    if sign {
        v.push((b.clone(), Op::Chal(0, 0)));
        v.push((b.clone(), Op::Chal(0, 0xff)));
    }
    for op in [0, 1, 0xff] {
        v.push((b.clone(), Op::Meas(None, false, op, 0)));
        if sign {
            v.push((b.clone(), Op::Meas(None, true, op, 0)));
        }
    }
    v.push((b.clone(), Op::Vendor(None, b"v".to_vec())));
    let mut ss = vec![];
    if can_ke(cfg) {
        v.push((b.clone(), Op::Ke(0, 0)));
        v.push((b.clone(), Op::Ke(0, 0xff)));
        let mut s = b.clone();
        s.push(Op::Ke(0, 0));
        ss.push(s);
    }
    if can_psk(cfg) {
        v.push((b.clone(), Op::Psk(0)));
        v.push((b.clone(), Op::Psk(0xff)));
        if deep || ss.is_empty() {
            let mut s = b.clone();
            s.push(Op::Psk(0));
            ss.push(s);
        }
    }
    for s in &ss {
        v.extend([Op::Hb(0), Op::Ku(0, 1), Op::Ku(0, 2), Op::Digest(Some(0)), Op::Cert(Some(0), 0), Op::Meas(Some(0), sign, 0xff, 0), Op::Meas(Some(0), false, 1, 0), Op::Vendor(Some(0), b"v".to_vec()), Op::End(0), Op::Init].map(|o| (s.clone(), o)));
        if cfg.tr == Tr::Mctp {
            v.push((s.clone(), Op::App(0, b"app".to_vec())));
        }
    }
    v
}
/// is success with this change impossible to justify?
fn must_fail(tr: Tr, layer: Layer, tag: &str, mu: M, len: usize) -> bool {
    match (layer, mu) {
        // a malformed encapsulated request is answered with an encapsulated error: it is for the responder to give up
        (Layer::Msg | Layer::Craft, M::Cut(n)) if tag == "deliver" => n < 4,
        // in a DOE frame padding may complete a message
        (Layer::Msg | Layer::Craft, M::Cut(n)) => tag != "app" && (tr == Tr::Mctp || n % 4 == 0 && n + 3 < len),
        (Layer::Msg | Layer::Craft, M::Set(0 | 1, _) | M::Xor(0 | 1, _) | M::Add(0 | 1, _) | M::Word(0, _)) => tag != "app",
        (Layer::Plain, M::Cut(_)) => true,
        (Layer::Frame, M::Cut(n)) => tr == Tr::Doe || n + 1 < len && tag != "app",
        (Layer::Frame, M::Set(0, _) | M::Xor(0, _) | M::Add(0, _)) => true,
        _ => false,
    }
}
struct Job {
    x: usize,
    ev: usize,
    layer: Layer,
    tag: String,
    len: usize,
    n: usize,
    lo: usize,
    hi: usize,
}
fn finish(w: &mut World, m: &Rc<RefCell<RefRsp>>, t: &mut T, key: &str, what: &str) -> bool {
    t.step(w.fp());
    if link(|l| l.overrun) {
        t.fail(format!("unbounded/{key}"), what.to_string());
        return false;
    }
    if let Err(e) = fresh(w, m) {
        t.fail(format!("fresh/{key}"), format!("{what}: {e}"));
        return false;
    }
    true
}
/// every operation on a connection that negotiated only some of the algorithm families
fn partials(c: &Ctx) {
    let vers = [0x12u8, 0x11, 0x10];
    let ops = vec![
        Op::Digest(None),
        Op::Cert(None, 0),
        Op::Chal(0, 0),
        Op::Chal(0, 0xff),
        Op::Meas(None, false, 0, 0),
        Op::Meas(None, true, 1, 0),
        Op::Ke(0, 0),
        Op::Ke(0, 1),
        Op::Psk(0),
        Op::Psk(1),
        Op::Vendor(None, b"v".to_vec()),
    ];
    let k = ops.len();
    c.par("partial", vers.len() * 2 * 2 * 128 * (k * k + 1), |i, t| {
        let x = digits(i, &[k * k + 1, 128, vers.len(), 2, 2]);
        let cfg = super::c10::partial(vers[x[2]], [Tr::Mctp, Tr::Doe][x[3]], x[1]);
        let list: Vec<&Op> = if x[0] < k * k { vec![&ops[x[0] / k], &ops[x[0] % k]] } else { ops.iter().collect() };
        t.desc = format!("{:x} {:?} families {:07b} {list:?}", vers[x[2]], cfg.tr, x[1]);
        if expected_neg(&cfg).is_none() {
            return t.out("no-negotiation");
        }
        // against the model, which serves whatever is well formed, and against the real responder
        let mut w = if x[4] == 0 { RefRsp::new(&cfg).world().0 } else { World::new(&cfg) };
        if w.op(&Op::Init).is_err() {
            return t.out("refused");
        }
        for op in list {
            t.steps += 1;
            let r = w.op(op);
            let need = match op {
                Op::Ke(..) => x[1] & 0b11 != 0b11 || vers[x[2]] == 0x10,
                Op::Psk(..) => x[1] & 0b10 == 0 || vers[x[2]] == 0x10,
                _ => false,
            };
            t.check(!(need && r.is_ok()), "partial/session", || format!("{op:?} succeeded"));
        }
        t.step(w.fp());
        let r = w.op(&Op::Init).and_then(|_| w.op(&Op::Cert(None, 0)));
        t.check(r.is_ok(), "partial/later", || format!("a new connection: {r:?}"));
        t.out("ok");
    });
}
pub fn run(c: &Ctx) {
    partials(c);
    let deep = !c.quick();
    let mut cfgs: Vec<(&str, Cfg)> = vec![("12", cfg_v(0x12, Tr::Mctp)), ("12doe", cfg_v(0x12, Tr::Doe)), ("11", cfg_v(0x11, Tr::Mctp)), ("10", cfg_v(0x10, Tr::Mctp))];
    if deep {
        let mut k = cfg_v(0x12, Tr::Mctp);
        k.req.caps |= rc::CLEAR;
        k.rsp.caps |= sc::CLEAR;
        if !MUTAUTH {
            cfgs.push(("12clear", k));
        }
        let mut k = cfg_v(0x12, Tr::Mctp);
        k.rsp.caps = k.rsp.caps & !sc::PSK_CTX | sc::PSK;
        cfgs.push(("12psk", k));
    }
    for (ci, (name, cfg)) in cfgs.iter().enumerate() {
        reset_thread();
        setup_env(cfg);
        let os = ops(cfg, deep);
        let evs: Vec<Evs> = os.iter().map(|(h, o)| events(cfg, h, o)).collect();
        let mut jobs = vec![];
        let mut seen = std::collections::BTreeMap::new();
        for (x, (h, o)) in os.iter().enumerate() {
            let mut tag = String::new();
            for (ev, (layer, g, len)) in evs[x].iter().enumerate() {
                if !g.is_empty() {
                    tag = g.clone();
                } else if matches!(o, Op::App(..)) {
                    tag = "app".into();
                }
                // a long chain has many equal portions
                let k = seen.entry((x, *layer, tag.clone())).or_insert(0);
                *k += 1;
                if *k > 2 || c.quick() && (*layer == Layer::Frame && (ci > 1 || h.len() > 1 && x % 3 != 0) || ci > 0 && *k > 1) {
                    continue;
                }
                let n = (*len).min(if deep { 300 } else { 150 });
                let tot = mutations(n, deep).len();
                for lo in (0..tot).step_by(16) {
                    jobs.push(Job { x, ev, layer: *layer, tag: tag.clone(), len: *len, n, lo, hi: (lo + 16).min(tot) });
                }
            }
        }
        c.par(&format!("mutate-{name}"), jobs.len(), |i, t| {
            let j = &jobs[i];
            let (h, o) = &os[j.x];
            let ms = mutations(j.n, deep);
            t.desc = format!("{} then {}: {} {:?} {:?}..{:?}", show_ops(h), o.short(), j.tag, j.layer, ms[j.lo], ms[j.hi - 1]);
            let mut ok = false;
            for mu in &ms[j.lo..j.hi] {
                let (mut w, m) = match start(cfg, h) {
                    Ok(x) => x,
                    Err(e) => return t.fail("setup", e),
                };
                let hit = Rc::new(RefCell::new(false));
                let (h2, mu2) = (hit.clone(), *mu);
                let e: E = Rc::new(RefCell::new(Edit {
                    seen: 0,
                    at: j.ev,
                    f: Box::new(move |_, q| {
                        if let Some(x) = mu2.apply(q) {
                            *q = x;
                            *h2.borrow_mut() = true;
                        }
                    }),
                    log: None,
                }));
                install(&m, &e);
                let r = w.op(o);
                remove(&m);
                let key = format!("{}/{}/{:?}", op_kind(o), j.tag, j.layer);
                if r.is_ok() && *hit.borrow() {
                    ok = true;
                    if must_fail(cfg.tr, j.layer, &j.tag, *mu, j.len) {
                        return t.fail(format!("false-success/{key}"), format!("{mu:?} of {}: {r:x?}", j.len));
                    }
                }
                if r.is_err() && !*hit.borrow() {
                    return t.fail(format!("unchanged/{key}"), format!("{mu:?}: {r:x?}"));
                }
                if !finish(&mut w, &m, t, &key, &format!("{mu:?}")) {
                    return;
                }
            }
            t.out(if ok { "some accepted" } else { "all refused" });
        });
        // other responses: every code with every kind of body in place of each response
        let codes: Vec<u8> = if deep { (0..=255).collect() } else { (0x01..=0x04).chain(0x60..=0x6c).chain([0x7e, 0x7f, 0, 0x80, 0xe1, 0xff]).collect() };
        let bodies: Vec<Vec<u8>> = vec![vec![], vec![0; 2], vec![0; 300], vec![0xff; 300], vec![1; 40], vec![0xff; 4092]];
        let mut jobs = vec![];
        for (x, e) in evs.iter().enumerate() {
            if c.quick() && (ci == 1 || ci == 2 && x % 3 == 0) {
                continue;
            }
            let mut k = 0;
            for (ev, (l, _, _)) in e.iter().enumerate() {
                if *l == Layer::Msg {
                    k += 1;
                    if k < 4 {
                        codes.iter().for_each(|c| jobs.push((x, ev, *c)));
                    }
                }
            }
        }
        c.par(&format!("other-{name}"), jobs.len(), |i, t| {
            let (x, ev, code) = jobs[i];
            let (h, o) = &os[x];
            let tag = &evs[x][ev].1;
            t.desc = format!("{} then {}: {tag} replaced by code {code:02x}", show_ops(h), o.short());
            let ps: Vec<(u8, u8)> = if code == 0x7f {
                (0..=255).map(|p| (p, 0)).chain([(0x42, 1), (0x42, 0xff), (0x41, 3)]).collect()
            } else if deep {
                vec![(0, 0), (1, 0), (0, 1), (0xff, 0xff), (2, 2), (0x80, 0x80)]
            } else {
                vec![(0, 0), (0xff, 0xff)]
            };
            for (p1, p2) in ps {
                for b in if code == 0x7f { &bodies[..2] } else { &bodies[..] } {
                    let (mut w, m) = match start(cfg, h) {
                        Ok(x) => x,
                        Err(e) => return t.fail("setup", e),
                    };
                    let mut q = vec![p1, p2];
                    q.extend(b);
                    let mut same = false;
                    let e: E = Rc::new(RefCell::new(Edit {
                        seen: 0,
                        at: ev,
                        f: Box::new(move |_, m| {
                            m.truncate(1);
                            m.push(code);
                            m.extend(&q);
                        }),
                        log: None,
                    }));
                    install(&m, &e);
                    let r = w.op(o);
                    remove(&m);
                    // the very code that was expected, with a body that may be legal
                    let want: u8 = match tag.as_str() {
                        "version" => 0x04,
                        "caps" => 0x61,
                        "algs" => 0x63,
                        "digest" => 0x01,
                        "cert" => 0x02,
                        "challenge" => 0x03,
                        "meas" => 0x60,
                        "ke" => 0x64,
                        "finish" => 0x65,
                        "psk" => 0x66,
                        "psk_finish" => 0x67,
                        _ => {
                            same = true;
                            0
                        }
                    };
                    same |= want == code;
                    if r.is_ok() && (!same || code == 0x7f) {
                        return t.fail(format!("false-success/{}/{tag}/other", op_kind(o)), format!("{code:02x} {p1:x} {p2:x} +{}: {r:x?}", b.len()));
                    }
                    if !finish(&mut w, &m, t, &format!("{}/{tag}/other", op_kind(o)), &format!("{code:02x} {p1:x} {p2:x}")) {
                        return;
                    }
                }
            }
            t.out("ok");
        });
        // peers that repeat themselves, answer everything alike, or send other frames
        let mut jobs = vec![];
        let kinds = 12;
        for (x, e) in evs.iter().enumerate() {
            for (ev, (l, _, _)) in e.iter().enumerate() {
                if *l == Layer::Msg || *l == Layer::Frame {
                    (0..kinds).for_each(|k| jobs.push((x, ev, k)));
                }
            }
        }
        c.par(&format!("stuck-{name}"), jobs.len(), |i, t| {
            let (x, ev, kind) = jobs[i];
            let (h, o) = &os[x];
            let layer = evs[x][ev].0;
            t.desc = format!("{} then {}: response event {ev} {layer:?} behaviour {kind}", show_ops(h), o.short());
            let (mut w, m) = match start(cfg, h) {
                Ok(x) => x,
                Err(e) => return t.fail("setup", e),
            };
            let keep: Rc<RefCell<Option<Vec<u8>>>> = Rc::new(RefCell::new(None));
            let cnt = Rc::new(RefCell::new(0usize));
            let tr = cfg.tr;
            let e: E = Rc::new(RefCell::new(Edit {
                seen: 0,
                at: usize::MAX,
                f: Box::new(move |l, q| {
                    let mut n = cnt.borrow_mut();
                    let i = *n;
                    *n += 1;
                    if l != layer || i < ev {
                        return;
                    }
                    let first = keep.borrow().is_none();
                    match kind {
                        // the same for ever
                        0 => {
                            let mut k = keep.borrow_mut();
                            match &*k {
                                None => *k = Some(q.clone()),
                                Some(x) => *q = x.clone(),
                            }
                        }
                        1 => q.clear(),
                        2 => q.truncate(1),
                        3 => *q = vec![0; 4],
                        4 => *q = vec![0xff; 4096],
                        5 => *q = vec![q[0]; 4160],
                        6 => *q = vec![0; 5000],
                        7 => {
                            let v = if l == Layer::Frame { frame(tr, false, &[0x12, 0x7f, 0x42, 0, 1, 2, 3, 4]) } else { vec![q[0], 0x7f, 0x42, 0, 1, 2, 3, 4] };
                            *q = v
                        }
                        // only this one
                        8 if first => *q = vec![0; 64],
                        9 if first => *q = vec![0xff; 64],
                        10 if first => *q = vec![5, 0x12],
                        11 if first => *q = [&q[..], &q[..]].concat(),
                        _ => {}
                    }
                    if kind >= 8 {
                        *keep.borrow_mut() = Some(vec![]);
                    }
                }),
                log: None,
            }));
            install(&m, &e);
            let r = w.op(o);
            remove(&m);
            t.out(if r.is_ok() { "ok" } else { "err" });
            finish(&mut w, &m, t, &format!("{}/stuck", op_kind(o)), &format!("{kind}"));
        });
    }
}
