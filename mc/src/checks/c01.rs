use crate::explore::*;
use crate::user::*;
use crate::world::*;

pub fn run(c: &Ctx) {
    let cat = catalogue();
    // every configuration: one long history that uses everything, twice
    let jobs: Vec<(usize, Vec<Op>)> = cat
        .iter()
        .enumerate()
        .flat_map(|(i, (_, cfg))| {
            [false, true].map(|rev| (i, long_history(cfg, rev)))
        })
        .collect();
    c.par("config", jobs.len(), |i, t| {
        let (k, ops) = &jobs[i];
        let (n, cfg) = &cat[*k];
        t.desc = format!("{n}: {}", show_ops(ops));
        let mut w = World::new(cfg);
        let mut u = User::default();
        if honest(&mut w, ops, t, &mut u) {
            probe_sessions(&mut w, &u, t);
            t.out("ok");
        }
    });
    // every configuration: all histories of small depth
    let d = c.pick(1, 2);
    let mut jobs: Vec<(usize, Vec<Op>)> = vec![];
    for (i, (_, cfg)) in cat.iter().enumerate() {
        let slots: Vec<u8> = cfg.rsp.slots.iter().map(|x| x.0 as u8).collect();
        let p = Profile { slim: true, slots };
        for pre in prefixes(cfg) {
            let mut u = User::default();
            pre.iter().for_each(|o| u.apply(o));
            let mut out = vec![];
            u.sequences(cfg, &p, d, &pre, &mut out);
            jobs.extend(out.into_iter().map(|o| (i, o)));
        }
    }
    c.par("config-orders", jobs.len(), |i, t| {
        let (k, ops) = &jobs[i];
        let (n, cfg) = &cat[*k];
        t.desc = format!("{n}: {}", show_ops(ops));
        let mut w = World::new(cfg);
        let mut u = User::default();
        if honest(&mut w, ops, t, &mut u) {
            probe_sessions(&mut w, &u, t);
            t.out("ok");
        }
    });
    // base configurations: all histories up to a depth
    let depth = c.pick(3, 4);
    for (n, cfg, depth) in [
        ("mctp12", cfg_v(0x12, Tr::Mctp), depth),
        ("mctp11", cfg_v(0x11, Tr::Mctp), c.pick(2, 4)),
        ("mctp10", cfg_v(0x10, Tr::Mctp), c.pick(2, 4)),
        ("doe12", cfg_v(0x12, Tr::Doe), c.pick(2, 4)),
    ] {
        let p = Profile { slim: true, slots: vec![0] };
        let mut jobs = vec![];
        for pre in prefixes(&cfg) {
            let mut u = User::default();
            pre.iter().for_each(|o| u.apply(o));
            u.sequences(&cfg, &p, depth, &pre, &mut jobs);
        }
        c.par(&format!("orders-{n}"), jobs.len(), |i, t| {
            let ops = &jobs[i];
            t.desc = show_ops(ops);
            let mut w = World::new(&cfg);
            let mut u = User::default();
            if honest(&mut w, ops, t, &mut u) {
                probe_sessions(&mut w, &u, t);
                t.out("ok");
            }
        });
    }
    // step-wise connection set-up with repeats
    let cfg = base_cfg();
    c.par("setup-steps", count_seqs(3, c.pick(5, 7)), |i, t| {
        // legal orders: version at any time, then capabilities, then algorithms
        let seq = nth_seq(i, 3, 7);
        let mut st = 0;
        for s in &seq {
            if *s == 0 {
                st = 1;
            } else if *s == st && st > 0 && st < 3 {
                st += 1;
            } else {
                t.out("not a legal order");
                return;
            }
        }
        t.desc = format!("{seq:?}");
        let mut w = World::new(&cfg);
        for s in &seq {
            let o = [Op::Version, Op::Caps, Op::Algs][*s].clone();
            let r = w.op(&o);
            t.step(w.fp());
            if r.is_err() {
                t.fail("refused/setup", format!("{} in {seq:?}: {r:x?}", o.short()));
                return;
            }
        }
        let mut u = User::default();
        if st == 3 {
            u.apply(&Op::Init);
        }
        let tail = if st == 3 { vec![] } else { vec![Op::Init] };
        if honest(&mut w, &tail, t, &mut u) {
            let (mut ops, last) = (vec![Op::Digest(None), Op::Cert(None, 0)], Op::Psk(0));
            if can_sign(common_ver(&cfg)) {
                ops.extend([Op::Chal(0, 0xff), Op::Meas(None, true, 0xff, 0), Op::Ke(0, 0xff)]);
            }
            ops.push(last);
            if honest(&mut w, &ops, t, &mut u) {
                probe_sessions(&mut w, &u, t);
                t.out("ok");
            }
        }
    });
}
