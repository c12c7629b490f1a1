//! The frames of an honest run, each with the operation it belongs to; and changes to them.
use crate::world::*;

#[derive(Clone, Debug)]
pub struct Fr {
    pub op: usize,
    pub dir: Dir,
    pub frame: Vec<u8>,
    pub secured: bool,
    /// payload without transport padding
    pub pay: Vec<u8>,
    /// the last frame of its operation
    pub last: bool,
}
fn raw(cfg: &Cfg, ops: &[Op]) -> Option<Vec<(usize, Dir, Vec<u8>)>> {
    let mut w = World::new(cfg);
    let mut out = vec![];
    for (i, o) in ops.iter().enumerate() {
        let k = link(|l| l.wire.len());
        if w.op(o).is_err() {
            return None;
        }
        out.extend(link(|l| l.wire[k..].iter().map(|(d, f)| (i, *d, f.clone())).collect::<Vec<_>>()));
    }
    Some(out)
}
/// None: some operation of the honest run fails
pub fn record(cfg: &Cfg, ops: &[Op]) -> Option<Vec<Fr>> {
    let r = raw(cfg, ops)?;
    // the same run over MCTP tells the payload lengths without padding
    let lens: Vec<usize> = if cfg.tr == Tr::Doe {
        let mut c = cfg.clone();
        c.tr = Tr::Mctp;
        let m = raw(&c, ops)?;
        if m.len() != r.len() {
            return None;
        }
        // a secured MCTP record carries its sequence number, a DOE one does not; its length field is in the record
        r.iter()
            .zip(&m)
            .map(|((_, _, f), (_, _, g))| {
                let (s, p) = unframe(Tr::Doe, f).unwrap();
                if s {
                    (6 + u16::from_le_bytes([p[4], p[5]]) as usize).min(p.len())
                } else {
                    (g.len() - 1).min(p.len())
                }
            })
            .collect()
    } else {
        r.iter().map(|x| x.2.len() - 1).collect()
    };
    let n = r.len();
    Some(
        (0..n)
            .map(|i| {
                let (op, dir, f) = r[i].clone();
                let (secured, p) = unframe(cfg.tr, &f).unwrap();
                Fr { op, dir, frame: f, secured, pay: p[..lens[i]].to_vec(), last: i + 1 == n || r[i + 1].0 != op }
            })
            .collect(),
    )
}
/// replace the k-th frame of the run
pub fn on_frame(k: usize, mut f: impl FnMut(&[u8]) -> Vec<Vec<u8>> + 'static) {
    link(|l| {
        l.hook = Some(Box::new(move |_, n, fr| if n == k { f(&fr) } else { vec![fr] }));
    });
}
