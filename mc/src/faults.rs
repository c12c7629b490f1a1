//! One operation with one thing going wrong on the link or in a device call.
use crate::fake::{self, Actor, Kind};
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum F {
    No,
    /// frame k of the operation does not arrive
    Lose(usize),
    /// its last payload byte changes
    Corrupt(usize),
    /// it arrives twice
    Dup(usize),
    /// an ERROR in the clear arrives instead of it (a response)
    Error(usize, u8),
    /// the k-th call of this kind by the actor fails
    Call(Actor, Kind, usize),
}
impl F {
    pub fn short(&self) -> String {
        match self {
            F::No => String::new(),
            f => format!("!{f:?}"),
        }
    }
    /// is it something only a link or peer does?
    pub fn link(&self) -> bool {
        !matches!(self, F::No | F::Call(..))
    }
}
pub fn spoil(tr: Tr, fr: &[u8]) -> Vec<u8> {
    // the last byte of the payload: padding of a DOE frame carries nothing
    let mut v = fr.to_vec();
    if let Some((true, p)) = unframe(tr, fr) {
        let n = if tr == Tr::Mctp { p.len() } else { 6 + u16::from_le_bytes([p[4], p[5]]) as usize };
        let at = v.len() - p.len() + n - 1;
        v[at] ^= 0x40;
    } else {
        let n = v.len();
        v[n - 1] ^= 0x40;
    }
    v
}
/// install the fault for the frames that follow
pub fn arm(tr: Tr, ver: u8, f: F) {
    let base = link(|l| l.nmsg);
    match f {
        F::No => {}
        F::Call(a, k, n) => fake::with(|e| e.fail_nth = Some((a, k, n))),
        _ => link(|l| {
            l.hook = Some(Box::new(move |d, n, fr| {
                let i = n.wrapping_sub(base);
                match f {
                    F::Lose(k) if k == i => vec![],
                    F::Corrupt(k) if k == i => vec![spoil(tr, &fr)],
                    F::Dup(k) if k == i => vec![fr.clone(), fr],
                    F::Error(k, c) if k == i && d == Dir::ToReq => vec![frame(tr, false, &[ver, 0x7f, c, 0])],
                    _ => vec![fr],
                }
            }))
        }),
    }
}
pub fn disarm() {
    link(|l| l.hook = None);
    fake::with(|e| e.fail_nth = None);
}
pub fn op_fault(w: &mut World, op: &Op, f: F) -> R {
    let v = w.req.common.negotiate_info.spdm_version_sel.get_u8();
    arm(w.cfg.tr, v, f);
    let r = w.op(op);
    disarm();
    r
}
