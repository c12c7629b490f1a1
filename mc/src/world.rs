//! The closed system: a real requester, a real responder (or a scripted peer) and the link between them.
use crate::cert;
use crate::fake::{self, Actor, Kind, MeasBlock};
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::requester::RequesterContext;
use spdmlib::responder::ResponderContext;
use std::cell::RefCell;
use std::collections::VecDeque;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Tr {
    Mctp,
    Doe,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Dir {
    ToRsp,
    ToRsp2,
    ToReq,
}

#[derive(Clone, Debug)]
pub struct Side {
    pub vers: Vec<u8>,
    pub caps: u32,
    pub meas_spec: u8,
    pub meas_hash: u32,
    pub hash: u32,
    pub asym: u32,
    pub dhe: u16,
    pub aead: u16,
    pub req_asym: u16,
    pub ks: u16,
    pub opaque: u8,
    pub dts: u32,
    pub max_msg: u32,
    pub ct: u8,
    pub heartbeat: u8,
    pub policy: u8,
    pub secure_vers: Vec<u8>,
    /// slot, total size of the DER chain (0: smallest)
    pub slots: Vec<(usize, usize)>,
    pub key: u64,
    pub root: u64,
    pub trust: Option<u64>,
    pub content_change: bool,
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub tr: Tr,
    pub req: Side,
    pub rsp: Side,
    pub meas: Vec<MeasBlock>,
}

pub mod rc {
    //! requester capability bits
    pub const CERT: u32 = 2;
    pub const CHAL: u32 = 4;
    pub const ENC: u32 = 0x40;
    pub const MAC: u32 = 0x80;
    pub const MUT: u32 = 0x100;
    pub const KEX: u32 = 0x200;
    pub const PSK: u32 = 0x400;
    pub const ENCAP: u32 = 0x1000;
    pub const HB: u32 = 0x2000;
    pub const KU: u32 = 0x4000;
    pub const CLEAR: u32 = 0x8000;
}
pub mod sc {
    //! responder capability bits
    pub const CACHE: u32 = 1;
    pub const CERT: u32 = 2;
    pub const CHAL: u32 = 4;
    pub const MEAS_NOSIG: u32 = 8;
    pub const MEAS_SIG: u32 = 0x10;
    pub const FRESH: u32 = 0x20;
    pub const ENC: u32 = 0x40;
    pub const MAC: u32 = 0x80;
    pub const MUT: u32 = 0x100;
    pub const KEX: u32 = 0x200;
    pub const PSK: u32 = 0x400;
    pub const PSK_CTX: u32 = 0x800;
    pub const ENCAP: u32 = 0x1000;
    pub const HB: u32 = 0x2000;
    pub const KU: u32 = 0x4000;
    pub const CLEAR: u32 = 0x8000;
}
pub const MUTAUTH: bool = cfg!(feature = "mutauth");
pub const HASHED: bool = cfg!(feature = "hashed");

/// three measurement blocks: digest, raw, digest
pub fn std_meas(digest: usize) -> Vec<MeasBlock> {
    (1..=3u8)
        .map(|i| {
            let n = if i == 2 { 28 } else { digest };
            MeasBlock { index: i, repr: if i == 2 { 0x81 } else { i - 1 }, value: (0..n as u8).map(|k| k ^ (i << 5)).collect() }
        })
        .collect()
}
pub fn base_cfg() -> Cfg {
    let mut req = Side {
        vers: vec![0x10, 0x11, 0x12],
        caps: rc::CERT | rc::CHAL | rc::ENC | rc::MAC | rc::KEX | rc::PSK | rc::ENCAP | rc::HB | rc::KU,
        meas_spec: 1,
        meas_hash: 4,
        hash: 2,
        asym: 0x80,
        dhe: 16,
        aead: 2,
        req_asym: 0x80,
        ks: 1,
        opaque: 2,
        dts: 4096,
        max_msg: 4096,
        ct: 0,
        heartbeat: 0,
        policy: 0,
        secure_vers: vec![0x10, 0x11],
        slots: vec![(0, 0)],
        key: fake::KEY_REQ,
        root: fake::KEY_ROOT,
        trust: Some(fake::KEY_ROOT),
        content_change: false,
    };
    let mut rsp = req.clone();
    rsp.caps = sc::CERT | sc::CHAL | sc::MEAS_SIG | sc::FRESH | sc::ENC | sc::MAC | sc::KEX | sc::PSK_CTX | sc::PSK | sc::ENCAP | sc::HB | sc::KU;
    rsp.caps &= !sc::PSK;
    rsp.key = fake::KEY_RSP;
    if MUTAUTH {
        req.caps |= rc::MUT;
        rsp.caps |= sc::MUT;
    }
    let meas = std_meas(48);
    Cfg { tr: Tr::Mctp, req, rsp, meas }
}

fn ver(v: u8) -> SpdmVersion {
    match v {
        0x10 => SpdmVersion::SpdmVersion10,
        0x11 => SpdmVersion::SpdmVersion11,
        0x12 => SpdmVersion::SpdmVersion12,
        x => SpdmVersion::Unknown(x),
    }
}
pub fn conf(s: &Side, is_req: bool) -> SpdmConfigInfo {
    let mut c = SpdmConfigInfo::default();
    for i in 0..3 {
        c.spdm_version[i] = s.vers.get(i).map(|v| ver(*v)).unwrap_or_default();
    }
    if is_req {
        c.req_capabilities = unsafe { SpdmRequestCapabilityFlags::from_bits_unchecked(s.caps) };
        c.req_ct_exponent = s.ct;
    } else {
        c.rsp_capabilities = unsafe { SpdmResponseCapabilityFlags::from_bits_unchecked(s.caps) };
        c.rsp_ct_exponent = s.ct;
    }
    c.measurement_specification = SpdmMeasurementSpecification::from_bits_truncate(s.meas_spec);
    c.measurement_hash_algo = SpdmMeasurementHashAlgo::from_bits_truncate(s.meas_hash);
    c.base_hash_algo = SpdmBaseHashAlgo::from_bits_truncate(s.hash);
    c.base_asym_algo = SpdmBaseAsymAlgo::from_bits_truncate(s.asym);
    c.dhe_algo = SpdmDheAlgo::from_bits_truncate(s.dhe);
    c.aead_algo = SpdmAeadAlgo::from_bits_truncate(s.aead);
    c.req_asym_algo = SpdmReqAsymAlgo::from_bits_truncate(s.req_asym);
    c.key_schedule_algo = SpdmKeyScheduleAlgo::from_bits_truncate(s.ks);
    c.opaque_support = SpdmOpaqueSupport::from_bits_truncate(s.opaque);
    c.session_policy = s.policy;
    c.runtime_content_change_support = s.content_change;
    c.data_transfer_size = s.dts;
    c.max_spdm_msg_size = s.max_msg;
    c.heartbeat_period = s.heartbeat;
    for (d, v) in c.secure_spdm_version.iter_mut().zip(s.secure_vers.iter()) {
        *d = *v;
    }
    c
}
/// the DER chain provisioned in a slot
pub fn slot_chain(s: &Side, is_req: bool, slot: usize) -> Option<Vec<u8>> {
    let asym = if is_req { s.req_asym as u32 } else { s.asym };
    // one algorithm identifier per chain: the strongest configured one
    let top = if asym == 0 { 0x80 } else { 1 << (31 - asym.leading_zeros()) };
    s.slots.iter().find(|x| x.0 == slot).map(|x| cert::chain(s.root, s.key, 2 + slot as u8, top, x.1))
}
fn prov(s: &Side, is_req: bool, peer_asym: u32) -> SpdmProvisionInfo {
    let mut p = SpdmProvisionInfo::default();
    for slot in 0..8 {
        if let Some(c) = slot_chain(s, is_req, slot) {
            let mut d = SpdmCertChainData::default();
            d.data_size = c.len() as u16;
            d.data[..c.len()].copy_from_slice(&c);
            p.my_cert_chain_data[slot] = Some(d);
        }
    }
    if let Some(t) = s.trust {
        let top = if peer_asym == 0 { 0x80 } else { 1 << (31 - peer_asym.leading_zeros()) };
        let c = cert::root_cert(t, top);
        let mut d = SpdmCertChainData::default();
        d.data_size = c.len() as u16;
        d.data[..c.len()].copy_from_slice(&c);
        p.peer_root_cert_data = Some(d);
    }
    p
}

#[derive(Debug)]
struct ReqIo;
#[derive(Debug)]
struct RspIo;

pub type Hook = Box<dyn FnMut(Dir, usize, Vec<u8>) -> Vec<Vec<u8>>>;
pub type Peer = Box<dyn FnMut(&[u8]) -> Vec<Vec<u8>>>;

pub struct Link {
    pub rsp: Option<Box<ResponderContext<'static>>>,
    pub peer: Option<Peer>,
    pub to_rsp: VecDeque<Vec<u8>>,
    pub to_req: VecDeque<Vec<u8>>,
    /// frames as the endpoints produced them
    pub wire: Vec<(Dir, Vec<u8>)>,
    pub hook: Option<Hook>,
    pub nmsg: usize,
    pub horizon: usize,
    pub overrun: bool,
    pub flush_on_send: bool,
    pub rsp_results: Vec<Result<bool, usize>>,
    /// responses sent for each request processed
    pub rsp_counts: Vec<usize>,
    cur_sent: usize,
    pub buf_max: usize,
    pub timeouts: Vec<usize>,
}
impl Link {
    fn new() -> Self {
        Link {
            rsp: None,
            peer: None,
            to_rsp: VecDeque::new(),
            to_req: VecDeque::new(),
            wire: vec![],
            hook: None,
            nmsg: 0,
            horizon: 3000,
            overrun: false,
            flush_on_send: true,
            rsp_results: vec![],
            rsp_counts: vec![],
            cur_sent: 0,
            buf_max: 0,
            timeouts: vec![],
        }
    }
}
thread_local! {
    pub static LINK: RefCell<Link> = RefCell::new(Link::new());
}
pub fn link<R>(f: impl FnOnce(&mut Link) -> R) -> R {
    LINK.with(|l| f(&mut l.borrow_mut()))
}
pub fn reset_thread() {
    crate::leak::reset();
    // drop contexts first: their drop code calls back into the environment
    let (r, p, h) = link(|l| (l.rsp.take(), l.peer.take(), l.hook.take()));
    drop(r);
    drop(p);
    drop(h);
    link(|l| *l = Link::new());
    fake::ENV.with(|e| *e.borrow_mut() = fake::Env::new());
}

fn transmit(d: Dir, frame: &[u8]) -> SpdmResult {
    let _q = crate::leak::quiet();
    if fake::call(Kind::IoSend) {
        return Err(SPDM_STATUS_SEND_FAIL);
    }
    if std::env::var_os("MC_WIRE").is_some() {
        println!("    {:?} {} {:02x?}", d, frame.len(), &frame[..frame.len().min(48)]);
    }
    let (mut hook, n, over) = link(|l| {
        l.wire.push((d, frame.to_vec()));
        l.nmsg += 1;
        if l.nmsg > l.horizon {
            l.overrun = true;
        }
        (l.hook.take(), l.nmsg - 1, l.overrun)
    });
    if over {
        link(|l| l.hook = hook);
        return Err(SPDM_STATUS_SEND_FAIL);
    }
    let out = match hook.as_mut() {
        Some(h) => fake::as_actor(Actor::Ext, || h(d, n, frame.to_vec())),
        None => vec![frame.to_vec()],
    };
    link(|l| {
        if l.hook.is_none() {
            l.hook = hook;
        }
        for o in out {
            if d == Dir::ToReq {
                l.to_req.push_back(o)
            } else {
                l.to_rsp.push_back(o)
            }
        }
    });
    Ok(())
}
fn copy_in(f: Vec<u8>, buf: &mut [u8]) -> Result<usize, usize> {
    if f.len() > buf.len() {
        return Err(0);
    }
    buf[..f.len()].copy_from_slice(&f);
    Ok(f.len())
}
impl SpdmDeviceIo for ReqIo {
    fn send(&mut self, b: &[u8]) -> SpdmResult {
        link(|l| {
            if l.flush_on_send {
                l.to_req.clear();
                l.to_rsp.clear();
            }
        });
        transmit(Dir::ToRsp, b)
    }
    fn receive(&mut self, b: &mut [u8], to: usize) -> Result<usize, usize> {
        let _q = crate::leak::quiet();
        link(|l| l.timeouts.push(to));
        if fake::call(Kind::IoRecv) {
            return Err(0);
        }
        loop {
            if let Some(f) = link(|l| l.to_req.pop_front()) {
                return copy_in(f, b);
            }
            if !pump_one() {
                return Err(0);
            }
        }
    }
    fn flush_all(&mut self) -> SpdmResult {
        Ok(())
    }
}
impl SpdmDeviceIo for RspIo {
    fn send(&mut self, b: &[u8]) -> SpdmResult {
        link(|l| l.cur_sent += 1);
        transmit(Dir::ToReq, b)
    }
    fn receive(&mut self, b: &mut [u8], _: usize) -> Result<usize, usize> {
        let _q = crate::leak::quiet();
        match link(|l| l.to_rsp.pop_front()) {
            Some(f) => copy_in(f, b),
            None => Err(0),
        }
    }
    fn flush_all(&mut self) -> SpdmResult {
        Ok(())
    }
}
/// Let the peer consume one pending frame. False when there is none.
pub fn pump_one() -> bool {
    let (has, peer) = link(|l| (!l.to_rsp.is_empty(), l.peer.take()));
    if !has {
        link(|l| l.peer = peer);
        return false;
    }
    if let Some(mut p) = peer {
        let f = link(|l| l.to_rsp.pop_front().unwrap());
        let outs = fake::as_actor(Actor::Ext, || p(&f));
        link(|l| l.peer = Some(p));
        for o in outs {
            let _ = fake::as_actor(Actor::Ext, || transmit(Dir::ToReq, &o));
        }
        return true;
    }
    let mut r = match link(|l| l.rsp.take()) {
        Some(r) => r,
        None => {
            link(|l| l.to_rsp.clear());
            return false;
        }
    };
    link(|l| l.cur_sent = 0);
    let before = link(|l| l.to_rsp.len());
    let res = fake::as_actor(Actor::Rsp, || r.process_message(ST1, &[0])).map_err(|e| e.0);
    link(|l| {
        // a failed device receive must not be retried for ever on the same frame
        if l.to_rsp.len() == before && before > 0 {
            l.to_rsp.pop_front();
        }
        l.rsp_results.push(res);
        let c = l.cur_sent;
        l.rsp_counts.push(c);
        l.rsp = Some(r);
    });
    true
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Unit,
    Sid(u32),
    Meas { total: u8, n: u8, rec: Vec<u8>, changed: Option<u8> },
    Data(Vec<u8>),
}
pub type R = Result<Out, SpdmStatus>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Init,
    Version,
    Caps,
    Algs,
    Digest(Option<usize>),
    Cert(Option<usize>, u8),
    Chal(u8, u8),
    /// session, signature, operation, slot
    Meas(Option<usize>, bool, u8, u8),
    Ke(u8, u8),
    Psk(u8),
    Hb(usize),
    /// 1 update key, 2 update all keys, 3 verify
    Ku(usize, u8),
    App(usize, Vec<u8>),
    Vendor(Option<usize>, Vec<u8>),
    End(usize),
}
impl Op {
    pub fn short(&self) -> String {
        match self {
            Op::Init => "init".into(),
            Op::Version => "ver".into(),
            Op::Caps => "caps".into(),
            Op::Algs => "algs".into(),
            Op::Digest(s) => format!("dig{}", ss(s)),
            Op::Cert(s, n) => format!("cert{}({n})", ss(s)),
            Op::Chal(n, t) => format!("chal({n},{t:x})"),
            Op::Meas(s, g, o, n) => format!("meas{}({}{o:x},{n})", ss(s), if *g { "sig," } else { "" }),
            Op::Ke(n, t) => format!("ke({n},{t:x})"),
            Op::Psk(t) => format!("psk({t:x})"),
            Op::Hb(s) => format!("hb@{s}"),
            Op::Ku(s, o) => format!("ku{o}@{s}"),
            Op::App(s, d) => format!("app@{s}({})", d.len()),
            Op::Vendor(s, d) => format!("vnd{}({})", ss(s), d.len()),
            Op::End(s) => format!("end@{s}"),
        }
    }
}
fn ss(s: &Option<usize>) -> String {
    s.map(|x| format!("@{x}")).unwrap_or_default()
}
pub fn show_ops(o: &[Op]) -> String {
    o.iter().map(|x| x.short()).collect::<Vec<_>>().join(" ")
}
pub fn sum_ty(t: u8) -> SpdmMeasurementSummaryHashType {
    match t {
        0 => SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeNone,
        1 => SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeTcb,
        0xff => SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeAll,
        x => SpdmMeasurementSummaryHashType::Unknown(x),
    }
}
pub fn meas_op(o: u8) -> SpdmMeasurementOperation {
    match o {
        0 => SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber,
        0xff => SpdmMeasurementOperation::SpdmMeasurementRequestAll,
        x => SpdmMeasurementOperation::Unknown(x),
    }
}
pub fn ku_op(o: u8) -> SpdmKeyUpdateOperation {
    match o {
        1 => SpdmKeyUpdateOperation::SpdmUpdateSingleKey,
        2 => SpdmKeyUpdateOperation::SpdmUpdateAllKeys,
        3 => SpdmKeyUpdateOperation::SpdmVerifyNewKey,
        x => SpdmKeyUpdateOperation::Unknown(x),
    }
}

pub struct World {
    pub req: Box<RequesterContext<'static>>,
    pub cfg: Cfg,
    /// ids of sessions opened, in order; closed ones stay (index = handle)
    pub sids: Vec<u32>,
}
pub fn io_req() -> &'static mut dyn SpdmDeviceIo {
    Box::leak(Box::new(ReqIo))
}
pub fn io_rsp() -> &'static mut dyn SpdmDeviceIo {
    Box::leak(Box::new(RspIo))
}
pub fn transport(t: Tr) -> &'static mut dyn SpdmTransportEncap {
    match t {
        Tr::Mctp => Box::leak(Box::new(mctp_transport::MctpTransportEncap {})),
        Tr::Doe => Box::leak(Box::new(pcidoe_transport::PciDoeTransportEncap {})),
    }
}
pub fn new_responder(cfg: &Cfg) -> Box<ResponderContext<'static>> {
    fake::as_actor(Actor::Rsp, || Box::new(ResponderContext::new(io_rsp(), transport(cfg.tr), conf(&cfg.rsp, false), prov(&cfg.rsp, false, cfg.req.req_asym as u32))))
}
pub fn new_requester(cfg: &Cfg) -> Box<RequesterContext<'static>> {
    fake::as_actor(Actor::Req, || Box::new(RequesterContext::new(io_req(), transport(cfg.tr), conf(&cfg.req, true), prov(&cfg.req, true, cfg.rsp.asym))))
}
pub fn setup_env(cfg: &Cfg) {
    fake::with(|e| {
        e.meas = cfg.meas.clone();
        e.key_id = [cfg.req.key, cfg.rsp.key, fake::KEY_EXT];
    });
}
pub fn fp_common(c: &SpdmContext, out: &mut Vec<u8>) {
    out.push(c.runtime_info.get_connection_state().get_u8());
    out.extend(nego(c));
    for s in c.session.iter() {
        out.extend(s.get_session_id().to_le_bytes());
        out.push(s.get_session_state().get_u8());
    }
    for p in c.peer_info.peer_cert_chain.iter() {
        out.push(p.is_some() as u8);
    }
}
/// everything negotiated, as comparable bytes
pub fn nego(c: &SpdmContext) -> Vec<u8> {
    let n = &c.negotiate_info;
    let mut v = vec![n.spdm_version_sel.get_u8()];
    v.extend(n.req_capabilities_sel.bits().to_le_bytes());
    v.extend(n.rsp_capabilities_sel.bits().to_le_bytes());
    v.push(n.req_ct_exponent_sel);
    v.push(n.rsp_ct_exponent_sel);
    v.push(n.measurement_specification_sel.bits());
    v.extend(n.measurement_hash_sel.bits().to_le_bytes());
    v.extend(n.base_hash_sel.bits().to_le_bytes());
    v.extend(n.base_asym_sel.bits().to_le_bytes());
    v.extend(n.dhe_sel.bits().to_le_bytes());
    v.extend(n.aead_sel.bits().to_le_bytes());
    v.extend(n.req_asym_sel.bits().to_le_bytes());
    v.extend(n.key_schedule_sel.bits().to_le_bytes());
    v.push(n.opaque_data_support.bits());
    v.extend(n.req_data_transfer_size_sel.to_le_bytes());
    v.extend(n.req_max_spdm_msg_size_sel.to_le_bytes());
    v.extend(n.rsp_data_transfer_size_sel.to_le_bytes());
    v.extend(n.rsp_max_spdm_msg_size_sel.to_le_bytes());
    v
}
pub fn sess_table(c: &SpdmContext) -> Vec<(u32, u8)> {
    let mut v: Vec<(u32, u8)> = c.session.iter().map(|s| (s.get_session_id(), s.get_session_state().get_u8())).filter(|x| x.0 != 0 || x.1 != 0).collect();
    v.sort();
    v
}
pub fn rsp<R>(f: impl FnOnce(&mut ResponderContext<'static>) -> R) -> R {
    let mut r = link(|l| l.rsp.take()).expect("responder");
    let x = f(&mut r);
    link(|l| l.rsp = Some(r));
    x
}
pub fn has_rsp() -> bool {
    link(|l| l.rsp.is_some())
}

impl World {
    pub fn new(cfg: &Cfg) -> World {
        reset_thread();
        setup_env(cfg);
        let r = new_responder(cfg);
        link(|l| l.rsp = Some(r));
        World { req: new_requester(cfg), cfg: cfg.clone(), sids: vec![] }
    }
    /// a real requester against a scripted peer
    pub fn with_peer(cfg: &Cfg, p: Peer) -> World {
        reset_thread();
        setup_env(cfg);
        link(|l| l.peer = Some(p));
        World { req: new_requester(cfg), cfg: cfg.clone(), sids: vec![] }
    }
    pub fn fp(&self) -> u64 {
        let mut v = vec![];
        fp_common(&self.req.common, &mut v);
        v.push(0xee);
        if has_rsp() {
            rsp(|r| fp_common(&r.common, &mut v));
        }
        crate::explore::hash64(&[&v])
    }
    fn sid(&self, h: usize) -> u32 {
        self.sids.get(h).copied().unwrap_or(0xdead_beef)
    }
    /// Execute one user operation on the real requester.
    pub fn op(&mut self, op: &Op) -> R {
        let old = fake::set_actor(Actor::Req);
        let r = self.op_inner(op);
        fake::set_actor(old);
        r
    }
    fn op_inner(&mut self, op: &Op) -> R {
        let u = |r: SpdmResult| r.map(|_| Out::Unit);
        match op {
            Op::Init => u(self.req.init_connection()),
            Op::Version => u(self.req.send_receive_spdm_version()),
            Op::Caps => u(self.req.send_receive_spdm_capability()),
            Op::Algs => u(self.req.send_receive_spdm_algorithm()),
            Op::Digest(s) => {
                let s = s.map(|h| self.sid(h));
                u(self.req.send_receive_spdm_digest(s))
            }
            Op::Cert(s, n) => {
                let s = s.map(|h| self.sid(h));
                u(self.req.send_receive_spdm_certificate(s, *n))
            }
            Op::Chal(n, t) => u(self.req.send_receive_spdm_challenge(*n, sum_ty(*t))),
            Op::Meas(s, sig, o, n) => {
                let s = s.map(|h| self.sid(h));
                let mut total = 0u8;
                let mut rec = SpdmMeasurementRecordStructure::default();
                let attr = if *sig { SpdmMeasurementAttributes::SIGNATURE_REQUESTED } else { SpdmMeasurementAttributes::empty() };
                self.req.send_receive_spdm_measurement(s, *n, attr, meas_op(*o), &mut total, &mut rec)?;
                let l = rec.measurement_record_length.get() as usize;
                Ok(Out::Meas { total, n: rec.number_of_blocks, rec: rec.measurement_record_data[..l.min(rec.measurement_record_data.len())].to_vec(), changed: None })
            }
            Op::Ke(n, t) => {
                let s = self.req.start_session(false, *n, sum_ty(*t))?;
                self.sids.push(s);
                Ok(Out::Sid(s))
            }
            Op::Psk(t) => {
                let s = self.req.start_session(true, INVALID_SLOT, sum_ty(*t))?;
                self.sids.push(s);
                Ok(Out::Sid(s))
            }
            Op::Hb(h) => u(self.req.send_receive_spdm_heartbeat(self.sid(*h))),
            Op::Ku(h, o) => u(self.req.send_receive_spdm_key_update(self.sid(*h), ku_op(*o))),
            Op::App(h, d) => {
                let s = self.sid(*h);
                self.req.send_secured_message(s, d, true)?;
                let mut b = [0u8; spdmlib::config::RECEIVER_BUFFER_SIZE];
                let n = self.req.receive_secured_message(s, &mut b, false)?;
                Ok(Out::Data(b[..n].to_vec()))
            }
            Op::Vendor(s, d) => {
                let s = s.map(|h| self.sid(h));
                let mut p = VendorDefinedReqPayloadStruct { req_length: d.len() as u16, vendor_defined_req_payload: [0; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE] };
                p.vendor_defined_req_payload[..d.len()].copy_from_slice(d);
                let mut id = VendorIDStruct { len: 2, vendor_id: [0; MAX_SPDM_VENDOR_DEFINED_VENDOR_ID_LEN] };
                id.vendor_id[..2].copy_from_slice(&[0x86, 0x80]);
                let r = self.req.send_spdm_vendor_defined_request(s, RegistryOrStandardsBodyID::PCISIG, id, p)?;
                Ok(Out::Data(r.vendor_defined_rsp_payload.get(..r.rsp_length as usize).map(|x| x.to_vec()).unwrap_or_default()))
            }
            Op::End(h) => u(self.req.end_session(self.sid(*h))),
        }
    }
    pub fn run(&mut self, ops: &[Op]) -> Vec<R> {
        ops.iter().map(|o| self.op(o)).collect()
    }
}
pub fn ok(r: &R) -> &'static str {
    if r.is_ok() {
        "ok"
    } else {
        "err"
    }
}

/// Hand one frame to the real responder; returns the frames it sends.
pub fn inject(frame: &[u8]) -> Vec<Vec<u8>> {
    link(|l| {
        l.to_rsp.clear();
        l.to_req.clear();
        l.to_rsp.push_back(frame.to_vec());
    });
    while pump_one() {}
    link(|l| l.to_req.drain(..).collect())
}
pub fn frame(tr: Tr, secured: bool, payload: &[u8]) -> Vec<u8> {
    match tr {
        Tr::Mctp => {
            let mut v = vec![if secured { 6 } else { 5 }];
            v.extend(payload);
            v
        }
        Tr::Doe => {
            let n = (payload.len() + 3) / 4 * 4;
            let mut v = vec![1, 0, if secured { 2 } else { 1 }, 0];
            v.extend((((n + 8) / 4) as u32).to_le_bytes());
            v.extend(payload);
            v.resize(8 + n, 0);
            v
        }
    }
}
/// (secured, payload including any padding)
pub fn unframe(tr: Tr, f: &[u8]) -> Option<(bool, Vec<u8>)> {
    match tr {
        Tr::Mctp => match f.first()? {
            5 => Some((false, f[1..].to_vec())),
            6 => Some((true, f[1..].to_vec())),
            _ => None,
        },
        Tr::Doe => {
            if f.len() < 8 || f[0] != 1 || f[1] != 0 || f[3] != 0 || f.len() % 4 != 0 {
                return None;
            }
            let l = u32::from_le_bytes(f[4..8].try_into().unwrap()) as usize;
            if l * 4 != f.len() {
                return None;
            }
            match f[2] {
                1 => Some((false, f[8..].to_vec())),
                2 => Some((true, f[8..].to_vec())),
                _ => None,
            }
        }
    }
}
