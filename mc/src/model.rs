//! An independent SPDM implementation written from the specification: message formats, transcripts, key
//! schedule, secured records. `RefReq` talks to the real responder, `RefRsp` to the real requester; both
//! compare every byte with what the specification prescribes.
use crate::cert;
use crate::fake::{self, *};
use crate::world::*;
use spdmlib::protocol::*;

// ------------------------------------------------------------------ negotiation
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Neg {
    pub ver: u8,
    pub rc: u32,
    pub sc: u32,
    pub rct: u8,
    pub sct: u8,
    pub mspec: u8,
    pub mhash: u32,
    pub hash: u32,
    pub asym: u32,
    pub dhe: u16,
    pub aead: u16,
    pub req_asym: u16,
    pub ks: u16,
    pub opaque: u8,
    pub rdts: u32,
    pub rmax: u32,
    pub sdts: u32,
    pub smax: u32,
}
fn best32(a: u32, order: &[u32]) -> u32 {
    order.iter().copied().find(|x| a & x != 0).unwrap_or(0)
}
pub const PRIO_HASH: [u32; 3] = [4, 2, 1];
pub const PRIO_ASYM: [u32; 8] = [0x80, 0x10, 0x40, 8, 2, 0x20, 4, 1];
pub const PRIO_DHE: [u32; 2] = [16, 8];
pub const PRIO_AEAD: [u32; 3] = [2, 1, 4];
/// what the two sides must select, or None when setup must fail
pub fn expected_neg(c: &Cfg) -> Option<Neg> {
    let ver = crate::user::common_ver(c);
    if ver == 0 {
        return None;
    }
    let rc = if ver == 0x10 { 0 } else { c.req.caps };
    let mut n = Neg {
        ver,
        rc,
        sc: c.rsp.caps,
        rct: if ver == 0x10 { 0 } else { c.req.ct },
        sct: c.rsp.ct,
        mspec: c.req.meas_spec & c.rsp.meas_spec & 1,
        mhash: c.rsp.meas_hash,
        hash: best32(c.req.hash & c.rsp.hash, &PRIO_HASH),
        asym: best32(c.req.asym & c.rsp.asym, &PRIO_ASYM),
        dhe: 0,
        aead: 0,
        req_asym: 0,
        ks: 0,
        opaque: 0,
        rdts: 0,
        rmax: 0,
        sdts: 0,
        smax: 0,
    };
    if ver >= 0x11 {
        n.dhe = best32((c.req.dhe & c.rsp.dhe) as u32, &PRIO_DHE) as u16;
        n.aead = best32((c.req.aead & c.rsp.aead) as u32, &PRIO_AEAD) as u16;
        n.req_asym = best32((c.req.req_asym & c.rsp.req_asym) as u32, &PRIO_ASYM) as u16;
        n.ks = c.req.ks & c.rsp.ks & 1;
    }
    if ver >= 0x12 {
        n.opaque = c.req.opaque & c.rsp.opaque & 2;
        n.rdts = c.req.dts;
        n.rmax = c.req.max_msg;
        n.sdts = c.rsp.dts;
        n.smax = c.rsp.max_msg;
    }
    if n.hash == 0 || n.asym == 0 {
        return None;
    }
    let has = |x: u32, b: u32| x & b != 0;
    if has(n.sc, sc::MEAS_NOSIG | sc::MEAS_SIG) && (n.mspec == 0 || n.mhash.count_ones() != 1) {
        return None;
    }
    if ver >= 0x11 {
        let both = n.rc & n.sc;
        let kex = has(both, rc::KEX);
        let psk = has(n.rc, rc::PSK) && has(n.sc, sc::PSK | sc::PSK_CTX);
        if kex && n.dhe == 0 {
            return None;
        }
        if (kex || psk) && n.ks == 0 {
            return None;
        }
        if has(both, rc::ENC | rc::MAC) && n.aead == 0 {
            return None;
        }
        if has(both, rc::MUT) && n.req_asym == 0 {
            return None;
        }
    }
    if ver >= 0x12 && has(n.sc, sc::KEX | sc::PSK | sc::PSK_CTX) && n.opaque == 0 {
        return None;
    }
    Some(n)
}
impl Neg {
    /// the same layout as world::nego
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![self.ver];
        v.extend(self.rc.to_le_bytes());
        v.extend(self.sc.to_le_bytes());
        v.push(self.rct);
        v.push(self.sct);
        v.push(self.mspec);
        v.extend(self.mhash.to_le_bytes());
        v.extend(self.hash.to_le_bytes());
        v.extend(self.asym.to_le_bytes());
        v.extend(self.dhe.to_le_bytes());
        v.extend(self.aead.to_le_bytes());
        v.extend(self.req_asym.to_le_bytes());
        v.extend(self.ks.to_le_bytes());
        v.push(self.opaque);
        for x in [self.rdts, self.rmax, self.sdts, self.smax] {
            v.extend(x.to_le_bytes());
        }
        v
    }
    pub fn ha(&self) -> SpdmBaseHashAlgo {
        SpdmBaseHashAlgo::from_bits_truncate(self.hash)
    }
    pub fn hs(&self) -> usize {
        hash_size(self.ha())
    }
    pub fn dh(&self) -> SpdmDheAlgo {
        SpdmDheAlgo::from_bits_truncate(self.dhe)
    }
    pub fn ae(&self) -> SpdmAeadAlgo {
        SpdmAeadAlgo::from_bits_truncate(self.aead)
    }
    pub fn sig(&self) -> usize {
        asym_size(self.asym)
    }
    pub fn clear(&self) -> bool {
        self.rc & self.sc & rc::CLEAR != 0
    }
    pub fn psk_ctx(&self) -> bool {
        self.sc & sc::PSK_CTX != 0
    }
    pub fn hash(&self, d: &[u8]) -> Vec<u8> {
        p_hash(self.ha(), d)
    }
    /// the bytes a signature covers, for a transcript and a 1.2 context
    pub fn tbs(&self, context: &str, transcript: &[u8]) -> Vec<u8> {
        if self.ver < 0x12 {
            return transcript.to_vec();
        }
        let mut v = "dmtf-spdm-v1.2.*".repeat(4).into_bytes();
        v.resize(100 - context.len(), 0);
        v.extend(context.as_bytes());
        v.extend(self.hash(transcript));
        v
    }
    pub fn sign(&self, key: u64, asym: u32, context: &str, transcript: &[u8]) -> Vec<u8> {
        p_sign(key, self.ha(), asym, &self.tbs(context, transcript))
    }
    pub fn bin_concat(&self, n: usize, label: &str, ctx: &[u8]) -> Vec<u8> {
        let mut v = (n as u16).to_le_bytes().to_vec();
        v.extend(ver_string(self.ver));
        v.extend(label.as_bytes());
        v.extend(ctx);
        v
    }
    pub fn expand(&self, secret: &[u8], label: &str, ctx: &[u8], n: usize) -> Vec<u8> {
        p_expand(self.ha(), secret, &self.bin_concat(n, label, ctx), n)
    }
    pub fn hmac(&self, k: &[u8], d: &[u8]) -> Vec<u8> {
        p_hmac(self.ha(), k, d)
    }
}
pub const CTX_CHAL: &str = "responder-challenge_auth signing";
pub const CTX_MEAS: &str = "responder-measurements signing";
pub const CTX_KE: &str = "responder-key_exchange_rsp signing";
pub const CTX_FIN: &str = "requester-finish signing";

/// the certificate chain with its SPDM header, as it goes on the wire
pub fn wire_chain(n: &Neg, s: &Side, is_req: bool, slot: usize) -> Option<Vec<u8>> {
    let der = slot_chain(s, is_req, slot)?;
    let (b, e) = *cert::split(&der)?.first()?;
    let mut v = ((4 + n.hs() + der.len()) as u16).to_le_bytes().to_vec();
    v.extend([0, 0]);
    v.extend(n.hash(&der[b..e]));
    v.extend(&der);
    Some(v)
}

// ------------------------------------------------------------------ sessions
#[derive(Clone, Debug, Default)]
pub struct DirKeys {
    pub secret: Vec<u8>,
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    pub seq: u64,
}
#[derive(Clone, Debug)]
pub struct Sess {
    pub neg: Neg,
    pub tr: Tr,
    pub sid: u32,
    pub psk: bool,
    pub slot: usize,
    pub established: bool,
    pub dead: bool,
    pub mut_auth: bool,
    pub k: Vec<u8>,
    pub f: Vec<u8>,
    pub th_prefix: Vec<u8>,
    pub cm: Vec<u8>,
    pub ikm: Vec<u8>,
    pub psk_val: Vec<u8>,
    /// 0 requester to responder, 1 back
    pub hs: [DirKeys; 2],
    pub data: [DirKeys; 2],
    pub fin: [Vec<u8>; 2],
    pub export: Vec<u8>,
    pub m: Vec<u8>,
}
thread_local! {
    /// may change what is encrypted
    pub static SEAL: std::cell::RefCell<Option<Box<dyn FnMut(usize, &mut Vec<u8>)>>> = std::cell::RefCell::new(None);
}
impl Sess {
    fn dir(&self, secret: Vec<u8>) -> DirKeys {
        let n = &self.neg;
        DirKeys { key: n.expand(&secret, "key", &[], aead_key_size(n.ae())), iv: n.expand(&secret, "iv", &[], 12), secret, seq: 0 }
    }
    pub fn new(neg: &Neg, tr: Tr, sid: u32, a: &[u8], chain: Option<&[u8]>, slot: usize) -> Sess {
        let mut th = a.to_vec();
        if let Some(c) = chain {
            th.extend(neg.hash(c));
        }
        Sess {
            neg: neg.clone(),
            tr,
            sid,
            psk: chain.is_none(),
            slot,
            established: false,
            dead: false,
            mut_auth: false,
            k: vec![],
            f: vec![],
            th_prefix: th,
            cm: vec![],
            ikm: vec![],
            psk_val: PSK.to_vec(),
            hs: Default::default(),
            data: Default::default(),
            fin: Default::default(),
            export: vec![],
            m: vec![],
        }
    }
    pub fn th(&self) -> Vec<u8> {
        let mut v = self.th_prefix.clone();
        v.extend(&self.k);
        v.extend(&self.cm);
        v.extend(&self.f);
        v
    }
    /// hs secret from the shared secret or the PSK, traffic secrets over TH1 (the transcript so far)
    pub fn handshake(&mut self) {
        let n = self.neg.clone();
        let th1 = n.hash(&self.th());
        let s = if self.psk { psk_hs(&self.psk_val, n.ha()) } else { p_extract(n.ha(), &vec![0; n.hs()], &self.ikm) };
        let a = n.expand(&s, "req hs data", &th1, n.hs());
        let b = n.expand(&s, "rsp hs data", &th1, n.hs());
        self.fin = [n.expand(&a, "finished", &[], n.hs()), n.expand(&b, "finished", &[], n.hs())];
        self.hs = [self.dir(a), self.dir(b)];
    }
    pub fn establish(&mut self) {
        let n = self.neg.clone();
        let th2 = n.hash(&self.th());
        let master = if self.psk {
            psk_master(&self.psk_val, &ver_string(n.ver), n.ha())
        } else {
            let hs = p_extract(n.ha(), &vec![0; n.hs()], &self.ikm);
            let salt1 = n.expand(&hs, "derived", &[], n.hs());
            p_extract(n.ha(), &salt1, &vec![0; n.hs()])
        };
        let a = n.expand(&master, "req app data", &th2, n.hs());
        let b = n.expand(&master, "rsp app data", &th2, n.hs());
        self.export = n.expand(&master, "exp master", &th2, n.hs());
        self.data = [self.dir(a), self.dir(b)];
        self.established = true;
    }
    pub fn update(&mut self, d: usize) {
        let s = self.neg.expand(&self.data[d].secret, "traffic upd", &[], self.neg.hs());
        self.data[d] = self.dir(s);
    }
    pub fn keys(&mut self, d: usize) -> &mut DirKeys {
        if self.established {
            &mut self.data[d]
        } else {
            &mut self.hs[d]
        }
    }
    fn seqn(&self) -> usize {
        match self.tr {
            Tr::Mctp => 2,
            Tr::Doe => 0,
        }
    }
    pub fn seal_raw(&self, k: &DirKeys, plain: &[u8]) -> Vec<u8> {
        let mut pt = (plain.len() as u16).to_le_bytes().to_vec();
        pt.extend(plain);
        self.seal_pt(k, &pt)
    }
    pub fn seal_pt(&self, k: &DirKeys, pt: &[u8]) -> Vec<u8> {
        let mut aad = self.sid.to_le_bytes().to_vec();
        aad.extend(&k.seq.to_le_bytes()[..self.seqn()]);
        aad.extend(((pt.len() + 16) as u16).to_le_bytes());
        let mut iv = k.iv.clone();
        for (i, b) in k.seq.to_le_bytes().iter().enumerate() {
            iv[i] ^= b;
        }
        let (ct, tag) = p_seal(self.neg.ae(), &k.key, &iv, &aad, pt);
        let mut v = aad;
        v.extend(ct);
        v.extend(tag);
        v
    }
    /// what goes inside the record for an SPDM message (app: application data)
    pub fn inner(&self, payload: &[u8], app: bool) -> Vec<u8> {
        match self.tr {
            Tr::Mctp => {
                let mut v = vec![if app { 1 } else { 5 }];
                v.extend(payload);
                v
            }
            Tr::Doe => payload.to_vec(),
        }
    }
    pub fn seal(&mut self, d: usize, payload: &[u8], app: bool) -> Vec<u8> {
        let inner = self.inner(payload, app);
        let k = self.keys(d).clone();
        let mut pt = (inner.len() as u16).to_le_bytes().to_vec();
        pt.extend(inner);
        SEAL.with(|h| {
            if let Some(h) = &mut *h.borrow_mut() {
                h(d, &mut pt);
            }
        });
        let r = self.seal_pt(&k, &pt);
        self.keys(d).seq += 1;
        frame(self.tr, true, &r)
    }
    /// strict: exactly the next record of this session and direction
    pub fn open(&mut self, d: usize, f: &[u8]) -> Result<(bool, Vec<u8>), String> {
        let k = self.keys(d).clone();
        let (x, _) = self.open_with(&k, f)?;
        self.keys(d).seq += 1;
        match self.tr {
            Tr::Mctp => match x.first() {
                Some(5) => Ok((false, x[1..].to_vec())),
                Some(1) => Ok((true, x[1..].to_vec())),
                _ => Err("inner message type".into()),
            },
            Tr::Doe => Ok((false, x)),
        }
    }
    pub fn open_with(&self, k: &DirKeys, f: &[u8]) -> Result<(Vec<u8>, usize), String> {
        let (sec, r) = unframe(self.tr, f).ok_or("malformed frame")?;
        if !sec {
            return Err(format!("not a secured frame: {:02x?}", &r[..r.len().min(8)]));
        }
        let h = 4 + self.seqn() + 2;
        if r.len() < h {
            return Err("short record".into());
        }
        if r[..4] != self.sid.to_le_bytes() {
            return Err(format!("record of session {:02x?}", &r[..4]));
        }
        if r[4..4 + self.seqn()] != k.seq.to_le_bytes()[..self.seqn()] {
            return Err("sequence number field".into());
        }
        let len = u16::from_le_bytes([r[h - 2], r[h - 1]]) as usize;
        if len < 16 || r.len() < h + len {
            return Err("record length field".into());
        }
        if r.len() - h - len > 3 || (self.tr == Tr::Mctp && r.len() != h + len) || r[h + len..].iter().any(|x| *x != 0) {
            return Err("bytes after the record".into());
        }
        let mut iv = k.iv.clone();
        for (i, b) in k.seq.to_le_bytes().iter().enumerate() {
            iv[i] ^= b;
        }
        let pt = p_open(self.neg.ae(), &k.key, &iv, &r[..h], &r[h..h + len - 16], &r[h + len - 16..h + len]).ok_or("record does not open")?;
        if pt.len() < 2 {
            return Err("no length in plaintext".into());
        }
        let n = u16::from_le_bytes([pt[0], pt[1]]) as usize;
        if n + 2 != pt.len() {
            return Err(format!("plaintext length {} of {}", n, pt.len()));
        }
        Ok((pt[2..].to_vec(), len))
    }
}

// ------------------------------------------------------------------ messages
pub fn u16b(x: usize) -> [u8; 2] {
    (x as u16).to_le_bytes()
}
pub fn m_get_version() -> Vec<u8> {
    vec![0x10, 0x84, 0, 0]
}
pub fn m_version(vers: &[u8]) -> Vec<u8> {
    let mut v = vec![0x10, 4, 0, 0, 0, vers.len() as u8];
    for x in vers {
        v.extend([0, *x]);
    }
    v
}
pub fn m_get_caps(ver: u8, s: &Side) -> Vec<u8> {
    m_caps_raw(ver, 0xe1, s, ver >= 0x11)
}
pub fn m_caps(ver: u8, s: &Side) -> Vec<u8> {
    m_caps_raw(ver, 0x61, s, true)
}
fn m_caps_raw(ver: u8, code: u8, s: &Side, body: bool) -> Vec<u8> {
    let mut v = vec![ver, code, 0, 0];
    if body {
        v.extend([0, s.ct, 0, 0]);
        v.extend(s.caps.to_le_bytes());
    }
    if ver >= 0x12 {
        v.extend(s.dts.to_le_bytes());
        v.extend(s.max_msg.to_le_bytes());
    }
    v
}
fn algs(dhe: u16, aead: u16, ra: u16, ks: u16) -> Vec<u8> {
    let mut v = vec![];
    for (t, x) in [(2u8, dhe), (3, aead), (4, ra), (5, ks)] {
        v.extend([t, 0x20]);
        v.extend(x.to_le_bytes());
    }
    v
}
pub fn m_neg_algs(ver: u8, s: &Side) -> Vec<u8> {
    let n = if ver >= 0x11 { 4 } else { 0 };
    let mut v = vec![ver, 0xe3, n, 0];
    v.extend(u16b(32 + 4 * n as usize));
    v.extend([s.meas_spec, if ver >= 0x12 { s.opaque & 2 } else { 0 }]);
    v.extend(s.asym.to_le_bytes());
    v.extend(s.hash.to_le_bytes());
    v.extend([0; 16]);
    if n > 0 {
        v.extend(algs(s.dhe, s.aead, s.req_asym, s.ks));
    }
    v
}
pub fn m_algs(n: &Neg) -> Vec<u8> {
    let k = if n.ver >= 0x11 { 4 } else { 0 };
    let mut v = vec![n.ver, 0x63, k, 0];
    v.extend(u16b(36 + 4 * k as usize));
    v.extend([n.mspec, n.opaque]);
    v.extend(n.mhash.to_le_bytes());
    v.extend(n.asym.to_le_bytes());
    v.extend(n.hash.to_le_bytes());
    v.extend([0; 16]);
    if k > 0 {
        v.extend(algs(n.dhe, n.aead, n.req_asym, n.ks));
    }
    v
}
pub fn m_digests(n: &Neg, s: &Side, is_req: bool) -> Vec<u8> {
    let mut mask = 0u8;
    let mut d = vec![];
    for slot in 0..8 {
        if let Some(c) = wire_chain(n, s, is_req, slot) {
            mask |= 1 << slot;
            d.extend(n.hash(&c));
        }
    }
    let mut v = vec![n.ver, 1, 0, mask];
    v.extend(d);
    v
}
pub fn slot_mask(s: &Side) -> u8 {
    s.slots.iter().fold(0, |m, x| m | 1 << x.0)
}
/// zero unless both sides support HEARTBEAT
pub fn period(n: &Neg, c: &Cfg) -> u8 {
    if n.rc & n.sc & rc::HB != 0 {
        c.rsp.heartbeat
    } else {
        0
    }
}
pub fn m_get_cert(ver: u8, slot: u8, off: usize, len: usize) -> Vec<u8> {
    let mut v = vec![ver, 0x82, slot, 0];
    v.extend(u16b(off));
    v.extend(u16b(len));
    v
}
pub fn m_cert(ver: u8, slot: u8, chain: &[u8], off: usize, len: usize) -> Vec<u8> {
    let n = len.min(chain.len() - off);
    let mut v = vec![ver, 2, slot, 0];
    v.extend(u16b(n));
    v.extend(u16b(chain.len() - off - n));
    v.extend(&chain[off..off + n]);
    v
}
pub fn m_opaque_req(ver: u8) -> Vec<u8> {
    let mut v = if ver < 0x12 { vec![0x46, 0x54, 0x4d, 0x44, 1, 1, 0, 0] } else { vec![1, 0, 0, 0] };
    v.extend([0, 0, 7, 0, 1, 1, 2, 0, 0x10, 0, 0x11, 0]);
    v
}
pub fn m_opaque_rsp(ver: u8, sv: u8) -> Vec<u8> {
    let mut v = if ver < 0x12 { vec![0x46, 0x54, 0x4d, 0x44, 1, 1, 0, 0] } else { vec![1, 0, 0, 0] };
    v.extend([0, 0, 4, 0, 1, 0, 0, sv]);
    v
}
/// the best secured-message version both list; the requester always offers 1.0 and 1.1
pub fn secure_ver(c: &Cfg) -> u8 {
    c.rsp.secure_vers.iter().copied().filter(|x| [0x10, 0x11].contains(x)).max().unwrap_or(0)
}
pub fn m_err(ver: u8, code: u8, data: u8) -> Vec<u8> {
    vec![ver, 0x7f, code, data]
}
pub fn m_vendor(ver: u8, req: bool, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![ver, if req { 0xfe } else { 0x7e }, 0, 0, 3, 0, 2, 0x86, 0x80];
    v.extend(u16b(payload.len()));
    v.extend(payload);
    v
}
pub fn def_vendor_rsp(d: &[u8]) -> Vec<u8> {
    let mut v = b"VR".to_vec();
    v.extend(d.iter().map(|b| b ^ 0x55));
    v
}
pub fn def_app_rsp(d: &[u8]) -> Vec<u8> {
    let mut v = b"AR".to_vec();
    v.extend(d.iter().map(|b| b ^ 0xAA));
    v
}
/// was this value drawn in full by the actor since draw number `from`?
pub fn drawn(a: Actor, from: usize, v: &[u8]) -> bool {
    fake::with(|e| e.draws[from..].iter().any(|d| d.0 == a && d.1.len() >= v.len() && &d.1[..v.len()] == v))
}
pub fn ndraws() -> usize {
    fake::with(|e| e.draws.len())
}
pub fn is_err(m: &[u8]) -> bool {
    m.len() >= 2 && m[1] == 0x7f
}
pub type Res<X> = Result<X, String>;
pub fn diff(what: &str, got: &[u8], want: &[u8]) -> Res<()> {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!("{what}: {} bytes, expected {}; first difference at {i}: {:02x?} expected {:02x?}", got.len(), want.len(), &got[i.min(got.len())..got.len().min(i + 12)], &want[i.min(want.len())..want.len().min(i + 12)]))
}
pub struct Cur<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, p: 0 }
    }
    pub fn take(&mut self, n: usize, what: &str) -> Res<&'a [u8]> {
        if self.p + n > self.b.len() {
            return Err(format!("truncated at {what}"));
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    pub fn expect(&mut self, v: &[u8], what: &str) -> Res<()> {
        let at = self.p;
        let r = self.take(v.len(), what)?;
        if r != v {
            return Err(format!("{what} at {at}: {r:02x?}, expected {v:02x?}"));
        }
        Ok(())
    }
    pub fn u16(&mut self, what: &str) -> Res<usize> {
        Ok(u16::from_le_bytes(self.take(2, what)?.try_into().unwrap()) as usize)
    }
    /// DOE pads clear messages with up to three zero bytes
    pub fn end(&self, tr: Tr, secured: bool, what: &str) -> Res<()> {
        let rest = &self.b[self.p..];
        let pad = tr == Tr::Doe && !secured;
        if rest.is_empty() || (pad && rest.len() < 4 && rest.iter().all(|x| *x == 0)) {
            Ok(())
        } else {
            Err(format!("{what}: {} extra bytes", rest.len()))
        }
    }
}

// ------------------------------------------------------------------ reference requester
pub struct RefReq {
    pub cfg: Cfg,
    pub n: Neg,
    pub a: Vec<u8>,
    pub b: Vec<u8>,
    pub c: Vec<u8>,
    pub m: Vec<u8>,
    pub ss: Vec<Sess>,
    pub half: u16,
    /// may change any outgoing request (before sealing); the transcript keeps the unchanged one
    pub tamper: Option<Box<dyn FnMut(&str, &mut Vec<u8>)>>,
    /// called before each request is sent, with the session it is for
    pub before: Option<Box<dyn FnMut(&str, Option<&mut Sess>, &[u8])>>,
    pub sign_key: u64,
    /// the message last received
    pub answer: Vec<u8>,
}
fn eq_frames(n: usize) -> String {
    format!("{n} responses")
}
impl RefReq {
    /// the world's requester is not used; the responder is
    pub fn new(cfg: &Cfg) -> RefReq {
        let n = expected_neg(cfg).expect("compatible configuration");
        RefReq { cfg: cfg.clone(), n, a: vec![], b: vec![], c: vec![], m: vec![], ss: vec![], half: 0x1234, tamper: None, before: None, sign_key: cfg.req.key, answer: vec![] }
    }
    pub fn tr(&self) -> Tr {
        self.cfg.tr
    }
    /// one clear request, one clear response
    pub fn clear(&mut self, tag: &str, req: &[u8]) -> Res<Vec<u8>> {
        let mut r = req.to_vec();
        if let Some(t) = &mut self.tamper {
            t(tag, &mut r);
        }
        if let Some(f) = &mut self.before {
            f(tag, None, &r);
        }
        self.answer.clear();
        let out = inject(&frame(self.tr(), false, &r));
        if out.len() != 1 {
            return Err(format!("{tag}: {}", eq_frames(out.len())));
        }
        let (s, p) = unframe(self.tr(), &out[0]).ok_or(format!("{tag}: malformed frame"))?;
        if s {
            return Err(format!("{tag}: secured response to a clear request"));
        }
        self.answer = p.clone();
        Ok(p)
    }
    pub fn secured(&mut self, i: usize, tag: &str, req: &[u8]) -> Res<Vec<u8>> {
        let mut r = req.to_vec();
        if let Some(t) = &mut self.tamper {
            t(tag, &mut r);
        }
        if let Some(f) = &mut self.before {
            f(tag, Some(&mut self.ss[i]), &r);
        }
        let f = self.ss[i].seal(0, &r, false);
        self.answer.clear();
        let out = inject(&f);
        if out.len() != 1 {
            return Err(format!("{tag}: {}", eq_frames(out.len())));
        }
        let (app, p) = self.ss[i].open(1, &out[0]).map_err(|e| format!("{tag}: {e}"))?;
        if app {
            return Err(format!("{tag}: application data as response"));
        }
        self.answer = p.clone();
        Ok(p)
    }
    pub fn any(&mut self, s: Option<usize>, tag: &str, req: &[u8]) -> Res<Vec<u8>> {
        match s {
            None => self.clear(tag, req),
            Some(i) => self.secured(i, tag, req),
        }
    }
    fn exact(&self, tag: &str, got: &[u8], want: &[u8], sec: bool) -> Res<()> {
        let mut c = Cur::new(got);
        if got.len() < want.len() || got[..want.len()] != *want {
            return diff(tag, got, want);
        }
        c.p = want.len();
        c.end(self.tr(), sec, tag)
    }
    fn reset_bc(&mut self) {
        self.b.clear();
        self.c.clear();
    }
    pub fn resets(&mut self, code: u8, s: Option<usize>) {
        if code != 0xe0 {
            match s {
                None => self.m.clear(),
                Some(i) => self.ss[i].m.clear(),
            }
        }
        if [0xe0, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xec, 0xea, 0xeb].contains(&code) {
            self.reset_bc();
        }
        if code == 0x81 {
            self.b.clear();
        }
    }
    pub fn version(&mut self) -> Res<()> {
        let q = m_get_version();
        let r = self.clear("version", &q)?;
        let want = m_version(&self.cfg.rsp.vers);
        self.exact("VERSION", &r, &want, false)?;
        self.a = q;
        self.a.extend(&want);
        self.reset_bc();
        self.m.clear();
        self.ss.iter_mut().for_each(|s| s.dead = true);
        Ok(())
    }
    pub fn caps(&mut self) -> Res<()> {
        let q = m_get_caps(self.n.ver, &self.cfg.req);
        let r = self.clear("caps", &q)?;
        let want = m_caps(self.n.ver, &self.cfg.rsp);
        self.exact("CAPABILITIES", &r, &want, false)?;
        self.a.extend(q);
        self.a.extend(want);
        Ok(())
    }
    pub fn algs(&mut self) -> Res<()> {
        let q = m_neg_algs(self.n.ver, &self.cfg.req);
        let r = self.clear("algs", &q)?;
        let want = m_algs(&self.n);
        self.exact("ALGORITHMS", &r, &want, false)?;
        self.a.extend(q);
        self.a.extend(want);
        Ok(())
    }
    pub fn init(&mut self) -> Res<()> {
        self.version()?;
        self.caps()?;
        self.algs()
    }
    pub fn chain(&self, slot: usize) -> Vec<u8> {
        wire_chain(&self.n, &self.cfg.rsp, false, slot).unwrap_or_default()
    }
    pub fn digest(&mut self, s: Option<usize>) -> Res<()> {
        self.resets(0x81, s);
        let q = vec![self.n.ver, 0x81, 0, 0];
        let r = self.any(s, "digest", &q)?;
        let want = m_digests(&self.n, &self.cfg.rsp, false);
        self.exact("DIGESTS", &r, &want, s.is_some())?;
        if s.is_none() {
            self.b.extend(q);
            self.b.extend(want);
        }
        Ok(())
    }
    pub fn cert(&mut self, s: Option<usize>, slot: u8, portion: usize) -> Res<()> {
        let chain = self.chain(slot as usize);
        let mut off = 0;
        while off < chain.len() {
            self.resets(0x82, s);
            let q = m_get_cert(self.n.ver, slot, off, portion);
            let r = self.any(s, "cert", &q)?;
            // the responder chooses the portion size: at least one byte, at most what was asked for
            if r.len() < 8 {
                return Err("short CERTIFICATE".into());
            }
            let n = u16::from_le_bytes([r[4], r[5]]) as usize;
            if n == 0 || n > portion || n > chain.len() - off {
                return Err(format!("CERTIFICATE portion {n} for {portion} at {off} of {}", chain.len()));
            }
            let want = m_cert(self.n.ver, slot, &chain, off, n);
            self.exact("CERTIFICATE", &r, &want, s.is_some())?;
            if s.is_none() {
                self.b.extend(q);
                self.b.extend(want);
            }
            off += n;
        }
        Ok(())
    }
    fn summary(&self, ty: u8) -> Vec<u8> {
        if ty == 0 {
            vec![]
        } else {
            fake::with(|e| meas_summary(e, self.n.ha(), ty))
        }
    }
    pub fn challenge(&mut self, slot: u8, sum: u8) -> Res<()> {
        self.resets(0x83, None);
        let mut q = vec![self.n.ver, 0x83, slot, sum];
        q.extend(ext_random(32));
        let d = ndraws();
        let r = self.clear("challenge", &q)?;
        let n = self.n.clone();
        let mut c = Cur::new(&r);
        c.expect(&[n.ver, 3, slot, slot_mask(&self.cfg.rsp)], "CHALLENGE_AUTH header")?;
        c.expect(&n.hash(&self.chain(slot as usize)), "cert chain hash")?;
        let nonce = c.take(32, "nonce")?;
        if !drawn(Actor::Rsp, d, nonce) {
            return Err("CHALLENGE_AUTH nonce is not fresh".into());
        }
        c.expect(&self.summary(sum), "measurement summary hash")?;
        let ol = c.u16("opaque length")?;
        c.take(ol, "opaque")?;
        let p = c.p;
        self.c.extend(q);
        self.c.extend(&r[..p]);
        let mut m1 = self.a.clone();
        m1.extend(&self.b);
        m1.extend(&self.c);
        c.expect(&n.sign(self.cfg.rsp.key, n.asym, CTX_CHAL, &m1), "CHALLENGE_AUTH signature")?;
        c.end(self.tr(), false, "CHALLENGE_AUTH")?;
        self.reset_bc();
        Ok(())
    }
    pub fn meas(&mut self, s: Option<usize>, sig: bool, op: u8, slot: u8) -> Res<()> {
        self.resets(0xe0, s);
        let n = self.n.clone();
        let mut q = vec![n.ver, 0xe0, sig as u8, op];
        if sig {
            q.extend(ext_random(32));
            if n.ver >= 0x11 {
                q.push(slot);
            }
        }
        let d = ndraws();
        let r = self.any(s, "meas", &q)?;
        let mut c = Cur::new(&r);
        let (nb, rec) = if op == 0 { (0, vec![]) } else { meas_record(&self.cfg.meas, op as usize).ok_or("measurement the device does not have")? };
        c.expect(&[n.ver, 0x60, if op == 0 { self.cfg.meas.len() as u8 } else { 0 }], "MEASUREMENTS header")?;
        let p2 = c.take(1, "param2")?[0];
        let slot_want = if sig && n.ver >= 0x11 { slot } else { 0 };
        if p2 & 15 != slot_want || (p2 >> 4 != 0 && !(n.ver >= 0x12 && self.cfg.rsp.content_change && p2 >> 4 < 4)) {
            return Err(format!("MEASUREMENTS param2 {p2:02x}"));
        }
        c.expect(&[nb], "number of blocks")?;
        c.expect(&(rec.len() as u32).to_le_bytes()[..3], "record length")?;
        c.expect(&rec, "measurement record")?;
        let nonce = c.take(32, "nonce")?;
        if !drawn(Actor::Rsp, d, nonce) {
            return Err("MEASUREMENTS nonce is not fresh".into());
        }
        let ol = c.u16("opaque length")?;
        c.take(ol, "opaque")?;
        let p = c.p;
        let mut add = q.clone();
        add.extend(&r[..p]);
        let m = match s {
            None => &mut self.m,
            Some(i) => &mut self.ss[i].m,
        };
        m.extend(add);
        if sig {
            let mut l1 = if n.ver >= 0x12 { self.a.clone() } else { vec![] };
            l1.extend(&*m);
            m.clear();
            c.expect(&n.sign(self.cfg.rsp.key, n.asym, CTX_MEAS, &l1), "MEASUREMENTS signature")?;
        }
        c.end(self.tr(), s.is_some(), "MEASUREMENTS")
    }
    fn hb(&self) -> u8 {
        period(&self.n, &self.cfg)
    }
    /// KEY_EXCHANGE; the session is left handshaking
    pub fn ke_start(&mut self, slot: u8, sum: u8) -> Res<usize> {
        self.resets(0xe4, None);
        let n = self.n.clone();
        let x = u64::from_le_bytes(ext_random(8).try_into().unwrap()) | 1;
        self.half = self.half.wrapping_add(0x0101);
        let mut q = vec![n.ver, 0xe4, sum, slot];
        q.extend(self.half.to_le_bytes());
        q.extend([if n.ver >= 0x12 { self.cfg.req.policy } else { 0 }, 0]);
        q.extend(ext_random(32));
        q.extend(dhe_public(n.dh(), x));
        let op = m_opaque_req(n.ver);
        q.extend(u16b(op.len()));
        q.extend(op);
        let d = ndraws();
        let pubs = fake::with(|e| e.dhe_pubs.len());
        let r = self.clear("ke", &q)?;
        if is_err(&r) {
            return Err(format!("KEY_EXCHANGE answered {:02x?}", &r[..r.len().min(4)]));
        }
        let mut c = Cur::new(&r);
        c.expect(&[n.ver, 0x64, self.hb(), 0], "KEY_EXCHANGE_RSP header")?;
        let rh = c.u16("responder session id")?;
        let mutb = c.take(2, "mut auth")?.to_vec();
        let want_mut = if MUTAUTH { 4 } else { 0 };
        if mutb != [want_mut, 0] {
            return Err(format!("KEY_EXCHANGE_RSP mutual authentication {mutb:02x?}"));
        }
        let random = c.take(32, "random")?;
        if !drawn(Actor::Rsp, d, random) {
            return Err("KEY_EXCHANGE_RSP random is not fresh".into());
        }
        let share = c.take(dhe_size(n.dh()), "exchange data")?.to_vec();
        if !fake::with(|e| e.dhe_pubs[pubs..].iter().any(|p| p.0 == Actor::Rsp && p.1 == share)) {
            return Err("KEY_EXCHANGE_RSP share is not fresh".into());
        }
        c.expect(&self.summary(sum), "measurement summary hash")?;
        let want = m_opaque_rsp(n.ver, secure_ver(&self.cfg));
        c.expect(&u16b(want.len()), "opaque length")?;
        c.expect(&want, "opaque")?;
        let chain = self.chain(slot as usize);
        let mut s = Sess::new(&n, self.tr(), (rh as u32) << 16 | self.half as u32, &self.a, Some(&chain), slot as usize);
        s.k = q;
        s.k.extend(&r[..c.p]);
        let sig = n.sign(self.cfg.rsp.key, n.asym, CTX_KE, &s.th());
        let p0 = c.p;
        c.expect(&sig, "KEY_EXCHANGE_RSP signature")?;
        s.k.extend(&r[p0..c.p]);
        s.ikm = dhe_shared(n.dh(), x, &share).ok_or("bad share")?;
        s.handshake();
        if !n.clear() {
            let mac = n.hmac(&s.fin[1], &n.hash(&s.th()));
            c.expect(&mac, "KEY_EXCHANGE_RSP verify data")?;
            s.k.extend(mac);
        }
        c.end(self.tr(), false, "KEY_EXCHANGE_RSP")?;
        if rh == 0 || self.ss.iter().any(|o| !o.dead && o.sid == s.sid) {
            return Err("session id".into());
        }
        s.mut_auth = want_mut != 0;
        self.ss.push(s);
        Ok(self.ss.len() - 1)
    }
    pub fn req_chain(&self) -> Vec<u8> {
        wire_chain(&self.n, &self.cfg.req, true, 0).unwrap_or_default()
    }
    /// the encapsulated DIGESTS and CERTIFICATE deliveries
    pub fn encap(&mut self, i: usize) -> Res<()> {
        let n = self.n.clone();
        let mut q = vec![n.ver, 0xeb, 0, 0];
        q.extend(m_digests(&n, &self.cfg.req, true));
        let chain = self.req_chain();
        let mut off = 0;
        loop {
            let r = self.secured(i, "encap", &q)?;
            let mut c = Cur::new(&r);
            c.expect(&[n.ver, 0x6b, 0], "ENCAPSULATED_RESPONSE_ACK header")?;
            let ty = c.take(1, "type")?[0];
            if n.ver >= 0x12 {
                c.expect(&[0, 0, 0, 0], "ack request id")?;
            }
            if ty == 2 {
                if off != chain.len() {
                    return Err("acknowledged before the chain was complete".into());
                }
                c.expect(&[0], "slot number")?;
                c.end(self.tr(), true, "ACK")?;
                self.ss[i].cm = n.hash(&chain);
                return Ok(());
            }
            if ty != 1 {
                return Err(format!("ack type {ty}"));
            }
            c.expect(&[n.ver, 0x82, 0, 0], "encapsulated GET_CERTIFICATE")?;
            let o = c.u16("offset")?;
            let l = c.u16("length")?;
            c.end(self.tr(), true, "ACK")?;
            if o != off || l == 0 || o >= chain.len() {
                return Err(format!("encapsulated GET_CERTIFICATE offset {o} length {l}, expected offset {off}"));
            }
            q = vec![n.ver, 0xeb, 0, 0];
            q.extend(m_cert(n.ver, 0, &chain, off, l));
            off += l.min(chain.len() - off);
        }
    }
    pub fn finish_msg(&mut self, i: usize) -> Vec<u8> {
        let n = self.n.clone();
        let key = self.sign_key;
        let s = &mut self.ss[i];
        let mut q = vec![n.ver, 0xe5, s.mut_auth as u8, 0];
        s.f = q.clone();
        if s.mut_auth {
            let sig = n.sign(key, n.req_asym as u32, CTX_FIN, &s.th());
            q.extend(&sig);
            s.f = q.clone();
        }
        let mac = n.hmac(&s.fin[0], &n.hash(&s.th()));
        q.extend(mac);
        s.f = q.clone();
        q
    }
    pub fn finish(&mut self, i: usize) -> Res<()> {
        self.resets(0xe5, Some(i));
        let q = self.finish_msg(i);
        let n = self.n.clone();
        let r = if n.clear() { self.clear("finish", &q)? } else { self.secured(i, "finish", &q)? };
        if is_err(&r) {
            return Err(format!("FINISH answered {:02x?}", &r[..r.len().min(4)]));
        }
        let mut c = Cur::new(&r);
        c.expect(&[n.ver, 0x65, 0, 0], "FINISH_RSP")?;
        let s = &mut self.ss[i];
        s.f.extend([n.ver, 0x65, 0, 0]);
        if n.clear() {
            let mac = n.hmac(&s.fin[1], &n.hash(&s.th()));
            c.expect(&mac, "FINISH_RSP verify data")?;
            s.f.extend(mac);
        }
        c.end(self.cfg.tr, !n.clear(), "FINISH_RSP")?;
        s.establish();
        Ok(())
    }
    pub fn ke(&mut self, slot: u8, sum: u8) -> Res<usize> {
        let i = self.ke_start(slot, sum)?;
        if self.ss[i].mut_auth {
            self.encap(i)?;
        }
        self.finish(i)?;
        Ok(i)
    }
    pub fn psk_start(&mut self, sum: u8) -> Res<usize> {
        self.resets(0xe6, None);
        let n = self.n.clone();
        self.half = self.half.wrapping_add(0x0101);
        let mut q = vec![n.ver, 0xe6, sum, 0];
        q.extend(self.half.to_le_bytes());
        let op = m_opaque_req(n.ver);
        q.extend(u16b(4));
        q.extend(u16b(n.hs()));
        q.extend(u16b(op.len()));
        q.extend(b"hint");
        q.extend(ext_random(n.hs()));
        q.extend(op);
        let d = ndraws();
        let r = self.clear("psk", &q)?;
        if is_err(&r) {
            return Err(format!("PSK_EXCHANGE answered {:02x?}", &r[..r.len().min(4)]));
        }
        let mut c = Cur::new(&r);
        c.expect(&[n.ver, 0x66, self.hb(), 0], "PSK_EXCHANGE_RSP header")?;
        let rh = c.u16("responder session id")?;
        c.expect(&[0, 0], "reserved")?;
        let cl = c.u16("context length")?;
        let want = m_opaque_rsp(n.ver, secure_ver(&self.cfg));
        c.expect(&u16b(want.len()), "opaque length")?;
        c.expect(&self.summary(sum), "measurement summary hash")?;
        let ctx = c.take(cl, "context")?;
        if n.psk_ctx() {
            if cl < 32 || !drawn(Actor::Rsp, d, ctx) {
                return Err(format!("PSK_EXCHANGE_RSP context of {cl} bytes is not fresh"));
            }
        } else if cl != 0 {
            return Err("PSK_EXCHANGE_RSP carries a context".into());
        }
        c.expect(&want, "opaque")?;
        let mut s = Sess::new(&n, self.tr(), (rh as u32) << 16 | self.half as u32, &self.a, None, 0);
        s.psk_val = fake::with(|e| e.psk[Actor::Rsp as usize].clone());
        s.k = q;
        s.k.extend(&r[..c.p]);
        s.handshake();
        let mac = n.hmac(&s.fin[1], &n.hash(&s.th()));
        c.expect(&mac, "PSK_EXCHANGE_RSP verify data")?;
        s.k.extend(mac);
        c.end(self.tr(), false, "PSK_EXCHANGE_RSP")?;
        if rh == 0 || self.ss.iter().any(|o| !o.dead && o.sid == s.sid) {
            return Err("session id".into());
        }
        if !n.psk_ctx() {
            s.establish();
        }
        self.ss.push(s);
        Ok(self.ss.len() - 1)
    }
    pub fn psk_finish_msg(&mut self, i: usize) -> Vec<u8> {
        let n = self.n.clone();
        let s = &mut self.ss[i];
        s.f = vec![n.ver, 0xe7, 0, 0];
        let mac = n.hmac(&s.fin[0], &n.hash(&s.th()));
        s.f.extend(mac);
        s.f.clone()
    }
    pub fn psk_finish(&mut self, i: usize) -> Res<()> {
        self.resets(0xe7, Some(i));
        let q = self.psk_finish_msg(i);
        let r = self.secured(i, "psk_finish", &q)?;
        let want = vec![self.n.ver, 0x67, 0, 0];
        diff("PSK_FINISH_RSP", &r, &want)?;
        self.ss[i].f.extend(want);
        self.ss[i].establish();
        Ok(())
    }
    pub fn psk(&mut self, sum: u8) -> Res<usize> {
        let i = self.psk_start(sum)?;
        if !self.ss[i].established {
            self.psk_finish(i)?;
        }
        Ok(i)
    }
    pub fn simple(&mut self, i: usize, tag: &str, q: &[u8], want: &[u8]) -> Res<()> {
        self.resets(q[1], Some(i));
        let r = self.secured(i, tag, q)?;
        diff(tag, &r, want)
    }
    pub fn heartbeat(&mut self, i: usize) -> Res<()> {
        let v = self.n.ver;
        self.simple(i, "heartbeat", &[v, 0xe8, 0, 0], &[v, 0x68, 0, 0])
    }
    /// 1: requester key, 2: both; followed by the verification of the new key
    pub fn key_update(&mut self, i: usize, op: u8, tag: u8) -> Res<()> {
        let v = self.n.ver;
        self.resets(0xe9, Some(i));
        let f = self.ss[i].seal(0, &[v, 0xe9, op, tag], false);
        let out = inject(&f);
        if out.len() != 1 {
            return Err(format!("key update: {}", eq_frames(out.len())));
        }
        self.ss[i].update(0);
        if op == 2 {
            self.ss[i].update(1);
        }
        let (_, r) = self.ss[i].open(1, &out[0]).map_err(|e| format!("KEY_UPDATE_ACK: {e}"))?;
        diff("KEY_UPDATE_ACK", &r, &[v, 0x69, op, tag])?;
        self.simple(i, "key update verify", &[v, 0xe9, 3, tag ^ 0x5a], &[v, 0x69, 3, tag ^ 0x5a])
    }
    pub fn app(&mut self, i: usize, d: &[u8]) -> Res<()> {
        let f = self.ss[i].seal(0, d, true);
        let out = inject(&f);
        if out.len() != 1 {
            return Err(format!("app: {}", eq_frames(out.len())));
        }
        let (app, r) = self.ss[i].open(1, &out[0])?;
        if !app {
            return Err("application reply is not application data".into());
        }
        diff("application reply", &r, &def_app_rsp(d))
    }
    pub fn vendor(&mut self, s: Option<usize>, d: &[u8]) -> Res<()> {
        self.resets(0xfe, s);
        let r = self.any(s, "vendor", &m_vendor(self.n.ver, true, d))?;
        self.exact("VENDOR_DEFINED_RESPONSE", &r, &m_vendor(self.n.ver, false, &def_vendor_rsp(d)), s.is_some())
    }
    pub fn end(&mut self, i: usize) -> Res<()> {
        let v = self.n.ver;
        self.simple(i, "end", &[v, 0xec, 0, 0], &[v, 0x6c, 0, 0])?;
        self.ss[i].dead = true;
        Ok(())
    }
    pub fn op(&mut self, o: &Op) -> Res<()> {
        match o {
            Op::Init => self.init(),
            Op::Version => self.version(),
            Op::Caps => self.caps(),
            Op::Algs => self.algs(),
            Op::Digest(s) => self.digest(*s),
            Op::Cert(s, n) => self.cert(*s, *n, 0x200),
            Op::Chal(n, t) => self.challenge(*n, *t),
            Op::Meas(s, g, o, n) => self.meas(*s, *g, *o, *n),
            Op::Ke(n, t) => self.ke(*n, *t).map(|_| ()),
            Op::Psk(t) => self.psk(*t).map(|_| ()),
            Op::Hb(i) => self.heartbeat(*i),
            Op::Ku(i, k) => self.key_update(*i, *k, 0x77),
            Op::App(i, d) => self.app(*i, &d.clone()),
            Op::Vendor(s, d) => self.vendor(*s, &d.clone()),
            Op::End(i) => self.end(*i),
        }
    }
}

// ------------------------------------------------------------------ reference responder
pub type Edit = Box<dyn FnMut(&str, &mut Vec<u8>)>;
pub struct RefRsp {
    pub cfg: Cfg,
    pub n: Neg,
    pub a: Vec<u8>,
    pub b: Vec<u8>,
    pub c: Vec<u8>,
    pub m: Vec<u8>,
    pub ss: Vec<Sess>,
    /// what the requester sent that a specification-conforming requester would not
    pub bad: Vec<String>,
    /// kinds of requests served, in order
    pub served: Vec<String>,
    /// changes the message before it is signed and recorded
    pub craft: Option<Edit>,
    /// changes the finished message before it is framed or sealed
    pub tamper: Option<Edit>,
    pub sign_key: u64,
    pub psk: Vec<u8>,
    pub portion: usize,
    pub mut_req: u8,
    pub opaque: Vec<u8>,
    pub ctx_len: usize,
    pub strict: bool,
    pub change: u8,
    pub half: u16,
    encap_off: usize,
    encap_id: u8,
    encap_state: u8,
    pub used_ids: Vec<u32>,
    /// what is served instead of the provisioned chain (as it goes on the wire)
    pub chains: std::collections::BTreeMap<usize, Vec<u8>>,
    /// answers GET_CERTIFICATE(slot, offset, length)
    pub cert_fn: Option<Box<dyn FnMut(u8, usize, usize) -> Vec<u8>>>,
    /// 0: as it should be; see `signed`
    pub sig_mode: u8,
    /// 0: as it should be; see `maced`
    pub mac_mode: u8,
    /// a share that does not belong to the responder's secret
    pub bad_dh: bool,
    /// answers a request (of this kind) with this instead of serving it: nothing changes
    pub refuse: Option<Refuse>,
}
pub type Refuse = Box<dyn FnMut(&str, &Neg) -> Option<Vec<u8>>>;
pub const SIG_MODES: u8 = 7;
pub const MAC_MODES: u8 = 8;
impl RefRsp {
    /// the signature over a transcript, or what an impostor puts in its place
    fn signed(&self, ctx: &str, m: &[u8]) -> Vec<u8> {
        let n = &self.n;
        let good = n.sign(self.sign_key, n.asym, ctx, m);
        match self.sig_mode {
            1 => n.sign(self.sign_key, n.asym, if ctx == CTX_CHAL { CTX_MEAS } else { CTX_CHAL }, m),
            2 => n.sign(self.sign_key, n.asym, ctx, &m[1..]),
            3 => vec![0; good.len()],
            4 => n.sign(self.cfg.req.key, n.asym, ctx, m),
            5 => n.sign(0x666, n.asym, ctx, m),
            6 => good[..good.len() - 1].iter().copied().chain([good[good.len() - 1] ^ 1]).collect(),
            7 => vec![],
            _ => good,
        }
    }
    fn maced(&self, s: &Sess) -> Vec<u8> {
        let n = &self.n;
        let good = n.hmac(&s.fin[1], &n.hash(&s.th()));
        match self.mac_mode {
            1 => n.hmac(&s.fin[0], &n.hash(&s.th())),
            2 => n.hmac(&s.fin[1], &n.hash(&s.th()[1..])),
            3 => vec![0; good.len()],
            4 => n.hmac(&vec![0; n.hs()], &n.hash(&s.th())),
            5 => n.hash(&s.th()),
            6 => good[..good.len() - 1].iter().copied().chain([good[good.len() - 1] ^ 1]).collect(),
            7 => vec![],
            8 => n.hmac(&[], &n.hash(&s.th())),
            _ => good,
        }
    }
    pub fn new(cfg: &Cfg) -> RefRsp {
        let n = expected_neg(cfg).expect("compatible configuration");
        RefRsp {
            cfg: cfg.clone(),
            n,
            a: vec![],
            b: vec![],
            c: vec![],
            m: vec![],
            ss: vec![],
            bad: vec![],
            served: vec![],
            craft: None,
            tamper: None,
            sign_key: cfg.rsp.key,
            sig_mode: 0,
            mac_mode: 0,
            bad_dh: false, refuse: None,
            psk: PSK.to_vec(),
            portion: 512,
            mut_req: if MUTAUTH { 4 } else { 0 },
            opaque: vec![],
            ctx_len: 32,
            strict: true,
            change: 0,
            half: 0x8001,
            encap_off: 0,
            encap_id: 0,
            encap_state: 0,
            used_ids: vec![],
            chains: Default::default(),
            cert_fn: None,
        }
    }
    /// a world whose requester is real and whose responder is this model
    pub fn world(self) -> (World, std::rc::Rc<std::cell::RefCell<RefRsp>>) {
        let cfg = self.cfg.clone();
        let r = std::rc::Rc::new(std::cell::RefCell::new(self));
        let r2 = r.clone();
        let w = World::with_peer(&cfg, Box::new(move |f| r2.borrow_mut().serve(f)));
        (w, r)
    }
    fn tr(&self) -> Tr {
        self.cfg.tr
    }
    pub fn resets(&mut self, code: u8, s: Option<usize>) {
        if code != 0xe0 {
            match s {
                None => self.m.clear(),
                Some(i) => self.ss[i].m.clear(),
            }
        }
        if [0xe0, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xec].contains(&code) {
            self.b.clear();
            self.c.clear();
        }
        if code == 0x81 {
            self.b.clear();
        }
    }
    pub fn chain(&self, slot: usize) -> Vec<u8> {
        match self.chains.get(&slot) {
            Some(c) => c.clone(),
            None => wire_chain(&self.n, &self.cfg.rsp, false, slot).unwrap_or_default(),
        }
    }
    pub fn req_chain(&self) -> Vec<u8> {
        wire_chain(&self.n, &self.cfg.req, true, 0).unwrap_or_default()
    }
    fn summary(&self, ty: u8) -> Vec<u8> {
        if ty == 0 {
            vec![]
        } else {
            fake::with(|e| meas_summary(e, self.n.ha(), ty))
        }
    }
    fn crafted(&mut self, tag: &str, m: &mut Vec<u8>) {
        if let Some(f) = &mut self.craft {
            f(tag, m);
        }
    }
    fn tampered(&mut self, tag: &str, m: &mut Vec<u8>) {
        if let Some(f) = &mut self.tamper {
            f(tag, m);
        }
    }
    pub fn serve(&mut self, f: &[u8]) -> Vec<Vec<u8>> {
        let old = fake::set_actor(Actor::Ext);
        let r = self.serve_inner(f);
        fake::set_actor(old);
        match r {
            Ok(v) => v,
            Err(e) => {
                self.bad.push(e);
                vec![]
            }
        }
    }
    /// serves a request, or refuses it as if it had never been looked at
    fn ask(&mut self, s: Option<usize>, q: &[u8]) -> Res<(String, Vec<u8>, bool)> {
        let Some(mut f) = self.refuse.take() else {
            return self.request(s, q).map(|(a, b)| (a, b, false));
        };
        let was = (self.n.clone(), self.a.clone(), self.b.clone(), self.c.clone(), self.m.clone(), self.ss.clone());
        let was2 = (self.change, self.half, self.encap_off, self.encap_id, self.encap_state, self.used_ids.clone(), self.served.len());
        let r = self.request(s, q);
        let x = match &r {
            Ok((tag, _)) => f(tag, &was.0),
            Err(_) => None,
        };
        self.refuse = Some(f);
        let (tag, m) = r?;
        match x {
            None => Ok((tag, m, false)),
            Some(e) => {
                (self.n, self.a, self.b, self.c, self.m, self.ss) = was;
                (self.change, self.half, self.encap_off, self.encap_id, self.encap_state, self.used_ids) = (was2.0, was2.1, was2.2, was2.3, was2.4, was2.5);
                self.served.truncate(was2.6);
                self.resets(q[1], s);
                Ok((tag, e, true))
            }
        }
    }
    fn serve_inner(&mut self, f: &[u8]) -> Res<Vec<Vec<u8>>> {
        let (sec, p) = unframe(self.tr(), f).ok_or("malformed frame from the requester")?;
        if !sec {
            let (tag, mut m, _) = self.ask(None, &p)?;
            self.tampered(&tag, &mut m);
            return Ok(if m.is_empty() { vec![] } else { vec![frame(self.tr(), false, &m)] });
        }
        if p.len() < 4 {
            return Err("short record".into());
        }
        let sid = u32::from_le_bytes(p[..4].try_into().unwrap());
        let i = self.ss.iter().position(|s| !s.dead && s.sid == sid).ok_or("record for an unknown session")?;
        let (app, x) = self.ss[i].open(0, f)?;
        if app {
            self.served.push("app".into());
            let r = def_app_rsp(&x);
            return Ok(vec![self.ss[i].seal(1, &r, true)]);
        }
        // a key update takes effect for the response to it
        let was = self.ss[i].established;
        let (tag, mut m, refused) = self.ask(Some(i), &x)?;
        self.tampered(&tag, &mut m);
        if m.is_empty() {
            return Ok(vec![]);
        }
        let out = if !refused && (tag == "finish" || tag == "psk_finish") {
            // answered under the handshake keys
            self.ss[i].established = was;
            let o = self.ss[i].seal(1, &m, false);
            self.ss[i].established = true;
            o
        } else {
            self.ss[i].seal(1, &m, false)
        };
        if tag == "end" && !refused {
            self.ss.remove(i);
        }
        Ok(vec![out])
    }
    fn same(&mut self, what: &str, got: &[u8], want: &[u8], sec: bool) {
        let mut c = Cur::new(got);
        let r = if got.len() < want.len() || got[..want.len()] != *want {
            diff(what, got, want)
        } else {
            c.p = want.len();
            c.end(self.tr(), sec, what)
        };
        if let Err(e) = r {
            self.bad.push(e);
        }
    }
    fn fresh(&mut self, what: &str, v: &[u8]) {
        if !drawn(Actor::Req, 0, v) {
            self.bad.push(format!("{what} does not come from the random source"));
        }
    }
    /// (kind, response)
    fn request(&mut self, s: Option<usize>, q: &[u8]) -> Res<(String, Vec<u8>)> {
        let mut c = Cur::new(q);
        let h = c.take(4, "header")?.to_vec();
        let n = self.n.clone();
        let (tr, sec) = (self.tr(), s.is_some());
        let code = h[1];
        self.resets(code, s);
        let tag = match code {
            0x84 => "version",
            0xe1 => "caps",
            0xe3 => "algs",
            0x81 => "digest",
            0x82 => "cert",
            0x83 => "challenge",
            0xe0 => "meas",
            0xe4 => "ke",
            0xe5 => "finish",
            0xe6 => "psk",
            0xe7 => "psk_finish",
            0xe8 => "heartbeat",
            0xe9 => "key_update",
            0xea => "get_encap",
            0xeb => "deliver",
            0xec => "end",
            0xfe => "vendor",
            x => return Err(format!("request code {x:02x}")),
        }
        .to_string();
        self.served.push(tag.clone());
        if code != 0x84 && h[0] != n.ver {
            self.bad.push(format!("{tag}: version {:02x}", h[0]));
        }
        let mut out: Vec<u8>;
        match code {
            0x84 => {
                let want = m_get_version();
                self.same("GET_VERSION", q, &want, sec);
                out = m_version(&self.cfg.rsp.vers);
                self.crafted(&tag, &mut out);
                self.a = want;
                self.a.extend(&out);
                self.b.clear();
                self.c.clear();
                self.m.clear();
                self.ss.clear();
            }
            0xe1 => {
                let want = m_get_caps(n.ver, &self.cfg.req);
                self.same("GET_CAPABILITIES", q, &want, sec);
                out = m_caps(n.ver, &self.cfg.rsp);
                self.crafted(&tag, &mut out);
                self.a.extend(want);
                self.a.extend(&out);
            }
            0xe3 => {
                let want = m_neg_algs(n.ver, &self.cfg.req);
                self.same("NEGOTIATE_ALGORITHMS", q, &want, sec);
                out = m_algs(&n);
                self.crafted(&tag, &mut out);
                self.a.extend(want);
                self.a.extend(&out);
            }
            0x81 => {
                let want = vec![n.ver, 0x81, 0, 0];
                self.same("GET_DIGESTS", q, &want, sec);
                out = m_digests(&n, &self.cfg.rsp, false);
                self.crafted(&tag, &mut out);
                if !sec {
                    self.b.extend(want);
                    self.b.extend(&out);
                }
            }
            0x82 => {
                let (off, len) = (c.u16("offset")?, c.u16("length")?);
                c.end(tr, sec, "GET_CERTIFICATE")?;
                if h[3] != 0 || h[2] > 7 || len == 0 {
                    self.bad.push(format!("GET_CERTIFICATE {h:02x?} length {len}"));
                }
                let chain = self.chain(h[2] as usize);
                if let Some(f) = &mut self.cert_fn {
                    out = f(h[2], off, len);
                    if !sec {
                        self.b.extend(&q[..c.p]);
                        self.b.extend(&out);
                    }
                } else if chain.is_empty() || off >= chain.len() {
                    out = m_err(n.ver, 1, 0);
                } else {
                    let k = len.min(self.portion);
                    out = m_cert(n.ver, h[2], &chain, off, k);
                    self.crafted(&tag, &mut out);
                    if !sec {
                        self.b.extend(&q[..c.p]);
                        self.b.extend(&out);
                    }
                }
            }
            0x83 => {
                let nonce = c.take(32, "nonce")?.to_vec();
                c.end(tr, sec, "CHALLENGE")?;
                self.fresh("CHALLENGE nonce", &nonce);
                out = vec![n.ver, 3, h[2], slot_mask(&self.cfg.rsp)];
                out.extend(n.hash(&self.chain(h[2] as usize)));
                out.extend(ext_random(32));
                out.extend(self.summary(h[3]));
                out.extend(u16b(self.opaque.len()));
                out.extend(&self.opaque.clone());
                self.crafted(&tag, &mut out);
                self.c.extend(&q[..c.p]);
                self.c.extend(&out);
                let mut m1 = self.a.clone();
                m1.extend(&self.b);
                m1.extend(&self.c);
                out.extend(self.signed(CTX_CHAL, &m1));
                self.b.clear();
                self.c.clear();
            }
            0xe0 => {
                let sig = h[2] & 1 != 0;
                if h[2] > 1 {
                    self.bad.push(format!("GET_MEASUREMENTS attributes {:02x}", h[2]));
                }
                let mut slot = 0;
                if sig {
                    let nonce = c.take(32, "nonce")?.to_vec();
                    self.fresh("GET_MEASUREMENTS nonce", &nonce);
                    if n.ver >= 0x11 {
                        slot = c.take(1, "slot")?[0];
                    }
                }
                c.end(tr, sec, "GET_MEASUREMENTS")?;
                let got = if h[3] == 0 { Some((0, vec![])) } else { fake::with(|e| meas_record(&e.meas, h[3] as usize)) };
                match got {
                    None => out = m_err(n.ver, 1, 0),
                    Some((nb, rec)) => {
                        out = vec![n.ver, 0x60, if h[3] == 0 { fake::with(|e| e.meas.len()) as u8 } else { 0 }, slot | self.change << 4, nb];
                        out.extend(&(rec.len() as u32).to_le_bytes()[..3]);
                        out.extend(rec);
                        out.extend(ext_random(32));
                        out.extend(u16b(self.opaque.len()));
                        out.extend(&self.opaque.clone());
                        self.crafted(&tag, &mut out);
                        let m = match s {
                            None => &mut self.m,
                            Some(i) => &mut self.ss[i].m,
                        };
                        m.extend(&q[..c.p]);
                        m.extend(&out);
                        if sig {
                            let mut l1 = if n.ver >= 0x12 { self.a.clone() } else { vec![] };
                            l1.extend(&*m);
                            m.clear();
                            out.extend(self.signed(CTX_MEAS, &l1));
                        }
                    }
                }
            }
            0xe4 => {
                let half = c.u16("session id")?;
                let pol = c.take(2, "policy")?.to_vec();
                if pol != [if n.ver >= 0x12 { self.cfg.req.policy } else { 0 }, 0] {
                    self.bad.push(format!("KEY_EXCHANGE policy {pol:02x?}"));
                }
                let random = c.take(32, "random")?.to_vec();
                self.fresh("KEY_EXCHANGE random", &random);
                let share = c.take(dhe_size(n.dh()), "exchange data")?.to_vec();
                if !fake::with(|e| e.dhe_pubs.iter().any(|p| p.0 == Actor::Req && p.1 == share)) {
                    self.bad.push("KEY_EXCHANGE share was not generated".into());
                }
                let op = m_opaque_req(n.ver);
                let e = c.expect(&u16b(op.len()), "opaque length").and_then(|_| c.expect(&op, "opaque")).and_then(|_| c.end(tr, sec, "KEY_EXCHANGE"));
                if let Err(e) = e {
                    self.bad.push(e);
                }
                self.half = self.half.wrapping_add(1);
                let chain = self.chain(h[3] as usize);
                let mut ss = Sess::new(&n, tr, (self.half as u32) << 16 | half as u32, &self.a, Some(&chain), h[3] as usize);
                if half == 0 || self.ss.iter().any(|x| !x.dead && x.sid as u16 == half as u16) {
                    self.bad.push(format!("requester session id {half:04x} is zero or in use"));
                }
                let y = u64::from_le_bytes(ext_random(8).try_into().unwrap()) | 1;
                ss.ikm = dhe_shared(n.dh(), y, &share).ok_or("KEY_EXCHANGE share is not on the curve")?;
                out = vec![n.ver, 0x64, period(&n, &self.cfg), 0];
                out.extend(self.half.to_le_bytes());
                out.extend([self.mut_req, 0]);
                out.extend(ext_random(32));
                out.extend(dhe_public(n.dh(), if self.bad_dh { y + 2 } else { y }));
                out.extend(self.summary(h[2]));
                let op = m_opaque_rsp(n.ver, secure_ver(&self.cfg));
                out.extend(u16b(op.len()));
                out.extend(op);
                self.crafted(&tag, &mut out);
                ss.k = q[..c.p].to_vec();
                ss.k.extend(&out);
                let sig = self.signed(CTX_KE, &ss.th());
                ss.k.extend(&sig);
                out.extend(sig);
                ss.handshake();
                if !n.clear() {
                    let mac = self.maced(&ss);
                    ss.k.extend(&mac);
                    out.extend(mac);
                }
                ss.mut_auth = self.mut_req != 0;
                self.encap_off = 0;
                self.encap_id = 0;
                self.encap_state = if self.mut_req == 1 { 9 } else { 0 };
                if self.mut_req == 1 {
                    ss.cm = n.hash(&self.req_chain());
                }
                self.used_ids.push(ss.sid);
                self.ss.push(ss);
            }
            0xea => {
                let i = s.ok_or("GET_ENCAPSULATED_REQUEST outside a session")?;
                self.same("GET_ENCAPSULATED_REQUEST", q, &[n.ver, 0xea, 0, 0], sec);
                if !self.ss[i].mut_auth || self.mut_req != 2 {
                    self.bad.push("GET_ENCAPSULATED_REQUEST was not asked for".into());
                }
                self.encap_id = 1;
                out = vec![n.ver, 0x6a, 1, 0, n.ver, 0x81, 0, 0];
                self.crafted(&tag, &mut out);
            }
            0xeb => {
                let i = s.ok_or("DELIVER_ENCAPSULATED_RESPONSE outside a session")?;
                if h[2] != self.encap_id || h[3] != 0 {
                    self.bad.push(format!("DELIVER_ENCAPSULATED_RESPONSE header {h:02x?}, request id {}", self.encap_id));
                }
                let chain = self.req_chain();
                let (want, done) = if self.encap_state == 0 {
                    (m_digests(&n, &self.cfg.req, true), false)
                } else {
                    let w = m_cert(n.ver, 0, &chain, self.encap_off, self.portion.min(512));
                    self.encap_off += self.portion.min(512).min(chain.len() - self.encap_off);
                    (w, self.encap_off == chain.len())
                };
                let mut full = q[..4].to_vec();
                full.extend(want);
                self.same("DELIVER_ENCAPSULATED_RESPONSE", q, &full, sec);
                self.encap_state = 1;
                let prev = self.encap_id;
                self.encap_id = if done { 0 } else { self.encap_id.wrapping_add(1) };
                out = vec![n.ver, 0x6b, self.encap_id, if done { 2 } else { 1 }];
                if n.ver >= 0x12 {
                    out.extend([prev, 0, 0, 0]);
                }
                if done {
                    out.push(0);
                    self.ss[i].cm = n.hash(&chain);
                    self.encap_state = 9;
                } else {
                    out.extend(m_get_cert(n.ver, 0, self.encap_off, self.portion));
                }
                self.crafted(&tag, &mut out);
            }
            0xe5 => {
                let i = if n.clear() && s.is_none() { self.ss.len().checked_sub(1).ok_or("FINISH without a session")? } else { s.ok_or("FINISH outside a session")? };
                if self.ss[i].established {
                    return Err("FINISH in an established session".into());
                }
                let mut_auth = self.ss[i].mut_auth;
                let mut want = vec![n.ver, 0xe5, mut_auth as u8, 0];
                if mut_auth && self.encap_state != 9 {
                    self.bad.push("FINISH before the encapsulated exchange is complete".into());
                }
                let key = self.cfg.req.key;
                let ss = &mut self.ss[i];
                ss.f = want.clone();
                if mut_auth {
                    let sig = n.sign(key, n.req_asym as u32, CTX_FIN, &ss.th());
                    want.extend(sig);
                    ss.f = want.clone();
                }
                let mac = n.hmac(&ss.fin[0], &n.hash(&ss.th()));
                want.extend(mac);
                ss.f = want.clone();
                self.same("FINISH", q, &want, sec);
                out = vec![n.ver, 0x65, 0, 0];
                self.crafted(&tag, &mut out);
                self.ss[i].f.extend(&out);
                if n.clear() {
                    let mac = self.maced(&self.ss[i]);
                    self.ss[i].f.extend(&mac);
                    out.extend(mac);
                }
                self.ss[i].establish();
            }
            0xe6 => {
                let half = c.u16("session id")?;
                let (hl, cl, ol) = (c.u16("hint length")?, c.u16("context length")?, c.u16("opaque length")?);
                c.take(hl, "hint")?;
                let ctx = c.take(cl, "context")?.to_vec();
                if cl < 32 {
                    self.bad.push(format!("PSK_EXCHANGE context of {cl} bytes"));
                }
                self.fresh("PSK_EXCHANGE context", &ctx);
                let op = m_opaque_req(n.ver);
                let e = c.expect(&op, "opaque").and_then(|_| c.end(tr, sec, "PSK_EXCHANGE"));
                if let Err(e) = e {
                    self.bad.push(e);
                }
                if ol != op.len() || h[3] != 0 {
                    self.bad.push("PSK_EXCHANGE header or opaque length".into());
                }
                self.half = self.half.wrapping_add(1);
                let mut ss = Sess::new(&n, tr, (self.half as u32) << 16 | half as u32, &self.a, None, 0);
                if half == 0 || self.ss.iter().any(|x| !x.dead && x.sid as u16 == half as u16) {
                    self.bad.push(format!("requester session id {half:04x} is zero or in use"));
                }
                ss.psk_val = self.psk.clone();
                let op = m_opaque_rsp(n.ver, secure_ver(&self.cfg));
                let cl = if n.psk_ctx() { self.ctx_len } else { 0 };
                out = vec![n.ver, 0x66, period(&n, &self.cfg), 0];
                out.extend(self.half.to_le_bytes());
                out.extend([0, 0]);
                out.extend(u16b(cl));
                out.extend(u16b(op.len()));
                out.extend(self.summary(h[2]));
                out.extend(ext_random(cl));
                out.extend(op);
                self.crafted(&tag, &mut out);
                ss.k = q[..c.p].to_vec();
                ss.k.extend(&out);
                ss.handshake();
                let mac = self.maced(&ss);
                ss.k.extend(&mac);
                out.extend(mac);
                if !n.psk_ctx() {
                    ss.establish();
                }
                self.used_ids.push(ss.sid);
                self.ss.push(ss);
            }
            0xe7 => {
                let i = s.ok_or("PSK_FINISH outside a session")?;
                let ss = &mut self.ss[i];
                if ss.established || !ss.psk {
                    return Err("PSK_FINISH in the wrong session".into());
                }
                let mut want = vec![n.ver, 0xe7, 0, 0];
                ss.f = want.clone();
                let mac = n.hmac(&ss.fin[0], &n.hash(&ss.th()));
                want.extend(mac);
                ss.f = want.clone();
                self.same("PSK_FINISH", q, &want, sec);
                out = vec![n.ver, 0x67, 0, 0];
                self.crafted(&tag, &mut out);
                let ss = &mut self.ss[i];
                ss.f.extend(&out);
                ss.establish();
            }
            0xe8 => {
                s.ok_or("HEARTBEAT outside a session")?;
                self.same("HEARTBEAT", q, &[n.ver, 0xe8, 0, 0], sec);
                out = vec![n.ver, 0x68, 0, 0];
                self.crafted(&tag, &mut out);
            }
            0xe9 => {
                let i = s.ok_or("KEY_UPDATE outside a session")?;
                c.end(tr, sec, "KEY_UPDATE")?;
                match h[2] {
                    1 | 2 => {
                        self.ss[i].update(0);
                        if h[2] == 2 {
                            self.ss[i].update(1);
                        }
                    }
                    3 => {}
                    x => self.bad.push(format!("KEY_UPDATE operation {x}")),
                }
                out = vec![n.ver, 0x69, h[2], h[3]];
                self.crafted(&tag, &mut out);
            }
            0xec => {
                s.ok_or("END_SESSION outside a session")?;
                self.same("END_SESSION", q, &[n.ver, 0xec, 0, 0], sec);
                out = vec![n.ver, 0x6c, 0, 0];
                self.crafted(&tag, &mut out);
            }
            0xfe => {
                c.expect(&[3, 0, 2, 0x86, 0x80], "vendor header")?;
                let l = c.u16("length")?;
                let d = c.take(l, "payload")?.to_vec();
                c.end(tr, sec, "VENDOR_DEFINED_REQUEST")?;
                out = m_vendor(n.ver, false, &def_vendor_rsp(&d));
                self.crafted(&tag, &mut out);
            }
            _ => unreachable!(),
        }
        Ok((tag, out))
    }
}
