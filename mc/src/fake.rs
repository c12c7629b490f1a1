//! Deterministic, per-thread environment: crypto, randomness, secrets, device data. Every callback the
//! library can make is logged here and can be made to fail.
use spdmlib::error::*;
use spdmlib::protocol::*;
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Actor {
    Req,
    Rsp,
    Ext,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    HashAll,
    HashInit,
    HashUpdate,
    HashFinal,
    HashDup,
    Hmac,
    HmacVerify,
    Encrypt,
    Decrypt,
    Verify,
    Extract,
    Expand,
    GetCert,
    VerifyChain,
    DheGen,
    DheFinal,
    Random,
    Measure,
    MeasSummary,
    PskHs,
    PskMaster,
    Sign,
    Vendor,
    App,
    IoSend,
    IoRecv,
}

#[derive(Clone, Debug)]
pub struct AeadRec {
    pub actor: Actor,
    pub enc: bool,
    pub ok: bool,
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    pub aad: Vec<u8>,
    pub pt: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct SignRec {
    pub actor: Actor,
    pub data: Vec<u8>,
    pub sig: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct MeasBlock {
    pub index: u8,
    pub repr: u8,
    pub value: Vec<u8>,
}

pub struct Env {
    pub actor: Actor,
    pub rng: [u64; 3],
    pub draws: Vec<(Actor, Vec<u8>)>,
    pub dhe_pubs: Vec<(Actor, Vec<u8>)>,
    pub secrets: Vec<Vec<u8>>,
    pub calls: Vec<(Actor, Kind)>,
    pub ncalls: usize,
    /// global indices of calls that must fail
    pub fail_at: Vec<usize>,
    /// these calls give a wrong digest or copy
    pub bend_at: Vec<usize>,
    /// a bent random source fills this many quarters of the buffer (0: nothing, 9: all but a byte)
    pub short: usize,
    pub failed: usize,
    /// all calls of this kind (by this actor) fail
    pub fail_kind: Option<(Actor, Kind)>,
    /// the n-th call of this kind by this actor from now on fails, once
    pub fail_nth: Option<(Actor, Kind, usize)>,
    ctxs: HashMap<usize, (SpdmBaseHashAlgo, Vec<u8>)>,
    next_ctx: usize,
    pub preimages: HashMap<Vec<u8>, Vec<u8>>,
    pub keep_preimages: bool,
    pub aead: Vec<AeadRec>,
    pub signs: Vec<SignRec>,
    pub key_id: [u64; 3],
    pub psk: [Vec<u8>; 3],
    pub psk_hints: Vec<(Actor, Vec<u8>)>,
    pub meas: Vec<MeasBlock>,
    pub meas_calls: Vec<usize>,
    pub meas_none: bool,
    /// the device gives summary hashes of this size
    pub summary_len: Option<usize>,
    pub vendor_calls: Vec<Vec<u8>>,
    pub vendor_rsp: Option<Vec<u8>>,
    pub app_calls: Vec<(u32, Vec<u8>)>,
    pub app_rsp: Option<Vec<u8>>,
    /// the implementation accepts these certificates although the signature is wrong: never set
    pub notes: Vec<String>,
}

impl Env {
    pub fn new() -> Self {
        Env {
            actor: Actor::Ext,
            rng: [1, 1, 1],
            draws: vec![],
            dhe_pubs: vec![],
            secrets: vec![],
            calls: vec![],
            ncalls: 0,
            fail_at: vec![],
            bend_at: vec![],
            short: 0,
            failed: 0,
            fail_kind: None,
            fail_nth: None,
            ctxs: HashMap::new(),
            next_ctx: 1,
            preimages: HashMap::new(),
            keep_preimages: false,
            aead: vec![],
            signs: vec![],
            key_id: [KEY_REQ, KEY_RSP, KEY_EXT],
            psk: [PSK.to_vec(), PSK.to_vec(), b"not the psk".to_vec()],
            psk_hints: vec![],
            meas: vec![],
            meas_calls: vec![],
            meas_none: false,
            summary_len: None,
            vendor_calls: vec![],
            vendor_rsp: None,
            app_calls: vec![],
            app_rsp: None,
            notes: vec![],
        }
    }
    pub fn live_ctxs(&self) -> usize {
        self.ctxs.len()
    }
}

pub const KEY_REQ: u64 = 0x5245_5155_4553_5431;
pub const KEY_RSP: u64 = 0x5245_5350_4f4e_4431;
pub const KEY_EXT: u64 = 0x4154_5441_434b_4552;
pub const KEY_ROOT: u64 = 0x524f_4f54_524f_4f54;
pub const PSK: &[u8] = b"the shared pre-shared key value!";

thread_local! {
    pub static ENV: RefCell<Env> = RefCell::new(Env::new());
}
pub fn with<T>(f: impl FnOnce(&mut Env) -> T) -> T {
    ENV.with(|e| f(&mut e.borrow_mut()))
}
/// whose blocks are allocated while this one runs
fn heap_of(a: Actor) -> u8 {
    match a {
        Actor::Req => 1,
        Actor::Rsp => 2,
        Actor::Ext => 0,
    }
}
pub fn set_actor(a: Actor) -> Actor {
    let old = with(|e| std::mem::replace(&mut e.actor, a));
    crate::leak::mode(heap_of(a));
    old
}
/// what a callback hands over is the caller's from here on
fn give<T>(f: impl FnOnce() -> T) -> T {
    let m = crate::leak::mode(heap_of(with(|e| e.actor)));
    let r = f();
    crate::leak::mode(m);
    r
}
fn secret(v: &[u8]) {
    crate::leak::note(v);
    with(|e| e.secrets.push(v.to_vec()));
}
pub fn as_actor<T>(a: Actor, f: impl FnOnce() -> T) -> T {
    let old = set_actor(a);
    let r = f();
    set_actor(old);
    r
}

/// true: this call must fail
pub fn call(k: Kind) -> bool {
    with(|e| {
        let n = e.ncalls;
        e.ncalls += 1;
        if e.actor == Actor::Ext {
            e.ncalls -= 1;
            return false;
        }
        let a = e.actor;
        e.calls.push((a, k));
        let mut f = e.fail_at.contains(&n) || e.fail_kind == Some((a, k));
        if let Some((a2, k2, m)) = e.fail_nth {
            if (a2, k2) == (a, k) {
                f |= m == 0;
                e.fail_nth = if m == 0 { None } else { Some((a, k, m - 1)) };
            }
        }
        if f {
            e.failed += 1;
        }
        f
    })
}

// ---------------------------------------------------------------- primitive functions

#[inline]
fn mum(a: u64, b: u64) -> u64 {
    let r = (a as u128).wrapping_mul(b as u128);
    (r as u64) ^ ((r >> 64) as u64)
}

fn core_hash(seed: u64, parts: &[&[u8]]) -> [u64; 2] {
    let mut a: u64 = 0x9E37_79B9_7F4A_7C15 ^ seed;
    let mut b: u64 = 0xC2B2_AE3D_27D4_EB4F ^ seed.rotate_left(32);
    let mut buf = [0u8; 16];
    let mut n = 0usize;
    let mut total = 0u64;
    let mut absorb = |blk: &[u8; 16]| {
        let x = u64::from_le_bytes(blk[..8].try_into().unwrap());
        let y = u64::from_le_bytes(blk[8..].try_into().unwrap());
        let na = mum(a ^ x ^ 0xA076_1D64_78BD_642F, b.rotate_left(23) ^ y ^ 0xE703_7ED1_A0B4_28DB) ^ a.rotate_left(17);
        let nb = mum(b ^ y.rotate_left(31) ^ 0x8EBC_6AF0_9C88_C6E3, na ^ x ^ 0x5899_65CC_7537_4CC3) ^ b.rotate_left(41);
        a = na.wrapping_add(0x1234_5678_9abc_def1);
        b = nb.wrapping_add(0x0fed_cba9_8765_4321);
    };
    for p in parts {
        total += p.len() as u64;
        let mut p: &[u8] = p;
        if n > 0 {
            let k = (16 - n).min(p.len());
            buf[n..n + k].copy_from_slice(&p[..k]);
            n += k;
            p = &p[k..];
            if n == 16 {
                absorb(&buf);
                n = 0;
            }
        }
        while p.len() >= 16 {
            let blk: [u8; 16] = p[..16].try_into().unwrap();
            absorb(&blk);
            p = &p[16..];
        }
        if !p.is_empty() && n == 0 {
            buf[..p.len()].copy_from_slice(p);
            n = p.len();
        } else if !p.is_empty() {
            unreachable!();
        }
    }
    for x in buf[n..].iter_mut() {
        *x = 0;
    }
    absorb(&buf);
    let mut fin = [0u8; 16];
    fin[..8].copy_from_slice(&total.to_le_bytes());
    fin[8..].copy_from_slice(&seed.to_le_bytes());
    absorb(&fin);
    absorb(&[0x5a; 16]);
    [a, b]
}

pub fn expand(st: [u64; 2], out: &mut [u8]) {
    let mut i = 0u64;
    for c in out.chunks_mut(8) {
        let v = mum(st[0] ^ (i + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15), st[1].rotate_left((i % 63) as u32) ^ 0xD6E8_FEB8_6659_FD93) ^ st[1].wrapping_add(i);
        c.copy_from_slice(&v.to_le_bytes()[..c.len()]);
        i += 1;
    }
}

pub fn h(tag: u64, parts: &[&[u8]], n: usize) -> Vec<u8> {
    let mut o = vec![0u8; n];
    expand(core_hash(tag, parts), &mut o);
    o
}

pub fn hash_size(a: SpdmBaseHashAlgo) -> usize {
    match a {
        SpdmBaseHashAlgo::TPM_ALG_SHA_256 => 32,
        SpdmBaseHashAlgo::TPM_ALG_SHA_384 => 48,
        SpdmBaseHashAlgo::TPM_ALG_SHA_512 => 64,
        _ => 0,
    }
}
pub fn asym_size(bits: u32) -> usize {
    match bits {
        1 | 2 => 256,
        4 | 8 => 384,
        0x10 => 64,
        0x20 | 0x40 => 512,
        0x80 => 96,
        _ => 0,
    }
}
pub fn dhe_size(a: SpdmDheAlgo) -> usize {
    match a.bits() {
        8 => 64,
        16 => 96,
        _ => 0,
    }
}
pub fn aead_key_size(a: SpdmAeadAlgo) -> usize {
    match a.bits() {
        1 => 16,
        2 | 4 => 32,
        _ => 0,
    }
}

pub fn p_hash(a: SpdmBaseHashAlgo, data: &[u8]) -> Vec<u8> {
    let d = h(0x4841_5348 + a.bits() as u64, &[data], hash_size(a));
    with(|e| {
        if e.keep_preimages {
            e.preimages.insert(d.clone(), data.to_vec());
        }
    });
    d
}
pub fn p_hmac(a: SpdmBaseHashAlgo, key: &[u8], data: &[u8]) -> Vec<u8> {
    h(0x484d_4143 + a.bits() as u64, &[&(key.len() as u32).to_le_bytes(), key, data], hash_size(a))
}
pub fn p_extract(a: SpdmBaseHashAlgo, salt: &[u8], ikm: &[u8]) -> Vec<u8> {
    h(0x4558_5452 + a.bits() as u64, &[&(salt.len() as u32).to_le_bytes(), salt, ikm], hash_size(a))
}
pub fn p_expand(a: SpdmBaseHashAlgo, prk: &[u8], info: &[u8], n: usize) -> Vec<u8> {
    h(0x4558_5041 + a.bits() as u64, &[&(prk.len() as u32).to_le_bytes(), prk, info], n)
}
/// A signature is a keyed function of everything the primitive is given.
pub fn p_sign(key_id: u64, ha: SpdmBaseHashAlgo, asym: u32, data: &[u8]) -> Vec<u8> {
    h(0x5349_474e, &[&key_id.to_le_bytes(), b"private", &ha.bits().to_le_bytes(), &asym.to_le_bytes(), data], asym_size(asym))
}
pub fn p_aead_tag(alg: SpdmAeadAlgo, key: &[u8], iv: &[u8], aad: &[u8], ct: &[u8]) -> Vec<u8> {
    h(0x5441_4700 + alg.bits() as u64, &[key, iv, &(aad.len() as u32).to_le_bytes(), aad, ct], 16)
}
pub fn p_stream(alg: SpdmAeadAlgo, key: &[u8], iv: &[u8], n: usize) -> Vec<u8> {
    h(0x5354_5200 + alg.bits() as u64, &[key, iv], n)
}
pub fn p_seal(alg: SpdmAeadAlgo, key: &[u8], iv: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut ct = p_stream(alg, key, iv, pt.len());
    for (c, p) in ct.iter_mut().zip(pt) {
        *c ^= p;
    }
    let t = p_aead_tag(alg, key, iv, aad, &ct);
    (ct, t)
}
pub fn p_open(alg: SpdmAeadAlgo, key: &[u8], iv: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    if p_aead_tag(alg, key, iv, aad, ct) != tag {
        return None;
    }
    let mut pt = p_stream(alg, key, iv, ct.len());
    for (p, c) in pt.iter_mut().zip(ct) {
        *p ^= c;
    }
    Some(pt)
}
const P61: u128 = (1u128 << 61) - 1;
fn modexp(mut b: u128, mut e: u64) -> u64 {
    let mut r = 1u128;
    b %= P61;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % P61;
        }
        b = b * b % P61;
        e >>= 1;
    }
    r as u64
}
pub fn dhe_public(algo: SpdmDheAlgo, x: u64) -> Vec<u8> {
    let p = modexp(37, x);
    let mut v = p.to_le_bytes().to_vec();
    v.extend(h(0x4448, &[&p.to_le_bytes()], dhe_size(algo) - 8));
    v
}
/// None for a point that is not on the "curve"
pub fn dhe_shared(algo: SpdmDheAlgo, x: u64, peer: &[u8]) -> Option<Vec<u8>> {
    if peer.len() != dhe_size(algo) {
        return None;
    }
    let p = u64::from_le_bytes(peer[..8].try_into().unwrap());
    if p == 0 || p as u128 >= P61 || peer[8..] != h(0x4448, &[&p.to_le_bytes()], dhe_size(algo) - 8)[..] {
        return None;
    }
    let s = modexp(p as u128, x);
    Some(h(0x5348_4152, &[&s.to_le_bytes()], dhe_size(algo) / 2))
}
pub fn rng_bytes(e: &mut Env, a: Actor, n: usize) -> Vec<u8> {
    let c = e.rng[a as usize];
    e.rng[a as usize] += 1;
    h(0x524e_4700 + a as u64, &[&c.to_le_bytes()], n)
}
pub fn ext_random(n: usize) -> Vec<u8> {
    with(|e| rng_bytes(e, Actor::Ext, n))
}

// ---------------------------------------------------------------- callbacks

fn digest(v: &[u8]) -> SpdmDigestStruct {
    SpdmDigestStruct::from(v)
}

fn cb_hash_all(a: SpdmBaseHashAlgo, data: &[u8]) -> Option<SpdmDigestStruct> {
    let _q = crate::leak::quiet();
    if call(Kind::HashAll) || hash_size(a) == 0 {
        return None;
    }
    Some(digest(&p_hash(a, data)))
}
#[cfg(feature = "hashed")]
fn cb_hash_init(a: SpdmBaseHashAlgo) -> Option<usize> {
    let _q = crate::leak::quiet();
    if call(Kind::HashInit) || hash_size(a) == 0 {
        return None;
    }
    with(|e| {
        let id = e.next_ctx;
        e.next_ctx += 1;
        e.ctxs.insert(id, (a, vec![]));
        Some(id)
    })
}
#[cfg(feature = "hashed")]
fn cb_hash_update(c: usize, data: &[u8]) -> SpdmResult {
    let _q = crate::leak::quiet();
    if call(Kind::HashUpdate) {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    with(|e| match e.ctxs.get_mut(&c) {
        Some(x) => {
            x.1.extend_from_slice(data);
            Ok(())
        }
        None => Err(SPDM_STATUS_CRYPTO_ERROR),
    })
}
/// is the call just made one of those that give a wrong result?
fn bent() -> bool {
    with(|e| e.actor != Actor::Ext && e.bend_at.contains(&(e.ncalls.wrapping_sub(1))))
}
#[cfg(feature = "hashed")]
fn cb_hash_final(c: usize) -> Option<SpdmDigestStruct> {
    let _q = crate::leak::quiet();
    // Called from Drop too (also while the thread-local is gone at thread exit).
    let r = ENV.try_with(|e| e.try_borrow_mut().ok().and_then(|mut e| e.ctxs.remove(&c)));
    match r {
        Ok(Some((a, d))) => {
            if call(Kind::HashFinal) {
                return None;
            }
            let mut d = p_hash(a, &d);
            if bent() {
                d[0] ^= 1;
            }
            Some(digest(&d))
        }
        _ => None,
    }
}
#[cfg(feature = "hashed")]
fn cb_hash_dup(c: usize) -> Option<usize> {
    let _q = crate::leak::quiet();
    if call(Kind::HashDup) {
        return None;
    }
    let b = bent();
    with(|e| {
        let mut x = e.ctxs.get(&c)?.clone();
        if b {
            x.1.push(0);
        }
        let id = e.next_ctx;
        e.next_ctx += 1;
        e.ctxs.insert(id, x);
        Some(id)
    })
}
fn cb_hmac(a: SpdmBaseHashAlgo, key: &[u8], data: &[u8]) -> Option<SpdmDigestStruct> {
    let _q = crate::leak::quiet();
    if call(Kind::Hmac) || hash_size(a) == 0 {
        return None;
    }
    Some(digest(&p_hmac(a, key, data)))
}
fn cb_hmac_verify(a: SpdmBaseHashAlgo, key: &[u8], data: &[u8], m: &SpdmDigestStruct) -> SpdmResult {
    let _q = crate::leak::quiet();
    if call(Kind::HmacVerify) || p_hmac(a, key, data) != m.as_ref() || hash_size(a) == 0 {
        return Err(SPDM_STATUS_VERIF_FAIL);
    }
    Ok(())
}
fn cb_encrypt(alg: SpdmAeadAlgo, key: &SpdmAeadKeyStruct, iv: &SpdmAeadIvStruct, aad: &[u8], pt: &[u8], tag: &mut [u8], ct: &mut [u8]) -> SpdmResult<(usize, usize)> {
    let _q = crate::leak::quiet();
    if call(Kind::Encrypt) || key.as_ref().len() != aead_key_size(alg) || iv.as_ref().len() != 12 || ct.len() < pt.len() || tag.len() < 16 {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    let (c, t) = p_seal(alg, key.as_ref(), iv.as_ref(), aad, pt);
    ct[..c.len()].copy_from_slice(&c);
    tag[..16].copy_from_slice(&t);
    with(|e| {
        let actor = e.actor;
        e.aead.push(AeadRec { actor, enc: true, ok: true, key: key.as_ref().to_vec(), iv: iv.as_ref().to_vec(), aad: aad.to_vec(), pt: pt.to_vec() });
    });
    Ok((c.len(), 16))
}
fn cb_decrypt(alg: SpdmAeadAlgo, key: &SpdmAeadKeyStruct, iv: &SpdmAeadIvStruct, aad: &[u8], ct: &[u8], tag: &[u8], pt: &mut [u8]) -> SpdmResult<usize> {
    let _q = crate::leak::quiet();
    if call(Kind::Decrypt) || key.as_ref().len() != aead_key_size(alg) || iv.as_ref().len() != 12 || pt.len() < ct.len() || tag.len() != 16 {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    let r = p_open(alg, key.as_ref(), iv.as_ref(), aad, ct, tag);
    with(|e| {
        let actor = e.actor;
        e.aead.push(AeadRec { actor, enc: false, ok: r.is_some(), key: key.as_ref().to_vec(), iv: iv.as_ref().to_vec(), aad: aad.to_vec(), pt: r.clone().unwrap_or_default() });
    });
    match r {
        Some(p) => {
            pt[..p.len()].copy_from_slice(&p);
            Ok(p.len())
        }
        None => Err(SPDM_STATUS_CRYPTO_ERROR),
    }
}
fn cb_verify(ha: SpdmBaseHashAlgo, asym: SpdmBaseAsymAlgo, cert: &[u8], data: &[u8], sig: &SpdmSignatureStruct) -> SpdmResult {
    let _q = crate::leak::quiet();
    if call(Kind::Verify) {
        return Err(SPDM_STATUS_VERIF_FAIL);
    }
    // the same step the repository's own backend takes first
    spdmlib::crypto::check_cert_chain_format(cert, asym)?;
    let id = crate::cert::leaf_key(cert).ok_or(SPDM_STATUS_VERIF_FAIL)?;
    if sig.as_ref().is_empty() || p_sign(id, ha, asym.bits(), data) != sig.as_ref() {
        return Err(SPDM_STATUS_VERIF_FAIL);
    }
    Ok(())
}
fn cb_extract(a: SpdmBaseHashAlgo, salt: &[u8], ikm: &SpdmHkdfInputKeyingMaterial) -> Option<SpdmHkdfPseudoRandomKey> {
    let _q = crate::leak::quiet();
    if call(Kind::Extract) || hash_size(a) == 0 {
        return None;
    }
    let v = p_extract(a, salt, ikm.as_ref());
    secret(&v);
    give(|| Some(SpdmHkdfPseudoRandomKey::from(&v[..])))
}
fn cb_expand(a: SpdmBaseHashAlgo, prk: &SpdmHkdfPseudoRandomKey, info: &[u8], n: u16) -> Option<SpdmHkdfOutputKeyingMaterial> {
    let _q = crate::leak::quiet();
    if call(Kind::Expand) || hash_size(a) == 0 {
        return None;
    }
    let v = p_expand(a, prk.as_ref(), info, n as usize);
    secret(&v);
    give(|| Some(SpdmHkdfOutputKeyingMaterial::from(&v[..])))
}
fn cb_get_cert(chain: &[u8], index: isize) -> SpdmResult<(usize, usize)> {
    let _q = crate::leak::quiet();
    if call(Kind::GetCert) {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    let v = crate::cert::split(chain).ok_or(SPDM_STATUS_INVALID_CERT)?;
    let i = if index < 0 { v.len() - 1 } else { index as usize };
    v.get(i).copied().ok_or(SPDM_STATUS_INVALID_CERT)
}
fn cb_verify_chain(chain: &[u8]) -> SpdmResult {
    let _q = crate::leak::quiet();
    if call(Kind::VerifyChain) || !crate::cert::verify(chain) {
        return Err(SPDM_STATUS_INVALID_CERT);
    }
    Ok(())
}
struct Dh(SpdmDheAlgo, u64);
impl spdmlib::crypto::SpdmDheKeyExchange for Dh {
    fn compute_final_key(self: Box<Self>, peer: &SpdmDheExchangeStruct) -> Option<SpdmDheFinalKeyStruct> {
        let _q = crate::leak::quiet();
        if call(Kind::DheFinal) {
            return None;
        }
        let s = dhe_shared(self.0, self.1, peer.as_ref())?;
        secret(&s);
        give(|| Some(SpdmDheFinalKeyStruct::from(&s[..])))
    }
}
fn cb_dhe(algo: SpdmDheAlgo) -> Option<(SpdmDheExchangeStruct, Box<dyn spdmlib::crypto::SpdmDheKeyExchange>)> {
    let _q = crate::leak::quiet();
    if call(Kind::DheGen) || dhe_size(algo) == 0 {
        return None;
    }
    let (x, p) = with(|e| {
        let a = e.actor;
        let b = rng_bytes(e, a, 8);
        let x = u64::from_le_bytes(b.try_into().unwrap()) | 1;
        let p = dhe_public(algo, x);
        e.dhe_pubs.push((a, p.clone()));
        (x, p)
    });
    let mut s = SpdmDheExchangeStruct::default();
    s.data_size = p.len() as u16;
    s.data[..p.len()].copy_from_slice(&p);
    Some((s, Box::new(Dh(algo, x))))
}
fn cb_random(d: &mut [u8]) -> SpdmResult<usize> {
    let _q = crate::leak::quiet();
    if call(Kind::Random) {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    let short = bent();
    with(|e| {
        let a = e.actor;
        let v = rng_bytes(e, a, d.len());
        if short {
            let n = if e.short == 9 { d.len() - 1 } else { d.len() * e.short / 4 };
            d[..n].copy_from_slice(&v[..n]);
            e.failed += 1;
            return Ok(n);
        }
        d.copy_from_slice(&v);
        e.draws.push((a, v));
        Ok(d.len())
    })
}

/// The measurement blocks as they must appear on the wire for an index, or None if the device has none.
pub fn meas_record(meas: &[MeasBlock], index: usize) -> Option<(u8, Vec<u8>)> {
    let mut out = vec![];
    let mut n = 0u8;
    for b in meas {
        if index == 0xff || b.index as usize == index {
            out.push(b.index);
            out.push(1);
            out.extend(((b.value.len() + 3) as u16).to_le_bytes());
            out.push(b.repr);
            out.extend((b.value.len() as u16).to_le_bytes());
            out.extend(&b.value);
            n += 1;
        }
    }
    if n == 0 {
        None
    } else {
        Some((n, out))
    }
}
fn cb_measure(_v: SpdmVersion, spec: SpdmMeasurementSpecification, _h: SpdmMeasurementHashAlgo, index: usize) -> Option<SpdmMeasurementRecordStructure> {
    let _q = crate::leak::quiet();
    if call(Kind::Measure) || spec != SpdmMeasurementSpecification::DMTF {
        return None;
    }
    with(|e| {
        e.meas_calls.push(index);
        if e.meas_none {
            return None;
        }
        // index 0: only the number of blocks is of interest
        if index == 0 {
            let mut r = SpdmMeasurementRecordStructure::default();
            r.number_of_blocks = e.meas.len() as u8;
            return Some(r);
        }
        let (n, b) = meas_record(&e.meas, index)?;
        let mut r = SpdmMeasurementRecordStructure::default();
        r.number_of_blocks = n;
        r.measurement_record_length = codec::u24::new(b.len() as u32);
        r.measurement_record_data[..b.len()].copy_from_slice(&b);
        Some(r)
    })
}
pub fn meas_summary(e: &Env, ha: SpdmBaseHashAlgo, ty: u8) -> Vec<u8> {
    let all: Vec<u8> = meas_record(&e.meas, 0xff).map(|x| x.1).unwrap_or_default();
    h(0x4d53, &[&[ty], &all], hash_size(ha))
}
fn cb_summary(_v: SpdmVersion, ha: SpdmBaseHashAlgo, _s: SpdmMeasurementSpecification, _m: SpdmMeasurementHashAlgo, ty: SpdmMeasurementSummaryHashType) -> Option<SpdmDigestStruct> {
    let _q = crate::leak::quiet();
    if call(Kind::MeasSummary) {
        return None;
    }
    use spdmlib::protocol::SpdmMeasurementSummaryHashType as T;
    let t = match ty {
        T::SpdmMeasurementSummaryHashTypeTcb => 1,
        T::SpdmMeasurementSummaryHashTypeAll => 0xff,
        _ => return None,
    };
    with(|e| {
        let mut d = meas_summary(e, ha, t);
        if let Some(n) = e.summary_len {
            d.resize(n, 0x5c);
        }
        Some(digest(&d))
    })
}
pub fn psk_hs(psk: &[u8], a: SpdmBaseHashAlgo) -> Vec<u8> {
    p_extract(a, &vec![0u8; hash_size(a)], psk)
}
fn cb_psk_hs(_v: SpdmVersion, a: SpdmBaseHashAlgo, hint: &SpdmPskHintStruct, info: &[u8]) -> Option<SpdmHkdfOutputKeyingMaterial> {
    let _q = crate::leak::quiet();
    if call(Kind::PskHs) {
        return None;
    }
    let psk = with(|e| {
        let actor = e.actor;
        e.psk_hints.push((actor, hint.as_ref().to_vec()));
        e.psk[e.actor as usize].clone()
    });
    let v = p_expand(a, &psk_hs(&psk, a), info, hash_size(a));
    secret(&v);
    give(|| Some(SpdmHkdfOutputKeyingMaterial::from(&v[..])))
}
pub fn psk_master(psk: &[u8], ver: &[u8], a: SpdmBaseHashAlgo) -> Vec<u8> {
    let mut info = (hash_size(a) as u16).to_le_bytes().to_vec();
    info.extend(ver);
    info.extend(b"derived");
    let salt1 = p_expand(a, &psk_hs(psk, a), &info, hash_size(a));
    p_extract(a, &salt1, &vec![0u8; hash_size(a)])
}
pub fn ver_string(v: u8) -> Vec<u8> {
    format!("spdm{}.{} ", v >> 4, v & 15).into_bytes()
}
fn cb_psk_master(v: SpdmVersion, a: SpdmBaseHashAlgo, _hint: &SpdmPskHintStruct, info: &[u8]) -> Option<SpdmHkdfOutputKeyingMaterial> {
    let _q = crate::leak::quiet();
    if call(Kind::PskMaster) {
        return None;
    }
    let psk = with(|e| e.psk[e.actor as usize].clone());
    let v = p_expand(a, &psk_master(&psk, &ver_string(v.get_u8()), a), info, hash_size(a));
    secret(&v);
    give(|| Some(SpdmHkdfOutputKeyingMaterial::from(&v[..])))
}
fn cb_sign(ha: SpdmBaseHashAlgo, asym: SpdmBaseAsymAlgo, data: &[u8]) -> Option<SpdmSignatureStruct> {
    let _q = crate::leak::quiet();
    if call(Kind::Sign) || asym_size(asym.bits()) == 0 {
        return None;
    }
    let id = with(|e| e.key_id[e.actor as usize]);
    let v = p_sign(id, ha, asym.bits(), data);
    with(|e| {
        let actor = e.actor;
        e.signs.push(SignRec { actor, data: data.to_vec(), sig: v.clone() })
    });
    let mut s = SpdmSignatureStruct::default();
    s.data_size = v.len() as u16;
    s.data[..v.len()].copy_from_slice(&v);
    Some(s)
}
fn cb_vendor(p: &spdmlib::message::VendorDefinedReqPayloadStruct) -> SpdmResult<spdmlib::message::VendorDefinedRspPayloadStruct> {
    let _q = crate::leak::quiet();
    if call(Kind::Vendor) {
        return Err(SPDM_STATUS_UNSUPPORTED_CAP);
    }
    let mut out = spdmlib::message::VendorDefinedRspPayloadStruct { rsp_length: 0, vendor_defined_rsp_payload: [0; spdmlib::message::MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE] };
    let v = with(|e| {
        let d = p.vendor_defined_req_payload.get(..p.req_length as usize);
        match d {
            Some(d) => e.vendor_calls.push(d.to_vec()),
            None => e.notes.push(format!("vendor handler given impossible length {}", p.req_length)),
        }
        match &e.vendor_rsp {
            Some(v) => Some(v.clone()),
            None => {
                let d = d.unwrap_or(&[]);
                let mut v = b"VR".to_vec();
                v.extend(d.iter().map(|b| b ^ 0x55));
                Some(v)
            }
        }
    });
    let v = v.unwrap();
    let n = v.len().min(out.vendor_defined_rsp_payload.len());
    out.rsp_length = n as u16;
    out.vendor_defined_rsp_payload[..n].copy_from_slice(&v[..n]);
    Ok(out)
}
fn cb_app(_ctx: &mut spdmlib::responder::ResponderContext, session: u32, buf: &[u8], _aux: &[u8]) -> SpdmResult<([u8; spdmlib::config::MAX_SPDM_MSG_SIZE], usize)> {
    let _q = crate::leak::quiet();
    let v = with(|e| {
        e.app_calls.push((session, buf.to_vec()));
        match &e.app_rsp {
            Some(v) => v.clone(),
            None => {
                let mut v = b"AR".to_vec();
                v.extend(buf.iter().map(|b| b ^ 0xAA));
                v
            }
        }
    });
    let mut o = [0u8; spdmlib::config::MAX_SPDM_MSG_SIZE];
    let n = v.len().min(o.len());
    o[..n].copy_from_slice(&v[..n]);
    Ok((o, n))
}

pub fn register() {
    use spdmlib::crypto as c;
    #[cfg(not(feature = "hashed"))]
    c::hash::register(c::SpdmHash { hash_all_cb: cb_hash_all });
    #[cfg(feature = "hashed")]
    c::hash::register(c::SpdmHash {
        hash_all_cb: cb_hash_all,
        hash_ctx_init_cb: cb_hash_init,
        hash_ctx_update_cb: cb_hash_update,
        hash_ctx_finalize_cb: cb_hash_final,
        hash_ctx_dup_cb: cb_hash_dup,
    });
    c::hmac::register(c::SpdmHmac { hmac_cb: cb_hmac, hmac_verify_cb: cb_hmac_verify });
    c::aead::register(c::SpdmAead { encrypt_cb: cb_encrypt, decrypt_cb: cb_decrypt });
    c::asym_verify::register(c::SpdmAsymVerify { verify_cb: cb_verify });
    c::hkdf::register(c::SpdmHkdf { hkdf_extract_cb: cb_extract, hkdf_expand_cb: cb_expand });
    c::cert_operation::register(c::SpdmCertOperation { get_cert_from_cert_chain_cb: cb_get_cert, verify_cert_chain_cb: cb_verify_chain });
    c::dhe::register(c::SpdmDhe { generate_key_pair_cb: cb_dhe });
    c::rand::register(c::SpdmCryptoRandom { get_random_cb: cb_random });
    use spdmlib::secret as s;
    s::measurement::register(s::SpdmSecretMeasurement { measurement_collection_cb: cb_measure, generate_measurement_summary_hash_cb: cb_summary });
    s::psk::register(s::SpdmSecretPsk { handshake_secret_hkdf_expand_cb: cb_psk_hs, master_secret_hkdf_expand_cb: cb_psk_master });
    s::asym_sign::register(s::SpdmSecretAsymSign { sign_cb: cb_sign });
    spdmlib::message::register_vendor_defined_struct(spdmlib::message::VendorDefinedStruct { vendor_defined_request_handler: cb_vendor });
    spdmlib::responder::app_message_handler::register(spdmlib::responder::app_message_handler::SpdmAppMessageHandler { dispatch_secured_app_message_cb: cb_app });
}
