//! C28: what the bundled provider computes, accepts and refuses, for every algorithm it offers.
use crate::explore::*;
use crate::refs::*;
use ring::rand::SystemRandom;
use ring::signature::RsaKeyPair;
use spdmlib::crypto;
use spdmlib::protocol::*;

const HASHES: [(SpdmBaseHashAlgo, usize); 3] = [(SpdmBaseHashAlgo::TPM_ALG_SHA_256, 32), (SpdmBaseHashAlgo::TPM_ALG_SHA_384, 48), (SpdmBaseHashAlgo::TPM_ALG_SHA_512, 64)];
const AEADS: [(SpdmAeadAlgo, usize); 3] = [(SpdmAeadAlgo::AES_128_GCM, 16), (SpdmAeadAlgo::AES_256_GCM, 32), (SpdmAeadAlgo::CHACHA20_POLY1305, 32)];

fn fill(tag: u8, n: usize) -> Vec<u8> {
    let mut x = 0x9e37_79b9u32 ^ (tag as u32) << 8;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            x as u8
        })
        .collect()
}
fn digest(d: &[u8]) -> SpdmDigestStruct {
    let mut s = SpdmDigestStruct::default();
    s.data_size = d.len() as u16;
    s.data[..d.len()].copy_from_slice(d);
    s
}
fn flip(b: &[u8], i: usize) -> Vec<u8> {
    let mut v = b.to_vec();
    v[i / 8] ^= 1 << (i % 8);
    v
}
/// run one call of the provider; a panic is a violation
fn call<R>(t: &mut T, what: &str, f: impl FnOnce() -> R) -> Option<R> {
    t.steps += 1;
    match guarded(f) {
        Ok(r) => Some(r),
        Err(e) => {
            t.fail(&format!("panic/{what}"), e);
            None
        }
    }
}

// ---------------------------------------------------------------- hashing
fn hashes(c: &Ctx) {
    let max = c.pick(300, 1100);
    c.par("hash-lengths", 3 * max, |i, t| {
        let (a, size) = HASHES[i / max];
        let d = fill(1, i % max);
        t.desc = format!("SHA-{} of {} bytes", size * 8, d.len());
        t.step(hash64(&[&[size as u8], &d]));
        let want = sha(size, &d);
        let r = call(t, "hash", || crypto::hash::hash_all(a, &d)).flatten();
        t.check(r.map_or(false, |x| x.as_ref() == want), "hash/value", || "not the SHA-2 digest".to_string());
        // in two parts, split everywhere, with the context duplicated at the split
        for k in 0..=d.len() {
            if c.quick() && d.len() > 140 && k % 16 > 1 && k % 64 != 63 {
                continue;
            }
            t.steps += 4;
            let r = guarded(|| {
                let mut x = crypto::hash::hash_ctx_init(a)?;
                crypto::hash::hash_ctx_update(&mut x, &d[..k]).ok()?;
                let y = crypto::hash::hash_ctx_dup(&x)?;
                crypto::hash::hash_ctx_update(&mut x, &d[k..]).ok()?;
                let x = crypto::hash::hash_ctx_finalize(x)?;
                let y = crypto::hash::hash_ctx_finalize(y)?;
                Some((x.as_ref().to_vec(), y.as_ref().to_vec()))
            });
            match r {
                Ok(Some((x, y))) if x == want && y == sha(size, &d[..k]) => (),
                r => return t.fail("hash/parts", format!("split at {k}: {r:02x?}")),
            }
        }
        t.out("digest");
    });
    // every history of a few contexts: open, feed, duplicate, finish and drop in every order
    let depth = c.pick(5, 6);
    let ops = 13;
    let n = count_seqs(ops, depth);
    c.par("hash-histories", n, |i, t| {
        let seq = nth_seq(i, ops, depth);
        t.desc = format!("{seq:?}");
        let mut live: Vec<(crypto::SpdmHashCtx, usize, Vec<u8>)> = vec![];
        for (at, o) in seq.iter().enumerate() {
            let ok = match o {
                0 | 1 | 2 => match call(t, "init", || crypto::hash::hash_ctx_init(HASHES[*o].0)) {
                    Some(Some(x)) => {
                        live.push((x, HASHES[*o].1, vec![]));
                        true
                    }
                    _ => false,
                },
                3..=5 => {
                    let l = live.len();
                    if o - 3 >= l {
                        return;
                    }
                    let e = &mut live[o - 3];
                    let d = fill(at as u8, 40 + 30 * at);
                    e.2.extend(&d);
                    call(t, "update", || crypto::hash::hash_ctx_update(&mut e.0, &d)).map_or(false, |r| r.is_ok())
                }
                6..=8 => {
                    if o - 6 >= live.len() {
                        return;
                    }
                    let e = &live[o - 6];
                    match call(t, "dup", || crypto::hash::hash_ctx_dup(&e.0)) {
                        Some(Some(x)) => {
                            let y = (x, e.1, e.2.clone());
                            live.push(y);
                            true
                        }
                        _ => false,
                    }
                }
                9..=11 => {
                    if o - 9 >= live.len() {
                        return;
                    }
                    let (x, size, d) = live.remove(o - 9);
                    call(t, "finalize", || crypto::hash::hash_ctx_finalize(x)).flatten().map_or(false, |r| r.as_ref() == sha(size, &d))
                }
                _ => {
                    if live.is_empty() {
                        return;
                    }
                    live.remove(0);
                    true
                }
            };
            t.step(hash64(&live.iter().map(|x| &x.2[..]).collect::<Vec<_>>()));
            if !ok {
                return t.fail("hash/history", format!("operation {at}"));
            }
        }
        // a context that was never opened, and every context still open
        let mut none = crypto::SpdmHashCtx::default();
        let r = call(t, "closed", || crypto::hash::hash_ctx_update(&mut none, b"x").is_err() && crypto::hash::hash_ctx_dup(&none).is_none());
        t.check(r == Some(true), "hash/closed", || "a closed context is usable".to_string());
        for (x, size, d) in live {
            let r = call(t, "finalize", || crypto::hash::hash_ctx_finalize(x)).flatten();
            t.check(r.map_or(false, |r| r.as_ref() == sha(size, &d)), "hash/history", || "at the end".to_string());
        }
        t.out("agrees");
    });
}

// ---------------------------------------------------------------- HMAC and HKDF
fn macs(c: &Ctx) {
    let lens: Vec<usize> = c.pick(vec![0, 1, 31, 32, 33, 47, 48, 63, 64, 65, 111, 112, 127, 128, 129, 200], (0..=260).collect());
    let n = lens.len();
    c.par("hmac", 3 * n * n, |i, t| {
        let (a, size) = HASHES[i / n / n];
        let (k, d) = (fill(2, lens[i / n % n]), fill(3, lens[i % n]));
        t.desc = format!("HMAC-{} key {} data {}", size * 8, k.len(), d.len());
        t.step(hash64(&[&[size as u8], &k, &d]));
        let want = hmac(size, &k, &d);
        let r = call(t, "hmac", || crypto::hmac::hmac(a, &k, &d)).flatten();
        t.check(r.map_or(false, |x| x.as_ref() == want), "hmac/value", || "not the HMAC".to_string());
        let mut ver = |t: &mut T, a, k: &[u8], d: &[u8], h: &[u8]| call(t, "hmac_verify", || crypto::hmac::hmac_verify(a, k, d, &digest(h)).is_ok()).unwrap_or(false);
        { let z = ver(t, a, &k, &d, &want); t.check(z, "hmac/refused", || "the right HMAC".to_string()) };
        for b in 0..8 * size {
            { let z = !ver(t, a, &k, &d, &flip(&want, b)); t.check(z, "hmac/accepted", || format!("bit {b} of the HMAC")) };
        }
        for l in 0..size {
            { let z = !ver(t, a, &k, &d, &want[..l]); t.check(z, "hmac/accepted", || format!("{l} bytes")) };
        }
        for l in size + 1..=64 {
            let mut w = want.clone();
            w.resize(l, 0);
            { let z = !ver(t, a, &k, &d, &w); t.check(z, "hmac/accepted", || format!("{l} bytes")) };
        }
        for b in (0..8 * d.len()).step_by(c.pick(13, 1)) {
            { let z = !ver(t, a, &k, &flip(&d, b), &want); t.check(z, "hmac/accepted", || format!("bit {b} of the data")) };
        }
        for b in (0..8 * k.len()).step_by(c.pick(13, 1)) {
            { let z = !ver(t, a, &flip(&k, b), &d, &want); t.check(z, "hmac/accepted", || format!("bit {b} of the key")) };
        }
        for (o, _) in HASHES {
            if o != a {
                { let z = !ver(t, o, &k, &d, &want); t.check(z, "hmac/accepted", || "another hash".to_string()) };
            }
        }
        t.out("hmac");
    });
    let (ikms, infos): (Vec<usize>, Vec<usize>) = (c.pick(vec![0, 1, 32, 48, 64], (0..=64).collect()), c.pick(vec![0, 1, 20, 63, 64, 100, 130], (0..=130).collect()));
    c.par("hkdf", 3 * (n * ikms.len() + infos.len() * 67), |i, t| {
        let per = n * ikms.len() + infos.len() * 67;
        let (a, size) = HASHES[i / per];
        let i = i % per;
        if i < n * ikms.len() {
            let (salt, ikm) = (fill(4, lens[i / ikms.len()]), fill(5, ikms[i % ikms.len()]));
            t.desc = format!("extract-{} salt {} ikm {}", size * 8, salt.len(), ikm.len());
            t.step(hash64(&[&[size as u8, 1], &salt, &ikm]));
            let d = digest(&ikm);
            let r = call(t, "extract", || crypto::hkdf::hkdf_extract(a, &salt, &SpdmHkdfInputKeyingMaterial::SpdmDigest(&d))).flatten();
            t.check(r.map_or(false, |x| x.as_ref() == hmac(size, &salt, &ikm)), "hkdf/extract", || "not HKDF-Extract".to_string());
        } else {
            let i = i - n * ikms.len();
            let (info, l) = (fill(6, infos[i / 67]), i % 67);
            t.desc = format!("expand-{} info {} to {l} bytes", size * 8, info.len());
            t.step(hash64(&[&[size as u8, 2, l as u8], &info]));
            for ps in [size, size - 1, size + 1, 0, 32, 48, 64] {
                let p = fill(7, ps.min(64));
                let mut prk = SpdmHkdfPseudoRandomKey::default();
    prk.data_size = p.len() as u16;
                prk.data[..p.len()].copy_from_slice(&p);
                let r = call(t, "expand", || crypto::hkdf::hkdf_expand(a, &prk, &info, l as u16)).flatten();
                match r {
                    None => t.check(p.len() != size || l > 64, "hkdf/refused", || format!("prk of {ps}")),
                    Some(r) => t.check(p.len() == size && l <= 64 && r.as_ref() == expand(size, &p, &info, l), "hkdf/expand", || format!("prk of {ps}: {:02x?}", r.as_ref())),
                }
            }
        }
        t.out("hkdf");
    });
}

// ---------------------------------------------------------------- AEAD
fn seal(a: SpdmAeadAlgo, key: &SpdmAeadKeyStruct, iv: &SpdmAeadIvStruct, aad: &[u8], pt: &[u8], tl: usize, cl: usize) -> Option<(Vec<u8>, Vec<u8>)> {
    let (mut tag, mut ct) = (vec![0; tl], vec![0; cl]);
    let r = crypto::aead::encrypt(a, key, iv, aad, pt, &mut tag, &mut ct).ok()?;
    (r == (ct.len(), tag.len())).then(|| (ct, tag))
}
fn open(a: SpdmAeadAlgo, key: &SpdmAeadKeyStruct, iv: &SpdmAeadIvStruct, aad: &[u8], ct: &[u8], tag: &[u8], pl: usize) -> (Option<usize>, Vec<u8>) {
    let mut pt = vec![0; pl];
    let r = crypto::aead::decrypt(a, key, iv, aad, ct, tag, &mut pt).ok();
    (r, pt)
}
fn akey(k: &[u8]) -> SpdmAeadKeyStruct {
    let mut s = SpdmAeadKeyStruct::default();
    s.data_size = k.len() as u16;
    s.data[..k.len()].copy_from_slice(k);
    s
}
fn aiv(k: &[u8]) -> SpdmAeadIvStruct {
    let mut s = SpdmAeadIvStruct::default();
    s.data_size = k.len() as u16;
    s.data[..k.len()].copy_from_slice(k);
    s
}
fn aeads(c: &Ctx) {
    let pts: Vec<usize> = c.pick(vec![0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 129], (0..=200).collect());
    let aads: Vec<usize> = c.pick(vec![0, 1, 6, 14, 16, 17, 33], (0..=40).collect());
    c.par("aead", 3 * pts.len() * aads.len(), |i, t| {
        let d = digits(i, &[3, pts.len(), aads.len()]);
        let (a, ks) = AEADS[d[0]];
        let (k, iv, pt, aad) = (fill(8, ks), fill(9, 12), fill(10, pts[d[1]]), fill(11, aads[d[2]]));
        t.desc = format!("{a:?} {} bytes, {} associated", pt.len(), aad.len());
        t.step(hash64(&[&[d[0] as u8], &pt, &aad]));
        let (ct, tag) = if d[0] == 2 { chapoly(&k, &iv, &aad, &pt) } else { gcm(&k, &iv, &aad, &pt) };
        let r = call(t, "encrypt", || seal(a, &akey(&k), &aiv(&iv), &aad, &pt, 16, pt.len())).flatten();
        t.check(r.as_ref() == Some(&(ct.clone(), tag.clone())), "aead/encrypt", || format!("{r:02x?} and not {ct:02x?} {tag:02x?}"));
        let mut op = |t: &mut T, k: &[u8], iv: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]| call(t, "decrypt", || open(a, &akey(k), &aiv(iv), aad, ct, tag, ct.len())).unwrap_or_default();
        { let z = op(t, &k, &iv, &aad, &ct, &tag) == (Some(pt.len()), pt.clone()); t.check(z, "aead/decrypt", || "what was sealed does not open".to_string()) };
        let step = c.pick(if pt.len() + aad.len() > 40 { 7 } else { 1 }, 1);
        let mut bad = |t: &mut T, what: &str, r: (Option<usize>, Vec<u8>)| {
            t.check(r.0.is_none(), "aead/accepted", || what.to_string());
            // nothing of the plaintext is handed out with a refusal
            t.check(pt.len() < 15 || r.1 != pt, "aead/leak", || what.to_string());
        };
        for b in (0..8 * ks).step_by(step) {
            let r = op(t, &flip(&k, b), &iv, &aad, &ct, &tag);
            bad(t, &format!("key bit {b}"), r);
        }
        for b in (0..96).step_by(step) {
            let r = op(t, &k, &flip(&iv, b), &aad, &ct, &tag);
            bad(t, &format!("iv bit {b}"), r);
        }
        for b in 0..128 {
            let r = op(t, &k, &iv, &aad, &ct, &flip(&tag, b));
            bad(t, &format!("tag bit {b}"), r);
        }
        for b in (0..8 * aad.len()).step_by(step) {
            let r = op(t, &k, &iv, &flip(&aad, b), &ct, &tag);
            bad(t, &format!("associated bit {b}"), r);
        }
        for b in (0..8 * ct.len()).step_by(step) {
            let r = op(t, &k, &iv, &aad, &flip(&ct, b), &tag);
            bad(t, &format!("ciphertext bit {b}"), r);
        }
        for l in 0..ct.len() {
            let r = op(t, &k, &iv, &aad, &ct[..l], &tag);
            bad(t, "shortened", (r.0, vec![]));
        }
        for l in 0..aad.len() {
            let r = op(t, &k, &iv, &aad[..l], &ct, &tag);
            bad(t, "associated data shortened", r);
        }
        for (o, os) in AEADS {
            if o != a && os == ks {
                let r = call(t, "decrypt", || open(o, &akey(&k), &aiv(&iv), &aad, &ct, &tag, ct.len())).unwrap_or_default();
                bad(t, "another algorithm", r);
            }
        }
        t.out("sealed and opened");
    });
    // sizes that do not fit the algorithm
    c.par("aead-sizes", 3 * 33 * 13, |i, t| {
        let d = digits(i, &[3, 33, 13]);
        let (a, ks) = AEADS[d[0]];
        let (key, iv) = (akey(&fill(8, d[1])), aiv(&fill(9, d[2])));
        t.desc = format!("{a:?} key {} iv {}", d[1], d[2]);
        t.step(i as u64);
        let pt = fill(10, 20);
        let fits = d[1] == ks && d[2] == 12;
        let good = if fits { Some(call(t, "encrypt", || seal(a, &key, &iv, b"a", &pt, 16, 20)).flatten()) } else { None };
        for tl in [0usize, 1, 4, 8, 12, 15, 16, 17, 32] {
            for bl in [0usize, 1, 19, 20, 21, 36] {
                let ok = fits && tl == 16 && bl == 20;
                let r = call(t, "encrypt", || seal(a, &key, &iv, b"a", &pt, tl, bl)).flatten();
                t.check(r.is_some() == ok, "aead-sizes/encrypt", || format!("tag {tl} buffer {bl}: {}", r.is_some()));
                let (ct, mut tag) = good.clone().flatten().unwrap_or((pt.clone(), vec![0; 16]));
                tag.resize(tl, 0);
                let r = call(t, "decrypt", || open(a, &key, &iv, b"a", &ct, &tag, bl)).unwrap_or_default();
                t.check(r.0.is_some() == ok, "aead-sizes/decrypt", || format!("tag {tl} buffer {bl}: {:?}", r.0));
            }
        }
        t.out(if fits { "used" } else { "refused" });
    });
}

// ---------------------------------------------------------------- key agreement
fn agree(c: &Ctx) {
    let curves = [(SpdmDheAlgo::SECP_256_R1, Curve::p256()), (SpdmDheAlgo::SECP_384_R1, Curve::p384())];
    let per = c.pick(8, 60);
    let peer = |b: &[u8]| {
        let mut s = SpdmDheExchangeStruct { data_size: b.len() as u16, ..Default::default() };
        s.data[..b.len()].copy_from_slice(b);
        s
    };
    // what a peer may send: (name, bytes, the point it is)
    let gen = |t: &mut T, a, cv: &Curve| -> Option<(Vec<u8>, Box<dyn crypto::SpdmDheKeyExchange>)> {
        let (x, k) = call(t, "dhe", || crypto::dhe::generate_key_pair(a)).flatten()?;
        t.check(x.data_size as usize == 2 * cv.size && cv.point(x.as_ref()).is_some(), "dhe/public", || format!("{:02x?} is no point", x.as_ref()));
        Some((x.as_ref().to_vec(), k))
    };
    c.par("dhe", 2 * per, |i, t| {
        let (a, cv) = &curves[i / per];
        let k = i % per;
        t.desc = format!("{a:?} peer {k}");
        t.step(i as u64);
        // scalars: the ends of the range, and arbitrary ones
        let d: N = match k {
            0 => [1, 0, 0, 0, 0, 0],
            1 => [2, 0, 0, 0, 0, 0],
            2 => sub(&cv.n.m, &[1, 0, 0, 0, 0, 0]),
            _ => be(&fill(k as u8, cv.size - 1)),
        };
        let q = cv.out(&cv.mul(&d, &cv.g));
        let Some((mine, kx)) = gen(t, *a, cv) else { return t.fail("dhe/generate", "no key pair".to_string()) };
        let r = call(t, "final", || kx.compute_final_key(&peer(&q))).flatten();
        let want = cv.mul(&d, &cv.point(&mine)).map(|p| bytes(&cv.p.from(&p.0), cv.size));
        t.check(r.as_ref().map(|x| x.as_ref().to_vec()) == want && want.is_some(), "dhe/secret", || format!("{:02x?} and not {want:02x?}", r.map(|x| x.as_ref().to_vec())));
        let Some((other, _)) = gen(t, *a, cv) else { return t.fail("dhe/generate", "no key pair".to_string()) };
        t.check(other != mine, "dhe/fresh", || "the same key share twice".to_string());
        t.out("agreed");
    });
    let shares: Vec<Vec<u8>> = curves.iter().map(|(_, cv)| cv.out(&cv.mul(&be(&fill(77, cv.size - 1)), &cv.g))).collect();
    let total = |s: usize| 16 * s + 97 + 12;
    c.par("dhe-bad-peer", total(32) + total(48), |i, t| {
        let (w, i) = if i < total(32) { (0, i) } else { (1, i - total(32)) };
        let (a, cv) = &curves[w];
        let s = cv.size;
        let q = &shares[w];
        let b = if i < 16 * s {
            flip(q, i)
        } else if i < 16 * s + 97 {
            let mut v = q.clone();
            v.resize(i - 16 * s, 0);
            v
        } else {
            let p = bytes(&cv.p.m, s);
            let j = i - 16 * s - 97;
            match j {
                0 => vec![0; 2 * s],
                1 => vec![0xff; 2 * s],
                2 => [&p[..], &q[s..]].concat(),
                3 => [&q[..s], &p[..]].concat(),
                4 => [&vec![0; s][..], &q[s..]].concat(),
                5 => [&q[s..], &q[..s]].concat(),
                // a coordinate written as x + p instead of x
                _ => {
                    let Some(pt) = (0..100u64).filter_map(|x| cv.lift(x + 1)).nth(j - 6) else { return };
                    let v = cv.out(&Some(pt));
                    let (x, _) = add(&be(&v[..s]), &cv.p.m);
                    [bytes(&x, s), v[s..].to_vec()].concat()
                }
            }
        };
        t.desc = format!("{a:?} peer share {i}: {} bytes", b.len());
        t.step(hash64(&[&b]));
        let good = b.len() == 2 * s && cv.point(&b).is_some();
        let Some((_, kx)) = gen(t, *a, cv) else { return t.fail("dhe/generate", "no key pair".to_string()) };
        let r = call(t, "final", || kx.compute_final_key(&peer(&b))).flatten();
        t.check(r.is_some() == good, "dhe/peer", || format!("{} for {b:02x?}", if good { "refused" } else { "a secret" }));
        t.out(if good { "agreed" } else { "refused" });
    });
}

// ---------------------------------------------------------------- certificates and signatures
fn key_dir() -> String {
    // the crate lies beside the repository
    for d in ["/repo/test_key", "../../repo/test_key", "../repo/test_key"] {
        if std::path::Path::new(d).is_dir() {
            return d.into();
        }
    }
    panic!("no test_key directory")
}
fn file(p: &str) -> Vec<u8> {
    std::fs::read(format!("{}/{p}", key_dir())).unwrap_or_else(|e| panic!("{p}: {e}"))
}
/// (start of the contents, end) of the DER element at `at`
fn tlv(b: &[u8], at: usize) -> (usize, usize) {
    let l = b[at + 1] as usize;
    if l < 0x80 {
        return (at + 2, at + 2 + l);
    }
    let n = l & 0x7f;
    let v = b[at + 2..at + 2 + n].iter().fold(0usize, |a, x| a << 8 | *x as usize);
    (at + 2 + n, at + 2 + n + v)
}
/// the certificates of a chain
fn split(chain: &[u8]) -> Vec<Vec<u8>> {
    let (mut at, mut v) = (0, vec![]);
    while at < chain.len() {
        let e = tlv(chain, at).1;
        v.push(chain[at..e].to_vec());
        at = e;
    }
    v
}
/// where the parts of a certificate lie: to-be-signed, issuer, subject, key, signature value
struct Parts {
    tbs: (usize, usize),
    issuer: (usize, usize),
    subject: (usize, usize),
    key: (usize, usize),
    sig: (usize, usize),
}
fn parts(c: &[u8]) -> Parts {
    let body = tlv(c, 0).0;
    let (mut at, tbs_end) = tlv(c, body);
    let mut f = vec![];
    while at < tbs_end {
        let e = tlv(c, at).1;
        f.push((at, e));
        at = e;
    }
    let o = (c[f[0].0] == 0xa0) as usize;
    let alg = tlv(c, tbs_end).1;
    Parts { tbs: (body, tbs_end), issuer: f[o + 2], subject: f[o + 4], key: f[o + 5], sig: (alg, tlv(c, alg).1) }
}
fn has(c: &[u8], x: &[u8]) -> bool {
    c.windows(x.len()).any(|w| w == x)
}
fn sig_of(s: &[u8]) -> SpdmSignatureStruct {
    let mut r = SpdmSignatureStruct { data_size: s.len() as u16, ..Default::default() };
    r.data[..s.len()].copy_from_slice(s);
    r
}
enum Key {
    Ec(Curve, N, Vec<u8>),
    Rsa(RsaKeyPair, usize, bool),
}
fn keys() -> Vec<(&'static str, SpdmBaseAsymAlgo, Vec<u8>, Key)> {
    use SpdmBaseAsymAlgo as A;
    let mut v = vec![];
    for (dir, a, pss) in [
        ("ecp256", A::TPM_ALG_ECDSA_ECC_NIST_P256, false),
        ("ecp384", A::TPM_ALG_ECDSA_ECC_NIST_P384, false),
        ("rsa2048", A::TPM_ALG_RSASSA_2048, false),
        ("rsa3072", A::TPM_ALG_RSASSA_3072, false),
        ("rsa4096", A::TPM_ALG_RSASSA_4096, false),
        ("rsa2048", A::TPM_ALG_RSAPSS_2048, true),
        ("rsa3072", A::TPM_ALG_RSAPSS_3072, true),
        ("rsa4096", A::TPM_ALG_RSAPSS_4096, true),
    ] {
        let chain = file(&format!("{dir}/bundle_responder.certchain.der"));
        let k = if dir.starts_with("ec") {
            let cv = if dir == "ecp256" { Curve::p256() } else { Curve::p384() };
            let p8 = file(&format!("{dir}/end_responder.key.p8"));
            let pat = [2, 1, 1, 4, cv.size as u8];
            let at = p8.windows(5).position(|w| w == pat).unwrap() + 5;
            let d = be(&p8[at..at + cv.size]);
            let q = cv.out(&cv.mul(&d, &cv.g));
            assert!(has(split(&chain).last().unwrap(), &q));
            Key::Ec(cv, d, q)
        } else {
            let k = RsaKeyPair::from_der(&file(&format!("{dir}/end_responder.key.der"))).unwrap();
            let n = k.public_modulus_len();
            Key::Rsa(k, n, pss)
        };
        v.push((dir, a, chain, k));
    }
    v
}
fn sign(k: &Key, size: usize, d: &[u8]) -> Vec<u8> {
    match k {
        Key::Ec(cv, x, _) => {
            let n = be(&fill(42u8.wrapping_add(d.len() as u8), cv.size - 1));
            let (r, s) = cv.sign(x, &sha(size, d), &n, &cv.mul(&n, &cv.g));
            [bytes(&r, cv.size), bytes(&s, cv.size)].concat()
        }
        Key::Rsa(k, n, pss) => {
            use ring::signature::*;
            let p: &dyn RsaEncoding = match (size, pss) {
                (32, false) => &RSA_PKCS1_SHA256,
                (48, false) => &RSA_PKCS1_SHA384,
                (_, false) => &RSA_PKCS1_SHA512,
                (32, true) => &RSA_PSS_SHA256,
                (48, true) => &RSA_PSS_SHA384,
                _ => &RSA_PSS_SHA512,
            };
            let mut s = vec![0; *n];
            k.sign(p, &SystemRandom::new(), d, &mut s).unwrap();
            s
        }
    }
}
fn signatures(c: &Ctx) {
    let ks = keys();
    let n = ks.len();
    let lens = [0usize, 1, 100, 1000];
    let ok = |t: &mut T, h, a, chain: &[u8], d: &[u8], s: &[u8]| call(t, "verify", || crypto::asym_verify::verify(h, a, chain, d, &sig_of(s)).is_ok()).unwrap_or(false);
    c.par("signature", 3 * n * lens.len(), |i, t| {
        let g = digits(i, &[3, n, lens.len()]);
        let (h, size) = HASHES[g[0]];
        let (dir, a, chain, k) = &ks[g[1]];
        let d = fill(20, lens[g[2]]);
        t.desc = format!("{a:?} SHA-{} over {} bytes", size * 8, d.len());
        t.step(i as u64);
        let s = sign(k, size, &d);
        let ec = matches!(k, Key::Ec(..));
        let good = ok(t, h, *a, chain, &d, &s);
        // the ECDSA verifier behind the provider has no SHA-512: refusing is all it can do
        t.check(good || (ec && size == 64), "signature/refused", || "a valid signature".to_string());
        t.out(if good { "verified" } else { "not offered" });
        let step = if c.quick() && !ec { 8 * 11 + 1 } else if c.quick() && g[2] != 2 { 5 } else { 1 };
        for b in (0..8 * s.len()).step_by(step) {
            { let z = !ok(t, h, *a, chain, &d, &flip(&s, b)); t.check(z, "signature/accepted", || format!("bit {b} of the signature")) };
        }
        for b in (0..8 * d.len()).step_by(c.pick(97, 3)) {
            { let z = !ok(t, h, *a, chain, &flip(&d, b), &s); t.check(z, "signature/accepted", || format!("bit {b} of the data")) };
        }
        for l in [0, 1, s.len() / 2, s.len() - 1, s.len() + 1, 512] {
            let mut x = s.clone();
            x.resize(l.min(512), 0);
            if x.len() != s.len() {
                { let z = !ok(t, h, *a, chain, &d, &x); t.check(z, "signature/accepted", || format!("{l} bytes")) };
            }
        }
        for (j, (o, oa, oc, _)) in ks.iter().enumerate() {
            if j != g[1] {
                // another key, or the other padding with the same key
                { let z = !ok(t, h, *oa, oc, &d, &s); t.check(z, "signature/accepted", || format!("with the key of {o}")) };
                if o != dir {
                    { let z = !ok(t, h, *a, oc, &d, &s); t.check(z, "signature/accepted", || format!("with the chain of {o}")) };
                    { let z = !ok(t, h, *oa, chain, &d, &s); t.check(z, "signature/accepted", || format!("as {oa:?}")) };
                }
            }
        }
        for (o, os) in HASHES {
            if os != size {
                { let z = !ok(t, o, *a, chain, &d, &s); t.check(z, "signature/accepted", || format!("as SHA-{}", os * 8)) };
            }
        }
        // the chain: cut anywhere, extended
        for l in (0..chain.len()).step_by(c.pick(41, 1)) {
            { let z = !ok(t, h, *a, &chain[..l], &d, &s); t.check(z, "signature/chain", || format!("chain cut to {l}")) };
        }
        { let z = !ok(t, h, *a, &[&chain[..], &[0x30]].concat(), &d, &s); t.check(z, "signature/chain", || "a byte after the chain".to_string()) };
    });
    // ECDSA values at the edges of their encoding
    let per = c.pick(24, 120);
    c.par("signature-edges", 2 * 2 * per, |i, t| {
        let g = digits(i, &[2, 2, per]);
        let (_, a, chain, k) = &ks[g[0]];
        let (h, size) = HASHES[g[1]];
        let Key::Ec(cv, d, q) = k else { return };
        let q = cv.point(q);
        let m = fill(30, 64);
        let dg = sha(size, &m);
        t.desc = format!("{a:?} SHA-{} case {}", size * 8, g[2]);
        t.step(i as u64);
        let test = |t: &mut T, r: &N, s: &N, valid: bool, what: &str| {
            let b = [bytes(r, cv.size), bytes(s, cv.size)].concat();
            let want = valid || cv.verify(&q, &dg, r, s);
            { let z = ok(t, h, *a, chain, &m, &b) == want; t.check(z, if want { "signature/refused" } else { "signature/accepted" }, || format!("{what}: {b:02x?}")) };
        };
        if g[2] == 0 {
            let kk = be(&fill(50, cv.size - 1));
            let (r, s) = cv.sign(d, &dg, &kk, &cv.mul(&kk, &cv.g));
            let (zero, one, n1) = ([0; 6], [1, 0, 0, 0, 0, 0], sub(&cv.n.m, &[1, 0, 0, 0, 0, 0]));
            for x in [zero, one, n1, cv.n.m, be(&vec![0xff; cv.size]), be(&[0x80]), be(&[0xff]), be(&[1, 0]), r, s] {
                test(t, &x, &s, false, "r replaced");
                test(t, &r, &x, false, "s replaced");
                test(t, &x, &x, false, "both replaced");
            }
            test(t, &s, &r, false, "swapped");
        } else {
            // nonces until the pair has the wanted leading bytes
            let mut kk = be(&fill(60 + g[2] as u8, cv.size - 1));
            let mut p = cv.mul(&kk, &cv.g);
            let hard = c.pick(900, 6000);
            for n in 0..hard {
                let (r, s) = cv.sign(d, &dg, &kk, &p);
                let (rb, sb) = (bytes(&r, cv.size), bytes(&s, cv.size));
                let odd = rb[0] == 0 || sb[0] == 0 || (rb[0] == 0x7f || rb[0] == 0x80) || (sb[0] == 0x7f || sb[0] == 0x80);
                if odd || n < 2 {
                    test(t, &r, &s, true, "leading bytes");
                }
                kk = add(&kk, &[1, 0, 0, 0, 0, 0]).0;
                p = cv.add(&p, &cv.g);
            }
        }
        t.out("edges");
    });
}
fn chains(c: &Ctx) {
    let good = [
        "crypto_chains/bundle_two_level_cert.der",
        "crypto_chains/bundle_cert.der",
        "ecp256/bundle_responder.certchain.der",
        "ecp384/bundle_responder.certchain.der",
        "rsa2048/bundle_responder.certchain.der",
        "rsa3072/bundle_responder.certchain.der",
        "rsa4096/bundle_responder.certchain.der",
        "ecp256/bundle_responder.certchain1.der",
        "ecp384/bundle_responder.certchain1.der",
    ];
    let all: Vec<Vec<u8>> = good.iter().map(|p| file(p)).collect();
    let ver = |t: &mut T, b: &[u8]| call(t, "verify_cert_chain", || crypto::cert_operation::verify_cert_chain(b).is_ok()).unwrap_or(false);
    // one changed bit, everywhere
    let bits = c.pick(1, 8);
    let jobs: Vec<(usize, usize)> = (0..all.len()).filter(|k| !c.quick() || *k < 5).flat_map(|k| (0..all[k].len()).map(move |i| (k, i))).collect();
    c.par("chain-bit", jobs.len(), |i, t| {
        let (k, at) = jobs[i];
        let b = &all[k];
        t.desc = format!("{} byte {at}", good[k]);
        t.step(i as u64);
        if at == 0 {
            { let z = ver(t, b); t.check(z, "chain/refused", || "a good chain".to_string()) };
        }
        let cs = split(b);
        let p = parts(&cs[0]);
        let in_key = |x: (usize, usize)| x.0 <= at && at < x.1;
        // of the trusted root only its name and key take part
        let matters = at >= cs[0].len() || cs.len() == 1 || in_key(p.key) || in_key(p.subject);
        for j in 0..bits {
            let r = ver(t, &flip(b, 8 * at + (at + j) % 8));
            if matters {
                t.check(!r, "chain/accepted", || format!("bit {} of byte {at} of {} changed", (at + j) % 8, good[k]));
            }
            t.out(if r { "same chain" } else { "refused" });
        }
    });
    // cut and extended chains
    let jobs: Vec<(usize, usize)> = (0..all.len()).flat_map(|k| (0..all[k].len() + 8).map(move |i| (k, i))).filter(|x| !c.quick() || x.0 < 5 || x.1 % 13 == 0).collect();
    c.par("chain-cut", jobs.len(), |i, t| {
        let (k, n) = jobs[i];
        let mut b = all[k].clone();
        let l = b.len();
        t.desc = format!("{} as {n} bytes of {l}", good[k]);
        t.step(i as u64);
        b.truncate(n);
        if n > l {
            b.extend([0x30, 0x82, 0x01, 0x00, 0xff, 0x00, 0x30].iter().take(n - l));
        }
        let r = ver(t, &b);
        if n != l {
            t.check(!r, "chain/cut", || format!("{n} bytes of a chain of {l} accepted"));
        }
        // the certificates in it
        let mut ends = vec![0];
        for x in split(&all[k]) {
            ends.push(ends.last().unwrap() + x.len());
        }
        for idx in -2..=ends.len() as isize + 1 {
            let r = call(t, "get_cert", || crypto::cert_operation::get_cert_from_cert_chain(&b, idx).ok()).flatten();
            let want = if idx == -1 {
                let e = ends.iter().position(|x| *x == n);
                e.filter(|e| *e > 0).map(|e| (ends[e - 1], ends[e]))
            } else if idx >= 0 && (idx as usize) + 1 < ends.len() && ends[idx as usize + 1] <= n {
                Some((ends[idx as usize], ends[idx as usize + 1]))
            } else {
                None
            };
            t.check(r == want, "chain/certificate", || format!("certificate {idx} of {n} bytes: {r:?}, not {want:?}"));
        }
        t.out(if r { "good" } else { "refused" });
    });
    // certificates of one issuer tree in every arrangement
    for dir in ["ecp256", "ecp384"] {
        let cv = if dir == "ecp256" { Curve::p256() } else { Curve::p384() };
        let mut cs: Vec<(&str, Vec<u8>)> = vec![];
        for f in ["ca", "inter", "end_responder", "ca1", "inter1", "end_responder1"] {
            cs.push((f, file(&format!("{dir}/{f}.cert.der"))));
        }
        // who signed whom, by an independent ECDSA verification
        let q: Vec<Pt> = cs
            .iter()
            .map(|x| {
                let k = parts(&x.1).key;
                cv.point(&x.1[k.1 - 2 * cv.size..k.1])
            })
            .collect();
        let n = cs.len();
        let signed = |i: usize, j: usize| {
            let (a, b) = (&cs[i].1, &cs[j].1);
            let (pa, pb) = (parts(a), parts(b));
            if a[pa.subject.0..pa.subject.1] != b[pb.issuer.0..pb.issuer.1] {
                return false;
            }
            let s = &b[pb.sig.0..pb.sig.1];
            // BIT STRING { SEQUENCE { r, s } }
            let seq = tlv(s, 0).0 + 1;
            let r0 = tlv(s, seq).0;
            let r = tlv(s, r0);
            let z = tlv(s, r.1);
            let tbs = &b[pb.tbs.0..pb.tbs.1];
            [32, 48].iter().any(|h| cv.verify(&q[i], &sha(*h, tbs), &be(&s[r.0..r.1]), &be(&s[z.0..z.1])))
        };
        let link: Vec<Vec<bool>> = (0..n).map(|i| (0..n).map(|j| signed(i, j)).collect()).collect();
        // basic constraints with cA true, and server authentication among the uses (or no uses listed)
        let ca: Vec<bool> = cs.iter().map(|x| x.1.windows(3).position(|w| w == [0x55, 0x1d, 0x13]).map_or(false, |p| has(&x.1[p..p + 16.min(x.1.len() - p)], &[1, 1, 0xff]) && has(&x.1[p + 3..p + 13], &[0x30]) && has(&x.1[p + 6..p + 14], &[1, 1, 0xff]))).collect();
        let eku: Vec<bool> = cs.iter().map(|x| !has(&x.1, &[0x55, 0x1d, 0x25]) || has(&x.1, &[0x2b, 6, 1, 5, 5, 7, 3, 1])).collect();
        let depth = c.pick(4, 5);
        c.par(&format!("chain-order-{dir}"), count_seqs(n, depth), |i, t| {
            let s = nth_seq(i, n, depth);
            t.desc = format!("{:?}", s.iter().map(|x| cs[*x].0).collect::<Vec<_>>());
            t.step(i as u64);
            let b = s.iter().flat_map(|x| cs[*x].1.clone()).collect::<Vec<_>>();
            let r = ver(t, &b);
            let want = !s.is_empty() && {
                let (top, leaf) = (s[0], *s.last().unwrap());
                let mid: Vec<usize> = if s.len() > 2 { s[1..s.len() - 1].to_vec() } else { vec![] };
                // any way up from the leaf through the middle ones
                let mut reach = vec![leaf];
                let mut k = 0;
                while k < reach.len() {
                    for m in &mid {
                        if ca[*m] && link[*m][reach[k]] && !reach.contains(m) {
                            reach.push(*m);
                        }
                    }
                    k += 1;
                }
                !ca[leaf] && eku[leaf] && reach.iter().any(|x| link[top][*x])
            };
            t.check(r == want, if want { "chain-order/refused" } else { "chain-order/accepted" }, || format!("links {link:?} ca {ca:?} eku {eku:?}"));
            t.out(if r { "accepted" } else { "refused" });
        });
    }
    c.par("chain-other", 4, |i, t| {
        let p = ["rsa3072_Expiration/bundle_responder.certchain.der", "rsa3072_Expiration/bundle_requester.certchain.der", "ecp521/bundle_responder.certchain.der", "ed25519/bundle_responder.certchain.der"][i];
        t.desc = p.to_string();
        t.step(i as u64);
        if std::path::Path::new(&format!("{}/{p}", key_dir())).exists() {
            { let z = !ver(t, &file(p)); t.check(z, "chain/accepted", || format!("{p}: expired or of an algorithm not offered")) };
        }
        t.out("refused");
    });
}

fn random(c: &Ctx) {
    c.par("random", c.pick(330, 2100), |n, t| {
        t.desc = format!("{n} bytes");
        t.step(n as u64);
        let (mut a, mut b) = (vec![0xaau8; n], vec![0xaau8; n]);
        for x in [&mut a, &mut b] {
            let r = call(t, "random", || crypto::rand::get_random(x).ok()).flatten();
            t.check(r == Some(n), "random/size", || format!("{r:?} for {n}"));
        }
        // no part is left as it was, repeated within a draw, or repeated by the next one
        let w: Vec<&[u8]> = a.chunks(8).chain(b.chunks(8)).filter(|x| x.len() == 8).collect();
        let s: std::collections::BTreeSet<_> = w.iter().collect();
        t.check(s.len() == w.len() && !s.contains(&&[0xaau8; 8][..]), "random/fresh", || "repeated or unwritten bytes".to_string());
        if n >= 8 {
            t.check(a[n - 8..] != b[n - 8..] && a[n - 8..] != [0xaa; 8], "random/fresh", || "the last bytes".to_string());
        }
        t.out("drawn");
    });
}

/// The providers are set up by the first use of each. First uses from several threads at once can be refused or panic inside
/// the `conquer_once` dependency, whatever the provider computes: that is not what these families are about.
fn warm_up() {
    let a = HASHES[0].0;
    let d = digest(&[7; 32]);
    let _ = guarded(|| crypto::hash::hash_all(a, b"").is_some());
    let _ = guarded(|| crypto::hmac::hmac(a, b"k", b"").is_some());
    let _ = guarded(|| crypto::hkdf::hkdf_extract(a, b"", &SpdmHkdfInputKeyingMaterial::SpdmDigest(&d)).is_some());
    let _ = guarded(|| crypto::dhe::generate_key_pair(SpdmDheAlgo::SECP_256_R1).is_some());
    let _ = guarded(|| crypto::rand::get_random(&mut [0; 4]).is_ok());
    let _ = guarded(|| crypto::cert_operation::verify_cert_chain(&[0x30, 0x82, 0, 0]).is_ok());
    let _ = guarded(|| crypto::asym_verify::verify(a, SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256, &[], b"", &sig_of(&[0; 64])).is_ok());
    let _ = guarded(|| crypto::aead::encrypt(SpdmAeadAlgo::AES_128_GCM, &akey(&[1; 16]), &aiv(&[2; 12]), b"", b"", &mut [0; 16], &mut []).is_ok());
}

pub fn run(c: &Ctx) {
    warm_up();
    hashes(c);
    macs(c);
    aeads(c);
    agree(c);
    signatures(c);
    chains(c);
    random(c);
}
