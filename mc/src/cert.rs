//! Minimal DER certificates with a real X.509 v3 outline; the signature value binds issuer key and TBS.
use crate::fake::*;

fn tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    if body.len() < 0x80 {
        v.push(body.len() as u8);
    } else if body.len() < 0x100 {
        v.extend([0x81, body.len() as u8]);
    } else {
        v.extend([0x82, (body.len() >> 8) as u8, body.len() as u8]);
    }
    v.extend(body);
    v
}
fn oid_for(asym: u32) -> Vec<u8> {
    let b: &[u8] = match asym {
        1 | 2 => &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0b],
        4 | 8 => &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0c],
        0x20 | 0x40 => &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0d],
        0x10 => &[0x2a, 0x86, 0x48, 0xce, 0x3d, 0x04, 0x03, 0x02],
        _ => &[0x2a, 0x86, 0x48, 0xce, 0x3d, 0x04, 0x03, 0x03],
    };
    tlv(0x30, &tlv(6, b))
}
const MAGIC: &[u8] = b"KEYID:";

pub fn make(issuer: u64, subject: u64, serial: u8, asym: u32, pad: usize) -> Vec<u8> {
    let mut tbs = vec![0xA0, 3, 2, 1, 2];
    tbs.extend(tlv(2, &[serial]));
    tbs.extend(oid_for(asym));
    tbs.extend(tlv(0x30, &issuer.to_le_bytes()));
    tbs.extend(tlv(0x30, b"validity"));
    tbs.extend(tlv(0x30, &subject.to_le_bytes()));
    let mut k = MAGIC.to_vec();
    k.extend(subject.to_le_bytes());
    tbs.extend(tlv(0x30, &k));
    if pad > 0 {
        let p: Vec<u8> = (0..pad).map(|i| (i as u8).wrapping_mul(7).wrapping_add(3)).collect();
        tbs.extend(tlv(0xA3, &p));
    }
    let tbs = tlv(0x30, &tbs);
    let sig = h(0x4345_5254, &[&issuer.to_le_bytes(), &tbs], 32);
    let mut body = tbs;
    body.extend(oid_for(asym));
    body.extend(tlv(3, &sig));
    tlv(0x30, &body)
}
fn head(d: &[u8]) -> Option<(u8, usize, usize)> {
    let t = *d.first()?;
    let l = *d.get(1)?;
    let (n, hl) = if l < 0x80 {
        (l as usize, 2)
    } else if l == 0x81 {
        (*d.get(2)? as usize, 3)
    } else if l == 0x82 {
        ((*d.get(2)? as usize) << 8 | *d.get(3)? as usize, 4)
    } else {
        return None;
    };
    if d.len() < hl + n {
        return None;
    }
    Some((t, hl, n))
}
pub fn split(chain: &[u8]) -> Option<Vec<(usize, usize)>> {
    let mut v = vec![];
    let mut p = 0;
    while p < chain.len() {
        let (t, hl, n) = head(&chain[p..])?;
        if t != 0x30 {
            return None;
        }
        v.push((p, p + hl + n));
        p += hl + n;
    }
    if v.is_empty() {
        None
    } else {
        Some(v)
    }
}
struct Parsed {
    issuer: u64,
    subject: u64,
}
fn parse(c: &[u8]) -> Option<Parsed> {
    let (t, hl, n) = head(c)?;
    if t != 0x30 || c.len() != hl + n {
        return None;
    }
    let body = &c[hl..];
    let (bt, thl, tn) = head(body)?;
    let tbs_all = &body[..thl + tn];
    let rest = &body[thl + tn..];
    let (ot, ohl, on) = head(rest)?;
    if bt != 0x30 || ot != 0x30 {
        return None;
    }
    let sigd = &rest[ohl + on..];
    let (st, shl, sn) = head(sigd)?;
    if st != 3 || sn != 32 || sigd.len() != shl + sn {
        return None;
    }
    let mut p = &tbs_all[thl..];
    let mut fields = vec![];
    while !p.is_empty() {
        let (t, hl, n) = head(p)?;
        fields.push((t, &p[hl..hl + n]));
        p = &p[hl + n..];
    }
    if fields.len() < 7 || fields[3].1.len() != 8 || fields[5].1.len() != 8 || !fields[6].1.starts_with(MAGIC) || fields[6].1.len() != 14 {
        return None;
    }
    let issuer = u64::from_le_bytes(fields[3].1.try_into().ok()?);
    let subject = u64::from_le_bytes(fields[5].1.try_into().ok()?);
    if fields[6].1[6..] != subject.to_le_bytes() {
        return None;
    }
    // the algorithm identifier outside the TBS part must repeat the one inside it
    if rest[ohl..ohl + on] != *fields[2].1 {
        return None;
    }
    if h(0x4345_5254, &[&issuer.to_le_bytes(), tbs_all], 32) != sigd[shl..] {
        return None;
    }
    Some(Parsed { issuer, subject })
}
pub fn verify(chain: &[u8]) -> bool {
    let v = match split(chain) {
        Some(v) => v,
        None => return false,
    };
    let mut prev: Option<u64> = None;
    for (b, e) in v {
        let p = match parse(&chain[b..e]) {
            Some(p) => p,
            None => return false,
        };
        match prev {
            None => {
                if p.issuer != p.subject {
                    return false;
                }
            }
            Some(x) => {
                if p.issuer != x {
                    return false;
                }
            }
        }
        prev = Some(p.subject);
    }
    true
}
pub fn leaf_key(chain: &[u8]) -> Option<u64> {
    let v = split(chain)?;
    let (b, e) = *v.last()?;
    parse(&chain[b..e]).map(|p| p.subject)
}
/// root + leaf (+ intermediate); `total` asks for an exact total size where it can be met.
pub fn chain(root: u64, leaf: u64, serial: u8, asym: u32, total: usize) -> Vec<u8> {
    let r = make(root, root, 1, asym, 0);
    let mk = |pad: usize| {
        let mut v = r.clone();
        v.extend(make(root, leaf, serial, asym, pad));
        v
    };
    let base = mk(0);
    if total <= base.len() {
        return base;
    }
    let want = total - base.len();
    for pad in want.saturating_sub(12)..=want {
        let c = mk(pad);
        if c.len() == total {
            return c;
        }
    }
    // a length that the DER length encoding skips
    mk(want.saturating_sub(12))
}
pub fn root_cert(root: u64, asym: u32) -> Vec<u8> {
    make(root, root, 1, asym, 0)
}
