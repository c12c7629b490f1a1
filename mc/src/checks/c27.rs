//! The structural check of a DER certificate chain against an independent reading of the rules, on every small change of every
//! test certificate and on every chain of a grammar.
use crate::explore::*;
use spdmlib::crypto::check_cert_chain_format;
use spdmlib::protocol::SpdmBaseAsymAlgo;

const ALGS: [SpdmBaseAsymAlgo; 10] = [
    SpdmBaseAsymAlgo::TPM_ALG_RSASSA_2048,
    SpdmBaseAsymAlgo::TPM_ALG_RSAPSS_2048,
    SpdmBaseAsymAlgo::TPM_ALG_RSASSA_3072,
    SpdmBaseAsymAlgo::TPM_ALG_RSAPSS_3072,
    SpdmBaseAsymAlgo::TPM_ALG_RSASSA_4096,
    SpdmBaseAsymAlgo::TPM_ALG_RSAPSS_4096,
    SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256,
    SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P384,
    SpdmBaseAsymAlgo::empty(),
    SpdmBaseAsymAlgo::all(),
];
fn oid(a: SpdmBaseAsymAlgo) -> Option<&'static [u8]> {
    Some(match a.bits() {
        0x01 | 0x02 => &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 11],
        0x04 | 0x08 => &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 12],
        0x20 | 0x40 => &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 13],
        0x10 => &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2],
        0x80 => &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 3],
        _ => return None,
    })
}
/// (tag, content, rest)
fn tlv(d: &[u8]) -> Option<(u8, &[u8], &[u8])> {
    let (t, l) = (*d.get(0)?, *d.get(1)?);
    let (hl, n) = if l < 0x80 {
        (2usize, l as u64)
    } else {
        let k = (l - 0x80) as usize;
        if k == 0 || k > 4 {
            return None;
        }
        (2 + k, d.get(2..2 + k)?.iter().fold(0u64, |a, b| a << 8 | *b as u64))
    };
    let rest = &d[hl..];
    if n > rest.len() as u64 {
        return None;
    }
    Some((t, &rest[..n as usize], &rest[n as usize..]))
}
fn seq(d: &[u8]) -> Option<(&[u8], &[u8])> {
    tlv(d).filter(|x| x.0 == 0x30).map(|x| (x.1, x.2))
}
fn alg_id(d: &[u8], want: Option<&[u8]>) -> Option<()> {
    // the first element is an object identifier with a length of one octet
    if d.len() < 2 || d[0] != 6 || d[1] >= 0x80 {
        return None;
    }
    let v = d.get(2..2 + d[1] as usize)?;
    if want.map_or(true, |w| w == v) {
        Some(())
    } else {
        None
    }
}
fn cert(d: &[u8], a: SpdmBaseAsymAlgo) -> Option<&[u8]> {
    let (body, rest) = seq(d)?;
    let want = if rest.is_empty() { oid(a) } else { None };
    let (tbs, r) = seq(body)?;
    let (sa, r) = seq(r)?;
    alg_id(sa, want)?;
    let (_, _, r) = tlv(r)?;
    if !r.is_empty() {
        return None;
    }
    let r = tbs.strip_prefix(&[0xa0, 3, 2, 1, 2])?;
    let (_, _, r) = tlv(r)?;
    let (id, r) = seq(r)?;
    alg_id(id, want)?;
    let (_, r) = seq(r)?;
    let (_, r) = seq(r)?;
    let (_, r) = seq(r)?;
    seq(r)?;
    Some(rest)
}
fn chain(mut d: &[u8], a: SpdmBaseAsymAlgo) -> Option<usize> {
    let mut n = 0;
    while !d.is_empty() {
        d = cert(d, a)?;
        n += 1;
    }
    Some(n)
}
fn judge(t: &mut T, key: &str, d: &[u8], a: SpdmBaseAsymAlgo, what: impl Fn() -> String) -> bool {
    t.steps += 1;
    if d.is_empty() {
        return false;
    }
    let want = chain(d, a);
    match guarded(|| check_cert_chain_format(d, a)) {
        Err(p) => t.fail(format!("{key}/panic"), format!("{}: {p}", what())),
        Ok(r) => {
            if r.ok() != want {
                t.fail(format!("{key}/{}", if want.is_some() { "refused" } else { "accepted" }), format!("{}: {r:?}, expected {want:?}: {:02x?}", what(), &d[..d.len().min(40)]));
            }
        }
    }
    want.is_some()
}
/// positions of the headers of the structure, two or three levels deep
fn headers(d: &[u8], base: usize, depth: usize, out: &mut Vec<usize>) {
    let mut r = d;
    while let Some((t, c, rest)) = tlv(r) {
        let at = base + (d.len() - r.len());
        out.push(at);
        if t & 0x20 != 0 && depth > 0 {
            headers(c, base + (d.len() - rest.len() - c.len()), depth - 1, out);
        }
        r = rest;
    }
}
fn files() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    let mut dirs = vec![std::path::PathBuf::from("/repo/test_key")];
    while let Some(d) = dirs.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                dirs.push(p);
            } else if let Ok(b) = std::fs::read(&p) {
                if b.first() == Some(&0x30) && ALGS.iter().any(|a| chain(&b, *a).is_some()) {
                    v.push((p.strip_prefix("/repo/test_key").unwrap().display().to_string(), b));
                }
            }
        }
    }
    v.sort();
    v
}
fn der(tag: u8, c: &[u8], style: usize) -> Vec<u8> {
    let mut v = vec![tag];
    let n = c.len();
    match style {
        // as it should be
        0 if n < 0x80 => v.push(n as u8),
        0 if n < 0x100 => v.extend([0x81, n as u8]),
        0 => v.extend([0x82, (n >> 8) as u8, n as u8]),
        // longer than needed
        1 => v.extend([0x84, 0, 0, (n >> 8) as u8, n as u8]),
        2 => v.extend([0x88, 0, 0, 0, 0, 0, 0, (n >> 8) as u8, n as u8]),
        // too much, too little, absurd
        3 => v.extend([0x82, ((n + 1) >> 8) as u8, (n + 1) as u8]),
        4 => v.extend([0x82, (n.saturating_sub(1) >> 8) as u8, n.saturating_sub(1) as u8]),
        5 => v.extend([0x84, 0xff, 0xff, 0xff, 0xff]),
        6 => v.extend([0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]),
        7 => {
            v.push(0x89);
            v.extend([0xff; 9]);
        }
        8 => v.push(0x80),
        9 => v.extend([0x88, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]),
        10 => {
            v[0] ^= 0x21;
            v.push(n as u8);
        }
        11 => {
            v.push(0xff);
            v.extend([0x11; 127]);
        }
        12 => return vec![],
        _ => {
            v.push(0);
            return v;
        }
    }
    v.extend(c);
    v
}
const STYLES: usize = 14;
/// a certificate whose parts are encoded in the given styles
fn grammar(st: &[usize], leaf: bool, i: usize) -> Vec<u8> {
    let o: &[u8] = if i == 0 { &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2] } else { &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 3] };
    let _ = leaf;
    let mut id = der(6, o, st[0]);
    id.extend([5, 0]);
    let alg = der(0x30, &id, st[1]);
    let mut tbs = vec![0xa0, 3, 2, 1, 2];
    tbs.extend(der(2, &[7], st[2]));
    tbs.extend(&alg);
    tbs.extend(der(0x30, &[0x31, 0], st[3]));
    tbs.extend(der(0x30, &[0x17, 1, 0x30], st[4]));
    tbs.extend(der(0x30, &[], st[5]));
    tbs.extend(der(0x30, &[3, 1, 0], st[6]));
    let mut b = der(0x30, &tbs, st[7]);
    b.extend(&alg);
    b.extend(der(3, &[0, 1, 2, 3], st[8]));
    der(0x30, &b, st[9])
}
pub fn run(c: &Ctx) {
    let fs = files();
    let nf = fs.len();
    c.par("files", nf * ALGS.len(), |i, t| {
        let (name, d) = &fs[i / ALGS.len()];
        let a = ALGS[i % ALGS.len()];
        t.desc = format!("{name} {a:?}");
        let ok = judge(t, "files", d, a, || String::new());
        t.step(i as u64);
        t.out(if ok { "well formed" } else { "not" });
        // with every other file appended, with itself
        for (n2, d2) in &fs {
            let v = [&d[..], &d2[..]].concat();
            if v.len() < 9000 {
                judge(t, "files/two", &v, a, || format!("followed by {n2}"));
            }
        }
    });
    // the algorithm each file is for
    let small: Vec<(usize, SpdmBaseAsymAlgo)> = (0..nf)
        .filter(|k| fs[*k].1.len() < if c.quick() { 2100 } else { 6000 })
        .map(|k| (k, *ALGS.iter().find(|a| oid(**a).is_some() && chain(&fs[k].1, **a).is_some()).unwrap_or(&ALGS[8])))
        .collect();
    let mut list = vec![];
    for (k, (f, _)) in small.iter().enumerate() {
        for p in (0..fs[*f].1.len()).step_by(16) {
            list.push((k, p));
        }
    }
    let vals: Vec<u8> = if c.quick() { vec![0, 1, 3, 6, 0x30, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x88, 0x89, 0xa0, 0xff] } else { (0..=255).collect() };
    c.par("bytes", list.len(), |i, t| {
        let (k, p0) = list[i];
        let (f, a) = small[k];
        let d = &fs[f].1;
        t.desc = format!("{} from byte {p0}", fs[f].0);
        for p in p0..(p0 + 16).min(d.len()) {
            let mut v = d.clone();
            for x in vals.iter().copied().chain([d[p] ^ 1, d[p] ^ 0x80, d[p].wrapping_add(1), d[p].wrapping_sub(1)]) {
                v[p] = x;
                judge(t, "bytes", &v, a, || format!("byte {p} is {x:02x}"));
            }
            judge(t, "cut", &d[..p], a, || format!("cut at {p}"));
            judge(t, "cut", &d[p..], a, || format!("starts at {p}"));
            let mut v = d.clone();
            v.remove(p);
            judge(t, "removed", &v, a, || format!("without byte {p}"));
            for x in [0, 0x30, 0x80, 0xff] {
                let mut v = d.clone();
                v.insert(p, x);
                judge(t, "inserted", &v, a, || format!("{x:02x} inserted at {p}"));
            }
        }
        t.step(i as u64);
    });
    // two headers of the structure changed together
    let hs: Vec<Vec<usize>> = small
        .iter()
        .map(|(f, _)| {
            let mut v = vec![];
            headers(&fs[*f].1, 0, c.pick(3, 6), &mut v);
            v
        })
        .collect();
    let mut list = vec![];
    for k in 0..small.len() {
        for i in 0..hs[k].len() {
            list.push((k, i));
        }
    }
    let lens: [&[u8]; 8] = [&[0], &[0x7f], &[0x80], &[0x81, 0xff], &[0x82, 0xff, 0xff], &[0x84, 0x7f, 0xff, 0xff, 0xff], &[0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], &[0x8a, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]];
    c.par("headers", list.len(), |i, t| {
        let (k, h) = list[i];
        let (f, a) = small[k];
        let (d, hs) = (&fs[f].1, &hs[k]);
        t.desc = format!("{} header at {}", fs[f].0, hs[h]);
        let edit = |v: &[u8], at: usize, l: &[u8]| -> Vec<u8> {
            // another length, written over or in place of the old one
            let mut o = v[..at + 1].to_vec();
            o.extend(l);
            let old = if v[at + 1] < 0x80 { 1 } else { 1 + (v[at + 1] - 0x80) as usize };
            o.extend(v.get(at + 1 + old..).unwrap_or(&[]));
            o
        };
        for l in lens {
            let v = edit(d, hs[h], l);
            judge(t, "headers", &v, a, || format!("length {l:02x?}"));
            let mut v = d.clone();
            for (j, b) in l.iter().enumerate() {
                if let Some(x) = v.get_mut(hs[h] + 1 + j) {
                    *x = *b;
                }
            }
            judge(t, "headers", &v, a, || format!("overwritten {l:02x?}"));
            for h2 in &hs[..h] {
                for l2 in lens {
                    let v2 = edit(&edit(d, hs[h], l), *h2, l2);
                    judge(t, "headers/two", &v2, a, || format!("length {l:02x?}, and {l2:02x?} at {h2}"));
                }
            }
        }
        t.step(i as u64);
    });
    // every chain of the grammar with up to so many parts in odd styles, alone and before or after a good one
    let parts = 10;
    let odd = c.pick(3, 4);
    let mut list: Vec<Vec<usize>> = vec![];
    fn combos(parts: usize, left: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(cur.clone());
        if left == 0 {
            return;
        }
        for p in from..parts {
            for s in 1..STYLES {
                let old = cur[p];
                cur[p] = s;
                combos(parts, left - 1, p + 1, cur, out);
                cur[p] = old;
            }
        }
    }
    combos(parts, odd, 0, &mut vec![0; parts], &mut list);
    let good = grammar(&[0; 10], true, 0);
    c.par("grammar", list.len().div_ceil_(64), |i, t| {
        for st in &list[i * 64..(i * 64 + 64).min(list.len())] {
            let g = grammar(st, true, 0);
            t.desc = format!("{st:?}");
            for (k, v) in [g.clone(), [&good[..], &g].concat(), [&g[..], &good].concat()].iter().enumerate() {
                for a in [SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256, SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P384] {
                    judge(t, "grammar", v, a, || format!("{st:?} arrangement {k} {a:?}"));
                }
            }
        }
        t.step(i as u64);
    });
    // every short string
    c.par("short", 256, |i, t| {
        t.desc = format!("strings that start with {i:02x}");
        let a = ALGS[i % ALGS.len()];
        judge(t, "short", &[i as u8], a, || String::new());
        for x in 0..=255u8 {
            judge(t, "short", &[i as u8, x], a, || String::new());
            if i == 0x30 || !c.quick() {
                for y in 0..=255u8 {
                    judge(t, "short", &[i as u8, x, y], a, || String::new());
                }
            }
        }
        t.step(i as u64);
    });
}
trait Dc {
    fn div_ceil_(self, n: usize) -> usize;
}
impl Dc for usize {
    fn div_ceil_(self, n: usize) -> usize {
        (self + n - 1) / n
    }
}
