//! Offline stand-in for the `farmhash` git dependency of dd-sds (which cannot be fetched here).
//!
//! Only `fingerprint64` is used by dd-sds. This is FarmHash's platform independent
//! `util::Fingerprint64`, i.e. `farmhashna::Hash64`, written from the published algorithm.
//! The unit tests below pin it against the vectors in dd-sds' own test-suite.

const K0: u64 = 0xc3a5c85c97cb3127;
const K1: u64 = 0xb492b66fbe98f273;
const K2: u64 = 0x9ae16a3b2f90404f;

fn f64(s: &[u8]) -> u64 {
    u64::from_le_bytes(s[..8].try_into().unwrap())
}
fn f32(s: &[u8]) -> u64 {
    u32::from_le_bytes(s[..4].try_into().unwrap()) as u64
}
fn rot(v: u64, n: u32) -> u64 {
    v.rotate_right(n)
}
fn shift_mix(v: u64) -> u64 {
    v ^ (v >> 47)
}
fn hash16_mul(u: u64, v: u64, mul: u64) -> u64 {
    let mut a = (u ^ v).wrapping_mul(mul);
    a ^= a >> 47;
    let mut b = (v ^ a).wrapping_mul(mul);
    b ^= b >> 47;
    b.wrapping_mul(mul)
}

fn len0to16(s: &[u8]) -> u64 {
    let len = s.len() as u64;
    if len >= 8 {
        let mul = K2.wrapping_add(len * 2);
        let a = f64(s).wrapping_add(K2);
        let b = f64(&s[s.len() - 8..]);
        let c = rot(b, 37).wrapping_mul(mul).wrapping_add(a);
        let d = rot(a, 25).wrapping_add(b).wrapping_mul(mul);
        return hash16_mul(c, d, mul);
    }
    if len >= 4 {
        let mul = K2.wrapping_add(len * 2);
        let a = f32(s);
        return hash16_mul(len.wrapping_add(a << 3), f32(&s[s.len() - 4..]), mul);
    }
    if len > 0 {
        let a = s[0] as u32;
        let b = s[s.len() >> 1] as u32;
        let c = s[s.len() - 1] as u32;
        let y = a.wrapping_add(b << 8);
        let z = (len as u32).wrapping_add(c << 2);
        return shift_mix((y as u64).wrapping_mul(K2) ^ (z as u64).wrapping_mul(K0))
            .wrapping_mul(K2);
    }
    K2
}

fn len17to32(s: &[u8]) -> u64 {
    let len = s.len();
    let mul = K2.wrapping_add(len as u64 * 2);
    let a = f64(s).wrapping_mul(K1);
    let b = f64(&s[8..]);
    let c = f64(&s[len - 8..]).wrapping_mul(mul);
    let d = f64(&s[len - 16..]).wrapping_mul(K2);
    hash16_mul(
        rot(a.wrapping_add(b), 43)
            .wrapping_add(rot(c, 30))
            .wrapping_add(d),
        a.wrapping_add(rot(b.wrapping_add(K2), 18)).wrapping_add(c),
        mul,
    )
}

fn len33to64(s: &[u8]) -> u64 {
    let len = s.len();
    let mul = K2.wrapping_add(len as u64 * 2);
    let a = f64(s).wrapping_mul(K2);
    let b = f64(&s[8..]);
    let c = f64(&s[len - 8..]).wrapping_mul(mul);
    let d = f64(&s[len - 16..]).wrapping_mul(K2);
    let y = rot(a.wrapping_add(b), 43)
        .wrapping_add(rot(c, 30))
        .wrapping_add(d);
    let z = hash16_mul(
        y,
        a.wrapping_add(rot(b.wrapping_add(K2), 18)).wrapping_add(c),
        mul,
    );
    let e = f64(&s[16..]).wrapping_mul(mul);
    let f = f64(&s[24..]);
    let g = y.wrapping_add(f64(&s[len - 32..])).wrapping_mul(mul);
    let h = z.wrapping_add(f64(&s[len - 24..])).wrapping_mul(mul);
    hash16_mul(
        rot(e.wrapping_add(f), 43)
            .wrapping_add(rot(g, 30))
            .wrapping_add(h),
        e.wrapping_add(rot(f.wrapping_add(a), 18)).wrapping_add(g),
        mul,
    )
}

fn weak32(s: &[u8], a: u64, b: u64) -> (u64, u64) {
    let (w, x, y, z) = (f64(s), f64(&s[8..]), f64(&s[16..]), f64(&s[24..]));
    let mut a = a.wrapping_add(w);
    let mut b = rot(b.wrapping_add(a).wrapping_add(z), 21);
    let c = a;
    a = a.wrapping_add(x).wrapping_add(y);
    b = b.wrapping_add(rot(a, 44));
    (a.wrapping_add(z), b.wrapping_add(c))
}

pub fn fingerprint64(s: &[u8]) -> u64 {
    let len = s.len();
    if len <= 16 {
        return len0to16(s);
    }
    if len <= 32 {
        return len17to32(s);
    }
    if len <= 64 {
        return len33to64(s);
    }
    let seed: u64 = 81;
    let mut x = seed;
    let mut y = seed.wrapping_mul(K1).wrapping_add(113);
    let mut z = shift_mix(y.wrapping_mul(K2).wrapping_add(113)).wrapping_mul(K2);
    let mut v = (0u64, 0u64);
    let mut w = (0u64, 0u64);
    x = x.wrapping_mul(K2).wrapping_add(f64(s));
    let end = (len - 1) / 64 * 64;
    let last64 = len - 64;
    let mut p = 0;
    while p < end {
        let c = &s[p..];
        x = rot(
            x.wrapping_add(y).wrapping_add(v.0).wrapping_add(f64(&c[8..])),
            37,
        )
        .wrapping_mul(K1);
        y = rot(y.wrapping_add(v.1).wrapping_add(f64(&c[48..])), 42).wrapping_mul(K1);
        x ^= w.1;
        y = y.wrapping_add(v.0).wrapping_add(f64(&c[40..]));
        z = rot(z.wrapping_add(w.0), 33).wrapping_mul(K1);
        v = weak32(c, v.1.wrapping_mul(K1), x.wrapping_add(w.0));
        w = weak32(
            &c[32..],
            z.wrapping_add(w.1),
            y.wrapping_add(f64(&c[16..])),
        );
        std::mem::swap(&mut z, &mut x);
        p += 64;
    }
    let mul = K1.wrapping_add((z & 0xff) << 1);
    let c = &s[last64..];
    w.0 = w.0.wrapping_add(((len - 1) & 63) as u64);
    v.0 = v.0.wrapping_add(w.0);
    w.0 = w.0.wrapping_add(v.0);
    x = rot(
        x.wrapping_add(y).wrapping_add(v.0).wrapping_add(f64(&c[8..])),
        37,
    )
    .wrapping_mul(mul);
    y = rot(y.wrapping_add(v.1).wrapping_add(f64(&c[48..])), 42).wrapping_mul(mul);
    x ^= w.1.wrapping_mul(9);
    y = y
        .wrapping_add(v.0.wrapping_mul(9))
        .wrapping_add(f64(&c[40..]));
    z = rot(z.wrapping_add(w.0), 33).wrapping_mul(mul);
    v = weak32(c, v.1.wrapping_mul(mul), x.wrapping_add(w.0));
    w = weak32(
        &c[32..],
        z.wrapping_add(w.1),
        y.wrapping_add(f64(&c[16..])),
    );
    std::mem::swap(&mut z, &mut x);
    hash16_mul(
        hash16_mul(v.0, w.0, mul)
            .wrapping_add(shift_mix(y).wrapping_mul(K0))
            .wrapping_add(z),
        hash16_mul(v.1, w.1, mul).wrapping_add(x),
        mul,
    )
}

#[cfg(test)]
mod tests {
    use super::fingerprint64;

    fn u16le(s: &str) -> Vec<u8> {
        s.encode_utf16().flat_map(u16::to_le_bytes).collect()
    }

    #[test]
    fn vectors_from_the_dd_sds_test_suite() {
        let h = |b: &[u8]| format!("{:x}", fingerprint64(b));
        assert_eq!(h(b"coty"), "fdf7528ad7f83901");
        assert_eq!(h(b"rene"), "51a2842f626aaaec");
        assert_eq!(h("😊".as_bytes()), "6ce17744696c2107");
        assert_eq!(h("x".repeat(128).as_bytes()), "5170af09fd870c17");
        assert_eq!(h(&u16le("coty")), "d6bf038129a9eb52");
        assert_eq!(h(&u16le("rene")), "8627c79c79ff4b8b");
        assert_eq!(h(&u16le("😊")), "268a21f211fdbc0a");
    }
}
