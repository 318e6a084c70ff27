//! Reference model: plain Vec<u64> over the prime field, row-major matrices.
use crate::rng::Rng;
use crate::world::*;

pub fn vals(seed: i64, n: usize) -> Vec<u64> {
    let seed = seed as u64;
    let mut r = Rng::new(seed);
    let style = seed % 6;
    (0..n).map(|i| canon(match style {
        0 => r.below(4),
        1 => i as u64 + 1,
        2 => r.below(P),
        3 => if r.chance(1, 3) { 1 + r.below(5) } else { 0 },
        4 => r.below(1000),
        _ => n as u64 * 2 - i as u64,
    })).collect()
}
pub fn scalar(seed: i64) -> u64 { let mut r = Rng::new(seed as u64); canon(if r.chance(1, 8) { r.below(2) } else { 2 + r.below(P - 2) }) }

pub fn zip(a: &[u64], b: &[u64], f: fn(u64, u64) -> u64) -> Vec<u64> { a.iter().zip(b).map(|(&x, &y)| f(x, y)).collect() }
pub fn mapv(a: &[u64], f: impl Fn(u64) -> u64) -> Vec<u64> { a.iter().map(|&x| f(x)).collect() }
pub fn sum(a: &[u64]) -> u64 { a.iter().fold(0, |x, &y| fadd(x, y)) }
pub fn dot(a: &[u64], b: &[u64]) -> u64 { a.iter().zip(b).fold(0, |s, (&x, &y)| fadd(s, fmul(x, y))) }
pub fn clampv(a: &[u64], lo: u64, hi: u64) -> Vec<u64> { mapv(a, |x| if x < lo { lo } else { x }.min(hi)) }
pub fn transpose(a: &[u64], r: usize, c: usize) -> Vec<u64> { (0..r * c).map(|k| { let (j, i) = (k / r, k % r); a[i * c + j] }).collect() }
pub fn matmul(a: &[u64], b: &[u64], l: usize, n: usize, r: usize) -> Vec<u64> {
    let mut o = Vec::with_capacity(l * r);
    for i in 0..l { for j in 0..r {
        let mut s = 0;
        for k in 0..n { s = fadd(s, fmul(a[i * n + k], b[k * r + j])); }
        o.push(s);
    } }
    o
}
pub fn ident(n: usize) -> Vec<u64> { (0..n * n).map(|k| (k / n.max(1) == k % n.max(1)) as u64).collect() }
pub fn matpow(a: &[u64], n: usize, e: usize) -> Vec<u64> {
    let (mut r, mut b, mut e) = (ident(n), a.to_vec(), e);
    while e > 0 {
        if e & 1 == 1 { r = matmul(&r, &b, n, n, n); }
        b = matmul(&b, &b, n, n, n);
        e >>= 1;
    }
    r
}
pub fn det(a: &[u64], n: usize) -> u64 {
    let mut m = a.to_vec();
    let mut d = 1;
    for i in 0..n {
        let p = match (i..n).find(|&r| m[r * n + i] != 0) { Some(p) => p, None => return 0 };
        if p != i { for k in 0..n { m.swap(i * n + k, p * n + k); } d = fneg(d); }
        d = fmul(d, m[i * n + i]);
        let inv = powmod(m[i * n + i], P - 2);
        for r in i + 1..n {
            let f = fmul(m[r * n + i], inv);
            for k in 0..n { m[r * n + k] = fsub(m[r * n + k], fmul(m[i * n + k], f)); }
        }
    }
    d
}
pub fn cofactor(a: &[u64], n: usize, i: usize, j: usize) -> u64 {
    let mut m = vec![];
    for r in 0..n { for c in 0..n { if r != i && c != j { m.push(a[r * n + c]); } } }
    let d = det(&m, n - 1);
    if (i + j) % 2 == 0 { d } else { fneg(d) }
}
pub fn inverse(a: &[u64], n: usize) -> Option<Vec<u64>> {
    let d = det(a, n);
    if d == 0 { return None; }
    if n == 1 { return Some(vec![powmod(a[0], P - 2)]); }
    // Gauss-Jordan with pivoting
    let mut m = a.to_vec();
    let mut v = ident(n);
    for i in 0..n {
        let p = (i..n).find(|&r| m[r * n + i] != 0).unwrap();
        if p != i { for k in 0..n { m.swap(i * n + k, p * n + k); v.swap(i * n + k, p * n + k); } }
        let inv = powmod(m[i * n + i], P - 2);
        for k in 0..n { m[i * n + k] = fmul(m[i * n + k], inv); v[i * n + k] = fmul(v[i * n + k], inv); }
        for r in 0..n {
            if r == i { continue; }
            let f = m[r * n + i];
            for k in 0..n {
                m[r * n + k] = fsub(m[r * n + k], fmul(m[i * n + k], f));
                v[r * n + k] = fsub(v[r * n + k], fmul(v[i * n + k], f));
            }
        }
    }
    Some(v)
}
