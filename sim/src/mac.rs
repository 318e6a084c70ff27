//! The vector! and matrix! macros: how often and in what order they evaluate what is written in them.
use crate::cb::{check_log, fin, resolve};
use crate::model::*;
use crate::plan::*;
use crate::viol;
use crate::vops::name_of;
use crate::world::*;
use rowcol::prelude::*;
use rowcol::vector::ArrayLen;
use rowcol::{matrix, vector};

pub const MACOPS: &[&str] = &["v0", "v1", "v2", "v3", "v4", "v5", "v7", "v8", "v12", "v17", "v32", "m00", "m20", "m11", "m12", "m21", "m22", "m23", "m32", "m33", "m44", "m15", "m61", "m28", "m92", "nested"];

fn rv<N: ArrayLen<Tok>>(v: &Vector<Tok, N>) -> Vec<u64> { let mut o = vec![1, v.len() as u64]; o.extend(v.as_slice().iter().map(|t| t.val())); o }
fn rm<R: ArrayLen<Vector<Tok, C>>, C: ArrayLen<Tok>>(m: &Matrix<Tok, R, C>) -> Vec<u64> {
    let (r, c) = m.dim();
    let mut o = vec![r as u64, c as u64];
    for i in 0..r { for j in 0..c { o.push(m[(i, j)].val()); } }
    o
}

pub fn mac(st: &Step) {
    let op = name_of(MACOPS, &st.op);
    w().opname = op;
    let v = vals(st.args[0], 32);
    let (r, c) = match op {
        "nested" => (3, 2),
        o if o.starts_with('v') => (1, o[1..].parse().unwrap()),
        o => (o[1..2].parse::<usize>().unwrap(), o[2..].parse::<usize>().unwrap()),
    };
    let n = r * c;
    let fault = resolve(st, n);
    let mut log: Vec<(usize, bool)> = Vec::with_capacity(100);
    let (done, got) = {
        let mut e = |k: usize| { log.push((k, true)); cb(Site::Closure); Tok::new(v[k]) };
        macro_rules! t { ($rd:ident $x:expr) => {{ let (q, ..) = run(fault, || $x); fin(op, q, |z| $rd(z)) }} }
        match op {
            "v0" => t!(rv { let z: Vector<Tok, _> = vector![]; z }),
            "v1" => t!(rv vector![e(0)]),
            "v2" => t!(rv vector![e(0), e(1)]),
            "v3" => t!(rv vector![e(0), e(1), e(2)]),
            "v4" => t!(rv vector![e(0), e(1), e(2), e(3)]),
            "v5" => t!(rv vector![e(0), e(1), e(2), e(3), e(4)]),
            "v7" => t!(rv vector![e(0), e(1), e(2), e(3), e(4), e(5), e(6)]),
            "v8" => t!(rv vector![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7)]),
            "v12" => t!(rv vector![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11)]),
            "v17" => t!(rv vector![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16)]),
            "v32" => t!(rv vector![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15),
                e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31)]),
            "m00" => t!(rm { let z: Matrix<Tok, _, _> = matrix![]; z }),
            "m20" => t!(rm { let z: Matrix<Tok, _, _> = matrix![[], []]; z }),
            "m11" => t!(rm matrix![[e(0)]]),
            "m12" => t!(rm matrix![[e(0), e(1)]]),
            "m21" => t!(rm matrix![[e(0)], [e(1)]]),
            "m22" => t!(rm matrix![[e(0), e(1)], [e(2), e(3)]]),
            "m23" => t!(rm matrix![[e(0), e(1), e(2)], [e(3), e(4), e(5)]]),
            "m32" => t!(rm matrix![[e(0), e(1)], [e(2), e(3)], [e(4), e(5)]]),
            "m33" => t!(rm matrix![[e(0), e(1), e(2)], [e(3), e(4), e(5)], [e(6), e(7), e(8)]]),
            "m44" => t!(rm matrix![[e(0), e(1), e(2), e(3)], [e(4), e(5), e(6), e(7)], [e(8), e(9), e(10), e(11)], [e(12), e(13), e(14), e(15)]]),
            "m15" => t!(rm matrix![[e(0), e(1), e(2), e(3), e(4)]]),
            "m61" => t!(rm matrix![[e(0)], [e(1)], [e(2)], [e(3)], [e(4)], [e(5)]]),
            "m28" => t!(rm matrix![[e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7)], [e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15)]]),
            "m92" => t!(rm matrix![[e(0), e(1)], [e(2), e(3)], [e(4), e(5)], [e(6), e(7)], [e(8), e(9)], [e(10), e(11)], [e(12), e(13)], [e(14), e(15)], [e(16), e(17)]]),
            // a vector of vectors, each written with the macro
            _ => {
                let (q, ..) = run(fault, || vector![vector![e(0), e(1)], vector![e(2), e(3)], vector![e(4), e(5)]]);
                fin(op, q, |z| { let mut o = vec![z.len() as u64, z[0].len() as u64]; for x in z.iter() { o.extend(x.iter().map(|t| t.val())); } o })
            }
        }
    };
    let fired = w().th[w().cur].fired;
    check_log(op, &log, n, None, if fired { Some(fault.unwrap().1) } else { None }, done);
    let mut expect = vec![r as u64, c as u64];
    expect.extend(&v[..n]);
    if let Some(g) = got { if g != expect { viol!("value", "{}: result {:?} instead of {:?}", op, g, expect); } }
}
