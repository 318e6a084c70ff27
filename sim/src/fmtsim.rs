//! Formatting into sinks that fail, stall short, or panic (C05), and a heap-free buffer.
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::viol;
use crate::world::*;
use rowcol::prelude::*;
use rowcol::vector::ArrayLen;
use std::fmt::{self, Write};
use unicode_width::UnicodeWidthStr;

pub struct Fixed { buf: [u8; 16384], n: usize }
impl Fixed {
    pub fn new() -> Fixed { Fixed { buf: [0; 16384], n: 0 } }
    pub fn as_str(&self) -> &str { std::str::from_utf8(&self.buf[..self.n]).unwrap_or("<not utf-8>") }
}
impl Write for Fixed {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let b = s.as_bytes();
        if self.n + b.len() > self.buf.len() { return Err(fmt::Error); }
        self.buf[self.n..self.n + b.len()].copy_from_slice(b);
        self.n += b.len();
        Ok(())
    }
}

pub fn dbg_list(v: &[u64]) -> String { format!("{:?}", v) }
pub fn dbg_vec(v: &[u64]) -> String { format!("Vector{}", dbg_list(v)) }
pub fn dbg_mat(v: &[u64], r: usize, c: usize) -> String {
    let rows: Vec<String> = (0..r).map(|i| dbg_list(&v[i * c..(i + 1) * c])).collect();
    format!("Matrix[{}]", rows.join(", "))
}

/// Without its unicode_width feature the library counts bytes, which is the displayed
/// width of plain ASCII; for other text there is then no reference rendering.
const WIDTHS: bool = cfg!(feature = "width");
fn width(s: &str) -> usize { if WIDTHS { UnicodeWidthStr::width(s) } else { s.len() } }
fn known(cells: &[String]) -> bool { WIDTHS || cells.iter().all(|c| c.is_ascii()) }

const TEXTS: &[&str] = &[
    "1", "22", "-3", "ab", "xyz", "0123456789", "", "é", "長い", "ｗ", "a\nbb", "x\n\ny", "漢字\nk", "⎡1⎤\n⎣2⎦", "\n", "q\n", "e\u{301}",
    "long cell text", "7", "8", "a\r\nb", "ab  ", "   c", " ", "d \n  ee", "    \nf", "g\u{a0}\u{a0}", "\u{200b}h", "i\n\n",
    "v\u{b}", "\u{7}w", "\u{1b}[1mb", "x\u{2028}y", "e\r", "\rq", "\u{5e9}\u{5dc}", "-",
    "0123456789012345678901234567890123456789012345678901234567890123456789", "1\n2\n3\n4\n5\n6\n7\n8\n9\n10\n11\n12",
];
const BITS: &[&str] = &[" ", "\n", "a", "漢", "\r\n", "\t", "e\u{301}", "⎡", "0", "é", "\u{b}", "\u{1f600}", "bcd", "  ", "\r", "ｗ"];

/// An element whose rendering is a text written in several pieces.
pub struct Txt { t: String, cut: usize, fail: bool }
impl Txt {
    fn new(seed: u64, style: u64) -> Txt {
        let mut r = Rng::new(seed);
        let t = match style % 5 { 0 => TEXTS[r.us(6)].to_string(), 2 => TEXTS[[0, 1, 9, 8, 10, 12][r.us(6)]].to_string(), 3 => (0..r.us(9)).map(|_| *r.pick(BITS)).collect(), _ => r.pick(TEXTS).to_string() };
        let t = if WIDTHS || style % 8 == 0 { t } else { t.replace(|c: char| !c.is_ascii(), "u") };
        Txt { t, cut: 1 + r.us(4), fail: false }
    }
    fn put(&self, f: &mut fmt::Formatter) -> fmt::Result {
        cb(Site::Fmt);
        if self.fail { w().stat("fault.element_format_error"); return Err(fmt::Error); }
        let mut rest = &self.t[..];
        while !rest.is_empty() {
            let mut k = self.cut.min(rest.len());
            while !rest.is_char_boundary(k) { k += 1; }
            f.write_str(&rest[..k])?;
            rest = &rest[k..];
        }
        Ok(())
    }
}
impl fmt::Debug for Txt { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.put(f) } }
impl fmt::Display for Txt { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.put(f) } }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode { Never, Call(usize), Byte(usize), PanicCall(usize) }

struct Sink { out: String, calls: usize, mode: Mode, transient: bool, failed: bool, after: bool }
impl Sink {
    fn new(mode: Mode, transient: bool) -> Sink { Sink { out: String::new(), calls: 0, mode, transient, failed: false, after: false } }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let _g = AllowAlloc::new();
        let w = w();
        w.total += 1;
        let k = self.calls;
        self.calls += 1;
        w.ev(s.len() as u64 ^ 0x51);
        if self.failed {
            if !s.is_empty() { self.after = true; }
            if self.transient { self.out.push_str(s); return Ok(()); }
            return Err(fmt::Error);
        }
        match self.mode {
            Mode::Call(n) if k == n => {
                self.failed = true;
                w.nontrivial += 1;
                w.stat(if self.transient { "fault.sink_error_transient" } else { "fault.sink_error" });
                return Err(fmt::Error);
            }
            Mode::Byte(n) if self.out.len() + s.len() > n => {
                // the sink takes what fits and fails: a full device
                let mut m = n - self.out.len();
                while !s.is_char_boundary(m) { m -= 1; }
                self.out.push_str(&s[..m]);
                self.failed = true;
                w.nontrivial += 1;
                w.stat(if self.transient { "fault.sink_short_write_transient" } else { "fault.sink_short_write" });
                return Err(fmt::Error);
            }
            Mode::PanicCall(n) if k == n => {
                self.failed = true;
                w.nontrivial += 1;
                w.stat("fault.sink_panic");
                drop(_g);
                std::panic::resume_unwind(Box::new(Injected));
            }
            _ => {}
        }
        self.out.push_str(s);
        Ok(())
    }
}

fn disp_ref(cells: &[String], r: usize, c: usize) -> String {
    let widest = |s: &str| s.lines().map(width).max().unwrap_or(0);
    let ws: Vec<usize> = (0..c).map(|j| (0..r).map(|i| widest(&cells[i * c + j])).max().unwrap_or(0)).collect();
    let hs: Vec<usize> = (0..r).map(|i| (0..c).map(|j| cells[i * c + j].lines().count()).max().unwrap_or(0)).collect();
    let mut o = String::new();
    for i in 0..r {
        for n in 0..hs[i] {
            let (first, last) = (i == 0 && n == 0, i == r - 1 && n == hs[i] - 1);
            o.push(if first { '⎡' } else if last { '⎣' } else { '⎢' });
            for j in 0..c {
                let cell = &cells[i * c + j];
                let left = (ws[j] - widest(cell)) / 2;
                for _ in 0..left { o.push(' '); }
                let line = cell.lines().nth(n).unwrap_or("");
                o.push_str(line);
                for _ in 0..ws[j] - width(line) - left { o.push(' '); }
                if j + 1 < c { o.push(' '); }
            }
            o.push_str(if first { "⎤\n" } else if last { "⎦" } else { "⎥\n" });
        }
    }
    o
}

/// True if Display of these cells is outside what the reference specifies:
/// a row in which every cell renders as nothing has no agreed-on shape.
fn has_void_row(cells: &[String], r: usize, c: usize) -> bool {
    (0..r).any(|i| c > 0 && (0..c).all(|j| cells[i * c + j].lines().count() == 0))
}

pub const FOPS: &[&str] = &["dbg", "alt", "dbg_wide", "disp", "disp_wide", "vdbg", "valt", "vvdbg", "mvalt", "vdbg_wide"];

/// Runs one rendering: a clean one, then the one with the planned sink or element failure.
/// args: [mode, pos/65536, transient, element-failure position or -1]
fn render(st: &Step, expect: Option<String>, go: &dyn Fn(&mut dyn Write, Option<usize>) -> fmt::Result, display: bool, ncells: usize) {
    let name = crate::vops::name_of(FOPS, &st.op);
    w().opname = name;
    let mut clean = Sink::new(Mode::Never, false);
    let (q, nf, _) = run(None, || go(&mut clean, None));
    match q {
        Res::Ok(Ok(())) => {}
        Res::Ok(Err(_)) => { viol!("sink", "{}: error reported although the sink accepted everything", name); return; }
        Res::Panic(m) => { viol!("panic", "{}: formatting panicked by itself: {}", name, m); return; }
        _ => return,
    }
    if let Some(e) = expect {
        if clean.out != e { viol!("value", "{}: rendered {:?} instead of {:?}", name, clean.out, e); return; }
    }
    w().ev(clean.out.bytes().fold(7u64, |h, b| mix(h ^ b as u64)));
    let full = clean.out;
    let pos = st.args[1] as u64;
    let (calls, bytes) = (clean.calls as u64, full.len() as u64);
    let mode = match st.args[0] {
        1 => Mode::Call((pos * calls >> 16) as usize),
        2 => Mode::Byte((pos * bytes >> 16) as usize),
        3 => Mode::PanicCall((pos * calls >> 16) as usize),
        4 => Mode::Byte(bytes as usize),
        _ => Mode::Never,
    };
    let efail = if st.args[3] >= 0 && ncells > 0 { Some(st.args[3] as usize % ncells) } else { None };
    let fault = st.faults.first().map(|f| (kindno(f.kind), match f.at { At::Abs(x) => x, At::Frac(x) => ((x as u64 * nf as u64) >> 16) as u32 }));
    let mut sink = Sink::new(mode, st.args[2] % 2 == 1);
    let a0 = TRACKED.load(std::sync::atomic::Ordering::Relaxed);
    let (q, _, _) = run(fault, || go(&mut sink, efail));
    let a1 = TRACKED.load(std::sync::atomic::Ordering::Relaxed);
    if let Res::Panic(_) = q {} else if a0 != a1 && !w().sched_on {
        viol!("own", "{}: {} heap blocks leaked while formatting", name, a1 - a0);
    }
    match q {
        Res::Ok(Ok(())) => {
            if sink.failed { viol!("sink", "{}: reported success although the sink failed", name); }
            else if efail.is_some() { viol!("sink", "{}: reported success although an element failed to format", name); }
            else if sink.out != full { viol!("sink", "{}: second rendering {:?} differs from first {:?}", name, sink.out, full); }
        }
        Res::Ok(Err(_)) => {
            if !sink.failed && efail.is_none() { viol!("sink", "{}: reported an error although the sink accepted everything", name); }
        }
        // rendering a cell whose own rendering fails may also panic (std's to_string does)
        Res::Panic(_) if display && efail.is_some() => {}
        Res::Panic(m) => viol!("panic", "{}: formatting panicked by itself: {}", name, m),
        Res::Injected | Res::Budget => {}
    }
    if sink.after { viol!("sink", "{}: kept writing after the sink had failed (sink holds {:?})", name, sink.out); }
    if !full.starts_with(&sink.out) { viol!("sink", "{}: sink holds {:?}, not a prefix of {:?}", name, sink.out, full); }
}

fn cells(seed: u64, n: usize) -> Vec<Txt> { (0..n).map(|k| Txt::new(mix(seed ^ (k as u64) << 20), seed >> 3)).collect() }
fn floats(seed: u64, n: usize) -> Vec<f64> { (0..n).map(|k| { let x = mix(seed ^ k as u64); ((x >> 8) % 40000) as f64 / [1.0, 10.0, 256.0, -3.0][(x % 4) as usize] }).collect() }
fn fails(t: &mut [Txt], k: Option<usize>) { for (i, x) in t.iter_mut().enumerate() { x.fail = Some(i) == k; } }

pub trait FN<C>: ArrayLen<Vector<Txt, C>> + ArrayLen<Vector<(String, usize), C>> + ArrayLen<usize> + ArrayLen<Txt> + ArrayLen<Vector<f64, C>>
    + ArrayLen<Vector<Vector<Txt, U2>, C>> + ArrayLen<Vector<Matrix<Txt, U2, U2>, C>> + ArrayLen<Vector<Matrix<Txt, U2, U2>, C>>
where C: ArrayLen<Txt> + ArrayLen<(String, usize)> + ArrayLen<usize> + ArrayLen<f64> + ArrayLen<Vector<Txt, U2>> + ArrayLen<Matrix<Txt, U2, U2>> {}
impl<R, C> FN<C> for R where
    C: ArrayLen<Txt> + ArrayLen<(String, usize)> + ArrayLen<usize> + ArrayLen<f64> + ArrayLen<Vector<Txt, U2>> + ArrayLen<Matrix<Txt, U2, U2>>,
    R: ArrayLen<Vector<Txt, C>> + ArrayLen<Vector<(String, usize), C>> + ArrayLen<usize> + ArrayLen<Txt> + ArrayLen<Vector<f64, C>>
    + ArrayLen<Vector<Vector<Txt, U2>, C>> + ArrayLen<Vector<Matrix<Txt, U2, U2>, C>> {}

pub fn fmt_mat<R, C>(st: &Step, seed: u64)
where
    C: ArrayLen<Txt> + ArrayLen<(String, usize)> + ArrayLen<usize> + ArrayLen<f64> + ArrayLen<Vector<Txt, U2>> + ArrayLen<Matrix<Txt, U2, U2>>,
    R: FN<C>,
{
    let (r, c) = (<R as rowcol::typenum::Unsigned>::to_usize(), <C as rowcol::typenum::Unsigned>::to_usize());
    let n = r * c;
    let mk = |k: Option<usize>| {
        let mut it = cells(seed, n);
        fails(&mut it, k);
        let mut it = it.into_iter();
        Matrix::<Txt, R, C>::generate(|_| it.next().unwrap())
    };
    let texts: Vec<String> = cells(seed, n).iter().map(|t| t.t.to_string()).collect();
    let nums = floats(seed, n);
    let join = |rows: Vec<String>| format!("Matrix[{}]", rows.join(", "));
    let rows = |f: &dyn Fn(&[Txt]) -> String| { let t = cells(seed, n); (0..r).map(|i| f(&t[i * c..(i + 1) * c])).collect::<Vec<_>>() };
    // the matrices are built outside the simulated operation: only rendering is under fault
    match &st.op[..] {
        "dbg" => { let m = mk(None); let b = mk(st_fail(st, n)); render(st, Some(join(rows(&|t| format!("{:?}", t)))), &|s, k| write!(s, "{:?}", if k.is_some() { &b } else { &m }), false, n) }
        "alt" => { let m = mk(None); let b = mk(st_fail(st, n)); render(st, Some(join(rows(&|t| format!("{:#?}", t)))), &|s, k| write!(s, "{:#?}", if k.is_some() { &b } else { &m }), false, n) }
        "dbg_wide" => {
            // the caller's format options are for the elements
            let m = Matrix::<f64, R, C>::generate(|(i, j)| nums[i * c + j]);
            let mut st = st.clone(); st.args[3] = -1;
            macro_rules! spec { ($($k:literal $s:literal)*) => { match st.args[4].unsigned_abs() % 6 { $($k => render(&st, Some(join((0..r).map(|i| format!($s, &nums[i * c..(i + 1) * c])).collect())), &|s, _| write!(s, $s, m), false, 0),)* _ => unreachable!() } }; }
            spec!(0 "{:6?}" 1 "{:.2?}" 2 "{:+?}" 3 "{:08.1?}" 4 "{:<7?}" 5 "{:+#.3?}")
        }
        #[cfg(not(feature = "core"))]
        "disp" => {
            let (m, b) = (mk(None), mk(st_fail(st, n)));
            let e = if has_void_row(&texts, r, c) || !known(&texts) { None } else { Some(disp_ref(&texts, r, c)) };
            render(st, e, &|s, k| write!(s, "{}", if k.is_some() { &b } else { &m }), true, n)
        }
        #[cfg(not(feature = "core"))]
        "disp_wide" => {
            // cells that are matrices themselves
            let m = Matrix::<Matrix<Txt, U2, U2>, R, C>::generate(|(i, j)| {
                let mut it = cells(mix(seed) ^ ((i * 64 + j) as u64), 4).into_iter();
                Matrix::generate(|_| it.next().unwrap())
            });
            let mut void = false;
            let inner: Vec<String> = (0..n).map(|k| {
                let t: Vec<String> = cells(mix(seed) ^ (((k / c) * 64 + k % c) as u64), 4).iter().map(|t| t.t.to_string()).collect();
                void |= has_void_row(&t, 2, 2);
                disp_ref(&t, 2, 2)
            }).collect();
            let e = if void || has_void_row(&inner, r, c) || !known(&inner) { None } else { Some(disp_ref(&inner, r, c)) };
            render(st, e, &|s, _| write!(s, "{}", m), true, 0)
        }
        "mvalt" => {
            let m = Matrix::<Vector<Txt, U2>, R, C>::generate(|(i, j)| { let mut it = cells(seed ^ ((i * 64 + j) as u64), 2).into_iter(); Vector::generate(|_| it.next().unwrap()) });
            let e: Vec<String> = (0..r).map(|i| {
                let items: Vec<Pre> = (0..c).map(|j| Pre(cells(seed ^ ((i * 64 + j) as u64), 2))).collect();
                format!("{:#?}", items)
            }).collect();
            let mut st = st.clone(); st.args[3] = -1;
            render(&st, Some(join(e)), &|s, _| write!(s, "{:#?}", m), false, 0)
        }
        _ => viol!("harness", "bad format op"),
    }
}

fn st_fail(st: &Step, n: usize) -> Option<usize> { if st.args[3] >= 0 && n > 0 { Some(st.args[3] as usize % n) } else { None } }

/// What a nested vector must render as, written independently of rowcol.
struct Pre(Vec<Txt>);
impl fmt::Debug for Pre {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("Vector")?; f.debug_list().entries(self.0.iter()).finish() }
}

pub fn fmt_vec<N>(st: &Step, seed: u64)
where N: ArrayLen<Txt> + ArrayLen<Vector<Txt, U3>> + ArrayLen<f64> {
    let n = <N as rowcol::typenum::Unsigned>::to_usize();
    let mk = |k: Option<usize>| {
        let mut it = cells(seed, n);
        fails(&mut it, k);
        let mut it = it.into_iter();
        Vector::<Txt, N>::generate(|_| it.next().unwrap())
    };
    let (m, b) = (mk(None), mk(st_fail(st, n)));
    match &st.op[..] {
        "vdbg" => render(st, Some(format!("{:?}", Pre(cells(seed, n)))), &|s, k| write!(s, "{:?}", if k.is_some() { &b } else { &m }), false, n),
        "valt" => render(st, Some(format!("{:#?}", Pre(cells(seed, n)))), &|s, k| write!(s, "{:#?}", if k.is_some() { &b } else { &m }), false, n),
        "vdbg_wide" => {
            let nums = floats(seed, n);
            let v = Vector::<f64, N>::generate(|i| nums[i]);
            let mut st = st.clone(); st.args[3] = -1;
            macro_rules! spec { ($($k:literal $s:literal)*) => { match st.args[4].unsigned_abs() % 6 { $($k => render(&st, Some(format!(concat!("Vector", $s), &nums[..])), &|s, _| write!(s, $s, v), false, 0),)* _ => unreachable!() } }; }
            spec!(0 "{:6?}" 1 "{:.2?}" 2 "{:+?}" 3 "{:08.1?}" 4 "{:<7?}" 5 "{:+#.3?}")
        }
        "vvdbg" => {
            let v = Vector::<Vector<Txt, U3>, N>::generate(|i| { let mut it = cells(seed ^ (i as u64) << 9, 3).into_iter(); Vector::generate(|_| it.next().unwrap()) });
            let p: Vec<Pre> = (0..n).map(|i| Pre(cells(seed ^ (i as u64) << 9, 3))).collect();
            let mut st = st.clone(); st.args[3] = -1;
            render(&st, Some(format!("Vector{:?}", p)), &|s, _| write!(s, "{:?}", v), false, 0)
        }
        _ => viol!("harness", "bad format op"),
    }
}
