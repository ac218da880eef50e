//! Replay tier: executes the contracts of the verified functions as oracles on the real code of /repo.
//! Every case is a string `k=v,k=v`; everything a case does is a function of that string, so a failing
//! case can be replayed with `--case`.
pub use ff::{Field, PrimeField, PrimeFieldRepr};
pub use hodor::verif_hooks as vh;
pub use hodor::verif_hooks::Worker;
use std::collections::{BTreeMap, HashMap};
use std::time::{Duration, Instant};

pub use hodor::Fr as F257;
pub use hodor::verif_hooks::experiments::Fr as F252;

pub mod f17 { use ff::*;
    #[derive(PrimeField)] #[PrimeFieldModulus = "17"] #[PrimeFieldGenerator = "3"] pub struct F17(FRepr17); }
pub mod f97 { use ff::*;
    #[derive(PrimeField)] #[PrimeFieldModulus = "97"] #[PrimeFieldGenerator = "5"] pub struct F97(FRepr97); }
pub mod f65537 { use ff::*;
    #[derive(PrimeField)] #[PrimeFieldModulus = "65537"] #[PrimeFieldGenerator = "3"] pub struct F65537(FRepr65537); }
pub mod f12289 { use ff::*;
    #[derive(PrimeField)] #[PrimeFieldModulus = "12289"] #[PrimeFieldGenerator = "11"] pub struct F12289(FRepr12289); }
pub use f17::F17; pub use f97::F97; pub use f65537::F65537; pub use f12289::F12289;

/// fields whose bit length sits at a limb boundary
pub mod limbfields {
    pub mod p64 { use ff::*; #[derive(PrimeField)] #[PrimeFieldModulus = "15945772983503506289"] #[PrimeFieldGenerator = "3"] pub struct P64(PRepr64); }
    pub use p64::P64;
    pub mod p65 { use ff::*; #[derive(PrimeField)] #[PrimeFieldModulus = "22064389312855129649"] #[PrimeFieldGenerator = "3"] pub struct P65(PRepr65); }
    pub use p65::P65;
    pub mod p127 { use ff::*; #[derive(PrimeField)] #[PrimeFieldModulus = "112201861262614228973649930382827969137"] #[PrimeFieldGenerator = "3"] pub struct P127(PRepr127); }
    pub use p127::P127;
    pub mod p128 { use ff::*; #[derive(PrimeField)] #[PrimeFieldModulus = "190298445301010743179820266805814004113"] #[PrimeFieldGenerator = "3"] pub struct P128(PRepr128); }
    pub use p128::P128;
    pub mod p129 { use ff::*; #[derive(PrimeField)] #[PrimeFieldModulus = "434177067796331095678738472203345725713"] #[PrimeFieldGenerator = "3"] pub struct P129(PRepr129); }
    pub use p129::P129;
    pub mod p192 { use ff::*; #[derive(PrimeField)] #[PrimeFieldModulus = "3622037472656720737718985173321135415615777622630761830513"] #[PrimeFieldGenerator = "3"] pub struct P192(PRepr192); }
    pub use p192::P192;
    pub mod p193 { use ff::*; #[derive(PrimeField)] #[PrimeFieldModulus = "9558574055406074607133236084085001995811535902889636765809"] #[PrimeFieldGenerator = "3"] pub struct P193(PRepr193); }
    pub use p193::P193;
    pub mod p255 { use ff::*; #[derive(PrimeField)] #[PrimeFieldModulus = "33502581330541552535152970234251017428734148128594824920358821095362859246769"] #[PrimeFieldGenerator = "3"] pub struct P255(PRepr255); }
    pub use p255::P255;
}
pub use limbfields::*;

pub mod stark;
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
}
pub fn fu<F: PrimeField>(x: u64) -> F { F::from_str(&x.to_string()).expect("small integer") }
/// pseudo-random element; small values (0, 1, -1) appear often
pub fn felt<F: PrimeField>(r: &mut Rng) -> F {
    match r.below(8) {
        0 => F::zero(),
        1 => F::one(),
        2 => { let mut a = F::one(); a.negate(); a }
        _ => {
            let mut a = F::zero();
            let sh = fu::<F>(16);
            for _ in 0..70 { a.mul_assign(&sh); a.add_assign(&fu::<F>(r.below(16))); }
            a
        }
    }
}
pub fn felts<F: PrimeField>(r: &mut Rng, n: usize) -> Vec<F> { (0..n).map(|_| felt(r)).collect() }
pub fn add<F: Field>(mut a: F, b: F) -> F { a.add_assign(&b); a }
pub fn sub<F: Field>(mut a: F, b: F) -> F { a.sub_assign(&b); a }
pub fn mul<F: Field>(mut a: F, b: F) -> F { a.mul_assign(&b); a }
pub fn neg<F: Field>(mut a: F) -> F { a.negate(); a }
/// oracle power: square-and-multiply written here
pub fn pw<F: Field>(a: F, mut e: u128) -> F { let mut b = a; let mut r = F::one(); while e > 0 { if e & 1 == 1 { r.mul_assign(&b); } b.square(); e >>= 1; } r }
pub fn peval<F: Field>(c: &[F], x: F) -> F { let mut acc = F::zero(); for v in c.iter().rev() { acc.mul_assign(&x); acc.add_assign(v); } acc }
/// oracle: generator of the 2^k subgroup, from the field's own 2^S root
pub fn root<F: PrimeField>(k: u32) -> F { let mut g = F::root_of_unity(); for _ in k..F::S { g.square(); } g }
pub fn dft<F: Field>(a: &[F], w: F) -> Vec<F> { let mut x = F::one(); a.iter().map(|_| { let v = peval(a, x); x.mul_assign(&w); v }).collect() }

pub struct Case(pub String, BTreeMap<String, String>);
impl Case {
    pub fn parse(s: &str) -> Case {
        let m = s.split(',').filter(|x| !x.is_empty()).map(|kv| { let mut i = kv.splitn(2, '='); (i.next().unwrap().to_string(), i.next().unwrap_or("").to_string()) }).collect();
        Case(s.to_string(), m)
    }
    pub fn s(&self, k: &str) -> &str { self.1.get(k).map(|x| x.as_str()).unwrap_or("") }
    pub fn n(&self, k: &str) -> u64 { self.s(k).parse().unwrap_or(0) }
    pub fn u(&self, k: &str) -> usize { self.n(k) as usize }
    pub fn rng(&self) -> Rng { let mut h = 0xcbf29ce484222325u64; for b in self.0.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } Rng::new(h) }
}
pub type Res = Result<bool, String>;   // Ok(nontrivial) / Err(what failed)

thread_local! { static WORKERS: std::cell::RefCell<HashMap<usize, Worker>> = std::cell::RefCell::new(HashMap::new()); }
pub fn worker(cpus: usize) -> Worker {
    WORKERS.with(|w| { let mut w = w.borrow_mut(); if w.len() > 12 { w.clear(); } w.entry(cpus).or_insert_with(|| vh::worker(cpus)).clone() })
}
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }
#[macro_export]
macro_rules! by_any_field { ($c:expr, $f:ident) => { match $c.s("f") {
    "b64" => $f::<$crate::P64>($c), "b65" => $f::<$crate::P65>($c), "b127" => $f::<$crate::P127>($c), "b128" => $f::<$crate::P128>($c), "b129" => $f::<$crate::P129>($c),
    "b192" => $f::<$crate::P192>($c), "b193" => $f::<$crate::P193>($c), "b255" => $f::<$crate::P255>($c), _ => $crate::by_field!($c, $f) } } }
/// dispatch on the case's `f=` key
#[macro_export]
macro_rules! by_field { ($c:expr, $f:ident) => { match $c.s("f") {
    "17" => $f::<$crate::F17>($c), "97" => $f::<$crate::F97>($c), "257" => $f::<$crate::F257>($c), "12289" => $f::<$crate::F12289>($c),
    "65537" => $f::<$crate::F65537>($c), _ => $f::<$crate::F252>($c) } } }
pub fn show<F: PrimeField>(v: &[F]) -> String { let s: Vec<String> = v.iter().take(24).map(|x| format!("{}", x)).collect(); format!("[{}{}]", s.join(" "), if v.len() > 24 { " …" } else { "" }) }
pub fn cpu_affinity(n: usize) {
    // limits what num_cpus::get() reports for the calling thread
    extern "C" { fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32; }
    let mask: [u64; 16] = { let mut m = [0u64; 16]; m[0] = if n >= 64 { !0 } else { (1u64 << n) - 1 }; m };
    unsafe { sched_setaffinity(0, 128, mask.as_ptr()); }
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o
}
pub fn run_case(f: &dyn Fn(&Case) -> Res, c: &str) -> Res {
    let case = Case::parse(c);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&case))) {
        Ok(r) => r,
        Err(e) => { let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() }; Err(format!("panicked: {}", m)) }
    }
}
/// gen(i, rng) yields the i-th case; the fixed ones first, then random ones until the budget is used up
pub fn main_loop(fixed: Vec<String>, gen: &dyn Fn(&mut Rng) -> String, run: &dyn Fn(&Case) -> Res) {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(c) = get("--case") {
        match run_case(run, &c) { Ok(_) => { println!("case holds: {}", c); } Err(e) => { println!("case fails: {}\n  {}", c, e); std::process::exit(1); } }
        return;
    }
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let cur = get("--cur");
    let start = Instant::now();
    let budget = Duration::from_millis((secs * 1000.0) as u64);
    let mut rng = Rng::new(seed);
    let (mut evals, mut nontriv) = (0u64, 0u64);
    let mut seen = std::collections::HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut fail: Option<(String, String)> = None;
    let mut known: BTreeMap<String, (String, String)> = BTreeMap::new();   // listed findings: id -> first case, what
    let mut fixed_done = 0usize;
    let total_fixed = fixed.len();
    let mut i = 0usize;
    loop {
        let c = if i < fixed.len() { fixed[i].clone() } else { gen(&mut rng) };
        if start.elapsed() > budget && (i >= fixed.len() || start.elapsed() > budget * 4) { break; }
        i += 1;
        if !seen.insert(c.clone()) { if i > fixed.len() + 10_000_000 { break; } if i > fixed.len() { evals += 0; } continue; }
        if let Some(p) = &cur { let _ = std::fs::write(p, &c); }
        evals += 1;
        match run_case(run, &c) {
            Ok(nt) => { if nt { nontriv += 1; if samples.len() < 3 || (evals.is_power_of_two() && samples.len() < 12) { samples.push(c.clone()); } } }
            Err(e) if e.starts_with("KNOWN:") => { let mut it = e[6..].splitn(2, ':'); let id = it.next().unwrap_or("").to_string(); known.entry(id).or_insert((c.clone(), it.next().unwrap_or("").to_string())); nontriv += 1; }
            Err(e) => { fail = Some((c.clone(), e)); break; }
        }
        if i <= total_fixed { fixed_done = i; }
    }
    let s: Vec<String> = samples.iter().map(|x| format!("\"{}\"", esc(x))).collect();
    let kn: Vec<String> = known.iter().map(|(i, (c, w))| format!("{{\"id\":\"{}\",\"case\":\"{}\",\"what\":\"{}\"}}", esc(i), esc(c), esc(w))).collect();
    let f = match &fail { None => "null".to_string(), Some((c, e)) => format!("{{\"case\":\"{}\",\"what\":\"{}\"}}", esc(c), esc(e)) };
    println!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"fixed_cases\":{},\"fixed_done\":{},\"samples\":[{}],\"known\":[{}],\"fail\":{},\"secs\":{:.2}}}", evals, nontriv, total_fixed, fixed_done, s.join(","), kn.join(","), f, start.elapsed().as_secs_f64());
    if fail.is_some() { std::process::exit(1); }
}
use hodor::polynomials::{Polynomial, PolynomialForm, Coefficients, Values};
pub type CPoly<F> = Polynomial<F, Coefficients>;
pub type VPoly<F> = Polynomial<F, Values>;
pub fn inv<F: Field>(a: F) -> F { a.inverse().expect("oracle inverse of zero") }
/// the constants a polynomial of 2^k entries must carry
pub fn consts_ok<F: PrimeField, P: PolynomialForm>(p: &Polynomial<F, P>, k: u32, what: &str) -> Result<(), String> {
    let n = 1usize << k;
    ensure!(p.as_ref().len() == n, "{}: {} entries instead of 2^{}", what, p.as_ref().len(), k);
    ensure!(p.size() == n, "{}: size() is {} instead of 2^{}", what, p.size(), k);
    ensure!(p.exp == k, "{}: exponent {} instead of {}", what, p.exp, k);
    let w = root::<F>(k);
    ensure!(p.omega == w, "{}: omega {} instead of {}", what, p.omega, w);
    ensure!(p.omegainv == inv(w), "{}: omegainv is not the inverse of omega", what);
    ensure!(mul(p.geninv, F::multiplicative_generator()) == F::one(), "{}: geninv is not the inverse of the multiplicative generator", what);
    ensure!(mul(p.minv, pw(fu::<F>(2), k as u128)) == F::one(), "{}: minv is not the inverse of the size", what);
    Ok(())
}
pub fn same<F: PrimeField>(got: &[F], want: &[F], what: &str) -> Result<(), String> {
    ensure!(got.len() == want.len(), "{}: {} entries instead of {}", what, got.len(), want.len());
    for i in 0..got.len() { ensure!(got[i] == want[i], "{}: entry {} is {} instead of {} (got {}, expected {})", what, i, got[i], want[i], show(got), show(want)); }
    Ok(())
}
pub const ALLF: [&str; 14] = ["17", "97", "257", "12289", "65537", "252", "b64", "b65", "b127", "b128", "b129", "b192", "b193", "b255"];
pub const FIELDS: [&str; 6] = ["17", "97", "257", "12289", "65537", "252"];
pub fn s_of(f: &str) -> u32 { match f { "17" => F17::S, "97" => F97::S, "257" => F257::S, "12289" => F12289::S, "65537" => F65537::S, _ => F252::S } }
pub const CPUS: [usize; 9] = [1, 2, 3, 4, 5, 7, 8, 12, 16];

pub fn limbs<F: PrimeField>(x: &F) -> Vec<u64> { x.into_repr().as_ref().to_vec() }
/// oracle for the digest-to-field map: first limbs*8 bytes big-endian, low CAPACITY bits
pub fn digest_limbs<F: PrimeField>(d: &[u8]) -> Vec<u64> {
    let n = F::char().as_ref().len();
    let mut l = vec![0u64; n];
    for i in 0..n { for b in 0..8 { l[n - 1 - i] = (l[n - 1 - i] << 8) | d[8 * i + b] as u64; } }
    for bit in 0..64 * n { if bit >= F::CAPACITY as usize { l[bit / 64] &= !(1u64 << (bit % 64)); } }
    l
}
pub fn rand_bytes(r: &mut Rng, n: usize) -> Vec<u8> { let m = r.below(6); (0..n).map(|_| match m { 0 => 0u8, 1 => 0xff, _ => r.next() as u8 }).collect() }
