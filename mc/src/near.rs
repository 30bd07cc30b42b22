//! C22: neighbouring calls. Every function at several argument vectors, and at all vectors that differ from these in one number (by 1 ulp up to
//! hundreds), in the order of two numbers, or in two numbers that keep their sum; a result kept from a neighbouring call shows as a difference
//! between the orders in which a process makes the calls.
use crate::sys::*;
use crate::teams::*;
use skillratings::{
    dwz::DWZRating, egf::{EGFConfig, EGFRating}, elo::{EloConfig, EloRating}, fifa::{FifaConfig, FifaRating},
    glicko::{GlickoConfig, GlickoRating}, glicko2::{Glicko2Config, Glicko2Rating},
    glicko_boost::{GlickoBoostConfig, GlickoBoostRating}, ingo::IngoRating, sticko::{StickoConfig, StickoRating},
    trueskill::{TrueSkillConfig, TrueSkillRating}, uscf::{USCFConfig, USCFRating}, weng_lin::{WengLinConfig, WengLinRating},
};
use skillratings::Outcomes;

/// A number of an argument: its value, its kind (numbers of the same kind can be exchanged), and whether it is a whole number.
type Slot = (f64, &'static str, bool);
pub trait Flat: Sized {
    fn put(&self, v: &mut Vec<Slot>);
    fn take(v: &mut std::slice::Iter<f64>) -> Self;
}
macro_rules! flat {
    ($t:ident { $($f:ident $k:ident),* }) => {
        impl Flat for $t {
            fn put(&self, v: &mut Vec<Slot>) { $( flat!(@put v, self.$f, $k, stringify!($f)); )* let _ = v; }
            fn take(v: &mut std::slice::Iter<f64>) -> Self { $t { $( $f: flat!(@take v, $k) ),* } }
        }
    };
    (@put $v:ident, $e:expr, f, $n:expr) => { $v.push(($e, $n, false)) };
    (@put $v:ident, $e:expr, u, $n:expr) => { $v.push(($e as f64, $n, true)) };
    (@put $v:ident, $e:expr, b, $n:expr) => { $v.push((f64::from(u8::from($e)), "flag", true)) };
    (@take $v:ident, f) => { *$v.next().unwrap() };
    (@take $v:ident, u) => { *$v.next().unwrap() as usize };
    (@take $v:ident, b) => { *$v.next().unwrap() as usize % 2 == 1 };
}
flat!(EloRating { rating f });
flat!(FifaRating { rating f });
flat!(IngoRating { rating f, age u });
flat!(DWZRating { rating f, index u, age u });
flat!(USCFRating { rating f, games u });
flat!(EGFRating { rating f });
flat!(GlickoRating { rating f, deviation f });
flat!(Glicko2Rating { rating f, deviation f, volatility f });
flat!(StickoRating { rating f, deviation f });
flat!(GlickoBoostRating { rating f, deviation f });
flat!(WengLinRating { rating f, uncertainty f });
flat!(TrueSkillRating { rating f, uncertainty f });
flat!(EloConfig { k f });
flat!(FifaConfig { importance f, knockout b, penalties b });
flat!(USCFConfig { t f });
flat!(EGFConfig { handicap f });
flat!(GlickoConfig { c f });
flat!(Glicko2Config { tau f, convergence_tolerance f });
flat!(StickoConfig { h f, beta f, lambda f, gamma f, c f });
flat!(WengLinConfig { beta f, uncertainty_tolerance f });
flat!(TrueSkillConfig { draw_probability f, beta f, dynamics_factor f });
impl Flat for GlickoBoostConfig {
    fn put(&self, v: &mut Vec<Slot>) {
        let a = self.alpha;
        v.extend([(self.eta, "eta", false), (self.k, "k", false), (self.b.0, "b", false), (self.b.1, "b", false)]);
        v.extend([a.0, a.1, a.2, a.3, a.4].map(|x| (x, "alpha", false)));
    }
    fn take(v: &mut std::slice::Iter<f64>) -> Self {
        let mut n = || *v.next().unwrap();
        GlickoBoostConfig { eta: n(), k: n(), b: (n(), n()), alpha: (n(), n(), n(), n(), n()) }
    }
}
impl Flat for () {
    fn put(&self, _: &mut Vec<Slot>) {}
    fn take(_: &mut std::slice::Iter<f64>) {}
}
impl Flat for bool {
    fn put(&self, v: &mut Vec<Slot>) {
        v.push((f64::from(u8::from(*self)), "flag", true));
    }
    fn take(v: &mut std::slice::Iter<f64>) -> bool {
        *v.next().unwrap() as usize % 2 == 1
    }
}
pub struct Fun {
    pub name: String,
    pub base: Vec<Slot>,
    pub call: Box<dyn Fn(&[f64]) -> Vec<f64>>,
}
fn outcome(x: f64) -> Outcomes {
    OUT[x as usize % 3]
}
fn funs(thorough: bool) -> Vec<Fun> {
    let mut v = vec![];
    fn sys<S: Sys>(v: &mut Vec<Fun>, thorough: bool)
    where
        S::R: Flat,
        S::C: Flat,
        S::X: Flat,
    {
        let p = S::players(1);
        let (cs, xs) = (S::cfgs(1), S::xs(1));
        let bases = if thorough { 60 } else { 12 };
        for k in 0..bases {
            let pick = |i: usize| p[(p.len() / 2 + i * 7 + k * 13 + k * k) % p.len()];
            let (c, x) = (cs[k % cs.len()], xs[(k / 2) % xs.len()]);
            for n in [0usize, 1, 3, 5] {
                let a = pick(0);
                let opp: Vec<S::R> = (1..=n).map(pick).collect();
                if opp.iter().any(|b| !S::dom(&a, b, x)) {
                    continue;
                }
                let mut base = vec![];
                a.put(&mut base);
                c.put(&mut base);
                for (i, b) in opp.iter().enumerate() {
                    b.put(&mut base);
                    x.put(&mut base);
                    base.push((((i + k) % 3) as f64, "outcome", true));
                }
                let parse = move |s: &[f64]| -> (S::R, S::C, Vec<(S::R, Outcomes, S::X)>) {
                    let mut it = s.iter();
                    let a = S::R::take(&mut it);
                    let c = S::C::take(&mut it);
                    let l = (0..n).map(|_| {
                        let b = S::R::take(&mut it);
                        let x = S::X::take(&mut it);
                        (b, outcome(*it.next().unwrap()), x)
                    });
                    let l = l.collect();
                    (a, c, l)
                };
                v.push(Fun { name: format!("{} period of {n}", S::NAME), base: base.clone(), call: Box::new(move |s| {
                    let (a, c, l) = parse(s);
                    S::num(&S::period(&a, &l, &c)).to_vec()
                }) });
                if n > 0 {
                    v.push(Fun { name: format!("{} expected scores of {n}", S::NAME), base: base.clone(), call: Box::new(move |s| {
                        let (a, c, l) = parse(s);
                        S::exp_period(&a, &l.iter().map(|r| (r.0, r.2)).collect::<Vec<_>>(), &c)
                    }) });
                }
                if n == 1 {
                    v.push(Fun { name: format!("{} match", S::NAME), base: base.clone(), call: Box::new(move |s| {
                        let (a, c, l) = parse(s);
                        let (x, y) = S::rate(&a, &l[0].0, l[0].1, l[0].2, &c);
                        [S::num(&x), S::num(&y)].concat()
                    }) });
                    v.push(Fun { name: format!("{} expected score", S::NAME), base: base.clone(), call: Box::new(move |s| {
                        let (a, c, l) = parse(s);
                        let (x, y) = S::exp(&a, &l[0].0, l[0].2, &c);
                        vec![x, y]
                    }) });
                }
                if n == 0 {
                    v.push(Fun { name: format!("{} decay and interval", S::NAME), base, call: Box::new(move |s| {
                        let (a, c, _) = parse(s);
                        let mut r = S::decay(&a, &c).map(|x| S::num(&x).to_vec()).unwrap_or_default();
                        r.extend(S::ci(&a).map(|x| [x.0, x.1]).unwrap_or_default());
                        r
                    }) });
                }
            }
        }
    }
    macro_rules! each {
        ($($t:ident),*) => { $(sys::<$t>(&mut v, thorough);)* };
    }
    each!(Elo, Fifa, Ingo, Dwz, Uscf, Egf, Glicko, Glicko2, Sticko, GBoost, Wl, Ts);
    fn team<T: TeamSys>(v: &mut Vec<Fun>, thorough: bool)
    where
        T::C: Flat,
    {
        let cs = T::cfgs(1);
        let shapes: &[&[usize]] = &[&[1, 1], &[2, 2], &[1, 3], &[1, 1, 1], &[2, 1, 2], &[1, 1, 2, 1], &[3, 3], &[1, 1, 1, 1, 1]];
        for (k, shape) in shapes.iter().enumerate() {
            for m in 0..if thorough { 14 } else { 5 } {
                let mut base = vec![];
                cs[(k + m) % cs.len()].put(&mut base);
                let mut q = k + 3 * m;
                for (i, n) in shape.iter().enumerate() {
                    base.push((((i * (2 + m) + k) % 4 + 1) as f64, "rank", true));
                    for _ in 0..*n {
                        q += 1;
                        let (r, u) = crate::gen::TA[q % crate::gen::TA.len()];
                        base.extend([(r, "rating", false), (u, "uncertainty", false), ([1.0, 0.5, 0.8][q % 3], "weight", false)]);
                    }
                }
                #[allow(clippy::type_complexity)]
                let parse = move |s: &[f64]| -> (T::C, Vec<Vec<(f64, f64)>>, Vec<usize>, Vec<Vec<f64>>) {
                    let mut it = s.iter();
                    let c = T::C::take(&mut it);
                    let mut n = || *it.next().unwrap();
                    let (mut t, mut r, mut w) = (vec![], vec![], vec![]);
                    for m in *shape {
                        r.push(n() as usize);
                        let l: Vec<(f64, f64, f64)> = (0..*m).map(|_| (n(), n(), n())).collect();
                        t.push(l.iter().map(|x| (x.0, x.1)).collect());
                        w.push(l.iter().map(|x| x.2).collect());
                    }
                    (c, t, r, w)
                };
                v.push(Fun { name: format!("{} many teams {shape:?}", T::NAME), base: base.clone(), call: Box::new(move |s| {
                    let (c, t, r, _) = parse(s);
                    crate::teams::flat(&T::multi(&t, &r, &c))
                }) });
                v.push(Fun { name: format!("{} many-team expected scores {shape:?}", T::NAME), base: base.clone(), call: Box::new(move |s| {
                    let (c, t, _, _) = parse(s);
                    T::expm(&t, &c)
                }) });
                v.push(Fun { name: format!("{} two teams {shape:?}", T::NAME), base: base.clone(), call: Box::new(move |s| {
                    let (c, t, r, _) = parse(s);
                    let (x, y) = T::two(&t[0], &t[1], OUT[r[0] % 3], &c);
                    crate::teams::flat(&[x, y])
                }) });
                v.push(Fun { name: format!("{} two-team expected scores {shape:?}", T::NAME), base: base.clone(), call: Box::new(move |s| {
                    let (c, t, _, _) = parse(s);
                    let (x, y) = T::exp2(&t[0], &t[1], &c);
                    vec![x, y]
                }) });
                if T::NAME == "trueskill" {
                    let tc = move |s: &[f64]| TrueSkillConfig::take(&mut s.iter());
                    v.push(Fun { name: format!("trueskill weighted {shape:?}"), base: base.clone(), call: Box::new(move |s| {
                        let (_, t, r, w) = parse(s);
                        TsT::multi_w(&t, &r, &tc(s), Some(&w)).map(|x| crate::teams::flat(&x)).unwrap_or_default()
                    }) });
                    v.push(Fun { name: format!("trueskill weighted quality {shape:?}"), base: base.clone(), call: Box::new(move |s| {
                        let (_, t, _, w) = parse(s);
                        vec![TsT::quality_m(&t, &tc(s), Some(&w)).unwrap_or(-1.0)]
                    }) });
                    v.push(Fun { name: format!("trueskill quality {shape:?}"), base: base.clone(), call: Box::new(move |s| {
                        let (_, t, _, _) = parse(s);
                        vec![TsT::quality_m(&t, &tc(s), None).unwrap_or(-1.0)]
                    }) });
                    v.push(Fun { name: format!("trueskill two-team quality {shape:?}"), base, call: Box::new(move |s| {
                        let (_, t, _, _) = parse(s);
                        vec![TsT::quality2(&t[0], &t[1], &tc(s)), TsT::quality(t[0][0], t[1][0], &tc(s))]
                    }) });
                }
            }
        }
    }
    team::<WlT>(&mut v, thorough);
    team::<TsT>(&mut v, thorough);
    for n in if thorough { 5..16usize } else { 5..9 } {
        for low in [0.0, -900.0] {
            let mut base = vec![(24.0, "age", true)];
            for i in 0..n {
                DWZRating { rating: 1500.0 + low + 90.0 * ((i * 3) % 7) as f64, index: 3 + i, age: 30 }.put(&mut base);
                base.push((((i + n) % 3) as f64, "outcome", true));
            }
            v.push(Fun { name: format!("dwz first of {n}"), base, call: Box::new(move |s| {
                let mut it = s.iter();
                let age = *it.next().unwrap() as usize;
                let l: Vec<(DWZRating, Outcomes)> = (0..n).map(|_| (DWZRating::take(&mut it), outcome(*it.next().unwrap()))).collect();
                match skillratings::dwz::get_first_dwz(age, &l) {
                    Ok(x) => S0::num(&x).to_vec(),
                    Err(e) => vec![-1.0, format!("{e:?}").len() as f64],
                }
            }) });
        }
    }
    v
}
type S0 = Dwz;
/// All neighbours of an argument vector: (what changes, the new values).
pub fn neighbours(base: &[Slot]) -> Vec<Vec<(usize, f64)>> {
    let mut v = vec![];
    for (i, &(x, kind, whole)) in base.iter().enumerate() {
        if whole {
            let ds: &[f64] = match kind {
                "flag" => &[1.0],
                "outcome" => &[1.0, 2.0],
                _ => &[1.0, 2.0, 7.0, 16.0, 64.0, 256.0, 65536.0],
            };
            v.extend(ds.iter().map(|d| vec![(i, x + d)]));
            continue;
        }
        for d in [f64::EPSILON, 1e-14, 1e-12, 1e-10, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2] {
            v.push(vec![(i, x + x.abs() * d)]);
            v.push(vec![(i, x - x.abs() * d)]);
        }
        for d in [0.001, 0.004, 0.01, 0.1, 0.3, 1.0, 10.0, 50.0, 100.0] {
            // small numbers (probabilities, tolerances, volatilities) stay small
            if d <= x.abs() * 0.9 {
                v.push(vec![(i, x + d)]);
                v.push(vec![(i, x - d)]);
            }
        }
    }
    for i in 0..base.len() {
        for j in i + 1..base.len() {
            if base[i].1 != base[j].1 || base[i].1 == "flag" {
                continue;
            }
            let (x, y) = (base[i].0, base[j].0);
            if x.to_bits() != y.to_bits() {
                v.push(vec![(i, y), (j, x)]);
            }
            if !base[i].2 {
                for d in [1e-3, 0.25, 0.5, 16.0, 64.0] {
                    if d <= x.abs().min(y.abs()) * 0.9 {
                        v.push(vec![(i, x + d), (j, y - d)]);
                    }
                }
            }
        }
    }
    v
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}
/// The list of (function, neighbour), and what it was called with.
pub struct Near {
    pub funs: Vec<Fun>,
    pub list: Vec<(usize, Vec<(usize, f64)>)>,
}
impl Near {
    pub fn new(thorough: bool) -> Near {
        let funs = funs(thorough);
        let list = funs.iter().enumerate().flat_map(|(i, f)| neighbours(&f.base).into_iter().map(move |n| (i, n))).collect();
        Near { funs, list }
    }
    pub fn args(&self, i: usize) -> Vec<f64> {
        let (f, n) = &self.list[i];
        let mut a: Vec<f64> = self.funs[*f].base.iter().map(|s| s.0).collect();
        for (k, x) in n {
            a[*k] = *x;
        }
        a
    }
    fn run(&self, f: usize, a: &[f64]) -> u64 {
        (self.funs[f].call)(a).iter().fold(0xcbf2_9ce4_8422_2325u64, |h, x| (h ^ if x.is_nan() { 1 } else { x.to_bits() }).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(29))
    }
    /// The calls i, i + s, i + 2 s, ... (which belong to different functions) for `from <= i < to`, in a process of their own for each i (a fork of
    /// this one, which has made no calls). Returns false if one fails.
    pub fn fresh(&self, from: usize, to: usize, s: usize) -> bool {
        extern "C" {
            fn fork() -> i32;
            fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
            fn _exit(code: i32) -> !;
        }
        use std::io::Write;
        for i in from..to {
            // SAFETY: this process has a single thread, and the child only computes, writes to stdout and exits.
            unsafe {
                let pid = fork();
                if pid == 0 {
                    let d: Vec<u8> = (i..self.list.len()).step_by(s).flat_map(|i| self.run(self.list[i].0, &self.args(i)).to_le_bytes()).collect();
                    let mut out = std::io::stdout();
                    let good = out.write_all(&d).is_ok() && out.flush().is_ok();
                    _exit(i32::from(!good));
                }
                let mut status = 0;
                if pid < 0 || waitpid(pid, &mut status, 0) != pid || status != 0 {
                    return false;
                }
            }
        }
        true
    }
    /// Makes all calls: in order 0 every neighbour right after its base, in order 1 backwards without the bases (they come last), in order 2
    /// every neighbour of one function after the bases of all functions, in order 3 with a far stride.
    pub fn digests(&self, order: usize) -> Vec<u64> {
        let n = self.list.len();
        let mut out = vec![0; n];
        let base = |f: usize| { let a: Vec<f64> = self.funs[f].base.iter().map(|s| s.0).collect(); self.run(f, &a) };
        let mut s = n / 2 + n / 9 + 1;
        while gcd(s, n) != 1 {
            s += 1;
        }
        if order == 2 {
            for f in 0..self.funs.len() {
                base(f);
            }
        }
        for k in 0..n {
            let i = match order {
                1 => n - 1 - k,
                3 => (k * s) % n,
                _ => k,
            };
            let f = self.list[i].0;
            if order == 0 {
                base(f);
            }
            out[i] = self.run(f, &self.args(i));
        }
        out
    }
}
