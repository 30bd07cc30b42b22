//! One adapter per rating system: the real functions, the input alphabets, and an independent reference model.
use crate::refm;
use skillratings::Outcomes::{self, *};
use skillratings::{
    dwz::DWZRating, egf::{EGFConfig, EGFRating}, elo::{EloConfig, EloRating}, fifa::{FifaConfig, FifaRating},
    glicko::{GlickoConfig, GlickoRating}, glicko2::{Glicko2Config, Glicko2Rating},
    glicko_boost::{GlickoBoostConfig, GlickoBoostRating}, ingo::IngoRating, sticko::{StickoConfig, StickoRating},
    trueskill::{TrueSkillConfig, TrueSkillRating}, uscf::{USCFConfig, USCFRating}, weng_lin::{WengLinConfig, WengLinRating},
};
use std::fmt::Debug;

pub const OUT: [Outcomes; 3] = [WIN, DRAW, LOSS];
pub fn inv(o: Outcomes) -> Outcomes {
    match o {
        WIN => LOSS,
        LOSS => WIN,
        DRAW => DRAW,
    }
}
pub fn pts(o: Outcomes) -> f64 {
    match o {
        WIN => 1.0,
        LOSS => 0.0,
        DRAW => 0.5,
    }
}
pub type N4 = [f64; 4];

pub trait Sys: Sync + Send + 'static {
    const NAME: &'static str;
    /// A rating period is the fold of its matches.
    const SEQ: bool = false;
    /// Absolute tolerance of expected scores.
    const ETOL: f64 = 1e-9;
    /// Only rating differences matter.
    const SHIFT: bool = false;
    /// Has an uncertainty (num[1]).
    const UNC: bool = false;
    type R: Copy + Debug + PartialEq + Send + Sync + 'static;
    type C: Copy + Debug + Send + Sync + 'static;
    type X: Copy + Debug + Send + Sync + 'static;
    fn rate(a: &Self::R, b: &Self::R, o: Outcomes, x: Self::X, c: &Self::C) -> (Self::R, Self::R);
    fn exp(a: &Self::R, b: &Self::R, x: Self::X, c: &Self::C) -> (f64, f64);
    fn period(a: &Self::R, rs: &[(Self::R, Outcomes, Self::X)], c: &Self::C) -> Self::R;
    fn exp_period(a: &Self::R, os: &[(Self::R, Self::X)], c: &Self::C) -> Vec<f64>;
    fn num(r: &Self::R) -> N4;
    fn players(level: usize) -> Vec<Self::R>;
    fn cfgs(level: usize) -> Vec<Self::C>;
    fn xs(level: usize) -> Vec<Self::X>;
    /// Reverses the advantage / handicap.
    fn mirror(x: Self::X, c: &Self::C) -> (Self::X, Self::C) {
        (x, *c)
    }
    /// TrueSkill's dynamics factor.
    fn dynamics(_c: &Self::C) -> f64 {
        0.0
    }
    /// The match was decided in a penalty shoot-out (FIFA).
    fn shootout(_x: Self::X) -> bool {
        false
    }
    /// The advantage is on the side of the first player (always, unless the match option is the colour).
    fn first_side(_x: Self::X) -> bool {
        true
    }
    /// Advantage of player one, 0 if none.
    fn adv(_x: Self::X, _c: &Self::C) -> f64 {
        0.0
    }
    fn with_rating(r: &Self::R, rating: f64) -> Self::R;
    fn with_unc(r: &Self::R, _u: f64) -> Self::R {
        *r
    }
    /// Higher is better.
    fn good(r: &Self::R) -> f64 {
        Self::num(r)[0]
    }
    fn dom(_a: &Self::R, _b: &Self::R, _x: Self::X) -> bool {
        true
    }
    /// The outcomes a config allows (no draws with a draw probability of 0).
    fn outs(_c: &Self::C) -> &'static [Outcomes] {
        &OUT
    }
    /// Reference model: a rating period (for one result: also the single match).
    fn ref_period(a: &Self::R, rs: &[(Self::R, Outcomes, Self::X)], c: &Self::C) -> N4;
    fn ref_exp(a: &Self::R, b: &Self::R, x: Self::X, c: &Self::C) -> f64;
    /// Whether the performance gets a boost (Glicko-Boost): crossing this threshold is a discontinuity.
    fn boosted(_a: &Self::R, _rs: &[(Self::R, Outcomes, Self::X)], _c: &Self::C) -> bool {
        false
    }
    /// Explicit decay (Glicko family).
    fn decay(_a: &Self::R, _c: &Self::C) -> Option<Self::R> {
        None
    }
    /// Confidence interval (Glicko family).
    fn ci(_a: &Self::R) -> Option<(f64, f64)> {
        None
    }
    /// Copies of a config / match option / player that differ from it in exactly one field.
    fn c_variants(_c: &Self::C) -> Vec<Self::C> {
        vec![]
    }
    fn x_variants(_x: Self::X) -> Vec<Self::X> {
        vec![]
    }
    fn r_variants(_r: &Self::R) -> Vec<Self::R> {
        vec![]
    }
    /// Ratings the system can produce (USCF: from 100, EGF: from -900).
    fn valid(_r: &Self::R) -> bool {
        true
    }
    /// Players along the remaining dimensions (age, games, index, volatility).
    fn other_lines() -> Vec<Self::R> {
        vec![]
    }
    /// Dense lines through a few players: one dimension at a time in small steps.
    fn lines() -> Vec<Self::R> {
        let (p0, p3) = (Self::players(0), Self::players(3));
        let (lo, hi) = Self::players(1).iter().map(|r| Self::num(r)[0]).fold((f64::MAX, f64::MIN), |(l, h), r| (l.min(r), h.max(r)));
        let mut v = vec![];
        for p in p0.iter().step_by((p0.len() / 4).max(1)) {
            v.extend((0..=1000).map(|i| Self::with_rating(p, lo + (hi - lo) * (f64::from(i) / 1000.0 * 1.1 - 0.05))));
            if Self::UNC {
                let top = p3.iter().map(|r| Self::num(r)[1]).fold(0.0, f64::max);
                v.extend((1..=350).map(|i| Self::with_unc(p, top * f64::from(i) / 350.0)));
            }
        }
        v.extend(Self::other_lines());
        v.retain(Self::valid);
        v
    }
    /// Reference model: what an empty period does.
    fn idle(a: &Self::R, _c: &Self::C) -> N4 {
        Self::num(a)
    }
}

fn cat(xs: &[&[f64]]) -> Vec<f64> {
    let mut v: Vec<f64> = xs.iter().flat_map(|x| x.iter().copied()).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}
pub fn steps(from: f64, to: f64, step: f64) -> Vec<f64> {
    let n = ((to - from) / step).floor() as usize;
    (0..=n).map(|i| from + step * i as f64).collect()
}

/// Ratings on the usual 0..3000 scale; level 0: a handful, 3: dense with all thresholds mentioned in the code.
pub fn ratings(level: usize) -> Vec<f64> {
    const L0: &[f64] = &[1500.0, 1183.5, 2107.25];
    const L1: &[f64] = &[-150.0, 0.0, 640.25, 1000.0, 1301.0, 1450.75, 1800.0, 2355.5, 2801.5, 4000.0];
    const TH: &[f64] = &[
        -1000.0, 1.0, 99.0, 100.0, 101.0, 400.0, 600.0, 799.0, 800.0, 900.0, 1200.0, 1299.999, 1300.0, 1300.001, 1400.0, 1600.0, 1700.0, 1900.0, 1999.999, 2000.0,
        2000.001, 2059.999, 2060.0, 2060.001, 2200.0, 2300.0, 2354.999, 2355.0, 2355.001, 2400.0, 2569.0, 2600.0, 2700.0, 3000.0, 3500.0,
    ];
    match level {
        0 => cat(&[L0]),
        1 => cat(&[L0, L1]),
        2 => cat(&[L0, L1, TH, &steps(-75.5, 3300.0, 112.25)]),
        _ => cat(&[L0, L1, TH, &steps(-211.0, 4200.0, 19.875), &[-5000.0, -2500.0, 6000.0, 10000.0]]),
    }
}
/// Glicko-family deviations.
pub fn devs(level: usize) -> Vec<f64> {
    match level {
        0 => vec![350.0, 61.5],
        1 => vec![2.0, 29.5, 61.5, 120.0, 200.25, 350.0],
        2 => vec![0.5, 5.0, 29.5, 30.5, 50.0, 80.0, 151.0, 299.5, 349.0, 350.0],
        _ => cat(&[&[0.01, 0.1, 0.5, 1.0, 2.0], &steps(5.0, 350.0, 7.5), &[29.5, 30.0, 300.0, 349.9, 350.0]]),
    }
}
/// Weng-Lin / TrueSkill ratings and uncertainties.
pub fn wl_ratings(level: usize) -> Vec<f64> {
    match level {
        0 => vec![25.0, 31.5],
        1 => vec![-3.5, 0.0, 12.25, 25.0, 27.0, 41.75],
        2 => cat(&[&[25.0, 0.0], &steps(-9.0, 59.0, 3.4)]),
        _ => cat(&[&[25.0, 0.0, 50.0], &steps(-40.0, 90.0, 0.925)]),
    }
}
pub fn wl_uncs(level: usize) -> Vec<f64> {
    match level {
        0 => vec![25.0 / 3.0, 2.1],
        1 => vec![0.5, 2.1, 5.5, 25.0 / 3.0],
        2 => vec![0.1, 0.8, 2.1, 4.2, 25.0 / 3.0, 12.0],
        _ => cat(&[&[0.002, 0.006, 0.01, 0.05, 0.1, 0.3], &steps(0.55, 12.0, 0.45), &[25.0 / 3.0, 20.0, 45.0]]),
    }
}
pub const AGES: [usize; 13] = [0, 8, 15, 19, 20, 21, 23, 25, 26, 40, 75, 120, 270];

/// Full products would square; combine "all of one dimension with few of the other" both ways.
pub fn mix2(l: usize, big: fn(usize) -> Vec<f64>, other: fn(usize) -> Vec<f64>) -> Vec<(f64, f64)> {
    let mut v: Vec<(f64, f64)> = vec![];
    let mut add = |a: Vec<f64>, b: Vec<f64>| {
        for x in &a {
            for y in &b {
                v.push((*x, *y));
            }
        }
    };
    match l {
        0 => add(big(0), other(0)),
        1 => {
            add(big(1), other(0));
            add(big(0)[..1].to_vec(), other(1));
        }
        2 => {
            add(big(2), other(0));
            add(big(1), other(1));
            add(big(0), other(2));
        }
        _ => {
            add(big(3), other(1));
            add(big(2), other(2));
            add(big(1), other(3));
        }
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}

// ---------------------------------------------------------------- Elo
pub struct Elo;
impl Sys for Elo {
    const NAME: &'static str = "elo";
    const SEQ: bool = true;
    const SHIFT: bool = true;
    type R = EloRating;
    type C = EloConfig;
    type X = ();
    fn rate(a: &EloRating, b: &EloRating, o: Outcomes, _: (), c: &EloConfig) -> (EloRating, EloRating) {
        skillratings::elo::elo(a, b, &o, c)
    }
    fn exp(a: &EloRating, b: &EloRating, _: (), _: &EloConfig) -> (f64, f64) {
        skillratings::elo::expected_score(a, b)
    }
    fn period(a: &EloRating, rs: &[(EloRating, Outcomes, ())], c: &EloConfig) -> EloRating {
        let v: Vec<_> = rs.iter().map(|r| (r.0, r.1)).collect();
        skillratings::elo::elo_rating_period(a, &v, c)
    }
    fn exp_period(a: &EloRating, os: &[(EloRating, ())], _: &EloConfig) -> Vec<f64> {
        skillratings::elo::expected_score_rating_period(a, &os.iter().map(|o| o.0).collect::<Vec<_>>())
    }
    fn num(r: &EloRating) -> N4 {
        [r.rating, 0.0, 0.0, 0.0]
    }
    fn players(l: usize) -> Vec<EloRating> {
        ratings(l).into_iter().map(|rating| EloRating { rating }).collect()
    }
    fn cfgs(l: usize) -> Vec<EloConfig> {
        let ks: &[f64] = match l {
            0 => &[32.0, 10.5],
            1 => &[0.0, 10.5, 20.0, 32.0, 60.0],
            2 => &[0.0, 0.5, 1.0, 10.0, 10.5, 16.0, 20.0, 24.0, 32.0, 40.0, 60.0, 100.0, 400.0],
            _ => &cat(&[&steps(0.0, 130.0, 0.5), &steps(0.0, 1000.0, 12.5), &[0.01, 0.25, 24.0, 32.0, 40.0, 64.0, 128.0]]),
        };
        ks.iter().map(|&k| EloConfig { k }).collect()
    }
    fn xs(_: usize) -> Vec<()> {
        vec![()]
    }
    fn c_variants(c: &EloConfig) -> Vec<EloConfig> {
        vec![EloConfig { k: c.k + 7.0 }, EloConfig { k: c.k + 0.25 }]
    }
    fn with_rating(_: &EloRating, rating: f64) -> EloRating {
        EloRating { rating }
    }
    fn ref_period(a: &EloRating, rs: &[(EloRating, Outcomes, ())], c: &EloConfig) -> N4 {
        let mut r = a.rating;
        for (o, s, ()) in rs {
            r += c.k * (pts(*s) - refm::logistic10(r - o.rating, 400.0));
        }
        [r, 0.0, 0.0, 0.0]
    }
    fn ref_exp(a: &EloRating, b: &EloRating, _: (), _: &EloConfig) -> f64 {
        refm::logistic10(a.rating - b.rating, 400.0)
    }
}

// ---------------------------------------------------------------- FIFA
pub struct Fifa;
impl Sys for Fifa {
    const NAME: &'static str = "fifa";
    const SEQ: bool = true;
    const SHIFT: bool = true;
    type R = FifaRating;
    type C = ();
    type X = FifaConfig;
    fn rate(a: &FifaRating, b: &FifaRating, o: Outcomes, x: FifaConfig, _: &()) -> (FifaRating, FifaRating) {
        skillratings::fifa::fifa(a, b, &o, &x)
    }
    fn exp(a: &FifaRating, b: &FifaRating, _: FifaConfig, _: &()) -> (f64, f64) {
        skillratings::fifa::expected_score(a, b)
    }
    fn period(a: &FifaRating, rs: &[(FifaRating, Outcomes, FifaConfig)], _: &()) -> FifaRating {
        skillratings::fifa::fifa_rating_period(a, rs)
    }
    fn exp_period(a: &FifaRating, os: &[(FifaRating, FifaConfig)], _: &()) -> Vec<f64> {
        skillratings::fifa::expected_score_rating_period(a, &os.iter().map(|o| o.0).collect::<Vec<_>>())
    }
    fn num(r: &FifaRating) -> N4 {
        [r.rating, 0.0, 0.0, 0.0]
    }
    fn players(l: usize) -> Vec<FifaRating> {
        ratings(l).into_iter().map(|rating| FifaRating { rating }).collect()
    }
    fn cfgs(_: usize) -> Vec<()> {
        vec![()]
    }
    fn xs(l: usize) -> Vec<FifaConfig> {
        let imp: &[f64] = match l {
            0 => &[10.0],
            1 => &[5.0, 25.0],
            2 => &[0.0, 5.0, 10.0, 15.0, 25.0, 35.0, 40.0, 50.0, 60.0, 77.5],
            _ => &cat(&[&steps(0.0, 100.0, 1.0), &[0.5, 2.5, 37.25, 150.0, 400.0]]),
        };
        let mut v = vec![];
        for &importance in imp {
            for knockout in [false, true] {
                for penalties in [false, true] {
                    v.push(FifaConfig { importance, knockout, penalties });
                }
            }
        }
        v
    }
    fn shootout(x: FifaConfig) -> bool {
        x.penalties
    }
    fn x_variants(x: FifaConfig) -> Vec<FifaConfig> {
        vec![FifaConfig { importance: x.importance + 10.0, ..x }, FifaConfig { importance: x.importance + 0.5, ..x }, FifaConfig { knockout: !x.knockout, ..x }, FifaConfig { penalties: !x.penalties, ..x }]
    }
    fn with_rating(_: &FifaRating, rating: f64) -> FifaRating {
        FifaRating { rating }
    }
    fn ref_period(a: &FifaRating, rs: &[(FifaRating, Outcomes, FifaConfig)], _: &()) -> N4 {
        let mut r = a.rating;
        for (o, s, x) in rs {
            let w = if x.penalties { if *s == WIN { 0.75 } else { 0.5 } } else { pts(*s) };
            let d = x.importance * (w - refm::logistic10(r - o.rating, 600.0));
            if !(x.knockout && d < 0.0) {
                r += d;
            }
        }
        [r, 0.0, 0.0, 0.0]
    }
    fn ref_exp(a: &FifaRating, b: &FifaRating, _: FifaConfig, _: &()) -> f64 {
        refm::logistic10(a.rating - b.rating, 600.0)
    }
}

// ---------------------------------------------------------------- Ingo
pub struct Ingo;
impl Sys for Ingo {
    const NAME: &'static str = "ingo";
    const SHIFT: bool = true;
    type R = IngoRating;
    type C = ();
    type X = ();
    fn rate(a: &IngoRating, b: &IngoRating, o: Outcomes, _: (), _: &()) -> (IngoRating, IngoRating) {
        skillratings::ingo::ingo(a, b, &o)
    }
    fn exp(a: &IngoRating, b: &IngoRating, _: (), _: &()) -> (f64, f64) {
        skillratings::ingo::expected_score(a, b)
    }
    fn period(a: &IngoRating, rs: &[(IngoRating, Outcomes, ())], _: &()) -> IngoRating {
        let v: Vec<_> = rs.iter().map(|r| (r.0, r.1)).collect();
        skillratings::ingo::ingo_rating_period(a, &v)
    }
    fn exp_period(a: &IngoRating, os: &[(IngoRating, ())], _: &()) -> Vec<f64> {
        skillratings::ingo::expected_score_rating_period(a, &os.iter().map(|o| o.0).collect::<Vec<_>>())
    }
    fn num(r: &IngoRating) -> N4 {
        [r.rating, 0.0, 0.0, r.age as f64]
    }
    fn good(r: &IngoRating) -> f64 {
        -r.rating
    }
    fn players(l: usize) -> Vec<IngoRating> {
        let ing = |l: usize| match l {
            0 => vec![130.0, 171.5],
            1 => vec![-20.0, 60.5, 130.0, 149.0, 171.5, 230.0, 320.0],
            2 => cat(&[&[230.0, 0.0], &steps(-30.0, 360.0, 14.5)]),
            _ => cat(&[&[230.0, 0.0, 50.0, 100.0], &steps(-150.0, 500.0, 4.75)]),
        };
        let mut v = vec![];
        for r in ing(l) {
            let ages: Vec<usize> = match l {
                0 => vec![26],
                1 => vec![18, 22, 26],
                2 => vec![10, 20, 21, 25, 26],
                _ => AGES.to_vec(),
            };
            v.extend(ages.into_iter().map(|age| IngoRating { rating: r, age }));
        }
        if l >= 2 {
            for &age in &AGES {
                v.push(IngoRating { rating: 130.0, age });
            }
        }
        v
    }
    fn cfgs(_: usize) -> Vec<()> {
        vec![()]
    }
    fn xs(_: usize) -> Vec<()> {
        vec![()]
    }
    fn other_lines() -> Vec<IngoRating> {
        (0..=110).flat_map(|age| [95.5, 160.0].map(|rating| IngoRating { rating, age })).collect()
    }
    fn r_variants(r: &IngoRating) -> Vec<IngoRating> {
        [15, 23, 40].into_iter().filter(|a| *a != r.age).map(|age| IngoRating { age, ..*r }).collect()
    }
    fn with_rating(r: &IngoRating, rating: f64) -> IngoRating {
        IngoRating { rating, ..*r }
    }
    fn ref_period(a: &IngoRating, rs: &[(IngoRating, Outcomes, ())], _: &()) -> N4 {
        if rs.is_empty() {
            return Self::num(a);
        }
        let n = rs.len() as f64;
        let dev = if a.age <= 20 { 10.0 } else if a.age <= 25 { 15.0 } else { 20.0 };
        // Sum over the games of (opponent - 100 * score + 50), averaged with the old rating counted `dev` times.
        let sum: f64 = rs.iter().map(|(o, s, ())| o.rating + 50.0 - 100.0 * pts(*s)).sum();
        [(sum + dev * a.rating) / (n + dev), 0.0, 0.0, a.age as f64]
    }
    fn ref_exp(a: &IngoRating, b: &IngoRating, _: (), _: &()) -> f64 {
        let e = 0.5 + (b.rating - a.rating) / 100.0;
        if e < 0.0 { 0.0 } else if e > 1.0 { 1.0 } else { e }
    }
}

// ---------------------------------------------------------------- DWZ
pub struct Dwz;
impl Sys for Dwz {
    const NAME: &'static str = "dwz";
    type R = DWZRating;
    type C = ();
    type X = ();
    fn rate(a: &DWZRating, b: &DWZRating, o: Outcomes, _: (), _: &()) -> (DWZRating, DWZRating) {
        skillratings::dwz::dwz(a, b, &o)
    }
    fn exp(a: &DWZRating, b: &DWZRating, _: (), _: &()) -> (f64, f64) {
        skillratings::dwz::expected_score(a, b)
    }
    fn period(a: &DWZRating, rs: &[(DWZRating, Outcomes, ())], _: &()) -> DWZRating {
        let v: Vec<_> = rs.iter().map(|r| (r.0, r.1)).collect();
        skillratings::dwz::dwz_rating_period(a, &v)
    }
    fn exp_period(a: &DWZRating, os: &[(DWZRating, ())], _: &()) -> Vec<f64> {
        skillratings::dwz::expected_score_rating_period(a, &os.iter().map(|o| o.0).collect::<Vec<_>>())
    }
    fn num(r: &DWZRating) -> N4 {
        [r.rating, 0.0, r.index as f64, r.age as f64]
    }
    fn players(l: usize) -> Vec<DWZRating> {
        let mut v = vec![];
        let idx: &[usize] = match l {
            0 => &[4],
            1 => &[1, 8],
            2 => &[0, 2, 6],
            _ => &[0, 1, 3, 5, 6, 50],
        };
        let ages: &[usize] = match l {
            0 => &[26],
            1 => &[17, 40],
            2 => &[17, 22, 40],
            _ => &[15, 20, 23, 40],
        };
        for rating in ratings(l) {
            for &index in idx {
                for &age in ages {
                    v.push(DWZRating { rating, index, age });
                }
            }
        }
        if l >= 1 {
            for rating in ratings(0).into_iter().chain([640.5, 1301.0]) {
                for index in [0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 30, 100, 1000] {
                    v.push(DWZRating { rating, index, age: 30 });
                }
                for age in AGES {
                    v.push(DWZRating { rating, index: 6, age });
                }
            }
        }
        v
    }
    fn cfgs(_: usize) -> Vec<()> {
        vec![()]
    }
    fn xs(_: usize) -> Vec<()> {
        vec![()]
    }
    fn other_lines() -> Vec<DWZRating> {
        let mut v: Vec<DWZRating> = (0..=110).flat_map(|age| [(1183.5, 3), (1500.0, 9), (2107.25, 40)].map(|(rating, index)| DWZRating { rating, index, age })).collect();
        v.extend((0..=160).flat_map(|index| [(1183.5, 16), (1500.0, 22), (2107.25, 50)].map(|(rating, age)| DWZRating { rating, index, age })));
        v
    }
    fn r_variants(r: &DWZRating) -> Vec<DWZRating> {
        [15, 23, 40].into_iter().filter(|a| *a != r.age).map(|age| DWZRating { age, ..*r }).chain([1, 4, 60].into_iter().filter(|i| *i != r.index).map(|index| DWZRating { index, ..*r })).collect()
    }
    fn with_rating(r: &DWZRating, rating: f64) -> DWZRating {
        DWZRating { rating, ..*r }
    }
    fn ref_period(a: &DWZRating, rs: &[(DWZRating, Outcomes, ())], _: &()) -> N4 {
        if rs.is_empty() {
            return Self::num(a);
        }
        let w: f64 = rs.iter().map(|r| pts(r.1)).sum();
        let we: f64 = rs.iter().map(|r| refm::logistic10(a.rating - r.0.rating, 400.0)).sum();
        let e = refm::dwz_coefficient(a.rating, a.age, a.index, w, we);
        [a.rating + 800.0 * (w - we) / (e + rs.len() as f64), 0.0, (a.index + 1) as f64, a.age as f64]
    }
    fn ref_exp(a: &DWZRating, b: &DWZRating, _: (), _: &()) -> f64 {
        refm::logistic10(a.rating - b.rating, 400.0)
    }
}

// ---------------------------------------------------------------- USCF
pub struct Uscf;
impl Sys for Uscf {
    const NAME: &'static str = "uscf";
    type R = USCFRating;
    type C = USCFConfig;
    type X = ();
    fn rate(a: &USCFRating, b: &USCFRating, o: Outcomes, _: (), c: &USCFConfig) -> (USCFRating, USCFRating) {
        skillratings::uscf::uscf(a, b, &o, c)
    }
    fn exp(a: &USCFRating, b: &USCFRating, _: (), _: &USCFConfig) -> (f64, f64) {
        skillratings::uscf::expected_score(a, b)
    }
    fn period(a: &USCFRating, rs: &[(USCFRating, Outcomes, ())], c: &USCFConfig) -> USCFRating {
        let v: Vec<_> = rs.iter().map(|r| (r.0, r.1)).collect();
        skillratings::uscf::uscf_rating_period(a, &v, c)
    }
    fn exp_period(a: &USCFRating, os: &[(USCFRating, ())], _: &USCFConfig) -> Vec<f64> {
        skillratings::uscf::expected_score_rating_period(a, &os.iter().map(|o| o.0).collect::<Vec<_>>())
    }
    fn num(r: &USCFRating) -> N4 {
        [r.rating, 0.0, 0.0, r.games as f64]
    }
    fn players(l: usize) -> Vec<USCFRating> {
        let mut v = vec![];
        let gs: &[usize] = match l {
            0 => &[20],
            1 => &[3, 20],
            2 => &[0, 5, 9, 30, 60],
            _ => &[0, 1, 4, 8, 9, 15, 25, 49, 100],
        };
        for rating in ratings(l).into_iter().filter(|r| *r >= 100.0) {
            for &games in gs {
                v.push(USCFRating { rating, games });
            }
        }
        if l >= 1 {
            for rating in [100.0, 1183.5, 1500.0, 2354.0] {
                for games in (0..=14).chain([20, 25, 40, 49, 50, 51, 75, 100, 500, 10000]) {
                    v.push(USCFRating { rating, games });
                }
            }
        }
        v
    }
    fn cfgs(l: usize) -> Vec<USCFConfig> {
        let ts: &[f64] = match l {
            0 => &[14.0],
            1 => &[0.0, 14.0, 6.5],
            2 => &[0.0, 1.0, 6.0, 6.5, 8.0, 10.0, 12.0, 14.0, 30.0],
            _ => &cat(&[&steps(0.0, 40.0, 0.5), &[0.1, 13.9, 14.1, 60.0, 100.0]]),
        };
        ts.iter().map(|&t| USCFConfig { t }).collect()
    }
    fn xs(_: usize) -> Vec<()> {
        vec![()]
    }
    fn c_variants(c: &USCFConfig) -> Vec<USCFConfig> {
        vec![USCFConfig { t: c.t + 3.0 }, USCFConfig { t: c.t + 0.25 }]
    }
    fn valid(r: &USCFRating) -> bool {
        r.rating >= 100.0
    }
    fn other_lines() -> Vec<USCFRating> {
        (0..=220).flat_map(|games| [640.25, 1500.0, 2107.25, 2400.0].map(|rating| USCFRating { rating, games })).collect()
    }
    fn r_variants(r: &USCFRating) -> Vec<USCFRating> {
        [3, 12, 80].into_iter().filter(|g| *g != r.games).map(|games| USCFRating { games, ..*r }).collect()
    }
    fn with_rating(r: &USCFRating, rating: f64) -> USCFRating {
        USCFRating { rating, ..*r }
    }
    fn ref_period(a: &USCFRating, rs: &[(USCFRating, Outcomes, ())], c: &USCFConfig) -> N4 {
        if rs.is_empty() {
            return Self::num(a);
        }
        let n = rs.len() as f64;
        let games = a.games as f64;
        let r = if a.games <= 8 {
            let sum: f64 = rs.iter().map(|(o, s, ())| o.rating + 400.0 * (2.0 * pts(*s) - 1.0)).sum();
            (games * a.rating + sum) / (games + n)
        } else {
            let s: f64 = rs.iter().map(|r| pts(r.1)).sum();
            let e: f64 = rs.iter().map(|r| refm::logistic10(a.rating - r.0.rating, 400.0)).sum();
            refm::uscf_established(a.rating, games, n, s, e, c.t)
        };
        [if r < 100.0 { 100.0 } else { r }, 0.0, 0.0, games + n]
    }
    fn ref_exp(a: &USCFRating, b: &USCFRating, _: (), _: &USCFConfig) -> f64 {
        refm::logistic10(a.rating - b.rating, 400.0)
    }
}

// ---------------------------------------------------------------- EGF
pub struct Egf;
impl Egf {
    fn shift(h: f64) -> f64 {
        if h == 0.0 { 0.0 } else { 100.0 * (h.abs() - 0.5) }
    }
}
impl Sys for Egf {
    const NAME: &'static str = "egf";
    type R = EGFRating;
    type C = ();
    type X = EGFConfig;
    fn rate(a: &EGFRating, b: &EGFRating, o: Outcomes, x: EGFConfig, _: &()) -> (EGFRating, EGFRating) {
        skillratings::egf::egf(a, b, &o, &x)
    }
    fn exp(a: &EGFRating, b: &EGFRating, x: EGFConfig, _: &()) -> (f64, f64) {
        skillratings::egf::expected_score(a, b, &x)
    }
    fn period(a: &EGFRating, rs: &[(EGFRating, Outcomes, EGFConfig)], _: &()) -> EGFRating {
        skillratings::egf::egf_rating_period(a, rs)
    }
    fn exp_period(a: &EGFRating, os: &[(EGFRating, EGFConfig)], _: &()) -> Vec<f64> {
        skillratings::egf::expected_score_rating_period(a, os)
    }
    fn num(r: &EGFRating) -> N4 {
        [r.rating, 0.0, 0.0, 0.0]
    }
    fn players(l: usize) -> Vec<EGFRating> {
        let mut v = match l {
            0 => vec![320.0, 1850.5],
            1 => vec![-899.0, -500.0, 100.0, 320.0, 1000.0, 1850.5, 2100.0, 2400.0],
            2 => cat(&[&[-900.0, -899.9, -880.0, 0.0, 2299.0, 2300.0, 2301.0, 2700.0, 2900.0], &steps(-850.0, 2500.0, 76.5)]),
            _ => cat(&[&[-900.0, -899.9, -890.0, -880.0, 0.0, 2700.0, 2900.0, 3290.0], &steps(-875.0, 3250.0, 15.5)]),
        };
        v.dedup();
        v.into_iter().map(|rating| EGFRating { rating }).collect()
    }
    fn other_lines() -> Vec<EGFRating> {
        steps(2400.0, 3290.0, 4.1).into_iter().map(|rating| EGFRating { rating }).collect()
    }
    fn cfgs(_: usize) -> Vec<()> {
        vec![()]
    }
    fn xs(l: usize) -> Vec<EGFConfig> {
        let hs: &[f64] = match l {
            0 => &[0.0],
            1 => &[0.0, 1.0, -4.0],
            2 => &[0.0, -0.0, 0.25, 0.5, -0.5, 1.0, -1.0, 2.0, -2.0, 3.5, -3.5, 4.0, -5.0, 6.0, -6.0, 7.0, -8.0, 9.0, -9.0],
            _ => &cat(&[&steps(-9.0, 9.0, 0.25), &[-0.1, 0.1, 0.01, -0.01, 0.499, 0.501, -0.499, -0.501, 0.999, 1.001, -0.999, -1.001]]),
        };
        hs.iter().map(|&handicap| EGFConfig { handicap }).collect()
    }
    fn mirror(x: EGFConfig, _: &()) -> (EGFConfig, ()) {
        (EGFConfig { handicap: -x.handicap }, ())
    }
    fn adv(x: EGFConfig, _: &()) -> f64 {
        -x.handicap.signum() * Self::shift(x.handicap)
    }
    fn valid(r: &EGFRating) -> bool {
        r.rating >= -900.0
    }
    fn dom(a: &EGFRating, b: &EGFRating, x: EGFConfig) -> bool {
        let s = Self::shift(x.handicap);
        if x.handicap.is_sign_negative() { a.rating + s < 3295.0 && b.rating < 3295.0 } else { b.rating + s < 3295.0 && a.rating < 3295.0 }
    }
    fn x_variants(x: EGFConfig) -> Vec<EGFConfig> {
        vec![EGFConfig { handicap: x.handicap + 1.0 }, EGFConfig { handicap: x.handicap - 2.0 }, EGFConfig { handicap: x.handicap + 0.25 }]
    }
    fn with_rating(_: &EGFRating, rating: f64) -> EGFRating {
        EGFRating { rating }
    }
    fn ref_period(a: &EGFRating, rs: &[(EGFRating, Outcomes, EGFConfig)], _: &()) -> N4 {
        let con = ((3300.0 - a.rating) / 200.0).powf(1.6);
        let bonus = refm::softplus((2300.0 - a.rating) / 80.0) / 5.0;
        let d: f64 = rs.iter().map(|(o, s, x)| con * (pts(*s) - Self::ref_exp(a, o, *x, &())) + bonus).sum();
        let r = a.rating + d;
        [if r < -900.0 { -900.0 } else { r }, 0.0, 0.0, 0.0]
    }
    fn ref_exp(a: &EGFRating, b: &EGFRating, x: EGFConfig, _: &()) -> f64 {
        let s = Self::shift(x.handicap);
        let (sa, sb) = if x.handicap < 0.0 { (s, 0.0) } else { (0.0, s) };
        // 1 / (1 + exp(beta(b) - beta(a))) with beta(r) = -7 ln(3300 - r)
        let t = ((3300.0 - a.rating - sa) / (3300.0 - b.rating - sb)).powi(7);
        1.0 / (1.0 + t)
    }
}

// ---------------------------------------------------------------- Glicko
pub struct Glicko;
impl Sys for Glicko {
    const NAME: &'static str = "glicko";
    const SHIFT: bool = true;
    const UNC: bool = true;
    type R = GlickoRating;
    type C = GlickoConfig;
    type X = ();
    fn rate(a: &GlickoRating, b: &GlickoRating, o: Outcomes, _: (), c: &GlickoConfig) -> (GlickoRating, GlickoRating) {
        skillratings::glicko::glicko(a, b, &o, c)
    }
    fn exp(a: &GlickoRating, b: &GlickoRating, _: (), _: &GlickoConfig) -> (f64, f64) {
        skillratings::glicko::expected_score(a, b)
    }
    fn period(a: &GlickoRating, rs: &[(GlickoRating, Outcomes, ())], c: &GlickoConfig) -> GlickoRating {
        let v: Vec<_> = rs.iter().map(|r| (r.0, r.1)).collect();
        skillratings::glicko::glicko_rating_period(a, &v, c)
    }
    fn exp_period(a: &GlickoRating, os: &[(GlickoRating, ())], _: &GlickoConfig) -> Vec<f64> {
        skillratings::glicko::expected_score_rating_period(a, &os.iter().map(|o| o.0).collect::<Vec<_>>())
    }
    fn num(r: &GlickoRating) -> N4 {
        [r.rating, r.deviation, 0.0, 0.0]
    }
    fn players(l: usize) -> Vec<GlickoRating> {
        mix2(l, ratings, devs).into_iter().map(|(rating, deviation)| GlickoRating { rating, deviation }).collect()
    }
    fn cfgs(l: usize) -> Vec<GlickoConfig> {
        let cs: &[f64] = match l {
            0 => &[63.2],
            1 => &[0.0, 34.6, 63.2],
            2 => &[0.0, 1.0, 15.0, 34.6, 63.2, 120.0, 350.0, 500.0],
            _ => &cat(&[&steps(0.0, 130.0, 1.25), &steps(0.0, 600.0, 10.0), &[0.01, 0.5, 34.6, 63.2]]),
        };
        cs.iter().map(|&c| GlickoConfig { c }).collect()
    }
    fn xs(_: usize) -> Vec<()> {
        vec![()]
    }
    fn c_variants(c: &GlickoConfig) -> Vec<GlickoConfig> {
        vec![GlickoConfig { c: c.c + 20.0 }, GlickoConfig { c: c.c + 0.25 }]
    }
    fn with_rating(r: &GlickoRating, rating: f64) -> GlickoRating {
        GlickoRating { rating, ..*r }
    }
    fn with_unc(r: &GlickoRating, deviation: f64) -> GlickoRating {
        GlickoRating { deviation, ..*r }
    }
    fn ref_period(a: &GlickoRating, rs: &[(GlickoRating, Outcomes, ())], c: &GlickoConfig) -> N4 {
        let v: Vec<_> = rs.iter().map(|(o, s, ())| (o.rating, o.deviation, pts(*s), 0.0)).collect();
        let (r, d) = refm::glicko(a.rating, a.deviation, &v, c.c, 0.0, 0.0, 0.0);
        [r, d, 0.0, 0.0]
    }
    fn decay(a: &GlickoRating, c: &GlickoConfig) -> Option<GlickoRating> {
        Some(skillratings::glicko::decay_deviation(a, c))
    }
    fn ci(a: &GlickoRating) -> Option<(f64, f64)> {
        Some(skillratings::glicko::confidence_interval(a))
    }
    fn ref_exp(a: &GlickoRating, b: &GlickoRating, _: (), _: &GlickoConfig) -> f64 {
        refm::glicko_exp(a.rating, a.deviation, b.rating, b.deviation, 0.0)
    }
    fn idle(a: &GlickoRating, c: &GlickoConfig) -> N4 {
        [a.rating, refm::decay(a.deviation, c.c), 0.0, 0.0]
    }
}

// ---------------------------------------------------------------- Glicko-2
pub struct Glicko2;
impl Sys for Glicko2 {
    const NAME: &'static str = "glicko2";
    const SHIFT: bool = true;
    const UNC: bool = true;
    type R = Glicko2Rating;
    type C = Glicko2Config;
    type X = ();
    fn rate(a: &Glicko2Rating, b: &Glicko2Rating, o: Outcomes, _: (), c: &Glicko2Config) -> (Glicko2Rating, Glicko2Rating) {
        skillratings::glicko2::glicko2(a, b, &o, c)
    }
    fn exp(a: &Glicko2Rating, b: &Glicko2Rating, _: (), _: &Glicko2Config) -> (f64, f64) {
        skillratings::glicko2::expected_score(a, b)
    }
    fn period(a: &Glicko2Rating, rs: &[(Glicko2Rating, Outcomes, ())], c: &Glicko2Config) -> Glicko2Rating {
        let v: Vec<_> = rs.iter().map(|r| (r.0, r.1)).collect();
        skillratings::glicko2::glicko2_rating_period(a, &v, c)
    }
    fn exp_period(a: &Glicko2Rating, os: &[(Glicko2Rating, ())], _: &Glicko2Config) -> Vec<f64> {
        skillratings::glicko2::expected_score_rating_period(a, &os.iter().map(|o| o.0).collect::<Vec<_>>())
    }
    fn num(r: &Glicko2Rating) -> N4 {
        [r.rating, r.deviation, r.volatility, 0.0]
    }
    fn players(l: usize) -> Vec<Glicko2Rating> {
        let mut v: Vec<_> = mix2(l, ratings, devs).into_iter().map(|(rating, deviation)| Glicko2Rating { rating, deviation, volatility: 0.06 }).collect();
        if l >= 1 {
            let vols: &[f64] = if l == 1 { &[0.03, 0.12] } else { &[0.001, 0.01, 0.02, 0.03, 0.059, 0.08, 0.12, 0.2, 0.5] };
            for (rating, deviation) in mix2(l - 1, ratings, devs) {
                v.extend(vols.iter().map(|&volatility| Glicko2Rating { rating, deviation, volatility }));
            }
        }
        v
    }
    fn cfgs(l: usize) -> Vec<Glicko2Config> {
        let cs: &[(f64, f64)] = match l {
            0 => &[(0.5, 1e-6)],
            1 => &[(0.5, 1e-6), (0.2, 1e-7), (1.2, 1e-6)],
            2 => &[(0.5, 1e-6), (0.2, 1e-7), (0.3, 1e-6), (0.75, 1e-8), (1.2, 1e-6), (0.1, 1e-6)],
            _ => &steps(0.025, 2.5, 0.025).into_iter().flat_map(|t| [(t, 1e-6), (t, 1e-9)]).chain([(0.5, 1e-7), (0.5, 1e-8), (0.5, 1e-10)]).collect::<Vec<_>>(),
        };
        cs.iter().map(|&(tau, convergence_tolerance)| Glicko2Config { tau, convergence_tolerance }).collect()
    }
    fn xs(_: usize) -> Vec<()> {
        vec![()]
    }
    fn c_variants(c: &Glicko2Config) -> Vec<Glicko2Config> {
        vec![Glicko2Config { tau: c.tau + 0.3, ..*c }, Glicko2Config { tau: c.tau + 0.005, ..*c }, Glicko2Config { convergence_tolerance: 0.05, ..*c }]
    }
    fn other_lines() -> Vec<Glicko2Rating> {
        (1..=120).flat_map(|i| [(1500.0, 350.0), (1800.0, 61.5)].map(|(rating, deviation)| Glicko2Rating { rating, deviation, volatility: 0.0025 * f64::from(i) })).collect()
    }
    fn r_variants(r: &Glicko2Rating) -> Vec<Glicko2Rating> {
        vec![Glicko2Rating { volatility: r.volatility + 0.02, ..*r }, Glicko2Rating { volatility: r.volatility + 1e-4, ..*r }]
    }
    fn with_rating(r: &Glicko2Rating, rating: f64) -> Glicko2Rating {
        Glicko2Rating { rating, ..*r }
    }
    fn with_unc(r: &Glicko2Rating, deviation: f64) -> Glicko2Rating {
        Glicko2Rating { deviation, ..*r }
    }
    fn ref_period(a: &Glicko2Rating, rs: &[(Glicko2Rating, Outcomes, ())], c: &Glicko2Config) -> N4 {
        let v: Vec<_> = rs.iter().map(|(o, s, ())| (o.rating, o.deviation, pts(*s))).collect();
        let (r, d, s) = refm::glicko2(a.rating, a.deviation, a.volatility, &v, c.tau);
        [r, d, s, 0.0]
    }
    fn decay(a: &Glicko2Rating, _: &Glicko2Config) -> Option<Glicko2Rating> {
        Some(skillratings::glicko2::decay_deviation(a))
    }
    fn ci(a: &Glicko2Rating) -> Option<(f64, f64)> {
        Some(skillratings::glicko2::confidence_interval(a))
    }
    fn ref_exp(a: &Glicko2Rating, b: &Glicko2Rating, _: (), _: &Glicko2Config) -> f64 {
        let k = 173.7178;
        let g = refm::g2((a.deviation / k).hypot(b.deviation / k));
        refm::sigmoid(g * (a.rating - b.rating) / k)
    }
    fn idle(a: &Glicko2Rating, _: &Glicko2Config) -> N4 {
        [a.rating, refm::decay(a.deviation, a.volatility * 173.7178), a.volatility, 0.0]
    }
}

// ---------------------------------------------------------------- Sticko
pub struct Sticko;
impl Sys for Sticko {
    const NAME: &'static str = "sticko";
    const SHIFT: bool = true;
    const UNC: bool = true;
    type R = StickoRating;
    type C = StickoConfig;
    type X = bool;
    fn rate(a: &StickoRating, b: &StickoRating, o: Outcomes, x: bool, c: &StickoConfig) -> (StickoRating, StickoRating) {
        if x {
            skillratings::sticko::sticko(a, b, &o, c)
        } else {
            let (q, p) = skillratings::sticko::sticko(b, a, &inv(o), c);
            (p, q)
        }
    }
    fn exp(a: &StickoRating, b: &StickoRating, x: bool, c: &StickoConfig) -> (f64, f64) {
        if x {
            skillratings::sticko::expected_score(a, b, c)
        } else {
            let (q, p) = skillratings::sticko::expected_score(b, a, c);
            (p, q)
        }
    }
    fn period(a: &StickoRating, rs: &[(StickoRating, Outcomes, bool)], c: &StickoConfig) -> StickoRating {
        skillratings::sticko::sticko_rating_period(a, rs, c)
    }
    fn exp_period(a: &StickoRating, os: &[(StickoRating, bool)], c: &StickoConfig) -> Vec<f64> {
        skillratings::sticko::expected_score_rating_period(a, os, c)
    }
    fn num(r: &StickoRating) -> N4 {
        [r.rating, r.deviation, 0.0, 0.0]
    }
    fn players(l: usize) -> Vec<StickoRating> {
        mix2(l, ratings, devs).into_iter().map(|(rating, deviation)| StickoRating { rating, deviation }).collect()
    }
    fn cfgs(l: usize) -> Vec<StickoConfig> {
        let d = StickoConfig { h: 10.0, beta: 0.0, lambda: 2.0, gamma: 0.0, c: 10.0 };
        let mut v = vec![d, StickoConfig { h: 20.0, beta: 0.05, lambda: 1.0, gamma: 30.0, c: 34.6 }];
        if l >= 1 {
            v.push(StickoConfig { h: 0.0, beta: 0.0, lambda: 0.0, gamma: 25.5, c: 63.2 });
        }
        if l >= 2 {
            v.push(StickoConfig { h: 0.0, beta: 0.0, lambda: 0.0, gamma: 0.0, c: 0.0 });
            v.push(StickoConfig { gamma: -40.0, ..d });
            v.push(StickoConfig { h: 900.0, ..d });
            v.push(StickoConfig { beta: 0.2, ..d });
            v.push(StickoConfig { lambda: 5.0, ..d });
            v.push(StickoConfig { c: 200.0, h: 3000.0, gamma: 300.0, ..d });
        }
        if l >= 3 {
            let e = v[1];
            for b in [d, e] {
                v.extend(steps(0.0, 600.0, 6.25).into_iter().chain([1.0, 5.0, 2000.0]).map(|h| StickoConfig { h, ..b }));
                v.extend(steps(0.0, 0.5, 0.0125).into_iter().map(|beta| StickoConfig { beta, ..b }));
                v.extend(steps(0.0, 20.0, 0.5).into_iter().chain([35.0, 60.0]).map(|lambda| StickoConfig { lambda, ..b }));
                v.extend(steps(-150.0, 150.0, 2.5).into_iter().map(|gamma| StickoConfig { gamma, ..b }));
                v.extend(cat(&[&steps(0.0, 130.0, 2.5), &steps(0.0, 600.0, 25.0)]).into_iter().map(|c| StickoConfig { c, ..b }));
            }
        }
        v
    }
    fn xs(_: usize) -> Vec<bool> {
        vec![true, false]
    }
    fn mirror(x: bool, c: &StickoConfig) -> (bool, StickoConfig) {
        (x, StickoConfig { gamma: -c.gamma, ..*c })
    }
    fn adv(x: bool, c: &StickoConfig) -> f64 {
        if x { c.gamma } else { -c.gamma }
    }
    fn c_variants(c: &StickoConfig) -> Vec<StickoConfig> {
        vec![StickoConfig { h: c.h + 15.0, ..*c }, StickoConfig { beta: c.beta + 0.07, ..*c }, StickoConfig { lambda: c.lambda + 3.0, ..*c }, StickoConfig { gamma: c.gamma + 12.0, ..*c }, StickoConfig { c: c.c + 30.0, ..*c }]
    }
    fn first_side(x: bool) -> bool {
        x
    }
    fn x_variants(x: bool) -> Vec<bool> {
        vec![!x]
    }
    fn with_rating(r: &StickoRating, rating: f64) -> StickoRating {
        StickoRating { rating, ..*r }
    }
    fn with_unc(r: &StickoRating, deviation: f64) -> StickoRating {
        StickoRating { deviation, ..*r }
    }
    fn ref_period(a: &StickoRating, rs: &[(StickoRating, Outcomes, bool)], c: &StickoConfig) -> N4 {
        let v: Vec<_> = rs.iter().map(|(o, s, x)| (o.rating, o.deviation, pts(*s), if *x { c.gamma } else { -c.gamma })).collect();
        let (r, d) = refm::glicko(a.rating, a.deviation, &v, c.c, c.h, c.beta, c.lambda);
        [r, d, 0.0, 0.0]
    }
    fn decay(a: &StickoRating, c: &StickoConfig) -> Option<StickoRating> {
        Some(skillratings::sticko::decay_deviation(a, c))
    }
    fn ci(a: &StickoRating) -> Option<(f64, f64)> {
        Some(skillratings::sticko::confidence_interval(a))
    }
    fn ref_exp(a: &StickoRating, b: &StickoRating, x: bool, c: &StickoConfig) -> f64 {
        refm::glicko_exp(a.rating, a.deviation, b.rating, b.deviation, Self::adv(x, c))
    }
    fn idle(a: &StickoRating, c: &StickoConfig) -> N4 {
        [a.rating, refm::decay(a.deviation, c.c), 0.0, 0.0]
    }
}

// ---------------------------------------------------------------- Glicko-Boost
pub struct GBoost;
impl Sys for GBoost {
    const NAME: &'static str = "glicko_boost";
    const UNC: bool = true;
    type R = GlickoBoostRating;
    type C = GlickoBoostConfig;
    type X = bool;
    fn rate(a: &GlickoBoostRating, b: &GlickoBoostRating, o: Outcomes, x: bool, c: &GlickoBoostConfig) -> (GlickoBoostRating, GlickoBoostRating) {
        if x {
            skillratings::glicko_boost::glicko_boost(a, b, &o, c)
        } else {
            let (q, p) = skillratings::glicko_boost::glicko_boost(b, a, &inv(o), c);
            (p, q)
        }
    }
    fn exp(a: &GlickoBoostRating, b: &GlickoBoostRating, x: bool, c: &GlickoBoostConfig) -> (f64, f64) {
        if x {
            skillratings::glicko_boost::expected_score(a, b, c)
        } else {
            let (q, p) = skillratings::glicko_boost::expected_score(b, a, c);
            (p, q)
        }
    }
    fn period(a: &GlickoBoostRating, rs: &[(GlickoBoostRating, Outcomes, bool)], c: &GlickoBoostConfig) -> GlickoBoostRating {
        skillratings::glicko_boost::glicko_boost_rating_period(a, rs, c)
    }
    fn exp_period(a: &GlickoBoostRating, os: &[(GlickoBoostRating, bool)], c: &GlickoBoostConfig) -> Vec<f64> {
        skillratings::glicko_boost::expected_score_rating_period(a, os, c)
    }
    fn num(r: &GlickoBoostRating) -> N4 {
        [r.rating, r.deviation, 0.0, 0.0]
    }
    fn players(l: usize) -> Vec<GlickoBoostRating> {
        mix2(l, ratings, devs).into_iter().map(|(rating, deviation)| GlickoBoostRating { rating, deviation }).collect()
    }
    fn cfgs(l: usize) -> Vec<GlickoBoostConfig> {
        let alpha = (5.83733, -1.75374e-04, -7.080124e-05, 0.001733792, 0.00026706);
        let d = GlickoBoostConfig { eta: 30.0, k: 1.96, b: (0.20139, 17.5), alpha };
        let mut v = vec![d];
        if l >= 1 {
            v.push(GlickoBoostConfig { eta: 0.0, ..d });
            v.push(GlickoBoostConfig { eta: 45.5, k: 0.7, b: (0.4, 30.0), ..d });
        }
        if l >= 2 {
            v.push(GlickoBoostConfig { k: 0.0, ..d });
            v.push(GlickoBoostConfig { k: 3.5, b: (0.0, 0.0), ..d });
            v.push(GlickoBoostConfig { eta: -25.0, k: 0.1, ..d });
            v.push(GlickoBoostConfig { alpha: (8.0, -0.001, 0.0005, 0.1, 0.02), ..d });
            v.push(GlickoBoostConfig { alpha: (1.0, 0.0, 0.0, 0.0, 0.0), b: (1.5, 100.0), ..d });
        }
        if l >= 3 {
            for b in [d, v[2]] {
                v.extend(steps(-100.0, 100.0, 2.5).into_iter().map(|eta| GlickoBoostConfig { eta, ..b }));
                v.extend(steps(0.05, 4.0, 0.079).into_iter().map(|k| GlickoBoostConfig { k, ..b }));
                v.extend(steps(0.0, 1.5, 0.05).into_iter().map(|x| GlickoBoostConfig { b: (x, b.b.1), ..b }));
                v.extend(steps(0.0, 120.0, 4.0).into_iter().map(|x| GlickoBoostConfig { b: (b.b.0, x), ..b }));
                v.extend(steps(-4.0, 9.0, 0.5).into_iter().map(|x| GlickoBoostConfig { alpha: (x, alpha.1, alpha.2, alpha.3, alpha.4), ..b }));
                v.extend(steps(-1e-3, 1e-3, 1e-4).into_iter().map(|x| GlickoBoostConfig { alpha: (alpha.0, x, alpha.2, alpha.3, alpha.4), ..b }));
                v.extend(steps(-3e-4, 3e-4, 5e-5).into_iter().map(|x| GlickoBoostConfig { alpha: (alpha.0, alpha.1, x, alpha.3, alpha.4), ..b }));
                v.extend(steps(-0.01, 0.01, 1e-3).into_iter().map(|x| GlickoBoostConfig { alpha: (alpha.0, alpha.1, alpha.2, x, alpha.4), ..b }));
                v.extend(steps(-0.002, 0.002, 2e-4).into_iter().map(|x| GlickoBoostConfig { alpha: (alpha.0, alpha.1, alpha.2, alpha.3, x), ..b }));
            }
        }
        v
    }
    fn xs(_: usize) -> Vec<bool> {
        vec![true, false]
    }
    fn mirror(x: bool, c: &GlickoBoostConfig) -> (bool, GlickoBoostConfig) {
        (x, GlickoBoostConfig { eta: -c.eta, ..*c })
    }
    fn adv(x: bool, c: &GlickoBoostConfig) -> f64 {
        if x { c.eta } else { -c.eta }
    }
    fn c_variants(c: &GlickoBoostConfig) -> Vec<GlickoBoostConfig> {
        let a = c.alpha;
        vec![
            GlickoBoostConfig { eta: c.eta + 15.0, ..*c },
            GlickoBoostConfig { k: 0.4, ..*c },
            GlickoBoostConfig { b: (c.b.0 + 0.3, c.b.1), ..*c },
            GlickoBoostConfig { b: (c.b.0, c.b.1 + 40.0), ..*c },
            GlickoBoostConfig { alpha: (a.0 + 2.0, a.1, a.2, a.3, a.4), ..*c },
            GlickoBoostConfig { alpha: (a.0, a.1 * 3.0, a.2, a.3, a.4), ..*c },
            GlickoBoostConfig { alpha: (a.0, a.1, a.2 * 3.0, a.3, a.4), ..*c },
            GlickoBoostConfig { alpha: (a.0, a.1, a.2, a.3 * 3.0, a.4), ..*c },
            GlickoBoostConfig { alpha: (a.0, a.1, a.2, a.3, a.4 * 3.0), ..*c },
        ]
    }
    fn first_side(x: bool) -> bool {
        x
    }
    fn x_variants(x: bool) -> Vec<bool> {
        vec![!x]
    }
    fn with_rating(r: &GlickoBoostRating, rating: f64) -> GlickoBoostRating {
        GlickoBoostRating { rating, ..*r }
    }
    fn with_unc(r: &GlickoBoostRating, deviation: f64) -> GlickoBoostRating {
        GlickoBoostRating { deviation, ..*r }
    }
    fn ref_period(a: &GlickoBoostRating, rs: &[(GlickoBoostRating, Outcomes, bool)], c: &GlickoBoostConfig) -> N4 {
        let v: Vec<_> = rs.iter().map(|(o, s, x)| (o.rating, o.deviation, pts(*s), if *x { c.eta } else { -c.eta })).collect();
        let al = [c.alpha.0, c.alpha.1, c.alpha.2, c.alpha.3, c.alpha.4];
        let (r, d) = refm::glicko_boost(a.rating, a.deviation, &v, c.k, c.b, &al);
        [r, d, 0.0, 0.0]
    }
    fn boosted(a: &GlickoBoostRating, rs: &[(GlickoBoostRating, Outcomes, bool)], c: &GlickoBoostConfig) -> bool {
        let v: Vec<_> = rs.iter().map(|(o, s, x)| (o.rating, o.deviation, pts(*s), if *x { c.eta } else { -c.eta })).collect();
        c.k != 0.0 && refm::boost_z(a.rating, &v) > c.k
    }
    fn decay(a: &GlickoBoostRating, c: &GlickoBoostConfig) -> Option<GlickoBoostRating> {
        Some(skillratings::glicko_boost::decay_deviation(a, c))
    }
    fn ci(a: &GlickoBoostRating) -> Option<(f64, f64)> {
        Some(skillratings::glicko_boost::confidence_interval(a))
    }
    fn ref_exp(a: &GlickoBoostRating, b: &GlickoBoostRating, x: bool, c: &GlickoBoostConfig) -> f64 {
        refm::glicko_exp(a.rating, a.deviation, b.rating, b.deviation, Self::adv(x, c))
    }
    fn idle(a: &GlickoBoostRating, c: &GlickoBoostConfig) -> N4 {
        let al = [c.alpha.0, c.alpha.1, c.alpha.2, c.alpha.3, c.alpha.4];
        [a.rating, refm::boost_decay(a.rating, a.deviation, &al), 0.0, 0.0]
    }
}

// ---------------------------------------------------------------- Weng-Lin
pub struct Wl;
impl Sys for Wl {
    const NAME: &'static str = "weng_lin";
    const SEQ: bool = true;
    const SHIFT: bool = true;
    const UNC: bool = true;
    type R = WengLinRating;
    type C = WengLinConfig;
    type X = ();
    fn rate(a: &WengLinRating, b: &WengLinRating, o: Outcomes, _: (), c: &WengLinConfig) -> (WengLinRating, WengLinRating) {
        skillratings::weng_lin::weng_lin(a, b, &o, c)
    }
    fn exp(a: &WengLinRating, b: &WengLinRating, _: (), c: &WengLinConfig) -> (f64, f64) {
        skillratings::weng_lin::expected_score(a, b, c)
    }
    fn period(a: &WengLinRating, rs: &[(WengLinRating, Outcomes, ())], c: &WengLinConfig) -> WengLinRating {
        let v: Vec<_> = rs.iter().map(|r| (r.0, r.1)).collect();
        skillratings::weng_lin::weng_lin_rating_period(a, &v, c)
    }
    fn exp_period(a: &WengLinRating, os: &[(WengLinRating, ())], c: &WengLinConfig) -> Vec<f64> {
        skillratings::weng_lin::expected_score_rating_period(a, &os.iter().map(|o| o.0).collect::<Vec<_>>(), c)
    }
    fn num(r: &WengLinRating) -> N4 {
        [r.rating, r.uncertainty, 0.0, 0.0]
    }
    fn players(l: usize) -> Vec<WengLinRating> {
        mix2(l, wl_ratings, wl_uncs).into_iter().map(|(rating, uncertainty)| WengLinRating { rating, uncertainty }).collect()
    }
    fn cfgs(l: usize) -> Vec<WengLinConfig> {
        let b = 25.0 / 6.0;
        let cs: &[(f64, f64)] = match l {
            0 => &[(b, 1e-6)],
            1 => &[(b, 1e-6), (1.5, 0.5), (9.0, 1e-4)],
            2 => &[(b, 1e-6), (0.5, 1e-6), (1.5, 0.9), (3.0, 0.5), (9.0, 1e-4), (40.0, 1e-6), (b, 0.97), (0.05, 0.8)],
            _ => &cat(&[&steps(0.125, 12.0, 0.125), &steps(1.0, 60.0, 1.0), &[b]]).into_iter().map(|x| (x, 1e-6)).chain(steps(0.02, 0.98, 0.03).into_iter().map(|t| (b, t))).chain([(b, 1e-9), (b, 1e-3), (1.5, 0.99)]).collect::<Vec<_>>(),
        };
        cs.iter().map(|&(beta, uncertainty_tolerance)| WengLinConfig { beta, uncertainty_tolerance }).collect()
    }
    fn xs(_: usize) -> Vec<()> {
        vec![()]
    }
    fn c_variants(c: &WengLinConfig) -> Vec<WengLinConfig> {
        vec![WengLinConfig { beta: c.beta * 1.7, ..*c }, WengLinConfig { beta: c.beta + 0.01, ..*c }, WengLinConfig { uncertainty_tolerance: 0.98, ..*c }]
    }
    fn with_rating(r: &WengLinRating, rating: f64) -> WengLinRating {
        WengLinRating { rating, ..*r }
    }
    fn with_unc(r: &WengLinRating, uncertainty: f64) -> WengLinRating {
        WengLinRating { uncertainty, ..*r }
    }
    fn ref_period(a: &WengLinRating, rs: &[(WengLinRating, Outcomes, ())], c: &WengLinConfig) -> N4 {
        let mut p = (a.rating, a.uncertainty);
        for (o, s, ()) in rs {
            let t = vec![(vec![p], 0.0), (vec![(o.rating, o.uncertainty)], pts(*s) - 0.5)];
            p = refm::weng_lin(&t, c.beta, c.uncertainty_tolerance)[0][0];
        }
        [p.0, p.1, 0.0, 0.0]
    }
    fn ref_exp(a: &WengLinRating, b: &WengLinRating, _: (), c: &WengLinConfig) -> f64 {
        let cc = (a.uncertainty * a.uncertainty + b.uncertainty * b.uncertainty + 2.0 * c.beta * c.beta).sqrt();
        refm::sigmoid((a.rating - b.rating) / cc)
    }
}

// ---------------------------------------------------------------- TrueSkill
pub struct Ts;
impl Sys for Ts {
    const NAME: &'static str = "trueskill";
    const SEQ: bool = true;
    const SHIFT: bool = true;
    const UNC: bool = true;
    const ETOL: f64 = 3e-7;
    type R = TrueSkillRating;
    type C = TrueSkillConfig;
    type X = ();
    fn rate(a: &TrueSkillRating, b: &TrueSkillRating, o: Outcomes, _: (), c: &TrueSkillConfig) -> (TrueSkillRating, TrueSkillRating) {
        skillratings::trueskill::trueskill(a, b, &o, c)
    }
    fn exp(a: &TrueSkillRating, b: &TrueSkillRating, _: (), c: &TrueSkillConfig) -> (f64, f64) {
        skillratings::trueskill::expected_score(a, b, c)
    }
    fn period(a: &TrueSkillRating, rs: &[(TrueSkillRating, Outcomes, ())], c: &TrueSkillConfig) -> TrueSkillRating {
        let v: Vec<_> = rs.iter().map(|r| (r.0, r.1)).collect();
        skillratings::trueskill::trueskill_rating_period(a, &v, c)
    }
    fn exp_period(a: &TrueSkillRating, os: &[(TrueSkillRating, ())], c: &TrueSkillConfig) -> Vec<f64> {
        skillratings::trueskill::expected_score_rating_period(a, &os.iter().map(|o| o.0).collect::<Vec<_>>(), c)
    }
    fn num(r: &TrueSkillRating) -> N4 {
        [r.rating, r.uncertainty, 0.0, 0.0]
    }
    fn players(l: usize) -> Vec<TrueSkillRating> {
        mix2(l, wl_ratings, wl_uncs).into_iter().map(|(rating, uncertainty)| TrueSkillRating { rating, uncertainty }).collect()
    }
    fn cfgs(l: usize) -> Vec<TrueSkillConfig> {
        let b = 25.0 / 6.0;
        let cs: &[(f64, f64, f64)] = match l {
            0 => &[(0.1, b, 25.0 / 300.0)],
            1 => &[(0.1, b, 25.0 / 300.0), (0.3, 2.0, 0.0), (0.02, 8.0, 0.5)],
            2 => &[(0.1, b, 25.0 / 300.0), (0.3, 2.0, 0.0), (0.02, 8.0, 0.5), (0.5, b, 0.2), (0.9, 1.0, 0.05), (0.25, 20.0, 1.0), (0.05, 0.8, 0.0833)],
            _ => &{
                let t = 25.0 / 300.0;
                let mut v: Vec<(f64, f64, f64)> = cat(&[&steps(0.01, 0.95, 0.01), &[0.0, 0.001, 0.1, 0.5, 0.99]]).into_iter().map(|p| (p, b, t)).collect();
                v.extend(cat(&[&[0.03, 0.2], &steps(0.5, 12.0, 0.125), &steps(1.0, 40.0, 1.0)]).into_iter().map(|x| (0.1, x, t)));
                v.extend(cat(&[&steps(0.0, 2.0, 0.025), &[0.01, 2.5, 4.0, 8.0]]).into_iter().map(|x| (0.1, b, x)));
                v
            },
        };
        cs.iter().map(|&(draw_probability, beta, dynamics_factor)| TrueSkillConfig { draw_probability, beta, dynamics_factor }).collect()
    }
    fn xs(_: usize) -> Vec<()> {
        vec![()]
    }
    fn dynamics(c: &TrueSkillConfig) -> f64 {
        c.dynamics_factor
    }
    fn outs(c: &TrueSkillConfig) -> &'static [Outcomes] {
        if c.draw_probability > 0.0 { &OUT } else { &[Outcomes::WIN, Outcomes::LOSS] }
    }
    fn c_variants(c: &TrueSkillConfig) -> Vec<TrueSkillConfig> {
        vec![
            TrueSkillConfig { beta: c.beta * 1.7, ..*c },
            TrueSkillConfig { beta: c.beta + 0.01, ..*c },
            TrueSkillConfig { draw_probability: c.draw_probability + 0.2, ..*c },
            TrueSkillConfig { draw_probability: c.draw_probability + 0.002, ..*c },
            TrueSkillConfig { dynamics_factor: c.dynamics_factor + 0.7, ..*c },
        ]
    }
    fn with_rating(r: &TrueSkillRating, rating: f64) -> TrueSkillRating {
        TrueSkillRating { rating, ..*r }
    }
    fn with_unc(r: &TrueSkillRating, uncertainty: f64) -> TrueSkillRating {
        TrueSkillRating { uncertainty, ..*r }
    }
    fn ref_period(a: &TrueSkillRating, rs: &[(TrueSkillRating, Outcomes, ())], c: &TrueSkillConfig) -> N4 {
        let mut p = (a.rating, a.uncertainty);
        for (o, s, ()) in rs {
            p = refm::ts_two(&[p], &[(o.rating, o.uncertainty)], pts(*s), c.draw_probability, c.beta, c.dynamics_factor, refm::ERFCC).0[0];
        }
        [p.0, p.1, 0.0, 0.0]
    }
    fn ref_exp(a: &TrueSkillRating, b: &TrueSkillRating, _: (), c: &TrueSkillConfig) -> f64 {
        let cc = (a.uncertainty * a.uncertainty + b.uncertainty * b.uncertainty + 2.0 * c.beta * c.beta).sqrt();
        refm::cdf(refm::EXACT, (a.rating - b.rating) / cc)
    }
}

/// Runs a generic function for each of the twelve systems.
#[macro_export]
macro_rules! for_all {
    ($f:ident, $ctx:expr) => {{
        use $crate::sys::*;
        $f::<Elo>($ctx);
        $f::<Fifa>($ctx);
        $f::<Ingo>($ctx);
        $f::<Dwz>($ctx);
        $f::<Uscf>($ctx);
        $f::<Egf>($ctx);
        $f::<Glicko>($ctx);
        $f::<Glicko2>($ctx);
        $f::<Sticko>($ctx);
        $f::<GBoost>($ctx);
        $f::<Wl>($ctx);
        $f::<Ts>($ctx);
    }};
}
