//! Independent, boring reference model: the published formulas, written down directly.
use std::f64::consts::{LN_10, PI, SQRT_2};

pub fn sigmoid(x: f64) -> f64 {
    1.0 / (1.0 + (-x).exp())
}
/// 1 / (1 + 10^(-d/scale))
pub fn logistic10(d: f64, scale: f64) -> f64 {
    sigmoid(d * LN_10 / scale)
}
pub fn softplus(x: f64) -> f64 {
    if x > 30.0 { x + (-x).exp() } else { x.exp().ln_1p() }
}

/// Development coefficient of the DWZ.
pub fn dwz_coefficient(rating: f64, age: usize, index: usize, w: f64, we: f64) -> f64 {
    let j = if age <= 20 { 5.0 } else if age <= 25 { 10.0 } else { 15.0 };
    let e0 = (rating / 1000.0) * (rating / 1000.0) * (rating / 1000.0) * (rating / 1000.0) + j;
    let a = if age < 20 && w >= we { rating / 2000.0 } else { 1.0 };
    let b = if rating < 1300.0 && w <= we { ((1300.0 - rating) / 150.0).exp() - 1.0 } else { 0.0 };
    let e = a * e0 + b;
    let cap = if b == 0.0 { f64::min(30.0, 5.0 * index as f64).max(5.0) } else { 150.0 };
    if e <= 5.0 { 5.0 } else if e > cap { cap } else { e }
}

pub fn uscf_established(rating: f64, games: f64, n: f64, s: f64, e: f64, t: f64) -> f64 {
    let n_star = if rating < 2355.0 { 50.0 / (0.662 + 0.00000739 * (2569.0 - rating) * (2569.0 - rating)).sqrt() } else { 50.0 };
    let ne = f64::min(n_star, f64::min(games, 50.0));
    let k = 800.0 / (ne + n);
    let d = k * (s - e);
    let bonus = if n < 3.0 { 0.0 } else { f64::max(0.0, d - t * f64::max(n, 4.0).sqrt()) };
    rating + d + bonus
}

pub fn decay(d: f64, c: f64) -> f64 {
    f64::min((d * d + c * c).sqrt(), 350.0)
}

const Q: f64 = LN_10 / 400.0;
pub fn g(d: f64) -> f64 {
    1.0 / (1.0 + 3.0 * Q * Q * d * d / (PI * PI)).sqrt()
}
pub fn glicko_exp(r: f64, d: f64, ro: f64, dj: f64, adv: f64) -> f64 {
    logistic10(g((d * d + dj * dj).sqrt()) * (r + adv - ro), 400.0)
}
/// Glicko with Stephenson's h, beta, lambda and per-game advantage. opp: (rating, deviation, score, advantage).
pub fn glicko(r: f64, d: f64, opp: &[(f64, f64, f64, f64)], c: f64, h: f64, beta: f64, lambda: f64) -> (f64, f64) {
    let pre = decay(d, c);
    if opp.is_empty() {
        return (r, pre);
    }
    let n = opp.len() as f64;
    let (mut info, mut m, mut avg) = (0.0, 0.0, 0.0);
    for &(ro, dj, s, adv) in opp {
        let gj = g(dj);
        let x = gj * (r + adv - ro);
        let e = logistic10(x, 400.0);
        info += Q * Q * gj * gj * e * logistic10(-x, 400.0);
        m += gj * (s - e + beta);
        avg += ro / n;
    }
    let r2 = r + Q / (1.0 / (pre * pre) + info) * m + lambda / 100.0 * (avg - r);
    let d2 = (1.0 / (1.0 / (pre * pre + h * n) + info)).sqrt();
    (r2, d2.min(350.0))
}

pub fn boost_decay(r: f64, d: f64, a: &[f64; 5]) -> f64 {
    let k = r / 1000.0;
    (d * d + (a[0] + a[1] * d + a[2] * d * k + a[3] * k + a[4] * k * k).exp()).sqrt().min(350.0)
}
/// How exceptional the performance of a period is, in standard deviations.
pub fn boost_z(r: f64, opp: &[(f64, f64, f64, f64)]) -> f64 {
    let (mut info, mut m) = (0.0, 0.0);
    for &(ro, dj, s, adv) in opp {
        let x = g(dj) * (r + adv - ro);
        info += g(dj) * g(dj) * logistic10(x, 400.0) * logistic10(-x, 400.0);
        m += g(dj) * (s - logistic10(x, 400.0));
    }
    m / info.sqrt()
}
pub fn glicko_boost(r: f64, d: f64, opp: &[(f64, f64, f64, f64)], k: f64, b: (f64, f64), a: &[f64; 5]) -> (f64, f64) {
    if opp.is_empty() {
        return (r, boost_decay(r, d, a));
    }
    let (mut info, mut m) = (0.0, 0.0);
    for &(ro, dj, s, adv) in opp {
        let gj = g(dj);
        let x = gj * (r + adv - ro);
        let e = logistic10(x, 400.0);
        info += gj * gj * e * logistic10(-x, 400.0);
        m += gj * (s - e);
    }
    let inv_d2 = Q * Q * info;
    let z = m / info.sqrt();
    let post = |pre: f64| (1.0 / (1.0 / (pre * pre) + inv_d2)).sqrt();
    let nd = if k != 0.0 && z > k { post((1.0 + (z - k) * b.0) * post(d) + b.1) } else { post(d) }.min(350.0);
    let r2 = r + nd * nd * Q * m;
    (r2, boost_decay(r2, nd, a))
}

// ---------------------------------------------------------------- Glicko-2
const K2: f64 = 173.7178;
pub fn g2(phi: f64) -> f64 {
    1.0 / (1.0 + 3.0 * phi * phi / (PI * PI)).sqrt()
}
/// (v, sum g(s-e)) on the Glicko-2 scale
pub fn glicko2_stats(r: f64, opp: &[(f64, f64, f64)]) -> (f64, f64) {
    let (mut info, mut m) = (0.0, 0.0);
    for &(ro, dj, s) in opp {
        let gj = g2(dj / K2);
        let x = gj * (r - ro) / K2;
        let e = sigmoid(x);
        info += gj * gj * e * sigmoid(-x);
        // s - e without cancellation
        m += gj * if s == 1.0 { sigmoid(-x) } else { s - e };
    }
    (1.0 / info, m)
}
pub fn vol_f(x: f64, delta2: f64, phi2: f64, v: f64, sigma: f64, tau: f64) -> f64 {
    let ex = x.exp();
    let den = phi2 + v + ex;
    ex * (delta2 - phi2 - v - ex) / (2.0 * den * den) - (x - (sigma * sigma).ln()) / (tau * tau)
}
/// Root of the volatility equation by plain bisection.
pub fn volatility(delta2: f64, phi2: f64, v: f64, sigma: f64, tau: f64) -> f64 {
    let a = (sigma * sigma).ln();
    let b = if delta2 > phi2 + v {
        (delta2 - phi2 - v).ln()
    } else {
        let mut k = 1.0;
        while vol_f(a - k * tau, delta2, phi2, v, sigma, tau) < 0.0 {
            k += 1.0;
        }
        a - k * tau
    };
    let (mut lo, mut hi) = if a < b { (a, b) } else { (b, a) };
    for _ in 0..200 {
        let mid = 0.5 * (lo + hi);
        if vol_f(mid, delta2, phi2, v, sigma, tau) > 0.0 { lo = mid } else { hi = mid }
    }
    (0.25 * (lo + hi)).exp()
}
pub fn glicko2(r: f64, d: f64, sigma: f64, opp: &[(f64, f64, f64)], tau: f64) -> (f64, f64, f64) {
    if opp.is_empty() {
        return (r, decay(d, sigma * K2), sigma);
    }
    let phi = d / K2;
    let (v, m) = glicko2_stats(r, opp);
    let delta = v * m;
    let s2 = if v.is_finite() && v < 1e13 { volatility(delta * delta, phi * phi, v, sigma, tau) } else { sigma };
    let star2 = phi * phi + s2 * s2;
    let nv = 1.0 / (1.0 / star2 + 1.0 / v);
    (r + K2 * nv * m, K2 * nv.sqrt(), s2)
}

// ---------------------------------------------------------------- Weng-Lin (Bradley-Terry, full pair)
pub type P = (f64, f64);
pub fn weng_lin(teams: &[(Vec<P>, f64)], beta: f64, kappa: f64) -> Vec<Vec<P>> {
    let mu: Vec<f64> = teams.iter().map(|t| t.0.iter().map(|p| p.0).sum()).collect();
    let var: Vec<f64> = teams.iter().map(|t| t.0.iter().map(|p| p.1 * p.1).sum()).collect();
    (0..teams.len())
        .map(|i| {
            let (mut om, mut de) = (0.0, 0.0);
            for q in 0..teams.len() {
                if q != i {
                    let c = (var[i] + var[q] + 2.0 * beta * beta).sqrt();
                    let p = sigmoid((mu[i] - mu[q]) / c);
                    let s = if teams[q].1 > teams[i].1 { 1.0 } else if teams[q].1 == teams[i].1 { 0.5 } else { 0.0 };
                    om += var[i] / c * (s - p);
                    de += var[i].sqrt() / c * var[i] / (c * c) * p * sigmoid((mu[q] - mu[i]) / c);
                }
            }
            teams[i].0.iter().map(|p| (p.0 + p.1 * p.1 / var[i] * om, p.1 * f64::max(1.0 - p.1 * p.1 / var[i] * de, kappa).sqrt())).collect()
        })
        .collect()
}

// ---------------------------------------------------------------- TrueSkill
/// Which error function: the exact one, or the Chebyshev fit of Numerical Recipes (fractional error 1.2e-7).
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Erf {
    Exact,
    Nr,
}
pub const EXACT: Erf = Erf::Exact;
pub const ERFCC: Erf = Erf::Nr;

fn erfc(k: Erf, x: f64) -> f64 {
    if k == Erf::Exact {
        return libm::erfc(x);
    }
    let z = x.abs();
    let t = 1.0 / (1.0 + 0.5 * z);
    const C: [f64; 10] = [-1.26551223, 1.00002368, 0.37409196, 0.09678418, -0.18628806, 0.27886807, -1.13520398, 1.48851587, -0.82215223, 0.17087277];
    let mut p = 0.0;
    for c in C.iter().rev() {
        p = p * t + c;
    }
    let r = t * (-z * z + p).exp();
    if x < 0.0 { 2.0 - r } else { r }
}
pub fn cdf(k: Erf, x: f64) -> f64 {
    0.5 * erfc(k, -x / SQRT_2)
}
pub fn pdf(x: f64) -> f64 {
    (-x * x / 2.0).exp() / (2.0 * PI).sqrt()
}
/// x with cdf(x) = p for p in [1/2, 1): bisection on the upper tail.
fn quantile(k: Erf, p: f64) -> f64 {
    let (mut lo, mut hi) = (0.0, 40.0);
    for _ in 0..200 {
        let m = 0.5 * (lo + hi);
        if cdf(k, m) < p { lo = m } else { hi = m }
    }
    0.5 * (lo + hi)
}
pub fn margin(k: Erf, draw: f64, beta: f64, players: f64) -> f64 {
    thread_local! { static M: std::cell::RefCell<Vec<(Erf, f64, f64)>> = const { std::cell::RefCell::new(Vec::new()) }; }
    let q = M.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(e) = m.iter().find(|e| e.0 == k && e.1 == draw) {
            return e.2;
        }
        let q = quantile(k, (draw + 1.0) / 2.0);
        m.push((k, draw, q));
        q
    });
    q * players.sqrt() * beta
}
const TINY: f64 = 2.222758749e-162;
/// (v, w) for t = difference/c, e = margin/c
pub fn vw(k: Erf, t: f64, e: f64, draw: bool) -> (f64, f64) {
    if draw {
        let a = t.abs();
        let norm = cdf(k, e - a) - cdf(k, -e - a);
        if norm < TINY {
            return (if t < 0.0 { -t - e } else { -t + e }, 1.0);
        }
        let v = (pdf(-e - a) - pdf(e - a)) / norm;
        let w = v * v + ((e - a) * pdf(e - a) + (e + a) * pdf(e + a)) / norm;
        (if t < 0.0 { -v } else { v }, w)
    } else {
        let norm = cdf(k, t - e);
        if norm < TINY {
            return (e - t, if t < 0.0 { 1.0 } else { 0.0 });
        }
        let v = pdf(t - e) / norm;
        (v, v * (v + t - e))
    }
}
pub fn ts_two(one: &[P], two: &[P], score: f64, draw: f64, beta: f64, dynf: f64, k: Erf) -> (Vec<P>, Vec<P>) {
    let n = (one.len() + two.len()) as f64;
    let c = (n * beta * beta + one.iter().chain(two).map(|p| p.1 * p.1).sum::<f64>()).sqrt();
    let mut d: f64 = one.iter().map(|p| p.0).sum::<f64>() - two.iter().map(|p| p.0).sum::<f64>();
    let mut sign = 1.0;
    if score == 0.0 {
        d = -d;
        sign = -1.0;
    }
    let (v, w) = vw(k, d / c, margin(k, draw, beta, n) / c, score == 0.5);
    let upd = |p: &P, s: f64| {
        let var = p.1 * p.1 + dynf * dynf;
        (p.0 + s * var / c * v, (var * (1.0 - w * var / (c * c)).max(f64::EPSILON)).sqrt())
    };
    (one.iter().map(|p| upd(p, sign)).collect(), two.iter().map(|p| upd(p, -sign)).collect())
}

/// Expectation propagation on the chain of team performances. Teams: (players (mu, sigma, weight), rank).
/// Also returns the largest |t| (surprise in standard deviations) that occurred.
pub fn ts_multi(teams: &[(Vec<(f64, f64, f64)>, usize)], draw: f64, beta: f64, dynf: f64, k: Erf) -> (Vec<Vec<P>>, f64) {
    let mut ord: Vec<usize> = (0..teams.len()).collect();
    ord.sort_by_key(|&i| teams[i].1);
    let n = ord.len();
    let pv = |s: f64| s * s + dynf * dynf;
    let mean: Vec<f64> = ord.iter().map(|&i| teams[i].0.iter().map(|p| p.2 * p.0).sum()).collect();
    let var: Vec<f64> = ord.iter().map(|&i| teams[i].0.iter().map(|p| p.2 * p.2 * (pv(p.1) + beta * beta)).sum()).collect();
    // messages (precision, precision * mean): truncation -> diff, diff -> its left team, diff -> its right team
    let mut tr = vec![(0.0, 0.0); n - 1];
    let mut to_l = vec![(0.0, 0.0); n - 1];
    let mut to_r = vec![(0.0, 0.0); n - 1];
    let mut tmax: f64 = 0.0;
    // team i as seen by diff d
    let seen = |i: usize, d: usize, to_l: &[(f64, f64)], to_r: &[(f64, f64)]| -> (f64, f64) {
        let (mut p, mut t) = (1.0 / var[i], mean[i] / var[i]);
        if i > 0 && d != i - 1 {
            p += to_r[i - 1].0;
            t += to_r[i - 1].1;
        }
        if i < n - 1 && d != i {
            p += to_l[i].0;
            t += to_l[i].1;
        }
        (t / p, 1.0 / p)
    };
    let step = |d: usize, tr: &mut [(f64, f64)], to_l: &[(f64, f64)], to_r: &[(f64, f64)], tmax: &mut f64| -> f64 {
        let (ma, va) = seen(d, d, to_l, to_r);
        let (mb, vb) = seen(d + 1, d, to_l, to_r);
        let pi = 1.0 / (va + vb);
        let tau = (ma - mb) * pi;
        let size = (teams[ord[d]].0.len() + teams[ord[d + 1]].0.len()) as f64;
        let is_draw = teams[ord[d]].1 == teams[ord[d + 1]].1;
        let sp = pi.sqrt();
        let (t, e) = (tau / sp, margin(k, draw, beta, size) * sp);
        *tmax = tmax.max(if is_draw { t.abs() } else { -t });
        let (v, w) = vw(k, t, e, is_draw);
        let den = (1.0 - w).max(1e-6);
        let (npi, ntau) = (pi / den, (tau + sp * v) / den);
        let delta = f64::max((tau + tr[d].1 - ntau).abs(), (pi + tr[d].0 - npi).abs().sqrt());
        tr[d] = (npi - pi, ntau - tau);
        delta
    };
    let up_r = |d: usize, tr: &[(f64, f64)], to_l: &[(f64, f64)], to_r: &mut [(f64, f64)]| {
        let (ma, va) = seen(d, d, to_l, to_r);
        let p = if tr[d].0 == 0.0 { 0.0 } else { 1.0 / (va + 1.0 / tr[d].0) };
        let m = if tr[d].0 == 0.0 { 0.0 } else { ma - tr[d].1 / tr[d].0 };
        to_r[d] = (p, p * m);
    };
    let up_l = |d: usize, tr: &[(f64, f64)], to_l: &mut [(f64, f64)], to_r: &[(f64, f64)]| {
        let (mb, vb) = seen(d + 1, d, to_l, to_r);
        let p = if tr[d].0 == 0.0 { 0.0 } else { 1.0 / (vb + 1.0 / tr[d].0) };
        let m = if tr[d].0 == 0.0 { 0.0 } else { mb + tr[d].1 / tr[d].0 };
        to_l[d] = (p, p * m);
    };
    for _ in 0..10 {
        let mut delta: f64 = 0.0;
        if n == 2 {
            delta = step(0, &mut tr, &to_l, &to_r, &mut tmax);
        } else {
            for d in 0..n - 2 {
                delta = delta.max(step(d, &mut tr, &to_l, &to_r, &mut tmax));
                up_r(d, &tr, &to_l, &mut to_r);
            }
            for d in (1..n - 1).rev() {
                delta = delta.max(step(d, &mut tr, &to_l, &to_r, &mut tmax));
                up_l(d, &tr, &mut to_l, &to_r);
            }
        }
        if delta <= 1e-4 {
            break;
        }
    }
    up_l(0, &tr, &mut to_l, &to_r);
    up_r(n - 2, &tr, &to_l, &mut to_r);
    let mut out = vec![vec![]; n];
    for (i, &orig) in ord.iter().enumerate() {
        let (mut p, mut t) = (0.0, 0.0);
        if i > 0 {
            p += to_r[i - 1].0;
            t += to_r[i - 1].1;
        }
        if i < n - 1 {
            p += to_l[i].0;
            t += to_l[i].1;
        }
        out[orig] = teams[orig]
            .0
            .iter()
            .map(|&(mu, s, w)| {
                let v = pv(s);
                // the team performance is observed with precision p and mean t/p
                let gain = w * v * p / (1.0 + var[i] * p);
                let innov = if p == 0.0 { 0.0 } else { t / p - mean[i] };
                (mu + gain * innov, (v - gain * w * v).sqrt())
            })
            .collect();
    }
    (out, tmax)
}

/// Match quality of many teams: sqrt(|b2 A'A| / |b2 A'A + A'SA|) * exp(-1/2 u' (b2 A'A + A'SA)^-1 u), by Gaussian elimination.
pub fn ts_quality(teams: &[Vec<(f64, f64, f64)>], beta: f64) -> f64 {
    let n = teams.len();
    let m = n - 1;
    let mean: Vec<f64> = teams.iter().map(|t| t.iter().map(|p| p.2 * p.0).sum()).collect();
    let skill: Vec<f64> = teams.iter().map(|t| t.iter().map(|p| p.2 * p.2 * p.1 * p.1).sum()).collect();
    let perf: Vec<f64> = teams.iter().map(|t| t.iter().map(|p| p.2 * p.2 * beta * beta).sum()).collect();
    let tri = |x: &[f64]| -> Vec<Vec<f64>> {
        let mut a = vec![vec![0.0; m]; m];
        for i in 0..m {
            a[i][i] = x[i] + x[i + 1];
            if i + 1 < m {
                a[i][i + 1] = -x[i + 1];
                a[i + 1][i] = -x[i + 1];
            }
        }
        a
    };
    let both: Vec<f64> = (0..n).map(|i| skill[i] + perf[i]).collect();
    let u: Vec<f64> = (0..m).map(|i| mean[i] - mean[i + 1]).collect();
    let (ld1, _) = solve(tri(&perf), u.clone());
    let (ld2, x) = solve(tri(&both), u.clone());
    let e: f64 = u.iter().zip(&x).map(|(a, b)| a * b).sum();
    (0.5 * (ld1 - ld2) - 0.5 * e).exp()
}
/// (ln det, solution) of a symmetric positive definite system
fn solve(mut a: Vec<Vec<f64>>, mut b: Vec<f64>) -> (f64, Vec<f64>) {
    let n = b.len();
    let mut ld = 0.0;
    for i in 0..n {
        ld += a[i][i].ln();
        for j in i + 1..n {
            let f = a[j][i] / a[i][i];
            for k in i..n {
                let t = a[i][k];
                a[j][k] -= f * t;
            }
            b[j] -= f * b[i];
        }
    }
    for i in (0..n).rev() {
        for j in i + 1..n {
            b[i] -= a[i][j] * b[j];
        }
        b[i] /= a[i][i];
    }
    (ld, b)
}
