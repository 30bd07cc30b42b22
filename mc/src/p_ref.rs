//! C19 (first DWZ), C23 (shift and scale), C24-C28 (conformance with the published formulas).
use crate::core::*;
use crate::gen::*;
use crate::p_hist::{league, events, starts, Ev};
use crate::p_res::{same, show};
use crate::p_team::weighted_items;
use crate::refm;
use crate::sys::*;
use crate::teams::*;
use skillratings::dwz::{get_first_dwz, DWZRating, GetFirstDWZError};
use skillratings::Outcomes::{self, *};

// ---------------------------------------------------------------- C19
/// Anhang 2.1 of the Wertungsordnung: rating difference for a score of 0..=50 percent.
const TABLE: [f64; 51] = [
    728., 614., 555., 513., 480., 453., 429., 408., 389., 371., 355., 340., 326., 312., 300., 288., 276., 265., 254., 244., 234., 224., 214., 205., 196., 187., 178., 170.,
    161., 153., 145., 137., 129., 121., 113., 106., 98., 91., 83., 76., 69., 61., 54., 47., 40., 32., 25., 18., 11., 4., 0.,
];
fn first_ref(age: usize, avg: f64, half: usize, n: usize) -> Vec<Result<(f64, usize, usize), GetFirstDWZError>> {
    if n < 5 {
        return vec![Err(GetFirstDWZError::NotEnoughGames)];
    }
    if half == 0 || half == 2 * n {
        return vec![Err(GetFirstDWZError::InvalidWinRate)];
    }
    // percentage = 100 * half / (2 n), rounded half up in exact arithmetic
    let num = 50 * half;
    let mut ps = vec![(2 * num + n) / (2 * n)];
    if (2 * num + n) % (2 * n) == 0 && !n.is_power_of_two() {
        // exactly between two percentages: floating point may see it just below
        ps.push(ps[0] - 1);
    }
    ps.into_iter()
        .map(|p| {
            let d = if p <= 50 { -TABLE[p] } else { TABLE[100 - p] };
            let r = avg + d;
            Ok((if r <= 800.0 { 700.0 + r / 8.0 } else { r }, 1, age))
        })
        .collect()
}
pub fn c19(ctx: &Ctx) {
    fn check(w: &mut W, age: usize, l: &[(DWZRating, Outcomes)]) -> Option<f64> {
        let n = l.len();
        let half: usize = l.iter().map(|r| (2.0 * pts(r.1)) as usize).sum();
        let avg = if n == 0 { 0.0 } else { l.iter().map(|r| r.0.rating).sum::<f64>() / n as f64 };
        w.at(|| format!("get_first_dwz({age}, {})", show(l)));
        let got = get_first_dwz(age, l);
        w.t(1);
        w.trace_done();
        let exp = first_ref(age, avg, half, n);
        let ok = exp.iter().any(|e| match (&got, e) {
            (Ok(g), Ok(e)) => near(g.rating, e.0, 1e-9) && g.index == e.1 && g.age == e.2,
            (Err(g), Err(e)) => g == e,
            _ => false,
        });
        w.ok(ok, "first DWZ differs from the table", || format!("get_first_dwz({age}, {}): got {got:?}, expected one of {exp:?}", show(l)));
        w.state(n as u64, &[got.as_ref().map_or(0.0, |g| g.rating)]);
        got.ok().map(|g| g.rating)
    }
    let d = |rating: f64, age: usize| DWZRating { rating, index: 12, age };
    // every multiset of outcomes for every number of games
    let nmax = ctx.lvl(200, 300);
    let mut items = vec![];
    for n in 0..=nmax {
        for wins in 0..=n {
            items.push((n, wins));
        }
    }
    // long lists: every percentage of the table
    for n in [255usize, 256, 257, 500, 1000] {
        items.extend((0..=n).step_by(n / 50).map(|wins| (n, wins)));
        items.extend([(n, 1), (n, n - 1), (n, n)]);
    }
    if !ctx.thorough {
        items.extend([(32_768, 0), (32_768, 100), (65_537, 65_536)]);
    }
    let bases = ctx.lvl(vec![-300.0, 350.0, 799.0, 1200.5, 1928.0, 2800.0], vec![-2000.0, -300.0, 0.0, 350.0, 640.0, 799.0, 801.0, 1000.0, 1200.5, 1408.0, 1528.0, 1928.0, 2800.0, 4000.0]);
    ctx.sweep("all outcome multisets", &items, |w, &(n, wins)| {
        for &base in &bases {
            let mut last = f64::NEG_INFINITY;
            let step = if n > nmax { ((n - wins) / 20).max(1) } else { 1 };
            for draws in (0..=n - wins).step_by(step) {
                let l: Vec<_> = (0..n).map(|i| (d(base + (i % 7) as f64 * 31.25, 30), if i < wins { WIN } else if i < wins + draws { DRAW } else { LOSS })).collect();
                if let Some(r) = check(w, 25, &l) {
                    w.ok(r >= last - 1e-9, "a better result lowers the first DWZ", || format!("{}: {r} after {last}", show(&l)));
                    last = r;
                }
            }
        }
        w.sample(|| format!("{n} games, {wins} wins, every number of draws"));
    });
    // every sequence of outcomes of five and six games (thorough: up to eight), mixed opponents, every age
    let opp = [d(1300.0, 44), d(1540.5, 9), d(2011.0, 20), d(640.0, 70), d(1928.25, 25), d(-40.0, 30), d(2600.0, 21), d(1000.0, 1)];
    let mut seqv: Vec<Vec<usize>> = vec![];
    for n in 0..=ctx.lvl(7, 9) {
        seqv.extend(seqs(3, n));
    }
    ctx.sweep("all outcome sequences", &seqv, |w, s| {
        for rot in 0..4 {
            let l: Vec<_> = s.iter().enumerate().map(|(i, &o)| (opp[(i * (1 + rot) + rot) % 8], OUT[o])).collect();
            for age in AGES {
                check(w, age, &l);
            }
            // order independence: all rotations and the reversal
            let base = get_first_dwz(30, &l);
            let mut m = l.clone();
            for k in 0..=l.len() {
                if k == l.len() { m.reverse() } else { m.rotate_left(1) }
                let r = get_first_dwz(30, &m);
                w.t(1);
                let ok = match (&base, &r) {
                    (Ok(a), Ok(b)) => near(a.rating, b.rating, 1e-9) && a.index == b.index && a.age == b.age,
                    (Err(a), Err(b)) => a == b,
                    _ => false,
                };
                w.ok(ok, "first DWZ depends on the order of results", || format!("{} -> {base:?}; reordered {} -> {r:?}", show(&l), show(&m)));
            }
            // improving any single result
            for i in 0..l.len() {
                if l[i].1 != WIN {
                    let mut m = l.clone();
                    m[i].1 = if l[i].1 == LOSS { DRAW } else { WIN };
                    if let (Ok(a), Ok(b)) = (&base, get_first_dwz(30, &m)) {
                        w.ok(b.rating >= a.rating - 1e-9, "improving a result lowers the first DWZ", || format!("{} -> {base:?}; {i} improved -> {b:?}", show(&l)));
                    }
                    w.t(1);
                }
            }
        }
    });
    // the threshold at 800 and the opponents' index and age do not matter
    let avgs: Vec<f64> = steps(-500.0, 2600.0, ctx.lvl(3.875, 0.625));
    ctx.sweep("opponent averages", &avgs, |w, &avg| {
        for n in [5usize, 7, 11] {
            for half in 1..2 * n {
                let l: Vec<_> = (0..n)
                    .map(|i| {
                        let o = if 2 * (i + 1) <= half { WIN } else if 2 * i + 1 == half { DRAW } else { LOSS };
                        (DWZRating { rating: avg + if i % 2 == 0 { 60.0 } else { -45.5 }, index: i * 37, age: i * 11 }, o)
                    })
                    .collect();
                check(w, 17, &l);
            }
        }
    });
}

// ---------------------------------------------------------------- C23
pub fn c23(ctx: &Ctx) {
    c23_sys::<Elo>(ctx);
    c23_sys::<Fifa>(ctx);
    c23_sys::<Ingo>(ctx);
    c23_sys::<Glicko>(ctx);
    c23_sys::<Glicko2>(ctx);
    c23_sys::<Sticko>(ctx);
    c23_sys::<Wl>(ctx);
    c23_sys::<Ts>(ctx);
    c23_teams::<WlT>(ctx);
    c23_teams::<TsT>(ctx);
}
fn c23_sys<S: Sys>(ctx: &Ctx) {
    assert!(S::SHIFT);
    let shifts: Vec<f64> = match S::NAME {
        "weng_lin" | "trueskill" => vec![-31.0, -0.7, 5.0, 64.25],
        "ingo" => vec![-150.0, 12.5, 77.0],
        _ => vec![-1500.0, -137.5, 250.0, 777.25],
    };
    let sh = |r: &S::R, k: f64| S::with_rating(r, S::num(r)[0] + k);
    let tol = 1e-8;
    let shn = |n: N4, k: f64| [n[0] + k, n[1], n[2], n[3]];
    pairs::<S>(ctx, "matches", |w, a, b, cfgs, xs| {
        for c in cfgs {
            for &x in xs {
                let e = S::exp(a, b, x, c);
                let base: Vec<(S::R, S::R)> = S::outs(c).iter().map(|&o| S::rate(a, b, o, x, c)).collect();
                w.t(4);
                for &k in &shifts {
                    let (a2, b2) = (sh(a, k), sh(b, k));
                    let case = || format!("{} {a:?} {b:?} {x:?} {c:?} shifted by {k}", S::NAME);
                    w.at(case);
                    let e2 = S::exp(&a2, &b2, x, c);
                    w.ok(near(e2.0, e.0, tol) && near(e2.1, e.1, tol), "expected scores change with a common shift", || format!("{}: {e:?} {e2:?}", case()));
                    for (o, r) in S::outs(c).iter().zip(&base) {
                        let s = S::rate(&a2, &b2, *o, x, c);
                        let ok = same::<S>(&S::num(&s.0), &shn(S::num(&r.0), k), tol) && same::<S>(&S::num(&s.1), &shn(S::num(&r.1), k), tol);
                        w.ok(ok, "a common shift changes more than the ratings", || format!("{} {o:?}: {r:?} -> {s:?}", case()));
                        w.state(1, &S::num(&s.0));
                    }
                    w.t(4);
                    w.trace_done();
                    w.sample(case);
                }
            }
        }
    });
    periods::<S>(ctx, "periods", &[], |w, a, l, _, cs| {
        for &k in &shifts[1..3] {
            let m: L<S> = l.iter().map(|(o, r, x)| (sh(o, k), *r, *x)).collect();
            {
                for c in cs {
                    w.at(|| format!("{} period {a:?} {} {c:?} shifted by {k}", S::NAME, show(l)));
                    let r = S::period(a, l, c);
                    let s = S::period(&sh(a, k), &m, c);
                    w.t(2);
                    w.trace_done();
                    w.state(2, &S::num(&s));
                    w.ok(same::<S>(&S::num(&s), &shn(S::num(&r), k), 1e-7), "a common shift of a rating period changes more than the rating", || {
                        format!("{} {a:?} {} {c:?} shifted by {k}: {r:?} -> {s:?}", S::NAME, show(l))
                    });
                }
            }
        }
    });
}
fn c23_teams<T: TeamSys>(ctx: &Ctx) {
    let cfgs = T::cfgs(1);
    let mut lay = layouts(ctx, ctx.lvl(4, 5));
    lay.extend(lobbies(ctx));
    let mv = |t: &[Team], k: f64, f: f64| -> Vec<Team> { t.iter().map(|x| x.iter().map(|p| ((p.0 + k) * f, p.1 * f)).collect()).collect() };
    ctx.sweep(&format!("{} teams", T::NAME), &lay, |w, t| {
        let n = t.len();
        let equal = t.iter().all(|x| x.len() == t[0].len());
        for c in &T::at(t, &cfgs) {
            for (k, f) in [(-25.0, 1.0), (7.75, 1.0), (0.0, 2.0), (0.0, 40.0), (0.0, 0.25)] {
                if k != 0.0 && !equal {
                    continue;
                }
                let m = mv(t, k, f);
                let c2 = T::scale(c, f);
                let case = || format!("{} {t:?} {c:?} shift {k} scale {f}", T::NAME);
                w.at(case);
                // ratings of 1000 in scaled units: compare in original units
                let back = |v: &[Team]| -> Vec<f64> { v.iter().flat_map(|x| x.iter().flat_map(|p| [p.0 / f - k, p.1 / f])).collect() };
                let (e, e2) = (T::expm(t, c), T::expm(&m, &c2));
                w.t(2);
                w.close_all(&e2, &e, 1e-8, "expected scores change with a common shift or scale", case);
                if n == 2 {
                    let (x, y) = (T::exp2(&t[0], &t[1], c), T::exp2(&m[0], &m[1], &c2));
                    w.close_all(&[y.0, y.1], &[x.0, x.1], 1e-8, "two-team expected scores change with a common shift or scale", case);
                    for o in OUT {
                        let (x, y) = (T::two(&t[0], &t[1], o, c), T::two(&m[0], &m[1], o, &c2));
                        w.t(2);
                        w.close_all(&back(&[y.0, y.1]), &flat(&[x.0, x.1]), 1e-7, "two-team ratings do not follow a common shift or scale", || format!("{} {o:?}", case()));
                    }
                    if t[0].len() == 1 && t[1].len() == 1 {
                        let (x, y) = (T::exp1(t[0][0], t[1][0], c), T::exp1(m[0][0], m[1][0], &c2));
                        w.close_all(&[y.0, y.1], &[x.0, x.1], 1e-8, "expected scores change with a common shift or scale", case);
                        for o in OUT {
                            let (x, y) = (T::one(t[0][0], t[1][0], o, c), T::one(m[0][0], m[1][0], o, &c2));
                            w.t(2);
                            w.close_all(&back(&[vec![y.0, y.1]]), &flat(&[vec![x.0, x.1]]), 1e-7, "1v1 ratings do not follow a common shift or scale", || format!("{} {o:?}", case()));
                        }
                    }
                }
                for r in some_ranks(n) {
                    let (x, y) = (T::multi(t, &r, c), T::multi(&m, &r, &c2));
                    w.t(2);
                    w.trace_done();
                    w.state(3, &flat(&y));
                    // the message passing of many-team TrueSkill stops at an absolute change of 1e-4
                    let tol = if T::NAME == "trueskill" && f != 1.0 && n > 2 { 5e-3 } else { 1e-6 };
                    w.close_all(&back(&y), &flat(&x), tol, "many-team ratings do not follow a common shift or scale", || format!("{} ranks {r:?}", case()));
                }
                w.sample(case);
            }
        }
    });
    if T::NAME == "trueskill" {
        ctx.sweep("match quality", &lay, |w, t| {
            let equal = t.iter().all(|x| x.len() == t[0].len());
            for c in &TsT::cfgs(1) {
                for (k, f) in [(-25.0, 1.0), (7.75, 1.0), (0.0, 2.0), (0.0, 40.0), (0.0, 0.25)] {
                    if (k != 0.0 && !equal) || t.len() > 6 {
                        continue;
                    }
                    let m = mv(t, k, f);
                    let c2 = TsT::scale(c, f);
                    let case = || format!("match quality {t:?} {c:?} shift {k} scale {f}");
                    w.at(case);
                    let (x, y) = (TsT::quality_m(t, c, None), TsT::quality_m(&m, &c2, None));
                    w.t(2);
                    w.trace_done();
                    match (x, y) {
                        (Ok(x), Ok(y)) => {
                            w.close(y, x, 1e-7, "match quality changes with a common shift or scale", case);
                            w.state(4, &[y]);
                        }
                        z => w.fail("match quality refused", || format!("{}: {z:?}", case())),
                    }
                    if t.len() == 2 {
                        let (x, y) = (TsT::quality2(&t[0], &t[1], c), TsT::quality2(&m[0], &m[1], &c2));
                        w.close(y, x, 1e-8, "two-team match quality changes with a common shift or scale", case);
                        if t[0].len() == 1 && t[1].len() == 1 {
                            let (x, y) = (TsT::quality(t[0][0], t[1][0], c), TsT::quality(m[0][0], m[1][0], &c2));
                            w.close(y, x, 1e-8, "1v1 match quality changes with a common shift or scale", case);
                        }
                    }
                }
            }
        });
    }
}

// ---------------------------------------------------------------- C24 - C28
pub fn c24(ctx: &Ctx) {
    reference::<Elo>(ctx);
    reference::<Fifa>(ctx);
}
pub fn c25(ctx: &Ctx) {
    reference::<Ingo>(ctx);
    reference::<Dwz>(ctx);
    reference::<Uscf>(ctx);
    reference::<Egf>(ctx);
}
pub fn c26(ctx: &Ctx) {
    reference::<Glicko>(ctx);
    reference::<Glicko2>(ctx);
    reference::<Sticko>(ctx);
    reference::<GBoost>(ctx);
}
pub fn c27(ctx: &Ctx) {
    reference::<Wl>(ctx);
    teams_wl(ctx);
}
pub fn c28(ctx: &Ctx) {
    reference::<Ts>(ctx);
    teams_ts(ctx);
}

/// Does `got` agree with the published formula? (system-specific precision, see DESIGN.md)
fn conforms<S: Sys>(a: &S::R, l: &[(S::R, Outcomes, S::X)], c: &S::C, got: &N4) -> Result<(), String> {
    if S::NAME == "glicko2" && !l.is_empty() {
        return glicko2_conforms::<S>(a, l, c, got);
    }
    let e = S::ref_period(a, l, c);
    let good = match S::NAME {
        "egf" => {
            // close to the floor, limiting every game or only the sum are both within the rules
            let g = S::num(a)[0];
            let e2 = l.iter().map(|r| S::ref_period(a, &[*r], c)[0] - g).sum::<f64>() + g;
            same::<S>(got, &e, 1e-9) || (g < 0.0 && near(got[0], e2.max(-900.0), 1e-9))
        }
        "trueskill" => return ts_conforms(&S::num(a), &l.iter().map(|r| (S::num(&r.0), pts(r.1))).collect::<Vec<_>>(), c, got),
        _ => same::<S>(got, &e, 1e-9),
    };
    if good { Ok(()) } else { Err(format!("got {got:?}, formula gives {e:?}")) }
}
fn glicko2_conforms<S: Sys>(a: &S::R, l: &[(S::R, Outcomes, S::X)], c: &S::C, got: &N4) -> Result<(), String> {
    let n = S::num(a);
    let opp: Vec<_> = l.iter().map(|r| { let o = S::num(&r.0); (o[0], o[1], pts(r.1)) }).collect();
    let (v, m) = refm::glicko2_stats(n[0], &opp);
    // with the returned volatility, rating and deviation follow directly
    let star2 = (n[1] / 173.7178).powi(2) + got[2] * got[2];
    let nv = 1.0 / (1.0 / star2 + 1.0 / v);
    let want = [n[0] + 173.7178 * nv * m, 173.7178 * nv.sqrt()];
    // beyond v = 1e9 the volatility equation is below double precision
    let tol = if v < 1e9 { 1e-8 } else { 1e-6 };
    if !near(got[0], want[0], tol) || !near(got[1], want[1], tol) {
        return Err(format!("got {got:?}, formula gives rating and deviation {want:?}"));
    }
    if v < 1e9 {
        // any solution of the volatility equation: after extreme upsets with a big tau there can be several
        let (tau, ct) = (c as &dyn std::any::Any).downcast_ref::<skillratings::glicko2::Glicko2Config>().map(|c| (c.tau, c.convergence_tolerance)).expect("HARNESS config type");
        let (x, eps) = (2.0 * got[2].ln(), 3.0 * ct + 1e-7);
        let f = |x: f64| refm::vol_f(x, (v * m).powi(2), (n[1] / 173.7178).powi(2), v, n[2], tau);
        if !(f(x - eps) >= 0.0 && f(x + eps) <= 0.0) {
            return Err(format!("got {got:?}, which does not solve the volatility equation; formula gives {:?}", S::ref_period(a, l, c)));
        }
    }
    Ok(())
}
/// TrueSkill: either with an exact normal distribution or with the 1.2e-7 approximation, for results that are not beyond 15 sigma.
fn ts_conforms<C: 'static>(a: &N4, l: &[(N4, f64)], c: &C, got: &N4) -> Result<(), String> {
    let (draw, beta, dynf) = ts_cfg(c);
    let mut show = vec![];
    for k in [refm::ERFCC, refm::EXACT] {
        let mut p = (a[0], a[1]);
        let mut amp = 1.0;
        for (o, s) in l {
            let t = (p.0 - o[0]) / (p.1 * p.1 + o[1] * o[1] + 2.0 * beta * beta).sqrt();
            let surprise = if *s == 0.5 { t.abs() } else { t * (1.0 - 2.0 * s) };
            if surprise > 15.0 {
                return Ok(());
            }
            amp += surprise.max(0.0);
            p = refm::ts_two(&[p], &[(o[0], o[1])], *s, draw, beta, dynf, k).0[0];
        }
        let tol = if k == refm::EXACT { 2e-6 * amp * amp } else { 1e-6 };
        if near(got[0], p.0, tol) && near(got[1], p.1, tol) {
            return Ok(());
        }
        show.push(p);
    }
    Err(format!("got {got:?}, formula gives {:?}", show[0]))
}
fn ts_cfg<C: 'static>(c: &C) -> (f64, f64, f64) {
    let c = (c as &dyn std::any::Any).downcast_ref::<skillratings::trueskill::TrueSkillConfig>().expect("HARNESS config type");
    (c.draw_probability, c.beta, c.dynamics_factor)
}

fn reference<S: Sys>(ctx: &Ctx) {
    let p3 = S::players(3);
    let (cfgs, xs) = (S::cfgs(2), S::xs(2));
    let what = "the new rating differs from the published formula";
    pairs::<S>(ctx, "matches", |w, a, b, cfgs, xs| {
        for c in cfgs {
            for &x in xs {
                if !S::dom(a, b, x) {
                    continue;
                }
                let case = || format!("{} {a:?} {b:?} {x:?} {c:?}", S::NAME);
                w.at(case);
                let e = S::exp(a, b, x, c);
                let re = S::ref_exp(a, b, x, c);
                w.t(1);
                w.close_all(&[e.0, e.1], &[re, 1.0 - re], S::ETOL, "the expected score differs from the published formula", case);
                let (mx, mc) = S::mirror(x, c);
                for &o in S::outs(c) {
                    let (r, s) = S::rate(a, b, o, x, c);
                    w.t(1);
                    w.trace_done();
                    w.state(1, &S::num(&r));
                    if let Err(m) = conforms::<S>(a, &[(*b, o, x)], c, &S::num(&r)) {
                        w.fail(what, || format!("first player of {} {o:?}: {m}", case()));
                    }
                    if let Err(m) = conforms::<S>(b, &[(*a, inv(o), mx)], &mc, &S::num(&s)) {
                        w.fail(what, || format!("second player of {} {o:?}: {m}", case()));
                    }
                    w.ok(true, what, case);
                    w.sample(|| format!("{} {o:?} -> {r:?} {s:?}", case()));
                }
            }
        }
    });
    let one = |w: &mut W, a: &S::R, l: &[(S::R, Outcomes, S::X)], c: &S::C| {
        let case = || format!("{} period {a:?} {} {c:?}", S::NAME, show(l));
        w.at(case);
        let r = S::period(a, l, c);
        w.t(1);
        w.trace_done();
        w.state(2, &S::num(&r));
        if let Err(m) = conforms::<S>(a, l, c, &S::num(&r)) {
            w.fail(what, || format!("{}: {m}", case()));
        }
        let os: Vec<(S::R, S::X)> = l.iter().map(|r| (r.0, r.2)).collect();
        let got = S::exp_period(a, &os, c);
        w.t(1);
        if w.ok(got.len() == l.len(), "number of expected scores", case) {
            for (i, (b, x)) in os.iter().enumerate() {
                // the colour of Glicko-Boost period expectations is the known finding of C02
                let x = if S::NAME == "glicko_boost" { S::xs(0)[0] } else { *x };
                if S::NAME == "glicko_boost" && near(got[i], S::ref_exp(a, b, os[i].1, c), 1e-9) {
                    continue;
                }
                w.close(got[i], S::ref_exp(a, b, x, c), S::ETOL, "the expected score of a period differs from the published formula", || format!("entry {i} of {}", case()));
            }
        }
    };
    ctx.sweep(&format!("{} single-result periods", S::NAME), &p3, |w, a| {
        let b3 = S::players(1);
        for b in &b3 {
            for c in &cfgs {
                for &x in &xs {
                    if S::dom(a, b, x) {
                        for o in OUT {
                            one(w, a, &[(*b, o, x)], c);
                        }
                    }
                }
            }
        }
    });
    let c1 = S::cfgs(1);
    periods::<S>(ctx, "periods", &[], |w, a, l, _, cs| {
        for c in cs {
            one(w, a, l, c);
        }
    });
    // histories
    let evs = events::<S>(1, true);
    let depth = if evs.len() > 15 { ctx.lvl(3, 4) } else { ctx.lvl(4, 5) };
    league::<S>(ctx, "reference", &starts::<S>(), &c1, &evs, depth, ctx.lvl(2, 2), ctx.lvl(40, 120), &|w, l, e, n, c, case| {
        let mut bad = None;
        match *e {
            Ev::Match(i, j, o, x) => {
                let (mx, mc) = S::mirror(x, c);
                bad = bad.or(conforms::<S>(&l[i], &[(l[j], o, x)], c, &S::num(&n[i])).err());
                bad = bad.or(conforms::<S>(&l[j], &[(l[i], inv(o), mx)], &mc, &S::num(&n[j])).err());
            }
            Ev::Period(i, o, p, x) => bad = bad.or(conforms::<S>(&l[i], &[(l[(i + 1) % 3], o, x), (l[(i + 2) % 3], p, x)], c, &S::num(&n[i])).err()),
            Ev::Idle(i) => bad = bad.or(conforms::<S>(&l[i], &[], c, &S::num(&n[i])).err()),
        }
        w.ok(bad.is_none(), what, || format!("{}: {}", case(), bad.clone().unwrap_or_default()));
    });
}

fn rank_items(ctx: &Ctx) -> Vec<Vec<Team>> {
    let mut lay = layouts(ctx, ctx.lvl(4, 5));
    lay.extend(lobbies(ctx));
    lay
}
fn teams_wl(ctx: &Ctx) {
    let cfgs = WlT::cfgs(2);
    ctx.sweep("weng_lin teams", &rank_items(ctx), |w, t| {
        let n = t.len();
        let mu: Vec<f64> = t.iter().map(|x| x.iter().map(|p| p.0).sum()).collect();
        let var: Vec<f64> = t.iter().map(|x| x.iter().map(|p| p.1 * p.1).sum()).collect();
        for c in &WlT::at(t, &cfgs) {
            let case = || format!("weng_lin {t:?} {c:?}");
            w.at(case);
            let kappa = c.uncertainty_tolerance;
            if n == 2 {
                let cc = (var[0] + var[1] + 2.0 * c.beta * c.beta).sqrt();
                let p = refm::sigmoid((mu[0] - mu[1]) / cc);
                let e = WlT::exp2(&t[0], &t[1], c);
                w.t(1);
                w.close_all(&[e.0, e.1], &[p, 1.0 - p], 1e-9, "two-team expected score differs from the published formula", case);
                for o in OUT {
                    let r = WlT::two(&t[0], &t[1], o, c);
                    let e = refm::weng_lin(&[(t[0].clone(), 0.0), (t[1].clone(), pts(o) - 0.5)], c.beta, kappa);
                    w.t(1);
                    w.close_all(&flat(&[r.0, r.1]), &flat(&e), 1e-9, "two-team rating differs from the published formula", || format!("{} {o:?}", case()));
                }
            }
            // expectation of many teams: each team's share of exp(rating / c)
            let cc = (2.0 * c.beta * c.beta + var.iter().sum::<f64>()).sqrt();
            let ex: Vec<f64> = (0..n).map(|i| 1.0 / mu.iter().map(|m| ((m - mu[i]) / cc).exp()).sum::<f64>()).collect();
            let got = WlT::expm(t, c);
            w.t(1);
            w.state(2, &got);
            w.close_all(&got, &ex, 1e-9, "many-team expected score differs from the shares of exp(rating / c)", case);
            for r in some_ranks(n) {
                let got = WlT::multi(t, &r, c);
                let e = refm::weng_lin(&t.iter().zip(&r).map(|(x, r)| (x.clone(), *r as f64)).collect::<Vec<_>>(), c.beta, kappa);
                w.t(1);
                w.trace_done();
                w.state(3, &flat(&got));
                w.close_all(&flat(&got), &flat(&e), 1e-9, "many-team rating differs from the published formula", || format!("{} ranks {r:?}", case()));
            }
            w.sample(case);
        }
    });
}
fn teams_ts(ctx: &Ctx) {
    let cfgs = TsT::cfgs(2);
    ctx.sweep("trueskill two teams", &rank_items(ctx).into_iter().filter(|t| t.len() == 2).collect::<Vec<_>>(), |w, t| {
        for c in &TsT::at(t, &cfgs) {
            let case = || format!("trueskill two teams {t:?} {c:?}");
            w.at(case);
            let all = || t[0].iter().chain(&t[1]);
            let cc = (all().count() as f64 * c.beta * c.beta + all().map(|p| p.1 * p.1).sum::<f64>()).sqrt();
            let d = (t[0].iter().map(|p| p.0).sum::<f64>() - t[1].iter().map(|p| p.0).sum::<f64>()) / cc;
            let e = TsT::exp2(&t[0], &t[1], c);
            let p = refm::cdf(refm::EXACT, d);
            w.t(1);
            w.close_all(&[e.0, e.1], &[p, 1.0 - p], 3e-7, "two-team expected score differs from the published formula", case);
            for o in OUT {
                let sur = match o { WIN => -d, LOSS => d, DRAW => d.abs() };
                let r = TsT::two(&t[0], &t[1], o, c);
                w.t(1);
                w.trace_done();
                let g = flat(&[r.0, r.1]);
                w.state(1, &g);
                if sur > 15.0 {
                    continue;
                }
                let want: Vec<Vec<f64>> = [refm::ERFCC, refm::EXACT].iter().map(|&k| { let e = refm::ts_two(&t[0], &t[1], pts(o), c.draw_probability, c.beta, c.dynamics_factor, k); flat(&[e.0, e.1]) }).collect();
                let amp = (1.0 + sur.max(0.0)).powi(2);
                let ok = |v: &[f64], tol: f64| v.len() == g.len() && g.iter().zip(v).all(|(a, b)| near(*a, *b, tol));
                w.ok(ok(&want[0], 1e-6) || ok(&want[1], 2e-6 * amp), "two-team rating differs from the published formula", || format!("{} {o:?}: got {g:?}, formula {:?}", case(), want[0]));
            }
            w.sample(case);
        }
    });
    let mut items: Vec<(Vec<Team>, Option<Vec<Vec<f64>>>)> = rank_items(ctx).into_iter().map(|t| (t, None)).collect();
    items.extend(weighted_items(ctx).into_iter().map(|(t, w)| (t, Some(w))));
    let c1 = TsT::cfgs(1);
    ctx.sweep("trueskill many teams", &items, |w, (t, ws)| {
        // a team of which nobody took part is not rated
        if ws.as_ref().is_some_and(|ws| ws.iter().any(|x| x.iter().all(|y| *y == 0.0))) {
            return;
        }
        let n = t.len();
        for c in &if ws.is_none() { TsT::at(t, if n <= 3 { &cfgs } else { &c1 }) } else { c1.clone() } {
            for r in some_ranks(n) {
                let case = || format!("trueskill_multi_team {t:?} ranks {r:?} weights {ws:?} {c:?}");
                w.at(case);
                let got = match TsT::multi_w(t, &r, c, ws.as_deref()) {
                    Ok(g) => flat(&g),
                    Err(e) => {
                        w.fail("match refused", || format!("{}: {e:?}", case()));
                        continue;
                    }
                };
                w.t(1);
                w.trace_done();
                w.state(2, &got);
                let arg: Vec<(Vec<(f64, f64, f64)>, usize)> = t.iter().enumerate().map(|(i, x)| (x.iter().enumerate().map(|(j, p)| (p.0, p.1, ws.as_ref().map_or(1.0, |w| w[i][j]))).collect(), r[i])).collect();
                let (e, tmax) = refm::ts_multi(&arg, c.draw_probability, c.beta, c.dynamics_factor, refm::ERFCC);
                let e = flat(&e);
                if tmax > 6.0 {
                    continue;
                }
                let ok = |v: &[f64], tol: f64| v.len() == got.len() && got.iter().zip(v).all(|(a, b)| near(*a, *b, tol));
                if !ok(&e, 1e-6) {
                    let e2 = flat(&refm::ts_multi(&arg, c.draw_probability, c.beta, c.dynamics_factor, refm::EXACT).0);
                    w.ok(ok(&e2, 1e-4), "many-team rating differs from expectation propagation", || format!("{}: got {got:?}, reference {e:?} (surprise {tmax})", case()));
                } else {
                    w.ok(true, "", String::new);
                }
            }
        }
        w.sample(|| format!("{t:?} {ws:?}"));
    });
    ctx.sweep("trueskill many-team expectations", &rank_items(ctx), |w, t| {
        let n = t.len();
        let players = t.iter().map(|x| x.len()).sum::<usize>() as f64;
        let mu: Vec<f64> = t.iter().map(|x| x.iter().map(|p| p.0).sum()).collect();
        let var: Vec<f64> = t.iter().map(|x| x.iter().map(|p| p.1 * p.1).sum()).collect();
        for c in &TsT::at(t, &cfgs) {
            let case = || format!("trueskill expected_score_multi_team {t:?} {c:?}");
            w.at(case);
            let got = TsT::expm(t, c);
            // every pair's win probabilities add up to 1
            let pairs = (n * (n - 1) / 2) as f64;
            let ex: Vec<f64> = (0..n)
                .map(|i| (0..n).filter(|j| *j != i).map(|j| refm::cdf(refm::EXACT, (mu[i] - mu[j]) / (var[i] + var[j] + players * c.beta * c.beta).sqrt())).sum::<f64>() / pairs)
                .collect();
            w.t(1);
            w.trace_done();
            w.state(5, &got);
            w.close_all(&got, &ex, 3e-7, "many-team expected score differs from the normalised pairwise win probabilities", case);
        }
    });
    // expectations of many teams and match quality
    ctx.sweep("trueskill match quality", &items, |w, (t, ws)| {
        if t.len() > 6 || ws.as_ref().is_some_and(|ws| ws.iter().any(|x| x.iter().all(|y| *y == 0.0))) {
            return;
        }
        for c in &TsT::at(t, &c1) {
            let case = || format!("match_quality_multi_team {t:?} {ws:?} {c:?}");
            w.at(case);
            let q = TsT::quality_m(t, c, ws.as_deref());
            w.t(1);
            w.trace_done();
            let arg: Vec<Vec<(f64, f64, f64)>> = t.iter().enumerate().map(|(i, x)| x.iter().enumerate().map(|(j, p)| (p.0, p.1, ws.as_ref().map_or(1.0, |w| w[i][j]))).collect()).collect();
            match q {
                Ok(q) => {
                    w.close(q, refm::ts_quality(&arg, c.beta), 1e-8, "match quality differs from the published formula", case);
                }
                Err(e) => w.fail("match quality refused", || format!("{}: {e:?}", case())),
            }
        }
    });
}
