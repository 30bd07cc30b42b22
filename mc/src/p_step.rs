//! C29 (stronger opponents), C30 (who moves how much), C31 (no drift), C32 (plain values).
use crate::core::*;
use crate::for_all;
use crate::gen::*;
use crate::p_res::show;
use crate::sys::*;
use crate::teams::*;
use skillratings::Outcomes::{self, *};
use std::any::Any;

/// A rating step of about 20 points on the Elo scale.
fn unit<S: Sys>() -> f64 {
    match S::NAME {
        "ingo" => -2.5,
        "weng_lin" | "trueskill" => 0.5,
        _ => 20.0,
    }
}
/// Numerical noise of a new rating: rounding, Glicko-2's configured tolerance, TrueSkill's normal distribution.
fn noise<S: Sys>(old: f64, new: f64, c: &S::C) -> f64 {
    let base = 1e-9 * (1.0 + old.abs() + new.abs());
    let any = c as &dyn Any;
    if let Some(c) = any.downcast_ref::<skillratings::glicko2::Glicko2Config>() {
        return base + 3.0 * (c.convergence_tolerance + 1e-7) * (new - old).abs();
    }
    if any.is::<skillratings::trueskill::TrueSkillConfig>() {
        return base + 2e-6 * (1.0 + (new - old).abs());
    }
    base
}
/// TrueSkill results more than 8 sigma away from the expectation are too ill-conditioned to compare, and so is Glicko-2's volatility
/// for players more than 3000 points apart.
fn tame<S: Sys>(a: &S::R, b: &S::R, c: &S::C) -> bool {
    if S::NAME == "glicko2" && (S::num(a)[0] - S::num(b)[0]).abs() > 3000.0 {
        return false;
    }
    (c as &dyn Any).downcast_ref::<skillratings::trueskill::TrueSkillConfig>().is_none_or(|c| {
        let (x, y) = (S::num(a), S::num(b));
        (x[0] - y[0]).abs() < 8.0 * (x[1] * x[1] + y[1] * y[1] + 2.0 * c.beta * c.beta).sqrt()
    })
}

/// The match option as the second player sees it (the colour).
fn seat<S: Sys>(x: S::X) -> S::X {
    (&x as &dyn Any).downcast_ref::<bool>().and_then(|b| (&!b as &dyn Any).downcast_ref::<S::X>().copied()).unwrap_or(x)
}

pub fn c29(ctx: &Ctx) {
    for_all!(c29_sys, ctx);
    c29_periods::<Elo>(ctx);
    c29_periods::<Fifa>(ctx);
    c29_periods::<Ingo>(ctx);
    c29_periods::<Dwz>(ctx);
    c29_periods::<Egf>(ctx);
    c29_teams::<WlT>(ctx);
    c29_teams::<TsT>(ctx);
}
fn c29_sys<S: Sys>(ctx: &Ctx) {
    let deltas = ctx.lvl(vec![0.05, 9.0], vec![0.005, 0.05, 1.0, 9.0, 40.0]);
    let good = |p: &S::R| S::good(p);
    pairs::<S>(ctx, "stronger opponents", |w, a, b, cfgs, xs| {
        for c in cfgs {
            // with a big bonus per game it pays to play games one learns little from
            if (c as &dyn Any).downcast_ref::<skillratings::sticko::StickoConfig>().is_some_and(|c| c.beta > 0.2) {
                continue;
            }
            for &x in xs {
                if !S::dom(a, b, x) {
                    continue;
                }
                for &o in S::outs(c) {
                    let case = || format!("{}({a:?}, {b:?}, {o:?}, {x:?}, {c:?})", S::NAME);
                    w.at(case);
                    let r = S::rate(a, b, o, x, c);
                    w.t(1);
                    w.trace_done();
                    w.state(1, &[good(&r.0), good(&r.1)]);
                    for &d in &deltas {
                        let (a2, b2) = (S::with_rating(a, S::num(a)[0] + d * unit::<S>()), S::with_rating(b, S::num(b)[0] + d * unit::<S>()));
                        if S::dom(a, &b2, x) && tame::<S>(a, b, c) && tame::<S>(a, &b2, c) && S::boosted(a, &[(*b, o, x)], c) == S::boosted(a, &[(b2, o, x)], c) {
                            w.at(|| format!("{}({a:?}, {b2:?}, {o:?}, {x:?}, {c:?})", S::NAME));
                            let q = S::rate(a, &b2, o, x, c);
                            w.t(1);
                            w.ok(good(&q.0) >= good(&r.0) - noise::<S>(S::num(a)[0], S::num(&r.0)[0], c), "the same result against a stronger opponent gives a worse rating", || format!("{} = {:?}, against {b2:?}: {:?}", case(), r.0, q.0));
                        }
                        if S::dom(&a2, b, x) && tame::<S>(a, b, c) && tame::<S>(&a2, b, c) && S::boosted(b, &[(*a, inv(o), seat::<S>(x))], c) == S::boosted(b, &[(a2, inv(o), seat::<S>(x))], c) {
                            w.at(|| format!("{}({a2:?}, {b:?}, {o:?}, {x:?}, {c:?})", S::NAME));
                            let q = S::rate(&a2, b, o, x, c);
                            w.t(1);
                            w.ok(good(&q.1) >= good(&r.1) - noise::<S>(S::num(b)[0], S::num(&r.1)[0], c), "the same result against a stronger opponent gives a worse rating (second player)", || format!("{} = {:?}, against {a2:?}: {:?}", case(), r.1, q.1));
                        }
                    }
                    w.sample(|| format!("{} = {r:?}", case()));
                }
            }
        }
    });
    // complete ladders of opponents
    let mut rl: Vec<f64> = S::players(3).iter().chain(&S::lines()).map(|p| S::num(p)[0]).collect();
    rl.sort_by(|a, b| a.partial_cmp(b).unwrap());
    rl.dedup();
    if unit::<S>() < 0.0 {
        rl.reverse();
    }
    let pl = list_players::<S>(ctx);
    let (c1, x1) = (S::cfgs(1), S::xs(1));
    let opp = S::players(0);
    ctx.sweep(&format!("{} ladders of opponents", S::NAME), &pl, |w, a| {
        for b in &opp {
            for c in &c1 {
                for &x in &x1 {
                    for &o in S::outs(c) {
                        let mut last = None::<(S::R, S::R)>;
                        for &r in &rl {
                            let q = S::with_rating(b, r);
                            if !S::valid(&q) || !S::dom(a, &q, x) || !tame::<S>(a, &q, c) {
                                continue;
                            }
                            w.at(|| format!("{}({a:?}, {q:?}, {o:?}, {x:?}, {c:?})", S::NAME));
                            let n = S::rate(a, &q, o, x, c).0;
                            w.t(1);
                            if let Some((p, m)) = last.as_ref().filter(|(p, _)| S::boosted(a, &[(*p, o, x)], c) == S::boosted(a, &[(q, o, x)], c)) {
                                w.ok(good(&n) >= good(m) - noise::<S>(S::num(a)[0], S::num(m)[0], c), "the same result against a stronger opponent gives a worse rating", || {
                                    format!("{} {a:?} {o:?} {x:?} {c:?}: against {p:?} {m:?}, against {q:?} {n:?}", S::NAME)
                                });
                            }
                            last = Some((q, n));
                        }
                        w.trace_done();
                    }
                }
            }
        }
    });
}
/// Systems that add up their results: every opponent of a rating period can be raised.
fn c29_periods<S: Sys>(ctx: &Ctx) {
    periods::<S>(ctx, "stronger opponents in periods", &[], |w, a, l, short, cs| {
        let n = l.len();
        let pos: Vec<usize> = if short || n <= 3 { (0..n).collect() } else { vec![0, n / 3, n / 2, n - 1] };
        for c in cs {
            // beyond k = 695 an Elo match turns a lead into a deficit: then only the last opponent is raised
            let over = (c as &dyn Any).downcast_ref::<skillratings::elo::EloConfig>().is_some_and(|c| c.k > 690.0);
            w.at(|| format!("{} period {a:?} {} {c:?}", S::NAME, show(l)));
            let base = S::period(a, l, c);
            w.t(1);
            w.state(3, &S::num(&base));
            for &i in &pos {
                if over && i + 1 < n {
                    continue;
                }
                for d in [0.05, 11.0] {
                    let mut m = l.clone();
                    m[i].0 = S::with_rating(&l[i].0, S::num(&l[i].0)[0] + d * unit::<S>());
                    if !list_ok::<S>(a, &m) {
                        continue;
                    }
                    w.at(|| format!("{} period {a:?} {} {c:?}", S::NAME, show(&m)));
                    let r = S::period(a, &m, c);
                    w.t(1);
                    w.trace_done();
                    w.ok(S::good(&r) >= S::good(&base) - noise::<S>(S::num(a)[0], S::num(&base)[0], c), "the same results against a stronger opponent give a worse rating", || {
                        format!("{} {a:?} {c:?} results {} -> {base:?}; opponent {i} raised to {:?} -> {r:?}", S::NAME, show(l), m[i].0)
                    });
                }
            }
        }
    });
}
fn c29_teams<T: TeamSys>(ctx: &Ctx) {
    let cfgs = T::cfgs(2);
    let mut lay: Vec<Vec<Team>> = layouts(ctx, 3);
    lay.extend(lobbies(ctx));
    let tol = if T::NAME == "trueskill" { 3e-6 } else { 1e-9 };
    let calm = |t: &[Team], c: &T::C| {
        let s = |x: &Team| (x.iter().map(|p| p.0).sum::<f64>(), x.iter().map(|p| p.1 * p.1 + T::beta(c).powi(2)).sum::<f64>());
        let (x, y) = (s(&t[0]), s(&t[1]));
        T::NAME != "trueskill" || (x.0 - y.0).abs() < 8.0 * (x.1 + y.1).sqrt()
    };
    ctx.sweep(&format!("{} stronger teams", T::NAME), &lay, |w, t| {
        let n = t.len();
        let raised = |i: usize, j: usize, d: f64| {
            let mut u = t.clone();
            u[i][j].0 += d;
            u
        };
        for c in &T::at(t, &cfgs) {
            if n == 2 {
                for o in OUT {
                    let case = || format!("{} two teams {t:?} {o:?} {c:?}", T::NAME);
                    w.at(case);
                    let r = T::two(&t[0], &t[1], o, c);
                    w.t(1);
                    w.trace_done();
                    w.state(4, &flat(&[r.0.clone(), r.1.clone()]));
                    for (i, team) in t.iter().enumerate() {
                        for j in (0..team.len()).step_by((team.len() / 4).max(1)) {
                            for d in [0.03, 6.0] {
                                let u = raised(i, j, d);
                                if !calm(t, c) || !calm(&u, c) {
                                    continue;
                                }
                                let q = T::two(&u[0], &u[1], o, c);
                                w.t(1);
                                let (old, before, after) = if i == 0 { (&t[1], &r.1, &q.1) } else { (&t[0], &r.0, &q.0) };
                                w.ok(before.len() == after.len() && before.iter().zip(after).zip(old).all(|((x, y), p)| y.0 >= x.0 - tol * (1.0 + x.0.abs() + (x.0 - p.0).abs())), "the same result against a stronger team gives a worse rating", || {
                                    format!("{}: {before:?}, against {u:?}: {after:?}", case())
                                });
                            }
                        }
                    }
                }
            }
            if T::NAME != "weng_lin" {
                continue;
            }
            for r in some_ranks(n).into_iter().step_by(if n == 4 { 5 } else { 1 }) {
                let case = || format!("{} many teams {t:?} ranks {r:?} {c:?}", T::NAME);
                w.at(case);
                let base = T::multi(t, &r, c);
                w.t(1);
                w.trace_done();
                w.state(5, &flat(&base));
                for i in [0, n / 2, n - 1] {
                    for d in [0.03, 6.0] {
                        let u = raised(i, t[i].len() - 1, d);
                        let q = T::multi(&u, &r, c);
                        w.t(1);
                        w.ok((0..n).filter(|k| *k != i).all(|k| base[k].iter().zip(&q[k]).all(|(x, y)| y.0 >= x.0 - tol * (1.0 + x.0.abs()))), "the same ranking against a stronger team gives a worse rating", || {
                            format!("{}: {base:?}, with team {i} raised by {d}: {q:?}", case())
                        });
                    }
                }
            }
        }
        w.sample(|| format!("{t:?}"));
    });
}

// ---------------------------------------------------------------- C30

pub fn c30(ctx: &Ctx) {
    for_all!(c30_sys, ctx);
    c30_periods::<Ingo>(ctx);
    c30_periods::<Dwz>(ctx);
    c30_periods::<Glicko>(ctx);
    c30_periods::<Sticko>(ctx);
    c30_scale::<Elo>(ctx, |c, _, f| (skillratings::elo::EloConfig { k: c.k * f }, ()));
    c30_scale::<Fifa>(ctx, |_, x, f| ((), skillratings::fifa::FifaConfig { importance: x.importance * f, ..x }));
    c30_teams::<WlT>(ctx);
    c30_teams::<TsT>(ctx);
}
/// Copies of a player (and config) for whom a result counts at least as much.
fn bolder<S: Sys>(a: &S::R, c: &S::C) -> Vec<(S::R, S::C)> {
    let mut v = vec![];
    let any = a as &dyn Any;
    let mut put = |x: &dyn Any| v.extend(x.downcast_ref::<S::R>().map(|x| (*x, *c)));
    if let Some(r) = any.downcast_ref::<skillratings::ingo::IngoRating>() {
        for y in [1, 6, 20] {
            put(&skillratings::ingo::IngoRating { age: r.age.saturating_sub(y), ..*r });
        }
    } else if let Some(r) = any.downcast_ref::<skillratings::dwz::DWZRating>() {
        // beyond 2000 the acceleration of youths turns into a brake
        for y in [1, 6, 20].into_iter().filter(|_| r.rating <= 2000.0) {
            put(&skillratings::dwz::DWZRating { age: r.age.saturating_sub(y), ..*r });
        }
        for i in [1, 4, r.index / 2, r.index - r.index / 10] {
            put(&skillratings::dwz::DWZRating { index: r.index.saturating_sub(i), ..*r });
        }
    } else if let Some(r) = any.downcast_ref::<skillratings::uscf::USCFRating>() {
        for g in [1, 5, 30, r.games / 2, r.games - r.games / 20, r.games.saturating_sub(9)] {
            let h = r.games.saturating_sub(g);
            if h > 0 && (h > 8) == (r.games > 8) {
                put(&skillratings::uscf::USCFRating { games: h, ..*r });
            }
        }
    } else if S::UNC {
        let u = S::num(a)[1];
        let top = if S::NAME == "weng_lin" || S::NAME == "trueskill" { f64::MAX } else { 350.0 };
        for f in [1.003, 1.4] {
            if u * f <= top {
                v.push((S::with_unc(a, u * f), *c));
            }
        }
        let mut cfg = |x: &dyn Any| v.extend(x.downcast_ref::<S::C>().map(|x| (*a, *x)));
        let any = c as &dyn Any;
        if let Some(c) = any.downcast_ref::<skillratings::glicko::GlickoConfig>() {
            cfg(&skillratings::glicko::GlickoConfig { c: c.c * 1.3 + 0.5 });
        } else if let Some(c) = any.downcast_ref::<skillratings::sticko::StickoConfig>() {
            cfg(&skillratings::sticko::StickoConfig { c: c.c * 1.3 + 0.5, ..*c });
        } else if let Some(c) = any.downcast_ref::<skillratings::trueskill::TrueSkillConfig>() {
            cfg(&skillratings::trueskill::TrueSkillConfig { dynamics_factor: c.dynamics_factor * 1.3 + 0.02, ..*c });
        }
    }
    v
}
fn c30_sys<S: Sys>(ctx: &Ctx) {
    if S::NAME == "elo" || S::NAME == "fifa" || S::NAME == "egf" {
        return;
    }
    // near the floor a loss may cost less
    let away = |a: &S::R| S::NAME != "uscf" || S::num(a)[0] > 1000.0;
    pairs::<S>(ctx, "stakes", |w, a, b, cfgs, xs| {
        for c in cfgs {
            // TrueSkill's dynamics count for the update but not for the surprise
            if (c as &dyn Any).downcast_ref::<skillratings::trueskill::TrueSkillConfig>().is_some_and(|c| c.dynamics_factor * 1.3 + 0.02 > c.beta) {
                continue;
            }
            for &x in xs {
                if !S::dom(a, b, x) || !tame::<S>(a, b, c) {
                    continue;
                }
                let case = || format!("{}({a:?}, {b:?}, {x:?}, {c:?})", S::NAME);
                w.at(case);
                let moves = |w: &mut W, a: &S::R, b: &S::R, c: &S::C, second: bool| -> [f64; 2] {
                    w.t(2);
                    [WIN, LOSS].map(|o| {
                        let r = if second { S::good(&S::rate(b, a, inv(o), x, c).1) } else { S::good(&S::rate(a, b, o, x, c).0) };
                        r - S::good(a)
                    })
                };
                if away(a) {
                    let base = moves(w, a, b, c, false);
                    w.trace_done();
                    w.state(1, &base);
                    for (p, q) in bolder::<S>(a, c) {
                        let m = moves(w, &p, b, &q, false);
                        let tol = noise::<S>(S::num(a)[0], S::num(a)[0] + m[0].abs().max(m[1].abs()), c) + 1e-9 * S::num(b)[0].abs();
                        c30_check::<S>(w, base, m, tol, || format!("{}: win {:+} loss {:+}; as {p:?} {q:?}: win {:+} loss {:+}", case(), base[0], base[1], m[0], m[1]));
                    }
                }
                if away(b) && S::dom(b, a, x) {
                    // the same from the second seat
                    let base = moves(w, b, a, c, true);
                    w.state(2, &base);
                    for (p, q) in bolder::<S>(b, c) {
                        let m = moves(w, &p, a, &q, true);
                        let tol = noise::<S>(S::num(b)[0], S::num(b)[0] + m[0].abs().max(m[1].abs()), c) + 1e-9 * S::num(a)[0].abs();
                        c30_check::<S>(w, base, m, tol, || format!("second player of {}: win {:+} loss {:+}; as {p:?} {q:?}: win {:+} loss {:+}", case(), base[0], base[1], m[0], m[1]));
                    }
                }
                w.sample(case);
            }
        }
    });
}
fn c30_check<S: Sys>(w: &mut W, base: [f64; 2], m: [f64; 2], tol: f64, case: impl Fn() -> String) {
    w.ok(m[0] - m[1] >= base[0] - base[1] - tol, "less is at stake for a less established player", &case);
    // Sticko adds constants to every game, provisional USCF ratings and Ingo average
    if S::NAME != "sticko" && S::NAME != "uscf" {
        w.ok(m[0].abs() >= base[0].abs() - tol && m[1].abs() >= base[1].abs() - tol, "a less established player moves less", &case);
    }
}
fn c30_periods<S: Sys>(ctx: &Ctx) {
    periods::<S>(ctx, "stakes of periods", &[], |w, a, l, short, cs| {
        let n = l.len();
        if !short && n > 70 {
            return;
        }
        let mut lists = [l.clone(), l.clone()];
        lists[0][n - 1].1 = WIN;
        lists[1][n - 1].1 = LOSS;
        for c in cs {
            w.at(|| format!("{} period {a:?} {} {c:?}", S::NAME, show(l)));
            let go = |p: &S::R, q: &S::C| lists.each_ref().map(|l| S::good(&S::period(p, l, q)) - S::good(p));
            let base = go(a, c);
            w.t(2);
            w.trace_done();
            w.state(3, &base);
            for (p, q) in bolder::<S>(a, c) {
                let m = go(&p, &q);
                w.t(2);
                let tol = noise::<S>(S::num(a)[0], S::num(a)[0] + m[0].abs().max(m[1].abs()), c) + 1e-5;
                c30_check::<S>(w, base, m, tol, || format!("{} {a:?} {} {c:?} last result win {:+} loss {:+}; as {p:?} {q:?}: {:+} {:+}", S::NAME, show(l), base[0], base[1], m[0], m[1]));
            }
        }
    });
}
/// Elo and FIFA: the change is proportional to k / the importance.
fn c30_scale<S: Sys>(ctx: &Ctx, scale: fn(&S::C, S::X, f64) -> (S::C, S::X)) {
    pairs::<S>(ctx, "proportional to k", |w, a, b, cfgs, xs| {
        for c in cfgs {
            for &x in xs {
                for o in OUT {
                    w.at(|| format!("{}({a:?}, {b:?}, {o:?}, {x:?}, {c:?})", S::NAME));
                    let r = S::rate(a, b, o, x, c);
                    w.t(1);
                    w.trace_done();
                    w.state(1, &[S::num(&r.0)[0], S::num(&r.1)[0]]);
                    for f in [0.5, 1.7, 3.0] {
                        let (d, y) = scale(c, x, f);
                        let q = S::rate(a, b, o, y, &d);
                        w.t(1);
                        for (p, r, q) in [(a, r.0, q.0), (b, r.1, q.1)] {
                            let (p, r, q) = (S::num(p)[0], S::num(&r)[0], S::num(&q)[0]);
                            w.ok((q - p - f * (r - p)).abs() <= 1e-9 * (1.0 + p.abs() + q.abs() + r.abs()), "the change is not proportional to k", || {
                                format!("{}({a:?}, {b:?}, {o:?}, {x:?}, {c:?}): {p} -> {r}, with {y:?} {d:?} -> {q}", S::NAME)
                            });
                        }
                    }
                }
            }
        }
    });
}
fn c30_teams<T: TeamSys>(ctx: &Ctx) {
    let cfgs = T::cfgs(2);
    let lay: Vec<Vec<Team>> = layouts(ctx, 2).into_iter().chain(lobbies(ctx)).filter(|t| t.len() == 2).collect();
    let rel = if T::NAME == "trueskill" { 1e-5 } else { 1e-9 };
    ctx.sweep(&format!("{} stakes of teams", T::NAME), &lay, |w, t| {
        for c in &T::at(t, &cfgs) {
            if T::dynamics(c) > T::beta(c) {
                continue;
            }
            let s = |x: &Team| (x.iter().map(|p| p.0).sum::<f64>(), x.iter().map(|p| p.1 * p.1 + T::beta(c).powi(2)).sum::<f64>());
            let (x, y) = (s(&t[0]), s(&t[1]));
            if T::NAME == "trueskill" && (x.0 - y.0).abs() > 6.0 * (x.1 + y.1).sqrt() {
                continue;
            }
            let case = || format!("{} two teams {t:?} {c:?}", T::NAME);
            w.at(case);
            let both = |w: &mut W, t: &[Team]| {
                w.t(2);
                let [x, y] = [WIN, LOSS].map(|o| T::two(&t[0], &t[1], o, c));
                [x, y]
            };
            let base = both(w, t);
            w.trace_done();
            let at = |r: &[(Team, Team); 2], i: usize, j: usize| if i == 0 { (r[0].0[j].0, r[1].0[j].0) } else { (r[1].1[j].0, r[0].1[j].0) };
            for i in 0..2 {
                for j in (0..t[i].len()).step_by((t[i].len() / 4).max(1)) {
                    for f in [1.01, 1.5] {
                        let mut u = t.clone();
                        u[i][j].1 *= f;
                        let r = both(w, &u);
                        let ((w0, l0), (w1, l1)) = (at(&base, i, j), at(&r, i, j));
                        w.state(4, &[w1, l1]);
                        w.ok(w1 - l1 >= (w0 - l0) * (1.0 - rel) - 1e-9, "less is at stake for a less established player", || format!("{}: player {j} of team {i} wins {w0} loses {l0}; with uncertainty times {f}: {w1} {l1}", case()));
                        // and not more for a certain one on the other side
                        let k = 1 - i;
                        if T::NAME == "weng_lin" {
                            let ((w0, l0), (w1, l1)) = (at(&base, k, 0), at(&r, k, 0));
                            w.ok(w1 - l1 <= (w0 - l0) * (1.0 + rel) + 1e-9, "more is at stake against a less certain opponent", || format!("{}: player 0 of team {k} wins {w0} loses {l0}; with uncertainty of player {j} of the other team times {f}: {w1} {l1}", case()));
                        }
                    }
                }
            }
        }
        w.sample(|| format!("{t:?}"));
    });
}

// ---------------------------------------------------------------- C31

pub fn c31(ctx: &Ctx) {
    for_all!(c31_sys, ctx);
    c31_periods::<Elo>(ctx);
    c31_periods::<Fifa>(ctx);
    c31_periods::<Ingo>(ctx);
    c31_periods::<Dwz>(ctx);
    c31_periods::<Egf>(ctx);
    c31_periods::<Glicko>(ctx);
    c31_periods::<Sticko>(ctx);
    c31_periods::<Wl>(ctx);
    c31_teams(ctx);
}
/// (a draw counts half a win, results as predicted leave the rating where it is)
fn linear<S: Sys>(a: &S::R, b: &S::R, x: &S::X, c: &S::C) -> (bool, bool) {
    let n = S::num(a);
    match S::NAME {
        "elo" | "weng_lin" => (true, true),
        "fifa" => {
            let y = (x as &dyn Any).downcast_ref::<skillratings::fifa::FifaConfig>().expect("HARNESS option type");
            (!y.knockout && !S::shootout(*x), !y.knockout && !S::shootout(*x))
        }
        "ingo" => (true, (n[0] - S::num(b)[0]).abs() < 50.0),
        // no acceleration, no braking
        "dwz" => (n[0] >= 1300.0 && n[3] > 20.0, n[0] >= 1300.0 && n[3] > 20.0),
        "uscf" => (n[3] > 8.0 && n[0] > 1000.0, n[3] > 8.0 && n[0] > 1000.0 && S::num(b)[3] > 8.0),
        "egf" => (n[0] > 0.0, false),
        "glicko" | "sticko" => (true, false),
        "glicko_boost" => (!S::boosted(a, &[(*b, WIN, *x)], c), false),
        "trueskill" => (false, S::outs(c).len() == 2),
        _ => (false, false),
    }
}
fn c31_sys<S: Sys>(ctx: &Ctx) {
    if S::NAME == "glicko2" {
        return;
    }
    pairs::<S>(ctx, "drift", |w, a, b, cfgs, xs| {
        for c in cfgs {
            for &x in xs {
                if !S::dom(a, b, x) {
                    continue;
                }
                let case = || format!("{}({a:?}, {b:?}, {x:?}, {c:?})", S::NAME);
                w.at(case);
                for second in [false, true] {
                    let (me, other) = if second { (b, a) } else { (a, b) };
                    let (half, still) = linear::<S>(me, other, &x, c);
                    if !half && !still || S::NAME == "glicko_boost" && second {
                        continue;
                    }
                    let go = |o: Outcomes| { let r = S::rate(a, b, if second { inv(o) } else { o }, x, c); S::num(if second { &r.1 } else { &r.0 })[0] };
                    let (win, loss) = (go(WIN), go(LOSS));
                    w.t(2);
                    w.trace_done();
                    w.state(1, &[win, loss]);
                    let old = S::num(me)[0];
                    let scale = 1.0 + old.abs() + win.abs() + loss.abs() + S::num(other)[0].abs();
                    if half && S::outs(c).len() == 3 {
                        let draw = go(DRAW);
                        w.t(1);
                        w.ok((draw - (win + loss) / 2.0).abs() <= 1e-9 * scale, "a draw does not count half a win", || format!("{} second={second}: win {win}, draw {draw}, loss {loss}", case()));
                    }
                    if still {
                        let e = S::exp(a, b, x, c);
                        let e = if second { e.1 } else { e.0 };
                        w.t(1);
                        // an underdog's upset can be worth hundreds of sigmas
                        let tol = if S::NAME == "trueskill" { 1e-6 * (1.0 + (win - loss).abs()) } else { 1e-9 * scale };
                        w.ok((e * win + (1.0 - e) * loss - old).abs() <= tol, "results as predicted move the rating on average", || format!("{} second={second}: expected {e}, win {win}, loss {loss}", case()));
                    }
                }
                w.sample(case);
            }
        }
    });
}
fn c31_periods<S: Sys>(ctx: &Ctx) {
    periods::<S>(ctx, "drift in periods", &[], |w, a, l, short, cs| {
        let n = l.len();
        if (S::NAME == "dwz" || S::NAME == "egf") && !l.iter().all(|e| linear::<S>(a, &e.0, &e.2, &cs[0]).0) || S::NAME == "egf" && S::num(a)[0] < 100.0 * n as f64 {
            return;
        }
        let pos: Vec<usize> = if S::SEQ { vec![n - 1] } else if short || n <= 3 { (0..n).collect() } else { vec![0, n / 2, n - 1] };
        for c in cs {
            for &i in &pos {
                if !linear::<S>(a, &l[i].0, &l[i].2, c).0 {
                    continue;
                }
                w.at(|| format!("{} period {a:?} {} {c:?}", S::NAME, show(l)));
                let mut m = l.clone();
                let [win, draw, loss] = [WIN, DRAW, LOSS].map(|o| {
                    m[i].1 = o;
                    S::num(&S::period(a, &m, c))[0]
                });
                w.t(3);
                w.trace_done();
                w.state(2, &[win, loss]);
                let scale = 1.0 + S::num(a)[0].abs() + win.abs() + loss.abs() + l.iter().map(|e| S::num(&e.0)[0].abs()).fold(0.0, f64::max);
                w.ok((draw - (win + loss) / 2.0).abs() <= 1e-8 * scale, "a draw does not count half a win in a rating period", || {
                    format!("{} {a:?} {} {c:?}: result {i} win {win}, draw {draw}, loss {loss}", S::NAME, show(l))
                });
            }
        }
    });
}
fn c31_teams(ctx: &Ctx) {
    let lay: Vec<Vec<Team>> = layouts(ctx, 2).into_iter().chain(lobbies(ctx)).filter(|t| t.len() == 2).collect();
    let wl = WlT::cfgs(2);
    let ts: Vec<_> = TsT::cfgs(2).into_iter().map(|c| skillratings::trueskill::TrueSkillConfig { draw_probability: 0.0, ..c }).collect();
    ctx.sweep("drift of teams", &lay, |w, t| {
        fn go<T: TeamSys>(w: &mut W, t: &[Team], c: &T::C, draws: bool, tol: f64) {
            let case = || format!("{} two teams {t:?} {c:?}", T::NAME);
            w.at(case);
            let f = |o| { let r = T::two(&t[0], &t[1], o, c); [r.0, r.1] };
            let (win, loss) = (f(WIN), f(LOSS));
            let e = T::exp2(&t[0], &t[1], c).0;
            w.t(3);
            w.trace_done();
            w.state(3, &flat(&win));
            let draw = draws.then(|| f(DRAW));
            w.t(u64::from(draws));
            for i in 0..2 {
                for j in 0..t[i].len() {
                    let (x, y, old) = (win[i][j].0, loss[i][j].0, t[i][j].0);
                    let scale = 1.0 + old.abs() + x.abs() + y.abs();
                    w.ok((e * x + (1.0 - e) * y - old).abs() <= tol * scale, "results as predicted move the rating on average", || format!("{}: expected {e}, player {j} of team {i}: win {x}, loss {y}", case()));
                    if let Some(d) = &draw {
                        w.ok((d[i][j].0 - (x + y) / 2.0).abs() <= tol * scale, "a draw does not count half a win", || format!("{}: player {j} of team {i}: win {x}, draw {}, loss {y}", case(), d[i][j].0));
                    }
                }
            }
        }
        for c in &WlT::at(t, &wl) {
            go::<WlT>(w, t, c, true, 1e-9);
        }
        for c in &ts {
            go::<TsT>(w, t, c, false, 1e-6);
        }
        w.sample(|| format!("{t:?}"));
    });
}

// ---------------------------------------------------------------- C32

/// Numbers, their closest neighbours, both zeros, and large, small and special values.
fn numbers(ctx: &Ctx) -> Vec<f64> {
    let mut v = vec![0.0, -0.0, 1500.0, 1500.0 + 1e-9, -1500.0, 25.0 / 3.0, 25.0, 350.0, 0.06, 1e-300, 1e300, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
    for x in ctx.lvl(vec![1500.0, 25.0, 0.06], vec![1500.0, 25.0, 0.06, 350.0, 1.0, 1e-9, 1e9]) {
        let b = f64::to_bits(x);
        v.extend([b - 1, b + 1, b + 2, b + 1_000_000].map(f64::from_bits));
        v.extend([x + 1e-12, x + 1e-6, x + 1e-3, x + 0.5, x - 0.25]);
    }
    v
}
fn counts() -> Vec<usize> {
    vec![0, 1, 2, 3, 7, 8, 20, 255, 256, 257, 65_535, 65_536, 65_792, usize::MAX >> 32, (usize::MAX >> 32) + 1, (usize::MAX >> 32) + 2, usize::MAX - 1, usize::MAX]
}
#[derive(Clone, Copy, Debug)]
enum Fields {
    One(f64),
    Two(f64, f64),
    Three(f64, f64, f64),
    Count(f64, usize),
    Counts(f64, usize, usize),
}
impl Fields {
    fn same(&self, o: &Fields) -> bool {
        match (self, o) {
            (Fields::One(a), Fields::One(b)) => a == b,
            (Fields::Two(a, c), Fields::Two(b, d)) => a == b && c == d,
            (Fields::Three(a, c, e), Fields::Three(b, d, f)) => a == b && c == d && e == f,
            (Fields::Count(a, c), Fields::Count(b, d)) => a == b && c == d,
            (Fields::Counts(a, c, e), Fields::Counts(b, d, f)) => a == b && c == d && e == f,
            _ => false,
        }
    }
    fn bits(&self) -> [u64; 3] {
        match *self {
            Fields::One(a) => [a.to_bits(), 0, 0],
            Fields::Two(a, b) => [a.to_bits(), b.to_bits(), 0],
            Fields::Three(a, b, c) => [a.to_bits(), b.to_bits(), c.to_bits()],
            Fields::Count(a, b) => [a.to_bits(), b as u64, 0],
            Fields::Counts(a, b, c) => [a.to_bits(), b as u64, c as u64],
        }
    }
}
/// Equality of every two values is equality of their fields; copies are indistinguishable from the original.
fn plain<R: Copy + PartialEq + std::fmt::Debug + Sync>(ctx: &Ctx, name: &str, values: &[R], fields: impl Fn(&R) -> Fields + Sync) {
    ctx.sweep(&format!("{name} equality"), values, |w, a| {
        w.at(|| format!("{name} {a:?}"));
        let (x, y) = (*a, Clone::clone(a));
        let f = fields(a);
        w.ok(fields(&x).bits() == f.bits() && fields(&y).bits() == f.bits(), "a copy differs from the original", || format!("{name} {a:?}: {x:?} {y:?}"));
        w.state(1, &f.bits().map(|b| b as f64));
        for b in values {
            let want = f.same(&fields(b));
            w.t(2);
            w.trace_done();
            w.ok((a == b) == want && (a != b) != want, "equality is not equality of all fields", || format!("{name} {a:?} == {b:?} is {}", a == b));
        }
        w.sample(|| format!("{name} {a:?}"));
    });
}
pub fn c32(ctx: &Ctx) {
    use skillratings::{dwz::*, egf::*, elo::*, fifa::*, glicko::*, glicko2::*, glicko_boost::*, ingo::*, sticko::*, trueskill::*, uscf::*, weng_lin::*, MultiTeamOutcome};
    let n = numbers(ctx);
    let ints = counts();
    let one: Vec<f64> = n.clone();
    let two: Vec<(f64, f64)> = n.iter().flat_map(|a| n.iter().map(move |b| (*a, *b))).collect();
    let few = [0.06, 0.06 + 1e-12, 0.0, -0.0, f64::from_bits(0.06f64.to_bits() + 1), f64::NAN, 1.0];
    macro_rules! ones {
        ($($n:literal $t:ident)*) => { $( plain(ctx, $n, &one.iter().map(|&rating| $t { rating }).collect::<Vec<_>>(), |r| Fields::One(r.rating)); )* };
    }
    ones!("EloRating" EloRating "FifaRating" FifaRating "EGFRating" EGFRating);
    macro_rules! twos {
        ($($n:literal $t:ident $f:ident)*) => { $( plain(ctx, $n, &two.iter().map(|&(rating, $f)| $t { rating, $f }).collect::<Vec<_>>(), |r| Fields::Two(r.rating, r.$f)); )* };
    }
    twos!("GlickoRating" GlickoRating deviation "GlickoBoostRating" GlickoBoostRating deviation "StickoRating" StickoRating deviation "WengLinRating" WengLinRating uncertainty "TrueSkillRating" TrueSkillRating uncertainty);
    let three: Vec<_> = two.iter().step_by(3).flat_map(|&(rating, deviation)| few.map(|volatility| Glicko2Rating { rating, deviation, volatility })).collect();
    plain(ctx, "Glicko2Rating", &three, |r| Fields::Three(r.rating, r.deviation, r.volatility));
    let count: Vec<(f64, usize)> = n.iter().flat_map(|a| ints.iter().map(move |b| (*a, *b))).collect();
    plain(ctx, "IngoRating", &count.iter().map(|&(rating, age)| IngoRating { rating, age }).collect::<Vec<_>>(), |r| Fields::Count(r.rating, r.age));
    plain(ctx, "USCFRating", &count.iter().map(|&(rating, games)| USCFRating { rating, games }).collect::<Vec<_>>(), |r| Fields::Count(r.rating, r.games));
    let counts: Vec<_> = n.iter().step_by(3).flat_map(|&rating| ints.iter().flat_map(move |&index| counts().into_iter().map(move |age| DWZRating { rating, index, age }))).collect();
    plain(ctx, "DWZRating", &counts, |r| Fields::Counts(r.rating, r.index, r.age));
    // outcomes and ranks
    ctx.sweep("Outcomes", &OUT, |w, a| {
        w.at(|| format!("{a:?}"));
        for b in &OUT {
            let same = std::mem::discriminant(a) == std::mem::discriminant(b);
            w.t(2);
            w.trace_done();
            w.ok((a == b) == same && (a != b) != same, "equality of outcomes", || format!("{a:?} == {b:?} is {}", a == b));
            w.ok((a.to_chess_points() > b.to_chess_points()) == (pts(*a) > pts(*b)), "the points of outcomes are out of order", || format!("{a:?} {b:?}"));
        }
        w.ok(a.to_chess_points() + inv(*a).to_chess_points() == 1.0, "the two sides' points do not add up to 1", || format!("{a:?}"));
        w.state(2, &[a.to_chess_points()]);
    });
    let ranks: Vec<usize> = (0..ctx.lvl(700, 3000)).chain(ints.iter().copied()).chain((0..64).flat_map(|i| [1usize << i, (1usize << i) - 1, (1usize << i) + 1])).collect();
    ctx.sweep("MultiTeamOutcome", &ranks, |w, &a| {
        w.at(|| format!("rank {a}"));
        let x = MultiTeamOutcome::new(a);
        w.ok(x.rank() == a && MultiTeamOutcome::from(a).rank() == a && usize::from(x) == a, "the rank is not kept", || format!("{a}: {x:?}"));
        for &b in &ranks {
            let y = MultiTeamOutcome::from(b);
            w.t(6);
            w.trace_done();
            w.ok(x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)) && (x == y) == (a == b) && (x < y) == (a < b) && (x >= y) == (a >= b) && x.max(y).rank() == a.max(b) && x.min(y).rank() == a.min(b), "ranks do not order like their numbers", || format!("{a} and {b}: {:?}", x.cmp(&y)));
        }
        w.state(3, &[a as f64]);
    });
    // errors: equal to themselves only, every one with a text of its own
    let errs = [GetFirstDWZError::NotEnoughGames, GetFirstDWZError::InvalidWinRate];
    ctx.sweep("errors", &[()], |w, ()| {
        w.at(|| "errors".into());
        let dyns: Vec<&dyn std::error::Error> = errs.iter().map(|e| e as _).collect();
        w.ok(errs[0] == errs[0] && errs[0] != errs[1] && errs[1] == errs[1], "equality of errors", || format!("{errs:?}"));
        w.ok(dyns.iter().all(|e| !e.to_string().trim().is_empty()) && dyns[0].to_string() != dyns[1].to_string(), "error texts", || format!("{:?}", dyns.iter().map(|e| e.to_string()).collect::<Vec<_>>()));
        let ix = [0usize, 1, 2, 9, 10, 11, 300];
        let mut we = vec![WeightError::TeamAmount];
        for team in ix {
            we.push(WeightError::PlayerAmount { team });
            we.extend(ix.map(|player| WeightError::Weight { team, player }));
        }
        for (i, x) in we.iter().enumerate() {
            let text = x.to_string();
            // the number belongs to the word before it
            let named = |what: &str, n: usize| {
                let mut last = String::new();
                let mut seen = vec![];
                for t in text.to_lowercase().split(|c: char| !c.is_ascii_alphanumeric()).filter(|t| !t.is_empty()) {
                    if t.bytes().all(|b| b.is_ascii_digit()) {
                        seen.push((last.clone(), t.to_string()));
                    } else if ["team", "player"].contains(&t) {
                        last = t.to_string();
                    }
                }
                seen.iter().any(|(l, t)| l == what && *t == n.to_string()) || seen.iter().all(|(l, _)| l.is_empty()) && seen.iter().any(|(_, t)| *t == n.to_string())
            };
            w.ok(!text.trim().is_empty() && match *x {
                WeightError::TeamAmount => true,
                WeightError::PlayerAmount { team } => named("team", team),
                WeightError::Weight { team, player } => named("team", team) && named("player", player),
            }, "the text of an error does not name the team and the player", || format!("{x:?}: {text}"));
            for (j, y) in we.iter().enumerate() {
                w.t(1);
                w.ok((x == y) == (i == j), "equality of errors", || format!("{x:?} == {y:?}"));
                w.ok((text == y.to_string()) == (i == j), "two errors have the same text", || format!("{x:?} {y:?}: {text}"));
            }
        }
        w.t(7);
        w.trace_done();
        w.state(4, &[1.0]);
    });
}
