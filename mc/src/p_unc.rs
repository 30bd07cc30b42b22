//! C07 (inactivity), C08 (uncertainty), C16 (reduction to Glicko), C20 (Glicko-2 volatility).
use crate::core::*;
use crate::for_all;
use crate::gen::*;
use crate::p_res::{same, show};
use crate::refm;
use crate::sys::*;
use crate::teams::*;
use skillratings::{
    glicko::GlickoConfig, glicko::GlickoRating, glicko2::{Glicko2Config, Glicko2Rating}, glicko_boost::{GlickoBoostConfig, GlickoBoostRating}, sticko::{StickoConfig, StickoRating},
    Outcomes, Outcomes::*,
};

// ---------------------------------------------------------------- C07
pub fn c07(ctx: &Ctx) {
    for_all!(c07_idle, ctx);
    c07_decay::<Glicko>(ctx);
    c07_decay::<Glicko2>(ctx);
    c07_decay::<Sticko>(ctx);
    c07_decay::<GBoost>(ctx);
    c07_teams::<WlT>(ctx);
    c07_teams::<TsT>(ctx);
    ctx.assume("deviations above 350 are outside the domain of decay");
}
fn c07_idle<S: Sys>(ctx: &Ctx) {
    let mut pl = S::players(3);
    pl.extend(S::players(2));
    pl.extend(S::players(1));
    let cfgs = S::cfgs(2);
    ctx.sweep(&format!("{} empty period", S::NAME), &pl, |w, a| {
        for c in &cfgs {
            w.at(|| format!("{} empty period of {a:?} with {c:?}", S::NAME));
            let r = S::period(a, &[], c);
            let (n, o, e) = (S::num(&r), S::num(a), S::idle(a, c));
            w.t(1);
            w.trace_done();
            w.state(1, &n);
            let case = || format!("{} empty period of {a:?} with {c:?}: {r:?}, expected {e:?}", S::NAME);
            w.ok(n[0] == o[0] && n[2] == o[2] && n[3] == o[3], "an empty rating period changes the rating or its attributes", case);
            if S::decay(a, c).is_some() {
                let d = S::decay(a, c).unwrap();
                w.t(1);
                w.ok(S::num(&d) == n || same::<S>(&S::num(&d), &n, 1e-12), "an empty rating period differs from explicit decay", || format!("{}; decay {d:?}", case()));
                w.ok(near(n[1], e[1], 1e-9), "an empty rating period does not follow the decay formula", case);
            } else {
                w.ok(n == o, "an empty rating period changes the player", case);
            }
            let ex = S::exp_period(a, &[], c);
            w.ok(ex.is_empty(), "expected scores without opponents", case);
            w.sample(|| format!("{} {a:?} -> {r:?}", S::NAME));
        }
    });
}
fn c07_decay<S: Sys>(ctx: &Ctx) {
    let mut pl = S::players(3);
    pl.extend(S::players(2));
    let cfgs = S::cfgs(2);
    let periods = ctx.lvl(120, 1500);
    ctx.sweep(&format!("{} repeated decay", S::NAME), &pl, |w, a| {
        for c in &cfgs {
            let mut cur = *a;
            let mut model = S::num(a)[1];
            for n in 1..=periods {
                let case = || format!("{} {a:?} after {n} decays with {c:?}", S::NAME);
                w.at(case);
                let next = if n % 3 == 0 { S::period(&cur, &[], c) } else { S::decay(&cur, c).unwrap() };
                w.t(1);
                let (o, x) = (S::num(&cur), S::num(&next));
                w.ok(x[0] == o[0] && x[2] == o[2], "decay changes the rating or volatility", || format!("{}: {next:?}", case()));
                w.ok(x[1] >= o[1] * (1.0 - 1e-12) && x[1] <= 350.0, "decay lowers a deviation or lifts it above 350", || format!("{}: {cur:?} -> {next:?}", case()));
                let want = match S::NAME {
                    "glicko_boost" => {
                        model = S::idle(&S::with_unc(&cur, model), c)[1];
                        model
                    }
                    _ => {
                        // n periods add n times the squared constant
                        let once = S::idle(&S::with_unc(a, 1e-300), c)[1];
                        let per2 = if once >= 350.0 { f64::INFINITY } else { once * once };
                        (S::num(a)[1].powi(2) + n as f64 * per2).sqrt().min(350.0)
                    }
                };
                w.ok(near(x[1], want, 1e-9), "n decay periods do not add up", || format!("{}: {next:?}, expected deviation {want}", case()));
                if n < 40 {
                    w.state(2, &x);
                }
                cur = next;
                if x[1] == 350.0 && n > 3 {
                    break;
                }
            }
            w.trace_done();
        }
    });
    // larger decay constant, larger deviation
    ctx.sweep(&format!("{} decay constants", S::NAME), &S::players(2), |w, a| {
        match S::NAME {
            "glicko" | "sticko" => {
                let mut last = 0.0;
                for i in 0..=ctx.lvl(80, 800) {
                    let c = f64::from(i) * if ctx.thorough { 0.5 } else { 5.0 };
                    let n = S::num(a);
                    let d = if S::NAME == "glicko" {
                        skillratings::glicko::decay_deviation(&GlickoRating { rating: n[0], deviation: n[1] }, &GlickoConfig { c }).deviation
                    } else {
                        skillratings::sticko::decay_deviation(&StickoRating { rating: n[0], deviation: n[1] }, &StickoConfig { c, ..StickoConfig::new() }).deviation
                    };
                    w.t(1);
                    w.ok(d >= last && near(d, refm::decay(n[1], c), 1e-12), "a larger decay constant gives a smaller deviation", || format!("{} {a:?} c={c}: {d}, before {last}", S::NAME));
                    last = d;
                }
                w.state(3, &[last]);
            }
            "glicko2" => {
                let mut last = 0.0;
                for i in 0..=ctx.lvl(60, 600) {
                    let n = S::num(a);
                    let d = skillratings::glicko2::decay_deviation(&Glicko2Rating { rating: n[0], deviation: n[1], volatility: f64::from(i) * if ctx.thorough { 0.002 } else { 0.02 } }).deviation;
                    w.t(1);
                    w.ok(d >= last, "a larger volatility gives a smaller deviation", || format!("{a:?} step {i}: {d}, before {last}"));
                    last = d;
                }
                w.state(3, &[last]);
            }
            _ => {
                let mut last = 0.0;
                for i in 0..=60 {
                    let n = S::num(a);
                    let mut cfg = GlickoBoostConfig::new();
                    cfg.alpha.0 = f64::from(i) * 0.25 - 2.0;
                    let d = skillratings::glicko_boost::decay_deviation(&GlickoBoostRating { rating: n[0], deviation: n[1] }, &cfg).deviation;
                    w.t(1);
                    w.ok(d >= last, "a larger decay constant gives a smaller deviation", || format!("{a:?} step {i}: {d}, before {last}"));
                    last = d;
                }
                w.state(3, &[last]);
            }
        }
        w.trace_done();
    });
}
fn c07_teams<T: TeamSys>(ctx: &Ctx) {
    let cfgs = T::cfgs(2);
    let mut lay = layouts(ctx, ctx.lvl(3, 4));
    lay.extend(TA.iter().map(|t| vec![vec![*t]]));
    lay.extend((4..=ctx.lvl(12, 40)).chain([20, 33, 65]).flat_map(|n| [fill(&vec![1; n], n), fill(&(0..n).map(|i| 1 + i % 3).collect::<Vec<_>>(), n)]));
    lay.push(vec![]);
    lay.extend((1..=ctx.lvl(20, 80)).chain([130]).flat_map(|m| [fill(&[m], 1), fill(&[m], 4)]));
    ctx.sweep(&format!("{} empty team", T::NAME), &lay, |w, t| {
        let n = t.len();
        if n == 1 {
            for c in &cfgs {
                for r in [0usize, 1, 5, 1_000_000] {
                    let case = || format!("{} a lone team {t:?} {r} {c:?}", T::NAME);
                    w.at(case);
                    let x = T::multi(t, &[r], c);
                    w.t(1);
                    w.trace_done();
                    w.state(4, &flat(&x));
                    w.ok(x.len() == 1 && x[0].len() == t[0].len(), "a match of a lone team loses somebody", || format!("{}: {x:?}", case()));
                    w.close_all(&flat(&x), &flat(t), 1e-12, "a match of a lone team changes somebody", case);
                }
            }
        }
        for c in &T::at(t, &cfgs) {
            // an empty team at every position, and two of them
            let mut with: Vec<Vec<Team>> = vec![];
            for i in 0..=n {
                let mut u = t.clone();
                u.insert(i, vec![]);
                with.push(u.clone());
                u.insert(n + 1, vec![]);
                with.push(u);
            }
            for u in &with {
                for r in if u.len() <= 3 { weak_orders(u.len()) } else { some_ranks(u.len()).into_iter().take(8).collect() } {
                    let case = || format!("{} many teams {u:?} {r:?} {c:?}", T::NAME);
                    w.at(case);
                    let x = T::multi(u, &r, c);
                    w.t(1);
                    w.trace_done();
                    w.state(4, &flat(&x));
                    w.ok(&x == u, "a match with an empty team changes somebody", || format!("{}: {x:?}", case()));
                }
            }
            if n == 1 {
                for o in OUT {
                    let (e, x) = T::two(&[], &t[0], o, c);
                    let (y, f) = T::two(&t[0], &[], o, c);
                    w.t(2);
                    w.ok(e.is_empty() && f.is_empty() && x == t[0] && y == t[0], "a two-team match against nobody changes somebody", || format!("{} {t:?} {o:?} {c:?}: {x:?} {y:?}", T::NAME));
                }
            }
            if n == 2 {
                for (k, side) in t.iter().enumerate() {
                    for o in OUT {
                        let (e, x) = T::two(&[], side, o, c);
                        let (y, f) = T::two(side, &[], o, c);
                        w.t(2);
                        w.ok(e.is_empty() && f.is_empty() && &x == side && &y == side, "a two-team match against nobody changes somebody", || format!("{} team {k} of {t:?} {o:?} {c:?}: {x:?} {y:?}", T::NAME));
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C08
pub fn c08(ctx: &Ctx) {
    c08_sys::<Glicko>(ctx);
    c08_sys::<Glicko2>(ctx);
    c08_sys::<Sticko>(ctx);
    c08_sys::<GBoost>(ctx);
    c08_sys::<Wl>(ctx);
    c08_sys::<Ts>(ctx);
    c08_teams::<WlT>(ctx);
    c08_teams::<TsT>(ctx);
}
/// Upper bound of the new uncertainty of a single match or period: what sitting out (with the new volatility) gives.
fn sit_out<S: Sys>(a: &S::R, n: &N4, c: &S::C, games: f64) -> f64 {
    match S::NAME {
        "glicko" => S::idle(a, c)[1],
        "glicko2" => S::num(a)[1].hypot(n[2] * 173.7178),
        "weng_lin" => S::num(a)[1],
        "trueskill" => (S::num(a)[1].powi(2) + games * S::dynamics(c).powi(2)).sqrt(),
        _ => 350.0,
    }
}
fn c08_bounds<S: Sys>(w: &mut W, a: &S::R, n: &N4, c: &S::C, lim: f64, case: &dyn Fn() -> String) {
    w.ok(n[1] > 0.0 && (S::NAME != "glicko2" || n[2] > 0.0), "uncertainty or volatility not positive", || format!("{}: {n:?}", case()));
    let cap = if S::NAME == "glicko" || S::NAME == "sticko" || S::NAME == "glicko_boost" { 350.0 } else { f64::INFINITY };
    w.ok(n[1] <= cap, "deviation above 350", || format!("{}: {n:?}", case()));
    w.ok(n[1] <= lim * (1.0 + 1e-9), "playing leaves the player less certain than sitting out", || format!("{}: {n:?}, sitting out {lim} ({a:?} {c:?})", case()));
}
fn c08_sys<S: Sys>(ctx: &Ctx) {
    let (p2, p3) = (S::players(2), S::players(3));
    let cfgs = S::cfgs(2);
    let xs = S::xs(2);
    let indep = matches!(S::NAME, "glicko" | "sticko" | "weng_lin");
    pairs::<S>(ctx, "matches", |w, a, b, cfgs, xs| {
        {
            for c in cfgs {
                for &x in xs {
                    let mut u = [[0.0; 2]; 3];
                    for (k, o) in OUT.into_iter().enumerate() {
                        let case = || format!("{}({a:?}, {b:?}, {o:?}, {x:?}, {c:?})", S::NAME);
                        w.at(case);
                        let (r, s) = S::rate(a, b, o, x, c);
                        let (nr, ns) = (S::num(&r), S::num(&s));
                        w.t(1);
                        w.trace_done();
                        w.state(1, &[nr[1], ns[1], nr[2]]);
                        c08_bounds::<S>(w, a, &nr, c, sit_out::<S>(a, &nr, c, 1.0), &case);
                        c08_bounds::<S>(w, b, &ns, c, sit_out::<S>(b, &ns, c, 1.0), &case);
                        u[k] = [nr[1], ns[1]];
                    }
                    if indep {
                        for k in 1..3 {
                            w.ok(near(u[k][0], u[0][0], 1e-12) && near(u[k][1], u[0][1], 1e-12), "the new uncertainty depends on who won", || format!("{}({a:?}, {b:?}, {x:?}, {c:?}): {u:?}", S::NAME));
                        }
                    }
                }
            }
        }
    });
    // rating periods
    periods::<S>(ctx, "periods", &[], |w, a, l, _, cs| {
        {
            for c in cs {
                let case = || format!("{} period {a:?} {} {c:?}", S::NAME, show(l));
                w.at(case);
                let n = S::num(&S::period(a, l, c));
                w.t(1);
                w.trace_done();
                w.state(2, &[n[1], n[2]]);
                c08_bounds::<S>(w, a, &n, c, sit_out::<S>(a, &n, c, l.len() as f64), &case);
                if S::NAME == "glicko" || S::NAME == "sticko" {
                    let flipped: L<S> = l.iter().map(|e| (e.0, inv(e.1), e.2)).collect();
                    let m = S::num(&S::period(a, &flipped, c));
                    w.t(1);
                    w.ok(near(m[1], n[1], 1e-12), "the new uncertainty depends on who won", || format!("{}: {n:?}, inverted results {m:?}", case()));
                }
                if S::NAME == "glicko" {
                    let m = S::num(&S::period(a, &l[..l.len() - 1], c));
                    w.t(1);
                    w.ok(n[1] <= m[1] * (1.0 + 1e-12), "a further result does not lower the deviation", || format!("{}: {n:?}, without the last result {m:?}", case()));
                    let (b, _, x) = l[l.len() - 1];
                    if S::good(a) - S::good(&b) < 1200.0 && S::good(a) - S::good(&b) > -1200.0 && S::num(a)[1] > 5.0 && m[1] > 5.0 {
                        w.ok(n[1] < m[1], "a further result does not lower the deviation", || format!("{}: {n:?}, without the last result {m:?} {x:?}", case()));
                    }
                }
            }
        }
    });
    // an evenly matched opponent is the most informative one
    if S::NAME == "glicko" || S::NAME == "weng_lin" {
        ctx.sweep(&format!("{} information", S::NAME), &p2, |w, a| {
            for b in &S::players(1) {
                for c in &cfgs {
                    for dir in [1.0, -1.0] {
                        let mut last = 0.0;
                        for i in 0..=ctx.lvl(60, 400) {
                            let stp = if S::NAME == "glicko" { 25.0 } else { 0.7 } / ctx.lvl(1.0, 4.0);
                            let q = S::with_rating(b, S::num(a)[0] + dir * stp * f64::from(i));
                            let n = S::num(&S::rate(a, &q, WIN, xs[0], c).0);
                            let p = S::num(&S::period(a, &[(q, LOSS, xs[0])], c));
                            w.t(2);
                            w.ok(n[1] >= last * (1.0 - 1e-9) && p[1] >= last * (1.0 - 1e-9), "a mismatched opponent is more informative than an even one", || {
                                format!("{} {a:?} against {q:?} {c:?}: {} / {}, closer opponent {last}", S::NAME, n[1], p[1])
                            });
                            last = n[1];
                        }
                        w.trace_done();
                        w.state(3, &[last]);
                    }
                }
            }
        });
    }
    // confidence intervals and ranks
    ctx.sweep(&format!("{} intervals", S::NAME), &[&p3[..], &p2[..]].concat(), |w, a| {
        let n = S::num(a);
        if let Some((lo, hi)) = S::ci(a) {
            w.t(1);
            w.trace_done();
            w.state(4, &[lo, hi]);
            w.ok(near(lo, n[0] - 1.96 * n[1], 1e-12) && near(hi, n[0] + 1.96 * n[1], 1e-12), "confidence interval", || format!("{} {a:?}: {lo} {hi}", S::NAME));
        } else if S::NAME == "trueskill" {
            let r = skillratings::trueskill::get_rank(&skillratings::trueskill::TrueSkillRating { rating: n[0], uncertainty: n[1] });
            w.t(1);
            w.trace_done();
            w.state(5, &[r]);
            w.ok(near(r, n[0] - 3.0 * n[1], 1e-12), "TrueSkill rank", || format!("{a:?}: {r}"));
        }
    });
}
fn c08_teams<T: TeamSys>(ctx: &Ctx) {
    let c1 = T::cfgs(2);
    let mut lay = layouts(ctx, ctx.lvl(4, 5));
    lay.extend(lobbies(ctx));
    ctx.sweep(&format!("{} teams", T::NAME), &lay, |w, t| {
        for c in &T::at(t, &c1) {
            let tau = T::dynamics(c);
            let good = |w: &mut W, x: &[Team], case: &dyn Fn() -> String| {
                let okay = x.len() == t.len() && x.iter().zip(t).all(|(x, t)| x.len() == t.len() && x.iter().zip(t).all(|(n, o)| n.1 > 0.0 && n.1 <= o.1.hypot(tau) * (1.0 + 1e-9)));
                w.ok(okay, "team member's uncertainty not positive or larger than before", || format!("{}: {x:?}", case()));
            };
            for r in some_ranks(t.len()) {
                let case = || format!("{} teams {t:?} {r:?} {c:?}", T::NAME);
                w.at(case);
                let x = T::multi(t, &r, c);
                w.t(1);
                w.trace_done();
                w.state(6, &flat(&x));
                good(w, &x, &case);
            }
            if t.len() == 2 {
                let mut first: Option<Vec<f64>> = None;
                for o in OUT {
                    let case = || format!("{} two teams {t:?} {o:?} {c:?}", T::NAME);
                    w.at(case);
                    let (a, b) = T::two(&t[0], &t[1], o, c);
                    w.t(1);
                    good(w, &[a.clone(), b.clone()], &case);
                    if T::NAME == "weng_lin" {
                        let u: Vec<f64> = a.iter().chain(&b).map(|p| p.1).collect();
                        if let Some(f) = &first {
                            w.close_all(&u, f, 1e-12, "the new uncertainty depends on who won", case);
                        } else {
                            first = Some(u);
                        }
                    }
                }
            }
            if T::NAME == "weng_lin" {
                let mut first: Option<Vec<f64>> = None;
                for r in some_ranks(t.len()) {
                    let u: Vec<f64> = T::multi(t, &r, c).iter().flatten().map(|p| p.1).collect();
                    if let Some(f) = &first {
                        w.close_all(&u, f, 1e-12, "the new uncertainty depends on the ranks", || format!("{} {t:?} {r:?} {c:?}", T::NAME));
                    } else {
                        first = Some(u);
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C16
pub fn c16(ctx: &Ctx) {
    let g = |r: &StickoRating| GlickoRating { rating: r.rating, deviation: r.deviation };
    let sc = |c: f64| StickoConfig { h: 0.0, beta: 0.0, lambda: 0.0, gamma: 0.0, c };
    let eq = |x: f64, y: f64, d: f64, e: f64| near(x, y, 1e-9) && near(d, e, 1e-9);
    let cs = [0.0, 1.0, 15.0, 34.6, 63.2, 120.0, 350.0, 500.0];
    pairs::<Sticko>(ctx, "sticko = glicko, matches", |w, a, b, _, _| {
        let (e1, e2) = skillratings::sticko::expected_score(a, b, &sc(0.0));
        let (f1, f2) = skillratings::glicko::expected_score(&g(a), &g(b));
        w.t(2);
        w.ok((e1 - f1).abs() < 1e-10 && (e2 - f2).abs() < 1e-10, "Sticko without extras: expected score differs from Glicko", || format!("{a:?} {b:?}: {e1} {e2}, Glicko {f1} {f2}"));
        for c in cs {
            let (d, e) = (skillratings::sticko::decay_deviation(a, &sc(c)), skillratings::glicko::decay_deviation(&g(a), &GlickoConfig { c }));
            w.ok(d.rating == e.rating && near(d.deviation, e.deviation, 1e-12), "Sticko without extras: decay differs from Glicko", || format!("{a:?} c={c}: {d:?}, Glicko {e:?}"));
            for o in OUT {
                let (r, s) = skillratings::sticko::sticko(a, b, &o, &sc(c));
                let (x, y) = skillratings::glicko::glicko(&g(a), &g(b), &o, &GlickoConfig { c });
                w.t(4);
                w.trace_done();
                w.state(1, &[r.rating, s.rating]);
                w.ok(eq(r.rating, x.rating, r.deviation, x.deviation) && eq(s.rating, y.rating, s.deviation, y.deviation), "Sticko without extras differs from Glicko", || {
                    format!("{a:?} {b:?} {o:?} c={c}: {r:?} {s:?}, Glicko {x:?} {y:?}")
                });
            }
        }
    });
    periods::<Sticko>(ctx, "= glicko, periods", &[], |w, a, l, _, _| {
        let gl: Vec<(GlickoRating, Outcomes)> = l.iter().map(|e| (g(&e.0), e.1)).collect();
        let os: Vec<(StickoRating, bool)> = l.iter().map(|e| (e.0, e.2)).collect();
        let go: Vec<GlickoRating> = l.iter().map(|e| g(&e.0)).collect();
        {
            for c in [0.0, 34.6, 63.2, 200.0] {
                w.at(|| format!("{a:?} {} c={c}", show(l)));
                let r = skillratings::sticko::sticko_rating_period(a, l, &sc(c));
                let x = skillratings::glicko::glicko_rating_period(&g(a), &gl, &GlickoConfig { c });
                w.t(2);
                w.trace_done();
                w.state(2, &[r.rating, r.deviation]);
                w.ok(eq(r.rating, x.rating, r.deviation, x.deviation), "Sticko period without extras differs from Glicko", || format!("{a:?} {} c={c}: {r:?}, Glicko {x:?}", show(l)));
            }
            let e = skillratings::sticko::expected_score_rating_period(a, &os, &sc(1.0));
            let f = skillratings::glicko::expected_score_rating_period(&g(a), &go);
            w.t(2);
            w.close_all(&e, &f, 1e-10, "Sticko period expected scores without extras differ from Glicko", || format!("{a:?} {}", show(l)));
        }
        w.sample(|| show(l));
    });
    // Glicko-Boost
    let bg = |r: &GlickoBoostRating| GlickoRating { rating: r.rating, deviation: r.deviation };
    // "no decay": exp(alpha.0) = 0; with alpha = 0 the decay term is exactly 1.
    let off = GlickoBoostConfig { eta: 0.0, k: 0.0, b: (0.0, 0.0), alpha: (-1e6, 0.0, 0.0, 0.0, 0.0) };
    let one = GlickoBoostConfig { alpha: (0.0, 0.0, 0.0, 0.0, 0.0), ..off };
    let high = GlickoBoostConfig { k: f64::MAX, b: (0.3, 20.0), ..off };
    let z0 = GlickoConfig { c: 0.0 };
    pairs::<GBoost>(ctx, "glicko_boost = glicko, matches", |w, a, b, cfgs, _| {
        let (e1, e2) = skillratings::glicko_boost::expected_score(a, b, &off);
        let (f1, f2) = skillratings::glicko::expected_score(&bg(a), &bg(b));
        w.t(2);
        w.ok((e1 - f1).abs() < 1e-10 && (e2 - f2).abs() < 1e-10, "Glicko-Boost without extras: expected score differs from Glicko", || format!("{a:?} {b:?}: {e1} {e2}, Glicko {f1} {f2}"));
        for o in OUT {
            let (x, y) = skillratings::glicko::glicko(&bg(a), &bg(b), &o, &z0);
            w.t(1);
            for (ci, c) in [off, one, high].iter().enumerate() {
                let add = f64::from(u8::from(ci == 1));
                let (r, s) = skillratings::glicko_boost::glicko_boost(a, b, &o, c);
                w.t(1);
                w.trace_done();
                w.state(3, &[r.rating, s.rating]);
                let dv = |d: f64| (d * d + add).sqrt().min(350.0);
                w.ok(eq(r.rating, x.rating, r.deviation, dv(x.deviation)) && eq(s.rating, y.rating, s.deviation, dv(y.deviation)), "Glicko-Boost without extras differs from Glicko", || {
                    format!("{a:?} {b:?} {o:?} config {c:?}: {r:?} {s:?}, Glicko {x:?} {y:?}")
                });
            }
            // not exceptional: no boost
            for c in cfgs {
                let plain = GlickoBoostConfig { k: 0.0, b: (0.0, 0.0), ..*c };
                let z = |p: &GlickoBoostRating, q: &GlickoBoostRating, o, adv| refm::boost_z(p.rating, &[(q.rating, q.deviation, pts(o), adv)]);
                let (r, s) = skillratings::glicko_boost::glicko_boost(a, b, &o, c);
                let (x, y) = skillratings::glicko_boost::glicko_boost(a, b, &o, &plain);
                w.t(2);
                let (za, zb) = (z(a, b, o, c.eta), z(b, a, inv(o), -c.eta));
                if c.k == 0.0 || za < c.k - 1e-9 {
                    w.ok(eq(r.rating, x.rating, r.deviation, x.deviation), "a player without exceptional performance is boosted", || format!("{a:?} {b:?} {o:?} {c:?} (z = {za}): {r:?}, unboosted {x:?}"));
                } else if c.b.0 >= 0.0 && c.b.1 > 0.0 && za > c.k + 1e-9 && (za - c.k) * c.b.0 > 1.0 && a.deviation < 150.0 {
                    // far above the threshold the boost dominates and must show
                    w.ok(r.deviation >= x.deviation * (1.0 - 1e-9), "an exceptional performance is not boosted", || format!("{a:?} {b:?} {o:?} {c:?} (z = {za}): {r:?}, unboosted {x:?}"));
                }
                if c.k == 0.0 || zb < c.k - 1e-9 {
                    w.ok(eq(s.rating, y.rating, s.deviation, y.deviation), "a player without exceptional performance is boosted", || format!("{a:?} {b:?} {o:?} {c:?} (z = {zb}): {s:?}, unboosted {y:?}"));
                }
            }
        }
    });
    periods::<GBoost>(ctx, "= glicko, periods", &[], |w, a, l, _, cs| {
        let gl: Vec<(GlickoRating, Outcomes)> = l.iter().map(|e| (bg(&e.0), e.1)).collect();
        {
            let x = skillratings::glicko::glicko_rating_period(&bg(a), &gl, &z0);
            w.t(1);
            for (ci, c) in [off, one, high].iter().enumerate() {
                let add = f64::from(u8::from(ci == 1));
                w.at(|| format!("{a:?} {} {c:?}", show(l)));
                let r = skillratings::glicko_boost::glicko_boost_rating_period(a, l, c);
                w.t(1);
                w.trace_done();
                w.state(4, &[r.rating, r.deviation]);
                w.ok(eq(r.rating, x.rating, r.deviation, (x.deviation * x.deviation + add).sqrt().min(350.0)), "Glicko-Boost period without extras differs from Glicko", || {
                    format!("{a:?} {} {c:?}: {r:?}, Glicko {x:?}", show(l))
                });
            }
            for c in cs {
                let v: Vec<_> = l.iter().map(|e| (e.0.rating, e.0.deviation, pts(e.1), if e.2 { c.eta } else { -c.eta })).collect();
                if c.k == 0.0 || refm::boost_z(a.rating, &v) < c.k - 1e-9 {
                    let r = skillratings::glicko_boost::glicko_boost_rating_period(a, l, c);
                    let x = skillratings::glicko_boost::glicko_boost_rating_period(a, l, &GlickoBoostConfig { k: 0.0, b: (0.0, 0.0), ..*c });
                    w.t(2);
                    w.trace_done();
                    w.ok(eq(r.rating, x.rating, r.deviation, x.deviation), "a player without exceptional performance is boosted", || format!("{a:?} {} {c:?}: {r:?}, unboosted {x:?}", show(l)));
                }
            }
        }
    });
    ctx.sweep("glicko_boost idle", &GBoost::players(3), |w, a| {
        let d = skillratings::glicko_boost::decay_deviation(a, &off);
        w.t(1);
        w.ok(d.rating == a.rating && near(d.deviation, a.deviation, 1e-12), "Glicko-Boost without decay terms decays", || format!("{a:?}: {d:?}"));
    });
}

// ---------------------------------------------------------------- C20
pub fn c20(ctx: &Ctx) {
    let (p2, p3) = (Glicko2::players(2), Glicko2::players(3));
    let cfgs = Glicko2::cfgs(2);
    let check = |w: &mut W, a: &Glicko2Rating, l: &[(Glicko2Rating, Outcomes)], c: &Glicko2Config, new: &Glicko2Rating, how: &str| {
        let opp: Vec<_> = l.iter().map(|e| (e.0.rating, e.0.deviation, pts(e.1))).collect();
        let (v, m) = refm::glicko2_stats(a.rating, &opp);
        let case = || format!("{how} {a:?} {} {c:?}: {new:?}", show(l));
        w.trace_done();
        w.state(1, &[new.volatility]);
        w.ok(new.volatility > 0.0 && new.volatility.is_finite(), "volatility not positive", case);
        if !(v < 1e9) {
            return; // beyond double precision: the expected score is 0 or 1
        }
        let phi2 = (a.deviation / 173.7178).powi(2);
        let d2 = (v * m).powi(2);
        let x = 2.0 * new.volatility.ln();
        let f = |x: f64| refm::vol_f(x, d2, phi2, v, a.volatility, c.tau);
        let eps = 3.0 * c.convergence_tolerance + 1e-7;
        w.ok(f(x - eps) >= 0.0 && f(x + eps) <= 0.0, "the volatility does not solve Glickman's equation", || {
            format!("{} f(x-eps)={} f(x+eps)={} reference {}", case(), f(x - eps), f(x + eps), refm::volatility(d2, phi2, v, a.volatility, c.tau))
        });
        let x0 = 2.0 * a.volatility.ln();
        if d2 > phi2 + v + a.volatility * a.volatility {
            w.ok(x >= x0 - eps, "volatility falls after surprising results", case);
        } else {
            w.ok(x <= x0 + eps, "volatility rises after unsurprising results", case);
        }
    };
    pairs::<Glicko2>(ctx, "matches", |w, a, b, cfgs, _| {
        for c in cfgs {
            for o in OUT {
                w.at(|| format!("glicko2({a:?}, {b:?}, {o:?}, {c:?})"));
                let (r, s) = skillratings::glicko2::glicko2(a, b, &o, c);
                w.t(1);
                check(w, a, &[(*b, o)], c, &r, "first player of match");
                check(w, b, &[(*a, inv(o))], c, &s, "second player of match");
                w.sample(|| format!("{a:?} {b:?} {o:?} {c:?} -> {r:?} {s:?}"));
            }
        }
    });
    ctx.sweep("single-result periods", &[&p2[..], &p3[..]].concat(), |w, a| {
        for b in &p2 {
            for c in &cfgs {
                for o in OUT {
                    let l = [(*b, o)];
                    w.at(|| format!("glicko2_rating_period({:?}, {l:?}, {c:?})", a));
                    let r = skillratings::glicko2::glicko2_rating_period(a, &l, c);
                    w.t(1);
                    check(w, a, &l, c, &r, "period");
                }
            }
        }
    });
    periods::<Glicko2>(ctx, "periods", &[], |w, a, l, _, cs| {
        let l: Vec<(Glicko2Rating, Outcomes)> = l.iter().map(|e| (e.0, e.1)).collect();
        {
            for c in if cs.len() > cfgs.len() { cs } else { &cfgs[..] } {
                w.at(|| format!("glicko2_rating_period({a:?}, {}, {c:?})", show(&l)));
                let r = skillratings::glicko2::glicko2_rating_period(a, &l, c);
                w.t(1);
                check(w, a, &l, c, &r, "period");
            }
        }
    });
    // tau ladder
    let taus: Vec<f64> = if ctx.thorough { (1..=60).map(|i| f64::from(i) * 0.05).collect() } else { (1..=15).map(|i| f64::from(i) * 0.1).collect() };
    let p1 = Glicko2::players(1);
    ctx.sweep("tau ladders", &p2, |w, a| {
        for b in &p1 {
            for o in OUT {
                for n in [1usize, 4, 12] {
                    let l = vec![(*b, o); n];
                    let (v, _) = refm::glicko2_stats(a.rating, &[(b.rating, b.deviation, pts(o))]);
                    if !(v < 1e9) {
                        continue;
                    }
                    let mut last = 0.0;
                    for &tau in &taus {
                        let c = Glicko2Config { tau, convergence_tolerance: 1e-8 };
                        let r = if n == 1 { skillratings::glicko2::glicko2(a, b, &o, &c).0 } else { skillratings::glicko2::glicko2_rating_period(a, &l, &c) };
                        w.t(1);
                        let ch = (r.volatility / a.volatility).ln().abs();
                        w.ok(ch >= last - 1e-7, "a smaller tau allows a larger volatility change", || format!("{a:?} {n} x {o:?} against {b:?} tau {tau}: change {ch}, smaller tau {last}"));
                        last = ch;
                    }
                    w.trace_done();
                    w.state(2, &[last]);
                }
            }
        }
    });
    // histories: sequences of periods keep the volatility a root of its own equation
    let opp = opponents::<Glicko2>(3);
    let seeds = [Glicko2Rating::new(), Glicko2Rating { rating: 1750.0, deviation: 55.0, volatility: 0.059 }];
    let mut sym: Vec<Vec<(Glicko2Rating, Outcomes)>> = vec![];
    for o in &opp {
        for r in OUT {
            sym.push(vec![(*o, r)]);
        }
    }
    sym.push(vec![(opp[0], WIN), (opp[1], LOSS), (opp[2], DRAW)]);
    sym.push(vec![(opp[0], LOSS); 9]);
    let depth = ctx.lvl(4, 5);
    ctx.sweep("histories", &seqs(sym.len(), depth), |w, h| {
        for s in &seeds {
            let c = Glicko2Config::new();
            let mut cur = *s;
            for &i in h {
                let new = skillratings::glicko2::glicko2_rating_period(&cur, &sym[i], &c);
                w.t(1);
                check(w, &cur, &sym[i], &c, &new, "history step");
                cur = new;
            }
        }
    });
}
