//! C14 (traits), C15 (defaults and conversions), C21 (serde), C22 (purity).
use crate::core::*;
use crate::for_all;
use crate::gen::*;
use crate::p_res::{same, show};
use crate::sys::*;
use crate::teams::*;
#[cfg(feature = "C21")]
use serde::{de::DeserializeOwned, Serialize};
use skillratings::{
    dwz::DWZRating, egf::{EGFConfig, EGFRating}, elo::{EloConfig, EloRating}, fifa::{FifaConfig, FifaRating},
    glicko::{GlickoConfig, GlickoRating}, glicko2::{Glicko2Config, Glicko2Rating},
    glicko_boost::{GlickoBoostConfig, GlickoBoostRating}, ingo::IngoRating, sticko::{StickoConfig, StickoRating},
    trueskill::{TrueSkillConfig, TrueSkillRating}, uscf::{USCFConfig, USCFRating}, weng_lin::{WengLinConfig, WengLinRating},
};
use skillratings::{MultiTeamOutcome, MultiTeamRatingSystem, Outcomes, Outcomes::*, Rating, RatingPeriodSystem, RatingSystem, TeamRatingSystem};
use std::fmt::Debug;

// ---------------------------------------------------------------- C14
pub trait Api: Sys {
    /// What an entry of a rating period gets from the trait interface.
    fn tx(x: Self::X) -> Self::X {
        x
    }
    fn t_rate(a: &Self::R, b: &Self::R, o: Outcomes, x: Self::X, c: &Self::C) -> (Self::R, Self::R);
    fn t_exp(a: &Self::R, b: &Self::R, x: Self::X, c: &Self::C) -> (f64, f64);
    fn t_period(a: &Self::R, rs: &[(Self::R, Outcomes)], x: Self::X, c: &Self::C) -> Self::R;
    fn t_exp_period(a: &Self::R, os: &[Self::R], x: Self::X, c: &Self::C) -> Vec<f64>;
    fn r_new(r: Option<f64>, u: Option<f64>) -> Self::R;
    fn r_get(r: &Self::R) -> (f64, Option<f64>);
    fn r_default() -> Self::R;
}
macro_rules! api {
    ($s:ty, $sys:ty, $dflt:expr, |$c:ident, $x:ident| $cfg:expr, |$tx:ident| $txe:expr) => {
        impl Api for $s {
            fn tx($tx: Self::X) -> Self::X {
                $txe
            }
            fn t_rate(a: &Self::R, b: &Self::R, o: Outcomes, $x: Self::X, $c: &Self::C) -> (Self::R, Self::R) {
                <$sys as RatingSystem>::rate(&<$sys as RatingSystem>::new($cfg), a, b, &o)
            }
            fn t_exp(a: &Self::R, b: &Self::R, $x: Self::X, $c: &Self::C) -> (f64, f64) {
                <$sys as RatingSystem>::expected_score(&<$sys as RatingSystem>::new($cfg), a, b)
            }
            fn t_period(a: &Self::R, rs: &[(Self::R, Outcomes)], $x: Self::X, $c: &Self::C) -> Self::R {
                <$sys as RatingPeriodSystem>::rate(&<$sys as RatingPeriodSystem>::new($cfg), a, rs)
            }
            fn t_exp_period(a: &Self::R, os: &[Self::R], $x: Self::X, $c: &Self::C) -> Vec<f64> {
                <$sys as RatingPeriodSystem>::expected_score(&<$sys as RatingPeriodSystem>::new($cfg), a, os)
            }
            fn r_new(r: Option<f64>, u: Option<f64>) -> Self::R {
                <Self::R as Rating>::new(r, u)
            }
            fn r_get(r: &Self::R) -> (f64, Option<f64>) {
                (Rating::rating(r), Rating::uncertainty(r))
            }
            fn r_default() -> Self::R {
                $dflt
            }
        }
    };
}
api!(Elo, skillratings::elo::Elo, EloRating { rating: 1000.0 }, |c, _x| *c, |x| x);
api!(Fifa, skillratings::fifa::Fifa, FifaRating { rating: 1000.0 }, |_c, x| x, |x| x);
api!(Ingo, skillratings::ingo::Ingo, IngoRating { rating: 230.0, age: 26 }, |_c, _x| (), |x| x);
api!(Dwz, skillratings::dwz::DWZ, DWZRating { rating: 1000.0, index: 1, age: 26 }, |_c, _x| (), |x| x);
api!(Uscf, skillratings::uscf::USCF, USCFRating { rating: 1300.0, games: 0 }, |c, _x| *c, |x| x);
api!(Egf, skillratings::egf::EGF, EGFRating { rating: 0.0 }, |_c, x| x, |x| x);
api!(Glicko, skillratings::glicko::Glicko, GlickoRating { rating: 1500.0, deviation: 350.0 }, |c, _x| *c, |x| x);
api!(Glicko2, skillratings::glicko2::Glicko2, Glicko2Rating { rating: 1500.0, deviation: 350.0, volatility: 0.06 }, |c, _x| *c, |x| x);
api!(Sticko, skillratings::sticko::Sticko, StickoRating { rating: 1500.0, deviation: 350.0 }, |c, _x| *c, |_x| true);
api!(GBoost, skillratings::glicko_boost::GlickoBoost, GlickoBoostRating { rating: 1500.0, deviation: 350.0 }, |c, _x| *c, |_x| true);
api!(Wl, skillratings::weng_lin::WengLin, WengLinRating { rating: 25.0, uncertainty: 25.0 / 3.0 }, |c, _x| *c, |x| x);
api!(Ts, skillratings::trueskill::TrueSkill, TrueSkillRating { rating: 25.0, uncertainty: 25.0 / 3.0 }, |c, _x| *c, |x| x);

pub fn c14(ctx: &Ctx) {
    for_all!(c14_sys, ctx);
    c14_teams(ctx);
}
fn c14_sys<S: Api>(ctx: &Ctx) {
    let (p2, p3) = (S::players(2), S::players(3));
    let xs: Vec<S::X> = S::xs(2).into_iter().filter(|x| S::first_side(*x)).collect();
    pairs_with::<S>(ctx, "matches", |x| S::first_side(*x), |w, a, b, cfgs, xs| {
        for c in cfgs {
            for &x in xs {
                let x = S::tx(x);
                if !S::dom(a, b, x) {
                    continue;
                }
                let case = || format!("{} {a:?} {b:?} {x:?} {c:?}", S::NAME);
                w.at(case);
                let (t, e) = (S::t_exp(a, b, x, c), S::exp(a, b, x, c));
                w.t(2);
                w.ok(near(t.0, e.0, 1e-12) && near(t.1, e.1, 1e-12), "expected scores through the trait differ", || format!("{}: {t:?} vs {e:?}", case()));
                for o in OUT {
                    let ((p, q), (r, s)) = (S::t_rate(a, b, o, x, c), S::rate(a, b, o, x, c));
                    w.t(2);
                    w.trace_done();
                    w.state(1, &[S::num(&p)[0], S::num(&q)[0]]);
                    let good = (p == r && q == s) || (close4::<S>(&p, &r) && close4::<S>(&q, &s));
                    w.ok(good, "ratings through the trait differ", || format!("{} {o:?}: {p:?} {q:?} vs {r:?} {s:?}", case()));
                }
            }
        }
    });
    let c1 = S::cfgs(1);
    let x1: Vec<S::X> = xs.iter().step_by(3).copied().collect();
    let short = |w: &mut W, a: &S::R, l: &L<S>, x: S::X, c: &S::C| {
        let rs: Vec<(S::R, Outcomes)> = l.iter().map(|e| (e.0, e.1)).collect();
        let os: Vec<S::R> = l.iter().map(|e| e.0).collect();
                    let x = S::tx(x);
                    let lx: L<S> = l.iter().map(|e| (e.0, e.1, x)).collect();
                    if !list_ok::<S>(a, &lx) {
                        return;
                    }
                    let case = || format!("{} period {a:?} {} {x:?} {c:?}", S::NAME, show(&rs));
                    w.at(case);
                    let (t, f) = (S::t_period(a, &rs, x, c), S::period(a, &lx, c));
                    let ox: Vec<(S::R, S::X)> = os.iter().map(|o| (*o, x)).collect();
                    let (te, fe) = (S::t_exp_period(a, &os, x, c), S::exp_period(a, &ox, c));
                    w.t(4);
                    w.trace_done();
                    w.state(2, &S::num(&t));
                    w.ok(t == f || close4::<S>(&t, &f), "rating period through the trait differs", || format!("{}: {t:?} vs {f:?}", case()));
                    w.close_all(&te, &fe, 1e-12, "expected scores of a period through the trait differ", case);
                    w.sample(|| format!("{}: {t:?}", case()));
    };
    let period = |w: &mut W, a: &S::R, l: &L<S>| {
        for c in &c1 {
            for &x in &x1 {
                short(w, a, l, x, c);
            }
        }
    };
    periods::<S>(ctx, "periods", &[], |w, a, l, _, cs| {
        for c in cs {
            for &x in if cs.len() > c1.len() { &x1[..1] } else { &x1[..] } {
                short(w, a, l, x, c);
            }
        }
    });
    ctx.sweep(&format!("{} empty period", S::NAME), &p2, |w, a| period(w, a, &vec![]));
    // construction and reading
    let d = S::r_default();
    let mut vals: Vec<Option<f64>> = vec![None];
    vals.extend([-900.0, -1.5, 0.0, 1e-3, 1.0, 25.0 / 3.0, 25.0, 99.5, 130.0, 230.0, 350.0, 400.25, 1000.0, 1300.0, 1500.0, 2899.75, 1e5].map(Some));
    ctx.sweep(&format!("{} Rating::new", S::NAME), &vals, |w, r| {
        for u in &vals {
            let p = S::r_new(*r, *u);
            w.t(1);
            w.trace_done();
            let mut e = S::with_rating(&d, r.unwrap_or(S::num(&d)[0]));
            if S::UNC {
                e = S::with_unc(&e, u.unwrap_or(S::num(&d)[1]));
            }
            w.state(3, &S::num(&p));
            w.ok(p == e, "generic construction does not use the given values and defaults", || format!("{} Rating::new({r:?}, {u:?}) = {p:?}, expected {e:?}", S::NAME));
            let g = S::r_get(&p);
            w.ok(g == (S::num(&e)[0], if S::UNC { Some(S::num(&e)[1]) } else { None }), "reading rating and uncertainty back", || format!("{} {p:?}: {g:?}", S::NAME));
        }
    });
    ctx.sweep(&format!("{} Rating getters", S::NAME), &p3, |w, p| {
        let g = S::r_get(p);
        w.t(2);
        w.trace_done();
        w.ok(g == (S::num(p)[0], if S::UNC { Some(S::num(p)[1]) } else { None }), "reading rating and uncertainty back", || format!("{} {p:?}: {g:?}", S::NAME));
    });
}
fn close4<S: Sys>(a: &S::R, b: &S::R) -> bool {
    same::<S>(&S::num(a), &S::num(b), 1e-11)
}
fn c14_teams(ctx: &Ctx) {
    let mut lay = layouts(ctx, ctx.lvl(4, 5));
    lay.extend(lobbies(ctx));
    lay.push(vec![]);
    lay.push(vec![vec![TA[0]], vec![]]);
    lay.push(vec![vec![], vec![TA[1]], vec![TA[2]]]);
    lay.push(vec![vec![TA[1]]]);
    fn eqf(a: &[Team], b: &[Team]) -> bool {
        a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.len() == y.len()) && flat(a).iter().zip(flat(b)).all(|(p, q)| near(*p, q, 1e-11))
    }
    ctx.sweep("team traits", &lay, |w, t| {
        use skillratings::{trueskill::TrueSkill, weng_lin::WengLin};
        macro_rules! one {
            ($sys:ty, $t:ty, $mk:expr, $un:expr) => {
                for c in <$t>::at(t, &<$t>::cfgs(1)) {
                    let v: Vec<Vec<_>> = t.iter().map($mk).collect();
                    let refs: Vec<&[_]> = v.iter().map(|x| &x[..]).collect();
                    let case = || format!("{} {t:?} {c:?}", <$t>::NAME);
                    w.at(case);
                    let ms = <$sys as MultiTeamRatingSystem>::new(c);
                    w.close_all(&MultiTeamRatingSystem::expected_score(&ms, &refs), &<$t>::expm(t, &c), 1e-12, "many-team expected scores through the trait differ", case);
                    w.t(2);
                    for r in some_ranks(t.len().max(1)) {
                        let arg: Vec<(&[_], MultiTeamOutcome)> = refs.iter().zip(&r).map(|(a, b)| (*a, MultiTeamOutcome::new(*b))).collect();
                        let x: Vec<Team> = MultiTeamRatingSystem::rate(&ms, &arg).iter().map($un).collect();
                        let y = <$t>::multi(t, &r, &c);
                        w.t(2);
                        w.trace_done();
                        w.state(4, &flat(&x));
                        w.ok(eqf(&x, &y), "many-team ratings through the trait differ", || format!("{} ranks {r:?}: {x:?} vs {y:?}", case()));
                    }
                    if t.len() == 2 && !(t[0].is_empty() && t[1].is_empty()) {
                        let s = <$sys as TeamRatingSystem>::new(c);
                        let (e, f) = (TeamRatingSystem::expected_score(&s, refs[0], refs[1]), <$t>::exp2(&t[0], &t[1], &c));
                        w.ok(near(e.0, f.0, 1e-12) && near(e.1, f.1, 1e-12), "two-team expected scores through the trait differ", || format!("{}: {e:?} vs {f:?}", case()));
                        for o in OUT {
                            let (a, b) = TeamRatingSystem::rate(&s, refs[0], refs[1], &o);
                            let (p, q) = <$t>::two(&t[0], &t[1], o, &c);
                            w.t(2);
                            w.trace_done();
                            let x: Vec<Team> = [a, b].iter().map($un).collect();
                            w.ok(eqf(&x, &[p.clone(), q.clone()]), "two-team ratings through the trait differ", || format!("{} {o:?}: {x:?} vs {p:?} {q:?}", case()));
                        }
                    }
                }
            };
        }
        one!(WengLin, WlT, |x: &Team| x.iter().map(|p| WengLinRating { rating: p.0, uncertainty: p.1 }).collect::<Vec<_>>(), |x: &Vec<WengLinRating>| x.iter().map(|p| (p.rating, p.uncertainty)).collect::<Team>());
        one!(TrueSkill, TsT, |x: &Team| x.iter().map(|p| TrueSkillRating { rating: p.0, uncertainty: p.1 }).collect::<Vec<_>>(), |x: &Vec<TrueSkillRating>| x.iter().map(|p| (p.rating, p.uncertainty)).collect::<Team>());
    });
}

// ---------------------------------------------------------------- C15
pub fn c15(ctx: &Ctx) {
    ctx.sweep("defaults", &[0], |w, _| {
        fn chk<T: PartialEq + Debug>(w: &mut W, what: &str, got: &[T], exp: T) {
            for g in got {
                w.t(1);
                w.trace_done();
                w.ok(*g == exp, "default values", || format!("{what}: {g:?}, documented {exp:?}"));
            }
        }
        chk(w, "EloRating", &[EloRating::new(), EloRating::default()], EloRating { rating: 1000.0 });
        chk(w, "FifaRating", &[FifaRating::new(), FifaRating::default()], FifaRating { rating: 1000.0 });
        chk(w, "EGFRating", &[EGFRating::new(), EGFRating::default()], EGFRating { rating: 0.0 });
        chk(w, "GlickoRating", &[GlickoRating::new(), GlickoRating::default()], GlickoRating { rating: 1500.0, deviation: 350.0 });
        chk(w, "Glicko2Rating", &[Glicko2Rating::new(), Glicko2Rating::default()], Glicko2Rating { rating: 1500.0, deviation: 350.0, volatility: 0.06 });
        chk(w, "StickoRating", &[StickoRating::new(), StickoRating::default()], StickoRating { rating: 1500.0, deviation: 350.0 });
        chk(w, "GlickoBoostRating", &[GlickoBoostRating::new(), GlickoBoostRating::default()], GlickoBoostRating { rating: 1500.0, deviation: 350.0 });
        chk(w, "WengLinRating", &[WengLinRating::new(), WengLinRating::default()], WengLinRating { rating: 25.0, uncertainty: 25.0 / 3.0 });
        chk(w, "TrueSkillRating", &[TrueSkillRating::new(), TrueSkillRating::default()], TrueSkillRating { rating: 25.0, uncertainty: 25.0 / 3.0 });
        chk(w, "DWZRating", &[DWZRating::default()], DWZRating { rating: 1000.0, index: 1, age: 26 });
        chk(w, "IngoRating", &[IngoRating::default()], IngoRating { rating: 230.0, age: 26 });
        chk(w, "USCFRating", &[USCFRating::default()], USCFRating { rating: 1300.0, games: 0 });
        for age in (0..=130).chain([255, 256, 1000, usize::MAX]) {
            chk(w, "DWZRating::new(age)", &[DWZRating::new(age)], DWZRating { rating: 1000.0, index: 1, age });
            chk(w, "IngoRating::new(age)", &[IngoRating::new(age)], IngoRating { rating: 230.0, age });
            let r = if age < 2 { 100.0 } else if age >= 26 { 1300.0 } else { 50.0 * age as f64 };
            chk(w, "USCFRating::new(age)", &[USCFRating::new(age)], USCFRating { rating: r, games: 0 });
            w.state(1, &[age as f64]);
        }
        let f = |x: [f64; 3]| format!("{x:?}");
        for c in [EloConfig::new(), EloConfig::default()] {
            chk(w, "EloConfig", &[c.k], 32.0);
        }
        for c in [FifaConfig::new(), FifaConfig::default()] {
            chk(w, "FifaConfig", &[(c.importance, c.knockout, c.penalties)], (10.0, false, false));
        }
        for c in [EGFConfig::new(), EGFConfig::default()] {
            chk(w, "EGFConfig", &[c.handicap], 0.0);
        }
        for c in [USCFConfig::new(), USCFConfig::default()] {
            chk(w, "USCFConfig", &[c.t], 14.0);
        }
        for c in [GlickoConfig::new(), GlickoConfig::default()] {
            chk(w, "GlickoConfig", &[c.c], 63.2);
        }
        for c in [Glicko2Config::new(), Glicko2Config::default()] {
            chk(w, "Glicko2Config", &[(c.tau, c.convergence_tolerance)], (0.5, 0.000_001));
        }
        for c in [StickoConfig::new(), StickoConfig::default()] {
            chk(w, "StickoConfig", &[(c.h, c.beta, c.lambda, c.gamma, c.c)], (10.0, 0.0, 2.0, 0.0, 10.0));
        }
        for c in [GlickoBoostConfig::new(), GlickoBoostConfig::default()] {
            // the documentation contradicts itself about eta, the other values are documented
            chk(w, "GlickoBoostConfig", &[(c.k, c.b)], (1.96, (0.20139, 17.5)));
            chk(w, "GlickoBoostConfig alpha", &[c.alpha], (5.83733, -1.75374e-04, -7.080124e-05, 0.001733792, 0.00026706));
        }
        for c in [WengLinConfig::new(), WengLinConfig::default()] {
            chk(w, "WengLinConfig", &[(c.beta, c.uncertainty_tolerance)], (25.0 / 6.0, 0.000_001));
        }
        for c in [TrueSkillConfig::new(), TrueSkillConfig::default()] {
            chk(w, "TrueSkillConfig", &[f([c.draw_probability, c.beta, c.dynamics_factor])], f([0.1, 25.0 / 6.0, 25.0 / 300.0]));
        }
        for (o, p) in OUT.into_iter().zip([1.0, 0.5, 0.0]) {
            chk(w, "to_chess_points", &[o.to_chess_points()], p);
        }
        for r in [0usize, 1, 2, 255, 256, 65536, 1 << 32, usize::MAX] {
            chk(w, "MultiTeamOutcome", &[MultiTeamOutcome::new(r).rank(), usize::from(MultiTeamOutcome::from(r)), MultiTeamOutcome::from(r).rank()], r);
        }
        w.sample(|| "every constructor against the documented default".into());
    });
    let step = ctx.lvl(0.5, 0.01);
    let mut v: Vec<f64> = vec![];
    for c in [0usize; 1] {
        let _ = c;
        v.extend(steps(-3000.0, 12_000.0, step));
        for t in [2000.0, 2060.0, 0.0, 2840.0, 355.0, 20.0, 180.0, 100.0, 1300.0] {
            for d in [1e-12, 1e-9, 1e-6, 1e-3, 0.1] {
                v.extend([t - d, t, t + d]);
            }
        }
    }
    let chunks: Vec<Vec<f64>> = v.chunks(500).map(|c| c.to_vec()).collect();
    ctx.sweep("Elo conversions", &chunks, |w, rs| {
        for &r in rs {
            let e = EloRating { rating: r };
            let case = |x: &dyn Debug| format!("EloRating {r}: {x:?}");
            w.t(14);
            w.trace_done();
            let f = FifaRating::from(e);
            w.ok(f.rating == r && EloRating::from(f).rating == r, "Elo and FIFA", || case(&f));
            let d = DWZRating::from(e);
            w.ok(d == DWZRating { rating: r, index: 6, age: 26 }, "Elo to DWZ", || case(&d));
            for (index, age) in [(1, 10), (6, 26), (80, 70), (0, 0), (3, 17), (1000, 120)] {
                let back = EloRating::from(DWZRating { rating: r, index, age });
                w.ok(back.rating == r, "DWZ to Elo", || case(&back));
            }
            let i = IngoRating::from(e);
            w.ok(i.age == 26 && near(i.rating, 355.0 - r / 8.0, 1e-12), "Elo to Ingo", || case(&i));
            w.ok(near(EloRating::from(i).rating, r, 1e-12), "Elo to Ingo and back", || case(&EloRating::from(i)));
            for age in [0, 5, 18, 22, 26, 80, 200] {
                let x = EloRating::from(IngoRating { rating: r, age });
                w.ok(near(x.rating, 2840.0 - 8.0 * r, 1e-12), "Ingo to Elo", || format!("IngoRating {r} {age}: {x:?}"));
                w.ok(near(IngoRating::from(x).rating, r, 1e-12), "Ingo to Elo and back", || format!("IngoRating {r}: {x:?}"));
            }
            let u = USCFRating::from(e);
            let (er, eg) = if r > 2000.0 { (0.94 * r + 180.0, 10) } else { (1.02 * r + 20.0, 5) };
            w.ok(near(u.rating, er, 1e-12) && u.games == eg, "Elo to USCF", || case(&u));
            w.ok(near(EloRating::from(u).rating, r, 1e-12), "Elo to USCF and back", || case(&EloRating::from(u)));
            for games in [0, 1, 5, 8, 9, 50, 1000, 1_000_000] {
                let x = EloRating::from(USCFRating { rating: r, games });
                let ex = if r > 2060.0 { (r - 180.0) / 0.94 } else { (r - 20.0) / 1.02 };
                w.ok(near(x.rating, ex, 1e-12), "USCF to Elo", || format!("USCFRating {r} {games}: {x:?}"));
                w.ok(near(USCFRating::from(x).rating, r, 1e-12), "USCF to Elo and back", || format!("USCFRating {r}: {x:?}"));
            }
            // order: a better Elo player is better in every system
            for d in [1e-6, 0.25, 1.0, 70.0] {
                let h = EloRating { rating: r + d };
                w.t(4);
                let ok = USCFRating::from(h).rating > u.rating && IngoRating::from(h).rating < i.rating && DWZRating::from(h).rating > r && FifaRating::from(h).rating > r;
                w.ok(ok, "conversion does not preserve the order", || case(&d));
            }
            w.state(2, &[u.rating, i.rating]);
            w.ok(EloRating::from(r).rating == r && FifaRating::from(r).rating == r && EGFRating::from(r).rating == r, "From<f64>", || case(&r));
            w.ok(IngoRating::from(r) == IngoRating { rating: r, age: 26 } && IngoRating::from((r, 19)) == IngoRating { rating: r, age: 19 }, "Ingo From", || case(&r));
            w.ok(DWZRating::from((r, 3)) == DWZRating { rating: r, index: 3, age: 26 } && DWZRating::from((r, 3, 19)) == DWZRating { rating: r, index: 3, age: 19 }, "DWZ From", || case(&r));
            w.ok(USCFRating::from((r, 17)) == USCFRating { rating: r, games: 17 }, "USCF From", || case(&r));
        }
        w.sample(|| format!("all conversions of Elo {:?}", &rs[..3]));
    });
    let mut pairs: Vec<(f64, f64)> = vec![];
    for r in ratings(2).into_iter().chain(wl_ratings(2)) {
        for u in devs(3).into_iter().chain(wl_uncs(3)).chain([400.0, 1000.0]) {
            pairs.push((r, u));
        }
    }
    ctx.sweep("deviation conversions", &pairs, |w, &(r, d)| {
        let g = GlickoRating { rating: r, deviation: d };
        let g2 = Glicko2Rating { rating: r, deviation: d, volatility: 0.041 };
        let g2d = Glicko2Rating { rating: r, deviation: d, volatility: 0.06 };
        let s = StickoRating { rating: r, deviation: d };
        let b = GlickoBoostRating { rating: r, deviation: d };
        w.t(19);
        w.trace_done();
        w.state(3, &[r, d]);
        let case = || format!("rating {r} deviation {d}");
        w.ok(GlickoRating::from(g2) == g && GlickoRating::from(s) == g && GlickoRating::from(b) == g && GlickoRating::from((r, d)) == g, "to Glicko", case);
        for i in 1..=110 {
            let volatility = if i <= 100 { f64::from(i) * 0.01 } else { [0.0, 1e-9, 0.001, 0.0599, 0.06, 0.0601, 0.2, 1.5, 4.0, 50.0][i as usize - 101] };
            let v = Glicko2Rating { volatility, ..g2 };
            w.t(4);
            w.ok(GlickoRating::from(v) == g && StickoRating::from(v) == s && GlickoBoostRating::from(v) == b && Glicko2Rating::from((r, d, volatility)) == v, "from Glicko-2", || format!("{v:?}"));
        }
        w.ok(Glicko2Rating::from(g) == g2d && Glicko2Rating::from(s) == g2d && Glicko2Rating::from(b) == g2d && Glicko2Rating::from((r, d, 0.041)) == g2, "to Glicko-2", case);
        w.ok(StickoRating::from(g) == s && StickoRating::from(g2) == s && StickoRating::from(b) == s && StickoRating::from((r, d)) == s, "to Sticko", case);
        w.ok(GlickoBoostRating::from(g) == b && GlickoBoostRating::from(g2) == b && GlickoBoostRating::from(s) == b && GlickoBoostRating::from((r, d)) == b, "to Glicko-Boost", case);
        let (wl, ts) = (WengLinRating { rating: r, uncertainty: d }, TrueSkillRating { rating: r, uncertainty: d });
        w.ok(WengLinRating::from(ts) == wl && WengLinRating::from((r, d)) == wl, "to Weng-Lin", case);
        w.ok(TrueSkillRating::from(wl) == ts && TrueSkillRating::from((r, d)) == ts, "to TrueSkill", case);
    });
}

// ---------------------------------------------------------------- C21
#[cfg(feature = "C21")]
pub fn c21(ctx: &Ctx) {
    fn trip<T: Serialize + DeserializeOwned + Debug + Send + Sync>(ctx: &Ctx, name: &str, vals: &[T], fields: &[&str], nums: impl Fn(&T) -> Vec<f64> + Sync) {
        ctx.sweep(name, vals, |w, v| {
            let case = || format!("{v:?}");
            w.at(case);
            w.t(4);
            w.trace_done();
            let before = nums(v);
            w.state(1, &before);
            let j = match serde_json::to_value(v) {
                Ok(j) => j,
                Err(e) => {
                    w.fail("does not serialise", || format!("{}: {e}", case()));
                    return;
                }
            };
            if !fields.is_empty() {
                let has = j.as_object().is_some_and(|o| fields.iter().all(|f| o.contains_key(*f)));
                w.ok(has, "a field is missing from the serialised form", || format!("{}: {j}", case()));
                // every field holds its value
                if has {
                    let got: Vec<f64> = fields.iter().flat_map(|f| flat_json(&j[*f])).collect();
                    w.ok(got.len() == before.len() && got.iter().zip(&before).all(|(a, b)| a.to_bits() == b.to_bits() || a == b), "a serialised field does not hold its value", || format!("{}: {j}", case()));
                }
            }
            match serde_json::from_value::<T>(j.clone()) {
                Ok(x) => {
                    let a = nums(&x);
                    w.ok(a.len() == before.len() && a.iter().zip(&before).all(|(p, q)| p == q), "the deserialised value differs", || format!("{}: {j} -> {x:?}", case()));
                }
                Err(e) => w.fail("does not deserialise", || format!("{}: {j}: {e}", case())),
            }
            // through text
            let s = serde_json::to_string(v).unwrap_or_default();
            match serde_json::from_str::<T>(&s) {
                Ok(x) => {
                    let a = nums(&x);
                    w.ok(a.len() == before.len() && a.iter().zip(&before).all(|(p, q)| near(*p, *q, 1e-12)), "the value parsed from text differs", || format!("{}: {s} -> {x:?}", case()));
                }
                Err(e) => w.fail("does not parse back", || format!("{}: {s}: {e}", case())),
            }
            // fields in the reverse order
            if let Some(o) = j.as_object() {
                let mut items: Vec<String> = o.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
                items.reverse();
                let s = format!("{{{}}}", items.join(","));
                let good = serde_json::from_str::<T>(&s).is_ok_and(|x| nums(&x).iter().zip(&before).all(|(p, q)| near(*p, *q, 1e-12)));
                w.ok(good, "field order matters", || format!("{}: {s}", case()));
            }
            w.sample(|| format!("{j}"));
        });
    }
    fn flat_json(j: &serde_json::Value) -> Vec<f64> {
        match j {
            serde_json::Value::Bool(b) => vec![f64::from(u8::from(*b))],
            serde_json::Value::Array(a) => a.iter().flat_map(flat_json).collect(),
            _ => vec![j.as_f64().unwrap_or(f64::NAN)],
        }
    }
    let vals = [0.0, -0.0, 1.0, -1.0, 0.5, 0.06, 1e-6, 1e-300, 25.0, 25.0 / 3.0, 32.0, 100.0, 350.0, 1000.0, 1500.0, 1499.999_999_999_999_8, -900.0, 1e15, -1e300, f64::MIN_POSITIVE, f64::MAX];
    let ints = [0usize, 1, 2, 6, 26, 100, 255, 256, 65_536, 1 << 32, (1 << 53) + 1, usize::MAX];
    let nf = vals.len();
    let one = |f: &dyn Fn(f64)| vals.iter().for_each(|v| f(*v));
    let _ = one;
    macro_rules! fields2 {
        ($n:expr, $t:ident, $a:ident, $b:ident) => {{
            let mut v = vec![];
            for $a in vals {
                for $b in vals {
                    v.push($t { $a, $b });
                }
            }
            trip(ctx, $n, &v, &[stringify!($a), stringify!($b)], |x| vec![x.$a, x.$b]);
        }};
    }
    macro_rules! fields1 {
        ($n:expr, $t:ident, $a:ident) => {{
            let v: Vec<$t> = vals.iter().map(|&$a| $t { $a }).collect();
            trip(ctx, $n, &v, &[stringify!($a)], |x| vec![x.$a]);
        }};
    }
    fields1!("EloRating", EloRating, rating);
    fields1!("FifaRating", FifaRating, rating);
    fields1!("EGFRating", EGFRating, rating);
    fields1!("EloConfig", EloConfig, k);
    fields1!("EGFConfig", EGFConfig, handicap);
    fields1!("USCFConfig", USCFConfig, t);
    fields1!("GlickoConfig", GlickoConfig, c);
    fields2!("GlickoRating", GlickoRating, rating, deviation);
    fields2!("StickoRating", StickoRating, rating, deviation);
    fields2!("GlickoBoostRating", GlickoBoostRating, rating, deviation);
    fields2!("WengLinRating", WengLinRating, rating, uncertainty);
    fields2!("TrueSkillRating", TrueSkillRating, rating, uncertainty);
    fields2!("Glicko2Config", Glicko2Config, tau, convergence_tolerance);
    fields2!("WengLinConfig", WengLinConfig, beta, uncertainty_tolerance);
    let mut v = vec![];
    for rating in vals {
        for deviation in vals {
            for volatility in vals {
                v.push(Glicko2Rating { rating, deviation, volatility });
            }
        }
    }
    trip(ctx, "Glicko2Rating", &v, &["rating", "deviation", "volatility"], |x| vec![x.rating, x.deviation, x.volatility]);
    let v: Vec<_> = v.iter().map(|g| TrueSkillConfig { draw_probability: g.rating, beta: g.deviation, dynamics_factor: g.volatility }).collect();
    trip(ctx, "TrueSkillConfig", &v, &["draw_probability", "beta", "dynamics_factor"], |x| vec![x.draw_probability, x.beta, x.dynamics_factor]);
    let mut v = vec![];
    for s in seqs(ctx.lvl(5, 9), 5) {
        let f: Vec<f64> = s.iter().enumerate().map(|(i, &k)| vals[(k * 2 + i * 3) % nf]).collect();
        v.push(StickoConfig { h: f[0], beta: f[1], lambda: f[2], gamma: f[3], c: f[4] });
    }
    trip(ctx, "StickoConfig", &v, &["h", "beta", "lambda", "gamma", "c"], |x| vec![x.h, x.beta, x.lambda, x.gamma, x.c]);
    let mut v = vec![];
    for s in seqs(3, 9) {
        let f: Vec<f64> = s.iter().enumerate().map(|(i, &k)| vals[(k * 2 + i * 3) % nf]).collect();
        v.push(GlickoBoostConfig { eta: f[0], k: f[1], b: (f[2], f[3]), alpha: (f[4], f[5], f[6], f[7], f[8]) });
    }
    trip(ctx, "GlickoBoostConfig", &v, &["eta", "k", "b", "alpha"], |x| vec![x.eta, x.k, x.b.0, x.b.1, x.alpha.0, x.alpha.1, x.alpha.2, x.alpha.3, x.alpha.4]);
    let (mut a, mut b, mut c, mut d) = (vec![], vec![], vec![], vec![]);
    for rating in vals {
        for i in ints {
            a.push(IngoRating { rating, age: i });
            b.push(USCFRating { rating, games: i });
            for j in ints {
                c.push(DWZRating { rating, index: i, age: j });
            }
        }
        for knockout in [false, true] {
            for penalties in [false, true] {
                d.push(FifaConfig { importance: rating, knockout, penalties });
            }
        }
    }
    // large integers: compare both halves
    let halves = |i: usize| vec![(i >> 32) as f64, (i & 0xffff_ffff) as f64];
    let _ = halves;
    trip(ctx, "IngoRating", &a, &["rating", "age"], |x| vec![x.rating, x.age as f64]);
    trip(ctx, "USCFRating", &b, &["rating", "games"], |x| vec![x.rating, x.games as f64]);
    trip(ctx, "DWZRating", &c, &["rating", "index", "age"], |x| vec![x.rating, x.index as f64, x.age as f64]);
    trip(ctx, "FifaConfig", &d, &["importance", "knockout", "penalties"], |x| vec![x.importance, f64::from(u8::from(x.knockout)), f64::from(u8::from(x.penalties))]);
    trip(ctx, "Outcomes", &OUT, &[], |x| vec![x.to_chess_points()]);
    let ranks: Vec<MultiTeamOutcome> = (0..300).chain(ints).map(MultiTeamOutcome::new).collect();
    trip(ctx, "MultiTeamOutcome", &ranks, &[], |x| vec![(x.rank() >> 32) as f64, (x.rank() & 0xffff_ffff) as f64]);
    // exact integers
    ctx.sweep("integer fields", &ints, |w, &i| {
        w.t(6);
        w.trace_done();
        fn rt<T: Serialize + DeserializeOwned>(t: &T) -> Option<T> {
            serde_json::from_str(&serde_json::to_string(t).ok()?).ok()
        }
        w.ok(rt(&IngoRating { rating: 1.0, age: i }).is_some_and(|x| x.age == i), "age differs", || format!("{i}"));
        w.ok(rt(&USCFRating { rating: 1.0, games: i }).is_some_and(|x| x.games == i), "games differ", || format!("{i}"));
        w.ok(rt(&DWZRating { rating: 1.0, index: i, age: 3 }).is_some_and(|x| x.index == i && x.age == 3), "index differs", || format!("{i}"));
        w.ok(rt(&MultiTeamOutcome::new(i)).is_some_and(|x| x.rank() == i), "rank differs", || format!("{i}"));
    });
    ctx.assume("explored through serde_json (values, text, and text with reversed field order)");
}

// ---------------------------------------------------------------- C22
type Call = (String, Box<dyn Fn() -> Vec<u64> + Send + Sync>);

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}
/// The call alphabet: every public rating function, with arguments that differ from each other in single fields.
fn calls() -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    fn sys<S: Api>(v: &mut Vec<Call>) {
        let p = S::players(1);
        let k = p.len();
        let a0 = p[k / 2];
        let b0 = p[k / 3];
        let cs = S::cfgs(1);
        let xs = S::xs(1);
        let r0 = S::num(&a0)[0];
        let mut args: Vec<(S::R, S::R, Outcomes, S::X, S::C)> = vec![(a0, b0, WIN, xs[0], cs[0])];
        args.push((a0, b0, LOSS, xs[0], cs[0]));
        args.push((b0, a0, WIN, xs[0], cs[0]));
        args.push((S::with_rating(&a0, r0 + 0.004), b0, WIN, xs[0], cs[0]));
        args.push((S::with_rating(&a0, r0 + 310.0), b0, WIN, xs[0], cs[0]));
        if S::UNC {
            let u0 = S::num(&a0)[1];
            args.push((S::with_unc(&a0, u0 * 0.999), b0, WIN, xs[0], cs[0]));
            args.push((a0, S::with_unc(&b0, S::num(&b0)[1] * 0.5), WIN, xs[0], cs[0]));
        }
        if let Some(x) = xs.get(1) {
            args.push((a0, b0, WIN, *x, cs[0]));
        }
        for c in cs.iter().skip(1).take(2) {
            args.push((a0, b0, WIN, xs[0], *c));
        }
        // arguments that differ in a single field
        for c in S::c_variants(&cs[0]) {
            args.push((a0, b0, WIN, xs[0], c));
        }
        for x in S::x_variants(xs[0]) {
            args.push((a0, b0, WIN, x, cs[0]));
        }
        for r in S::r_variants(&a0) {
            args.push((r, b0, WIN, xs[0], cs[0]));
        }
        for r in S::r_variants(&b0) {
            args.push((a0, r, WIN, xs[0], cs[0]));
        }
        args.push((a0, S::with_rating(&b0, S::num(&b0)[0] - 0.75), WIN, xs[0], cs[0]));
        args.push((a0, b0, DRAW, xs[0], cs[0]));
        for (a, b, o, x, c) in args {
            if !S::dom(&a, &b, x) {
                continue;
            }
            v.push((format!("{} match {a:?} {b:?} {o:?} {x:?} {c:?}", S::NAME), Box::new(move || {
                let (p, q) = S::rate(&a, &b, o, x, &c);
                let mut r = bits(&S::num(&p));
                r.extend(bits(&S::num(&q)));
                r
            })));
            v.push((format!("{} expected score {a:?} {b:?} {x:?} {c:?}", S::NAME), Box::new(move || {
                let (p, q) = S::exp(&a, &b, x, &c);
                bits(&[p, q])
            })));
            v.push((format!("{} period {a:?} vs {b:?} {o:?} twice {x:?} {c:?}", S::NAME), Box::new(move || bits(&S::num(&S::period(&a, &[(b, o, x), (a, inv(o), x), (b, DRAW, x)], &c))))));
            v.push((format!("{} expected scores of a period {a:?} vs {b:?} {x:?} {c:?}", S::NAME), Box::new(move || bits(&S::exp_period(&a, &[(b, x), (a, x)], &c)))));
            v.push((format!("{} trait {a:?} {b:?} {o:?} {x:?} {c:?}", S::NAME), Box::new(move || bits(&S::num(&S::t_rate(&a, &b, o, x, &c).1)))));
        }
        let c0 = cs[0];
        v.push((format!("{} empty period {a0:?}", S::NAME), Box::new(move || bits(&S::num(&S::period(&a0, &[], &c0))))));
        if S::decay(&a0, &c0).is_some() {
            v.push((format!("{} decay and interval {a0:?}", S::NAME), Box::new(move || {
                let mut r = bits(&S::num(&S::decay(&a0, &c0).unwrap()));
                let (x, y) = S::ci(&a0).unwrap();
                r.extend(bits(&[x, y]));
                r
            })));
        }
    }
    sys::<Elo>(&mut v);
    sys::<Fifa>(&mut v);
    sys::<Ingo>(&mut v);
    sys::<Dwz>(&mut v);
    sys::<Uscf>(&mut v);
    sys::<Egf>(&mut v);
    sys::<Glicko>(&mut v);
    sys::<Glicko2>(&mut v);
    sys::<Sticko>(&mut v);
    sys::<GBoost>(&mut v);
    sys::<Wl>(&mut v);
    sys::<Ts>(&mut v);
    fn team<T: TeamSys>(v: &mut Vec<Call>) {
        let mut cs = T::cfgs(1);
        cs.extend(T::c_variants(&cs[0]));
        let base = vec![vec![TA[0], TA[1]], vec![TA[2]], vec![TA[3], TA[4]]];
        let mut alt1 = base.clone();
        alt1[0][1].0 += 0.003;
        let mut alt2 = base.clone();
        alt2[2][0].1 *= 1.7;
        let mut alt3 = base.clone();
        alt3[1].push(TA[5]);
        let sw = vec![base[2].clone(), base[1].clone(), base[0].clone()];
        let four = vec![base[0].clone(), base[1].clone(), base[2].clone(), vec![TA[6]]];
        for (i, t) in [base.clone(), alt1, alt2, alt3, sw, four].into_iter().enumerate() {
            for (j, c) in cs.iter().enumerate() {
                if (i > 1 && j > 0) || (i > 0 && j > 2) {
                    continue;
                }
                let c = *c;
                for r in [vec![1usize, 2, 3, 4], vec![2, 1, 2, 9]] {
                    let t2 = t.clone();
                    v.push((format!("{} many teams {t:?} {r:?} {c:?}", T::NAME), Box::new(move || bits(&flat(&T::multi(&t2, &r[..t2.len()], &c))))));
                }
                let t2 = t.clone();
                v.push((format!("{} two teams {t:?} {c:?}", T::NAME), Box::new(move || {
                    let (x, y) = T::two(&t2[0], &t2[1], LOSS, &c);
                    bits(&flat(&[x, y]))
                })));
                let t2 = t.clone();
                v.push((format!("{} team expected scores {t:?} {c:?}", T::NAME), Box::new(move || {
                    let mut r = T::expm(&t2, &c);
                    let (x, y) = T::exp2(&t2[0], &t2[2], &c);
                    r.extend([x, y]);
                    bits(&r)
                })));
            }
        }
        // a single match, so that a result kept from another form would show
        let (t, c) = (base, cs[0]);
        v.push((format!("{} empty team", T::NAME), Box::new(move || bits(&flat(&T::multi(&[t[0].clone(), vec![]], &[1, 2], &c))))));
    }
    team::<WlT>(&mut v);
    team::<TsT>(&mut v);
    let base = vec![vec![TA[0], TA[1]], vec![TA[2]], vec![TA[3], TA[4]]];
    for (k, ws) in [vec![vec![1.0, 1.0], vec![1.0], vec![1.0, 1.0]], vec![vec![1.0, 0.5], vec![1.0], vec![1.0, 1.0]], vec![vec![0.5, 1.0], vec![1.0], vec![0.0, 1.0]], vec![vec![1.0, -1.0], vec![1.0], vec![1.0, 1.0]], vec![vec![1.0], vec![1.0]]].into_iter().enumerate() {
        let cs = TsT::cfgs(1);
        for (j, c) in cs.iter().copied().chain(TsT::c_variants(&cs[0])).enumerate() {
            if (k > 1 && c.dynamics_factor == 0.0) || (k != 1 && j >= cs.len()) {
                continue;
            }
            let (b, w) = (base.clone(), ws.clone());
            v.push((format!("trueskill weighted {ws:?} {c:?}"), Box::new(move || match TsT::multi_w(&b, &[2, 1, 3], &c, Some(&w)) {
                Ok(x) => bits(&flat(&x)),
                Err(e) => format!("{e:?}").bytes().map(u64::from).collect(),
            })));
            let (b, w) = (base.clone(), ws.clone());
            v.push((format!("trueskill quality {ws:?} {c:?}"), Box::new(move || match TsT::quality_m(&b, &c, Some(&w)) {
                Ok(x) => bits(&[x, TsT::quality2(&b[0], &b[1], &c), TsT::quality(b[0][0], b[1][0], &c)]),
                Err(e) => format!("{e:?}").bytes().map(u64::from).collect(),
            })));
        }
    }
    for (age, n) in [(20usize, 4usize), (20, 5), (30, 5), (20, 6)] {
        v.push((format!("first dwz {age} {n}"), Box::new(move || {
            let l: Vec<(DWZRating, Outcomes)> = (0..n).map(|i| (DWZRating { rating: 1500.0 + 40.0 * i as f64, index: 3, age: 40 }, OUT[i % 3])).collect();
            match skillratings::dwz::get_first_dwz(age, &l) {
                Ok(x) => bits(&[x.rating, x.index as f64, x.age as f64]),
                Err(e) => format!("{e:?}").bytes().map(u64::from).collect(),
            }
        })));
    }
    v
}
/// A dense list of calls of every system.
fn dense_calls(thorough: bool) -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    fn sys<S: Sys>(v: &mut Vec<Call>, thorough: bool) {
        let spread = |l: Vec<S::R>, k: usize| -> Vec<S::R> { let s = (l.len() / k).max(1); l.into_iter().step_by(s).collect() };
        let mut a = spread(S::players(2), if thorough { 500 } else { 150 });
        a.extend(spread(S::players(3), if thorough { 500 } else { 100 }));
        a.extend(spread(S::lines(), if thorough { 2000 } else { 500 }));
        let b = spread(S::players(1), 10);
        let (cs, xs) = (S::cfgs(1), S::xs(1));
        for (i, &a) in a.iter().enumerate() {
            for (j, &b) in b.iter().enumerate() {
                let (x, c) = (xs[(i + j) % xs.len()], cs[(i / 3 + j) % cs.len()]);
                if !S::dom(&a, &b, x) || !S::dom(&a, &a, x) {
                    continue;
                }
                for o in OUT {
                    v.push((format!("{} {a:?} {b:?} {o:?} {x:?} {c:?}", S::NAME), Box::new(move || {
                        let (p, q) = S::rate(&a, &b, o, x, &c);
                        let (p2, q2) = S::rate(&b, &a, o, x, &c);
                        let (e, f) = S::exp(&a, &b, x, &c);
                        let mut r = bits(&[e, f]);
                        for z in [p, q, p2, q2, S::period(&a, &[(b, o, x), (a, inv(o), x), (b, o, x)], &c)] {
                            r.extend(bits(&S::num(&z)));
                        }
                        r.extend(bits(&S::exp_period(&a, &[(b, x), (a, x)], &c)));
                        r
                    })));
                }
            }
        }
    }
    macro_rules! each {
        ($($t:ident),*) => { $(sys::<$t>(&mut v, thorough);)* };
    }
    each!(Elo, Fifa, Ingo, Dwz, Uscf, Egf, Glicko, Glicko2, Sticko, GBoost, Wl, Ts);
    fn team<T: TeamSys>(v: &mut Vec<Call>, lay: &[Vec<Team>]) {
        let cs = T::cfgs(1);
        for (i, t) in lay.iter().enumerate() {
            let c = cs[i % cs.len()];
            for (k, r) in [0usize, 1, 2].into_iter().map(|k| (k, (0..t.len()).map(|i| 1 + (i * 2 + k) % 3).collect::<Vec<_>>())) {
                let t = t.clone();
                v.push((format!("{} {t:?} {r:?} {c:?}", T::NAME), Box::new(move || {
                    let mut z = flat(&T::multi(&t, &r, &c));
                    z.extend(T::expm(&t, &c));
                    let (x, y) = T::two(&t[0], &t[1], OUT[k], &c);
                    z.extend(flat(&[x, y]));
                    let (e, f) = T::exp2(&t[0], &t[1], &c);
                    z.extend([e, f]);
                    bits(&z)
                })));
            }
        }
    }
    let ctx = Ctx::new("", thorough, vec![]);
    let mut lay = layouts(&ctx, 4);
    lay.extend(lobbies(&ctx).into_iter().filter(|t| t.len() <= 12));
    team::<WlT>(&mut v, &lay);
    team::<TsT>(&mut v, &lay);
    for (i, t) in lay.into_iter().enumerate() {
        let cs = TsT::cfgs(1);
        let c = cs[i % cs.len()];
        v.push((format!("match quality and weights {t:?} {c:?}"), Box::new(move || {
            let ws: Vec<Vec<f64>> = t.iter().enumerate().map(|(i, x)| (0..x.len()).map(|j| [1.0, 0.5, 0.0, 0.25][(i + j) % 4]).collect()).collect();
            let mut z = vec![TsT::quality2(&t[0], &t[1], &c), TsT::quality(t[0][0], t[1][0], &c)];
            for w in [None, Some(&ws[..])] {
                z.push(TsT::quality_m(&t, &c, w).unwrap_or(-1.0));
                z.extend(TsT::multi_w(&t, &(0..t.len()).collect::<Vec<_>>(), &c, w).map(|x| flat(&x)).unwrap_or_default());
            }
            bits(&z)
        })));
    }
    for n in 0..40usize {
        for k in 0..9usize {
            for age in [8usize, 22, 40] {
                v.push((format!("first DWZ, age {age}, {n} games, opponents from {}", 500 + 160 * k), Box::new(move || {
                    let l: Vec<(DWZRating, Outcomes)> = (0..n).map(|i| (DWZRating { rating: 500.0 + 160.0 * k as f64 + 40.0 * i as f64, index: 3, age: 40 }, OUT[(i * k / 2) % 3])).collect();
                    match skillratings::dwz::get_first_dwz(age, &l) {
                        Ok(x) => bits(&[x.rating, x.index as f64, x.age as f64]),
                        Err(e) => format!("{e:?}").bytes().map(u64::from).collect(),
                    }
                })));
            }
        }
    }
    v
}
/// Entry point of the order processes: makes all dense calls in one of several orders and writes a digest of every result, in the order of the list.
pub fn ordered(order: usize, thorough: bool) {
    use std::io::Write;
    let c = dense_calls(thorough);
    let n = c.len();
    let mut out = vec![0u64; n];
    for k in 0..n {
        let i = order_index(order, k, n);
        out[i] = (c[i].1)().iter().fold(0xcbf2_9ce4_8422_2325u64, |h, x| (h ^ x).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(29));
    }
    let b: Vec<u8> = out.iter().flat_map(|x| x.to_le_bytes()).collect();
    let _ = std::io::stdout().write_all(&b);
}
/// Entry point of the processes of neighbouring calls.
pub fn near_calls(order: usize, thorough: bool) {
    use std::io::Write;
    let b: Vec<u8> = crate::near::Near::new(thorough).digests(order).iter().flat_map(|x| x.to_le_bytes()).collect();
    let _ = std::io::stdout().write_all(&b);
}
fn order_index(order: usize, k: usize, n: usize) -> usize {
    fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } }
    match order {
        0 => k,
        1 => n - 1 - k,
        _ => {
            // a stride of about n / (order * 1.618) without a common factor
            let mut s = (n as f64 / (order as f64 * 1.618)) as usize;
            while gcd(s, n) != 1 { s += 1 }
            (k * s + order) % n
        }
    }
}
/// Entry point of the cold processes: prints the result of one call made first thing in the process.
pub fn cold(i: usize) {
    let c = calls();
    let r = (c[i].1)();
    println!("{}", r.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" "));
}
pub fn c22(ctx: &Ctx) {
    let cs = calls();
    let n = cs.len();
    let idx: Vec<usize> = (0..n).collect();
    // 1. every call as the very first one of a process
    let exe = std::env::current_exe().expect("own path");
    let base = std::sync::Mutex::new(vec![vec![]; n]);
    ctx.sweep("first call of a fresh process", &idx, |w, &i| {
        let out = std::process::Command::new(&exe).args(["--cold", &i.to_string()]).output();
        let Ok(out) = out else { panic!("HARNESS: cannot start a process") };
        if !out.status.success() {
            w.fail("a call fails in a fresh process", || cs[i].0.clone());
            return;
        }
        let r: Vec<u64> = String::from_utf8_lossy(&out.stdout).split_whitespace().map(|h| u64::from_str_radix(h, 16).expect("hex")).collect();
        w.t(1);
        w.trace_done();
        w.ok(!r.is_empty(), "no result", || cs[i].0.clone());
        w.state(1, &[i as f64]);
        base.lock().unwrap()[i] = r;
        w.sample(|| cs[i].0.clone());
    });
    let base = base.into_inner().unwrap();
    if base.iter().any(|b| b.is_empty()) {
        return;
    }
    let run = |w: &mut W, i: usize, hist: &dyn Fn() -> String| {
        let r = (cs[i].1)();
        w.t(1);
        w.ok(r == base[i], "the result of a call depends on the calls before", || format!("{}: {} differs from the same call in a fresh process", hist(), cs[i].0));
    };
    // 2. all sequences of two and three calls, on one thread, nothing else running
    ctx.sweep("all pairs in one thread", &[0], |w, _| {
        for i in 0..n {
            for j in 0..n {
                let h = || format!("{} then {} then the first again", cs[i].0, cs[j].0);
                run(w, i, &h);
                run(w, j, &h);
                run(w, i, &h);
                w.trace_done();
            }
        }
    });
    // triples: of the same system all (thorough) or those with i + j + k divisible by 3, of different systems those of every 12th (5th) call
    let sys_of: Vec<&str> = cs.iter().map(|c| c.0.split(' ').next().unwrap()).collect();
    let coarse = ctx.lvl(12, 5);
    ctx.sweep("all triples", &idx, |w, &i| {
        for j in 0..n {
            for k in 0..n {
                let same = sys_of[i] == sys_of[j] && sys_of[j] == sys_of[k];
                let every = i % coarse == 0 && j % coarse == 0 && k % coarse == 0;
                if !every && !(same && (ctx.thorough || (i + j + k) % 3 == 0)) {
                    continue;
                }
                let h = || format!("{} then {} then", cs[i].0, cs[j].0);
                run(w, i, &h);
                run(w, j, &h);
                run(w, k, &h);
                w.trace_done();
            }
        }
    });
    // all dense calls in one process, in several orders: every result must be the same in all of them
    let orders: Vec<usize> = (0..ctx.lvl(6, 16)).collect();
    let digests = std::sync::Mutex::new(std::collections::BTreeMap::<usize, Vec<u8>>::new());
    ctx.sweep("orders of all dense calls", &orders, |w, &o| {
        let out = std::process::Command::new(&exe).args(["--order", &o.to_string(), if ctx.thorough { "thorough" } else { "quick" }]).output();
        let Ok(out) = out else { panic!("HARNESS: cannot start a process") };
        if !out.status.success() {
            w.fail("a call fails depending on the calls before", || format!("order {o} of the dense calls"));
            return;
        }
        w.t((out.stdout.len() / 8) as u64);
        w.trace_done();
        digests.lock().unwrap().insert(o, out.stdout);
    });
    let digests = digests.into_inner().unwrap();
    let dense = dense_calls(ctx.thorough);
    let dense_n = digests.get(&0).map_or(0, |d| d.len() / 8);
    ctx.sweep("comparison of the orders", &orders[1..], |w, o| {
        let (Some(a), Some(b)) = (digests.get(&0), digests.get(o)) else { return };
        w.ok(dense_n > 0 && a.len() == b.len(), "a different number of results", || format!("order {o}"));
        for i in 0..dense_n {
            w.state(7, &[i as f64]);
            w.ok(a[8 * i..8 * i + 8] == b[8 * i..8 * i + 8], "the result of a call depends on the calls before", || format!("{} (dense call {i}) differs between order 0 and order {o} of all dense calls", dense[i].0));
        }
    });
    // neighbouring calls: each as the only one of a process, and all of them in several orders
    let tier = if ctx.thorough { "thorough" } else { "quick" };
    let child = |args: &[&str]| -> Option<Vec<u8>> {
        let out = std::process::Command::new(&exe).args(args).arg(tier).output();
        let Ok(out) = out else { panic!("HARNESS: cannot start a process") };
        out.status.success().then_some(out.stdout)
    };
    let near_n = crate::near::Near::new(ctx.thorough).list.len();
    // a fresh process makes one call of every 1/64 (1/24) of the list, so calls of different functions
    let s = near_n.div_ceil(ctx.lvl(64, 24));
    let parts: Vec<usize> = (0..s).step_by(100).collect();
    let fresh = std::sync::Mutex::new(vec![0u8; near_n * 8]);
    ctx.sweep("neighbouring calls in fresh processes", &parts, |w, &from| {
        let to = (from + 100).min(s);
        let mine: Vec<usize> = (from..to).flat_map(|i| (i..near_n).step_by(s)).collect();
        match child(&["--fresh", &from.to_string(), &to.to_string(), &s.to_string()]) {
            Some(d) if d.len() == 8 * mine.len() => {
                let mut f = fresh.lock().unwrap();
                for (k, i) in mine.iter().enumerate() {
                    f[8 * i..8 * i + 8].copy_from_slice(&d[8 * k..8 * k + 8]);
                }
            }
            _ => w.fail("a call fails in a fresh process", || format!("one of the neighbouring calls {from} to {to}, stride {s}")),
        }
        w.t(mine.len() as u64);
        for _ in from..to {
            w.trace_done();
        }
    });
    let fresh = fresh.into_inner().unwrap();
    let bad = std::sync::Mutex::new(std::collections::BTreeMap::<usize, usize>::new());
    ctx.sweep("neighbouring calls in several orders", &(0..4).collect::<Vec<usize>>(), |w, o| {
        let d = child(&["--near", &o.to_string()]);
        w.t(near_n as u64);
        w.trace_done();
        match d {
            Some(d) if d.len() == 8 * near_n => {
                for i in 0..near_n {
                    w.state(8, &[i as f64]);
                    if !w.holds(d[8 * i..8 * i + 8] == fresh[8 * i..8 * i + 8]) {
                        bad.lock().unwrap().insert(i, *o);
                    }
                }
            }
            _ => w.fail("a call fails depending on the calls before", || format!("order {o} of the neighbouring calls")),
        }
    });
    let bad: Vec<(usize, usize)> = bad.into_inner().unwrap().into_iter().take(20).collect();
    if !bad.is_empty() {
        let near = crate::near::Near::new(ctx.thorough);
        let txt: Vec<String> = bad.iter().map(|(i, o)| { let f = &near.funs[near.list[*i].0]; format!("{} with the numbers {:?} (a neighbour of {:?}): order {o} of the neighbouring calls gives another result than a fresh process", f.name, near.args(*i), f.base.iter().map(|s| s.0).collect::<Vec<_>>()) }).collect();
        ctx.sweep("differences of neighbouring calls", &txt, |w, t| w.fail("the result of a call depends on the calls before", || t.clone()));
    }
    // 3. repetition: counters, caches that fill up
    ctx.sweep("repetition", &idx, |w, &i| {
        for k in 0..ctx.lvl(9000, 140_000) {
            run(w, i, &|| format!("repetition {k}"));
        }
        w.trace_done();
    });
    ctx.sweep("rotations", &idx, |w, &s| {
        for stride in [1usize, 7, n - 1] {
            for k in 0..n {
                run(w, (s + k * stride) % n, &|| format!("rotation from {s} with stride {stride}"));
            }
            w.trace_done();
        }
    });
    // 4. anything else before: every match, period and expected score of a spread of players (incl. the extreme ones) followed by a probe of every call kind
    fn primers<S: Sys>(ctx: &Ctx, n: usize, sys_of: &[&str], run: &(dyn Fn(&mut W, usize, &dyn Fn() -> String) + Sync)) {
        let mine: Vec<usize> = (0..n).filter(|&i| sys_of[i] == S::NAME).collect();
        let mut pl = S::players(1);
        let mut more = S::players(2);
        more.extend(S::lines());
        let step = (more.len() / ctx.lvl(120, 600)).max(1);
        pl = pl.iter().step_by((pl.len() / ctx.lvl(24, 60)).max(1)).copied().collect();
        pl.extend(more.into_iter().step_by(step));
        if S::NAME != "egf" && S::NAME != "uscf" {
            let (lo, hi) = pl.iter().map(|r| S::num(r)[0]).fold((f64::MAX, f64::MIN), |(l, h), r| (l.min(r), h.max(r)));
            let p = pl[0];
            pl.push(S::with_rating(&p, hi + 40.0 * (hi - lo)));
            pl.push(S::with_rating(&p, lo - 40.0 * (hi - lo)));
        }
        let (mut cs, mut xs) = (S::cfgs(2), S::xs(2));
        cs = cs.iter().step_by((cs.len() / 6).max(1)).copied().collect();
        xs = xs.iter().step_by((xs.len() / 6).max(1)).copied().collect();
        let few: Vec<S::R> = pl.iter().step_by((pl.len() / 16).max(1)).copied().chain(pl.iter().rev().take(2).copied()).collect();
        ctx.sweep(&format!("{} anything before", S::NAME), &pl, |w, a| {
            let mut k = 0;
            for (bi, b) in few.iter().enumerate() {
                for (ci, c) in cs.iter().enumerate() {
                    let x = xs[(bi + ci) % xs.len()];
                    if !S::dom(a, b, x) {
                        continue;
                    }
                    for o in OUT {
                        let case = || format!("after {} {a:?} {b:?} {o:?} {x:?} {c:?} as match, period of 1, 3 and 40 results, expected scores and decay", S::NAME);
                        w.at(case);
                        let _ = S::rate(a, b, o, x, c);
                        let _ = S::rate(b, a, o, x, c);
                        let _ = S::period(a, &[(*b, o, x)], c);
                        let _ = S::period(a, &[(*b, o, x), (*b, inv(o), x), (*b, o, x)], c);
                        if ci == 0 {
                            let _ = S::period(a, &vec![(*b, o, x); 40], c);
                        }
                        let _ = S::exp(a, b, x, c);
                        let _ = S::exp_period(a, &[(*b, x); 2], c);
                        let _ = S::decay(a, c);
                        w.t(8);
                        for _ in 0..5 {
                            k += 1;
                            run(w, mine[k % mine.len()], &case);
                        }
                        w.trace_done();
                    }
                }
            }
        });
    }
    macro_rules! prime {
        ($($t:ident),*) => { $(primers::<$t>(ctx, n, &sys_of, &run);)* };
    }
    prime!(Elo, Fifa, Ingo, Dwz, Uscf, Egf, Glicko, Glicko2, Sticko, GBoost, Wl, Ts);
    // 5. threads: all assignments of a two-call history to two threads, and each call on a fresh thread
    ctx.sweep("thread assignments", &idx, |w, &i| {
        let cs = &cs;
        for j in 0..n {
            // quick: pairs of the same system with i + j divisible by 3, of different systems those of every 12th call
            if !ctx.thorough && !(sys_of[i] == sys_of[j] && (i + j) % 3 == 0) && !(i % 12 == 0 && j % 12 == 0) {
                continue;
            }
            // call i on a fresh thread, then j here, then i here; and j on a second fresh thread
            let (r1, r2) = std::thread::scope(|s| {
                let r1 = s.spawn(|| (cs[i].1)()).join();
                let a = (cs[j].1)();
                let r2 = s.spawn(move || ((cs[j].1)(), (cs[i].1)())).join();
                (r1, (a, r2))
            });
            w.t(4);
            w.trace_done();
            let good = r1.as_ref().is_ok_and(|r| *r == base[i]) && r2.0 == base[j] && r2.1.as_ref().is_ok_and(|(x, y)| *x == base[j] && *y == base[i]);
            w.ok(good, "the result of a call depends on the thread", || format!("{} and {}", cs[i].0, cs[j].0));
            run(w, i, &|| "after another thread".into());
        }
    });
    // 6. overlapping calls: the same two calls started together on two threads
    ctx.sweep("overlapping calls", &idx.iter().step_by(ctx.lvl(12, 2)).copied().collect::<Vec<_>>(), |w, &i| {
        for j in (0..n).step_by(ctx.lvl(12, 2)) {
            let bar = std::sync::Barrier::new(2);
            let (x, y) = std::thread::scope(|s| {
                let (b, cs) = (&bar, &cs);
                let h = s.spawn(move || {
                    b.wait();
                    (0..20).map(|_| (cs[i].1)()).collect::<Vec<_>>()
                });
                b.wait();
                let y: Vec<_> = (0..20).map(|_| (cs[j].1)()).collect();
                (h.join(), y)
            });
            w.t(40);
            w.trace_done();
            w.ok(x.is_ok_and(|x| x.iter().all(|r| *r == base[i])) && y.iter().all(|r| *r == base[j]), "overlapping calls influence each other", || format!("{} and {}", cs[i].0, cs[j].0));
        }
    });
    ctx.assume("interleavings are explored at the granularity of calls (the library has no synchronisation points); overlapping calls are additionally run under the operating system's scheduler");
}
