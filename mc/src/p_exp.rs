//! C01 (expected scores are probabilities) and C02 (rating-period expected scores).
use crate::core::*;
use crate::for_all;
use crate::gen::*;
use crate::sys::*;
use crate::teams::*;

pub fn c01(ctx: &Ctx) {
    for_all!(c01_sys, ctx);
    c01_teams::<WlT>(ctx);
    c01_teams::<TsT>(ctx);
    ctx.assume("expected_score_two_teams with two empty teams and EGF ratings (plus handicap shift) of 3300 or more are outside the domain");
}

fn c01_sys<S: Sys>(ctx: &Ctx) {
    let (p1, p2) = (S::players(1), S::players(2));
    let cfgs = S::cfgs(2);
    let xs = S::xs(2);
    let etol = S::ETOL;
    pairs::<S>(ctx, "pairs", |w, a, b, cfgs, xs| {
        for c in cfgs {
            for &x in xs {
                if !S::dom(a, b, x) {
                    continue;
                }
                let case = || format!("expected_score({a:?}, {b:?}, {x:?}, {c:?})");
                w.at(case);
                let (e, f) = S::exp(a, b, x, c);
                w.t(1);
                w.trace_done();
                w.ok((0.0..=1.0).contains(&e) && (0.0..=1.0).contains(&f), "expected score outside [0,1]", || format!("{} = {e}, {f}", case()));
                w.ok((e + f - 1.0).abs() <= etol, "expected scores do not add up to 1", || format!("{} = {e}, {f}", case()));
                let d = S::good(a) - S::good(b) + S::adv(x, c);
                let rounding = 1e-12 * (S::good(a).abs() + S::good(b).abs() + 1.0);
                if d.abs() <= rounding {
                    w.ok((e - 0.5).abs() <= etol, "equal sides without advantage are not at 1/2", || format!("{} = {e}, {f}", case()));
                } else if d > 0.0 {
                    w.ok(e >= 0.5 - etol && f <= 0.5 + etol, "favoured side below 1/2", || format!("{} = {e}, {f}", case()));
                } else {
                    w.ok(e <= 0.5 + etol && f >= 0.5 - etol, "favoured side below 1/2", || format!("{} = {e}, {f}", case()));
                }
                let (mx, mc) = S::mirror(x, c);
                // For the colour-aware systems a `false` colour is already the swapped call.
                if S::NAME != "sticko" && S::NAME != "glicko_boost" || mx_is_first(S::NAME, &x) {
                    w.at(|| format!("expected_score({b:?}, {a:?}, {mx:?}, {mc:?})"));
                    let (g, h) = S::exp(b, a, mx, &mc);
                    w.t(1);
                    w.ok((g - f).abs() <= etol && (h - e).abs() <= etol, "swapping the participants does not swap the expected scores", || format!("{} = {e}, {f}; swapped: {g}, {h}", case()));
                }
                w.state(1, &[e, f]);
                w.sample(|| format!("{} = ({e}, {f})", case()));
            }
        }
    });
    // Ladders: raise one rating / one uncertainty step by step.
    let mut rl: Vec<f64> = S::players(3).iter().chain(&p2).map(|p| S::num(p)[0]).collect();
    rl.sort_by(|a, b| a.partial_cmp(b).unwrap());
    rl.dedup();
    let uncs: Vec<f64> = if !S::UNC { vec![] } else if S::NAME == "weng_lin" || S::NAME == "trueskill" { wl_uncs(3) } else { devs(3) };
    let up = if S::NAME == "ingo" { -1.0 } else { 1.0 };
    let stepn = if ctx.thorough { 1 } else { 3 };
    let ladder_p: Vec<S::R> = p2.iter().step_by(stepn).copied().chain(p1.iter().copied()).collect();
    ctx.sweep(&format!("{} rating ladders", S::NAME), &ladder_p, |w, a| {
        for b in &p1 {
            for c in &cfgs {
                for &x in &xs {
                    let (mut last, mut lastf) = (None::<(f64, f64)>, 0.0);
                    for &r in &rl {
                        let q = S::with_rating(a, r);
                        if !S::dom(&q, b, x) {
                            continue;
                        }
                        w.at(|| format!("expected_score({q:?}, {b:?}, {x:?}, {c:?})"));
                        let (e, f) = S::exp(&q, b, x, c);
                        w.t(1);
                        if let Some((r0, e0)) = last {
                            w.ok((e - e0) * up >= -1e-12 - etol * 0.1 && (f - lastf) * up <= 1e-12 + etol * 0.1, "raising a side's rating lowers its expected score", || {
                                format!("expected_score({q:?}, {b:?}, {x:?}, {c:?}) = {e}, {f}, but with rating {r0}: {e0}, {lastf}")
                            });
                        }
                        last = Some((r, e));
                        lastf = f;
                    }
                    w.trace_done();
                    w.state(2, &[lastf]);
                }
            }
        }
    });
    if !uncs.is_empty() {
        ctx.sweep(&format!("{} uncertainty ladders", S::NAME), &ladder_p, |w, a| {
            for b in &p1 {
                for c in &cfgs {
                    for &x in &xs {
                        for side in 0..2 {
                            let mut last = None::<(f64, f64)>;
                            for &u in &uncs {
                                let (p, q) = if side == 0 { (S::with_unc(a, u), *b) } else { (*a, S::with_unc(b, u)) };
                                w.at(|| format!("expected_score({p:?}, {q:?}, {x:?}, {c:?})"));
                                let e = S::exp(&p, &q, x, c).0 - 0.5;
                                w.t(1);
                                if let Some((u0, e0)) = last {
                                    w.ok(e.abs() <= e0.abs() + 1e-12 + etol * 0.1 && (e * e0 >= 0.0 || e.abs() <= etol), "raising an uncertainty moves the expected score away from 1/2", || {
                                        format!("expected_score({p:?}, {q:?}, {x:?}, {c:?}) = {}, but with uncertainty {u0} (side {side}): {}", e + 0.5, e0 + 0.5)
                                    });
                                }
                                last = Some((u, e));
                            }
                            w.trace_done();
                        }
                    }
                }
            }
        });
    }
}
fn mx_is_first<X: std::fmt::Debug>(_: &str, x: &X) -> bool {
    format!("{x:?}") == "true"
}

fn c01_teams<T: TeamSys>(ctx: &Ctx) {
    let cfgs = T::cfgs(2);
    let etol = T::ETOL;
    let mut lay = layouts(ctx, ctx.lvl(4, 5));
    lay.extend(lobbies(ctx));
    for t in TA {
        lay.push(vec![vec![t]]);
        lay.push(vec![vec![t, TA[0]]]);
    }
    ctx.sweep(&format!("{} teams", T::NAME), &lay, |w, t| {
        let n = t.len();
        for c in &T::at(t, &cfgs) {
            let case = || format!("{} expected score of teams {t:?} with {c:?}", T::NAME);
            w.at(case);
            let e = T::expm(t, c);
            w.t(1);
            w.trace_done();
            w.state(3, &e);
            if !w.ok(e.len() == n, "number of expected scores", || format!("{}: {e:?}", case())) {
                continue;
            }
            w.ok(e.iter().all(|x| (0.0..=1.0).contains(x)), "expected score outside [0,1]", || format!("{}: {e:?}", case()));
            w.ok((e.iter().sum::<f64>() - 1.0).abs() <= etol * n as f64, "expected scores do not add up to 1", || format!("{}: {e:?}", case()));
            if t.iter().all(|x| x == &t[0]) {
                w.ok(e.iter().all(|x| (x - 1.0 / n as f64).abs() <= etol), "equal teams without equal expected scores", || format!("{}: {e:?}", case()));
            }
            // swapping any two teams swaps their expected scores and nothing else
            let big = n > 5;
            for i in 0..n {
                for j in i + 1..n {
                    if big && j != i + 1 && (i, j) != (0, n - 1) {
                        continue;
                    }
                    let mut s = t.clone();
                    s.swap(i, j);
                    let mut f = T::expm(&s, c);
                    w.t(1);
                    if f.len() == n {
                        f.swap(i, j);
                    }
                    w.close_all(&f, &e, etol, "swapping two teams does not swap the expected scores", || format!("{} teams {i},{j}", case()));
                }
            }
            // raising one member's rating
            for i in 0..n {
                if big && i > 1 && i + 1 < n {
                    continue;
                }
                for k in 0..t[i].len().min(3) {
                    for d in [0.01, 1.0, 8.0, 60.0] {
                        let mut s = t.clone();
                        s[i][k].0 += d;
                        let f = T::expm(&s, c);
                        w.t(1);
                        w.ok(f.len() == n && f[i] >= e[i] - 1e-12 - etol * 0.1, "raising a rating lowers the team's expected score", || format!("{} player {i}/{k} +{d}: {f:?} instead of {e:?}", case()));
                    }
                }
            }
            if n == 2 {
                let (a, b) = T::exp2(&t[0], &t[1], c);
                let (b2, a2) = T::exp2(&t[1], &t[0], c);
                w.t(2);
                w.trace_done();
                w.ok((0.0..=1.0).contains(&a) && (0.0..=1.0).contains(&b) && (a + b - 1.0).abs() <= etol, "two-team expected scores", || format!("{}: {a}, {b}", case()));
                w.ok((a - a2).abs() <= etol && (b - b2).abs() <= etol, "swapping two teams does not swap the expected scores", || format!("{}: {a}, {b} swapped {b2}, {a2}", case()));
                let sum = |x: &Team| x.iter().map(|p| p.0).sum::<f64>();
                let d = sum(&t[0]) - sum(&t[1]);
                if d.abs() < 1e-9 {
                    w.ok((a - 0.5).abs() <= etol, "equal teams not at 1/2", || format!("{}: {a}", case()));
                } else {
                    w.ok((a - 0.5) * d >= -etol * d.abs(), "favoured team below 1/2", || format!("{}: {a}", case()));
                }
                for i in 0..2 {
                    for k in 0..t[i].len() {
                        for d in [0.01, 1.0, 8.0, 60.0] {
                            let mut s = t.clone();
                            s[i][k].0 += d;
                            let f = T::exp2(&s[0], &s[1], c);
                            let (new, old) = if i == 0 { (f.0, a) } else { (f.1, b) };
                            w.t(1);
                            w.ok(new >= old - 1e-12 - etol * 0.1, "raising a rating lowers the team's expected score", || format!("{} player {i}/{k} +{d}: {new} instead of {old}", case()));
                        }
                        for d in [0.01, 0.5, 4.0, 20.0] {
                            let mut s = t.clone();
                            s[i][k].1 += d;
                            let f = T::exp2(&s[0], &s[1], c).0 - 0.5;
                            w.t(1);
                            let o = a - 0.5;
                            w.ok(f.abs() <= o.abs() + 1e-12 + etol * 0.1 && (f * o >= 0.0 || f.abs() <= etol), "raising an uncertainty moves the expected score away from 1/2", || {
                                format!("{} player {i}/{k} uncertainty +{d}: {} instead of {a}", case(), f + 0.5)
                            });
                        }
                    }
                }
            }
        }
        w.sample(|| format!("{t:?}"));
    });
    // one empty side
    ctx.sweep(&format!("{} empty side", T::NAME), &TA, |w, p| {
        for c in &cfgs {
            for q in TA {
                let t = vec![*p, q];
                w.at(|| format!("expected_score_two_teams({t:?}, [], {c:?})"));
                let (a, b) = T::exp2(&t, &[], c);
                let (b2, a2) = T::exp2(&[], &t, c);
                w.t(2);
                w.trace_done();
                w.state(4, &[a, b]);
                w.ok((0.0..=1.0).contains(&a) && (0.0..=1.0).contains(&b) && (a + b - 1.0).abs() <= etol && (a - a2).abs() <= etol && (b - b2).abs() <= etol, "expected score with an empty side", || {
                    format!("{t:?} against nobody: {a}, {b}; swapped {b2}, {a2}")
                });
            }
        }
    });
}

pub fn c02(ctx: &Ctx) {
    for_all!(c02_sys, ctx);
}

const GB_KEY: &str = "glicko_boost::expected_score_rating_period ignores the colour";

fn c02_sys<S: Sys>(ctx: &Ctx) {
    let (p1, p2) = (S::players(1), S::players(2));
    let xs = S::xs(2);
    let one = |w: &mut W, a: &S::R, l: &[(S::R, S::X)], c: &S::C, tag: u64| {
        let case = || {
            let s = format!("{l:?}");
            let s: String = if s.len() > 600 { format!("{} ... ({} opponents)", s.chars().take(600).collect::<String>(), l.len()) } else { s };
            format!("{} expected_score_rating_period({a:?}, {s}, {c:?})", S::NAME)
        };
        w.at(case);
        let got = S::exp_period(a, l, c);
        w.t(1);
        w.trace_done();
        w.state(tag, &got);
        if !w.ok(got.len() == l.len(), "number of expected scores differs from number of opponents", || format!("{}: {got:?}", case())) {
            return;
        }
        for (i, (b, x)) in l.iter().enumerate() {
            let e = S::exp(a, b, *x, c).0;
            w.t(1);
            if near(got[i], e, 1e-12) {
                w.ok(true, "", String::new);
            } else if S::NAME == "glicko_boost" && S::adv(*x, c) != 0.0 && format!("{x:?}") == "false" && near(got[i], S::ref_exp(a, b, S::xs(0)[0], c), 1e-10) {
                // recorded defect: exactly the value for the other colour
                w.known(GB_KEY, "rating-period expected score differs from the head-to-head one", || format!("entry {i} of {}: got {}, head to head {e}", case(), got[i]));
            } else {
                w.fail("rating-period expected score differs from the head-to-head one", || format!("entry {i} of {}: got {}, head to head {e}", case(), got[i]));
            }
        }
    };
    pairs::<S>(ctx, "single opponent", |w, a, b, cfgs, xs| {
        for c in cfgs {
            for &x in xs {
                if S::dom(a, b, x) {
                    one(w, a, &[(*b, x)], c, 1);
                }
            }
        }
    });
    let c1 = S::cfgs(1);
    let pl = list_players::<S>(ctx);
    // all opponent lists up to a length, and long ones
    let opp: Vec<(S::R, S::X)> = {
        let x1 = S::xs(1);
        let mut v: Vec<(S::R, S::X)> = vec![];
        for (i, o) in opponents::<S>(7).into_iter().enumerate() {
            v.push((o, x1[i % x1.len()]));
            if i < 3 {
                v.push((o, x1[(i + x1.len() / 2) % x1.len()]));
            }
        }
        v
    };
    let mut lists: Vec<Vec<(S::R, S::X)>> = vec![vec![]];
    for len in 1..=ctx.lvl(4, 5) {
        let k = match len { 1 | 2 | 3 => opp.len(), 4 => 6, _ => 5 };
        for s in seqs(k.min(opp.len()), len) {
            lists.push(s.iter().map(|&i| opp[i]).collect());
        }
    }
    let (all, x1) = (S::players(1), S::xs(1));
    for n in (5..=70usize).chain(ctx.lvl(vec![99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300], vec![99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 3000])) {
        for stride in [0, 1, 3] {
            lists.push((0..n).map(|i| (all[(i * stride + 1) % all.len()], x1[(i * stride / 2) % x1.len()])).collect());
        }
        lists.push((0..n).rev().map(|i| (all[i % all.len()], x1[i % x1.len()])).collect());
    }
    for n in [513usize, 1025, 2050, 4100, 65_600] {
        lists.push((0..n).map(|i| (all[(i + 1) % all.len()], x1[i % x1.len()])).collect());
    }
    ctx.sweep(&format!("{} opponent lists", S::NAME), &lists, |w, l| {
        for a in &pl {
            if l.iter().all(|(b, x)| S::dom(a, b, *x)) {
                for c in &c1 {
                    one(w, a, l, c, 2);
                }
            }
        }
        w.sample(|| format!("{} list of {}", S::NAME, l.len()));
    });
    let list = |w: &mut W, a: &S::R, l: &L<S>, _: bool, cs: &[S::C]| {
        let os: Vec<(S::R, S::X)> = l.iter().map(|e| (e.0, e.2)).collect();
        for c in cs {
            one(w, a, &os, c, 2);
        }
    };
    every_player::<S>(ctx, "opponent lists", &list);
    every_config::<S>(ctx, "opponent lists", &list);
    // repeated opponents, the player itself among the opponents
    ctx.sweep(&format!("{} self and repeats", S::NAME), &p2, |w, a| {
        for b in &p1 {
            for &x in &xs {
                if S::dom(a, b, x) && S::dom(a, a, x) {
                    for c in &c1 {
                        one(w, a, &[(*a, x), (*b, x), (*a, x)], c, 3);
                        one(w, a, &[(*b, x), (*b, x)], c, 3);
                    }
                }
            }
        }
    });
}
