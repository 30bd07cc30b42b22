//! C12 (positions and rank numbers), C13 (forms agree), C17 (weights), C18 (match quality).
use crate::core::*;
use crate::gen::*;
use crate::refm;
use crate::sys::{OUT, steps};
use crate::teams::*;
use skillratings::trueskill::{TrueSkillConfig, WeightError};
use skillratings::Outcomes::{self, *};

fn shape(a: &[Team], b: &[Team]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.len() == y.len())
}
fn permuted<X: Clone>(v: &[X], p: &[usize]) -> Vec<X> {
    p.iter().map(|&i| v[i].clone()).collect()
}
fn some_perms(n: usize, all_upto: usize) -> Vec<Vec<usize>> {
    if n <= all_upto {
        return perms(n);
    }
    vec![
        (0..n).rev().collect(),
        (0..n).map(|i| (i + 1) % n).collect(),
        (0..n).map(|i| (i + n / 2) % n).collect(),
        (0..n).map(|i| i ^ 1).map(|i| if i >= n { n - 1 } else { i }).collect(),
        { let mut v: Vec<usize> = (0..n).collect(); v.swap(0, n - 1); v },
        { let mut v: Vec<usize> = (0..n).step_by(2).collect(); v.extend((0..n).skip(1).step_by(2)); v },
    ]
}
/// Permutations that keep the listed order of tied teams, for any number of teams.
fn tie_keeping(r: &[usize]) -> Vec<Vec<usize>> {
    let n = r.len();
    let nth: Vec<usize> = (0..n).map(|i| r[..i].iter().filter(|x| **x == r[i]).count()).collect();
    let by = |key: &dyn Fn(usize) -> (usize, usize)| {
        let mut v: Vec<usize> = (0..n).collect();
        v.sort_by_key(|&i| (key(i), nth[i], i));
        v
    };
    let mut v = vec![
        by(&|i| (r[i], 0)),
        by(&|i| (usize::MAX - r[i], 0)),
        by(&|i| (nth[i], r[i])),
        by(&|i| (nth[i], usize::MAX - r[i])),
        by(&|i| (r[i].wrapping_mul(7) % 11, r[i])),
        by(&|i| (r[i] % 2, usize::MAX - r[i])),
    ];
    v.dedup();
    v
}
/// Order-preserving relabellings of ranks, incl. huge and widely spaced numbers.
fn relabellings(r: &[usize]) -> Vec<Vec<usize>> {
    let mut s: Vec<usize> = r.to_vec();
    s.sort();
    s.dedup();
    let pos: Vec<usize> = r.iter().map(|x| s.iter().position(|y| y == x).unwrap()).collect();
    let k = s.len();
    let maps: Vec<Vec<usize>> = vec![
        (0..k).collect(),
        (0..k).map(|i| i + 1).collect(),
        (0..k).map(|i| 10 * i + 7).collect(),
        (0..k).map(|i| 255 + i).collect(),
        (0..k).map(|i| 256 * i).collect(),
        (0..k).map(|i| 65_535 + 65_536 * i).collect(),
        (0..k).map(|i| (1 << 31) - 1 + i).collect(),
        (0..k).map(|i| (1usize << 32) * i + 3).collect(),
        (0..k).map(|i| (1usize << 32) - 1 + i).collect(),
        (0..k).map(|i| (1usize << 53) + i).collect(),
        (0..k).map(|i| (1usize << 63) - 1 + i).collect(),
        (0..k).map(|i| usize::MAX - (k - 1 - i)).collect(),
        (0..k).map(|i| if i + 1 == k && k > 1 { usize::MAX } else { i }).collect(),
        (0..k).map(|i| if i == 0 { 0 } else { 1_000_000_007 * i }).collect(),
        (0..k).map(|i| (1usize << (3 * i).min(62)) - 1).collect(),
    ];
    maps.into_iter().filter(|m| m.windows(2).all(|p| p[0] < p[1])).map(|m| pos.iter().map(|&i| m[i]).collect()).collect()
}
fn distinct(r: &[usize]) -> bool {
    (0..r.len()).all(|i| (0..i).all(|j| r[i] != r[j]))
}
fn eqt(a: &[Team], b: &[Team], tol: f64) -> bool {
    shape(a, b) && flat(a).iter().zip(flat(b)).all(|(x, y)| near(*x, y, tol))
}

// ---------------------------------------------------------------- C12
pub fn c12(ctx: &Ctx) {
    c12_sys::<WlT>(ctx);
    c12_sys::<TsT>(ctx);
    ctx.assume("TrueSkill with ties: the published algorithm links tied teams in the listed order, so permutations are only compared that keep the order of tied teams");
}
fn c12_sys<T: TeamSys>(ctx: &Ctx) {
    let ts = T::NAME == "trueskill";
    let mut lay = layouts(ctx, ctx.lvl(4, 5));
    let small = lay.len();
    lay.extend(lobbies(ctx));
    lay.extend(big_lobbies(ctx));
    lay.extend(TA.iter().map(|p| vec![vec![*p]]));
    let items: Vec<(usize, Vec<Team>)> = lay.into_iter().enumerate().collect();
    let cfgs = T::cfgs(1);
    ctx.sweep(&format!("{} rankings", T::NAME), &items, |w, (k, t)| {
        let n = t.len();
        // all configurations for a third of the layouts, the first one for all of them
        let nc = if *k < small && k % 3 == 0 { cfgs.len() } else { 1 };
        for c in &T::at(t, &cfgs[..nc]) {
            let e = T::expm(t, c);
            for p in some_perms(n, ctx.lvl(4, 5)) {
                let e2 = T::expm(&permuted(t, &p), c);
                w.t(1);
                w.close_all(&e2, &permuted(&e, &p), 1e-9, "permuting the teams does not permute the expected scores", || format!("{} {t:?} {c:?} permutation {p:?}", T::NAME));
            }
            for r in some_ranks(n) {
                let case = || format!("{} multi team {t:?} ranks {r:?} {c:?}", T::NAME);
                w.at(case);
                let x = T::multi(t, &r, c);
                w.t(1);
                w.state(1, &flat(&x));
                if !w.ok(shape(t, &x), "the result does not have the shape of the teams", || format!("{}: {x:?}", case())) {
                    continue;
                }
                for p in some_perms(n, ctx.lvl(4, 5)) {
                    // tied TrueSkill teams must keep their order
                    if ts && !distinct(&r) && !(0..n).all(|i| (0..i).all(|j| r[p[i]] != r[p[j]] || p[j] < p[i])) {
                        continue;
                    }
                    let (t2, r2) = (permuted(t, &p), permuted(&r, &p));
                    let y = T::multi(&t2, &r2, c);
                    w.t(1);
                    w.trace_done();
                    w.ok(eqt(&y, &permuted(&x, &p), 1e-9), "permuting the teams does not permute the results", || format!("{} permutation {p:?}: {x:?} vs {y:?}", case()));
                }
                if n > 4 {
                    for p in tie_keeping(&r) {
                        let y = T::multi(&permuted(t, &p), &permuted(&r, &p), c);
                        w.t(1);
                        w.trace_done();
                        w.ok(eqt(&y, &permuted(&x, &p), 1e-9), "permuting the teams does not permute the results", || format!("{} permutation {p:?}: {x:?} vs {y:?}", case()));
                    }
                }
                for r2 in relabellings(&r) {
                    w.at(|| format!("{} relabelled {r2:?}", case()));
                    let y = T::multi(t, &r2, c);
                    w.t(1);
                    w.trace_done();
                    w.ok(eqt(&y, &x, 1e-9), "rank numbers matter beyond their order", || format!("{} relabelled {r2:?}: {x:?} vs {y:?}", case()));
                }
                // players within teams
                for i in 0..n.min(6) {
                    if t[i].len() < 2 {
                        continue;
                    }
                    for p in some_perms(t[i].len(), 3) {
                        let mut t2 = t.clone();
                        t2[i] = permuted(&t[i], &p);
                        let y = T::multi(&t2, &r, c);
                        w.t(1);
                        w.trace_done();
                        let mut x2 = x.clone();
                        x2[i] = permuted(&x[i], &p);
                        w.ok(eqt(&y, &x2, 1e-7), "permuting the players of a team does not permute their ratings", || format!("{} team {i} permuted {p:?}: {x:?} vs {y:?}", case()));
                    }
                }
                w.sample(|| format!("{} -> {x:?}", case()));
            }
        }
    });
    // two-team form
    let two: Vec<Vec<Team>> = layouts(ctx, 2).into_iter().filter(|t| t.len() == 2).collect();
    let cfgs = T::cfgs(2);
    ctx.sweep(&format!("{} two teams", T::NAME), &two, |w, t| {
        for c in &T::at(t, &cfgs) {
            let e = T::exp2(&t[0], &t[1], c);
            for o in OUT {
                let case = || format!("{} two teams {t:?} {o:?} {c:?}", T::NAME);
                w.at(case);
                let (x, y) = T::two(&t[0], &t[1], o, c);
                w.t(1);
                if !w.ok(shape(t, &[x.clone(), y.clone()]), "the result does not have the shape of the teams", case) {
                    continue;
                }
                for p in some_perms(t[0].len(), 4) {
                    for q in some_perms(t[1].len(), 3) {
                        let (a, b) = (permuted(&t[0], &p), permuted(&t[1], &q));
                        let (x2, y2) = T::two(&a, &b, o, c);
                        let e2 = T::exp2(&a, &b, c);
                        w.t(2);
                        w.trace_done();
                        w.ok(eqt(&[x2.clone(), y2.clone()], &[permuted(&x, &p), permuted(&y, &q)], 1e-9), "permuting the players of a team does not permute their ratings", || format!("{} {p:?} {q:?}: {x:?} {y:?} vs {x2:?} {y2:?}", case()));
                        w.ok(near(e.0, e2.0, 1e-9) && near(e.1, e2.1, 1e-9), "permuting the players of a team changes the expected scores", || format!("{} {p:?} {q:?}", case()));
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C13
pub fn c13(ctx: &Ctx) {
    c13_sys::<WlT>(ctx);
    c13_sys::<TsT>(ctx);
    // pairwise sums (Weng-Lin)
    let mut lay: Vec<Vec<Team>> = layouts(ctx, ctx.lvl(4, 5));
    lay.extend(lobbies(ctx));
    let cfgs = WlT::cfgs(2);
    ctx.sweep("weng_lin pairwise sums", &lay, |w, t| {
        let n = t.len();
        for c in &WlT::at(t, &cfgs) {
            for r in some_ranks(n) {
                let case = || format!("weng_lin {t:?} ranks {r:?} {c:?}");
                w.at(case);
                let x = WlT::multi(t, &r, c);
                w.t(1);
                w.trace_done();
                w.state(2, &flat(&x));
                if !w.ok(shape(t, &x), "wrong shape", case) {
                    continue;
                }
                for i in 0..n {
                    let mut sum = vec![(0.0, 0.0); t[i].len()];
                    let mut floor = false;
                    for q in 0..n {
                        if q != i {
                            let o = if r[i] < r[q] { WIN } else if r[i] == r[q] { DRAW } else { LOSS };
                            let (y, _) = WlT::two(&t[i], &t[q], o, c);
                            w.t(1);
                            for (k, (new, old)) in y.iter().zip(&t[i]).enumerate() {
                                sum[k].0 += new.0 - old.0;
                                let f = (new.1 / old.1).powi(2) - 1.0;
                                floor |= 1.0 + f <= c.uncertainty_tolerance * 1.0001;
                                sum[k].1 += f;
                            }
                        }
                    }
                    for (k, old) in t[i].iter().enumerate() {
                        w.close(x[i][k].0, old.0 + sum[k].0, 1e-8, "the many-team rating is not the sum of the pairwise updates", || format!("{} team {i} player {k}", case()));
                        if !floor {
                            let e = old.1 * (1.0 + sum[k].1).max(c.uncertainty_tolerance).sqrt();
                            w.close(x[i][k].1, e, 1e-7, "the many-team uncertainty is not the combination of the pairwise updates", || format!("{} team {i} player {k}", case()));
                        }
                    }
                }
            }
        }
    });
    // match quality
    let cfgs = TsT::cfgs(2);
    let lay: Vec<Vec<Team>> = layouts(ctx, 3).into_iter().chain(lobbies(ctx)).filter(|t| t.len() == 2).collect();
    ctx.sweep("trueskill match quality forms", &lay, |w, t| {
        for c in &TsT::at(t, &cfgs) {
            let case = || format!("quality {t:?} {c:?}");
            w.at(case);
            let two = TsT::quality2(&t[0], &t[1], c);
            let many = TsT::quality_m(t, c, None);
            w.t(2);
            w.trace_done();
            w.state(3, &[two]);
            w.ok(many.as_ref().is_ok_and(|m| near(*m, two, 1e-9)), "two-team and many-team match quality differ", || format!("{}: {two} {many:?}", case()));
            if t[0].len() == 1 && t[1].len() == 1 {
                let one = TsT::quality(t[0][0], t[1][0], c);
                w.t(1);
                w.close(two, one, 1e-9, "1v1 and two-team match quality differ", case);
            }
        }
    });
    ctx.assume("TrueSkill many-team ratings are compared with the two-team form only without dynamics: the two-team form leaves the dynamics out of its normalisation");
}
fn c13_sys<T: TeamSys>(ctx: &Ctx) {
    let ts = T::NAME == "trueskill";
    let mut cfgs = T::cfgs(2);
    if ts {
        // a version of each without dynamics
        let mut z: Vec<T::C> = vec![];
        for c in TsT::cfgs(2) {
            z.push(T::from_ts(TrueSkillConfig { dynamics_factor: 0.0, ..c }));
        }
        cfgs.extend(z);
    }
    let rs: Vec<f64> = steps(-10.0, 60.0, ctx.lvl(3.5, 1.25));
    let us = [0.1, 0.75, 2.1, 25.0 / 3.0, 12.0];
    let pl: Vec<P> = rs.iter().flat_map(|&r| us.map(|u| (r, u))).collect();
    let ranks = |o: Outcomes| match o { WIN => [1usize, 2], DRAW => [1, 1], LOSS => [2, 1] };
    ctx.sweep(&format!("{} singles", T::NAME), &pl, |w, &a| {
        for &b in &pl {
            for c in &cfgs {
                let case = || format!("{} {a:?} {b:?} {c:?}", T::NAME);
                w.at(case);
                let (e1, e2, em) = (T::exp1(a, b, c), T::exp2(&[a], &[b], c), T::expm(&[vec![a], vec![b]], c));
                w.t(3);
                w.ok(near(e1.0, e2.0, 1e-9) && near(e1.1, e2.1, 1e-9), "1v1 and two-team expected scores differ", || format!("{}: {e1:?} {e2:?}", case()));
                w.ok(em.len() == 2 && near(em[0], e1.0, 1e-6) && near(em[1], e1.1, 1e-6), "1v1 and many-team expected scores differ", || format!("{}: {e1:?} {em:?}", case()));
                for o in OUT {
                    let (x, y) = T::one(a, b, o, c);
                    let (x2, y2) = T::two(&[a], &[b], o, c);
                    w.t(2);
                    w.trace_done();
                    w.state(1, &[x.0, x.1, y.0, y.1]);
                    let one = [vec![x], vec![y]];
                    w.ok(eqt(&one, &[x2.clone(), y2.clone()], 1e-9), "1v1 and two-team ratings differ", || format!("{} {o:?}: {one:?} vs {x2:?} {y2:?}", case()));
                    // TrueSkill: numbers far in the tails of the normal distribution are approximations
                    if T::dynamics(c) == 0.0 && (!ts || tame(&[a], &[b], o, T::beta(c))) {
                        let m = T::multi(&[vec![a], vec![b]], &ranks(o), c);
                        w.t(1);
                        w.ok(eqt(&one, &m, T::TOL), "1v1 and many-team ratings differ", || format!("{} {o:?}: {one:?} vs {m:?}", case()));
                    }
                    w.sample(|| format!("{} {o:?}: {one:?}", case()));
                }
            }
        }
    });
    let mut lay: Vec<Vec<Team>> = layouts(ctx, 3).into_iter().filter(|t| t.len() == 2).collect();
    lay.extend(lobbies(ctx).into_iter().filter(|t| t.len() == 2));
    ctx.sweep(&format!("{} two teams", T::NAME), &lay, |w, t| {
        for c in &T::at(t, &cfgs) {
            let case = || format!("{} {t:?} {c:?}", T::NAME);
            w.at(case);
            let (e2, em) = (T::exp2(&t[0], &t[1], c), T::expm(t, c));
            w.t(2);
            w.ok(em.len() == 2 && near(em[0], e2.0, 1e-6) && near(em[1], e2.1, 1e-6), "two-team and many-team expected scores differ", || format!("{}: {e2:?} {em:?}", case()));
            if T::dynamics(c) != 0.0 {
                continue;
            }
            for o in OUT {
                if ts && !tame(&t[0], &t[1], o, T::beta(c)) {
                    continue;
                }
                let (x, y) = T::two(&t[0], &t[1], o, c);
                let m = T::multi(t, &ranks(o), c);
                w.t(2);
                w.trace_done();
                w.state(4, &flat(&m));
                w.ok(eqt(&[x.clone(), y.clone()], &m, T::TOL), "two-team and many-team ratings differ", || format!("{} {o:?}: {x:?} {y:?} vs {m:?}", case()));
            }
        }
    });
}
/// The result is less than 4 standard deviations surprising and the two truncation formulas are well conditioned.
fn tame(a: &[P], b: &[P], o: Outcomes, beta: f64) -> bool {
    let n = (a.len() + b.len()) as f64;
    let c = (n * beta * beta + a.iter().chain(b).map(|p| p.1 * p.1).sum::<f64>()).sqrt();
    let d = (a.iter().map(|p| p.0).sum::<f64>() - b.iter().map(|p| p.0).sum::<f64>()) / c;
    match o {
        WIN => d > -4.0,
        LOSS => d < 4.0,
        DRAW => d.abs() < 4.0,
    }
}

// ---------------------------------------------------------------- C17
pub fn c17(ctx: &Ctx) {
    errors(ctx);
    effects(ctx);
    ctx.assume("an empty team makes the match unrated before weights are looked at; NaN weights are outside the domain");
}
fn expect_err(t: &[Team], ws: &[Vec<f64>]) -> Option<WeightError> {
    if t.len() != ws.len() {
        return Some(WeightError::TeamAmount);
    }
    for (i, (a, b)) in t.iter().zip(ws).enumerate() {
        if a.len() != b.len() {
            return Some(WeightError::PlayerAmount { team: i });
        }
        for (j, x) in b.iter().enumerate() {
            if *x < 0.0 {
                return Some(WeightError::Weight { team: i, player: j });
            }
        }
    }
    None
}
fn errors(ctx: &Ctx) {
    let cfg = TrueSkillConfig::new();
    let vals = [1.0, -1.0, 0.5, -1e-300];
    // weight vectors of length 0..=3
    let mut rows: Vec<Vec<f64>> = vec![];
    for n in 0..=3 {
        for s in seqs(if n == 3 { 2 } else { 4 }, n) {
            rows.push(s.iter().map(|&i| vals[i]).collect());
        }
    }
    let mut items: Vec<(Vec<Team>, Vec<Vec<f64>>)> = vec![];
    for n in 1..=3usize {
        for s in sizes(n, 2) {
            let t = fill(&s, 3);
            for m in 0..=3usize {
                let k = if m == 3 { ctx.lvl(13, rows.len()) } else { rows.len() };
                for r in seqs(k, m) {
                    items.push((t.clone(), r.iter().map(|&i| rows[i].clone()).collect()));
                }
            }
        }
    }
    // bigger teams: one defect at every position
    for (n, m) in [(2usize, 5usize), (5, 3), (8, 2), (3, 9), (4, 1), (2, 40), (3, 17), (20, 3), (40, 1)] {
        let t = fill(&vec![m; n], 1);
        for i in 0..n {
            for j in 0..m {
                for v in [-0.1, -1.0, -f64::MIN_POSITIVE, f64::NEG_INFINITY, -0.0, 0.0, 0.3] {
                    let mut ws = vec![vec![1.0; m]; n];
                    ws[i][j] = v;
                    items.push((t.clone(), ws.clone()));
                    ws[n - 1][m - 1] = -2.0;
                    items.push((t.clone(), ws.clone()));
                    ws[n - 1].push(1.0);
                    items.push((t.clone(), ws));
                }
            }
            for len in [0usize, m - 1, m + 1, 2 * m] {
                let mut ws = vec![vec![1.0; m]; n];
                ws[i] = vec![1.0; len];
                items.push((t.clone(), ws.clone()));
                ws[0] = vec![-1.0; ws[0].len()];
                items.push((t.clone(), ws));
            }
        }
        for k in [0usize, 1, n - 1, n + 1, 2 * n] {
            items.push((t.clone(), vec![vec![1.0; m]; k]));
            items.push((t.clone(), vec![vec![-1.0; m]; k]));
            items.push((t.clone(), vec![vec![1.0; m + 1]; k]));
        }
    }
    ctx.sweep("weight errors", &items, |w, (t, ws)| {
        let case = || format!("{t:?} weights {ws:?}");
        let e = expect_err(t, ws);
        let ranks: Vec<Vec<usize>> = vec![(1..=t.len()).collect(), (1..=t.len()).rev().collect(), vec![1; t.len()]];
        for r in &ranks {
            w.at(case);
            let g = TsT::multi_w(t, r, &cfg, Some(ws));
            w.t(1);
            w.trace_done();
            w.state(1, &[ws.len() as f64, ws.iter().flatten().sum::<f64>(), e.map_or(0.0, |e| match e { WeightError::TeamAmount => 1.0, WeightError::PlayerAmount { team } => 10.0 + team as f64, WeightError::Weight { team, player } => 100.0 + 10.0 * team as f64 + player as f64 })]);
            w.ok(g.as_ref().err() == e.as_ref(), "weights are not rejected as documented by trueskill_multi_team", || format!("{} ranks {r:?}: {g:?}, expected {e:?}", case()));
        }
        if t.len() >= 2 && (e.is_some() || t.len() <= 5) {
            w.at(|| format!("quality {}", case()));
            let g = TsT::quality_m(t, &cfg, Some(ws));
            w.t(1);
            w.ok(g.as_ref().err() == e.as_ref(), "weights are not rejected as documented by match_quality_multi_team", || format!("{}: {g:?}, expected {e:?}", case()));
        }
        w.sample(case);
    });
}
pub fn weight_sets(sizes: &[usize], k: usize) -> Vec<Vec<f64>> {
    const V: [f64; 13] = [1.0, 0.5, 0.0, 0.25, 0.9, 0.03, 1.5, 2.5, 1.01, 4.0, 0.001, 0.012, 0.99];
    let mut c = k;
    sizes.iter().map(|&s| (0..s).map(|_| { c = (c * 5 + 3) % 1_000_003; V[(c / 7 + k) % 13] }).collect()).collect()
}
const TA_W: [f64; 5] = [1.0, 0.5, 1.3, 0.07, 1.0];
pub fn weighted_items(ctx: &Ctx) -> Vec<(Vec<Team>, Vec<Vec<f64>>)> {
    let mut items = vec![];
    // complete weight matrices over {1, 0.5, 0, 0.03, 2.5} for small shapes
    const V: [f64; 5] = [1.0, 0.5, 0.0, 0.03, 2.5];
    for s in [vec![1, 1], vec![2, 1], vec![2, 2], vec![1, 1, 1], vec![2, 1, 1], vec![1, 2, 2], vec![3, 2], vec![2, 2, 2]] {
        let tot: usize = s.iter().sum();
        for q in seqs(5, tot) {
            if tot >= 5 && !ctx.thorough && q.iter().filter(|x| **x != 0).count() > 3 {
                continue;
            }
            let mut it = q.iter().map(|&i| V[i]);
            let ws: Vec<Vec<f64>> = s.iter().map(|&n| (0..n).map(|_| it.next().unwrap()).collect()).collect();
            for k in 0..ctx.lvl(2, 5) {
                items.push((fill(&s, k), ws.clone()));
            }
        }
    }
    // one player's weight on a line
    for i in 1..=ctx.lvl(300usize, 1200) {
        let x = i as f64 * ctx.lvl(0.01, 0.0025);
        let y = TA_W[i % 5];
        items.push((fill(&[2, 1], i), vec![vec![x, y], vec![1.0]]));
        items.push((fill(&[1, 2, 2], i), vec![vec![1.0], vec![y, x], vec![TA_W[(i + 2) % 5], 1.0]]));
    }
    for t in layouts(ctx, 4).into_iter().chain(lobbies(ctx).into_iter().filter(|t| t.len() <= 16)) {
        let sz: Vec<usize> = t.iter().map(|x| x.len()).collect();
        for k in 0..2 {
            items.push((t.clone(), weight_sets(&sz, k * 3 + 1)));
        }
        items.push((t, sz.iter().map(|&n| vec![1.0; n]).collect()));
    }
    items
}
fn effects(ctx: &Ctx) {
    let items = weighted_items(ctx);
    let cfgs = TsT::cfgs(1);
    ctx.sweep("weight effects", &items, |w, (t, ws)| {
        let n = t.len();
        let dead = ws.iter().any(|x| x.iter().all(|v| *v == 0.0));
        let ones = ws.iter().flatten().all(|v| *v == 1.0);
        let ranks = if n <= 3 { weak_orders(n) } else { some_ranks(n).into_iter().take(4).collect() };
        for c in &TsT::at(t, &cfgs) {
            let tau2 = c.dynamics_factor * c.dynamics_factor;
            for r in &ranks {
                let case = || format!("{t:?} ranks {r:?} weights {ws:?} {c:?}");
                w.at(case);
                let x = match TsT::multi_w(t, r, c, Some(ws)) {
                    Ok(x) => x,
                    Err(e) => {
                        w.fail("valid weights are rejected", || format!("{}: {e:?}", case()));
                        continue;
                    }
                };
                w.t(1);
                w.trace_done();
                w.state(2, &flat(&x));
                if !w.ok(shape(t, &x), "wrong shape", case) {
                    continue;
                }
                if dead {
                    w.ok(&x == t, "a match in which a whole team has not played changes ratings", || format!("{}: {x:?}", case()));
                    continue;
                }
                if ones {
                    let y = TsT::multi(t, r, c);
                    w.t(1);
                    w.ok(eqt(&x, &y, 1e-9), "omitting the weights differs from weights of 1.0", || format!("{}: {x:?} vs {y:?}", case()));
                }
                for i in 0..n {
                    // change per weight and variance is the same within the team
                    let v = |k: usize| t[i][k].1 * t[i][k].1 + tau2;
                    let per: Vec<(f64, f64, f64)> = (0..t[i].len())
                        .filter(|&k| ws[i][k] > 0.0)
                        .map(|k| {
                            let g = ws[i][k] * v(k);
                            ((x[i][k].0 - t[i][k].0) / g, (v(k) - x[i][k].1.powi(2)) / (g * g), g)
                        })
                        .collect();
                    for p in per.iter().skip(1) {
                        w.ok((p.0 - per[0].0).abs() <= 1e-6 * per[0].0.abs() + 1e-9 / p.2 + 1e-9 / per[0].2, "rating changes are not proportional to weight times squared uncertainty", || format!("{} team {i}: {x:?}", case()));
                        w.ok((p.1 - per[0].1).abs() <= 1e-6 * per[0].1.abs() + 1e-9 / (p.2 * p.2) + 1e-9 / (per[0].2 * per[0].2), "uncertainty changes do not follow the weights", || format!("{} team {i}: {x:?}", case()));
                    }
                    for k in 0..t[i].len() {
                        if ws[i][k] == 0.0 {
                            w.ok(x[i][k].0 == t[i][k].0 || near(x[i][k].0, t[i][k].0, 1e-12), "a player with weight 0.0 changes rating", || format!("{} team {i} player {k}: {x:?}", case()));
                            let mut t2 = t.clone();
                            t2[i][k] = (t[i][k].0 + 17.0, 0.5 * t[i][k].1 + 1.0);
                            let y = TsT::multi_w(&t2, r, c, Some(ws));
                            w.t(1);
                            let good = y.as_ref().is_ok_and(|y| {
                                shape(y, t) && (0..n).all(|a| (0..t[a].len()).all(|b| (a, b) == (i, k) || (near(y[a][b].0, x[a][b].0, 1e-9) && near(y[a][b].1, x[a][b].1, 1e-9))))
                            });
                            w.ok(good, "the skill of a player with weight 0.0 influences others", || format!("{} team {i} player {k}: {x:?} vs {y:?}", case()));
                        }
                    }
                    // players with their weights permuted
                    if t[i].len() > 1 {
                        for p in some_perms(t[i].len(), 2) {
                            let (mut t2, mut w2, mut x2) = (t.clone(), ws.clone(), x.clone());
                            t2[i] = permuted(&t[i], &p);
                            w2[i] = permuted(&ws[i], &p);
                            x2[i] = permuted(&x[i], &p);
                            let y = TsT::multi_w(&t2, r, c, Some(&w2));
                            w.t(1);
                            w.ok(y.as_ref().is_ok_and(|y| eqt(y, &x2, 1e-7)), "permuting players with their weights does not permute the results", || format!("{} team {i} {p:?}: {x:?} vs {y:?}", case()));
                        }
                    }
                }
                for p in some_perms(n, 3) {
                    if !(0..n).all(|i| (0..i).all(|j| r[p[i]] != r[p[j]] || p[j] < p[i])) {
                        continue;
                    }
                    let y = TsT::multi_w(&permuted(t, &p), &permuted(r, &p), c, Some(&permuted(ws, &p)));
                    w.t(1);
                    w.ok(y.as_ref().is_ok_and(|y| eqt(y, &permuted(&x, &p), 1e-9)), "permuting teams with their weights does not permute the results", || format!("{} {p:?}: {x:?} vs {y:?}", case()));
                }
                w.sample(|| format!("{} -> {x:?}", case()));
            }
            // match quality with weights
            if n <= 6 {
                let case = || format!("quality {t:?} weights {ws:?} {c:?}");
                w.at(case);
                let Ok(q) = TsT::quality_m(t, c, Some(ws)) else {
                    w.fail("valid weights are rejected", case);
                    continue;
                };
                w.t(1);
                w.trace_done();
                if dead {
                    w.ok(q == 0.0, "a team in which nobody has played has a match quality", || format!("{}: {q}", case()));
                    continue;
                }
                if ones {
                    let q2 = TsT::quality_m(t, c, None);
                    w.ok(q2.as_ref().is_ok_and(|q2| near(*q2, q, 1e-9)), "omitting the weights differs from weights of 1.0", || format!("{}: {q} vs {q2:?}", case()));
                }
                let e = refm::ts_quality(&t.iter().zip(ws).map(|(a, b)| a.iter().zip(b).map(|(p, w)| (p.0, p.1, *w)).collect()).collect::<Vec<_>>(), c.beta);
                w.close(q, e, 1e-7, "weighted match quality does not follow the formula", case);
                for p in some_perms(n, 3) {
                    let y = TsT::quality_m(&permuted(t, &p), c, Some(&permuted(ws, &p)));
                    w.t(1);
                    w.ok(y.as_ref().is_ok_and(|y| near(*y, q, 1e-7)), "permuting teams with their weights changes the match quality", || format!("{} {p:?}: {q} vs {y:?}", case()));
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C18
pub fn c18(ctx: &Ctx) {
    let cfgs = TsT::cfgs(2);
    let rs: Vec<f64> = steps(-30.0, 80.0, ctx.lvl(2.75, 0.8)).into_iter().chain([25.0]).collect();
    let us: Vec<f64> = ctx.lvl(vec![0.01, 0.1, 0.75, 2.1, 5.0, 25.0 / 3.0, 12.0, 50.0], vec![0.001, 0.01, 0.1, 0.4, 0.75, 1.3, 2.1, 3.3, 5.0, 7.0, 25.0 / 3.0, 10.0, 12.0, 50.0, 300.0]);
    let pl: Vec<P> = rs.iter().flat_map(|&r| us.iter().map(move |&u| (r, u))).collect();
    ctx.sweep("1v1 match quality", &pl, |w, &a| {
        for &b in &pl {
            for c in &cfgs {
                let case = || format!("match_quality {a:?} {b:?} {c:?}");
                w.at(case);
                let q = TsT::quality(a, b, c);
                w.t(1);
                w.trace_done();
                w.state(1, &[q]);
                w.ok((0.0..=1.0).contains(&q), "match quality outside [0, 1]", || format!("{}: {q}", case()));
                let q2 = TsT::quality(b, a, c);
                w.close(q2, q, 1e-12, "match quality is not symmetric", case);
                let top = TsT::quality((b.0, a.1), b, c);
                w.ok(q <= top + 1e-12, "match quality is not highest for equal players", || format!("{}: {q} > {top}", case()));
                if a.0 >= b.0 {
                    for d in [0.01, 0.5, 4.0, 60.0] {
                        let q3 = TsT::quality((a.0 + d, a.1), b, c);
                        w.t(1);
                        w.ok(q3 <= q + 1e-12, "match quality rises as the stronger player gets stronger", || format!("{} +{d}: {q} -> {q3}", case()));
                        w.ok(q3 < q || q < 1e-12 || (a.0 == b.0 && d < 0.1) || d / (a.1 + b.1 + c.beta) < 1e-3, "match quality ignores the rating difference", || format!("{} +{d}: {q} -> {q3}", case()));
                    }
                }
                if a.0 == b.0 {
                    for f in [1.1, 2.0, 10.0] {
                        let q3 = TsT::quality((a.0, a.1 * f), b, c);
                        w.t(1);
                        w.ok(q3 <= q + 1e-12, "match quality of equal players rises with uncertainty", || format!("{} x{f}: {q} -> {q3}", case()));
                    }
                    let v = 2.0 * c.beta * c.beta;
                    w.close(q, (v / (v + a.1 * a.1 + b.1 * b.1)).sqrt(), 1e-9, "match quality of equal players does not follow the uncertainty", case);
                }
                w.sample(|| format!("{}: {q}", case()));
            }
        }
    });
    // rating-period form
    let opp: Vec<P> = pl.iter().step_by(ctx.lvl(37, 23)).copied().collect();
    let mut lists: Vec<Vec<P>> = vec![vec![]];
    for n in 1..=3 {
        lists.extend(seqs(5.min(opp.len()), n).into_iter().map(|s| s.iter().map(|&i| opp[i * 2 % opp.len()]).collect()));
    }
    for n in (4..70).chain([100, 128, 255, 256, 257]) {
        lists.push((0..n).map(|i| opp[(i * 3 + n) % opp.len()]).collect());
    }
    ctx.sweep("match quality of a rating period", &lists, |w, l| {
        for a in opp.iter() {
            for c in &cfgs {
                let case = || format!("match_quality_rating_period {a:?} {l:?} {c:?}");
                w.at(case);
                let o = s(l);
                let q = skillratings::trueskill::match_quality_rating_period(&s(&[*a])[0], &o, c);
                w.t(1 + l.len() as u64);
                w.trace_done();
                let e: Vec<f64> = l.iter().map(|b| TsT::quality(*a, *b, c)).collect();
                w.state(2, &q);
                w.close_all(&q, &e, 1e-12, "the rating-period form differs from the head-to-head qualities", case);
            }
        }
    });
    // big lobbies, also on the scale of Elo ratings (the qualities are tiny, so they are compared relatively)
    let mut lay = lobbies(ctx);
    lay.extend(big_lobbies(ctx));
    ctx.sweep("match quality of lobbies", &lay, |w, t| {
        let n = t.len();
        for c in &cfgs {
            for f in [1.0, 60.0, 0.01] {
                if n > 40 && (f != 1.0) != (c.beta != cfgs[0].beta) {
                    continue;
                }
                let c = skillratings::trueskill::TrueSkillConfig { beta: c.beta * f, ..*c };
                let t: Vec<Team> = t.iter().map(|x| x.iter().map(|p| (p.0 * f, p.1 * f)).collect()).collect();
                let e = refm::ts_quality(&t.iter().map(|a| a.iter().map(|p| (p.0, p.1, 1.0)).collect()).collect::<Vec<_>>(), c.beta);
                let same = |q: f64| (q - e).abs() <= 1e-6 * e + 1e-280;
                let mut forms = vec![t.clone()];
                if n <= 40 {
                    forms.push(t.iter().rev().cloned().collect());
                    forms.push((0..n).map(|i| t[(i + n / 2) % n].iter().rev().copied().collect()).collect());
                }
                for (k, x) in forms.iter().enumerate() {
                    let case = || format!("match quality of {n} teams (form {k}) {:?} ... {c:?}", &x[..2]);
                    w.at(case);
                    let q = TsT::quality_m(x, &c, None);
                    w.t(1);
                    w.trace_done();
                    w.state(5, &[q.clone().unwrap_or(-1.0)]);
                    w.ok(q.as_ref().is_ok_and(|q| (0.0..=1.0 + 1e-9).contains(q) && same(*q)), "match quality of a lobby does not follow the published formula or depends on the order", || format!("{}: {q:?}, expected {e}", case()));
                }
            }
        }
    });
    // teams
    let mut lay = layouts(ctx, ctx.lvl(4, 5));
    lay.extend(lobbies(ctx).into_iter().filter(|t| t.len() <= 7));
    ctx.sweep("team match quality", &lay, |w, t| {
        let n = t.len();
        for c in &TsT::at(t, &cfgs) {
            let case = || format!("match quality {t:?} {c:?}");
            w.at(case);
            let m = TsT::quality_m(t, c, None);
            w.t(1);
            w.trace_done();
            let Ok(q) = m else {
                w.fail("match quality without weights fails", case);
                continue;
            };
            w.state(3, &[q]);
            w.ok((0.0..=1.0 + 1e-9).contains(&q), "match quality outside [0, 1]", || format!("{}: {q}", case()));
            let e = refm::ts_quality(&t.iter().map(|a| a.iter().map(|p| (p.0, p.1, 1.0)).collect()).collect::<Vec<_>>(), c.beta);
            w.close(q, e, 1e-8, "match quality does not follow the published formula", case);
            for p in some_perms(n, 4) {
                let y = TsT::quality_m(&permuted(t, &p), c, None);
                w.t(1);
                w.ok(y.as_ref().is_ok_and(|y| near(*y, q, 1e-8)), "permuting the teams changes the match quality", || format!("{} {p:?}: {q} {y:?}", case()));
            }
            let sum = |x: &Team| x.iter().map(|p| p.0).sum::<f64>();
            let best = (0..n).max_by(|&i, &j| sum(&t[i]).total_cmp(&sum(&t[j]))).unwrap();
            for i in 0..n {
                for p in some_perms(t[i].len(), 3).into_iter().take(6) {
                    let mut t2 = t.clone();
                    t2[i] = permuted(&t[i], &p);
                    let y = TsT::quality_m(&t2, c, None);
                    w.t(1);
                    w.ok(y.as_ref().is_ok_and(|y| near(*y, q, 1e-8)), "permuting players changes the match quality", || format!("{} team {i} {p:?}: {q} {y:?}", case()));
                }
            }
            for d in [0.5, 5.0, 40.0] {
                for k in 0..t[best].len().min(3) {
                    let mut t2 = t.clone();
                    t2[best][k].0 += d;
                    let y = TsT::quality_m(&t2, c, None);
                    w.t(1);
                    w.ok(y.as_ref().is_ok_and(|y| *y <= q + 1e-9), "match quality rises as the strongest team gets stronger", || format!("{} player {k} of team {best} +{d}: {q} {y:?}", case()));
                }
            }
            // the same teams, all equally strong
            let mut lev = t.clone();
            let top = sum(&t[best]);
            for x in lev.iter_mut() {
                let miss = (top - sum(x)) / x.len() as f64;
                x.iter_mut().for_each(|p| p.0 += miss);
            }
            let y = TsT::quality_m(&lev, c, None);
            w.t(1);
            w.ok(y.as_ref().is_ok_and(|y| *y >= q - 1e-9), "match quality is not highest for equally strong teams", || format!("{}: {q} {y:?}", case()));
            if n == 2 {
                let q2 = TsT::quality2(&t[0], &t[1], c);
                let q3 = TsT::quality2(&t[1], &t[0], c);
                w.t(2);
                w.ok((0.0..=1.0).contains(&q2), "match quality outside [0, 1]", || format!("{}: {q2}", case()));
                w.close(q2, e, 1e-9, "two-team match quality does not follow the published formula", case);
                w.close(q3, q2, 1e-12, "two-team match quality is not symmetric", case);
            }
        }
    });
}
