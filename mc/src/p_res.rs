//! C03 (monotonicity in results), C04 (role symmetry), C05 (periods vs matches), C06 (order independence).
use crate::core::*;
use crate::for_all;
use crate::gen::*;
use crate::sys::*;
use crate::teams::*;
use skillratings::Outcomes::{self, *};

pub fn show<T: std::fmt::Debug>(l: &[T]) -> String {
    let s = format!("{l:?}");
    if s.len() > 1200 { format!("{} ... ({} entries)", s.chars().take(1200).collect::<String>(), l.len()) } else { s }
}

/// All numeric fields equal up to rounding (Glicko-2 volatility: up to the convergence tolerance).
pub fn same<S: Sys>(g: &N4, e: &N4, tol: f64) -> bool {
    if S::NAME == "glicko2" {
        // the iteration may stop anywhere within the convergence tolerance: relative to the Glicko-2 scale of 174 points
        let n = |a: f64, b: f64, t: f64, scale: f64| a == b || (a - b).abs() <= t * b.abs().max(scale);
        let t = tol.max(1e-6);
        return n(g[0], e[0], t, 174.0) && n(g[1], e[1], t, 174.0) && n(g[2], e[2], 5e-6, 0.01) && g[3] == e[3];
    }
    let vt = tol;
    near(g[0], e[0], tol) && near(g[1], e[1], tol) && near(g[2], e[2], vt) && g[3] == e[3]
}

pub fn c03(ctx: &Ctx) {
    for_all!(c03_sys, ctx);
    c03_teams::<WlT>(ctx);
    c03_teams::<TsT>(ctx);
}

fn gains<S: Sys>(a: &S::R, b: &S::R, x: &S::X) -> bool {
    match S::NAME {
        "elo" | "glicko" | "glicko2" | "glicko_boost" | "dwz" | "weng_lin" | "trueskill" => true,
        "uscf" => S::num(a)[3] > 8.0 && S::num(b)[3] > 8.0,
        "fifa" => !S::shootout(*x),
        _ => false,
    }
}
fn draws<S: Sys>(x: &S::X) -> bool {
    match S::NAME {
        "elo" | "glicko" | "glicko2" | "weng_lin" | "trueskill" => true,
        "fifa" => !S::shootout(*x),
        _ => false,
    }
}

fn c03_sys<S: Sys>(ctx: &Ctx) {
    let geq = |x: f64, y: f64| x >= y - 1e-9 * y.abs().max(1.0);
    pairs::<S>(ctx, "matches", |w, a, b, cfgs, xs| {
        for c in cfgs {
            for &x in xs {
                if !S::dom(a, b, x) {
                    continue;
                }
                let case = || format!("{}({a:?}, {b:?}, {x:?}, {c:?})", S::NAME);
                w.at(case);
                let draw = S::outs(c).len() == 3;
                let [rw, rd, rl] = OUT.map(|o| S::rate(a, b, if draw || o != DRAW { o } else { WIN }, x, c));
                w.t(3);
                w.trace_done();
                let g = |r: &(S::R, S::R)| (S::good(&r.0), S::good(&r.1));
                let ((w0, w1), (d0, d1), (l0, l1)) = (g(&rw), g(&rd), g(&rl));
                w.ok(geq(w0, d0) && geq(d0, l0), "first player: win >= draw >= loss fails", || format!("{}: {rw:?} {rd:?} {rl:?}", case()));
                w.ok(geq(l1, d1) && geq(d1, w1), "second player: win >= draw >= loss fails", || format!("{}: {rw:?} {rd:?} {rl:?}", case()));
                let (a0, b0) = (S::good(a), S::good(b));
                if gains::<S>(a, b, &x) {
                    w.ok(geq(w0, a0) && geq(a0, l0), "a win lowers or a loss raises the first player", || format!("{}: {rw:?} {rl:?}", case()));
                    w.ok(geq(l1, b0) && geq(b0, w1), "a win lowers or a loss raises the second player", || format!("{}: {rw:?} {rl:?}", case()));
                }
                if draw && draws::<S>(&x) {
                    if a0 <= b0 {
                        w.ok(geq(d0, a0) && geq(b0, d1), "a draw moves the lower-rated player down or the higher-rated up", || format!("{}: {rd:?}", case()));
                    }
                    if b0 <= a0 {
                        w.ok(geq(d1, b0) && geq(a0, d0), "a draw moves the lower-rated player down or the higher-rated up", || format!("{}: {rd:?}", case()));
                    }
                }
                w.state(1, &[w0, d0, l0, w1, d1, l1]);
                w.sample(|| format!("{}: {rw:?} {rd:?} {rl:?}", case()));
            }
        }
    });
    periods::<S>(ctx, "periods", &[], |w, a, l, short, cs| {
        let n = l.len();
        // Weng-Lin and TrueSkill rate one match after the other: an earlier result also changes how certain the later matches find the player.
        let pos: Vec<usize> = if S::SEQ && S::UNC {
            vec![n - 1]
        } else if short || n <= 3 {
            (0..n).collect()
        } else {
            vec![0, n / 3, n / 2, n - 1]
        };
        {
            for c in cs {
                w.at(|| format!("{} period {a:?} {} {c:?}", S::NAME, show(l)));
                let base = S::period(a, l, c);
                w.t(1);
                w.state(2, &S::num(&base));
                // beyond k = 695 an Elo match turns a lead into a deficit: then only the last result is compared
                let over = (c as &dyn std::any::Any).downcast_ref::<skillratings::elo::EloConfig>().is_some_and(|c| c.k > 690.0);
                for &i in &pos {
                    if over && i + 1 < n {
                        continue;
                    }
                    let better: &[Outcomes] = match l[i].1 { WIN => &[], DRAW => &[WIN], LOSS => &[DRAW, WIN] };
                    for &o in better {
                        let mut m = l.clone();
                        m[i].1 = o;
                        if S::NAME == "glicko_boost" && S::boosted(a, l, c) != S::boosted(a, &m, c) {
                            continue;
                        }
                        let r = S::period(a, &m, c);
                        w.t(1);
                        w.trace_done();
                        w.ok(geq(S::good(&r), S::good(&base)), "improving one result of a rating period gives a worse rating", || {
                            format!("{} {a:?} {c:?} results {} -> {base:?}; result {i} improved to {o:?} -> {r:?}", S::NAME, show(l))
                        });
                    }
                }
            }
        }
    });
}

fn c03_teams<T: TeamSys>(ctx: &Ctx) {
    let cfgs = T::cfgs(2);
    let geq = |x: f64, y: f64| x >= y - 1e-9 * y.abs().max(1.0);
    let lay = layouts(ctx, ctx.lvl(4, 5));
    let mut two: Vec<Vec<Team>> = lay.iter().filter(|t| t.len() == 2).cloned().collect();
    two.extend(lobbies(ctx).into_iter().filter(|t| t.len() == 2));
    for a in S2::pairs() {
        two.push(a);
    }
    ctx.sweep(&format!("{} two teams", T::NAME), &two, |w, t| {
        for c in &T::at(t, &cfgs) {
            let case = || format!("{} two teams {t:?} {c:?}", T::NAME);
            w.at(case);
            let [rw, rd, rl] = OUT.map(|o| T::two(&t[0], &t[1], o, c));
            w.t(3);
            w.trace_done();
            for i in 0..t[0].len() {
                w.ok(geq(rw.0[i].0, rd.0[i].0) && geq(rd.0[i].0, rl.0[i].0), "first team: win >= draw >= loss fails", || format!("{}: {rw:?} {rd:?} {rl:?}", case()));
            }
            for i in 0..t[1].len() {
                w.ok(geq(rl.1[i].0, rd.1[i].0) && geq(rd.1[i].0, rw.1[i].0), "second team: win >= draw >= loss fails", || format!("{}: {rw:?} {rd:?} {rl:?}", case()));
            }
            w.state(3, &flat(&[rd.0.clone(), rd.1.clone()]));
        }
    });
    ctx.sweep(&format!("{} many teams", T::NAME), &lay, |w, t| {
        let n = t.len();
        for c in &T::at(t, &T::cfgs(1)) {
            for r in weak_orders(n) {
                let case = || format!("{} teams {t:?} ranks {r:?} {c:?}", T::NAME);
                w.at(case);
                let base = T::multi(t, &r, c);
                w.t(1);
                w.state(4, &flat(&base));
                for i in 0..n {
                    for j in 0..n {
                        // j is ranked directly above i
                        if r[j] + 1 != r[i] {
                            continue;
                        }
                        let mut s = r.clone();
                        s.swap(i, j);
                        let new = T::multi(t, &s, c);
                        w.t(1);
                        w.trace_done();
                        for k in 0..t[i].len() {
                            w.ok(new[i][k].0 >= base[i][k].0 - 1e-6 * base[i][k].0.abs().max(1.0), "a team that trades places with the one above it gets a worse rating", || {
                                format!("{} -> {base:?}; team {i} trades with {j} -> {new:?}", case())
                            });
                        }
                    }
                }
            }
        }
    });
}
struct S2;
impl S2 {
    /// Dense two-player grid for the two-team forms.
    fn pairs() -> Vec<Vec<Team>> {
        let p = Wl::players(2);
        let mut v = vec![];
        for a in &p {
            for b in &p {
                v.push(vec![vec![(a.rating, a.uncertainty)], vec![(b.rating, b.uncertainty)]]);
            }
        }
        v
    }
}

pub fn c04(ctx: &Ctx) {
    for_all!(c04_sys, ctx);
    c04_teams::<WlT>(ctx);
    c04_teams::<TsT>(ctx);
}
fn c04_sys<S: Sys>(ctx: &Ctx) {
    // colour-aware systems: the advantage belongs to the first player (`true`)
    pairs_with::<S>(ctx, "matches", |x| S::first_side(*x), |w, a, b, cfgs, xs| {
        for c in cfgs {
            for &x in xs {
                if !S::dom(a, b, x) {
                    continue;
                }
                let (mx, mc) = S::mirror(x, c);
                for &o in S::outs(c) {
                    let case = || format!("{}({a:?}, {b:?}, {o:?}, {x:?}, {c:?})", S::NAME);
                    w.at(case);
                    let (r, s) = S::rate(a, b, o, x, c);
                    let (s2, r2) = S::rate(b, a, inv(o), mx, &mc);
                    w.t(2);
                    w.trace_done();
                    w.state(1, &[S::num(&r)[0], S::num(&s)[0], S::num(&r)[1], S::num(&s)[1]]);
                    w.ok(same::<S>(&S::num(&r), &S::num(&r2), 1e-8) && same::<S>(&S::num(&s), &S::num(&s2), 1e-8), "the match is rated differently from the other perspective", || {
                        format!("{} = {r:?}, {s:?}; with roles swapped: {r2:?}, {s2:?}", case())
                    });
                    w.sample(|| format!("{} = {r:?}, {s:?}", case()));
                }
            }
        }
    });
}
fn c04_teams<T: TeamSys>(ctx: &Ctx) {
    let cfgs = T::cfgs(2);
    let mut two: Vec<Vec<Team>> = layouts(ctx, 2).into_iter().filter(|t| t.len() == 2).collect();
    two.extend(lobbies(ctx).into_iter().filter(|t| t.len() == 2));
    two.extend(S2::pairs());
    for t in TA {
        two.push(vec![vec![t], vec![]]);
    }
    ctx.sweep(&format!("{} two teams", T::NAME), &two, |w, t| {
        for c in &T::at(t, &cfgs) {
            for o in OUT {
                let case = || format!("{} two teams {t:?} {o:?} {c:?}", T::NAME);
                w.at(case);
                let (r, s) = T::two(&t[0], &t[1], o, c);
                let (s2, r2) = T::two(&t[1], &t[0], inv(o), c);
                w.t(2);
                w.trace_done();
                let (x, y) = (flat(&[r, s]), flat(&[r2, s2]));
                w.state(2, &x);
                w.close_all(&y, &x, 1e-8, "the team match is rated differently from the other perspective", case);
            }
        }
    });
    let c1 = T::cfgs(1);
    let mut lay = layouts(ctx, 4);
    lay.extend(lobbies(ctx));
    ctx.sweep(&format!("{} many teams reversed", T::NAME), &lay, |w, t| {
        let n = t.len();
        for c in &T::at(t, &c1) {
            for r in some_ranks(n) {
                let mut d = r.clone();
                d.sort_unstable();
                d.dedup();
                if T::NAME == "trueskill" && d.len() < n && n > 2 {
                    continue; // tied TrueSkill teams form a chain in list order
                }
                let case = || format!("{} many teams {t:?} {r:?} {c:?}", T::NAME);
                w.at(case);
                let x = T::multi(t, &r, c);
                let (mut t2, mut r2) = (t.clone(), r.clone());
                t2.reverse();
                r2.reverse();
                let mut y = T::multi(&t2, &r2, c);
                y.reverse();
                w.t(2);
                w.trace_done();
                w.state(3, &flat(&x));
                w.close_all(&flat(&y), &flat(&x), 1e-8, "the many-team match is rated differently in reverse order", case);
            }
        }
    });
}

pub fn c05(ctx: &Ctx) {
    for_all!(c05_sys, ctx);
}
fn c05_sys<S: Sys>(ctx: &Ctx) {
    pairs::<S>(ctx, "single result", |w, a, b, cfgs, xs| {
        for c in cfgs {
            for &x in xs {
                if !S::dom(a, b, x) {
                    continue;
                }
                for o in OUT {
                    let case = || format!("{} {a:?} {o:?} against {b:?}, {x:?}, {c:?}", S::NAME);
                    w.at(case);
                    let m = S::rate(a, b, o, x, c).0;
                    let p = S::period(a, &[(*b, o, x)], c);
                    w.t(2);
                    w.trace_done();
                    w.state(1, &S::num(&p));
                    w.ok(same::<S>(&S::num(&p), &S::num(&m), 1e-9), "a period of one result differs from the match", || format!("{}: period {p:?}, match {m:?}", case()));
                    w.sample(|| format!("{}: {p:?}", case()));
                }
            }
        }
    });
    if !S::SEQ {
        return;
    }
    periods::<S>(ctx, "match after match", &[], |w, a, l, short, cs| {
        let n = l.len();
        {
            for c in cs {
                let case = || format!("{} {a:?} results {} {c:?}", S::NAME, show(l));
                w.at(case);
                let p = S::period(a, l, c);
                let mut cur = *a;
                for (b, o, x) in l {
                    cur = S::rate(&cur, b, *o, *x, c).0;
                    w.state(2, &S::num(&cur));
                }
                w.t(1 + n as u64);
                w.trace_done();
                w.ok(same::<S>(&S::num(&p), &S::num(&cur), 1e-9), "a rating period differs from playing the matches one after the other", || format!("{}: period {p:?}, matches {cur:?}", case()));
                let cuts: Vec<usize> = if short { (0..=n).collect() } else { vec![0, 1, n / 2, n - 1, n] };
                for i in cuts {
                    let q = S::period(&S::period(a, &l[..i], c), &l[i..], c);
                    w.t(2);
                    w.ok(same::<S>(&S::num(&q), &S::num(&p), 1e-9), "splitting a rating period changes the rating", || format!("{} split at {i}: {q:?}, unsplit {p:?}", case()));
                }
            }
        }
    });
}

pub fn c06(ctx: &Ctx) {
    for_all!(c06_sys, ctx);
}
fn c06_sys<S: Sys>(ctx: &Ctx) {
    if S::SEQ {
        return;
    }
    let tol = 1e-9;
    let pl = list_players::<S>(ctx);
    let c1 = S::cfgs(1);
    // multisets of results: non-decreasing index sequences
    let mut sets: Vec<L<S>> = vec![];
    let add = |sym: L<S>, len: usize, sets: &mut Vec<L<S>>| {
        for s in seqs(sym.len(), len) {
            if s.windows(2).all(|x| x[0] <= x[1]) {
                sets.push(s.iter().map(|&i| sym[i]).collect());
            }
        }
    };
    add(symbols::<S>(7, 3), 2, &mut sets);
    add(symbols::<S>(5, 2), 3, &mut sets);
    add(symbols::<S>(ctx.lvl(3, 4), ctx.lvl(1, 2)), 4, &mut sets);
    add(symbols::<S>(2, 1), 5, &mut sets);
    if ctx.thorough {
        add(symbols::<S>(3, 1), 5, &mut sets);
        add(symbols::<S>(2, 1), 6, &mut sets);
    }
    let pm: Vec<Vec<Vec<usize>>> = (0..=6).map(perms).collect();
    ctx.sweep(&format!("{} all orders", S::NAME), &sets, |w, l| {
        let n = l.len();
        for a in &pl {
            if !list_ok::<S>(a, l) {
                continue;
            }
            for c in &c1 {
                let mut base = None;
                for p in &pm[n] {
                    let m: L<S> = p.iter().map(|&i| l[i]).collect();
                    w.at(|| format!("{} {a:?} {c:?} {}", S::NAME, show(&m)));
                    let r = S::num(&S::period(a, &m, c));
                    w.t(1);
                    match &base {
                        None => {
                            w.state(1, &r);
                            base = Some(r);
                        }
                        Some(b) => {
                            w.ok(same::<S>(&r, b, tol), "the order of results changes the rating", || format!("{} {a:?} {c:?}: {} -> {b:?}, but {} -> {r:?}", S::NAME, show(l), show(&m)));
                        }
                    }
                }
                w.trace_done();
            }
        }
        w.sample(|| format!("{} all orders of {}", S::NAME, show(l)));
    });
    let long = long_lists::<S>(ctx);
    let reorder = |w: &mut W, a: &S::R, l: &L<S>, cs: &[S::C]| {
        let n = l.len();
        {
            for c in cs {
                w.at(|| format!("{} {a:?} {c:?} {}", S::NAME, show(l)));
                let b = S::num(&S::period(a, l, c));
                w.t(1);
                w.state(2, &b);
                let mut var: Vec<(String, L<S>)> = vec![];
                let mut m = l.clone();
                m.reverse();
                var.push(("reversed".into(), m));
                for k in [1, n / 2, n - 1] {
                    let mut m = l.clone();
                    m.rotate_left(k);
                    var.push((format!("rotated by {k}"), m));
                }
                for (i, j) in [(0, 1), (n - 2, n - 1), (0, n - 1), (n / 3, n / 2)] {
                    let mut m = l.clone();
                    m.swap(i, j);
                    var.push((format!("{i} and {j} swapped"), m));
                }
                let mut m: L<S> = l.iter().step_by(2).copied().collect();
                m.extend(l.iter().skip(1).step_by(2));
                var.push(("even entries first".into(), m));
                for rank in [[WIN, DRAW, LOSS], [LOSS, WIN, DRAW]] {
                    let mut m = l.clone();
                    m.sort_by_key(|e| rank.iter().position(|o| *o == e.1));
                    var.push((format!("sorted by {rank:?}"), m));
                }
                let mut m = l.clone();
                m.sort_by(|x, y| S::num(&x.0)[0].partial_cmp(&S::num(&y.0)[0]).unwrap());
                var.push(("sorted by rating".into(), m));
                for (name, m) in var {
                    let r = S::num(&S::period(a, &m, c));
                    w.t(1);
                    w.trace_done();
                    w.ok(same::<S>(&r, &b, tol), "the order of results changes the rating", || format!("{} {a:?} {c:?} {} -> {b:?}, {name} -> {r:?}", S::NAME, show(l)));
                }
            }
        }
    };
    ctx.sweep(&format!("{} long lists", S::NAME), &long, |w, l| {
        for a in pl.iter().filter(|a| list_ok::<S>(a, l)) {
            reorder(w, a, l, &c1);
        }
    });
    every_player::<S>(ctx, "orders", |w, a, l, _, cs| reorder(w, a, l, cs));
    every_config::<S>(ctx, "orders", |w, a, l, _, cs| reorder(w, a, l, cs));
}
