//! C09 (finite for ever), C10 (floors and special rules), C11 (conservation): histories of small leagues.
use crate::core::*;
use crate::for_all;
use crate::gen::*;
use crate::p_res::show;
use crate::refm;
use crate::sys::*;
use crate::teams::*;
use skillratings::{dwz::DWZRating, Outcomes, Outcomes::*};

/// One event of a league of three.
#[derive(Clone, Copy, Debug)]
pub enum Ev<X> {
    Match(usize, usize, Outcomes, X),
    /// Player i plays both others in one period.
    Period(usize, Outcomes, Outcomes, X),
    Idle(usize),
}
pub fn events<S: Sys>(nx: usize, full: bool) -> Vec<Ev<S::X>> {
    let mut v = vec![];
    let xs = S::xs(1);
    let k = xs.len();
    for i in 0..nx.min(k) {
        let x = xs[(i * (k / nx.min(k)).max(1)) % k];
        for (p, q) in [(0, 1), (1, 2), (2, 0)] {
            for o in OUT {
                v.push(Ev::Match(p, q, o, x));
            }
        }
        if full {
            for p in 0..3 {
                v.push(Ev::Period(p, WIN, WIN, x));
                v.push(Ev::Period(p, LOSS, DRAW, x));
            }
        }
    }
    if full && S::decay(&S::players(0)[0], &S::cfgs(0)[0]).is_some() {
        v.push(Ev::Idle(0));
        v.push(Ev::Idle(2));
    }
    v
}
pub fn apply<S: Sys>(w: &mut W, l: &[S::R; 3], e: &Ev<S::X>, c: &S::C) -> [S::R; 3] {
    let mut n = *l;
    w.t(1);
    match *e {
        Ev::Match(i, j, o, x) => {
            let (a, b) = S::rate(&l[i], &l[j], o, x, c);
            n[i] = a;
            n[j] = b;
        }
        Ev::Period(i, o, p, x) => {
            n[i] = S::period(&l[i], &[(l[(i + 1) % 3], o, x), (l[(i + 2) % 3], p, x)], c);
        }
        Ev::Idle(i) => n[i] = S::period(&l[i], &[], c),
    }
    n
}
fn legal<S: Sys>(l: &[S::R; 3], e: &Ev<S::X>) -> bool {
    match *e {
        Ev::Match(i, j, _, x) => S::dom(&l[i], &l[j], x),
        Ev::Period(i, _, _, x) => S::dom(&l[i], &l[(i + 1) % 3], x) && S::dom(&l[i], &l[(i + 2) % 3], x),
        Ev::Idle(_) => true,
    }
}
type Mon<'a, S> = dyn Fn(&mut W, &[<S as Sys>::R; 3], &Ev<<S as Sys>::X>, &[<S as Sys>::R; 3], &<S as Sys>::C, &dyn Fn() -> String) + Sync + 'a;

/// All histories of exactly `depth` events (every prefix is monitored), from every start league; plus every
/// pattern of up to `plen` events repeated until `rounds` events have happened.
pub fn league<S: Sys>(ctx: &Ctx, name: &str, starts: &[[S::R; 3]], cfgs: &[S::C], evs: &[Ev<S::X>], depth: usize, plen: usize, rounds: usize, mon: &Mon<S>) {
    let mut items = vec![];
    for (si, _) in starts.iter().enumerate() {
        for (ci, _) in cfgs.iter().enumerate() {
            for e in 0..evs.len() {
                items.push((si, ci, e));
            }
        }
    }
    fn dfs<S: Sys>(w: &mut W, l: &[S::R; 3], path: &mut Vec<usize>, evs: &[Ev<S::X>], c: &S::C, depth: usize, start: &[S::R; 3], mon: &Mon<S>) {
        if depth == 0 {
            w.trace_done();
            return;
        }
        for k in 0..evs.len() {
            step::<S>(w, l, path, k, evs, c, depth, start, mon);
        }
    }
    fn step<S: Sys>(w: &mut W, l: &[S::R; 3], path: &mut Vec<usize>, k: usize, evs: &[Ev<S::X>], c: &S::C, depth: usize, start: &[S::R; 3], mon: &Mon<S>) {
        if !legal::<S>(l, &evs[k]) {
            return;
        }
        path.push(k);
        let p = path.clone();
        w.at(|| format!("{} league {start:?} {c:?} history {:?}", S::NAME, p.iter().map(|&i| evs[i]).collect::<Vec<_>>()));
        let n = apply::<S>(w, l, &evs[k], c);
        mon(w, l, &evs[k], &n, c, &|| format!("{} league {start:?} {c:?} history {:?}: {l:?} -> {n:?}", S::NAME, p.iter().map(|&i| evs[i]).collect::<Vec<_>>()));
        let (a, b, d) = (S::num(&n[0]), S::num(&n[1]), S::num(&n[2]));
        w.state(9, &[a[0], a[1], b[0], b[1], d[0], d[1], a[2]]);
        dfs::<S>(w, &n, path, evs, c, depth - 1, start, mon);
        path.pop();
    }
    ctx.sweep(&format!("{} {name} histories", S::NAME), &items, |w, &(si, ci, e)| {
        let mut path = vec![];
        step::<S>(w, &starts[si], &mut path, e, evs, &cfgs[ci], depth, &starts[si], mon);
        w.sample(|| format!("all histories of {depth} events starting with {:?} from {:?}", evs[e], starts[si]));
    });
    let mut pats = vec![];
    for n in 1..=plen {
        pats.extend(seqs(evs.len(), n));
    }
    ctx.sweep(&format!("{} {name} repeated patterns", S::NAME), &pats, |w, p| {
        for s in starts {
            for c in cfgs {
                let mut l = *s;
                for k in 0..rounds {
                    let e = &evs[p[k % p.len()]];
                    if !legal::<S>(&l, e) {
                        break;
                    }
                    let case = || format!("{} league {s:?} {c:?} pattern {:?} event {k}", S::NAME, p.iter().map(|&i| evs[i]).collect::<Vec<_>>());
                    w.at(case);
                    let n = apply::<S>(w, &l, e, c);
                    mon(w, &l, e, &n, c, &|| format!("{}: {l:?} -> {n:?}", case()));
                    l = n;
                }
                let (a, b, d) = (S::num(&l[0]), S::num(&l[1]), S::num(&l[2]));
                w.state(10, &[a[0], a[1], b[0], b[1], d[0], d[1]]);
                w.trace_done();
            }
        }
    });
}
pub fn starts<S: Sys>() -> Vec<[S::R; 3]> {
    let p0 = S::players(0);
    let p = S::players(1);
    let k = p.len();
    vec![[p0[0]; 3], [p[0], p[k / 2], p[k - 1]], [p[k / 3], p0[p0.len() - 1], p[1]]]
}

// ---------------------------------------------------------------- C09
pub fn c09(ctx: &Ctx) {
    for_all!(c09_sys, ctx);
    c09_teams::<WlT>(ctx);
    c09_teams::<TsT>(ctx);
    c09_quality(ctx);
    ctx.assume("outside the domain: uncertainty 0, EGF rating plus handicap shift of 3300 or more, two empty teams, NaN inputs, draws with draw probability 0, convergence tolerance <= 0");
}
fn extremes<S: Sys>() -> Vec<S::R> {
    let base = S::players(1);
    let p = base[0];
    let (rs, us): (Vec<f64>, Vec<f64>) = match S::NAME {
        "egf" => (vec![-900.0, -899.999, 0.0, 3200.0, 3294.0], vec![0.0]),
        "uscf" => (vec![100.0, 100.001, 1000.0, 2354.9, 5000.0, 50_000.0, 1e6], vec![0.0]),
        "weng_lin" | "trueskill" => (vec![-1e5, -5000.0, -200.0, 0.0, 25.0, 300.0, 1000.0, 20_000.0, 1e6], vec![1e-3, 0.1, 25.0 / 3.0, 100.0, 1e4]),
        "ingo" => (vec![-1e6, -5000.0, 0.0, 1000.0, 1e6], vec![0.0]),
        _ => (vec![-1e5, -20_000.0, -3000.0, 0.0, 1500.0, 8000.0, 30_000.0, 1e6], vec![1e-3, 0.1, 30.0, 350.0]),
    };
    let mut v = vec![];
    for &r in &rs {
        for &u in if S::UNC { &us[..] } else { &us[..1] } {
            v.push(S::with_unc(&S::with_rating(&p, r), u));
        }
        for q in base.iter().rev().take(3) {
            v.push(S::with_rating(q, r));
        }
    }
    v
}
fn c09_sys<S: Sys>(ctx: &Ctx) {
    let f4 = |r: &S::R| fin(&S::num(r));
    let cfgs = S::cfgs(2);
    let xs = S::xs(2);
    let pair = |w: &mut W, a: &S::R, b: &S::R, cfgs: &[S::C], xs: &[S::X]| {
        for c in cfgs {
            for &x in xs {
                if !S::dom(a, b, x) {
                    continue;
                }
                let case = || format!("{} {a:?} {b:?} {x:?} {c:?}", S::NAME);
                w.at(case);
                let e = S::exp(a, b, x, c);
                w.ok(e.0.is_finite() && e.1.is_finite(), "expected score not finite", || format!("{}: {e:?}", case()));
                for o in OUT {
                    let (r, s) = S::rate(a, b, o, x, c);
                    w.t(2);
                    w.trace_done();
                    w.state(1, &[S::num(&r)[0], S::num(&s)[0], S::num(&r)[1]]);
                    w.ok(f4(&r) && f4(&s), "rating not finite", || format!("{} {o:?}: {r:?} {s:?}", case()));
                }
            }
        }
    };
    pairs::<S>(ctx, "pairs", |w, a, b, cfgs, xs| pair(w, a, b, cfgs, xs));
    // extreme pairings, also as periods
    let mut ex = extremes::<S>();
    ex.extend(S::players(1));
    let ext = ex.clone();
    ctx.sweep(&format!("{} extremes", S::NAME), &ex, |w, a| {
        for b in &ext {
            pair(w, a, b, &cfgs, &xs);
            for c in &cfgs {
                for &x in &xs {
                    if !S::dom(a, b, x) {
                        continue;
                    }
                    for o in OUT {
                        for n in [1usize, 2, 7, 40] {
                            w.at(|| format!("{} period {a:?}: {n} times {o:?} against {b:?} {x:?} {c:?}", S::NAME));
                            let r = S::period(a, &vec![(*b, o, x); n], c);
                            w.t(1);
                            w.trace_done();
                            w.ok(f4(&r), "rating not finite", || format!("{} period {a:?}: {n} times {o:?} against {b:?} {x:?} {c:?}: {r:?}", S::NAME));
                        }
                    }
                }
            }
        }
    });
    let c1 = S::cfgs(1);
    let extra: Vec<S::R> = extremes::<S>().into_iter().step_by(5).collect();
    periods::<S>(ctx, "periods", &extra, |w, a, l, _, cs| {
        let os: Vec<(S::R, S::X)> = l.iter().map(|e| (e.0, e.2)).collect();
        {
            for c in cs {
                w.at(|| format!("{} period {a:?} {} {c:?}", S::NAME, show(l)));
                let r = S::period(a, l, c);
                let e = S::exp_period(a, &os, c);
                w.t(2);
                w.trace_done();
                w.state(2, &S::num(&r));
                w.ok(f4(&r) && fin(&e), "rating or expected score not finite", || format!("{} period {a:?} {} {c:?}: {r:?} {e:?}", S::NAME, show(l)));
            }
        }
    });
    let evs = events::<S>(2, true);
    let depth = if evs.len() > 20 { ctx.lvl(3, 4) } else { ctx.lvl(4, 5) };
    let mon = |w: &mut W, _: &[S::R; 3], _: &Ev<S::X>, n: &[S::R; 3], _: &S::C, case: &dyn Fn() -> String| {
        w.ok(n.iter().all(f4), "rating not finite", case);
    };
    league::<S>(ctx, "league", &starts::<S>(), &c1, &evs, depth, ctx.lvl(2, 3), ctx.lvl(400, 400), &mon);
}
fn c09_teams<T: TeamSys>(ctx: &Ctx) {
    let cfgs = T::cfgs(2);
    let ex: [P; 7] = [(1e4, 0.01), (-1e4, 0.01), (25.0, 1e3), (0.0, 1e-3), (300.0, 8.0), (-250.0, 2.0), (25.0, 25.0 / 3.0)];
    let mut lay = layouts(ctx, ctx.lvl(4, 5));
    lay.extend(lobbies(ctx));
    for n in 1..=3usize {
        for s in seqs(7, n) {
            lay.push(s.iter().map(|&i| vec![ex[i]]).collect());
            lay.push(s.iter().map(|&i| vec![ex[i], ex[(i + 3) % 7]]).collect());
        }
    }
    for s in seqs(5, ctx.lvl(4, 5)) {
        lay.push(s.iter().map(|&i| vec![ex[i]]).collect());
    }
    for n in [10usize, 30, 60] {
        lay.push((0..n).map(|i| vec![(25.0 + 40.0 * i as f64, 1.0)]).collect());
        lay.push((0..n).map(|i| vec![(25.0 - 40.0 * i as f64, 1.0), TA[i % 7]]).collect());
        // many newcomers: so much information that the uncertainty hits its lower limit
        for u in [25.0 / 3.0, 20.0, 60.0] {
            lay.push(vec![vec![(25.0, u)]; n]);
            lay.push((0..n).map(|i| vec![(25.0 + (i % 5) as f64, u), (20.0, u)]).collect());
        }
    }
    // one team out of this world, at every kind of position
    for n in (2..=20usize).chain([33, 65, 70]) {
        for pos in [0, n / 2, n - 1] {
            for g in [1e4, -1e4, 1e6, -1e6] {
                let mut t = fill(&vec![1 + n % 2; n], n);
                t[pos][0] = (g, 1.0);
                lay.push(t);
            }
        }
    }
    lay.push(vec![]);
    ctx.sweep(&format!("{} teams", T::NAME), &lay, |w, t| {
        for c in &T::at(t, &cfgs) {
            let case = || format!("{} teams {t:?} {c:?}", T::NAME);
            w.at(case);
            let e = T::expm(t, c);
            w.t(1);
            w.ok(fin(&e), "expected score not finite", || format!("{}: {e:?}", case()));
            if t.is_empty() {
                let _ = T::multi(t, &[], c);
                continue;
            }
            let mut ranks = some_ranks(t.len());
            ranks.push((0..t.len()).map(|i| if i == 0 { usize::MAX } else { i }).collect());
            for r in ranks {
                w.at(|| format!("{} ranks {r:?}", case()));
                let x = T::multi(t, &r, c);
                w.t(1);
                w.trace_done();
                w.state(3, &flat(&x));
                w.ok(fin(&flat(&x)), "rating not finite", || format!("{} ranks {r:?}: {x:?}", case()));
            }
            if t.len() == 2 {
                let (e, f) = T::exp2(&t[0], &t[1], c);
                w.ok(e.is_finite() && f.is_finite(), "expected score not finite", case);
                for o in OUT {
                    w.at(|| format!("{} two teams {o:?}", case()));
                    let (x, y) = T::two(&t[0], &t[1], o, c);
                    w.t(1);
                    w.trace_done();
                    w.ok(fin(&flat(&[x.clone(), y.clone()])), "rating not finite", || format!("{} two teams {o:?}: {x:?} {y:?}", case()));
                }
            }
        }
        w.sample(|| format!("{t:?}"));
    });
    // team histories: every sequence of results of a 3-team league with a two-team and a many-team event
    let starts: Vec<Vec<Team>> = vec![vec![vec![TA[0]], vec![TA[0], TA[1]], vec![TA[4]]], vec![vec![TA[0]; 2]; 3]];
    let mut evs: Vec<(bool, Vec<usize>, Outcomes)> = weak_orders(3).into_iter().map(|r| (true, r, WIN)).collect();
    for o in OUT {
        evs.push((false, vec![0, 1], o));
        evs.push((false, vec![2, 1], o));
    }
    let step = |w: &mut W, l: &[Team], e: &(bool, Vec<usize>, Outcomes), c: &T::C| -> Vec<Team> {
        w.t(1);
        if e.0 {
            T::multi(l, &e.1, c)
        } else {
            let mut n = l.to_vec();
            let (x, y) = T::two(&l[e.1[0]], &l[e.1[1]], e.2, c);
            n[e.1[0]] = x;
            n[e.1[1]] = y;
            n
        }
    };
    ctx.sweep(&format!("{} team histories", T::NAME), &seqs(evs.len(), ctx.lvl(3, 4)), |w, h| {
        for s in &starts {
            for c in &cfgs {
                let mut l = s.clone();
                // the history three times over
                for &i in h.iter().chain(h).chain(h) {
                    w.at(|| format!("{} {l:?} {:?} {c:?}", T::NAME, evs[i]));
                    let n = step(w, &l, &evs[i], c);
                    w.ok(fin(&flat(&n)), "rating not finite", || format!("{} {c:?} history {:?}: {l:?} -> {n:?}", T::NAME, h.iter().map(|&i| &evs[i]).collect::<Vec<_>>()));
                    l = n;
                }
                w.state(4, &flat(&l));
                w.trace_done();
            }
        }
    });
    ctx.sweep(&format!("{} repeated team results", T::NAME), &evs, |w, e| {
        for s in &starts {
            for c in &cfgs {
                let mut l = s.clone();
                for k in 0..ctx.lvl(500, 3000) {
                    let n = step(w, &l, e, c);
                    w.ok(fin(&flat(&n)), "rating not finite", || format!("{} {c:?} {e:?} repeated, round {k}: {l:?} -> {n:?}", T::NAME));
                    l = n;
                }
                w.trace_done();
            }
        }
    });
}
fn c09_quality(ctx: &Ctx) {
    let ex: [P; 7] = [(1e4, 0.01), (-1e4, 0.01), (25.0, 1e3), (0.0, 1e-3), (300.0, 8.0), (-250.0, 2.0), (25.0, 25.0 / 3.0)];
    let mut lay = layouts(ctx, 4);
    lay.extend(lobbies(ctx).into_iter().filter(|t| t.len() <= 20));
    let big: Vec<Vec<Team>> = lobbies(ctx).into_iter().chain(big_lobbies(ctx)).filter(|t| t.len() > 20).collect();
    for n in 1..=3usize {
        for s in seqs(7, n) {
            lay.push(s.iter().map(|&i| vec![ex[i]]).collect());
            lay.push(s.iter().map(|&i| vec![ex[i], ex[(i + 3) % 7]]).collect());
        }
    }
    let cfgs = TsT::cfgs(2);
    // big lobbies, also on the scale of Elo ratings
    ctx.sweep("trueskill match quality of big lobbies", &big, |w, t| {
        for f in [1.0, 60.0, 0.01] {
            let c = skillratings::trueskill::TrueSkillConfig { beta: cfgs[0].beta * f, ..cfgs[0] };
            let t: Vec<Team> = t.iter().map(|x| x.iter().map(|p| (p.0 * f, p.1 * f)).collect()).collect();
            let case = || format!("match quality of {} teams {:?} ... {c:?}", t.len(), &t[..2]);
            w.at(case);
            let q = TsT::quality_m(&t, &c, None);
            w.t(1);
            w.trace_done();
            w.state(6, &[t.len() as f64, q.clone().unwrap_or(-1.0)]);
            w.ok(q.as_ref().is_ok_and(|q| q.is_finite()), "match quality not finite", || format!("{}: {q:?}", case()));
        }
    });
    ctx.sweep("trueskill match quality", &lay, |w, t| {
        for c in &TsT::at(t, &cfgs) {
            let case = || format!("match quality of {t:?} {c:?}");
            w.at(case);
            let q = TsT::quality_m(t, c, None);
            w.t(1);
            w.trace_done();
            w.ok(q.as_ref().is_ok_and(|q| q.is_finite()), "match quality not finite", || format!("{}: {q:?}", case()));
            if t.len() == 2 {
                let q = TsT::quality2(&t[0], &t[1], c);
                let p = TsT::quality(t[0][0], t[1][0], c);
                w.t(2);
                w.ok(q.is_finite() && p.is_finite(), "match quality not finite", || format!("{}: {q} {p}", case()));
            }
            // weights from full to none
            for k in 0..4usize {
                let ws: Vec<Vec<f64>> = t.iter().enumerate().map(|(i, x)| (0..x.len()).map(|j| [1.0, 0.5, 0.0, 0.25][(i + j * k + k) % 4]).collect()).collect();
                w.at(|| format!("{} weights {ws:?}", case()));
                let q = TsT::quality_m(t, c, Some(&ws));
                w.ok(q.as_ref().is_ok_and(|q| q.is_finite()), "match quality not finite", || format!("{} weights {ws:?}: {q:?}", case()));
                for r in some_ranks(t.len()).into_iter().take(6) {
                    let x = TsT::multi_w(t, &r, c, Some(&ws));
                    w.t(1);
                    w.trace_done();
                    w.ok(x.as_ref().is_ok_and(|x| fin(&flat(x))), "weighted rating not finite", || format!("{} weights {ws:?} ranks {r:?}: {x:?}", case()));
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C10
pub fn c10(ctx: &Ctx) {
    rules::<Elo>(ctx, |a, n, _, _, c| if (n.rating - a.rating).abs() <= c.k * (1.0 + 1e-9) + 1e-9 { None } else { Some("an Elo match moves more than k points") });
    rules::<Fifa>(ctx, |a, n, o, x, _| {
        let d = n.rating - a.rating;
        if d.abs() > x.importance * (1.0 + 1e-9) + 1e-9 {
            return Some("a FIFA match moves more points than its importance");
        }
        if x.knockout && d < -1e-9 {
            return Some("a team loses points in a knock-out match");
        }
        // 0.75 for the winner, 0.5 for the loser of a shoot-out: the expectation that explains d
        let _ = o;
        None
    });
    fifa_shootout(ctx);
    rules::<Uscf>(ctx, |a, n, _, _, _| {
        if n.rating < 100.0 {
            Some("a USCF rating below 100")
        } else if n.games != a.games + 1 {
            Some("the game count does not grow by the number of games")
        } else {
            None
        }
    });
    rules::<Egf>(ctx, |_, n, _, _, _| if n.rating < -900.0 { Some("an EGF rating below -900") } else { None });
    rules::<Ingo>(ctx, |a, n, _, _, _| if n.age == a.age { None } else { Some("rating changes the age") });
    rules::<Dwz>(ctx, |a, n, _, _, _| dwz_rule(a, n, 1.0, None));
    dwz_rules(ctx);
    list_rules(ctx);
}
fn rules<S: Sys>(ctx: &Ctx, rule: impl Fn(&S::R, &S::R, Outcomes, &S::X, &S::C) -> Option<&'static str> + Sync) {
    pairs::<S>(ctx, "matches", |w, a, b, cfgs, xs| {
        for c in cfgs {
            for x in xs {
                if !S::dom(a, b, *x) {
                    continue;
                }
                for o in OUT {
                    let case = || format!("{}({a:?}, {b:?}, {o:?}, {x:?}, {c:?})", S::NAME);
                    w.at(case);
                    let (r, s) = S::rate(a, b, o, *x, c);
                    let p = S::period(a, &[(*b, o, *x)], c);
                    w.t(2);
                    w.trace_done();
                    w.state(1, &[S::num(&r)[0], S::num(&s)[0]]);
                    for (old, new, oo) in [(a, &r, o), (b, &s, inv(o)), (a, &p, o)] {
                        let v = rule(old, new, oo, x, c);
                        w.ok(v.is_none(), v.unwrap_or(""), || format!("{}: {r:?} {s:?} period {p:?}", case()));
                    }
                    w.sample(|| format!("{}: {r:?} {s:?}", case()));
                }
            }
        }
    });
    // histories
    let evs = events::<S>(4, true);
    let depth = if evs.len() > 30 { ctx.lvl(3, 3) } else if evs.len() > 20 { ctx.lvl(3, 4) } else { ctx.lvl(4, 5) };
    let mon = |w: &mut W, l: &[S::R; 3], e: &Ev<S::X>, n: &[S::R; 3], c: &S::C, case: &dyn Fn() -> String| {
        if let Ev::Match(i, j, o, x) = e {
            for (k, oo) in [(*i, *o), (*j, inv(*o))] {
                let v = rule(&l[k], &n[k], oo, x, c);
                w.ok(v.is_none(), v.unwrap_or(""), case);
            }
        }
    };
    league::<S>(ctx, "league", &starts::<S>(), &S::cfgs(1), &evs, depth, 2, 150, &mon);
}
fn fifa_shootout(ctx: &Ctx) {
    use skillratings::fifa::{FifaConfig, FifaRating};
    pairs::<Fifa>(ctx, "fifa shoot-outs", |w, a, b, _, _| {
        for importance in [5.0, 10.0, 25.0, 60.0] {
            for knockout in [false, true] {
                let x = FifaConfig { importance, knockout, penalties: true };
                for o in OUT {
                    w.at(|| format!("fifa({a:?}, {b:?}, {o:?}, {x:?})"));
                    let (r, s) = skillratings::fifa::fifa(a, b, &o, &x);
                    let (pa, pb) = (skillratings::fifa::fifa_rating_period(a, &[(*b, o, x)]), skillratings::fifa::fifa_rating_period(b, &[(*a, inv(o), x)]));
                    w.t(3);
                    w.trace_done();
                    let credit = |me: Outcomes| if me == WIN { 0.75 } else { 0.5 };
                    let want = |p: &FifaRating, q: &FifaRating, me: Outcomes| {
                        let d = importance * (credit(me) - refm::logistic10(p.rating - q.rating, 600.0));
                        p.rating + if knockout && d < 0.0 { 0.0 } else { d }
                    };
                    let (wa, wb) = (want(a, b, o), want(b, a, inv(o)));
                    w.ok(near(r.rating, wa, 1e-9) && near(pa.rating, wa, 1e-9) && near(s.rating, wb, 1e-9) && near(pb.rating, wb, 1e-9), "shoot-out credit is not 0.75 / 0.5", || {
                        format!("fifa({a:?}, {b:?}, {o:?}, {x:?}): {r:?} {s:?}, periods {pa:?} {pb:?}, expected {wa} {wb}")
                    });
                }
            }
        }
    });
}
/// None if the change is within the limits of the development coefficient.
fn dwz_rule(a: &DWZRating, n: &DWZRating, games: f64, under: Option<bool>) -> Option<&'static str> {
    if n.age != a.age {
        return Some("rating changes the age");
    }
    if n.index != a.index + 1 {
        return Some("the DWZ index does not grow by one per event");
    }
    let d = (n.rating - a.rating).abs();
    if d > 800.0 * games / (5.0 + games) * (1.0 + 1e-9) + 1e-9 {
        return Some("a DWZ event moves more than a development coefficient of 5 allows");
    }
    let _ = under;
    None
}
fn dwz_rules(ctx: &Ctx) {
    // The coefficient that explains the change: E = 800 (w - we) / change - n.
    let check = |w: &mut W, a: &DWZRating, l: &[(DWZRating, Outcomes)], n: &DWZRating, how: &str| {
        let games = l.len() as f64;
        let sc: f64 = l.iter().map(|e| pts(e.1)).sum();
        let we: f64 = l.iter().map(|e| refm::logistic10(a.rating - e.0.rating, 400.0)).sum();
        let d = n.rating - a.rating;
        w.trace_done();
        w.state(5, &[n.rating]);
        let v = dwz_rule(a, n, games, None);
        w.ok(v.is_none(), v.unwrap_or(""), || format!("{how} {a:?} {}: {n:?}", show(l)));
        if (sc - we).abs() < 1e-4 || d == 0.0 {
            return;
        }
        let e = 800.0 * (sc - we) / d - games;
        let t = 1e-6 * e.abs().max(1.0) + 1e-7 / d.abs();
        let cap = if a.rating < 1300.0 && sc <= we { 150.0 } else { f64::min(30.0, 5.0 * a.index as f64).max(5.0) };
        w.ok(e >= 5.0 - t && e <= cap + t, "the DWZ development coefficient is outside its limits", || format!("{how} {a:?} {}: {n:?}, coefficient {e}, limits 5..{cap}", show(l)));
    };
    pairs::<Dwz>(ctx, "dwz coefficients", |w, a, b, _, _| {
        for o in OUT {
            w.at(|| format!("dwz({a:?}, {b:?}, {o:?})"));
            let (r, s) = skillratings::dwz::dwz(a, b, &o);
            w.t(1);
            check(w, a, &[(*b, o)], &r, "first player of match");
            check(w, b, &[(*a, inv(o))], &s, "second player of match");
        }
    });
    let more: Vec<DWZRating> = Dwz::players(1).into_iter().step_by(ctx.lvl(3, 1)).collect();
    periods::<Dwz>(ctx, "periods", &more, |w, a, l, _, _| {
        let l: Vec<_> = l.iter().map(|e| (e.0, e.1)).collect();
        {
            w.at(|| format!("dwz_rating_period({a:?}, {})", show(&l)));
            let r = skillratings::dwz::dwz_rating_period(a, &l);
            w.t(1);
            check(w, a, &l, &r, "period");
        }
    });
}
fn list_rules(ctx: &Ctx) {
    fn go<S: Sys>(ctx: &Ctx, extra: Vec<S::R>, rule: impl Fn(&S::R, &S::R, usize) -> Option<&'static str> + Sync) {
        periods::<S>(ctx, "period rules", &extra, |w, a, l, _, cs| {
            {
                for c in cs {
                    w.at(|| format!("{} period {a:?} {} {c:?}", S::NAME, show(l)));
                    let r = S::period(a, l, c);
                    w.t(1);
                    w.trace_done();
                    w.state(6, &S::num(&r));
                    let v = rule(a, &r, l.len());
                    w.ok(v.is_none(), v.unwrap_or(""), || format!("{} period {a:?} {} {c:?}: {r:?}", S::NAME, show(l)));
                }
            }
        });
    }
    use skillratings::{egf::EGFRating, uscf::USCFRating};
    let low: Vec<USCFRating> = [100.0, 101.0, 130.0, 250.0, 700.0].iter().flat_map(|&rating| [0, 1, 8, 9, 40, 200].map(|games| USCFRating { rating, games })).collect();
    go::<Uscf>(ctx, low, |a, n, k| {
        if n.rating < 100.0 {
            Some("a USCF rating below 100")
        } else if n.games != a.games + k {
            Some("the game count does not grow by the number of games")
        } else {
            None
        }
    });
    // long periods against opponents near the floor, all results and all but one
    fn floor<S: Sys>(ctx: &Ctx, from: f64, players: &[S::R], rule: impl Fn(&S::R, &S::R, usize) -> Option<&'static str> + Sync) {
        let mut ns: Vec<usize> = (1..=ctx.lvl(75, 150)).chain([99, 100, 101, 128, 129, 200, 256, 257, 1000]).collect();
        ns.sort();
        ns.dedup();
        let (p0, x1, cs) = (S::players(0), S::xs(1), S::cfgs(2));
        ctx.sweep(&format!("{} floor", S::NAME), &ns, |w, &n| {
            for a in players {
                for d in [0.0, 1.0, 60.0, 250.0, 700.0, 2000.0] {
                    for base in OUT {
                        for odd in OUT {
                            let l: L<S> = (0..n).map(|i| (S::with_rating(&p0[i % p0.len()], from + d), if i == n / 2 { odd } else { base }, x1[i % x1.len()])).collect();
                            if !list_ok::<S>(a, &l) {
                                continue;
                            }
                            for c in &cs {
                                let r = S::period(a, &l, c);
                                w.t(1);
                                w.trace_done();
                                w.state(8, &S::num(&r));
                                let v = rule(a, &r, n);
                                w.ok(v.is_none(), v.unwrap_or(""), || format!("{} period {a:?} {} {c:?}: {r:?}", S::NAME, show(&l)));
                            }
                        }
                    }
                }
            }
        });
    }
    let pl: Vec<USCFRating> = [100.0, 112.0, 300.0, 1300.0].iter().flat_map(|&rating| [0usize, 3, 8, 9, 30].map(|games| USCFRating { rating, games })).collect();
    floor::<Uscf>(ctx, 100.0, &pl, |a, n, k| if n.rating < 100.0 { Some("a USCF rating below 100") } else if n.games != a.games + k { Some("the game count does not grow by the number of games") } else { None });
    floor::<Egf>(ctx, -900.0, &[-900.0, -870.0, -500.0, 400.0].map(|rating| EGFRating { rating }), |_, n, _| if n.rating < -900.0 { Some("an EGF rating below -900") } else { None });
    let low = [-900.0, -899.0, -880.0, -800.0, -600.0].map(|rating| EGFRating { rating }).to_vec();
    go::<Egf>(ctx, low, |_, n, _| if n.rating < -900.0 { Some("an EGF rating below -900") } else { None });
    go::<Ingo>(ctx, Ingo::players(1), |a, n, _| if n.age == a.age { None } else { Some("rating changes the age") });
    // knock-out periods never cost points
    let fx: Vec<_> = Fifa::xs(1).into_iter().filter(|x| x.knockout).collect();
    let opp = opponents::<Fifa>(4);
    let mut sym = vec![];
    for o in &opp {
        for r in OUT {
            for x in &fx {
                sym.push((*o, r, *x));
            }
        }
    }
    let mut lists: Vec<Vec<_>> = vec![];
    for n in 1..=ctx.lvl(2, 3) {
        lists.extend(seqs(sym.len(), n).into_iter().map(|s| s.iter().map(|&i| sym[i]).collect::<Vec<_>>()));
    }
    for n in 3..60 {
        lists.push((0..n).map(|i| sym[(i * 5 + n) % sym.len()]).collect());
    }
    let pl = Fifa::players(2);
    ctx.sweep("fifa knock-out periods", &lists, |w, l| {
        for a in &pl {
            let r = skillratings::fifa::fifa_rating_period(a, l);
            w.t(1);
            w.trace_done();
            w.state(7, &[r.rating]);
            w.ok(r.rating >= a.rating - 1e-9, "a team loses points in knock-out matches", || format!("{a:?} {}: {r:?}", show(l)));
        }
    });
    // Elo and FIFA periods: at most k (importance) per game
    periods::<Elo>(ctx, "period limits", &[], |w, a, l, _, cs| {
        {
            for c in cs {
                let r = Elo::period(a, l, c);
                w.t(1);
                w.ok((r.rating - a.rating).abs() <= c.k * l.len() as f64 * (1.0 + 1e-9) + 1e-9, "an Elo period moves more than k points per match", || format!("{a:?} {} {c:?}: {r:?}", show(l)));
            }
        }
    });
}

// ---------------------------------------------------------------- C11
pub fn c11(ctx: &Ctx) {
    fn total<S: Sys>(l: &[S::R]) -> f64 {
        l.iter().map(|r| S::num(r)[0]).sum()
    }
    fn go<S: Sys>(ctx: &Ctx, keep: impl Fn(&S::X) -> bool + Sync) {
        let p2 = S::players(2);
        let cfgs = S::cfgs(2);
        let xs: Vec<S::X> = S::xs(2).into_iter().filter(|x| keep(x)).collect();
        pairs_with::<S>(ctx, "matches", &keep, |w, a, b, cfgs, xs| {
            for c in cfgs {
                for x in xs {
                    for o in OUT {
                        w.at(|| format!("{}({a:?}, {b:?}, {o:?}, {x:?}, {c:?})", S::NAME));
                        let (r, s) = S::rate(a, b, o, *x, c);
                        w.t(1);
                        w.trace_done();
                        w.state(1, &[S::num(&r)[0], S::num(&s)[0]]);
                        let (t0, t1) = (total::<S>(&[*a, *b]), total::<S>(&[r, s]));
                        w.ok((t0 - t1).abs() <= 1e-10 * (S::num(a)[0].abs() + S::num(b)[0].abs() + 100.0), "points are created or destroyed", || format!("{}({a:?}, {b:?}, {o:?}, {x:?}, {c:?}): {r:?} {s:?}", S::NAME));
                    }
                }
            }
        });
        let evs: Vec<Ev<S::X>> = {
            let mut v = vec![];
            for x in xs.iter().take(if S::NAME == "fifa" { 3 } else { 1 }) {
                for (p, q) in [(0, 1), (1, 2), (2, 0)] {
                    for o in OUT {
                        v.push(Ev::Match(p, q, o, *x));
                    }
                }
            }
            v
        };
        let st = starts::<S>();
        let mon = |w: &mut W, l: &[S::R; 3], _: &Ev<S::X>, n: &[S::R; 3], _: &S::C, case: &dyn Fn() -> String| {
            w.ok((total::<S>(l) - total::<S>(n)).abs() <= 1e-8, "the total of a league changes", case);
        };
        let depth = if evs.len() > 10 { ctx.lvl(3, 4) } else { ctx.lvl(5, 6) };
        league::<S>(ctx, "closed league", &st, &S::cfgs(1), &evs, depth, 2, ctx.lvl(300, 2000), &mon);
        // periods: both sides of a match rated by period functions
        ctx.sweep(&format!("{} periods", S::NAME), &p2, |w, a| {
            for b in &p2 {
                for c in &cfgs {
                    for x in &xs {
                        for o in OUT {
                            let r = S::period(a, &[(*b, o, *x)], c);
                            let s = S::period(b, &[(*a, inv(o), *x)], c);
                            w.t(2);
                            w.trace_done();
                            w.ok((total::<S>(&[*a, *b]) - total::<S>(&[r, s])).abs() <= 1e-8, "points are created or destroyed", || format!("{} periods {a:?} {b:?} {o:?} {x:?} {c:?}: {r:?} {s:?}", S::NAME));
                        }
                    }
                }
            }
        });
    }
    go::<Elo>(ctx, |_| true);
    go::<Fifa>(ctx, |x| !x.knockout && !x.penalties);
    fn precision<S: Sys, T: TeamSys>(ctx: &Ctx, cfg: impl Fn(&S::C) -> f64 + Sync) {
        let x = S::xs(0)[0];
        pairs::<S>(ctx, "matches", |w, a, b, cfgs, _| {
            for c in cfgs {
                for o in OUT {
                    w.at(|| format!("{}({a:?}, {b:?}, {o:?}, {c:?})", S::NAME));
                    let (r, s) = S::rate(a, b, o, x, c);
                    w.t(1);
                    w.trace_done();
                    w.state(2, &[S::num(&r)[0], S::num(&s)[0]]);
                    let v = |p: &S::R| S::num(p)[1].powi(2) + cfg(c).powi(2);
                    let (da, db) = (S::num(&r)[0] - S::num(a)[0], S::num(&s)[0] - S::num(b)[0]);
                    // rounding of the stored ratings
                    let e = 1e-14 * (S::num(a)[0].abs() / v(a) + S::num(b)[0].abs() / v(b) + S::num(&r)[0].abs() / v(a) + S::num(&s)[0].abs() / v(b));
                    w.ok((da / v(a) + db / v(b)).abs() <= 1e-9 * (da / v(a)).abs() + e, "precision-weighted changes do not cancel", || format!("{}({a:?}, {b:?}, {o:?}, {c:?}): {r:?} {s:?}", S::NAME));
                }
            }
        });
        let mut lay = layouts(ctx, ctx.lvl(4, 5));
        lay.extend(lobbies(ctx));
        let cfgs = T::cfgs(2);
        ctx.sweep(&format!("{} teams", T::NAME), &lay, |w, t| {
            for c in &T::at(t, &cfgs) {
                let tau2 = T::dynamics(c).powi(2);
                let prop = |w: &mut W, x: &[Team], case: &dyn Fn() -> String| {
                    for (old, new) in t.iter().zip(x) {
                        let per: Vec<f64> = old.iter().zip(new).map(|(o, n)| (n.0 - o.0) / (o.1 * o.1 + tau2)).collect();
                        for k in 1..per.len() {
                            let e = 1e-12 * (old[k].0.abs() / (old[k].1 * old[k].1 + tau2) + old[0].0.abs() / (old[0].1 * old[0].1 + tau2));
                            w.ok((per[k] - per[0]).abs() <= 1e-6 * per[0].abs() + e, "changes within a team are not proportional to the squared uncertainties", || format!("{}: {x:?}", case()));
                        }
                    }
                };
                for r in some_ranks(t.len()) {
                    let case = || format!("{} teams {t:?} {r:?} {c:?}", T::NAME);
                    w.at(case);
                    let x = T::multi(t, &r, c);
                    w.t(1);
                    w.trace_done();
                    w.state(3, &flat(&x));
                    prop(w, &x, &case);
                }
                if t.len() == 2 {
                    for o in OUT {
                        let case = || format!("{} two teams {t:?} {o:?} {c:?}", T::NAME);
                        w.at(case);
                        let (x, y) = T::two(&t[0], &t[1], o, c);
                        w.t(1);
                        w.trace_done();
                        prop(w, &[x, y], &case);
                    }
                }
            }
        });
    }
    precision::<Wl, WlT>(ctx, |_| 0.0);
    precision::<Ts, TsT>(ctx, |c| c.dynamics_factor);
}
