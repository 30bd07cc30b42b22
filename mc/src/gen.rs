//! Bounded input spaces: pairs, result lists, team layouts, rankings.
use crate::core::*;
use crate::sys::*;
use skillratings::Outcomes;

pub type L<S> = Vec<(<S as Sys>::R, Outcomes, <S as Sys>::X)>;

/// Ordered pairs of players with the configs and match options they meet under:
/// - level 2 x level 2 and level 3 x level 2 (both roles) under level-2 configs and options;
/// - level 3 x level 3: thorough all, quick every k-th (k depends on the system; the offset moves from player to player);
/// - every player of the dense lines against a spread of level-1 players, both roles;
/// - level 1 x level 1 under every value of every config field and match option (level 3).
#[derive(Debug, Clone)]
enum PairItem<R> {
    Two(R),
    Three(usize, R),
    Cfg(R),
    Line(R),
}
pub fn pairs<S: Sys>(ctx: &Ctx, what: &str, f: impl Fn(&mut W, &S::R, &S::R, &[S::C], &[S::X]) + Sync) {
    pairs_with::<S>(ctx, what, |_| true, f)
}
/// The same with some match options left out.
pub fn pairs_with<S: Sys>(ctx: &Ctx, what: &str, keep: impl Fn(&S::X) -> bool, f: impl Fn(&mut W, &S::R, &S::R, &[S::C], &[S::X]) + Sync) {
    let (p1, p2, p3) = (S::players(1), S::players(2), S::players(3));
    let (c1, c2, c3) = (S::cfgs(1), S::cfgs(2), S::cfgs(3));
    let [x1, x2, x3] = [1, 2, 3].map(|l| S::xs(l).into_iter().filter(|x| keep(x)).collect::<Vec<_>>());
    let mut items: Vec<PairItem<S::R>> = p2.iter().map(|a| PairItem::Two(*a)).collect();
    items.extend(p3.iter().enumerate().map(|(i, a)| PairItem::Three(i, *a)));
    let cp: Vec<S::R> = p1.iter().step_by((p1.len() / 30).max(1)).copied().collect();
    items.extend(cp.iter().map(|a| PairItem::Cfg(*a)));
    items.extend(S::lines().into_iter().map(PairItem::Line));
    let lp: Vec<S::R> = p1.iter().step_by((p1.len() / ctx.lvl(14, 40)).max(1)).copied().collect();
    let total = p3.len() as f64 * p3.len() as f64 * (c2.len() * x2.len()) as f64;
    let stride = ((total / ctx.lvl(5e6, 4e8)).ceil() as usize).max(1);
    ctx.sweep(&format!("{} {what}", S::NAME), &items, |w, it| match it {
        PairItem::Two(a) => {
            for b in &p2 {
                f(w, a, b, &c2, &x2);
            }
        }
        PairItem::Three(i, a) => {
            for b in &p2 {
                f(w, a, b, &c2, &x2);
                f(w, b, a, &c2, &x2);
            }
            for b in p3.iter().skip(i % stride).step_by(stride) {
                f(w, a, b, &c2, &x2);
            }
        }
        PairItem::Line(a) => {
            for b in &lp {
                f(w, a, b, &c1, &x1);
                f(w, b, a, &c1, &x1);
            }
        }
        PairItem::Cfg(a) => {
            for b in &cp {
                f(w, a, b, &c3, &x1);
                f(w, a, b, &c1, &x3);
            }
        }
    });
}

/// Opponents used in result lists: a few clearly different ones (incl. stronger, weaker, uncertain, certain).
pub fn opponents<S: Sys>(n: usize) -> Vec<S::R> {
    let p = S::players(1);
    let k = p.len();
    let mut v: Vec<S::R> = vec![];
    for i in 0..n {
        // spread over the list
        let j = (i * 7 + k / 3) % k;
        if !v.contains(&p[j]) {
            v.push(p[j]);
        }
    }
    let mut j = 0;
    while v.len() < n && j < k {
        if !v.contains(&p[j]) {
            v.push(p[j]);
        }
        j += 1;
    }
    v
}
pub fn symbols<S: Sys>(nopp: usize, nx: usize) -> L<S> {
    let mut v = vec![];
    let xs = S::xs(1);
    let k = xs.len();
    for o in opponents::<S>(nopp) {
        for r in OUT {
            for i in 0..nx.min(k) {
                v.push((o, r, xs[(i * (k / nx.max(1)).max(1)) % k]));
            }
        }
    }
    v
}
fn all_seqs<T: Copy>(sym: &[T], len: usize, out: &mut Vec<Vec<T>>) {
    for s in seqs(sym.len(), len) {
        out.push(s.iter().map(|&i| sym[i]).collect());
    }
}
/// All short result lists.
pub fn short_lists<S: Sys>(ctx: &Ctx) -> Vec<L<S>> {
    let mut v = vec![];
    let t = ctx.thorough;
    all_seqs(&symbols::<S>(7, 8), 1, &mut v);
    all_seqs(&symbols::<S>(5, 4), 2, &mut v);
    all_seqs(&symbols::<S>(if t { 4 } else { 3 }, 2), 3, &mut v);
    all_seqs(&symbols::<S>(if t { 3 } else { 2 }, 2)[..], 4, &mut v);
    if t {
        all_seqs(&symbols::<S>(2, 1), 5, &mut v);
        all_seqs(&symbols::<S>(2, 1)[..5], 6, &mut v);
    } else {
        all_seqs(&symbols::<S>(2, 1)[..4], 5, &mut v);
    }
    v
}
/// Long result lists: every length up to 70 (thorough: 140) and around powers of two with uniform, alternating and "one different" results over cycling opponents.
pub fn long_lists<S: Sys>(ctx: &Ctx) -> Vec<L<S>> {
    let mut v = vec![];
    let opp = S::players(1);
    let xs = S::xs(1);
    let mut lens: Vec<usize> = (5..=70).chain([80, 90, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300]).collect();
    if ctx.thorough {
        lens.extend((71..=140).chain([400, 500, 512, 513, 1000, 1024, 1025, 2000, 5000]));
    } else {
        // a few patterns of really long lists
        for n in [65_537usize, 70_000] {
            v.push((0..n).map(|i| (opp[(2 + i * 3) % opp.len()], OUT[(i + n) % 3], xs[i % xs.len()])).collect());
        }
        for n in [511usize, 512, 513, 1000, 1001, 1024, 1025, 2049] {
            for base in OUT {
                v.push((0..n).map(|i| (opp[(2 + i) % opp.len()], base, xs[i % xs.len()])).collect());
            }
            v.push((0..n).map(|i| (opp[(2 + i * 3) % opp.len()], OUT[i % 3], xs[i % xs.len()])).collect());
            v.push((0..n).map(|i| (opp[(2 + i * 3) % opp.len()], if i + 1 == n { Outcomes::WIN } else { OUT[1 + i % 2] }, xs[i % xs.len()])).collect());
        }
    }
    for n in lens {
        for stride in [0usize, 1, 3] {
            let el = |i: usize, o: Outcomes| (opp[(2 + i * stride) % opp.len()], o, xs[(i * stride / 2) % xs.len()]);
            for base in OUT {
                v.push((0..n).map(|i| el(i, base)).collect());
                for other in OUT {
                    if other != base {
                        for pos in [0, n / 2, n - 1] {
                            v.push((0..n).map(|i| el(i, if i == pos { other } else { base })).collect());
                        }
                    }
                }
            }
            v.push((0..n).map(|i| el(i, OUT[i % 3])).collect());
            v.push((0..n).map(|i| el(i, OUT[(i % 2) * 2])).collect());
            v.push((0..n).map(|i| el(i, OUT[(i / 2) % 3])).collect());
        }
    }
    v
}
pub fn list_ok<S: Sys>(a: &S::R, l: &[(S::R, Outcomes, S::X)]) -> bool {
    l.iter().all(|(b, _, x)| S::dom(a, b, *x))
}
/// Players for list checks.
pub fn list_players<S: Sys>(ctx: &Ctx) -> Vec<S::R> {
    let p = S::players(1);
    let want = ctx.lvl(14, 40);
    let stepn = (p.len() / want).max(1);
    p.into_iter().step_by(stepn).collect()
}

/// Medium result lists for one player: fixed opponents, and opponents placed relative to the player's own rating
/// (equal, a little apart, far apart; each with different uncertainties), uniform and mixed results.
pub fn lists_of<S: Sys>(ctx: &Ctx, a: &S::R) -> Vec<L<S>> {
    let p1 = S::players(1);
    let x = S::xs(1);
    let opp = opponents::<S>(4);
    let (lo, hi) = p1.iter().map(|r| S::num(r)[0]).fold((f64::MAX, f64::MIN), |(l, h), r| (l.min(r), h.max(r)));
    let unit = (hi - lo) / 80.0;
    let near = |i: usize, d: f64| S::with_rating(&p1[(i * 5 + 1) % p1.len()], S::num(a)[0] + d * unit);
    let pats: [fn(usize) -> Outcomes; 5] = [|_| Outcomes::WIN, |_| Outcomes::DRAW, |_| Outcomes::LOSS, |i| OUT[i % 3], |i| OUT[(i % 2) * 2]];
    let mut v: Vec<L<S>> = vec![];
    for n in ctx.lvl(vec![2usize, 3, 4, 5, 7, 12], vec![2, 3, 4, 5, 6, 7, 9, 12, 17, 25]) {
        for (pi, p) in pats.iter().enumerate() {
            v.push((0..n).map(|i| (opp[i % opp.len()], p(i), x[i % x.len()])).collect());
            if n <= 5 || pi >= 3 || ctx.thorough {
                // all opponents on one side / spread around the player
                for d in [0.0, 1.0, -1.0, 6.0, -6.0, 14.0, -14.0] {
                    v.push((0..n).map(|i| (near(i + pi, d), p(i), x[(i + pi) % x.len()])).collect());
                }
                for ds in [[1.0, -1.0, 0.0], [6.0, -7.0, 2.0], [-14.0, 3.0, 9.0]] {
                    v.push((0..n).map(|i| (near(i, ds[i % 3]), p(i), x[(i * 2 + pi) % x.len()])).collect());
                }
            }
        }
    }
    v.retain(|l| list_ok::<S>(a, l) && l.iter().all(|e| S::valid(&e.0)));
    v
}
/// Rating periods: every short and long list for a spread of players (and `extra`), then the medium lists for every player of the dense alphabet.
/// The flag is set for lists that are short enough to vary every position.
pub fn periods<S: Sys>(ctx: &Ctx, what: &str, extra: &[S::R], f: impl Fn(&mut W, &S::R, &L<S>, bool, &[S::C]) + Sync) {
    let c1 = S::cfgs(1);
    let mut lists = short_lists::<S>(ctx);
    let nshort = lists.len();
    lists.extend(long_lists::<S>(ctx));
    let mut pl = list_players::<S>(ctx);
    pl.extend(extra);
    let items: Vec<(usize, &L<S>)> = lists.iter().enumerate().collect();
    ctx.sweep(&format!("{} {what}", S::NAME), &items, |w, &(k, l)| {
        for a in &pl {
            if list_ok::<S>(a, l) {
                f(w, a, l, k < nshort, &c1);
            }
        }
        w.sample(|| format!("{} {what}: {:?} ... ({} results)", S::NAME, l[0], l.len()));
    });
    every_player::<S>(ctx, what, &f);
    every_config::<S>(ctx, what, &f);
    every_length::<S>(ctx, what, &f);
}
/// Players along the dense lines (every age, index, game count; ratings, uncertainties) with lists of every length.
pub fn every_length<S: Sys>(ctx: &Ctx, what: &str, f: impl Fn(&mut W, &S::R, &L<S>, bool, &[S::C]) + Sync) {
    let opp = S::players(1);
    let (x1, c0) = (S::xs(1), S::cfgs(0));
    let other = S::other_lines();
    let mut pl: Vec<S::R> = S::lines().into_iter().step_by(ctx.lvl(24, 5)).collect();
    pl.extend(other.iter().step_by((other.len() / ctx.lvl(200, 1000)).max(1)));
    let items: Vec<(usize, S::R)> = pl.into_iter().enumerate().collect();
    // every score from 0 to n out of n, a half point apart
    let pl = list_players::<S>(ctx);
    let mut scores: Vec<(usize, usize)> = vec![];
    for n in 2..=ctx.lvl(16usize, 30) {
        scores.extend((0..=2 * n).map(|h| (n, h)));
    }
    ctx.sweep(&format!("{} {what}, every score", S::NAME), &scores, |w, &(n, h)| {
        for (i, a) in pl.iter().enumerate() {
            for draws in [h % 2, h.min(2 * n - h)] {
                let wins = (h - draws) / 2;
                let l: L<S> = (0..n)
                    .map(|j| {
                        let k = (j * 5 + i) % n;
                        let k = if n % 5 == 0 { j } else { k };
                        (opp[(i + j) % opp.len()], if k < wins { Outcomes::WIN } else if k < wins + draws { Outcomes::DRAW } else { Outcomes::LOSS }, x1[(i + j) % x1.len()])
                    })
                    .collect();
                if list_ok::<S>(a, &l) {
                    f(w, a, &l, false, &c0);
                }
            }
        }
    });
    let top = ctx.lvl(40usize, 80);
    ctx.sweep(&format!("{} {what}, every length", S::NAME), &items, |w, (i, a)| {
        for n in 2..=top {
            for (k, s) in [(0usize, 1usize), (1, 3)] {
                let l: L<S> = (0..n)
                    .map(|j| {
                        let o = match (i + n + k) % 5 {
                            0 => OUT[j % 3],
                            1 => OUT[(j % 2) * 2],
                            2 => if j == 0 { Outcomes::DRAW } else { Outcomes::WIN },
                            3 => if j + 1 == n { Outcomes::WIN } else { Outcomes::LOSS },
                            _ => OUT[(j / 2 + 1) % 3],
                        };
                        (opp[(i + j * s) % opp.len()], o, x1[(i + j) % x1.len()])
                    })
                    .filter(|e| S::dom(a, &e.0, e.2))
                    .collect();
                if l.len() > 1 {
                    f(w, a, &l, false, &c0);
                }
            }
        }
    });
}
/// A spread of players with short, medium and long lists under every value of every config field and match option.
pub fn every_config<S: Sys>(ctx: &Ctx, what: &str, f: impl Fn(&mut W, &S::R, &L<S>, bool, &[S::C]) + Sync) {
    let c3: Vec<S::C> = S::cfgs(3).into_iter().filter(|c| S::outs(c).len() == 3).collect();
    let (x1, x3) = (S::xs(1), S::xs(3));
    let c1 = S::cfgs(1);
    if c3.len() <= c1.len() && x3.len() <= x1.len() {
        return;
    }
    let pl = list_players::<S>(ctx);
    let opp = S::players(1);
    let opp = |i: usize| opp[(i * 7 + 3) % opp.len()];
    let pats: [fn(usize) -> Outcomes; 4] = [|i| OUT[i % 3], |i| if i == 0 { Outcomes::LOSS } else { Outcomes::WIN }, |_| Outcomes::LOSS, |i| OUT[(i / 2 + 1) % 3]];
    let mut items: Vec<(S::R, L<S>, bool)> = vec![];
    for (i, a) in pl.iter().enumerate() {
        for (k, n) in ctx.lvl(vec![2usize, 3, 5, 11], vec![2, 3, 4, 5, 8, 11, 20, 41]).into_iter().enumerate() {
            for p in [pats[(i + k) % 4], pats[(i + k + 1) % 4]] {
                items.push((*a, (0..n).map(|j| (opp(i + j), p(j), x1[(i + j) % x1.len()])).collect(), true));
            }
        }
        for (k, x) in x3.iter().enumerate() {
            items.push((*a, (0..3).map(|j| (opp(i + j + k), pats[k % 4](j), if j == 2 { x3[(k * 5 + 1) % x3.len()] } else { *x })).collect(), false));
        }
    }
    items.retain(|(a, l, _)| list_ok::<S>(a, l));
    ctx.sweep(&format!("{} {what}, every config", S::NAME), &items, |w, (a, l, all)| {
        f(w, a, l, false, if *all { &c3 } else { &c1 });
    });
}
pub fn every_player<S: Sys>(ctx: &Ctx, what: &str, f: impl Fn(&mut W, &S::R, &L<S>, bool, &[S::C]) + Sync) {
    let c1 = S::cfgs(1);
    let mut all = S::players(2);
    let p3 = S::players(3);
    let stepn = (p3.len() / ctx.lvl(1500, 12000)).max(1);
    all.extend(p3.into_iter().step_by(stepn));
    all.extend(S::lines().into_iter().step_by(ctx.lvl(4, 1)));
    ctx.sweep(&format!("{} {what}, every player", S::NAME), &all, |w, a| {
        for l in &lists_of::<S>(ctx, a) {
            f(w, a, l, false, &c1);
        }
    });
}

// ---------------------------------------------------------------- teams
pub type P = (f64, f64);
pub type Team = Vec<P>;
pub const TA: [P; 7] = [(25.0, 25.0 / 3.0), (31.5, 2.1), (18.25, 5.0), (38.0, 1.0), (4.5, 7.0), (25.0, 0.75), (29.0, 3.3)];

/// All rankings (weak orders) of n teams, as rank vectors 1..=k.
pub fn weak_orders(n: usize) -> Vec<Vec<usize>> {
    seqs(n, n).into_iter().filter(|v| { let m = *v.iter().max().unwrap(); (0..=m).all(|k| v.contains(&k)) }).map(|v| v.into_iter().map(|x| x + 1).collect()).collect()
}
/// Teams filled from the alphabet: sizes s, variant k.
pub fn fill(sizes: &[usize], k: usize) -> Vec<Team> {
    let mut c = k;
    sizes
        .iter()
        .enumerate()
        .map(|(i, &s)| (0..s).map(|j| { c += 1; TA[(c * (1 + k / 7) + 2 * i + 3 * j * (k % 3)) % 7] }).collect())
        .collect()
}
/// All size vectors of n teams with sizes 1..=m.
pub fn sizes(n: usize, m: usize) -> Vec<Vec<usize>> {
    seqs(m, n).into_iter().map(|v| v.into_iter().map(|x| x + 1).collect()).collect()
}
/// Team layouts for many-team checks (with at least two teams).
pub fn layouts(ctx: &Ctx, nmax: usize) -> Vec<Vec<Team>> {
    let mut v = vec![];
    let t = ctx.thorough;
    for n in 2..=nmax {
        let m = match n { 2 => 4, 3 => 3, 4 => 2, _ => 2 };
        for s in sizes(n, if t { m + 1 } else { m }) {
            if n >= 5 && !t && s.iter().filter(|&&x| x > 1).count() > 1 {
                continue;
            }
            let ks = match (n, t) { (2, _) => 21, (3, _) => 9, (_, false) => 3, (_, true) => 6 };
            for k in 0..ks {
                v.push(fill(&s, k));
            }
        }
        v.push(vec![vec![TA[0]]; n]);
        v.push(vec![vec![TA[1], TA[1]]; n]);
    }
    // one player on a line of ratings and uncertainties
    let rs = crate::sys::steps(-45.0, 105.0, ctx.lvl(3.75, 1.25));
    let us = ctx.lvl(vec![0.3, 2.1, 25.0 / 3.0, 15.0], vec![0.05, 0.3, 1.0, 2.1, 4.0, 25.0 / 3.0, 15.0, 25.0]);
    for (i, &r) in rs.iter().enumerate() {
        for (j, &u) in us.iter().enumerate() {
            let p = (r, u);
            v.push(vec![vec![p], vec![TA[(i + j) % 7]]]);
            v.push(vec![vec![TA[(i + 1) % 7], TA[j % 7]], vec![p, TA[(i + 3) % 7]]]);
            if nmax >= 3 {
                v.push(vec![vec![TA[(i + 2) % 7]], vec![p], vec![TA[(i + 5 + j) % 7]]]);
                v.push(vec![vec![TA[(i + 2) % 7]], vec![p, TA[j % 7]], vec![TA[(i + 5) % 7], TA[(i + 6) % 7]]]);
            }
        }
    }
    for i in 1..=ctx.lvl(60, 200) {
        let u = f64::from(i) * 20.0 / ctx.lvl(60.0, 200.0);
        v.push(vec![vec![TA[i as usize % 7]], vec![(22.5, u)]]);
        v.push(vec![vec![(27.5, u), TA[i as usize % 7]], vec![TA[(i as usize + 2) % 7], TA[0]]]);
        if nmax >= 3 {
            v.push(vec![vec![TA[i as usize % 7]], vec![(22.5, u)], vec![TA[(i as usize + 4) % 7]]]);
        }
    }
    // two single-player teams / three: full enumeration of the alphabet
    for a in TA {
        for b in TA {
            v.push(vec![vec![a], vec![b]]);
            for c in TA {
                v.push(vec![vec![a], vec![b], vec![c]]);
                v.push(vec![vec![a, b], vec![c]]);
                v.push(vec![vec![a, b], vec![c, TA[2]]]);
            }
        }
    }
    v
}
/// Layouts that meet every value of every config field.
pub fn is_rep(t: &[Team]) -> bool {
    use std::sync::OnceLock;
    static R: OnceLock<Vec<Vec<Team>>> = OnceLock::new();
    R.get_or_init(|| {
        let f = |s: &[usize], k: usize| fill(s, k);
        vec![f(&[1, 1], 0), f(&[1, 1], 3), f(&[2, 1], 1), f(&[2, 2], 2), f(&[3, 2], 4), f(&[1, 1, 1], 0), f(&[1, 1, 1], 5), f(&[2, 1, 2], 1), f(&[1, 1, 1, 1], 2), f(&[2, 1, 1, 2], 1)]
    })
    .iter()
    .any(|r| &r[..] == t)
}
/// Bigger lobbies: n teams with `m` players each.
pub fn lobbies(ctx: &Ctx) -> Vec<Vec<Team>> {
    let mut v = vec![];
    for n in ctx.lvl(vec![5, 6, 7, 8, 9, 10, 12, 16, 20], vec![5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 32, 33, 50, 64, 100]) {
        for m in [1usize, 2, 5] {
            if n * m <= 120 {
                for k in 0..3 {
                    v.push(fill(&vec![m; n], k));
                }
            }
        }
    }
    // every combination of two team sizes, uneven teams in bigger matches
    for a in 1..=ctx.lvl(12usize, 24) {
        for b in 1..=ctx.lvl(12usize, 24) {
            v.push(fill(&[a, b], a * 5 + b));
            v.push(fill(&[b, a], a + b * 3 + 1));
        }
    }
    for a in 1..=6usize {
        for b in 1..=6usize {
            for c in ctx.lvl(vec![1usize, 4, 6], vec![1, 2, 3, 4, 5, 6]) {
                v.push(fill(&[a, b, c], a + b + c));
            }
            v.push(fill(&[a, b, 1 + a % 3, 1 + b % 4], a + 2 * b));
            v.push((0..5 + (a + b) % 5).map(|i| fill(&[1 + (i * a + b) % 5], i + a).remove(0)).collect());
        }
    }
    for n in [33usize, 65, 130, 260] {
        v.push(fill(&vec![1; n], n));
        v.push(vec![fill(&[n], 1).remove(0), fill(&[2], 3).remove(0)]);
        v.push(fill(&[2, n, n], 2));
    }
    // many newcomers: so much information that the uncertainties reach their lower limits
    for n in ctx.lvl(vec![12usize, 40], vec![12, 25, 40, 80]) {
        for u in [25.0 / 3.0, 20.0] {
            v.push(vec![vec![(25.0, u)]; n]);
            v.push((0..n).map(|i| vec![(25.0 + (i % 5) as f64, u), (20.0, u)]).collect());
        }
    }
    for (n, m) in [(2usize, 6usize), (2, 8), (2, 11), (2, 16), (3, 10), (4, 9)] {
        for k in 0..4 {
            v.push(fill(&vec![m; n], k));
            let mut s = vec![m; n];
            s[0] = 1;
            v.push(fill(&s, k));
            s[n - 1] = m + 3;
            v.push(fill(&s, k));
        }
    }
    v.extend(one_sided(ctx));
    v
}
/// Lobbies beyond the sizes at which sorting and summation algorithms change (20, 32, 64 elements).
pub fn big_lobbies(ctx: &Ctx) -> Vec<Vec<Team>> {
    let mut v = vec![];
    for n in ctx.lvl(vec![21usize, 24, 33, 50, 65], vec![21, 22, 23, 24, 25, 30, 31, 33, 40, 48, 51, 63, 65, 80, 120, 129]) {
        for k in 0..2 {
            v.push(fill(&vec![1; n], k));
        }
        let s: Vec<usize> = (0..n).map(|i| 1 + i % 2).collect();
        v.push(fill(&s, 2));
    }
    v
}
/// Lobbies in which one team is far better or worse than all others, at every position that matters.
pub fn one_sided(ctx: &Ctx) -> Vec<Vec<Team>> {
    let mut v = vec![];
    for n in ctx.lvl(vec![3usize, 4, 5, 8, 9, 11, 13, 15, 17, 21, 33, 70], (3..=24).chain([31, 32, 33, 50, 64, 65, 70, 100, 130]).collect()) {
        for (k, d) in [-35.0, 20.0, 45.0, 80.0, 150.0].into_iter().enumerate() {
            for pos in [0, n / 2, n - 1] {
                let mut t = fill(&(0..n).map(|i| 1 + usize::from(k == 1 && i % 2 == 1)).collect::<Vec<_>>(), k + n);
                t[pos][0].0 = 25.0 + d;
                v.push(t);
            }
        }
    }
    v
}
/// A few rankings for any number of teams.
pub fn some_ranks(n: usize) -> Vec<Vec<usize>> {
    if n <= 4 {
        let mut v = weak_orders(n);
        v.push((0..n).map(|i| i * i * 600_001).collect());
        v.push((0..n).map(|i| 3_000_000_000 - (i % 3) * 700_000_000).collect());
        return v;
    }
    vec![
        (1..=n).collect(),
        (1..=n).rev().collect(),
        (0..n).map(|i| 1 + (i * 7 + 3) % n).collect(),
        (0..n).map(|i| 1 + (i / 2)).collect(),
        (0..n).map(|i| 1 + (i % 3)).collect(),
        vec![4; n],
        (0..n).map(|i| usize::from(i == n / 2)).collect(),
        (0..n).map(|i| usize::from(i != n / 2)).collect(),
        (0..n).map(|i| 100_000 - i * i).collect(),
    ]
}
