"""Planted bugs: edits (file under src, old text, new text), a demonstration, and what it needs to manifest."""
SEEDS = []
def seed(id, property, edits, needs, breaks, demo, serde=False):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, serde=serde))

seed('ts-two-team-clamped-odds', 'C01', [('trueskill/mod.rs',
'''    let denom = (uncertainty_two_sum
        + player_count.mul_add(config.beta.powi(2), uncertainty_one_sum))
    .sqrt();

    let exp_one = cdf(delta / denom, 0.0, 1.0);''',
'''    let denom = (uncertainty_two_sum
        + player_count.mul_add(config.beta.powi(2), uncertainty_one_sum))
    .sqrt();

    let exp_one = cdf((delta / denom).max(-3.0), 0.0, 1.0);''')],
'a two-team prediction for a first team that is more than three standard deviations weaker',
'the expected scores do not swap when the teams are swapped',
'''
use skillratings::trueskill::*;
fn main() {
    let c = TrueSkillConfig::new();
    let a = vec![TrueSkillRating { rating: 5.0, uncertainty: 1.0 }; 3];
    let b = vec![TrueSkillRating { rating: 45.0, uncertainty: 1.0 }; 3];
    let (x1, x2) = expected_score_two_teams(&a, &b, &c);
    let (y1, y2) = expected_score_two_teams(&b, &a, &c);
    assert!((x1 - y2).abs() < 1e-9 && (x2 - y1).abs() < 1e-9, "{x1} {x2} / {y1} {y2}");
}
''')

seed('egf-half-stones', 'C01', [('egf.rs',
'''    let (h1, h2) = if config.handicap.is_sign_negative() {
        (config.handicap.abs(), 0.0)''',
'''    let (h1, h2) = if config.handicap.is_sign_negative() {
        (config.handicap.abs().floor(), 0.0)''')],
'a fractional handicap (e.g. a small-board conversion of 2.5 stones) given to the first player',
'the expected scores do not swap when the players are swapped and the handicap is reversed',
'''
use skillratings::egf::*;
fn main() {
    let a = EGFRating { rating: 1900.0 };
    let b = EGFRating { rating: 2150.0 };
    for h in [0.0, 1.0, 2.5, 3.0, 6.5] {
        let (x1, x2) = expected_score(&a, &b, &EGFConfig { handicap: h });
        let (y1, y2) = expected_score(&b, &a, &EGFConfig { handicap: -h });
        assert!((x1 - y2).abs() < 1e-9 && (x2 - y1).abs() < 1e-9, "{h}: {x1} {x2} / {y1} {y2}");
    }
}
''')

seed('sticko-period-black', 'C02', [('sticko.rs',
'''            let gamma = if o.1 { config.gamma } else { -config.gamma };''',
'''            let gamma = if o.1 { config.gamma } else { 0.0 };''')],
'a period prediction with an opponent played without the advantage',
'the period prediction differs from the head-to-head prediction',
'''
use skillratings::sticko::*;
fn main() {
    let c = StickoConfig { gamma: 30.0, ..Default::default() };
    let rev = StickoConfig { gamma: -30.0, ..Default::default() };
    let p = StickoRating { rating: 1500.0, deviation: 80.0 };
    let o = StickoRating { rating: 1580.0, deviation: 120.0 };
    let e = expected_score_rating_period(&p, &[(o, true), (o, false)], &c);
    assert!((e[0] - expected_score(&p, &o, &c).0).abs() < 1e-9);
    assert!((e[1] - expected_score(&p, &o, &rev).0).abs() < 1e-9, "{e:?}");
}
''')

seed('dwz-period-clamp', 'C02', [('dwz.rs',
'''        .map(|o| (1.0 + 10.0_f64.powf(-(400.0_f64.recip()) * (player.rating - o.rating))).recip())''',
'''        .map(|o| {
            let difference = (player.rating - o.rating).clamp(-735.0, 735.0);
            (1.0 + 10.0_f64.powf(-(400.0_f64.recip()) * difference)).recip()
        })''')],
'an opponent that is more than 735 points away',
'the period prediction differs from the head-to-head prediction',
'''
use skillratings::dwz::*;
fn main() {
    let p = DWZRating { rating: 2300.0, index: 20, age: 30 };
    let os: Vec<DWZRating> = (0..24).map(|i| DWZRating { rating: 600.0 + 100.0 * i as f64, index: 3, age: 40 }).collect();
    for (o, e) in os.iter().zip(expected_score_rating_period(&p, &os)) {
        assert!((e - expected_score(&p, o).0).abs() < 1e-9, "{o:?} {e}");
    }
}
''')

seed('uscf-perfect-no-bonus', 'C03', [('uscf.rs',
'''    if tm >= kse {
        0.0''',
'''    if tm >= kse || (score - played_games as f64).abs() < f64::EPSILON {
        0.0''')],
'an established player with a perfect score over at least three games',
'winning the last game instead of drawing it lowers the new rating',
'''
use skillratings::{uscf::*, Outcomes};
fn main() {
    let p = USCFRating { rating: 1500.0, games: 40 };
    let o = USCFRating { rating: 1700.0, games: 50 };
    let mut l = vec![(o, Outcomes::WIN); 5];
    let all = uscf_rating_period(&p, &l, &USCFConfig::new());
    l[4].1 = Outcomes::DRAW;
    let one_draw = uscf_rating_period(&p, &l, &USCFConfig::new());
    assert!(all.rating >= one_draw.rating, "{all:?} {one_draw:?}");
}
''')

seed('weng-draw-margin', 'C27', [('weng_lin.rs',
'''            let score = match rank_two.cmp(rank_one) {
                Ordering::Greater => 1.0,''',
'''            let score = match rank_two.cmp(rank_one) {
                Ordering::Greater if p < 0.01 => 0.5,
                Ordering::Greater => 1.0,''')],
'a many-team upset with less than one percent probability',
'the winner of a big upset is rated like a draw, so the team behind it is no longer behind and the two-team form disagrees',
'''
use skillratings::{weng_lin::*, MultiTeamOutcome};
fn main() {
    let c = WengLinConfig::new();
    let a = vec![WengLinRating { rating: 2.0, uncertainty: 2.0 }];
    let b = vec![WengLinRating { rating: 45.0, uncertainty: 2.0 }];
    let f = |x: usize, y: usize| weng_lin_multi_team(&[(&a[..], MultiTeamOutcome::new(x)), (&b[..], MultiTeamOutcome::new(y))], &c)[0][0].rating;
    let (win, draw) = (f(1, 2), f(1, 1));
    assert!(win > draw + 1e-6, "{win} {draw}");
}
''')

seed('uscf-second-player-provisional', 'C04', [('uscf.rs',
'''    let new_rating2 = if player_two.games <= 8 {''',
'''    let new_rating2 = if player_two.games < 8 {''')],
'a second player with exactly eight games',
'swapping the two players changes the new ratings',
'''
use skillratings::{uscf::*, Outcomes};
fn main() {
    for g in 0..20 {
        let a = USCFRating { rating: 1500.0, games: g };
        let b = USCFRating { rating: 1640.0, games: 20 };
        let x = uscf(&a, &b, &Outcomes::WIN, &USCFConfig::new());
        let y = uscf(&b, &a, &Outcomes::LOSS, &USCFConfig::new());
        assert!((x.0.rating - y.1.rating).abs() < 1e-9 && (x.1.rating - y.0.rating).abs() < 1e-9, "{g} {x:?} {y:?}");
    }
}
''')

seed('elo-period-800-rule', 'C05', [('elo.rs',
'''        let exp = (1.0 + 10_f64.powf((opponent.rating - player_rating) / 400.0)).recip();

        let outcome''',
'''        let difference = (opponent.rating - player_rating).clamp(-800.0, 800.0);
        let exp = (1.0 + 10_f64.powf(difference / 400.0)).recip();

        let outcome''')],
'an opponent more than 800 points away in a rating period',
'the rating period differs from playing the match head to head',
'''
use skillratings::{elo::*, Outcomes};
fn main() {
    let p = EloRating { rating: 1200.0 };
    let o = EloRating { rating: 2400.0 };
    let c = EloConfig::new();
    let rp = elo_rating_period(&p, &[(o, Outcomes::WIN)], &c);
    let s = elo(&p, &o, &Outcomes::WIN, &c).0;
    assert!((rp.rating - s.rating).abs() < 1e-9, "{rp:?} {s:?}");
}
''')

seed('glicko2-take', 'C06', [('glicko2.rs',
'''    let v = results
        .iter()
        .map(|r| {''',
'''    let v = results
        .iter()
        .take(24)
        .map(|r| {''')],
'a rating period with more than 24 results against different opponents',
'the estimated variance only sees the first 24 results, so the order of results matters',
'''
use skillratings::{glicko2::*, Outcomes};
fn main() {
    let p = Glicko2Rating { rating: 1500.0, deviation: 120.0, volatility: 0.06 };
    let mut l: Vec<(Glicko2Rating, Outcomes)> = (0..40)
        .map(|i| (Glicko2Rating { rating: 1000.0 + 25.0 * i as f64, deviation: 40.0 + 5.0 * i as f64, volatility: 0.06 },
            if i % 3 == 0 { Outcomes::LOSS } else { Outcomes::WIN }))
        .collect();
    let c = Glicko2Config::new();
    let x = glicko2_rating_period(&p, &l, &c);
    l.reverse();
    let y = glicko2_rating_period(&p, &l, &c);
    assert!((x.rating - y.rating).abs() < 1e-4 && (x.deviation - y.deviation).abs() < 1e-4, "{x:?} {y:?}");
}
''')

seed('egf-period-running-floor', 'C06', [('egf.rs',
'''        rating_change += new_rating(player.rating, con, outcome, exp1, bonus) - player.rating;''',
'''        rating_change += new_rating(player.rating, con, outcome, exp1, bonus) - player.rating;
        rating_change = rating_change.max(-900.0 - player.rating);''')],
'a player within one game of the rating floor who both wins and loses in a period',
'losses are forgotten at the floor if they come first, so the order of results matters',
'''
use skillratings::{egf::*, Outcomes};
fn main() {
    let p = EGFRating { rating: -850.0 };
    let o = EGFRating { rating: -1500.0 + 700.0 };
    let c = EGFConfig::new();
    let mut l = vec![(o, Outcomes::LOSS, c), (o, Outcomes::LOSS, c), (o, Outcomes::LOSS, c), (o, Outcomes::WIN, c), (o, Outcomes::WIN, c)];
    let x = egf_rating_period(&p, &l);
    l.reverse();
    let y = egf_rating_period(&p, &l);
    assert!((x.rating - y.rating).abs() < 1e-6, "{x:?} {y:?}");
}
''')

seed('sticko-decay-cap', 'C07', [('sticko.rs',
'''pub fn decay_deviation(player: &StickoRating, config: &StickoConfig) -> StickoRating {
    let new_player_deviation = player.deviation.hypot(config.c).min(350.0);''',
'''pub fn decay_deviation(player: &StickoRating, config: &StickoConfig) -> StickoRating {
    let new_player_deviation = player.deviation.hypot(config.c.min(80.0)).min(350.0);''')],
'a decay constant above 80',
'a larger decay constant no longer decays more, idle periods do not add up',
'''
use skillratings::sticko::*;
fn main() {
    let p = StickoRating { rating: 1500.0, deviation: 50.0 };
    for c in [5.0, 20.0, 63.2, 90.0, 120.0] {
        let d = decay_deviation(&p, &StickoConfig { c, ..Default::default() });
        assert!((d.deviation.powi(2) - p.deviation.powi(2) - c * c).abs() < 1e-6, "{c} {d:?}");
    }
}
''')

seed('weng-tolerance-absolute', 'C08', [('weng_lin.rs',
'''    (player_uncertainty.powi(2) * (1.0 - eta).max(uncertainty_tolerance)).sqrt()''',
'''    (player_uncertainty.powi(2) * (1.0 - eta)).max(uncertainty_tolerance).sqrt()''')],
'an uncertainty whose square is below the tolerance',
'playing a match makes the player less certain than before',
'''
use skillratings::{weng_lin::*, Outcomes};
fn main() {
    let c = WengLinConfig { uncertainty_tolerance: 0.01, ..Default::default() };
    let a = WengLinRating { rating: 25.0, uncertainty: 0.05 };
    let (x, _) = weng_lin(&a, &a, &Outcomes::WIN, &c);
    assert!(x.uncertainty <= a.uncertainty, "{x:?}");
}
''')

seed('ts-w-draw-guard', 'C08', [('trueskill/math.rs',
'''pub fn w_draw(difference: f64, draw_margin: f64, c: f64) -> f64 {
    let diff_c = difference / c;
    let draw_c = draw_margin / c;
    let diff_c_abs = diff_c.abs();

    let norm = cdf(draw_c - diff_c_abs, 0.0, 1.0) - cdf(-draw_c - diff_c_abs, 0.0, 1.0);

    if norm < 2.222_758_749e-162 {''',
'''pub fn w_draw(difference: f64, draw_margin: f64, c: f64) -> f64 {
    let diff_c = difference / c;
    let draw_c = draw_margin / c;
    let diff_c_abs = diff_c.abs();

    let norm = cdf(draw_c - diff_c_abs, 0.0, 1.0) - cdf(-draw_c - diff_c_abs, 0.0, 1.0);

    if norm <= 0.0 {''')],
'a draw between players about 28 to 38 standard deviations apart',
'v and w disagree, so the variance factor leaves (0, 1] and the uncertainty explodes or collapses',
'''
use skillratings::{trueskill::*, Outcomes};
fn main() {
    let c = TrueSkillConfig { dynamics_factor: 0.0, ..Default::default() };
    for i in 0..2000 {
        let a = TrueSkillRating { rating: 25.0, uncertainty: 3.0 };
        let b = TrueSkillRating { rating: 25.0 + i as f64 * 0.2, uncertainty: 1.0 };
        let (x, y) = trueskill(&a, &b, &Outcomes::DRAW, &c);
        assert!(x.uncertainty <= a.uncertainty + 1e-9 && y.uncertainty <= b.uncertainty + 1e-9, "{a:?} {b:?} {x:?} {y:?}");
        assert!(x.uncertainty > 1.0, "{a:?} {b:?} {x:?} {y:?}");
    }
}
''')

seed('fifa-knockout-shootout', 'C10', [('fifa.rs',
'''    if config.knockout && player_two.rating > new_rating2 {''',
'''    if config.knockout && !config.penalties && player_two.rating > new_rating2 {''')],
'a knock-out match decided on penalties with the favourite listed second',
'a team loses points in a knock-out match',
'''
use skillratings::{fifa::*, Outcomes};
fn main() {
    let c = FifaConfig { importance: 50.0, knockout: true, penalties: true };
    let a = FifaRating { rating: 1200.0 };
    let b = FifaRating { rating: 1500.0 };
    for o in [Outcomes::WIN, Outcomes::LOSS] {
        let (x, y) = fifa(&a, &b, &o, &c);
        assert!(x.rating >= a.rating && y.rating >= b.rating, "{x:?} {y:?}");
    }
}
''')

seed('elo-floor', 'C11', [('elo.rs',
'''    let one_new_elo = config.k.mul_add(outcome1 - one_expected, player_one.rating);
    let two_new_elo = config.k.mul_add(outcome2 - two_expected, player_two.rating);''',
'''    let one_new_elo = config.k.mul_add(outcome1 - one_expected, player_one.rating).max(100.0);
    let two_new_elo = config.k.mul_add(outcome2 - two_expected, player_two.rating).max(100.0);''')],
'a player close to 100 who loses points',
'points appear out of nothing: the total rating of a closed league grows',
'''
use skillratings::{elo::*, Outcomes};
fn main() {
    let a = EloRating { rating: 110.0 };
    let b = EloRating { rating: 160.0 };
    let (x, y) = elo(&a, &b, &Outcomes::LOSS, &EloConfig::new());
    assert!((x.rating + y.rating - 270.0).abs() < 1e-9, "{x:?} {y:?}");
}
''')

seed('weng-rank-truncation', 'C12', [('weng_lin.rs',
'''            let score = match rank_two.cmp(rank_one) {''',
'''            let score = match (rank_two.rank() as u32).cmp(&(rank_one.rank() as u32)) {''')],
'rank numbers beyond 32 bits (e.g. finishing times in nanoseconds)',
'ranks are truncated, so their order changes',
'''
use skillratings::{weng_lin::*, MultiTeamOutcome};
fn main() {
    let c = WengLinConfig::new();
    let a = vec![WengLinRating::new()];
    let f = |x: usize, y: usize| weng_lin_multi_team(&[(&a[..], MultiTeamOutcome::new(x)), (&a[..], MultiTeamOutcome::new(y))], &c);
    assert_eq!(f(1, 2), f(90_000_000_000, 91_000_000_001));
    assert_eq!(f(1, 2), f(1, 1 << 32));
    assert_eq!(f(1, 2), f(5, usize::MAX));
}
''')

seed('ts-unstable-sort', 'C12', [('trueskill/mod.rs',
'''    sorted_teams_and_ranks_with_pos.sort_by_key(|v| v.1 .1);''',
'''    sorted_teams_and_ranks_with_pos.sort_unstable_by_key(|v| v.1 .1);''')],
'more than twenty teams with ties',
'tied teams are compared in an arbitrary order, so permuting other teams changes the results',
'''
use skillratings::{trueskill::*, MultiTeamOutcome};
fn main() {
    let c = TrueSkillConfig::new();
    let n = 80;
    let t: Vec<Vec<TrueSkillRating>> = (0..n).map(|i| vec![TrueSkillRating { rating: 15.0 + 0.7 * i as f64, uncertainty: 1.0 + 0.2 * i as f64 }]).collect();
    let rank = |i: usize| MultiTeamOutcome::new((i * 7) % 3);
    let x = trueskill_multi_team(&(0..n).map(|i| (&t[i][..], rank(i))).collect::<Vec<_>>(), &c, None).unwrap();
    // Move the teams of rank 0 to the front: tied teams keep their order.
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|&i| rank(i));
    let y = trueskill_multi_team(&order.iter().map(|&i| (&t[i][..], rank(i))).collect::<Vec<_>>(), &c, None).unwrap();
    for (k, &i) in order.iter().enumerate() {
        assert!((x[i][0].rating - y[k][0].rating).abs() < 1e-9, "{i}");
    }
}
''')

seed('ts-multi-expected-size', 'C13', [('trueskill/mod.rs',
'''            let delta = team_one_ratings - team_two_ratings;
            let denom = (team_two_uncertainties
                + player_count.mul_add(config.beta.powi(2), team_one_uncertainties))
            .sqrt();''',
'''            let delta = team_one_ratings - team_two_ratings;
            let player_count = if teams.len() == 2 {
                (2 * team_one.len()) as f64
            } else {
                player_count
            };
            let denom = (team_two_uncertainties
                + player_count.mul_add(config.beta.powi(2), team_one_uncertainties))
            .sqrt();''')],
'a two-team prediction through the many-team form with teams of different size',
'the many-team prediction differs from the two-team prediction',
'''
use skillratings::trueskill::*;
fn main() {
    let c = TrueSkillConfig::new();
    let a = vec![TrueSkillRating { rating: 12.0, uncertainty: 2.0 }; 3];
    let b = vec![TrueSkillRating { rating: 32.0, uncertainty: 3.0 }; 1];
    let (x, y) = expected_score_two_teams(&a, &b, &c);
    let m = expected_score_multi_team(&[&a[..], &b[..]], &c);
    assert!((x - m[0]).abs() < 1e-6 && (y - m[1]).abs() < 1e-6, "{x} {y} {m:?}");
}
''')

seed('egf-trait-no-handicap', 'C14', [('egf.rs',
'''            opponents.iter().map(|o| (*o, self.config)).collect();''',
'''            opponents.iter().map(|o| (*o, EGFConfig::new())).collect();''')],
'a period prediction through the generic interface with a handicap configured',
'the generic interface ignores the configured handicap',
'''
use skillratings::{egf::*, RatingPeriodSystem};
fn main() {
    let cfg = EGFConfig { handicap: 3.0 };
    let s: EGF = RatingPeriodSystem::new(cfg);
    let p = EGFRating { rating: 1800.0 };
    let o = EGFRating { rating: 2000.0 };
    let x = RatingPeriodSystem::expected_score(&s, &p, &[o]);
    let y = expected_score_rating_period(&p, &[(o, cfg)]);
    assert!((x[0] - y[0]).abs() < 1e-12, "{x:?} {y:?}");
}
''')

seed('fifa-trait-knockout', 'C14', [('fifa.rs',
'''            results.iter().map(|r| (r.0, r.1, self.config)).collect();''',
'''            results
                .iter()
                .map(|r| {
                    (
                        r.0,
                        r.1,
                        FifaConfig {
                            penalties: self.config.penalties && r.1 == Outcomes::WIN,
                            ..self.config
                        },
                    )
                })
                .collect();''')],
'a lost penalty shoot-out rated through the generic rating-period interface',
'the generic interface rates a shoot-out loss as a regular loss',
'''
use skillratings::{fifa::*, Outcomes, RatingPeriodSystem};
fn main() {
    let cfg = FifaConfig { importance: 25.0, knockout: false, penalties: true };
    let s: Fifa = RatingPeriodSystem::new(cfg);
    let p = FifaRating { rating: 1300.0 };
    let o = FifaRating { rating: 1250.0 };
    for r in [Outcomes::WIN, Outcomes::LOSS] {
        let x = RatingPeriodSystem::rate(&s, &p, &[(o, r)]);
        let y = fifa_rating_period(&p, &[(o, r, cfg)]);
        assert!((x.rating - y.rating).abs() < 1e-12, "{x:?} {y:?}");
    }
}
''')

seed('uscf-elo-seam', 'C15', [('elo.rs',
'''        if u.rating > 2060.0 {''',
'''        if u.rating > 2000.0 {''')],
'a USCF rating between 2000 and 2060',
'converting to USCF and back does not return the original Elo rating',
'''
use skillratings::{elo::EloRating, uscf::USCFRating};
fn main() {
    for i in 0..300 {
        let e = EloRating { rating: i as f64 * 10.0 };
        let b = EloRating::from(USCFRating::from(e));
        assert!((e.rating - b.rating).abs() < 1e-6, "{e:?} {b:?}");
    }
}
''')

seed('ts-weight-error-order', 'C17', [('trueskill/weights.rs',
'''            if team.len() != teams[i].len() {
                return Err(WeightError::PlayerAmount { team: i });
            }

            for''',
'''            if team.len() != teams[i].len() {
                return Err(WeightError::PlayerAmount { team: i });
            }
        }

        for (i, team) in weights.iter().enumerate() {
            for''')],
'weights that are wrong in two ways: a negative weight in an earlier team, a wrong count in a later team',
'the error does not name the first offending team',
'''
use skillratings::{trueskill::*, MultiTeamOutcome};
fn main() {
    let c = TrueSkillConfig::new();
    let t = vec![TrueSkillRating::new(); 2];
    let w: [&[f64]; 2] = [&[1.0, -1.0], &[1.0]];
    let e = trueskill_multi_team(&[(&t[..], MultiTeamOutcome::new(1)), (&t[..], MultiTeamOutcome::new(2))], &c, Some(&w)).unwrap_err();
    let s = format!("{e}");
    assert!(s.contains("player 1 in team 0"), "{s}");
}
''')

seed('ts-quality-team-size', 'C18', [('trueskill/mod.rs',
'''    let a = ((total_players * config.beta.powi(2))
        / (total_players''',
'''    let a = ((2.0 * team_one.len() as f64 * config.beta.powi(2))
        / (total_players''')],
'two teams of different size',
'the match quality is not symmetric and can exceed 1',
'''
use skillratings::trueskill::*;
fn main() {
    let c = TrueSkillConfig::new();
    let a = vec![TrueSkillRating { rating: 10.0, uncertainty: 2.0 }; 3];
    let b = vec![TrueSkillRating { rating: 30.0, uncertainty: 2.0 }; 1];
    let x = match_quality_two_teams(&a, &b, &c);
    let y = match_quality_two_teams(&b, &a, &c);
    assert!((x - y).abs() < 1e-9 && x <= 1.0, "{x} {y}");
}
''')

seed('dwz-table-typo', 'C19', [('dwz.rs',
'''        (13, -312.),''',
'''        (13, -321.),''')],
'a score of 13 % or 87 % (e.g. 1 of 8 or 7 of 8)',
'the first DWZ does not follow the table',
'''
use skillratings::{dwz::*, Outcomes};
fn main() {
    let o = DWZRating { rating: 1600.0, index: 10, age: 30 };
    let mut l = vec![(o, Outcomes::LOSS); 7];
    l.push((o, Outcomes::WIN));
    let d = get_first_dwz(30, &l).unwrap();
    assert!((d.rating - 1288.0).abs() < 1e-9, "{d:?}");
}
''')

seed('dwz-first-all-draws', 'C19', [('dwz.rs',
'''    let p = ((points / results.len() as f64) * 100.0).round() as i64;''',
'''    let p = ((points / results.len() as f64) * 100.0).ceil() as i64;''')],
'a percentage that is not a whole number and would be rounded down',
'the first DWZ does not follow the table and the table is no longer antisymmetric around 50 %',
'''
use skillratings::{dwz::*, Outcomes};
fn main() {
    let o = DWZRating { rating: 1600.0, index: 10, age: 30 };
    for n in 5..15 {
        for w in 1..n {
            let l = |w: usize| (0..n).map(|i| (o, if i < w { Outcomes::WIN } else { Outcomes::LOSS })).collect::<Vec<_>>();
            // x.5 percent are rounded away from zero on both sides
            if (w * 200) % n == 0 && (w * 200 / n) % 2 == 1 { continue; }
            let a = get_first_dwz(30, &l(w)).unwrap().rating - 1600.0;
            let b = get_first_dwz(30, &l(n - w)).unwrap().rating - 1600.0;
            assert!((a + b).abs() < 1e-9, "{w}/{n}: {a} {b}");
        }
    }
}
''')

seed('serde-skip-tolerance', 'C21', [('weng_lin.rs',
'''    pub uncertainty_tolerance: f64,
}''',
'''    #[cfg_attr(feature = "serde", serde(skip, default))]
    pub uncertainty_tolerance: f64,
}''')],
'a stored configuration with its own tolerance',
'the tolerance is lost when a configuration is stored and loaded',
'''
use skillratings::weng_lin::*;
fn main() {
    let c = WengLinConfig { beta: 3.0, uncertainty_tolerance: 0.25 };
    let s = serde_json::to_string(&c).unwrap();
    let d: WengLinConfig = serde_json::from_str(&s).unwrap();
    assert!(d.beta == c.beta && d.uncertainty_tolerance == c.uncertainty_tolerance, "{s}");
}
''', serde=True)

seed('ts-draw-margin-cache', 'C22', [('trueskill/mod.rs',
'''    inverse_cdf(f64::midpoint(draw_probability, 1.0), 0.0, 1.0) * total_players.sqrt() * beta
}''',
'''    thread_local! {
        static LAST: std::cell::Cell<(f64, f64, f64)> = const { std::cell::Cell::new((-1.0, 0.0, 0.0)) };
    }

    // The inverse is expensive, so the last margin is kept.
    LAST.with(|last| {
        let (probability, players, margin) = last.get();
        if probability == draw_probability && players == total_players {
            return margin;
        }

        let margin =
            inverse_cdf(f64::midpoint(draw_probability, 1.0), 0.0, 1.0) * total_players.sqrt() * beta;
        last.set((draw_probability, total_players, margin));
        margin
    })
}''')],
'two consecutive calls with different beta and the same draw probability on one thread',
'the result depends on the previous call',
'''
use skillratings::{trueskill::*, Outcomes};
fn main() {
    let a = TrueSkillRating { rating: 25.0, uncertainty: 4.0 };
    let b = TrueSkillRating { rating: 28.0, uncertainty: 3.0 };
    let c1 = TrueSkillConfig { beta: 2.0, ..Default::default() };
    let c2 = TrueSkillConfig { beta: 8.0, ..Default::default() };
    let x = trueskill(&a, &b, &Outcomes::DRAW, &c1);
    let _ = trueskill_two_teams(&[a, a], &[b, b], &Outcomes::WIN, &c2);
    let _ = trueskill(&a, &b, &Outcomes::WIN, &c2);
    let y = trueskill(&a, &b, &Outcomes::DRAW, &c1);
    assert_eq!(x, y);
}
''')

seed('glicko2-negative-ratings', 'C23', [('glicko2.rs',
'''    let player_rating = (player.rating - 1500.0) / 173.7178;
    let player_deviation = player.deviation / 173.7178;''',
'''    let player_rating = (player.rating.max(0.0) - 1500.0) / 173.7178;
    let player_deviation = player.deviation / 173.7178;''')],
'a leaderboard whose ratings are shifted below zero',
'adding the same constant to all ratings changes more than that constant',
'''
use skillratings::{glicko2::*, Outcomes};
fn main() {
    let f = |s: f64| glicko2_rating_period(&Glicko2Rating { rating: 1500.0 + s, deviation: 200.0, volatility: 0.06 },
        &[(Glicko2Rating { rating: 1400.0 + s, deviation: 30.0, volatility: 0.06 }, Outcomes::WIN)], &Glicko2Config::new()).rating - s;
    assert!((f(0.0) - f(-1600.0)).abs() < 1e-6, "{} {}", f(0.0), f(-1600.0));
}
''')

seed('fifa-shootout-draw', 'C24', [('fifa.rs',
'''        let outcome = if config.penalties {
            if result == &Outcomes::WIN {
                0.75
            } else {
                0.5
            }''',
'''        let outcome = if config.penalties {
            if result == &Outcomes::LOSS {
                0.5
            } else {
                0.75
            }''')],
'a draw entered with the penalties flag in a rating period',
'a draw is credited like a shoot-out win',
'''
use skillratings::{fifa::*, Outcomes};
fn main() {
    let cfg = FifaConfig { importance: 25.0, knockout: false, penalties: true };
    let p = FifaRating { rating: 1300.0 };
    let o = FifaRating { rating: 1250.0 };
    let x = fifa_rating_period(&p, &[(o, Outcomes::DRAW, cfg)]);
    let y = fifa(&p, &o, &Outcomes::DRAW, &cfg).0;
    assert!((x.rating - y.rating).abs() < 1e-9, "{x:?} {y:?}");
}
''')

seed('uscf-effective-games', 'C25', [('uscf.rs',
'''    if rating < 2355.0 {''',
'''    if rating < 2200.0 {''')],
'an established player rated between 2200 and 2355 with many games',
'masters are rated with the wrong effective number of games',
'''
use skillratings::{uscf::*, Outcomes};
fn main() {
    let p = USCFRating { rating: 2250.0, games: 60 };
    let o = USCFRating { rating: 2250.0, games: 60 };
    let x = uscf(&p, &o, &Outcomes::WIN, &USCFConfig::new()).0;
    let ne = 50.0 / (0.662 + 0.00000739 * (2569.0f64 - 2250.0).powi(2)).sqrt();
    assert!((x.rating - 2250.0 - 800.0 / (ne.min(50.0) + 1.0) * 0.5).abs() < 1e-9, "{x:?}");
}
''')

seed('dwz-adult-brake', 'C25', [('dwz.rs',
'''    let a = if age < 20 && score >= expected_score {''',
'''    let a = if age <= 20 && score >= expected_score {''')],
'an over-achieving player who is exactly 20 years old',
'the acceleration is applied one year too long',
'''
use skillratings::{dwz::*, Outcomes};
fn main() {
    let p = DWZRating { rating: 1800.0, index: 30, age: 20 };
    let o = DWZRating { rating: 1800.0, index: 30, age: 40 };
    let x = dwz(&p, &o, &Outcomes::WIN).0;
    let e = 1.8f64.powi(4) + 5.0;
    assert!((x.rating - 1800.0 - 800.0 / (e + 1.0) * 0.5).abs() < 1e-9, "{x:?}");
}
''')

seed('boost-capped', 'C26', [('glicko_boost.rs',
'''    (z - config.k)
        .mul_add(config.b.0, 1.0)''',
'''    (z - config.k)
        .min(2.0)
        .mul_add(config.b.0, 1.0)''')],
'an exceptional performance more than two units above the threshold',
'the boost is smaller than in the published formula',
'''
use skillratings::{glicko_boost::*, Outcomes};
fn main() {
    let c = GlickoBoostConfig { eta: 0.0, k: 1.0, b: (0.2, 17.5), alpha: (-1e9, 0.0, 0.0, 0.0, 0.0) };
    let a = GlickoBoostRating { rating: 1500.0, deviation: 80.0 };
    let b = GlickoBoostRating { rating: 2300.0, deviation: 30.0 };
    let (x, _) = glicko_boost(&a, &b, &Outcomes::WIN, &c);
    let q = 10f64.ln() / 400.0;
    let g = 1.0 / (1.0 + 3.0 * q * q * 900.0 / std::f64::consts::PI.powi(2)).sqrt();
    let e = 1.0 / (1.0 + 10f64.powf(-g * -800.0 / 400.0));
    let z = g * (1.0 - e) / (g * g * e * (1.0 - e)).sqrt();
    let id = q * q * g * g * e * (1.0 - e);
    let after = (1.0 / (1.0 / 6400.0 + id)).sqrt();
    let pre = (1.0 + (z - 1.0) * 0.2) * after + 17.5;
    let dev = (1.0 / (1.0 / (pre * pre) + id)).sqrt();
    assert!((x.deviation - dev).abs() < 1e-6, "{x:?} {dev}");
}
''')

seed('weng-partial-pairs', 'C27', [('weng_lin.rs',
'''            if i == q {
                continue;
            }

            let c = 2.0f64''',
'''            // Teams that are far apart in the list barely influence each other.
            if i == q || i.abs_diff(q) > 6 {
                continue;
            }

            let c = 2.0f64''')],
'a match with more than seven teams',
'not every pair of teams is compared',
'''
use skillratings::{weng_lin::*, MultiTeamOutcome, Outcomes};
fn main() {
    let c = WengLinConfig::new();
    let n = 9;
    let t: Vec<Vec<WengLinRating>> = (0..n).map(|i| vec![WengLinRating { rating: 20.0 + i as f64, uncertainty: 3.0 }]).collect();
    let m = weng_lin_multi_team(&(0..n).map(|i| (&t[i][..], MultiTeamOutcome::new(i))).collect::<Vec<_>>(), &c);
    let mut sum = 0.0;
    for j in 1..n {
        sum += weng_lin_two_teams(&t[0], &t[j], &Outcomes::WIN, &c).0[0].rating - t[0][0].rating;
    }
    assert!((m[0][0].rating - t[0][0].rating - sum).abs() < 1e-9, "{} {}", m[0][0].rating - t[0][0].rating, sum);
}
''')

seed('sticko-second-player-limit', 'C04', [('sticko.rs',
'''    let player_two_pre_deviation = player_two.deviation.hypot(config.c).min(350.0);''',
'''    let player_two_pre_deviation = player_two.deviation.hypot(config.c);''')],
'a second player whose deviation plus c exceeds 350',
'the second player of a match is treated differently from the first',
'''
use skillratings::{sticko::*, Outcomes};
fn main() {
    let c = StickoConfig { c: 63.2, gamma: 0.0, ..Default::default() };
    let a = StickoRating { rating: 1500.0, deviation: 345.0 };
    let b = StickoRating { rating: 1900.0, deviation: 60.0 };
    let x = sticko(&a, &b, &Outcomes::WIN, &c);
    let y = sticko(&b, &a, &Outcomes::LOSS, &c);
    assert!((x.0.rating - y.1.rating).abs() < 1e-9 && (x.0.deviation - y.1.deviation).abs() < 1e-9, "{x:?} {y:?}");
}
''')

seed('dwz-second-player-index', 'C04', [('dwz.rs',
'''            outcome2,
            exp2,
            player_two.index,''',
'''            outcome2,
            exp2,
            player_one.index,''')],
'players with different, low tournament counts',
'the second player of a match is rated with the first player\'s tournament count',
'''
use skillratings::{dwz::*, Outcomes};
fn main() {
    let a = DWZRating { rating: 1800.0, index: 2, age: 30 };
    let b = DWZRating { rating: 1700.0, index: 25, age: 30 };
    let x = dwz(&a, &b, &Outcomes::WIN);
    let y = dwz(&b, &a, &Outcomes::LOSS);
    assert!((x.0.rating - y.1.rating).abs() < 1e-9 && (x.1.rating - y.0.rating).abs() < 1e-9, "{x:?} {y:?}");
}
''')

seed('uscf-period-provisional-end', 'C25', [('uscf.rs',
'''    if player.games <= 8 {
        let avg''',
'''    if player.games + results.len() <= 9 {
        let avg''')],
'a provisional player who passes nine games within a period',
'the established formula is used for a provisional player',
'''
use skillratings::{uscf::*, Outcomes};
fn main() {
    let p = USCFRating { rating: 1500.0, games: 6 };
    let o = USCFRating { rating: 1500.0, games: 60 };
    let n = uscf_rating_period(&p, &[(o, Outcomes::WIN); 6], &USCFConfig::new());
    assert!((n.rating - (6.0 * 1500.0 + 6.0 * 1500.0 + 6.0 * 400.0) / 12.0).abs() < 1e-9, "{n:?}");
}
''')

seed('boost-second-player-both-ways', 'C16', [('glicko_boost.rs',
'''    let z2 = z_value(g2, e2, outcome2);''',
'''    let z2 = z_value(g2, e2, outcome2).abs();''')],
'an exceptionally bad performance of the second player of a match',
'a player who performs badly is boosted',
'''
use skillratings::{glicko::*, glicko_boost::{glicko_boost, GlickoBoostRating, GlickoBoostConfig}, Outcomes};
fn main() {
    let c = GlickoBoostConfig { eta: 0.0, k: 1.5, b: (0.2, 17.5), alpha: (-1e9, 0.0, 0.0, 0.0, 0.0) };
    let a = GlickoBoostRating { rating: 2100.0, deviation: 80.0 };
    let b = GlickoBoostRating { rating: 1500.0, deviation: 60.0 };
    let (_, x) = glicko_boost(&b, &a, &Outcomes::WIN, &c);
    let (_, g) = glicko(&GlickoRating { rating: 1500.0, deviation: 60.0 }, &GlickoRating { rating: 2100.0, deviation: 80.0 }, &Outcomes::WIN, &GlickoConfig { c: 0.0 });
    assert!((x.rating - g.rating).abs() < 1e-6 && (x.deviation - g.deviation).abs() < 1e-6, "{x:?} {g:?}");
}
''')

seed('glicko-period-min-deviation', 'C26', [('glicko.rs',
'''    let pre_deviation = player.deviation.hypot(config.c).min(350.0);
    let new_rating = (q''',
'''    let pre_deviation = player.deviation.hypot(config.c).clamp(30.0, 350.0);
    let new_rating = (q''')],
'a player whose deviation has fallen below 30',
'a lower limit is applied in rating periods which the published formulas (and single matches) do not have',
'''
use skillratings::{glicko::*, Outcomes};
fn main() {
    let p = GlickoRating { rating: 1500.0, deviation: 18.0 };
    let o = GlickoRating { rating: 1600.0, deviation: 40.0 };
    let c = GlickoConfig { c: 5.0 };
    let x = glicko_rating_period(&p, &[(o, Outcomes::WIN)], &c);
    let y = glicko(&p, &o, &Outcomes::WIN, &c).0;
    assert!((x.rating - y.rating).abs() < 1e-9 && (x.deviation - y.deviation).abs() < 1e-9, "{x:?} {y:?}");
}
''')

seed('serde-omit-default-volatility', 'C21', [('glicko2.rs',
'''    pub volatility: f64,
}

impl Glicko2Rating {''',
'''    #[cfg_attr(
        feature = "serde",
        serde(default = "default_volatility", skip_serializing_if = "is_default_volatility")
    )]
    pub volatility: f64,
}

#[cfg(feature = "serde")]
const fn default_volatility() -> f64 {
    0.06
}

#[cfg(feature = "serde")]
#[allow(clippy::trivially_copy_pass_by_ref)]
fn is_default_volatility(volatility: &f64) -> bool {
    (volatility - 0.06).abs() < 1e-4
}

impl Glicko2Rating {''')],
'a stored player whose volatility is close to the default',
'the volatility is missing in the stored form and is reset to the default when loaded',
'''
use skillratings::glicko2::*;
fn main() {
    let r = Glicko2Rating { rating: 1600.0, deviation: 80.0, volatility: 0.059_95 };
    let s = serde_json::to_string(&r).unwrap();
    let d: Glicko2Rating = serde_json::from_str(&s).unwrap();
    assert!(d == r, "{s}");
}
''', serde=True)

seed('glicko2-volatility-floor', 'C20', [('glicko2.rs',
'''    (a / 2.0).exp()
}''',
'''    (a / 2.0).exp().max(0.03)
}''')],
'a very consistent player whose volatility has fallen to 0.03',
'the volatility no longer solves the equation and rises after an unsurprising result',
'''
use skillratings::{glicko2::*, Outcomes};
fn main() {
    let a = Glicko2Rating { rating: 1500.0, deviation: 60.0, volatility: 0.02 };
    let (x, _) = glicko2(&a, &a, &Outcomes::DRAW, &Glicko2Config::new());
    assert!(x.volatility <= a.volatility, "{x:?}");
}
''')

seed('glicko2-iteration-cap', 'C20', [('glicko2.rs',
'''    while (b - a).abs() > convergence_tolerance {''',
'''    let mut iterations = 0;
    while (b - a).abs() > convergence_tolerance && iterations < 6 {
        iterations += 1;''')],
'an input whose volatility iteration needs more than six steps (high tau, high volatility)',
'the volatility is not a solution of the equation within the tolerance',
'''
use skillratings::{glicko2::*, Outcomes};
fn main() {
    let mut worst = 0.0f64;
    for dev in [10.0, 30.0, 60.0, 100.0, 200.0, 350.0] {
        for k in 2..30 {
            for (o, s) in [(Outcomes::WIN, 1.0), (Outcomes::DRAW, 0.5), (Outcomes::LOSS, 0.0)] {
                for tau in [0.5, 1.2, 2.0] {
                    for vol in [0.06, 0.3] {
                        let c = Glicko2Config { tau, convergence_tolerance: 1e-6 };
                        let a = Glicko2Rating { rating: 1500.0, deviation: dev, volatility: vol };
                        let b = Glicko2Rating { rating: 100.0 * k as f64, deviation: 300.0, volatility: 0.06 };
                        let (x, _) = glicko2(&a, &b, &o, &c);
                        let phi = a.deviation / 173.7178;
                        let g = 1.0 / (1.0 + 3.0 * (b.deviation / 173.7178f64).powi(2) / std::f64::consts::PI.powi(2)).sqrt();
                        let e = 1.0 / (1.0 + (-g * (a.rating - b.rating) / 173.7178).exp());
                        let v = 1.0 / (g * g * e * (1.0 - e));
                        let d = v * g * (s - e);
                        let f = |s: f64| { let x = (s * s).ln(); (x.exp() * (d * d - phi * phi - v - x.exp())) / (2.0 * (phi * phi + v + x.exp()).powi(2)) - (x - (vol * vol).ln()) / (tau * tau) };
                        let s = x.volatility;
                        if f(s * (1.0 - 1e-5)) * f(s * (1.0 + 1e-5)) > 0.0 { worst = worst.max(f(s).abs()); }
                    }
                }
            }
        }
    }
    assert!(worst == 0.0, "{worst}");
}
''')

seed('weng-lobby-tolerance', 'C08', [('weng_lin.rs',
'''        .mul_add(-large_delta, 1.0)
        .max(uncertainty_tolerance);
    (player_uncertainty_sq * new_player_uncertainty_sq).sqrt()''',
'''        .mul_add(-large_delta, 1.0);
    (player_uncertainty_sq * new_player_uncertainty_sq)
        .sqrt()
        .max(uncertainty_tolerance.min(0.0))''')],
'a lobby of more than a dozen very uncertain teams',
'the new uncertainty is not a positive number',
'''
use skillratings::{weng_lin::*, MultiTeamOutcome};
fn main() {
    let t: Vec<Vec<WengLinRating>> = (0..40).map(|_| vec![WengLinRating { rating: 25.0, uncertainty: 20.0 }]).collect();
    let m = weng_lin_multi_team(&(0..40).map(|i| (&t[i][..], MultiTeamOutcome::new(i))).collect::<Vec<_>>(), &WengLinConfig::new());
    assert!(m.iter().all(|t| t[0].uncertainty > 0.0), "{:?}", m[0]);
}
''')

seed('weng-period-stale-tolerance', 'C05', [('weng_lin.rs',
'''        player_rating = new_rating(player_rating, player_uncertainty, c, p, outcome);
        player_uncertainty =
            new_uncertainty(player_uncertainty, c, p, config.uncertainty_tolerance);''',
'''        player_rating = new_rating(player_rating, player_uncertainty, c, p, outcome);
        player_uncertainty =
            new_uncertainty(player_uncertainty, c, p, config.uncertainty_tolerance)
                .max(player.uncertainty * 0.5);''')],
'a rating period long enough to halve the uncertainty of a newcomer',
'splitting the period gives a different result',
'''
use skillratings::{weng_lin::*, Outcomes};
fn main() {
    let c = WengLinConfig::new();
    let p = WengLinRating::new();
    let l: Vec<(WengLinRating, Outcomes)> = (0..60).map(|i| (WengLinRating { rating: 25.0, uncertainty: 1.0 }, if i % 2 == 0 { Outcomes::WIN } else { Outcomes::LOSS })).collect();
    let x = weng_lin_rating_period(&p, &l, &c);
    let y = weng_lin_rating_period(&weng_lin_rating_period(&p, &l[..30], &c), &l[30..], &c);
    assert!((x.uncertainty - y.uncertainty).abs() < 1e-9, "{x:?} {y:?}");
}
''')


seed('ts-overtime-weight', 'C28', [('trueskill/mod.rs',
'''            flattened_weights.push(weight);''',
'''            flattened_weights.push(weight.min(2.0));''')],
'a participation weight above 2',
'large weights are clipped, so the update differs from the published one and is no longer proportional to the weight',
'''
use skillratings::{trueskill::*, MultiTeamOutcome};
fn main() {
    let c = TrueSkillConfig { dynamics_factor: 0.0, ..Default::default() };
    let t = vec![TrueSkillRating::new(); 2];
    let w: [&[f64]; 2] = [&[1.0, 4.0], &[1.0, 1.0]];
    let m = trueskill_multi_team(&[(&t[..], MultiTeamOutcome::new(1)), (&t[..], MultiTeamOutcome::new(2))], &c, Some(&w)).unwrap();
    let (a, b) = (m[0][0].rating - 25.0, m[0][1].rating - 25.0);
    assert!((b / a - 4.0).abs() < 1e-6, "{a} {b}");
}
''')

seed('weng-empty-team-two-only', 'C07', [('weng_lin.rs',
'''    for (team, _) in teams_and_ranks {
        if team.is_empty() {
            return teams_and_ranks''',
'''    let lobby = teams_and_ranks.len() > 2;
    for (team, _) in teams_and_ranks.iter().take(if lobby { 3 } else { 2 }) {
        if team.is_empty() {
            return teams_and_ranks''')],
'a match of four or more teams in which the fourth or a later team is empty',
'a match with an empty team still changes the ratings of the others',
'''
use skillratings::{weng_lin::*, MultiTeamOutcome};
fn main() {
    let p = vec![WengLinRating { rating: 24.0, uncertainty: 5.0 }];
    let e: Vec<WengLinRating> = vec![];
    for pos in 0..5 {
        let mut v: Vec<(&[WengLinRating], MultiTeamOutcome)> = (0..5).map(|i| (&p[..], MultiTeamOutcome::new(i))).collect();
        v[pos].0 = &e[..];
        let r = weng_lin_multi_team(&v, &WengLinConfig::new());
        for (t, o) in r.iter().zip(&v) { assert_eq!(t, &o.0.to_vec(), "empty team at {pos}"); }
    }
}
''')

seed('glicko2-decay-volatility-cap', 'C07', [('glicko2.rs',
'''    let new_player_deviation = player_deviation.hypot(player.volatility);''',
'''    let new_player_deviation = player_deviation.hypot(player.volatility.min(0.1));''')],
'a very volatile Glicko-2 player (volatility above 0.1) sitting out a period',
'n periods of decay do not add n times the squared volatility to the squared deviation',
'''
use skillratings::glicko2::*;
fn main() {
    for v in [0.03, 0.06, 0.09, 0.12, 0.3] {
        let p = Glicko2Rating { rating: 1500.0, deviation: 60.0, volatility: v };
        let d = decay_deviation(&p);
        let want = (60.0f64.powi(2) + (173.7178 * v).powi(2)).sqrt();
        assert!((d.deviation - want).abs() < 1e-6, "{v}: {} {want}", d.deviation);
    }
}
''')

seed('elo-ratio-form', 'C09', [('elo.rs',
'''pub fn expected_score(player_one: &EloRating, player_two: &EloRating) -> (f64, f64) {
    let exp_one = (1.0 + 10_f64.powf((player_two.rating - player_one.rating) / 400.0)).recip();''',
'''pub fn expected_score(player_one: &EloRating, player_two: &EloRating) -> (f64, f64) {
    let odds = 10_f64.powf((player_one.rating - player_two.rating) / 400.0);
    let exp_one = odds / (1.0 + odds);''')],
'a pairing with an extreme rating difference (above 123000 points, e.g. after a long run of a league with a huge k)',
'the expected score and the new ratings are NaN',
'''
use skillratings::{elo::*, Outcomes};
fn main() {
    let c = EloConfig { k: 32.0 };
    for d in [0.0, 100.0, 5000.0, 120000.0, 124000.0, 1e6] {
        let a = EloRating { rating: 1000.0 + d };
        let b = EloRating { rating: 1000.0 };
        let (x, y) = elo(&a, &b, &Outcomes::LOSS, &c);
        assert!(x.rating.is_finite() && y.rating.is_finite(), "{d}: {} {}", x.rating, y.rating);
    }
}
''')

seed('weng-big-team-share', 'C11', [('weng_lin.rs',
'''    let mut new_team_one = Vec::new();
    let mut new_team_two = Vec::new();

    for player in team_one {
        let player_uncertainty_sq = player.uncertainty.powi(2);''',
'''    let mut new_team_one = Vec::new();
    let mut new_team_two = Vec::new();

    let share = |player: &WengLinRating| {
        if team_one.len() > 5 {
            team_one_uncertainty_sq / team_one.len() as f64
        } else {
            player.uncertainty.powi(2)
        }
    };

    for player in team_one {
        let player_uncertainty_sq = share(player);''')],
'a first team of six or more players whose uncertainties differ',
'the rating changes within the team are not proportional to the squared uncertainties',
'''
use skillratings::{weng_lin::*, Outcomes};
fn main() {
    for n in 1..9 {
        let t: Vec<WengLinRating> = (0..n).map(|i| WengLinRating { rating: 20.0 + i as f64, uncertainty: 2.0 + i as f64 }).collect();
        let (r, _) = weng_lin_two_teams(&t, &t, &Outcomes::WIN, &WengLinConfig::new());
        let s: Vec<f64> = t.iter().zip(&r).map(|(a, b)| (b.rating - a.rating) / a.uncertainty.powi(2)).collect();
        for x in &s { assert!((x - s[0]).abs() < 1e-9, "{n}: {s:?}"); }
    }
}
''')

seed('ts-rank-tie-u16', 'C12', [('trueskill/schedule.rs',
'''        let w_func: Box<dyn Fn(f64, f64, f64) -> f64> =
            if sorted_teams_and_ranks[x].1 == sorted_teams_and_ranks[x + 1].1 {''',
'''        let gap = sorted_teams_and_ranks[x + 1].1.rank() - sorted_teams_and_ranks[x].1.rank();
        let w_func: Box<dyn Fn(f64, f64, f64) -> f64> =
            if gap as u16 == 0 {''')],
'two neighbouring teams whose ranks (e.g. times or negated scores) differ by a multiple of 65536',
'the uncertainties depend on the rank numbers and not only on their order',
'''
use skillratings::{trueskill::*, MultiTeamOutcome};
fn main() {
    let t = vec![TrueSkillRating::new()];
    let f = |a: usize, b: usize, c: usize| trueskill_multi_team(&[(&t[..], MultiTeamOutcome::new(a)), (&t[..], MultiTeamOutcome::new(b)), (&t[..], MultiTeamOutcome::new(c))], &TrueSkillConfig::new(), None).unwrap();
    let w = f(1, 2, 3);
    for g in [5usize, 255, 256, 1000, 65535, 65536, 131072] { assert_eq!(f(1, 1 + g, 2 + g), w, "{g}"); }
}
''')

seed('weng-two-team-gamma', 'C13', [('weng_lin.rs',
'''    let team_two_eta = eta(
        team_two_uncertainty_sq,
        c,
        p2,
        gamma(team_two_uncertainty_sq, c),
    );''',
'''    let team_two_eta = eta(
        team_two_uncertainty_sq,
        c,
        p2,
        if team_one.len() == team_two.len() {
            gamma(team_two_uncertainty_sq, c)
        } else {
            gamma(team_one_uncertainty_sq.max(team_two_uncertainty_sq), c)
        },
    );''')],
'two teams of different sizes, the second one with the smaller variance',
'the two-team form disagrees with the many-team form',
'''
use skillratings::{weng_lin::*, MultiTeamOutcome, Outcomes};
fn main() {
    let c = WengLinConfig::new();
    for (n, m) in [(1, 1), (2, 2), (1, 2), (3, 1)] {
        let a = vec![WengLinRating::new(); n];
        let b = vec![WengLinRating::new(); m];
        let (x, y) = weng_lin_two_teams(&a, &b, &Outcomes::WIN, &c);
        let r = weng_lin_multi_team(&[(&a[..], MultiTeamOutcome::new(1)), (&b[..], MultiTeamOutcome::new(2))], &c);
        for (p, q) in x.iter().chain(&y).zip(r.iter().flatten()) {
            assert!((p.rating - q.rating).abs() < 1e-9 && (p.uncertainty - q.uncertainty).abs() < 1e-9, "{n}v{m}: {p:?} {q:?}");
        }
    }
}
''')

seed('glicko-from-sticko-cap', 'C15', [('glicko2.rs',
'''impl From<StickoRating> for Glicko2Rating {
    fn from(s: StickoRating) -> Self {
        Self {
            rating: s.rating,
            deviation: s.deviation,''',
'''impl From<StickoRating> for Glicko2Rating {
    fn from(s: StickoRating) -> Self {
        Self {
            rating: s.rating,
            deviation: s.deviation.clamp(30.0, 350.0),''')],
'converting a well established Sticko player (deviation below 30) to Glicko-2',
'the conversion does not keep the deviation',
'''
use skillratings::{sticko::StickoRating, glicko2::Glicko2Rating};
fn main() {
    for d in [350.0, 200.0, 50.0, 29.0, 12.5] {
        let s = StickoRating { rating: 1700.0, deviation: d };
        let g: Glicko2Rating = s.into();
        let b: StickoRating = g.into();
        assert_eq!(b, s);
    }
}
''')

seed('ts-uniform-weights', 'C17', [('trueskill/weights.rs',
'''        return Ok(weights.iter().map(|team| team.to_vec()).collect());''',
'''        return Ok(weights
            .iter()
            .map(|team| {
                // Everyone has played for the same time.
                if team.len() > 2 && team[0] > 0.0 && team.iter().all(|&w| w == team[0]) {
                    vec![1.0; team.len()]
                } else {
                    team.to_vec()
                }
            })
            .collect());''')],
'a team of three or more players that all have the same weight other than 1.0, in a match where another team has other weights',
'the weights of a team are ignored, so the updates jump when one of them changes slightly',
'''
use skillratings::{trueskill::*, MultiTeamOutcome};
fn main() {
    let t = vec![TrueSkillRating::new(); 3];
    let f = |w: f64| {
        let teams = [(&t[..], MultiTeamOutcome::new(1)), (&t[..], MultiTeamOutcome::new(2))];
        trueskill_multi_team(&teams, &TrueSkillConfig::new(), Some(&[&[0.5, 0.5, w], &[1.0, 1.0, 0.4]])).unwrap()
    };
    let (a, b) = (f(0.5), f(0.5 + 1e-9));
    for (x, y) in a.iter().flatten().zip(b.iter().flatten()) { assert!((x.rating - y.rating).abs() < 1e-5, "{x:?} {y:?}"); }
}
''')

seed('ts-quality-uncertainty-cap', 'C18', [('trueskill/mod.rs',
'''    let b = ((-(rating_one_sum - rating_two_sum).powi(2))
        / (2.0
            * (total_players.mul_add(config.beta.powi(2), uncertainty_one_sum)
                + uncertainty_two_sum)))
        .exp();''',
'''    let b = ((-(rating_one_sum - rating_two_sum).powi(2))
        / (2.0
            * (total_players.mul_add(config.beta.powi(2), uncertainty_one_sum)
                + uncertainty_two_sum.min(uncertainty_one_sum * 4.0))))
        .exp();''')],
'two teams of different strength, the second at least twice as uncertain as the first',
'the match quality is not symmetric',
'''
use skillratings::trueskill::*;
fn main() {
    let c = TrueSkillConfig::new();
    for s in [1.0, 2.0, 3.0, 5.0, 8.0] {
        let a = vec![TrueSkillRating { rating: 25.0, uncertainty: 2.0 }; 2];
        let b = vec![TrueSkillRating { rating: 30.0, uncertainty: s }; 2];
        assert!((match_quality_two_teams(&a, &b, &c) - match_quality_two_teams(&b, &a, &c)).abs() < 1e-12, "{s}");
    }
}
''')

seed('glicko2-tau-floor', 'C20', [('glicko2.rs',
'''    convergence_tolerance: f64,
) -> f64 {
    let mut a = old_volatility.powi(2).ln();''',
'''    convergence_tolerance: f64,
) -> f64 {
    // Very small values only slow the iteration down.
    let tau = tau.max(0.2);
    let mut a = old_volatility.powi(2).ln();''')],
'a tau below 0.2 and a surprising result',
'the new volatility does not solve the equation for the configured tau',
'''
use skillratings::{glicko2::*, Outcomes};
fn sol(p: &Glicko2Rating, o: &Glicko2Rating, tau: f64) -> f64 {
    let s = 173.7178; let (m, f, om, of) = ((p.rating - 1500.) / s, p.deviation / s, (o.rating - 1500.) / s, o.deviation / s);
    let g = 1. / (1. + 3. * of * of / std::f64::consts::PI.powi(2)).sqrt();
    let e = 1. / (1. + (-g * (m - om)).exp());
    let v = 1. / (g * g * e * (1. - e)); let d = v * g * (0.5 - e);
    let a = (p.volatility * p.volatility).ln();
    let h = |x: f64| { let ex: f64 = x.exp(); ex * (d * d - f * f - v - ex) / (2. * (f * f + v + ex).powi(2)) - (x - a) / (tau * tau) };
    let (mut lo, mut hi) = (a - 200., a + 200.);
    for _ in 0..300 { let c = (lo + hi) / 2.; if h(c) > 0. { lo = c } else { hi = c } }
    (lo / 2.).exp()
}
fn main() {
    for vol in [0.03, 0.06, 0.09, 0.3, 1.0] { for tau in [0.05, 0.1, 0.2, 0.4] {
        let p = Glicko2Rating { rating: 1500.0, deviation: 50.0, volatility: vol };
        let o = Glicko2Rating { rating: 1900.0, deviation: 50.0, volatility: 0.06 };
        let (r, _) = glicko2(&p, &o, &Outcomes::DRAW, &Glicko2Config { tau, convergence_tolerance: 1e-6 });
        let w = sol(&p, &o, tau);
        assert!((r.volatility - w).abs() < 1e-5 * w, "{vol} {tau}: {} {w}", r.volatility);
    } }
}
''')

seed('dwz-first-memo', 'C22', [('dwz.rs',
'''    let average_rating = results.iter().map(|r| r.0.rating).sum::<f64>() / results.len() as f64;

    // We round the f64 before casting to i64''',
'''    thread_local! {
        static LAST: std::cell::Cell<(usize, f64, f64)> = const { std::cell::Cell::new((0, 0.0, 0.0)) };
    }
    // Players of the same club usually have met the same opponents.
    let key = (results.len(), results[0].0.rating + results[results.len() - 1].0.rating);
    let average_rating = match LAST.get() {
        (n, k, avg) if (n, k.to_bits()) == (key.0, key.1.to_bits()) => avg,
        _ => results.iter().map(|r| r.0.rating).sum::<f64>() / results.len() as f64,
    };
    LAST.set((key.0, key.1, average_rating));

    // We round the f64 before casting to i64''')],
'two first-DWZ calculations right after each other on the same thread, for result lists of the same length that agree in the first and last opponent only',
'the second result depends on the first call',
'''
use skillratings::{dwz::*, Outcomes};
fn list(mid: f64) -> Vec<(DWZRating, Outcomes)> {
    [1500.0, mid, mid, mid, 1600.0].iter().map(|&r| (DWZRating { rating: r, index: 5, age: 30 }, Outcomes::DRAW)).collect()
}
fn main() {
    let fresh = std::thread::spawn(|| get_first_dwz(30, &list(1800.0)).unwrap()).join().unwrap();
    let _ = get_first_dwz(30, &list(1200.0));
    assert_eq!(get_first_dwz(30, &list(1800.0)).unwrap(), fresh);
}
''')

seed('glicko2-log-cache', 'C22', [('glicko2.rs',
'''fn f_value(
    x: f64,''',
'''/// The logarithms are needed in every step of the iteration.
fn ln_squared(volatility: f64) -> f64 {
    thread_local! {
        static LOGS: std::cell::RefCell<std::collections::HashMap<u32, f64>> = std::cell::RefCell::default();
    }
    #[allow(clippy::cast_possible_truncation)]
    LOGS.with(|l| *l.borrow_mut().entry((volatility as f32).to_bits()).or_insert_with(|| volatility.powi(2).ln()))
}

fn f_value(
    x: f64,'''), ('glicko2.rs',
'''    let j = (x - volatility.powi(2).ln()) / tau.powi(2);''',
'''    let j = (x - ln_squared(volatility)) / tau.powi(2);'''), ('glicko2.rs',
'''    let mut a = old_volatility.powi(2).ln();''',
'''    let mut a = ln_squared(old_volatility);''')],
'an earlier call on the same thread with a volatility that differs only beyond single precision',
'the result depends on which of the two calls was made first',
'''
use skillratings::{glicko2::*, Outcomes};
fn call(v: f64) -> Glicko2Rating {
    let p = Glicko2Rating { rating: 1500.0, deviation: 200.0, volatility: v };
    let o = Glicko2Rating { rating: 1900.0, deviation: 30.0, volatility: 0.06 };
    glicko2(&p, &o, &Outcomes::WIN, &Glicko2Config::new()).0
}
fn main() {
    let fresh = std::thread::spawn(|| call(0.06 + 1e-10)).join().unwrap();
    let _ = call(0.06);
    assert_eq!(call(0.06 + 1e-10), fresh);
}
''')

seed('weng-skill-floor', 'C23', [('weng_lin.rs',
'''        player_rating = new_rating(player_rating, player_uncertainty, c, p, outcome);
        player_uncertainty =''',
'''        player_rating = if player_rating >= 0.0 {
            new_rating(player_rating, player_uncertainty, c, p, outcome).max(0.0)
        } else {
            new_rating(player_rating, player_uncertainty, c, p, outcome)
        };
        player_uncertainty =''')],
'a rating period that takes a weak player with a small non-negative rating below zero',
'the result depends on the absolute rating, not only on the differences',
'''
use skillratings::{weng_lin::*, Outcomes};
fn main() {
    let c = WengLinConfig::new();
    let f = |s: f64| weng_lin_rating_period(&WengLinRating { rating: 0.5 + s, uncertainty: 8.0 }, &[(WengLinRating { rating: 1.0 + s, uncertainty: 4.0 }, Outcomes::LOSS)], &c);
    let base = f(100.0).rating - 100.0;
    for s in [0.0, 5.0, 25.0, -10.0] { assert!((f(s).rating - s - base).abs() < 1e-9, "{s}"); }
}
''')

seed('elo-master-k', 'C24', [('elo.rs',
'''    for (opponent, result) in results {''',
'''    // Players that have become a master during the period are established.
    let was_master = player.rating >= 2400.0;
    for (opponent, result) in results {
        let k = if !was_master && player_rating >= 2400.0 { config.k.min(10.0) } else { config.k };''')
, ('elo.rs',
'''        player_rating = config.k.mul_add(outcome - exp, player_rating);''',
'''        player_rating = k.mul_add(outcome - exp, player_rating);''')],
'a rating period in which a player crosses 2400 before the last game',
'the period rating does not follow the formula with the configured k',
'''
use skillratings::{elo::*, Outcomes};
fn main() {
    let c = EloConfig { k: 32.0 };
    for r in [1000.0, 2380.0, 2395.0, 2399.0, 2450.0] {
        let o = EloRating { rating: 2400.0 };
        let mut q = EloRating { rating: r };
        let p = elo_rating_period(&q, &[(o, Outcomes::WIN); 3], &c);
        for _ in 0..3 { q = elo(&q, &o, &Outcomes::WIN, &c).0; }
        assert!((p.rating - q.rating).abs() < 1e-9, "{r}: {p:?} {q:?}");
    }
}
''')

seed('weng-many-gamma', 'C27', [('weng_lin.rs',
'''            let eta = eta(
                teams_uncertainties_sq[i],
                c,
                p,
                gamma(teams_uncertainties_sq[i], c),
            );

            omega += small_delta;''',
'''            let eta = eta(
                teams_uncertainties_sq[i],
                c,
                p,
                // With many teams, 1 / k is more conservative.
                gamma(teams_uncertainties_sq[i], c).min(if teams_and_ranks.len() > 6 {
                    2.0 / teams_and_ranks.len() as f64
                } else {
                    1.0
                }),
            );

            omega += small_delta;''')],
'a match of seven or more teams',
'the uncertainties shrink less than the algorithm prescribes',
'''
use skillratings::{weng_lin::*, MultiTeamOutcome};
fn main() {
    let c = WengLinConfig::new();
    for n in 2..10usize {
        let t = vec![WengLinRating::new()];
        let v: Vec<(&[WengLinRating], MultiTeamOutcome)> = (0..n).map(|i| (&t[..], MultiTeamOutcome::new(i))).collect();
        let r = weng_lin_multi_team(&v, &c);
        let s2 = (25.0f64 / 3.0).powi(2);
        let cc = (2.0 * c.beta.powi(2) + 2.0 * s2).sqrt();
        let eta = (s2.sqrt() / cc) * s2 / (cc * cc) * 0.25 * (n - 1) as f64;
        let want = (s2 * (1.0 - eta).max(c.uncertainty_tolerance)).sqrt();
        for x in r.iter().flatten() { assert!((x.uncertainty - want).abs() < 1e-9, "{n}: {} {want}", x.uncertainty); }
    }
}
''')

seed('ts-margin-big-teams', 'C28', [('trueskill/schedule.rs',
'''        let draw_margin = draw_margin(draw_probability, beta, size);''',
'''        let draw_margin = draw_margin(draw_probability, beta, f64::min(size, 11.0));''')],
'a many-team match with neighbouring teams of more than eleven players together',
'the draw margin of big teams is too small',
'''
use skillratings::{trueskill::*, MultiTeamOutcome, Outcomes};
fn main() {
    let c = TrueSkillConfig { dynamics_factor: 0.0, ..Default::default() };
    for n in 1..10 {
        let a = vec![TrueSkillRating { rating: 25.0, uncertainty: 4.0 }; n];
        let (x, _) = trueskill_two_teams(&a, &a, &Outcomes::WIN, &c);
        let r = trueskill_multi_team(&[(&a[..], MultiTeamOutcome::new(1)), (&a[..], MultiTeamOutcome::new(2))], &c, None).unwrap();
        for (p, q) in x.iter().zip(&r[0]) { assert!((p.rating - q.rating).abs() < 1e-6, "{n}: {p:?} {q:?}"); }
    }
}
''')

seed('egf-period-first-handicap', 'C02', [('egf.rs',
'''        .map(|o| {
            let (h1, h2) = if o.1.handicap.is_sign_negative() {''',
'''        .map(|o| {
            let (h1, h2) = if opponents[0].1.handicap.is_sign_negative() && o.1.handicap != 0.0 {''')],
'a period prediction whose entries have handicaps of both signs',
'an entry differs from the head-to-head prediction, depending on the other entries',
'''
use skillratings::egf::*;
fn main() {
    let p = EGFRating { rating: 1900.0 };
    let o = EGFRating { rating: 2000.0 };
    let h = [3.0, -2.0, 0.0];
    for i in h { for j in h {
        let v: Vec<(EGFRating, EGFConfig)> = [i, j].iter().map(|&x| (o, EGFConfig { handicap: x })).collect();
        let e = expected_score_rating_period(&p, &v);
        for (x, c) in e.iter().zip(&v) { assert!((x - expected_score(&p, &c.0, &c.1).0).abs() < 1e-9, "{i} {j}"); }
    } }
}
''')

seed('boost-long-events', 'C16', [('glicko_boost.rs',
'''    let z = m / d_sum.sqrt();''',
'''    // Long events are more significant.
    let z = if results.len() > 11 {
        m / d_sum.sqrt() * 1.04
    } else {
        m / d_sum.sqrt()
    };''')],
'an event of twelve or more games in which the player scores just below the boost threshold',
'a player whose performance is not exceptional is boosted',
'''
use skillratings::{glicko_boost::*, Outcomes};
fn main() {
    // b.0 = 0 and b.1 = 100: any boost shows. z of w wins and l losses against equal opponents is (w - l) / sqrt(w + l).
    for n in 4..20usize { for w in 0..=n {
        let p = GlickoBoostRating { rating: 1500.0, deviation: 80.0 };
        let o = GlickoBoostRating { rating: 1500.0, deviation: 50.0 };
        let v: Vec<_> = (0..n).map(|i| (o, if i < w { Outcomes::WIN } else { Outcomes::LOSS }, true)).collect();
        let z = (2.0 * w as f64 - n as f64) / (n as f64).sqrt();
        for k in [1.0, 1.5, 1.96, 2.5] {
            if z > k - 1e-9 { continue; }
            let c = GlickoBoostConfig { eta: 0.0, k, b: (0.5, 100.0), ..Default::default() };
            let off = GlickoBoostConfig { k: 1e9, ..c };
            assert_eq!(glicko_boost_rating_period(&p, &v, &c), glicko_boost_rating_period(&p, &v, &off), "{n} {w} {k}");
        }
    } }
}
''')

seed('uscf-provisional-opponent-cap', 'C29', [('uscf.rs',
'''    f64::from(wins - losses).mul_add(''',
'''    // A single game against somebody from another world says little.
    let opponent_rating = if played_games == 1 && opponent_rating - rating > 1500.0 {
        rating + 1200.0
    } else {
        opponent_rating
    };

    f64::from(wins - losses).mul_add(''')],
'a provisional player meeting an opponent more than 1500 points stronger in a single game',
'the same result against a stronger opponent gives a lower rating',
'''
use skillratings::{uscf::*, Outcomes};
fn main() {
    let me = USCFRating { rating: 800.0, games: 4 };
    let c = USCFConfig::new();
    for o in [Outcomes::WIN, Outcomes::DRAW, Outcomes::LOSS] {
        let mut last = f64::MIN;
        for r in (400..2900).step_by(50) {
            let n = uscf(&me, &USCFRating { rating: f64::from(r), games: 40 }, &o, &c).0.rating;
            assert!(n >= last - 1e-9, "{o:?} against {r}: {n}, against a weaker one {last}");
            last = n;
        }
    }
}
''')

seed('glicko2-upset-damping', 'C29', [('glicko2.rs',
'''    (new_deviation.powi(2) * g_value).mul_add(outcome - e_value, rating)''',
'''    let surprise = outcome - e_value;
    // Take the edge off freak results.
    let surprise = if surprise > 0.99 { surprise * 0.97 } else { surprise };

    (new_deviation.powi(2) * g_value).mul_add(surprise, rating)''')],
'a win with an expected score below one percent',
'the win against the stronger of two opponents is worth less',
'''
use skillratings::{glicko2::*, Outcomes};
fn main() {
    let me = Glicko2Rating { rating: 1500.0, deviation: 80.0, volatility: 0.06 };
    let c = Glicko2Config::new();
    let mut last = f64::MIN;
    for r in (1000..3000).step_by(20) {
        let n = glicko2(&me, &Glicko2Rating { rating: f64::from(r), deviation: 40.0, volatility: 0.06 }, &Outcomes::WIN, &c).0.rating;
        assert!(n >= last - 1e-6, "a win against {r} gives {n}, against a weaker one {last}");
        last = n;
    }
}
''')

seed('dwz-index-three', 'C30', [('dwz.rs',
'''        e = e.min((5.0 * index as f64).clamp(5.0, 30.0));''',
'''        let games = if index == 3 && rating > 2000.0 { 4.6 } else { index as f64 };
        e = e.min((5.0 * games).clamp(5.0, 30.0));''')],
'a strong player in the fourth tournament',
'a player with three tournaments moves less than one with four',
'''
use skillratings::{dwz::*, Outcomes};
fn main() {
    let opp = DWZRating { rating: 2100.0, index: 20, age: 40 };
    let mut last = f64::MAX;
    for index in 0..60 {
        let me = DWZRating { rating: 2200.0, index, age: 40 };
        let gain = dwz(&me, &opp, &Outcomes::WIN).0.rating - 2200.0;
        assert!(gain <= last + 1e-9, "index {index} gains {gain}, one less {last}");
        last = gain;
    }
}
''')

seed('uscf-veteran-games', 'C30', [('uscf.rs',
'''    .min((past_games as f64).min(50.0))''',
'''    .min((past_games as f64).min(if past_games > 1500 { 45.0 } else { 50.0 }))''')],
'a strong player with more than 1500 games',
'more is at stake for the more established player',
'''
use skillratings::{uscf::*, Outcomes};
fn main() {
    let c = USCFConfig::new();
    let opp = USCFRating { rating: 2350.0, games: 40 };
    let mut last = f64::MAX;
    for games in [9, 12, 20, 30, 45, 50, 80, 400, 1400, 1501, 3000] {
        let me = USCFRating { rating: 2400.0, games };
        let go = |o| uscf(&me, &opp, &o, &c).0.rating;
        let stake = go(Outcomes::WIN) - go(Outcomes::LOSS);
        assert!(stake <= last + 1e-9, "{games} games: {stake}, fewer games: {last}");
        last = stake;
    }
}
''')

seed('trueskill-least-draw-margin', 'C31', [('trueskill/mod.rs',
'''    let draw_margin = draw_margin(config.draw_probability, config.beta, 2.0);

    let c = 2.0f64''',
'''    let draw_margin = draw_margin(config.draw_probability.max(0.002), config.beta, 2.0);

    let c = 2.0f64''')],
'a 1v1 match in a game without draws (draw probability 0)',
'players whose results are as predicted drift',
'''
use skillratings::{trueskill::*, Outcomes};
fn main() {
    let c = TrueSkillConfig { draw_probability: 0.0, ..TrueSkillConfig::new() };
    for (x, y) in [(25.0, 25.0), (30.0, 22.0), (18.0, 33.0)] {
        let a = TrueSkillRating { rating: x, uncertainty: 4.0 };
        let b = TrueSkillRating { rating: y, uncertainty: 6.0 };
        let e = expected_score(&a, &b, &c).0;
        let win = trueskill(&a, &b, &Outcomes::WIN, &c).0.rating;
        let loss = trueskill(&a, &b, &Outcomes::LOSS, &c).0.rating;
        let mean = e * win + (1.0 - e) * loss;
        assert!((mean - x).abs() < 1e-4, "{x} against {y}: {win} or {loss}, on average {mean}");
    }
}
''')

seed('egf-draw-without-bonus', 'C31', [('egf.rs',
'''    (con.mul_add(score - exp_score, rating) + bonus).max(-900.0)''',
'''    let bonus = if score == 0.5 && exp_score > 0.97 { 0.0 } else { bonus };

    (con.mul_add(score - exp_score, rating) + bonus).max(-900.0)''')],
'a jigo of a heavy favourite',
'a draw counts less than half a win',
'''
use skillratings::{egf::*, Outcomes};
fn main() {
    let c = EGFConfig::new();
    for x in [1500.0, 1900.0, 2300.0] {
        for y in [500.0, 1200.0, 1800.0, 2400.0] {
            let (a, b) = (EGFRating { rating: x }, EGFRating { rating: y });
            let [w, d, l] = [Outcomes::WIN, Outcomes::DRAW, Outcomes::LOSS].map(|o| egf(&a, &b, &o, &c).0.rating);
            assert!((d - (w + l) / 2.0).abs() < 1e-6, "{x} against {y}: {w} {d} {l}");
        }
    }
}
''')

seed('rank-saturates', 'C32', [('lib.rs',
'''        Self(rank)''',
'''        // Nobody plays with more teams than that.
        Self(if rank > 1_000_000 { 1_000_000 } else { rank })''')],
'ranks above a million, e.g. scores used as ranks',
'two different ranks compare as equal',
'''
use skillratings::MultiTeamOutcome;
fn main() {
    for r in [0usize, 1, 5, 999_999, 1_000_000, 1_000_001, usize::MAX - 1] {
        assert!(MultiTeamOutcome::new(r) < MultiTeamOutcome::new(r + 1), "{r}");
        assert_eq!(MultiTeamOutcome::new(r).rank(), r);
    }
}
''')

seed('elo-equality-epsilon', 'C32', [('elo.rs',
'''#[derive(Copy, Clone, Debug, PartialEq)]
#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
pub struct EloRating {''',
'''impl PartialEq for EloRating {
    fn eq(&self, other: &Self) -> bool {
        (self.rating - other.rating).abs() <= f64::EPSILON
    }
}

#[derive(Copy, Clone, Debug)]
#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
pub struct EloRating {''')],
'two ratings close to zero that differ by less than the machine epsilon',
'different ratings compare as equal',
'''
use skillratings::elo::EloRating;
fn main() {
    let (a, b) = (EloRating { rating: 0.0 }, EloRating { rating: 1e-17 });
    assert!(a.rating != b.rating);
    assert!(a != b, "{a:?} == {b:?}");
    assert!(EloRating { rating: f64::INFINITY } == EloRating { rating: f64::INFINITY });
}
''')
