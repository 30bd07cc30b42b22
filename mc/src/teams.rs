//! Adapters for the team forms of Weng-Lin and TrueSkill.
use crate::gen::{Team, P};
use skillratings::{trueskill as ts, weng_lin as wl, MultiTeamOutcome, Outcomes};
use skillratings::{trueskill::{TrueSkillConfig, TrueSkillRating}, weng_lin::{WengLinConfig, WengLinRating}};
use std::fmt::Debug;

pub trait TeamSys: Sync + Send + 'static {
    const NAME: &'static str;
    /// Tolerance between forms that share their arithmetic only mathematically.
    const TOL: f64;
    const ETOL: f64;
    type C: Copy + Debug + Send + Sync + 'static;
    fn cfgs(l: usize) -> Vec<Self::C>;
    /// The configs a layout is checked with: `base`, or all config ladders for representative layouts.
    fn at(t: &[Team], base: &[Self::C]) -> Vec<Self::C> {
        if crate::gen::is_rep(t) {
            Self::cfgs(3)
        } else {
            base.to_vec()
        }
    }
    fn one(a: P, b: P, o: Outcomes, c: &Self::C) -> (P, P);
    fn two(a: &[P], b: &[P], o: Outcomes, c: &Self::C) -> (Team, Team);
    fn multi(t: &[Team], r: &[usize], c: &Self::C) -> Vec<Team>;
    fn exp1(a: P, b: P, c: &Self::C) -> (f64, f64);
    fn exp2(a: &[P], b: &[P], c: &Self::C) -> (f64, f64);
    fn expm(t: &[Team], c: &Self::C) -> Vec<f64>;
    /// Scales beta etc. by f.
    fn scale(c: &Self::C, f: f64) -> Self::C;
    fn dynamics(_c: &Self::C) -> f64 {
        0.0
    }
    fn beta(c: &Self::C) -> f64;
    /// Configs that differ in exactly one field.
    fn c_variants(c: &Self::C) -> Vec<Self::C>;
    fn from_ts(_c: TrueSkillConfig) -> Self::C {
        unreachable!()
    }
}
pub struct WlT;
pub struct TsT;

fn w(t: &[P]) -> Vec<WengLinRating> {
    t.iter().map(|p| WengLinRating { rating: p.0, uncertainty: p.1 }).collect()
}
fn uw(t: &[WengLinRating]) -> Team {
    t.iter().map(|p| (p.rating, p.uncertainty)).collect()
}
pub fn s(t: &[P]) -> Vec<TrueSkillRating> {
    t.iter().map(|p| TrueSkillRating { rating: p.0, uncertainty: p.1 }).collect()
}
pub fn us(t: &[TrueSkillRating]) -> Team {
    t.iter().map(|p| (p.rating, p.uncertainty)).collect()
}

impl TeamSys for WlT {
    const NAME: &'static str = "weng_lin";
    const TOL: f64 = 1e-9;
    const ETOL: f64 = 1e-9;
    type C = WengLinConfig;
    fn cfgs(l: usize) -> Vec<WengLinConfig> {
        <crate::sys::Wl as crate::sys::Sys>::cfgs(l)
    }
    fn one(a: P, b: P, o: Outcomes, c: &WengLinConfig) -> (P, P) {
        let (x, y) = wl::weng_lin(&w(&[a])[0], &w(&[b])[0], &o, c);
        (uw(&[x])[0], uw(&[y])[0])
    }
    fn two(a: &[P], b: &[P], o: Outcomes, c: &WengLinConfig) -> (Team, Team) {
        let (x, y) = wl::weng_lin_two_teams(&w(a), &w(b), &o, c);
        (uw(&x), uw(&y))
    }
    fn multi(t: &[Team], r: &[usize], c: &WengLinConfig) -> Vec<Team> {
        let ts: Vec<Vec<WengLinRating>> = t.iter().map(|x| w(x)).collect();
        let arg: Vec<(&[WengLinRating], MultiTeamOutcome)> = ts.iter().zip(r).map(|(x, r)| (&x[..], MultiTeamOutcome::new(*r))).collect();
        wl::weng_lin_multi_team(&arg, c).iter().map(|x| uw(x)).collect()
    }
    fn exp1(a: P, b: P, c: &WengLinConfig) -> (f64, f64) {
        wl::expected_score(&w(&[a])[0], &w(&[b])[0], c)
    }
    fn exp2(a: &[P], b: &[P], c: &WengLinConfig) -> (f64, f64) {
        wl::expected_score_two_teams(&w(a), &w(b), c)
    }
    fn expm(t: &[Team], c: &WengLinConfig) -> Vec<f64> {
        let ts: Vec<Vec<WengLinRating>> = t.iter().map(|x| w(x)).collect();
        wl::expected_score_multi_team(&ts.iter().map(|x| &x[..]).collect::<Vec<_>>(), c)
    }
    fn c_variants(c: &WengLinConfig) -> Vec<WengLinConfig> {
        <crate::sys::Wl as crate::sys::Sys>::c_variants(c)
    }
    fn beta(c: &WengLinConfig) -> f64 {
        c.beta
    }
    fn scale(c: &WengLinConfig, f: f64) -> WengLinConfig {
        WengLinConfig { beta: c.beta * f, ..*c }
    }
}

impl TsT {
    pub fn multi_w(t: &[Team], r: &[usize], c: &TrueSkillConfig, weights: Option<&[Vec<f64>]>) -> Result<Vec<Team>, ts::WeightError> {
        let v: Vec<Vec<TrueSkillRating>> = t.iter().map(|x| s(x)).collect();
        let arg: Vec<(&[TrueSkillRating], MultiTeamOutcome)> = v.iter().zip(r).map(|(x, r)| (&x[..], MultiTeamOutcome::new(*r))).collect();
        let ws: Option<Vec<&[f64]>> = weights.map(|w| w.iter().map(|x| &x[..]).collect());
        ts::trueskill_multi_team(&arg, c, ws.as_deref()).map(|v| v.iter().map(|x| us(x)).collect())
    }
    pub fn quality(a: P, b: P, c: &TrueSkillConfig) -> f64 {
        ts::match_quality(&s(&[a])[0], &s(&[b])[0], c)
    }
    pub fn quality2(a: &[P], b: &[P], c: &TrueSkillConfig) -> f64 {
        ts::match_quality_two_teams(&s(a), &s(b), c)
    }
    pub fn quality_m(t: &[Team], c: &TrueSkillConfig, weights: Option<&[Vec<f64>]>) -> Result<f64, ts::WeightError> {
        let v: Vec<Vec<TrueSkillRating>> = t.iter().map(|x| s(x)).collect();
        let ws: Option<Vec<&[f64]>> = weights.map(|w| w.iter().map(|x| &x[..]).collect());
        ts::match_quality_multi_team(&v.iter().map(|x| &x[..]).collect::<Vec<_>>(), c, ws.as_deref())
    }
}
impl TeamSys for TsT {
    const NAME: &'static str = "trueskill";
    const TOL: f64 = 1e-6;
    const ETOL: f64 = 3e-7;
    type C = TrueSkillConfig;
    fn cfgs(l: usize) -> Vec<TrueSkillConfig> {
        <crate::sys::Ts as crate::sys::Sys>::cfgs(l).into_iter().filter(|c| c.draw_probability > 0.0).collect()
    }
    fn one(a: P, b: P, o: Outcomes, c: &TrueSkillConfig) -> (P, P) {
        let (x, y) = ts::trueskill(&s(&[a])[0], &s(&[b])[0], &o, c);
        (us(&[x])[0], us(&[y])[0])
    }
    fn two(a: &[P], b: &[P], o: Outcomes, c: &TrueSkillConfig) -> (Team, Team) {
        let (x, y) = ts::trueskill_two_teams(&s(a), &s(b), &o, c);
        (us(&x), us(&y))
    }
    fn multi(t: &[Team], r: &[usize], c: &TrueSkillConfig) -> Vec<Team> {
        match TsT::multi_w(t, r, c, None) {
            Ok(v) => v,
            Err(e) => panic!("trueskill_multi_team without weights returned {e:?}"),
        }
    }
    fn exp1(a: P, b: P, c: &TrueSkillConfig) -> (f64, f64) {
        ts::expected_score(&s(&[a])[0], &s(&[b])[0], c)
    }
    fn exp2(a: &[P], b: &[P], c: &TrueSkillConfig) -> (f64, f64) {
        ts::expected_score_two_teams(&s(a), &s(b), c)
    }
    fn expm(t: &[Team], c: &TrueSkillConfig) -> Vec<f64> {
        let v: Vec<Vec<TrueSkillRating>> = t.iter().map(|x| s(x)).collect();
        ts::expected_score_multi_team(&v.iter().map(|x| &x[..]).collect::<Vec<_>>(), c)
    }
    fn c_variants(c: &TrueSkillConfig) -> Vec<TrueSkillConfig> {
        <crate::sys::Ts as crate::sys::Sys>::c_variants(c)
    }
    fn beta(c: &TrueSkillConfig) -> f64 {
        c.beta
    }
    fn from_ts(c: TrueSkillConfig) -> TrueSkillConfig {
        c
    }
    fn scale(c: &TrueSkillConfig, f: f64) -> TrueSkillConfig {
        TrueSkillConfig { beta: c.beta * f, dynamics_factor: c.dynamics_factor * f, ..*c }
    }
    fn dynamics(c: &TrueSkillConfig) -> f64 {
        c.dynamics_factor
    }
}
pub fn flat(t: &[Team]) -> Vec<f64> {
    t.iter().flat_map(|x| x.iter().flat_map(|p| [p.0, p.1])).collect()
}
