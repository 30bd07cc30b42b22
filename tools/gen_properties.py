#!/usr/bin/env python3
"""Writes properties.jsonl (single source for the property texts)."""
import json, os
T = "src/trueskill/"
ALL = ["src/elo.rs","src/fifa.rs","src/ingo.rs","src/dwz.rs","src/uscf.rs","src/egf.rs","src/glicko.rs","src/glicko2.rs","src/glicko_boost.rs","src/sticko.rs","src/weng_lin.rs",T+"mod.rs"]
GL = ["src/glicko.rs","src/glicko2.rs","src/glicko_boost.rs","src/sticko.rs"]
TS = [T+f for f in ("mod.rs","schedule.rs","factor_graph.rs","gaussian.rs","math.rs","erf.rs","weights.rs","matrix.rs")]
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n,w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a,b,c in state], observe_at=observe, hook_needed=None)))
DOM = "finite ratings, positive deviations/uncertainties/volatilities, configurations in their documented ranges (EGF: ratings, including the handicap shift, below 3300)"

p("C01","Expected scores are coherent win probabilities",
 "For any participants, every rating system's expected-score functions (1v1, two teams, many teams) return numbers between 0 and 1 that add up to 1 over the participants, that swap when the participants are swapped (with the advantage or handicap reversed), and that are 1/2 for equally rated sides without an advantage. Raising one side's rating never lowers that side's expected score, and the favoured side never has less than 1/2. In the systems that track uncertainty, raising an uncertainty never moves the expected score away from 1/2.",
 ["inputs","configurations"], "every pair/tuple of participants and configuration of all 12 systems: "+DOM,
 "Tests compare a handful of rounded values per system; range, complement, symmetry and monotonicity quantify over all pairs of ratings, deviations, team shapes and configs.",
 ALL, [("expected_score","all rating modules"),("expected_score_two_teams / expected_score_multi_team","src/weng_lin.rs, src/trueskill/mod.rs"),("cdf/erfc approximation","src/trueskill/erf.rs")],
 ["expected_score, expected_score_two_teams, expected_score_multi_team"])

p("C02","Rating-period expected scores equal the head-to-head expected scores",
 "The expected scores of a rating period contain exactly one entry per opponent, in the given order, and each entry equals the player's head-to-head expected score against that opponent (with that entry's colour or handicap), regardless of which other opponents are in the list.",
 ["inputs","configurations"], "every player, every list of opponents (any length and order), every config: "+DOM,
 "The list forms re-implement the formula instead of calling the head-to-head form; tests check one short list per system with rounding.",
 ALL, [("expected_score_rating_period","all rating modules")], ["expected_score_rating_period vs expected_score"])

p("C03","A better result never yields a worse rating",
 "With everything else equal, a player who wins ends up rated at least as well as if they had drawn, and a draw at least as well as a loss (for Ingo, where lower is better, the other way round); the same holds for improving any single result of a rating period (in Weng-Lin and TrueSkill, which rate match by match, its last result; in Glicko-Boost as long as the improvement does not switch the boost on or off), for the two-team forms, and for a team that trades places with the team ranked directly above it. In Elo, Glicko, Glicko-2, Glicko-Boost, DWZ, established USCF, FIFA without penalties, Weng-Lin and TrueSkill, a win never lowers and a loss never raises the rating in a 1v1 match. A draw never moves the lower-rated player down or the higher-rated player up in Elo, FIFA, Glicko, Glicko-2, Weng-Lin and TrueSkill.",
 ["inputs","configurations"], "every pair of players / teams / ranking / result list and config: "+DOM,
 "An inequality between different calls over all inputs; tests only look at individual calls with fixed numbers.",
 ALL, [("rating updates","all rating modules"),("rank comparison","src/weng_lin.rs, src/trueskill/schedule.rs")], ["new ratings returned by 1v1, period, two-team and multi-team functions"])

p("C04","A match is rated the same from both players' perspectives",
 "Swapping the two players (or teams) and inverting the outcome, together with reversing any first-player advantage or handicap, swaps the two new ratings and changes nothing else.",
 ["inputs","configurations"], "every pair of players or teams, outcome and config: "+DOM,
 "Each system has separate code for player one and player two; tests check mostly player one and few outcome combinations.",
 ALL, [("player one / player two branches","all rating modules")], ["1v1 and two-team functions"])

p("C05","A rating period is consistent with playing its matches head to head",
 "A rating period with a single result gives the player exactly the rating of the corresponding single match in every system. In Elo, FIFA, Weng-Lin and TrueSkill, a rating period with many results equals playing these matches one after the other, so splitting the list anywhere and rating the parts in turn gives the same rating.",
 ["inputs","histories","configurations"], "every player, every list of results (any length), every config: "+DOM,
 "The period functions duplicate the 1v1 code; agreement must hold for every result list, the tests compare one or two lists per system.",
 ALL, [("*_rating_period","all rating modules")], ["*_rating_period vs the 1v1 functions"])

p("C06","Tournament rating periods do not depend on the order of results",
 "In Glicko, Glicko-2, Glicko-Boost, Sticko, Ingo, DWZ, USCF and EGF, reordering the results of a rating period does not change the new rating, deviation, volatility, index or game count.",
 ["inputs","histories"], "every player, every list of results and every permutation of it: "+DOM,
 "Quantifies over all permutations of all result lists; the tests use a single order.",
 [f for f in ALL if not any(k in f for k in ("elo","fifa","weng","trueskill"))], [("simultaneous update over all results","*_rating_period")], ["*_rating_period"])

p("C07","Inactivity never changes a rating, only the certainty about it",
 "A rating period without results, and a match in which a team is empty or which only one team plays, leave every rating, age, index, game count and volatility untouched; only the Glicko-family deviations change, and they change exactly as by explicit decay. Decay never lowers a deviation that is below 350, never lifts one above 350, is larger for larger decay constants, and n decay periods of Glicko, Glicko-2 and Sticko together add n times the squared decay constant (volatility) to the squared deviation until 350 is reached.",
 ["inputs","histories","configurations"], "every player and config, any number of consecutive idle periods, every position of the empty team",
 "Needs all states and histories of decay; tests decay a few players once or a few times.",
 ALL, [("decay_deviation",", ".join(GL)),("early return on empty input","all rating modules")], ["*_rating_period with empty results, decay_deviation, team functions with empty teams"])

p("C08","Uncertainty stays positive and bounded and shrinks with evidence",
 "New deviations, uncertainties and volatilities are always positive; Glicko, Sticko and Glicko-Boost deviations never exceed 350, and playing never leaves a Glicko player less certain than sitting out the same period would, a Glicko-2 player less certain than sitting it out with the new volatility, a Weng-Lin player less certain than before, or a TrueSkill player less certain than one dynamics step per match would, while every further Glicko result lowers the deviation further. In Glicko, Sticko and Weng-Lin the new uncertainty does not depend on who won, and in Glicko and Weng-Lin an evenly matched opponent is more informative than a mismatched one. Confidence intervals are centred on the rating with half-width 1.96 deviations, and the TrueSkill rank is the rating minus three uncertainties.",
 ["inputs","histories","configurations"], "every player/team, opponents list, outcome, config and match history: "+DOM,
 "Invariants over all histories and inequalities between calls; tests check single values.",
 GL+["src/weng_lin.rs"]+TS, [("deviation update and .min(350)",", ".join(GL)),("uncertainty update","src/weng_lin.rs, src/trueskill/math.rs, src/trueskill/factor_graph.rs")], ["deviation/uncertainty/volatility fields, confidence_interval, get_rank"])

p("C09","Ratings stay finite whatever the history",
 "No sequence of rated matches, rating periods, team matches and idle periods, starting from any in-domain ratings, ever panics, hangs, or produces a NaN or infinite rating, deviation, volatility, expected score or match quality, not even for extremely lopsided pairings, tiny or huge uncertainties, long result lists, or big lobbies.",
 ["inputs","histories","configurations"], "all histories of all systems: "+DOM+"; for matches rated with the many-team TrueSkill function, uncertainties >= 1e-3 and draw probability in (0,1)",
 "Tests never chain many results, never use extreme pairings, and never look for NaN or non-termination.",
 ALL+TS, [("numeric guards (norm thresholds, min/max, convergence loops)","src/trueskill/math.rs, src/trueskill/factor_graph.rs, src/glicko2.rs, src/weng_lin.rs")], ["all public functions"])

p("C10","Documented floors, limits and special match rules hold",
 "A USCF rating never ends below 100 and an EGF rating never below -900, by single match or rating period; in a FIFA knock-out match no team loses points, and in a FIFA penalty shoot-out the winner is credited 0.75 and the loser 0.5 whichever side it is listed on. A single match never moves an Elo rating by more than k or a FIFA rating by more than the importance; a DWZ match moves a rating by at most 800/(E+1) points with a development coefficient E of at least 5 (at most 30, or 5 per entered tournament, unless the player is below 1300 and underperforms, then at most 150) and raises the index by one per event, and USCF game counts grow by the number of rated games. Ages are never changed by rating.",
 ["inputs","histories","configurations"], "every player, opponent list, outcome and config, and all chains of them: "+DOM,
 "Limits must hold for every input including the edges of the scale and long losing streaks; tests sample a few mid-range values.",
 ["src/uscf.rs","src/egf.rs","src/fifa.rs","src/elo.rs","src/dwz.rs","src/ingo.rs"], [("max(100.0)","src/uscf.rs"),("max(-900.0)","src/egf.rs"),("knockout/penalties","src/fifa.rs"),("e_value","src/dwz.rs")], ["ratings, games, index, age of returned ratings"])

p("C11","Rating points are conserved",
 "An Elo match, and a FIFA match that is neither knock-out nor decided on penalties, moves exactly as many points to one side as it takes from the other, so the total of a closed league never changes over any history. In 1v1 Weng-Lin and TrueSkill matches the changes of both players, divided by their squared uncertainty (for TrueSkill including the dynamics factor), cancel out, and within a team the rating changes are proportional to the members' squared uncertainties.",
 ["inputs","histories","configurations"], "every league of players, every match history, every config: "+DOM,
 "A conservation law over all matches and histories; tests check each side against rounded constants.",
 ["src/elo.rs","src/fifa.rs","src/weng_lin.rs"]+TS, [("complementary outcome and expectation","src/elo.rs, src/fifa.rs"),("variance-proportional update","src/weng_lin.rs, src/trueskill/math.rs")], ["sum of ratings over a league"])

p("C12","Many-team results follow the teams, not their position or rank number",
 "The many-team functions of Weng-Lin and TrueSkill return one new rating per player in the shape of the input; permuting the players of a team permutes their new ratings, and permuting the teams (with their ranks and weights) permutes the results (for TrueSkill, which compares tied teams in the given order, if tied teams keep their order). Only the order of the ranks matters: replacing the ranks by any other numbers in the same order, however large or far apart, changes nothing.",
 ["inputs","configurations"], "every number and size of teams, every ranking with and without ties, every permutation and order-preserving relabelling of ranks: "+DOM,
 "Quantifies over all rankings, permutations and rank numbers; tests use a few fixed rankings with ranks 1..4.",
 ["src/weng_lin.rs"]+TS+["src/lib.rs"], [("sorting by rank and restoring the input order","src/trueskill/mod.rs"),("rank comparison","src/weng_lin.rs"),("MultiTeamOutcome ordering","src/lib.rs")], ["weng_lin_multi_team, trueskill_multi_team, expected_score_multi_team"])

p("C13","1v1, two-team and many-team forms agree where they overlap",
 "A 1v1 match, the same match as two teams of one, and the same match as a many-team match of two teams give the same ratings and expected scores in Weng-Lin; in TrueSkill the 1v1 and two-team forms agree, their expected scores and match qualities agree with the many-team forms, and the many-team ratings agree with them when the dynamics factor is 0. Two-team and many-team Weng-Lin agree for teams of any size, and so do two-team and many-team TrueSkill without dynamics. A many-team Weng-Lin update equals the sum of the team's pairwise two-team updates.",
 ["inputs","configurations"], "every pair of players/teams of any size, outcome and config: "+DOM,
 "The forms are separate implementations; tests compare them on single default-rated examples at most.",
 ["src/weng_lin.rs"]+TS, [("three implementations per system","src/weng_lin.rs, src/trueskill/mod.rs")], ["weng_lin*, trueskill*, expected_score*, match_quality*"])

p("C14","The generic trait interface is the same system as the functions",
 "Rating, predicting and rating periods through the generic 1v1, rating-period, team and many-team interfaces give exactly the results of the corresponding functions with the same configuration (colour-aware systems treat every period result as played with the advantage; per-match configurations are applied to every result). Generic construction of a rating uses the given rating and uncertainty and documented defaults for the rest, and reading them back returns the stored values.",
 ["inputs","configurations"], "every system, config, player and result list: "+DOM,
 "The adapters must pass on every argument unchanged for all inputs; tests use default configs and few players.",
 ["src/lib.rs"]+ALL, [("impl RatingSystem / RatingPeriodSystem / TeamRatingSystem / MultiTeamRatingSystem / Rating","all rating modules")], ["trait methods vs functions"])

p("C15","Defaults and conversions between systems are as documented",
 "Every rating and config constructor yields the documented default values. Conversions between rating systems keep the rating and uncertainty for systems on the same scale and use the documented formulas otherwise (Elo-Ingo, Elo-USCF, Elo-DWZ, Elo-FIFA), preserve the order of players, and converting to Elo and back (or Glicko-family and back, or TrueSkill-Weng-Lin and back) returns the original rating.",
 ["inputs"], "every rating value on both sides of every break point",
 "Conversion functions are piecewise and must be inverse to each other for every rating; tests convert one or two values.",
 ALL, [("From impls, new(), Default","all rating modules")], ["From/Into, new, default"])

p("C16","Sticko and Glicko-Boost without their extras are Glicko",
 "Sticko with h, beta, lambda and gamma set to 0 and the same c gives exactly Glicko's ratings, deviations, decay and expected scores, for single matches and rating periods. Glicko-Boost without advantage, boost and decay terms equals Glicko with c = 0, and players whose performance is not exceptional are never boosted.",
 ["inputs","configurations"], "every pair of players, result list and c: "+DOM,
 "Equivalence of two implementations for all inputs; no test compares them.",
 GL, [("shared formulas with extra parameters","src/sticko.rs, src/glicko_boost.rs")], ["sticko*, glicko_boost*, glicko*"])

p("C17","TrueSkill participation weights act as documented",
 "When all teams have players, weights are rejected exactly if the number of teams or of players in a team differs or a weight is negative, and the error names the first offending team and player. Omitting the weights equals weighting everyone with 1.0, a player with weight 0.0 keeps their rating and their skill has no influence on anybody else's, and within a team the rating changes are proportional to weight times squared uncertainty (including the dynamics factor). Weights belong to players: permuting players or teams together with their weights permutes the results.",
 ["inputs","configurations"], "every team layout, ranking and weight matrix",
 "Tests cover one weighted match and one case per error.",
 TS, [("get_weights","src/trueskill/weights.rs"),("sum factor coefficients","src/trueskill/factor_graph.rs")], ["trueskill_multi_team, match_quality_multi_team"])

p("C18","Match quality is a draw probability",
 "Every TrueSkill match quality is between 0 and 1 and symmetric in the participants, is highest for equally strong sides, never rises as one side gets stronger than the other, and for two players of equal skill falls with growing uncertainty. The rating-period form lists the head-to-head qualities in order, permuting players within teams or the teams themselves does not change the quality, and the quality equals the published formula.",
 ["inputs","configurations"], "every pair/tuple of players or teams and config: "+DOM,
 "Relations between calls over all inputs; tests check a few constants.",
 TS, [("match_quality*","src/trueskill/mod.rs"),("matrix algebra","src/trueskill/matrix.rs")], ["match_quality, match_quality_rating_period, match_quality_two_teams, match_quality_multi_team"])

p("C19","A first DWZ is granted exactly when allowed and follows the table",
 "A first DWZ is refused exactly for fewer than five results or for a score of 0 % or 100 %, with the matching error. Otherwise it has index 1, the given age, and the average opponent rating plus the official percentage-table value (antisymmetric around 50 %), with ratings up to 800 revised upwards to 700 plus an eighth. It does not depend on the order of results, and never falls when a result improves.",
 ["inputs"], "every multiset of outcomes for any number of games, any opponents, any age",
 "The 0-100 % table has 101 entries and depends on rounding; tests touch a few of them.",
 ["src/dwz.rs"], [("get_first_dwz","src/dwz.rs")], ["get_first_dwz"])

p("C20","Glicko-2 volatility solves Glickman's equation",
 "The new Glicko-2 volatility is, within the configured convergence tolerance, a solution of Glickman's volatility equation for the period's results, for single matches as well as rating periods. It stays positive, rises after results more surprising than the rating predicts and falls otherwise, and a smaller tau never allows a larger change.",
 ["inputs","configurations"], "every player, result list, tau and convergence tolerance",
 "An iterative root search whose bracket and convergence depend on the input; tests check three default cases.",
 ["src/glicko2.rs"], [("new_volatility iteration","src/glicko2.rs")], ["volatility of glicko2 and glicko2_rating_period"])

p("C21","Serialised ratings, configs and outcomes survive a round trip",
 "With the serde feature, every rating, config and outcome type serialises to a form that contains all of its public fields under their own names and deserialises to an equal value, so stored players can be rated further with identical results.",
 ["inputs"], "every value of every serialisable type: finite field values",
 "There is no serde test at all; every field of every type matters.",
 ALL+["src/lib.rs"], [("derive(Serialize, Deserialize)","all modules")], ["serde_json round trip"])

p("C22","Rating functions are pure",
 "The result of every function depends only on its arguments: repeating a call, making any other calls in between, in any order or on other threads, yields the identical result, and no call modifies its inputs.",
 ["inputs","histories","schedules"], "every sequence and interleaving of calls, on one or several threads",
 "Hidden state would only show up in particular call sequences; tests are single calls.",
 ALL+TS, [("no global state","whole crate")], ["all public functions"],)

p("C23","Only rating differences matter",
 "Adding the same constant to all ratings in a match or rating period shifts all new ratings by that constant and changes no deviation, volatility, uncertainty, expected score or match quality, in Elo, FIFA, Glicko, Glicko-2, Sticko, Ingo, Weng-Lin and TrueSkill (teams of equal size). Multiplying all ratings, uncertainties, beta and dynamics by the same factor scales Weng-Lin and TrueSkill results by it and leaves expected scores and match qualities unchanged.",
 ["inputs","configurations"], "every match and every shift/scale: "+DOM,
 "A relation between pairs of calls for all shifts; tests never do that.",
 ["src/elo.rs","src/fifa.rs","src/glicko.rs","src/glicko2.rs","src/sticko.rs","src/ingo.rs","src/weng_lin.rs"]+TS, [("formulas in rating differences","all rating modules")], ["1v1, period and team functions"])

def ref(id, title, names, formula, files):
    p(id, title, f"New ratings and expected scores of {names} equal the values of the published formulas ({formula}), for single matches and rating periods{'' if 'Weng' not in names and 'TrueSkill' not in names else ', two teams and many teams'}, on the whole range of ratings, uncertainties, ages, game counts and configurations.",
      ["inputs","histories","configurations"], "every player, opponent/result list, outcome and config, and chains of them: "+DOM,
      "Formulas with case distinctions (thresholds, caps, special periods) must be right in every region; tests have a few example values, often rounded.", files,
      [("rating formulas", ", ".join(files))], ["all rating functions of these systems vs an independent reference model"])
ref("C24","Elo and FIFA follow their published formulas","Elo and FIFA","logistic expectation with 400 and 600 points, linear update with k or importance, shoot-outs and knock-outs per the FIFA rules",["src/elo.rs","src/fifa.rs"])
ref("C25","Ingo, DWZ, USCF and EGF follow their published formulas","Ingo, DWZ, USCF and EGF","age-dependent development, DWZ acceleration and braking, USCF provisional and established ratings with bonus, EGF con, bonus and handicap",["src/ingo.rs","src/dwz.rs","src/uscf.rs","src/egf.rs"])
ref("C26","The Glicko family follows its published formulas","Glicko, Glicko-2, Glicko-Boost and Sticko","Glickman's Glicko and Glicko-2, Glickman's boost rule, Stephenson's extensions",GL)
ref("C27","Weng-Lin follows the Bradley-Terry full-pair algorithm","Weng-Lin","Weng and Lin 2011, Bradley-Terry with full pair updates; many-team expected scores are the shares of exp(team rating / c) with c² = 2β² + Σσ²",["src/weng_lin.rs"])
ref("C28","TrueSkill follows the published factor-graph update","TrueSkill","Herbrich et al.: truncated-Gaussian v and w, draw margin, and expectation propagation on the team-performance chain for many teams, with partial-play weights; many-team expected scores are the normalised sums of the pairwise win probabilities",TS)

p("C29","A stronger opponent never makes the same result worse",
 "With everything else equal, the same result against a better-rated opponent gives a player at least as good a new rating: for both players of a 1v1 match in every system (in Sticko with a per-game bonus beta of at most 0.2, in Glicko-Boost as long as the boost does not switch on or off, in Glicko-2 and TrueSkill for players less than 3000 points and 8 standard deviations apart), for every single opponent of a rating period in Elo, FIFA, Ingo, DWZ and EGF, for every member of the other team in two-team matches, and for every other team in many-team Weng-Lin matches.",
 ["inputs","configurations"], "every match, rating period and team match, every opponent in it and every increase of that opponent's rating: "+DOM,
 "A monotonicity relation between calls for all inputs; tests never compare two opponents.",
 ALL+TS, [("expected score and step size","all rating modules")], ["1v1, period and team functions"])

p("C30","Less established players move at least as much",
 "With everything else equal, what is at stake for a player in a 1v1 match (new rating after a win minus new rating after a loss) never falls when the player is less established: with a larger deviation or uncertainty in Glicko, Glicko-2, Glicko-Boost, Sticko, Weng-Lin and TrueSkill (there also in two-team matches), with a larger c in Glicko and Sticko or a larger dynamics factor (not above beta) in TrueSkill, at a lower age in Ingo and (for ratings up to 2000) DWZ, with a lower index in DWZ, and with fewer games in USCF (comparing provisional players of 1 to 8 games with each other and established ones with each other, away from the floor). Except in Sticko and USCF, the win and the loss alone also move the rating at least as far. The same holds for the last result of a rating period in Ingo, DWZ, Glicko and Sticko. In two-team Weng-Lin matches, less is at stake against less certain opponents. In Elo and FIFA the rating changes are proportional to k and to the importance.",
 ["inputs","configurations"], "every match and every player made less established: "+DOM,
 "A monotonicity relation between calls for all inputs; tests only check single updates.",
 ALL+TS, [("step sizes: deviations, development coefficients, effective games","all rating modules")], ["1v1, period and two-team functions"])

p("C31","Ratings do not drift when results are as predicted",
 "If a player wins with the predicted expected score and loses otherwise, the new rating is on average exactly the old one: in 1v1 matches of Elo, FIFA (neither knock-out nor penalties), Ingo (less than 50 points apart), DWZ (adults rated 1300 or more), USCF (established players away from the floor), Weng-Lin, and TrueSkill without draws, and in two-team matches of the last two. A draw counts exactly half: the rating after a draw is the mean of the ratings after a win and a loss, in single matches of Elo, FIFA (as above), Ingo, DWZ and USCF (as above), EGF away from the floor, Glicko, Sticko, Glicko-Boost without boost and Weng-Lin (also two-team), and for every single result of a rating period of Ingo, DWZ, EGF, Glicko and Sticko (in Elo, FIFA and Weng-Lin its last one).",
 ["inputs","configurations"], "every match and rating period: "+DOM,
 "Relates the prediction functions and three updates for all inputs; tests check them separately on examples.",
 ALL+TS, [("expected score vs update","all rating modules")], ["expected_score*, 1v1, period and two-team functions"])

p("C32","Players, outcomes and ranks are plain values",
 "Two ratings of the same type are equal exactly if all their fields are equal as numbers, and copies carry exactly the same fields. Ranks keep their number and compare exactly like their numbers, however large. The chess points of an outcome and of its inverse add up to 1, and outcomes and errors are equal only to themselves; every error has a text of its own, naming the team and player concerned.",
 ["inputs"], "every pair of values of every public rating, outcome, rank and error type, including neighbouring floating-point numbers, infinities, NaN and the largest counts",
 "Equality and ordering of all pairs of values; tests only compare a few equal values.",
 ALL+["src/lib.rs","src/trueskill/weights.rs"], [("PartialEq, Ord, Clone, Display","all modules")], ["==, cmp, clone, rank, to_chess_points, Display"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
