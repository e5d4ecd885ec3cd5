use crate::extra;
use crate::model::*;
use crate::oracle::*;
use crate::spaces::{self, Space};
use mc_core::{Check, Fail, Family, Obs, Outcome, Tier, ensure};
use std::sync::Arc;

fn describe(a: &Spec, b: &Spec) -> String {
    format!("old {} | new {}", a.show(), b.show())
}

fn pair_state(obs: &mut Obs, a: &Spec, b: &Spec) {
    obs.state(describe(a, b).as_bytes());
}

type PairFn = fn(&Spec, &Spec, &Run, Cfg, bool, &mut Obs) -> Outcome;

/// One family per space x configuration; the oracle sees the result of a real run.
fn fam(sp: Arc<Space>, cfg: Cfg, mode: Mode, hp: bool, tag: &str, need_roots: bool, f: PairFn) -> Family {
    let (s1, s2) = (sp.clone(), sp.clone());
    Family::new(
        format!("{}{}", sp.name, tag),
        format!("{}; threshold {}, min height {}, {:?}, hash {} properties", sp.bound, cfg.t, cfg.mh, mode, if hp { "covers" } else { "ignores" }),
        sp.size,
        move |i| {
            let (a, b) = (s1.get)(i);
            describe(&a, &b)
        },
        move |i, obs| {
            let (a, b) = (s2.get)(i);
            if need_roots && !roots_compatible(&a, &b, cfg) {
                obs.seen("skipped: roots not comparable");
                return Ok(());
            }
            let r = run(&a, &b, cfg, mode, hp)?;
            if obs.verbose {
                println!("pairs {:?}\nops {}", r.pairs, show_ops(&r.ops));
            }
            if a != b {
                obs.nontrivial();
            }
            pair_state(obs, &a, &b);
            for o in &r.ops {
                obs.seen(match o {
                    Op::Upd { .. } => "op: property update",
                    Op::Txt { .. } => "op: text update",
                    Op::Ins { .. } => "op: insert",
                    Op::Del { .. } => "op: delete",
                    Op::Mov { .. } => "op: move",
                });
            }
            f(&a, &b, &r, cfg, hp, obs).map_err(|e| Fail {
                key: e.key,
                msg: format!("{}\nmatched {:?}\nscript {}", e.msg, r.pairs, show_ops(&r.ops)),
            })
        },
    )
}

fn over(tier: Tier, need_roots: bool, f: PairFn) -> Vec<Family> {
    let mut v: Vec<Family> = Vec::new();
    for sp in spaces::standard(tier) {
        let sp = Arc::new(sp);
        v.push(fam(sp.clone(), Cfg::DEF, DEFMODE, false, "", need_roots, f));
    }
    // property-aware hashes
    for sp in [spaces::props(3), spaces::edit1(false), spaces::many_props(5)] {
        v.push(fam(Arc::new(sp), Cfg::DEF, DEFMODE, true, "/hp", need_roots, f));
    }
    // other thresholds
    for (k, sp) in [spaces::kinds(tier.pick(5, 6)), spaces::texts(5), spaces::opaque_kind(4), spaces::edit1(false), spaces::permutations(4)]
        .into_iter()
        .enumerate()
    {
        let sp = Arc::new(sp);
        for t in [0.0, 0.3, 0.8, 1.0] {
            for mh in [0, 1, 2, 3] {
                if k >= 3 && tier == Tier::Quick && !((t == 0.0) == (mh == 0)) {
                    continue;
                }
                v.push(fam(sp.clone(), Cfg { t, mh }, DEFMODE, false, &format!("/t{t}h{mh}"), need_roots, f));
            }
        }
        v.push(fam(sp.clone(), Cfg { t: 0.5, mh: 0 }, DEFMODE, false, "/t0.5h0", need_roots, f));
    }
    // thresholds that everything or nothing meets
    for sp in [spaces::kinds(4), spaces::props(2), spaces::edit1(false), spaces::lists(3, 3, 3)] {
        let sp = Arc::new(sp);
        for (t, mh) in [(-1.0, 1), (1.5, 1), (0.5, 50), (0.5, usize::MAX), (-1.0, usize::MAX), (1.5, 0), (f64::INFINITY, 1), (0.5000001, 1), (0.4999999, 1)] {
            v.push(fam(sp.clone(), Cfg { t, mh }, DEFMODE, false, &format!("/t{t}h{mh}"), need_roots, f));
        }
    }
    // other tree implementations and numberings
    for sp in [spaces::kinds(4), spaces::opaque_kind(3), spaces::edit1(false), spaces::lists(3, 3, 3)] {
        let sp = Arc::new(sp);
        for (tag, m) in [
            ("/own", Mode::Own(0, 9, false)),
            ("/level", Mode::Own(5, 0, true)),
            ("/mixed", Mode::Mixed),
            ("/holes", Mode::Lib(Numbering::Holes, Numbering::Reversed)),
        ] {
            v.push(fam(sp.clone(), Cfg::DEF, m, false, tag, need_roots, f));
        }
    }
    v
}

const RULE: &str = "Every (old tree, new tree) pair of each listed family is diffed by the real code and judged against the reference; a case is non-trivial when the two trees differ.";
const ASM: &[&str] = &[
    "node hashes are exact: equal hashes mean equal subtrees (the harness computes them)",
    "the caller's property type computes diffs correctly",
];

pub const ALL: &[Check] = &[
    Check {
        id: "C01",
        level: "model_checking",
        rule: RULE,
        assumptions: ASM,
        families: |t| over(t, true, |a, b, r, _, _, o| replay(a, b, r, o)),
    },
    Check {
        id: "C02",
        level: "model_checking",
        rule: RULE,
        assumptions: ASM,
        families: |t| {
            over(t, false, |a, b, r, _, _, o| {
                o.step(r.pairs.len() as u64);
                o.trace();
                matching_valid(a, b, r)
            })
        },
    },
    Check {
        id: "C03",
        level: "model_checking",
        rule: RULE,
        assumptions: ASM,
        families: |t| {
            over(t, false, |a, b, r, _, _, o| {
                o.step(r.ops.len() as u64);
                o.trace();
                ensure!(a != b || r.ops.is_empty(), "equal trees give a non-empty script");
                economical(a, b, r)
            })
        },
    },
    Check {
        id: "C04",
        level: "model_checking",
        rule: RULE,
        assumptions: ASM,
        families: |t| over(t, true, |a, b, r, _, _, o| executable(a, b, r, o)),
    },
    Check {
        id: "C05",
        level: "model_checking",
        rule: RULE,
        assumptions: ASM,
        families: |t| {
            let f: PairFn = |a, b, r, _, _, o| {
                if !(a.has_opaque() || b.has_opaque()) {
                    return Ok(());
                }
                o.step((r.ops.len() + r.pairs.len()) as u64);
                o.trace();
                opaque_atomic(a, b, r)
            };
            let mut v = Vec::new();
            for hp in [false, true] {
                let tag = if hp { "/hp" } else { "" };
                v.push(fam(Arc::new(spaces::opaque_kind(5)), Cfg::DEF, DEFMODE, hp, tag, false, f));
                v.push(fam(Arc::new(spaces::opaque_flag(t.pick(5, 6))), Cfg::DEF, DEFMODE, hp, tag, false, f));
            }
            let (s1, s2) = (Arc::new(spaces::opaque_kind(4)), Arc::new(spaces::opaque_flag(4)));
            for th in [0.0, 0.3, 0.5, 0.8, 1.0] {
                for mh in [0, 1, 2, 3] {
                    if th == 0.5 && mh == 1 {
                        continue;
                    }
                    let cfg = Cfg { t: th, mh };
                    v.push(fam(s1.clone(), cfg, DEFMODE, false, &format!("/t{th}h{mh}"), false, f));
                    v.push(fam(s2.clone(), cfg, DEFMODE, false, &format!("/t{th}h{mh}"), false, f));
                }
            }
            for (tag, m) in [("/own", Mode::Own(0, 9, false)), ("/level", Mode::Own(5, 0, true)), ("/mixed", Mode::Mixed), ("/holes", Mode::Lib(Numbering::Holes, Numbering::Reversed))] {
                v.push(fam(s1.clone(), Cfg::DEF, m, false, tag, false, f));
                v.push(fam(s2.clone(), Cfg::DEF, m, false, tag, false, f));
            }
            v
        },
    },
    Check {
        id: "C06",
        level: "model_checking",
        rule: RULE,
        assumptions: ASM,
        families: |t| {
            over(t, false, |a, b, r, _, _, o| {
                o.step(r.ops.len() as u64);
                o.trace();
                updates_complete(a, b, r)
            })
        },
    },
    Check {
        id: "C08",
        level: "model_checking",
        rule: RULE,
        assumptions: ASM,
        families: |t| {
            let mut v = over(t, false, |a, b, r, cfg, hp, o| {
                o.step(r.pairs.len() as u64);
                o.trace();
                thresholds(a, b, &a.hashes(hp), &b.hashes(hp), r, cfg)
            });
            // the default configuration is the one that is documented
            for hp in [false, true] {
                for sp in [spaces::kinds(4), spaces::props(3), spaces::edit1(false), spaces::many_props(6), spaces::lists(4, 3, 4)] {
                    v.push(fam(Arc::new(sp), Cfg::DEF, DEFMODE, hp, if hp { "/default/hp" } else { "/default" }, false, |a, b, r, _, hp, o| {
                        o.trace();
                        let c = cinereus::MatchingConfig::default();
                        ensure!(c.similarity_threshold == 0.5 && c.min_height == 1, "the default configuration is {c:?}");
                        let e = run_explicit(a, b, Cfg::DEF, hp)?;
                        ensure!(e.pairs == r.pairs && e.ops == r.ops, "the default configuration gives another result than threshold 0.5 and minimum height 1: {:?}", e.pairs);
                        Ok(())
                    }));
                }
            }
            v
        },
    },
    Check {
        id: "C09",
        level: "model_checking",
        rule: RULE,
        assumptions: ASM,
        families: |t| {
            over(t, true, |a, b, r, cfg, hp, o| {
                o.step(r.pairs.len() as u64);
                o.trace();
                maximal(a, b, &a.hashes(hp), &b.hashes(hp), r, cfg)
            })
        },
    },
    Check {
        id: "C10",
        level: "model_checking",
        rule: RULE,
        assumptions: ASM,
        families: |t| {
            over(t, true, |a, b, r, cfg, hp, o| {
                o.trace();
                let n = blocks_kept(a, b, &a.hashes(hp), &b.hashes(hp), r, cfg)?;
                o.step(n as u64);
                Ok(())
            })
        },
    },
    Check {
        id: "C15",
        level: "model_checking",
        rule: RULE,
        assumptions: ASM,
        families: |t| {
            over(t, false, |a, b, r, cfg, _, o| {
                o.trace();
                let n = stays_put(a, b, r, cfg)?;
                o.step(n as u64);
                Ok(())
            })
        },
    },
    Check {
        id: "C17",
        level: "model_checking",
        rule: RULE,
        assumptions: ASM,
        families: |t| {
            over(t, false, |a, b, r, cfg, hp, o| {
                o.trace();
                let n = no_jumps(a, b, &a.hashes(hp), &b.hashes(hp), r, cfg)?;
                o.step(n as u64);
                Ok(())
            })
        },
    },
    Check { id: "C16", level: "model_checking", rule: "Every distribution of the surviving blocks of one or two moved containers over one to three candidates, with every exact share of survivors and every threshold of the list, against the greedy choice by greatest share. All cases are non-trivial.", assumptions: ASM, families: extra::shares },
    Check { id: "C07", level: "model_checking", rule: "Every pair is diffed repeatedly: again, with other node numberings, with an independent tree implementation, and through each public entry point; all results must coincide. Non-trivial: the trees differ.", assumptions: ASM, families: extra::determinism },
    Check { id: "C11", level: "model_checking", rule: "Every single edit of each document with distinct contents; the script may only touch the edited place. All cases are non-trivial.", assumptions: ASM, families: extra::locality },
    Check { id: "C12", level: "model_checking", rule: "For every pair of trees, the script is generated from every admissible matching, not only the one the library would compute, and replayed. Non-trivial: roots comparable.", assumptions: ASM, families: extra::any_matching },
    Check { id: "C13", level: "model_checking", rule: "Every history of additions, all look-ups after every step, against a list model. Non-trivial: at least one addition.", assumptions: &["additions are one-to-one, as the matcher guarantees (checked by C02)"], families: extra::container },
    Check { id: "C14", level: "model_checking", rule: "Every growth history / shape; every navigation query after every step, against a parent-array model.", assumptions: &[], families: extra::tree_api },
];
