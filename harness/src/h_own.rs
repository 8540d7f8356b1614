//! Model registry, retraining pipeline and active-learning queue of decy-ownership: every history of operations.
use crate::sym;
use decy_ownership::active_learning::*;
use decy_ownership::ml_features::*;
use decy_ownership::model_versioning::*;
use decy_ownership::retraining_pipeline::*;

/// A symbolic rate: any double in [0, 1].
#[allow(dead_code)]
fn full() -> f64 {
    let v = sym::f64();
    sym::assume(v >= 0.0 && v <= 1.0);
    v
}
/// A rate on the grid 0.5 + k/128 (used where rates are subtracted; the grid straddles the 0.01 and 0.05 margins).
fn rate() -> f64 {
    f64::from_bits(0x3FE0_0000_0000_0000 | (sym::int(6) << 46))
}
fn metrics() -> ModelQualityMetrics {
    ModelQualityMetrics::new(rate(), rate(), rate(), rate(), 0.9, 0.0, 7)
}

// ---------------------------------------------------------------- model registry (C12)
#[derive(Clone)]
struct Rec {
    v: ModelVersion,
    m: ModelQualityMetrics,
    rolled: bool,
}
fn better(a: &ModelQualityMetrics, b: &ModelQualityMetrics) -> bool {
    let far = (a.accuracy - b.accuracy).abs() > 0.01;
    (far & (a.accuracy > b.accuracy)) | (!far & (a.f1_score > b.f1_score))
}
fn meets(a: &ModelQualityMetrics, t: &QualityThresholds) -> bool {
    (a.accuracy >= t.min_accuracy) & (a.precision >= t.min_precision) & (a.recall >= t.min_recall) & (a.f1_score >= t.min_f1)
}
/// What every state of the registry must satisfy.
fn sane(m: &ModelVersionManager, max: usize) {
    let mut active = 0;
    let mut prev: Option<ModelVersion> = None;
    for e in m.versions() {
        if let Some(p) = &prev {
            sym::check(p < &e.version, "registry: versions not strictly increasing");
        }
        prev = Some(e.version.clone());
        if e.is_active {
            active += 1;
            sym::check(!e.rolled_back, "registry: the active version is marked rolled back");
            let a = m.active_version();
            sym::check(a.is_some() && a.unwrap().version == e.version, "registry: the entry flagged active is not the active version");
        }
        sym::check(!e.rolled_back || e.rollback_reason.is_some(), "registry: rolled back without a reason");
    }
    sym::check(active <= 1, "registry: more than one active version");
    if let Some(a) = m.active_version() {
        sym::check(a.is_active, "registry: the active version is not flagged active");
    }
    sym::check(m.version_count() <= max, "registry: history longer than its maximum");
    sym::check(m.version_count() == m.versions().count(), "registry: version_count");
}
/// Metrics that meet the thresholds below; accuracy and F1 symbolic.
fn good() -> ModelQualityMetrics {
    ModelQualityMetrics::new(rate(), 0.75, 0.75, rate(), 0.9, 0.0, 7)
}
fn registry(ops: usize, max: usize, tags: bool) {
    let th = QualityThresholds { min_accuracy: 0.5, min_precision: 0.5, min_recall: 0.5, min_f1: 0.5 };
    let mut m = ModelVersionManager::with_thresholds(th.clone()).with_max_history(max);
    let mut model: Vec<Rec> = vec![];
    let mut active: Option<ModelVersion> = None;
    let mut rolls = 0;
    let mut desc = String::new();
    for k in 0..ops {
        let op = if k == 0 { 0 } else { sym::choice(6) };
        match op {
            0 | 1 | 2 => {
                desc.push(['R', 'r', 'S'][op]);
                let last = model.last().map(|r| r.v.clone()).unwrap_or(ModelVersion::new(1, 2, 3));
                let v = match (op, k) {
                    (2, 1) => ModelVersion::new(1, 2, 3),
                    (2, _) => last.clone(),
                    (_, 2) => ModelVersion::new(last.major + 1, 0, 0),
                    _ => last.bump_patch(),
                };
                let mut q = good();
                if op == 1 {
                    match k {
                        1 => q.accuracy = 0.25,
                        2 => q.f1_score = 0.25,
                        3 => q.precision = 0.25,
                        _ => q.recall = 0.25,
                    }
                }
                let ok_v = model.last().map(|l| l.v < v).unwrap_or(true);
                let act = ok_v && meets(&q, &th) && active.as_ref().map(|a| better(&q, &model.iter().find(|r| &r.v == a).unwrap().m)).unwrap_or(true);
                let n0 = m.version_count();
                match m.register_version(ModelEntry::new(v.clone(), q.clone(), "d", "p")) {
                    Ok(b) => {
                        sym::reach(1);
                        sym::check(ok_v, "registry: accepted a version not newer than the latest");
                        sym::check(b == act, "registry: activation differs from meeting the thresholds and being better");
                        model.push(Rec { v: v.clone(), m: q, rolled: false });
                        if b {
                            active = Some(v.clone());
                        }
                        while model.len() > max {
                            let i = model.iter().position(|r| Some(&r.v) != active.as_ref()).unwrap();
                            model.remove(i);
                        }
                    }
                    Err(_) => {
                        sym::reach(2);
                        sym::check(!ok_v, "registry: refused a newer version");
                        sym::check(m.version_count() == n0, "registry: a refused registration changed the history");
                    }
                }
            }
            3 => {
                desc.push('B');
                let exp = active.as_ref().and_then(|a| {
                    let i = model.iter().position(|r| &r.v == a).unwrap();
                    model[..i].iter().rev().find(|r| !r.rolled).map(|r| r.v.clone())
                });
                match m.rollback("why") {
                    Ok(r) => {
                        sym::reach(3);
                        sym::check(r.from_version != r.to_version, "rollback: to the version it rolls back from");
                        sym::check(Some(&r.from_version) == active.as_ref(), "rollback: not from the active version");
                        sym::check(r.to_version < r.from_version, "rollback: not to an earlier version");
                        sym::check(Some(&r.to_version) == exp.as_ref(), "rollback: not to the previous version that is not rolled back");
                        sym::check(r.success && r.reason == "why", "rollback: result");
                        for e in model.iter_mut() {
                            if Some(&e.v) == active.as_ref() {
                                e.rolled = true;
                            }
                        }
                        active = Some(r.to_version);
                        rolls += 1;
                    }
                    Err(_) => sym::check(exp.is_none(), "rollback: refused although an earlier version is available"),
                }
            }
            4 => {
                desc.push('T');
                let i = sym::choice(model.len().min(3) + 1);
                let t = if i < model.len() { model[model.len() - 1 - i].v.clone() } else { ModelVersion::new(9, 9, 9) };
                let can = i < model.len() && active.is_some() && active.as_ref() != Some(&t);
                match m.rollback_to(&t, "tt") {
                    Ok(r) => {
                        sym::reach(4);
                        sym::check(can, "rollback_to: accepted an unknown or already active version");
                        sym::check(Some(&r.from_version) == active.as_ref() && r.to_version == t, "rollback_to: result");
                        for e in model.iter_mut() {
                            if Some(&e.v) == active.as_ref() {
                                e.rolled = true;
                            }
                            if e.v == t {
                                e.rolled = false;
                            }
                        }
                        active = Some(t);
                        rolls += 1;
                    }
                    Err(_) => sym::check(!can, "rollback_to: refused a registered version that is not active"),
                }
            }
            _ => {
                desc.push('A');
                let mut q = good();
                if sym::choice(2) == 0 {
                    q.f1_score = 0.25;
                }
                let acc = q.accuracy;
                let below = !meets(&q, &th)
                    | active.as_ref().map(|a| acc < model.iter().find(|r| &r.v == a).unwrap().m.accuracy - 0.05).unwrap_or(false);
                sym::check(m.check_quality(&q).is_some() == below, "check_quality: verdict");
                let exp = active.as_ref().and_then(|a| {
                    let i = model.iter().position(|r| &r.v == a).unwrap();
                    model[..i].iter().rev().find(|r| !r.rolled).map(|r| r.v.clone())
                });
                let r = m.auto_rollback_if_needed(&q);
                sym::check(r.is_some() == (below && exp.is_some()), "auto rollback: when");
                if let Some(r) = r {
                    sym::reach(5);
                    sym::check(Some(&r.from_version) == active.as_ref() && Some(&r.to_version) == exp.as_ref(), "auto rollback: result");
                    for e in model.iter_mut() {
                        if Some(&e.v) == active.as_ref() {
                            e.rolled = true;
                        }
                    }
                    active = exp;
                    rolls += 1;
                }
            }
        }
        if tags {
            sym::tag(&desc);
        }
        sane(&m, max);
        sym::check(m.active_version().map(|e| e.version.clone()) == active, "registry: active version");
        sym::check(m.version_count() == model.len(), "registry: which versions are kept");
        for (e, r) in m.versions().zip(model.iter()) {
            sym::check(e.version == r.v, "registry: which versions are kept");
            sym::check(e.rolled_back == r.rolled, "registry: rolled-back flag");
            sym::check(e.metrics.accuracy == r.m.accuracy && e.metrics.f1_score == r.m.f1_score, "registry: metrics of a version changed");
        }
        sym::check(m.rollback_history().len() == rolls, "registry: rollback history");
    }
}
/// A registry with room for all of the operations.
pub fn reg4() {
    registry(4, 9, true)
}
/// A registry that must forget: at most two versions.
pub fn reg_prune() {
    registry(4, 2, true)
}
pub fn reg2() {
    registry(2, 9, true)
}
pub fn reg5() {
    registry(5, 3, true)
}
pub fn reg_vac() {
    let mut m = ModelVersionManager::new();
    let q = metrics();
    let b = m.register_version(ModelEntry::new(ModelVersion::new(1, 0, 0), q.clone(), "d", "p")).unwrap();
    sym::check(!b, "vacuity witness");
}
/// Version text round-trips and the bumps are increasing.
pub fn reg_ver() {
    let v = ModelVersion::new(sym::below(1000), sym::below(100), sym::below(10));
    let s = v.to_string();
    sym::outs(&s);
    sym::check(ModelVersion::parse(&s) == Some(v.clone()), "version: text does not parse back");
    sym::check(ModelVersion::parse(&s[1..]) == Some(v.clone()), "version: text without v does not parse back");
    sym::check(v < v.bump_patch() && v.bump_patch() < v.bump_minor() && v.bump_minor() < v.bump_major(), "version: bump order");
    sym::reach(1);
}
/// Parsing arbitrary text never panics and only accepts three dotted numbers.
pub fn reg_parse() {
    let n = sym::choice(8);
    let mut s = String::new();
    for _ in 0..n {
        let k = sym::choice(3);
        s.push(match k {
            0 => '.',
            1 => 'v',
            _ => {
                let b = sym::u8();
                sym::assume(b != b'.' && b != b'v' && b < 128);
                b as char
            }
        });
    }
    if let Some(v) = ModelVersion::parse(&s) {
        sym::reach(1);
        let core: &str = s.trim_start_matches('v');
        let parts: Vec<&str> = core.split('.').collect();
        sym::check(parts.len() == 3, "version: accepted text without three parts");
        let p = |t: &str| t.trim_start_matches('+').bytes().fold(0u32, |a, b| a * 10 + (b.wrapping_sub(b'0')) as u32);
        sym::check(parts.iter().all(|t| !t.is_empty() && t.trim_start_matches('+').bytes().all(|b| b.is_ascii_digit())), "version: accepted a part that is not a number");
        sym::check(v == ModelVersion::new(p(parts[0]), p(parts[1]), p(parts[2])), "version: parsed value");
    }
}

// ---------------------------------------------------------------- retraining (C13)
struct Tr {
    m: TrainingMetrics,
    fail: bool,
}
struct Shared(std::rc::Rc<std::cell::RefCell<Tr>>);
impl ModelTrainer for Shared {
    fn train(&self, _d: &DataSplit) -> Result<TrainingMetrics, String> {
        let t = self.0.borrow();
        if t.fail {
            Err("boom".into())
        } else {
            Ok(t.m.clone())
        }
    }
}
fn tm(p: f64, r: f64, f1: f64) -> TrainingMetrics {
    let mut m = TrainingMetrics::new(0.0, 0.0);
    m.precision = p;
    m.recall = r;
    m.f1_score = f1;
    m
}
fn sample(i: usize) -> TrainingSample {
    TrainingSample::new(OwnershipFeatures::default(), InferredOwnership::Owned, "f", i as u32)
}
pub fn pipeline(runs: usize) {
    use std::{cell::RefCell, rc::Rc};
    let cfg = RetrainingConfig {
        min_precision: rate(),
        min_recall: rate(),
        max_degradation: sym::pick(&[0.0, 0.02, 0.125]),
        min_train_samples: 2,
        min_validation_samples: 1,
        min_test_samples: 1,
        train_ratio: 0.5,
        validation_ratio: 0.25,
        ..RetrainingConfig::default()
    };
    let th = QualityThresholds { min_accuracy: rate(), min_precision: rate(), min_recall: rate(), min_f1: rate() };
    let tr = Rc::new(RefCell::new(Tr { m: tm(0.0, 0.0, 0.0), fail: false }));
    let mut p = RetrainingPipeline::new(Shared(tr.clone()), ModelVersionManager::with_thresholds(th.clone()), cfg.clone());
    let mut promoted = 0usize;
    for k in 0..runs {
        let n = sym::pick(&[3usize, 4, 8]);
        let fail = sym::choice(3) == 0;
        let (pr, rc, f1) = (rate(), rate(), rate());
        *tr.borrow_mut() = Tr { m: tm(pr, rc, f1), fail };
        let before = p.current_version().map(|e| (e.version.clone(), e.metrics.f1_score));
        let before_m = p.current_version().map(|e| e.metrics.clone());
        let r = p.execute((0..n).map(sample).collect());
        let after = p.current_version().map(|e| (e.version.clone(), e.metrics.f1_score));
        sym::check(p.history().len() == k + 1 && p.history()[k].sample_count == n, "retraining: history");
        let h = &p.history()[k].result;
        match &r {
            RetrainingResult::Promoted { version, metrics } => {
                sym::reach(1);
                promoted += 1;
                sym::check(n >= 4 && !fail, "retraining: promoted without enough data or training");
                sym::check(pr >= cfg.min_precision && rc >= cfg.min_recall, "retraining: promoted below the quality gate");
                if let Some((_, f)) = &before {
                    sym::check(!(f - f1 > cfg.max_degradation), "retraining: promoted a degraded model");
                }
                sym::check(metrics.precision == pr && metrics.recall == rc && metrics.f1_score == f1, "retraining: metrics of the promotion");
                sym::check(matches!(h, ExecutionSummary::Promoted { version: v } if v == &version.to_string()), "retraining: history entry");
                // the registry's own rule: its thresholds, and better than the active version
                let q = ModelQualityMetrics::new(f1, pr, rc, f1, 0.9, 0.0, 0);
                let act = meets(&q, &th) && before_m.as_ref().map(|b| better(&q, b)).unwrap_or(true);
                if act {
                    sym::reach(5);
                    sym::check(after.as_ref().map(|a| &a.0) == Some(version), "retraining: the promoted version is not the current one");
                } else {
                    sym::check(after.as_ref().map(|a| &a.0) == Some(version), "retraining: reports a promotion that the registry declined");
                }
                sym::check(before.as_ref().map(|b| &b.0 < version).unwrap_or(true), "retraining: the promoted version is not newer");
            }
            other => {
                sym::check(before.as_ref().map(|b| &b.0) == after.as_ref().map(|b| &b.0), "retraining: current version changed without a promotion");
                match other {
                    RetrainingResult::InsufficientData { actual, required } => {
                        sym::reach(2);
                        sym::check(n < 4 && *actual == n && *required == 4, "retraining: insufficient data");
                        sym::check(matches!(h, ExecutionSummary::InsufficientData), "retraining: history entry");
                    }
                    RetrainingResult::TrainingError { error } => {
                        sym::check(n >= 4 && fail && error == "boom", "retraining: training error");
                        sym::check(matches!(h, ExecutionSummary::Error { .. }), "retraining: history entry");
                    }
                    RetrainingResult::QualityGateFailed { .. } => {
                        sym::reach(3);
                        sym::check(n >= 4 && !fail && !(pr >= cfg.min_precision && rc >= cfg.min_recall), "retraining: quality gate failed although met");
                        sym::check(matches!(h, ExecutionSummary::QualityGateFailed { .. }), "retraining: history entry");
                    }
                    RetrainingResult::Degraded { degradation, .. } => {
                        sym::reach(4);
                        let f = before.as_ref().map(|b| b.1).unwrap_or(0.0);
                        sym::check(before.is_some() && *degradation == f - f1 && *degradation > cfg.max_degradation, "retraining: degraded although not");
                        sym::check(matches!(h, ExecutionSummary::Degraded { .. }), "retraining: history entry");
                    }
                    RetrainingResult::Promoted { .. } => {}
                }
            }
        }
        sym::check(p.success_rate() == promoted as f64 / (k + 1) as f64, "retraining: success rate");
    }
}
pub fn retrain2() {
    pipeline(2)
}
pub fn retrain3() {
    pipeline(3)
}
/// The split is a partition in order, whatever the sizes and ratios.
pub fn split() {
    let n = sym::choice(9);
    let tr = sym::pick(&[0.0, 0.1, 0.33, 0.5, 0.7, 0.9, 1.0]);
    let vr = sym::pick(&[0.0, 0.15, 0.3, 0.5, 0.9, 1.0]);
    let d = DataSplit::new((0..n).map(sample).collect(), tr, vr);
    sym::check(d.total_count() == n, "split: count");
    let all: Vec<u32> = d.train.iter().chain(d.validation.iter()).chain(d.test.iter()).map(|s| s.line_number).collect();
    sym::check(all.len() == n && all.iter().enumerate().all(|(i, l)| *l == i as u32), "split: not a partition");
    sym::check(d.train.len() == (n as f64 * tr) as usize, "split: training share");
    sym::check(tr + vr > 1.0 || d.validation.len() == (n as f64 * vr) as usize, "split: validation share");
    sym::reach(1);
}

// ---------------------------------------------------------------- active learning (C15)
fn pred(kind: InferredOwnership, conf: f32) -> OwnershipPrediction {
    OwnershipPrediction { kind, confidence: conf, fallback: None }
}
fn queue(ops: usize) {
    let max = 1 + sym::choice(2);
    let mut q = SampleQueue::new(SelectionStrategy::UncertaintySampling).with_max_pending(max);
    let mut model: Vec<(u64, f64)> = vec![];
    let mut seen = 0u64;
    let mut labelled: Vec<(u64, bool)> = vec![];
    for _ in 0..ops {
        match sym::choice(3) {
            0 => {
                let u = sym::f64();
                sym::assume(u == u);
                let s = UncertainSample::new(77, "v", OwnershipFeatures::default(), pred(InferredOwnership::Owned, 0.5), u, SelectionStrategy::UncertaintySampling);
                let u = s.uncertainty_score;
                sym::check(u >= 0.0 && u <= 1.0, "queue: score outside 0..1");
                let id = q.enqueue(s);
                seen += 1;
                sym::check(id == seen, "queue: identifiers not consecutive");
                let pos = model.iter().position(|m| m.1 < u).unwrap_or(model.len());
                model.insert(pos, (id, u));
                model.truncate(max);
            }
            1 => {
                let k = sym::choice(3);
                let b = if k == 0 { q.next_for_labeling().into_iter().collect() } else { q.batch_for_labeling(k) };
                let want = k.max(1).min(model.len());
                sym::check(b.len() == want, "queue: batch size");
                for (s, m) in b.into_iter().zip(model.drain(..want)) {
                    sym::reach(1);
                    sym::check(s.id == m.0 && s.uncertainty_score == m.1, "queue: not the most uncertain sample");
                    let mut s = s;
                    match sym::choice(3) {
                        0 => {}
                        1 => {
                            s.apply_label(InferredOwnership::Owned);
                            labelled.push((s.id, true));
                        }
                        _ => {
                            s.apply_label(InferredOwnership::Shared);
                            labelled.push((s.id, false));
                        }
                    }
                    q.submit_labeled(s);
                }
            }
            _ => {
                let t = q.take_labeled_samples();
                sym::check(t.len() == labelled.len() && t.iter().zip(labelled.iter()).all(|(a, b)| a.id == b.0), "queue: labelled samples");
                labelled.clear();
            }
        }
        sym::check(q.peek_next().map(|s| s.id) == model.first().map(|m| m.0), "queue: next sample");
        let st = q.stats();
        sym::check(st.pending == model.len() && q.pending_count() == model.len(), "queue: pending count");
        sym::check(st.labeled == labelled.len() && q.labeled_count() == labelled.len(), "queue: labelled count");
        sym::check(st.total_processed == seen && q.total_processed() == seen, "queue: processed count");
        let c = labelled.iter().filter(|l| l.1).count();
        sym::check(st.prediction_accuracy == if labelled.is_empty() { 0.0 } else { c as f64 / labelled.len() as f64 }, "queue: accuracy");
        let g: Vec<(u64, bool)> = q.get_labeled_samples().iter().map(|s| (s.id, s.prediction_correct() == Some(true))).collect();
        sym::check(g == labelled, "queue: labelled samples");
    }
}
pub fn queue4() {
    queue(4)
}
pub fn queue5() {
    queue(5)
}
/// The learner queues exactly the predictions at least as uncertain as its threshold.
pub fn learner() {
    let min = if sym::choice(2) == 0 { rate() } else { rate() - 0.5 };
    let mut l = ActiveLearner::new().with_min_uncertainty(min);
    for k in 0..2 {
        let c = if sym::choice(2) == 0 { f32::from_bits(0x3F00_0000 | (sym::int(6) as u32) << 17) } else { f32::from_bits(0x3E80_0000 | (sym::int(6) as u32) << 17) };
        let before = l.stats();
        let (u, queued) = l.process_prediction("v", OwnershipFeatures::default(), pred(InferredOwnership::Borrowed, c));
        sym::check(u == 1.0 - c as f64, "learner: uncertainty");
        sym::check(queued == (u >= min), "learner: queued although certain, or not queued although uncertain");
        sym::check(l.stats().pending == before.pending + queued as usize, "learner: pending count");
        sym::reach(1 + k);
    }
    let a = l.next_for_labeling();
    let b = l.next_for_labeling();
    if let (Some(a), Some(b)) = (a, b) {
        sym::reach(3);
        sym::check(a.uncertainty_score >= b.uncertainty_score, "learner: order");
    }
}

/// The activation rule for all thresholds and all metrics of the first two versions (any double in 0..1).
pub fn reg_rule() {
    let th = QualityThresholds { min_accuracy: full(), min_precision: full(), min_recall: full(), min_f1: full() };
    let q = ModelQualityMetrics::new(full(), full(), full(), full(), full(), full(), 7);
    let mut m = ModelVersionManager::with_thresholds(th.clone());
    let b = m.register_version(ModelEntry::new(ModelVersion::new(1, 0, 0), q.clone(), "d", "p")).unwrap();
    sym::check(b == meets(&q, &th), "registry: first version activated other than by the thresholds");
    sym::check(q.meets_thresholds(&th) == meets(&q, &th), "registry: thresholds");
    sym::check(m.check_quality(&q).is_some() == !meets(&q, &th), "check_quality: thresholds");
    if b {
        sym::reach(1);
    } else {
        sym::reach(2);
    }
}
pub fn reg_better() {
    let g = || f64::from_bits(0x3FE0_0000_0000_0000 | (sym::int(4) << 46));
    let q = || ModelQualityMetrics::new(g(), 0.75, 0.75, g(), 0.9, 0.0, 7);
    let (a, b) = (q(), q());
    sym::check(a.is_better_than(&b) == better(&a, &b), "registry: better");
    sym::check(!(a.is_better_than(&b) && b.is_better_than(&a)), "registry: better both ways");
    sym::reach(1);
}
