//! Change one parameter of a booster through its setter or public field.
use crate::case::*;
use forust_ml::GradientBooster;

pub const FIELDS: [&str; 27] = [
    "objective", "iterations", "learning_rate", "max_depth", "max_leaves", "nbins", "l1", "l2", "gamma", "max_delta_step", "min_leaf_weight", "base_score",
    "init_base", "parallel", "allow_missing_splits", "mono", "subsample", "colsample", "seed", "missing_branch", "sample", "metric", "esr", "terminate",
    "lossguide", "treatment", "force_bound",
];

/// Change one parameter, on the booster (through its setter or its public field) and in the model.
pub fn set(b: GradientBooster, p: &mut Params, field: &str, v: usize, setter: bool, cols: usize) -> GradientBooster {
    let mut b = b;
    macro_rules! put {
        ($pf:ident, $set:ident, $bf:ident, $val:expr) => {{
            p.$pf = $val;
            if setter {
                b = b.$set(p.$pf);
            } else {
                b.$bf = p.$pf;
            }
        }};
    }
    match field {
        "objective" => {
            p.logloss = v % 2 == 0;
            if setter {
                b = b.set_objective_type(p.objective());
            } else {
                b.objective_type = p.objective();
            }
        }
        "iterations" => put!(iterations, set_iterations, iterations, 1 + v % 5),
        "learning_rate" => put!(learning_rate, set_learning_rate, learning_rate, [0.3, 1.0, 0.1][v % 3]),
        "max_depth" => put!(max_depth, set_max_depth, max_depth, 1 + v % 5),
        "max_leaves" => put!(max_leaves, set_max_leaves, max_leaves, [usize::MAX, 4, 7][v % 3]),
        "nbins" => put!(nbins, set_nbins, nbins, [256, 5, 16][v % 3]),
        "l1" => put!(l1, set_l1, l1, [0.0, 0.1, 0.5][v % 3]),
        "l2" => put!(l2, set_l2, l2, [1.0, 0.1, 5.0][v % 3]),
        "gamma" => put!(gamma, set_gamma, gamma, [0.0, 0.1, 1.0][v % 3]),
        "max_delta_step" => put!(max_delta_step, set_max_delta_step, max_delta_step, [0.0, 0.1, 1.0][v % 3]),
        "min_leaf_weight" => put!(min_leaf_weight, set_min_leaf_weight, min_leaf_weight, [1.0, 0.1, 3.0][v % 3]),
        "base_score" => put!(base_score, set_base_score, base_score, [0.5, 0.0, -1.5][v % 3]),
        "init_base" => put!(init_base, set_initialize_base_score, initialize_base_score, v % 2 == 0),
        "parallel" => put!(parallel, set_parallel, parallel, v % 2 == 0),
        "allow_missing_splits" => put!(allow_missing_splits, set_allow_missing_splits, allow_missing_splits, v % 2 == 0),
        "mono" => {
            p.mono = if v % 3 == 0 { None } else { Some((0..cols).map(|j| (j, ((v + j) % 3) as i8 - 1)).collect()) };
            if setter {
                b = b.set_monotone_constraints(p.constraint_map());
            } else {
                b.monotone_constraints = p.constraint_map();
            }
        }
        "subsample" => put!(subsample, set_subsample, subsample, [1.0, 0.5, 0.8][v % 3]),
        "colsample" => put!(colsample, set_colsample_bytree, colsample_bytree, [1.0, 0.5, 0.8][v % 3]),
        "seed" => put!(seed, set_seed, seed, v as u64),
        "missing_branch" => put!(missing_branch, set_create_missing_branch, create_missing_branch, v % 2 == 0),
        "sample" => {
            p.sample = (v % 3) as u8;
            if setter {
                b = b.set_sample_method(p.sample_enum());
            } else {
                b.sample_method = p.sample_enum();
            }
        }
        "metric" => {
            p.metric = [None, Some(0), Some(1), Some(2), Some(3)][v % 5];
            if setter {
                b = b.set_evaluation_metric(p.metric_enum());
            } else {
                b.evaluation_metric = p.metric_enum();
            }
        }
        "esr" => put!(esr, set_early_stopping_rounds, early_stopping_rounds, [None, Some(1), Some(2)][v % 3]),
        "terminate" => {
            p.terminate = (0..cols).filter(|j| (v >> j) & 1 == 1).collect();
            let t = p.terminate.iter().copied().collect();
            if setter {
                b = b.set_terminate_missing_features(t);
            } else {
                b.terminate_missing_features = t;
            }
        }
        "lossguide" => {
            p.lossguide = v % 2 == 0;
            b.grow_policy = p.grow_enum();
        }
        "treatment" => {
            p.treatment = (v % 4) as u8;
            b.missing_node_treatment = p.treatment_enum();
        }
        "force_bound" => {
            p.force_bound = v % 2 == 0;
            b.force_children_to_bound_parent = p.force_bound;
        }
        _ => {}
    }
    b
}

