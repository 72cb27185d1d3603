"""The public surface of robpy as JSON operations: construct, fit, query, plot, load, observe."""
import importlib
import io
import os
import pickle

import numpy as np

from robsim import cmp, data, sched

COV_ATTRS = ["location_", "covariance_", "precision_", "n_features_in_", "default_covariance_",
             "correlation_"]
UNI_ATTRS = ["location_", "scale_"]


def _n(rng, small):
    return rng.choice([12, 16, 20, 25, 30]) if small else rng.choice(
        [14, 20, 30, 30, 40, 60, 100])


def _cov_data(rng, small=True, **kw):
    r = data.recipe(rng, n=_n(rng, small), p=rng.choice([2, 2, 3, 3, 4]), what="X")
    data.decorate(rng, r)
    r.update(kw)
    return r


def _mcd_params(rng):
    d = {"n_initial_subsets": rng.choice([6, 10, 20, 30]),
         "n_best_subsets": rng.choice([1, 3, 10])}
    if rng.random() < 0.5:
        d["alpha"] = rng.choice([0.5, 0.6, 0.75, 0.9, 1, 1.0, 16, 20])
    if rng.random() < 0.3:
        d["reweighting"] = False
    if rng.random() < 0.3:
        d["correct_covariance"] = False
    if rng.random() < 0.2:
        d["n_partitions"] = 2
    if rng.random() < 0.2:
        d["store_precision"] = False
    if rng.random() < 0.15:
        d["n_initial_c_steps"] = rng.choice([1, 3])
    if rng.random() < 0.15:
        d["tolerance"] = rng.choice([1e-3, 1e-12])
    if rng.random() < 0.08:
        d["assume_centered"] = True
    if rng.random() < 0.7:
        d["random_seed"] = rng.choice([0, 1, 2, 42, 1234, 987654])
    return d


def _mcd_data(rng, small=True):
    r = _cov_data(rng, small)
    if r["p"] > 3:
        r["p"] = 3
    r["n"] = max(r["n"], 30)
    return r


def _detmcd_params(rng):
    d = {}
    if rng.random() < 0.5:
        d["alpha"] = rng.choice([0.5, 0.75, 0.9, 1, 8, 10, 14])
    if rng.random() < 0.15:
        d["tolerance"] = rng.choice([1e-3, 1e-12])
    if rng.random() < 0.3:
        d["reweighting"] = False
    if rng.random() < 0.3:
        d["correct_covariance"] = False
    return d


def _ogk_params(rng):
    d = {}
    if rng.random() < 0.4:
        d["reweighting"] = True
        if rng.random() < 0.4:
            d["reweighting_beta"] = rng.choice([0.5, 0.975])
    if rng.random() < 0.15:
        d["store_precision"] = False
    if rng.random() < 0.08:
        d["assume_centered"] = True
    if rng.random() < 0.3:
        d["n_iterations"] = rng.choice([1, 3])
    if rng.random() < 0.3:
        d["location_estimator"] = {"$fn": "numpy.mean"}
        d["scale_estimator"] = {"$fn": "numpy.std"}
    return d


def _wrap_params(rng):
    d = {"b": rng.choice([1.0, 1.5]), "c": 4.0} if rng.random() < 0.3 else {}
    if rng.random() < 0.1:
        d.update(b=1.3, c=4.0, q1=1.457, q2=0.9223)
    if rng.random() < 0.15:
        d["store_precision"] = False
    if rng.random() < 0.08:
        d["assume_centered"] = True
    return d


def _cell_params(rng):
    d = {}
    if rng.random() < 0.5:
        d["alpha"] = rng.choice([0.5, 0.75, 0.9])
    if rng.random() < 0.4:
        d["quantile"] = rng.choice([0.95, 0.99])
    if rng.random() < 0.3:
        d["max_c_steps"] = rng.choice([1, 5])
    if rng.random() < 0.15:
        d["crit"] = rng.choice([1e-2, 1e-6])
    if rng.random() < 0.15:
        d["min_eigenvalue"] = rng.choice([1e-2, 1e-3])
    return d


def _cell_data(rng, small=True):
    p = rng.choice([2, 3, 3, 4])
    r = data.recipe(rng, n=p * rng.choice([7, 9, 12]) + rng.randrange(5), p=p, kind="gauss",
                    what="X")
    if rng.random() < 0.6:
        r["nan"] = rng.choice([0.02, 0.05])
    if rng.random() < 0.5:
        r["out"] = {"frac": 0.08, "type": "cell", "size": rng.choice([6, 20])}
    r["form"] = rng.choice(["array", "frame", "fortran"])
    return r


def _ddc_data(rng, small=True):
    r = data.recipe(rng, n=rng.choice([18, 25, 35]), p=rng.choice([2, 3, 4, 5]), what="X",
                    kind=rng.choice(["gauss", "gauss", "t"]), rho=rng.choice([0.5, 2.0]))
    if rng.random() < 0.6:
        r["nan"] = rng.choice([0.02, 0.05])
    if rng.random() < 0.5:
        r["out"] = {"frac": 0.1, "type": "cell", "size": rng.choice([6, 20])}
    if r.get("nan") and rng.random() < 0.3:
        r["inf"] = rng.choice([1, 3])
    r["form"] = "frame"
    r["index"] = rng.choice(["range", "labels", "shift"])
    return r


def _reg_data(rng, small=True):
    r = data.recipe(rng, n=_n(rng, small), p=rng.choice([1, 1, 2, 3]), kind="gauss", what="xy")
    r["noise"] = rng.choice([0.1, 0.5, 2.0])
    if rng.random() < 0.5:
        r["vout"] = {"frac": rng.choice([0.1, 0.2, 0.3]), "size": rng.choice([5, 50, 1e4]),
                     "lev": rng.choice([0, 0, 10])}
    if rng.random() < 0.1:
        r["round"] = 0
    r["form"] = rng.choice(["array", "frame", "fortran", "strided"])
    return r


def _ddc_params(rng):
    d = {} if rng.random() < 0.5 else {
        "chi2_quantile": rng.choice([0.95, 0.99]), "min_correlation": rng.choice([0.3, 0.5])}
    if rng.random() < 0.15:
        d["scale_estimator"] = {"$new": rng.choice(["HuberOneStepM", "UnivariateMCD", "Qn", "Tau"]),
                                "params": {}}
    return d


def _lts_params(rng):
    d = {"n_initial_subsets": rng.choice([5, 10, 20]), "n_best_models": rng.choice([1, 3, 10])}
    if rng.random() < 0.5:
        d["alpha"] = rng.choice([0.5, 0.6, 0.75, 0.9, 1.0])
    if rng.random() < 0.3:
        d["reweighting"] = False
    if rng.random() < 0.5:
        d["random_state"] = rng.choice([0, 1, 7, 42, 1000])
    if rng.random() < 0.15:
        d["n_initial_c_steps"] = rng.choice([1, 3])
    if rng.random() < 0.15:
        d["tolerance"] = rng.choice([1e-4, 1e-9])
    return d


def _s_params(rng):
    d = {"n_initial_subsets": rng.choice([5, 10, 15]), "n_best_subsets": rng.choice([1, 3, 5])}
    if rng.random() < 0.3:
        d["fit_intercept"] = False
    if rng.random() < 0.5:
        d["random_state"] = rng.choice([0, 1, 7, 101, 1000])
    if rng.random() < 0.2:
        d["max_scale_iterations"] = rng.choice([1, 5])
    if rng.random() < 0.15:
        d["n_initial_i_steps"] = rng.choice([1, 3])
    if rng.random() < 0.1:
        d["relative_tolerance"] = 1e-4
        d["scale_tolerance"] = 1e-6
    if rng.random() < 0.12:
        d["rho"] = {"$new": "TukeyBisquare", "params": {"c": 2.937}}
        d["b"] = 0.25
    return d


def _mm_params(rng):
    k = rng.random()
    d = {}
    if k < 0.12:
        pass  # shared default initial estimator
    elif k < 0.7:
        d["initial_estimator"] = {"$new": "SRegression", "params": _s_params(rng)}
    else:
        d["initial_estimator"] = {"$new": "FastLTSRegression", "params": _lts_params(rng)}
    if rng.random() < 0.2:
        d["max_iterations"] = rng.choice([1, 3, 50])
    if rng.random() < 0.2:
        d["rho"] = {"$new": "TukeyBisquare", "params": {"c": 4.685}}
    elif rng.random() < 0.1:
        d["rho"] = {"$new": "Huber", "params": {"b": 1.345}}
    if rng.random() < 0.15:
        d["epsilon"] = rng.choice([1e-4, 1e-10])
    return d


def _pca_params(rng):
    d = {}
    if rng.random() < 0.75:
        d["n_components"] = rng.choice([1, 2, 2])
    elif rng.random() < 0.5:
        d["k_min_var_explained"] = rng.choice([0.5, 0.9, 0.99])
    if rng.random() < 0.6:
        d["final_MCD_step"] = False
    if rng.random() < 0.7:
        d["random_seed"] = rng.choice([0, 1, 42, 1234])
    if rng.random() < 0.3:
        d["alpha"] = rng.choice([0.5, 0.9])
    return d


def _spca_params(rng):
    d = {}
    if rng.random() < 0.7:
        d["n_components"] = rng.choice([1, 2])
    elif rng.random() < 0.5:
        d["k_min_var_explained"] = rng.choice([0.5, 0.9])
    return d


def _pca_data(rng, small=True):
    r = _cov_data(rng, small)
    r["p"] = max(3, r["p"])
    r["n"] = max(25, r["n"])
    if r.get("form") == "frame":
        r["form"] = "array"
    return r


def _rs_params(rng):
    d = {}
    k = rng.random()
    if k < 0.4:
        pass
    elif k < 0.6:
        d["scale_estimator"] = {"$new": rng.choice(["UnivariateMCD", "Qn", "Tau",
                                                    "OneStepWrapping", "HuberOneStepM"]),
                                "params": {}}
    else:
        d["scale_estimator"] = {"$new": "UnivariateMCD",
                                "params": {"alpha": rng.choice([0.5, 0.75, 1.0])}}
    if rng.random() < 0.2:
        d["with_centering"] = False
    if rng.random() < 0.2:
        d["with_scaling"] = False
    return d


def _rpt_params(rng):
    d = {"method": rng.choice(["boxcox", "yeojohnson", "yeojohnson", "auto"])}
    if rng.random() < 0.3:
        d["standardize"] = False
    if rng.random() < 0.3:
        d["nsteps"] = rng.choice([1, 3])
    if rng.random() < 0.2:
        d["lambda_range"] = {"$tuple": [-2.0, 3.0]}
    if rng.random() < 0.2:
        d["quantile"] = rng.choice([0.95, 0.975])
    return d


def _rpt_data(rng, small=True):
    r = data.recipe(rng, n=rng.choice([25, 40]), p=1, what="x", pos=True,
                    kind=rng.choice(["gauss", "skew", "t"]), seed=rng.randrange(1 << 30))
    if rng.random() < 0.4:
        r["deg"] = rng.choice(["expo", "negexpo", "offset"])
        if rng.random() < 0.5:
            r.pop("pos")
    return r


def _uni_data(rng, small=True):
    r = data.recipe(rng, n=rng.choice([5, 9, 20, 33, 60]), p=1, what="x")
    if rng.random() < 0.3:
        r["out"] = {"frac": 0.2, "type": "scatter", "size": 50}
    if rng.random() < 0.15:
        r["round"] = 0
    return r


def _dc_params(rng):
    d = {}
    if rng.random() < 0.4:
        d["clean_na_first"] = rng.choice(["rows", "columns", "automatic"])
    if rng.random() < 0.3:
        d["max_missing_frac_cols"] = rng.choice([0.3, 0.5])
    if rng.random() < 0.2:
        d["max_missing_frac_rows"] = rng.choice([0.2, 0.3])
    if rng.random() < 0.2:
        d["min_unique_values"] = rng.choice([1, 5])
    if rng.random() < 0.15:
        d["min_abs_scale"] = rng.choice([0.1, 0.5])
    return d


def _dc_data(rng, small=True):
    ex = [e for e in ["text", "rownum", "disc", "const", "holes", "badrows", "texts", "discs",
                      "consts", "holess"]
          if rng.random() < 0.4]
    return data.recipe(rng, n=rng.choice([12, 20, 30]), p=rng.choice([2, 3]), kind="gauss",
                       what="messy", extra=ex, index=rng.choice(["range", "labels"]))


def _new_like(rng, r, n=None, form=None):
    """New records for a fitted model: same columns."""
    q = dict(r)
    q["seed"] = rng.randrange(1 << 30)
    q["n"] = n or rng.choice([1, 2, 5, 9, r["n"]])
    q.pop("dup", None)
    if q.get("what") in ("xy",):
        q["what"] = "X"
        q.pop("vout", None)
    if form:
        q["form"] = form
    return q


def _q_cov(rng, r):
    out = []
    for m in rng.sample(["mahalanobis", "get_precision", "score", "error_norm",
                         "distance_distance_plot", "cov_prop", "corr_prop"], 3):
        if m == "get_precision":
            out.append({"m": m})
        elif m == "cov_prop":
            out.append({"prop": "covariance"})
        elif m == "corr_prop":
            out.append({"prop": "correlation"})
        elif m == "distance_distance_plot":
            out.append({"m": m, "kw": {"chi2_percentile": rng.choice([0.975, 0.9])}, "plot": True})
        elif m == "error_norm":
            out.append({"m": m, "eye": r["p"]})
            if rng.random() < 0.4:
                out[-1]["kw"] = rng.choice([{"norm": "spectral"}, {"squared": False},
                                            {"scaling": False, "squared": False}])
        else:
            q = _new_like(rng, r, n=rng.choice([3, 8]), form="array")
            q.pop("nan", None)
            out.append({"m": m, "data": q})
    return out


def _q_corr(rng, r):
    return _q_cov(rng, r) + [{"prop": "correlation"}]


def _q_cell(rng, r):
    out = [{"prop": "covariance"}]
    if rng.random() < 0.4:
        out += _q_cov(rng, r)[:rng.choice([1, 2])]
    for _ in range(2):
        pt = rng.choice(["indexplot", "residuals_vs_variable", "residuals_vs_predictions",
                         "variable_vs_predictions", "bivariate"])
        kw = {"variable": rng.randrange(r["p"]), "plottype": pt}
        if pt == "bivariate":
            kw["second_variable"] = (kw["variable"] + 1) % r["p"]
        if rng.random() < 0.5:
            kw["row_names"] = [f"r{i}" for i in range(r["n"])]
        if rng.random() < 0.2:
            kw["annotation_quantile"] = rng.choice([0.9, 0.999])
        if rng.random() < 0.2:
            kw["variable_name"] = "V"
        out.append({"m": "cell_MCD_plot", "kw": kw, "plot": True})
    return out


def _q_ddc(rng, r):
    out = []
    for m in rng.sample(["predict", "predictrow", "impute", "impute0", "cellmap"], 3):
        if m == "cellmap":
            out.append({"m": "cellmap", "data": dict(r), "plot": True,
                        "kw": {"annotate": rng.random() < 0.2}})
            if rng.random() < 0.25:
                out[-1]["kw"]["row_zoom"] = {"$tuple": [2, rng.choice([6, 12])]}
            if rng.random() < 0.15:
                out[-1]["kw"]["col_zoom"] = {"$tuple": [0, 2]}
            if rng.random() < 0.15:
                out[-1]["kw"].update(vmax_clip=2.0, cmap="viridis")
        elif m == "predictrow":
            out.append({"m": "predict", "data": _new_like(rng, r), "kw": {"rowwise": True}})
        elif m == "impute0":
            out.append({"m": "impute", "data": _new_like(rng, r), "kw": {"impute_outliers": False}})
        else:
            out.append({"m": m, "data": _new_like(rng, r)})
    return out


def _q_reg(rng, r):
    out = [{"m": "predict", "data": _new_like(rng, r)}, {"prop": "scale"}]
    if rng.random() < 0.4 and r["p"] > 1:
        q = dict(r)
        q["form"] = "array"
        q["n"] = max(r["n"], 16)
        out.append({"m": "outlier_map", "data": q, "plot": True,
                    "kw": {"return_data": True, "robust_distance": False}})
        if rng.random() < 0.3:
            out[-1]["kw"].update(robust_scaling=False, vertical_outlier_threshold=3.0,
                                 leverage_threshold_percentile=0.99)
    if rng.random() < 0.25:
        q = dict(r, seed=rng.randrange(1 << 30), n=rng.choice([5, 12]))
        for k in ("vout", "dup"):
            q.pop(k, None)
        out.append({"m": "score", "data": q})
    return out


def _q_pca(rng, r):
    out = []
    for m in rng.sample(["transform", "project", "plot_outlier_map"], 2):
        if m == "plot_outlier_map":
            out.append({"m": m, "data": dict(r), "kw": {"return_distances": True}, "plot": True})
        else:
            out.append({"m": m, "data": _new_like(rng, r)})
    return out


def _q_scaler(rng, r):
    return [{"m": m, "data": _new_like(rng, r)} for m in ("transform", "inverse_transform")]


def _q_rpt(rng, r):
    a, b = _new_like(rng, r, n=rng.choice([2, 5, 20])), _new_like(rng, r, n=rng.choice([2, 5, 20]))
    b.pop("pos", None)
    if rng.random() < 0.6:
        # values beyond the range of the transformation
        if rng.random() < 0.6:
            b.update(n=rng.choice([60, 150]), kind="ramp")
            b.pop("deg", None)
            return [{"m": "transform", "data": a}, {"m": "inverse_transform", "data": b}]
        b.update(n=rng.choice([5, 12, 20]),
                 out={"frac": rng.choice([0.3, 0.6]), "type": rng.choice(["cell", "scatter"]),
                      "size": rng.choice([3, 10, 100])})
    return [{"m": "transform", "data": a}, {"m": "inverse_transform", "data": b}]


def _q_uni(rng, r):
    return [{"prop": "scale"}, {"prop": "location"}]


def _q_dc(rng, r):
    q = dict(r)
    q["seed"] = rng.randrange(1 << 30)
    q["n"] = rng.choice([5, 12, 20])
    return [{"m": "transform", "data": dict(r)}, {"m": "transform", "data": q},
            {"prop": "dropped_columns"}, {"prop": "dropped_rows"}]


C = {}


def _c(name, mod, params, dat, queries, attrs, w, random=None, rowwise=(), fitkind="X"):
    C[name] = dict(name=name, mod=mod, params=params, data=dat, queries=queries, attrs=attrs, w=w,
                   random=random, rowwise=rowwise, fitkind=fitkind)


NOP = lambda rng: {}  # noqa
_c("FastMCD", "robpy.covariance", _mcd_params, _mcd_data, _q_cov, COV_ATTRS, 4, "random_seed",
   ("mahalanobis",))
_c("DetMCD", "robpy.covariance", _detmcd_params, _cov_data, _q_cov, COV_ATTRS, 1, None,
   ("mahalanobis",))
_c("OGK", "robpy.covariance", _ogk_params, _cov_data, _q_cov, COV_ATTRS, 1.5, None,
   ("mahalanobis",))
_c("KendallTau", "robpy.covariance", NOP, _cov_data, _q_corr, COV_ATTRS, 0.7, None,
   ("mahalanobis",))
_c("WrappingCovariance", "robpy.covariance", _wrap_params, _cov_data, _q_corr, COV_ATTRS, 1.5,
   None, ("mahalanobis",))
_c("CellMCD", "robpy.covariance", _cell_params, _cell_data, _q_cell,
   COV_ATTRS + ["W", "predictions", "conditional_stds", "X_imputed", "residuals"], 1.5)
_c("InitialDDCW", "robpy.covariance.initial_ddcw",
   lambda rng: {"alpha": rng.choice([0.6, 0.75, 0.9])},
   _cell_data, lambda rng, r: [{"prop": "covariance"}], COV_ATTRS, 0.5)
_c("FastLTSRegression", "robpy.regression", _lts_params, _reg_data, _q_reg,
   ["best_h_subset"], 2, None, ("predict",), "xy")
_c("SRegression", "robpy.regression", _s_params, _reg_data, _q_reg, [], 2, None, ("predict",), "xy")
_c("MMRegression", "robpy.regression", _mm_params, _reg_data, _q_reg, ["n_iter"], 3, None,
   ("predict",), "xy")
_c("ROBPCA", "robpy.pca", _pca_params, _pca_data, _q_pca,
   ["location_", "components_", "explained_variance_", "explained_variance_ratio"], 2.5,
   "random_seed", ("transform", "project"))
_c("PCALocantore", "robpy.pca", _spca_params, _pca_data, _q_pca,
   ["location_", "components_", "explained_variance_", "explained_variance_ratio_"], 1.5, None,
   ("transform", "project"))
_c("RobustScaler", "robpy.preprocessing", _rs_params, _cov_data, _q_scaler,
   ["locations_", "scales_"], 3, None, ("transform", "inverse_transform"))
_c("RobustPowerTransformer", "robpy.preprocessing", _rpt_params, _rpt_data, _q_rpt,
   ["lambda_rew", "location_pre", "scale_pre", "location_post", "scale_post"], 1.5, None,
   ("transform", "inverse_transform"))
_c("DataCleaner", "robpy.preprocessing", _dc_params, _dc_data, _q_dc,
   ["non_numeric_cols", "cols_discrete", "cols_bad_scale"], 1)
_c("DDC", "robpy.outliers", _ddc_params,
   _ddc_data, _q_ddc,
   ["location_", "scale_", "robust_correlation_", "slopes_", "deshrinkage_", "raw_predictions_",
    "predictions_", "cellwise_outliers_", "standardized_residuals_", "row_outliers_",
    "residual_scales", "rescaled_predictions_"], 3, None, ("predict", "impute"))
_c("UnivariateMCD", "robpy.univariate", lambda rng: ({} if rng.random() < 0.5 else {
    "alpha": rng.choice([0.5, 0.75, 1.0]), "consistency_correction": rng.random() < 0.5}),
   _uni_data, _q_uni, UNI_ATTRS + ["raw_location_", "raw_scale_", "raw_variance_", "variance_"], 1)
_c("Qn", "robpy.univariate", lambda rng: rng.choice([{}, {}, {"finite_correction": False}, {
    "consistency_correction": False}, {"location_func": {"$fn": "numpy.mean"}}]), _uni_data, _q_uni, UNI_ATTRS, 1)
_c("Tau", "robpy.univariate", lambda rng: rng.choice([{}, {}, {"c1": 3.0, "c2": 2.0}, {
    "consistency_correction": False}]), _uni_data, _q_uni, UNI_ATTRS, 0.7)
_c("HuberOneStepM", "robpy.univariate", NOP, _uni_data, _q_uni, UNI_ATTRS, 0.5)
_c("CellwiseOneStepM", "robpy.univariate", NOP, _uni_data, _q_uni, UNI_ATTRS, 0.5)
_c("OneStepWrapping", "robpy.univariate", NOP, _uni_data, _q_uni, UNI_ATTRS, 0.5)
C["TukeyBisquare"] = dict(name="TukeyBisquare", mod="robpy.utils.rho", attrs=["c"], w=0)
C["Huber"] = dict(name="Huber", mod="robpy.utils.rho", attrs=["b"], w=0)
C["CbRho"] = dict(name="CbRho", mod="robsim.callbacks", attrs=["c"], w=0)
C["CbScale"] = dict(name="CbScale", mod="robsim.callbacks", attrs=UNI_ATTRS, w=0)


def with_callbacks(rng):
    """A subject whose parameters contain user callbacks."""
    k = rng.choice(["OGK", "OGK", "SRegression", "MMRegression", "RobustScaler", "OGKdet"])
    if k in ("OGK", "OGKdet"):
        s = subject(rng, "OGK")
        s["params"]["location_estimator"] = {"$fn": "robsim.callbacks.location"}
        s["params"]["scale_estimator"] = {"$fn": "robsim.callbacks.scale"}
    elif k == "RobustScaler":
        s = subject(rng, k)
        s["params"]["scale_estimator"] = {"$new": "CbScale", "params": {}}
    elif k == "SRegression":
        s = subject(rng, k)
        s["params"]["rho"] = {"$new": "CbRho", "params": {"c": 1.547}}
    else:
        s = subject(rng, k)
        s["params"]["initial_estimator"] = {"$new": "SRegression",
                                            "params": {"n_initial_subsets": 6}}
        s["params"]["rho"] = {"$new": "CbRho", "params": {"c": 3.44}}
    return s


SKLEARN = ["FastMCD", "DetMCD", "OGK", "KendallTau", "WrappingCovariance", "CellMCD",
           "FastLTSRegression", "SRegression", "MMRegression", "ROBPCA", "PCALocantore",
           "RobustScaler", "RobustPowerTransformer", "DataCleaner"]

ALL = [k for k in C if C[k]["w"] > 0]
VIA = {"RobustScaler": "fit_transform", "RobustPowerTransformer": "fit_transform",
       "DataCleaner": "fit_transform", "ROBPCA": "fit_transform", "PCALocantore": "fit_transform",
       "DDC": "fit_predict"}
BIG = ["DetMCD", "OGK", "KendallTau", "WrappingCovariance", "PCALocantore", "RobustScaler", "UnivariateMCD",
       "Qn", "Tau", "HuberOneStepM", "CellwiseOneStepM", "OneStepWrapping", "DDC", "FastLTSRegression",
       "SRegression", "RobustPowerTransformer", "DataCleaner", "FastMCD", "ROBPCA"]


def large(rng, s, prob=0.06):
    """With some probability many records: other branches, limits and block sizes."""
    if rng.random() < prob and s["cls"] in BIG:
        n = rng.choice([110, 210, 260, 320, 520, 610, 1040])
        if s["cls"] in ("KendallTau", "Qn", "DataCleaner"):
            n = min(n, 320)
        s["data"]["n"] = n
        for q in s["queries"]:
            if q.get("plot") and q.get("data") and q["m"] == "cellmap":
                q["data"]["n"] = n
            elif q.get("data") and rng.random() < 0.3:
                q["data"]["n"] = rng.choice([n, 130, 270])
    return s


def _f_data(rng):
    r = data.recipe(rng, n=rng.choice([8, 12, 20]), p=rng.choice([2, 3]), what="X")
    data.decorate(rng, r, forms=("array", "fortran"))
    return r


# plain functions: name -> (module, maker of (data, kw))
F = {
    "stahel_donoho": ("robpy.utils.outlyingness",
                      lambda rng: (_f_data(rng), {"n_dir": rng.choice([20, 60]),
                                                  "random_seed": rng.choice([0, 1, 5, 42]),
                                                  "n_points": rng.choice([2, 2, 2])})),
    "l1median": ("robpy.utils.median", lambda rng: (_f_data(rng), {})),
    "wrapping_transformation": ("robpy.preprocessing.utils",
                                lambda rng: (_f_data(rng), {"rescale": rng.random() < 0.5})),
    "adjusted_boxplot": ("robpy.univariate.adjusted_boxplot",
                         lambda rng: (_f_data(rng), {"plot": rng.random() < 0.3})),
    "mahalanobis": ("robsim.callbacks", lambda rng: (_f_data(rng), {})),
    "weighted_median": ("robsim.callbacks", lambda rng: (dict(_uni_data(rng)), {})),
    "truncated": ("robsim.callbacks", lambda rng: (_f_data(rng), {
        "min_eigenvalue": rng.choice([1e-4, 0.3])})),
    "get_od_cutoff": ("robpy.pca.base", lambda rng: (dict(_uni_data(rng), pos=True, n=30), {})),
}


def resolve(v):
    if isinstance(v, dict):
        if "$new" in v:
            return construct(v["$new"], v.get("params", {}))
        if "$fn" in v:
            mod, name = v["$fn"].rsplit(".", 1)
            return getattr(importlib.import_module(mod), name)
        if "$tuple" in v:
            return tuple(v["$tuple"])
    return v


def cls_of(name):
    return getattr(importlib.import_module(C[name]["mod"]), name)


def construct(name, params):
    return cls_of(name)(**{k: resolve(v) for k, v in params.items()})


def pick_class(rng, names=None, exclude=()):
    names = [n for n in (names or ALL) if n not in exclude]
    return rng.choices(names, [C[n]["w"] for n in names])[0]


def subject(rng, name=None, names=None, small=True, exclude=()):
    """A random estimator with parameters, training data and queries."""
    name = name or pick_class(rng, names, exclude)
    c = C[name]
    params = c["params"](rng)
    r = c["data"](rng, small)
    return {"cls": name, "params": params, "data": r, "queries": c["queries"](rng, r)}


DEG = ["halfplane", "halfplane", "grid", "ints", "lattice", "collinear", "const", "halfeq", "threept",
       "sym", "repeatrow", "nearsing", "onedir"]


def degenerate(rng, s, prob=0.08):
    """With some probability the records lie in special position (singular half-samples, ties)."""
    subsets = s["cls"] in ("FastMCD", "DetMCD", "FastLTSRegression", "SRegression")
    if rng.random() < (min(0.5, 3 * prob) if subsets else prob) and \
            s["cls"] not in ("CellMCD", "InitialDDCW", "DataCleaner"):
        d = "halfplane" if subsets and rng.random() < 0.5 else rng.choice(DEG)
        s["data"]["deg"] = d
        for q in s["queries"]:
            if q.get("data") and rng.random() < 0.5:
                q["data"]["deg"] = d
    return s


def fit_args(name, d):
    if C[name].get("fitkind") == "xy":
        return tuple(d)
    return (d,)


def seeded(name, params):
    """Is the result a function of parameters and data only, by the documented contract?"""
    key = C[name]["random"]
    if key is not None and params.get(key) is None:
        if name == "FastMCD" and params.get("alpha") in (1, 1.0) and params.get("alpha"):
            return True
        return False
    return True


def observe(o):
    """Public results of an estimator."""
    name = type(o).__name__
    c = C.get(name)
    out = {}
    if c is None:
        return out
    for a in c["attrs"]:
        try:
            v = getattr(o, a)
        except Exception as e:
            if "injected" in str(e):
                raise  # a fault of the scenario, not a missing attribute
            continue
        out[a] = cmp.enc(v)
    if name in ("FastLTSRegression", "SRegression", "MMRegression"):
        try:
            out["scale"] = cmp.enc(o.scale)
        except Exception as e:
            if "injected" in str(e):
                raise
            out["scale"] = "unfitted:" + type(e).__name__
        m = getattr(o, "model", None)
        if m is not None:
            out["model"] = cmp.enc(m)
        if "best_h_subset" in out:
            out["best_h_subset"] = np.sort(np.asarray(out["best_h_subset"]).ravel())
    return out


def params_of(o):
    """Constructor parameters as the user sees them."""
    if hasattr(o, "get_params"):
        p = o.get_params(deep=False)
    else:
        import inspect

        p = {}
        for k in inspect.signature(type(o).__init__).parameters:
            if k not in ("self",) and hasattr(o, k):
                p[k] = getattr(o, k)
    return {k: cmp.enc(v) for k, v in p.items() if k not in ("store_precision",)}


class World:
    """Executes operations on the real library; outcomes are plain comparable values."""

    def __init__(self):
        self.objs = {}
        self.blobs = {}
        self.data_cache = {}

    def get_data(self, r, share=None):
        if share is not None:
            if share not in self.data_cache:
                self.data_cache[share] = data.build(r)
            return self.data_cache[share]
        return data.build(r)

    def run(self, op):
        """Returns {'ok': value} or {'exc': ..., 'msg': ...}; StepLimit is an outcome too."""
        try:
            return {"ok": self.raw(op)}
        except (Exception, sched.StepLimit, sched.Deadlock) as e:
            return cmp.enc_exc(e)

    def raw(self, op):
        k = op["op"]
        if k == "new":
            self.objs[op["id"]] = construct(op["cls"], op.get("params", {}))
            return None
        if k == "fit":
            o = self.objs[op["id"]]
            d = self.get_data(op["data"], op.get("share"))
            if op.get("via"):
                ret = cmp.enc(getattr(o, op["via"])(*fit_args(type(o).__name__, d)))
                return {"state": observe(o), "ret": ret}
            o.fit(*fit_args(type(o).__name__, d), **op.get("kw", {}))
            return {"state": observe(o)}
        if k == "q":
            return call_query(self.objs[op["id"]], op, self.get_data)
        if k == "func":
            return call_func(op, self.get_data)
        if k == "load":
            return call_load(op)
        if k == "observe":
            return observe(self.objs[op["id"]])
        if k == "params":
            return params_of(self.objs[op["id"]])
        raise ValueError(k)


def query_args(op, get=None):
    kw = {a: resolve(v) for a, v in op.get("kw", {}).items()}
    args = ()
    if "eye" in op:
        args = (np.eye(op["eye"]),)
    elif op.get("data") is not None:
        d = (get or (lambda r, s=None: data.build(r)))(op["data"], op.get("share"))
        args = d if isinstance(d, tuple) else (d,)
    return args, kw


def call_query(o, op, get=None, args=None):
    if "prop" in op:
        return cmp.enc(getattr(o, op["prop"]))
    a, kw = query_args(op, get)
    if args is not None:
        a = args
    if op.get("plot"):
        return with_plot(lambda: getattr(o, op["m"])(*a, **kw), op)
    return cmp.enc(getattr(o, op["m"])(*a, **kw))


def with_plot(fn, op):
    """Plot call: the answer is the returned data plus the figure content; the figure is closed."""
    import matplotlib.pyplot as plt

    before = set(plt.get_fignums())
    ident = op.get("keep")
    try:
        res = fn()
        out = {"ret": cmp.enc(res)}
        if not op.get("nofig"):
            new = [n for n in plt.get_fignums() if n not in before]
            out["figs"] = [cmp.enc(plt.figure(n)) for n in new]
        return out
    finally:
        if not ident and not op.get("nofig"):
            for n in list(plt.get_fignums()):
                if n not in before:
                    plt.close(n)


def call_func(op, get=None):
    mod, _ = F[op["f"]]
    fn = getattr(importlib.import_module(mod), op["f"])
    d = (get or (lambda r, s=None: data.build(r)))(op["data"], op.get("share"))
    kw = op.get("kw", {})
    if op["f"] == "adjusted_boxplot" and kw.get("plot"):
        return with_plot(lambda: fn(d, **kw), op)
    return cmp.enc(fn(d, **kw))


LOADERS = ["load_telephone", "load_stars", "load_animals", "load_topgear", "load_glass"]


def call_load(op):
    import robpy.datasets as ds

    b = getattr(ds, op["f"])(**op.get("kw", {}))
    return cmp.enc(dict(b))


def roundtrip(o):
    return pickle.loads(pickle.dumps(o))


def func_op(rng, name=None):
    name = name or rng.choice(sorted(F))
    d, kw = F[name][1](rng)
    return {"op": "func", "f": name, "data": d, "kw": kw}


def silence():
    """Send this process' stdout/stderr text into memory (children only)."""
    import sys

    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()


def maxrss():
    return os.times()
