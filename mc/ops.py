"""Public operations used to build histories and concurrent programs."""
from __future__ import annotations

import numpy as np

import dcor

M = dcor.DistanceCovarianceMethod
C = dcor.CompileMode


def flat(r):
    """Every number of a result, as a vector of doubles."""
    if isinstance(r, dcor.HypothesisTest):
        return np.array([float(r.pvalue), float(r.statistic)])
    if isinstance(r, dcor.Stats):
        return np.array([float(r.covariance_xy), float(r.correlation_xy),
                         float(r.variance_x), float(r.variance_y)])
    return np.asarray(r, dtype=float).ravel().copy()


def _proj(a, b):
    p = dcor.u_projection(a)
    q = dcor.u_complementary_projection(a)
    u = dcor.u_projection(b)
    return np.concatenate([p(b).ravel(), q(b).ravel(), u(a).ravel()])


# name -> (function of (x, y, z), kind of samples)
# kind 'v': vectors; 'm': matrices of 2 columns
OPS = {
    "dcov_naive": (lambda x, y, z: dcor.distance_covariance(x, y, method=M.NAIVE), "vm"),
    "dcov_exp": (lambda x, y, z: dcor.distance_covariance_sqr(x, y, exponent=1.5), "vm"),
    "dcov_avl": (lambda x, y, z: dcor.distance_covariance_sqr(x, y, method=M.AVL), "v"),
    "dcov_avl_py": (lambda x, y, z: dcor.distance_covariance_sqr(x, y, method=M.AVL, compile_mode=C.NO_COMPILE), "v"),
    "dcov_merge": (lambda x, y, z: dcor.distance_covariance_sqr(x, y, method=M.MERGESORT), "v"),
    "dcov_merge_py": (lambda x, y, z: dcor.distance_covariance_sqr(x, y, method=M.MERGESORT, compile_mode=C.NO_COMPILE), "v"),
    "u_stats_avl": (lambda x, y, z: dcor.u_distance_stats_sqr(x, y, method="avl"), "v"),
    "u_stats_merge": (lambda x, y, z: dcor.u_distance_stats_sqr(x, y, method="mergesort"), "v"),
    "u_stats_naive": (lambda x, y, z: dcor.u_distance_stats_sqr(x, y, method="naive"), "vm"),
    "stats": (lambda x, y, z: dcor.distance_stats(x, y), "vm"),
    "dcor": (lambda x, y, z: dcor.distance_correlation(x, y), "vm"),
    "af_inv": (lambda x, y, z: dcor.distance_correlation_af_inv(x, y), "vm"),
    "partial_cov": (lambda x, y, z: dcor.partial_distance_covariance(x, y, z), "vm"),
    "partial_cor": (lambda x, y, z: dcor.partial_distance_correlation(x, y, z), "vm"),
    "energy": (lambda x, y, z: dcor.energy_distance(x, y), "vm"),
    "energy_u": (lambda x, y, z: dcor.energy_distance(x, y, exponent=.5, estimation_stat="u"), "vm"),
    "energy_stat": (lambda x, y, z: dcor.homogeneity.energy_test_statistic(x, y), "vm"),
    "energy_test": (lambda x, y, z: dcor.homogeneity.energy_test(x, y, z, num_resamples=3, random_state=4), "vm"),
    "dcov_test": (lambda x, y, z: dcor.independence.distance_covariance_test(x, y, num_resamples=3, random_state=5), "vm"),
    "pdcov_test": (lambda x, y, z: dcor.independence.partial_distance_covariance_test(x, y, z, num_resamples=3, random_state=6), "vm"),
    "t_test": (lambda x, y, z: dcor.independence.distance_correlation_t_test(x, y), "vm"),
    "pdist": (lambda x, y, z: dcor.distances.pairwise_distances(x, exponent=1.5), "vm"),
    "cdist": (lambda x, y, z: dcor.distances.pairwise_distances(x, y), "vm"),
    "center": (lambda x, y, z: dcor.double_centered(_d(x)), "vm"),
    "u_center": (lambda x, y, z: dcor.u_centered(_d(x)), "vm"),
    "u_product": (lambda x, y, z: dcor.u_product(_d(x), _d(y)), "vm"),
    "projection": (lambda x, y, z: _proj(dcor.u_centered(_d(x)), dcor.u_centered(_d(y))), "vm"),
    "rowwise": (lambda x, y, z: dcor.rowwise(dcor.distance_covariance_sqr, np.stack([x, y, z]), np.stack([y, z, x]),
                                             compile_mode=C.COMPILE_CPU), "v"),
    "rowwise_cor": (lambda x, y, z: dcor.rowwise(dcor.u_distance_correlation_sqr, np.stack([x, y]), np.stack([y, z]),
                                                 compile_mode=C.COMPILE_CPU), "v"),
}


def _d(x):
    x = np.asarray(x, float).reshape(len(x), -1)
    d = x[:, None, :] - x[None, :, :]
    return np.sqrt((d * d).sum(-1))
