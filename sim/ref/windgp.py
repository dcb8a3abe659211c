"""Reference Gaussian-process regression of forecast errors (numpy only)."""
import numpy as np

LENGTHS = np.array([357000.0, 357000.0, 326.0, 34560.0])
SIGMA2 = 3.6 ** 2
NOISE2 = 0.05
HORIZON = 6 * 3600.0


def kernel(a, b):
  d = (a[:, None, :] - b[None, :, :]) / LENGTHS
  return SIGMA2 * np.exp(-np.sqrt((d * d).sum(axis=2)))


def posterior(measurements, queries, keep_ties=False):
  """Posterior mean error (N x 2) and normalised variance (N) at the queries.

  measurements: rows (x, y, pressure, seconds, error u, error v), any order.
  """
  q = np.asarray(queries, float)
  now = q[0, 3]
  m = np.asarray(sorted(measurements), float).reshape(-1, 6)
  age = np.abs(m[:, 3] - now)
  m = m[(age <= HORIZON) if keep_ties else (age < HORIZON)]
  if not len(m):
    return np.zeros((len(q), 2)), np.ones(len(q)), 0
  x, y = m[:, :4], m[:, 4:]
  k = kernel(x, x) + NOISE2 * np.eye(len(x))
  ks = kernel(q, x)
  mean = ks @ np.linalg.solve(k, y)
  var = SIGMA2 - np.einsum('ij,ji->i', ks, np.linalg.solve(k, ks.T))
  return mean, np.maximum(var, 0.0) / SIGMA2, len(m)


def has_tie(measurements, now):
  return any(abs(abs(m[3] - now) - HORIZON) < 1e-6 for m in measurements)
