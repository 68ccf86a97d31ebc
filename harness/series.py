"""Generators of series with the features that matter to the rules."""
import numpy as np

ZERO = [0, 0, 0.05, 0.3, 0.6, 0.93]


def precip(rng, ny, n, i=0):
    """daily/monthly amounts: zero share, skewness and missing pattern vary"""
    kind = rng.integers(0, 6)
    m = ny * n
    season = 1 + 0.8 * np.sin(2 * np.pi * np.arange(m) / n + rng.uniform(0, 6))
    if kind <= 2:
        x = rng.gamma(rng.choice([0.4, 0.9, 3.0]), 30.0, m) * (season + 0.3)
    elif kind == 3:      # left tail: negative skew
        x = np.clip(200 - rng.gamma(1.2, 25.0, m), 0, None)
    elif kind == 4:      # near symmetrical
        x = np.clip(rng.normal(100, 20, m), 0, None)
    else:                # light rain, amounts around the trace threshold
        x = rng.gamma(0.5, 0.01, m)
        x[rng.random(m) < 0.2] *= 1000
    z = ZERO[rng.integers(0, len(ZERO))]
    if z:
        x[rng.random(m) < z] = 0.0
        if rng.random() < 0.3:     # dry season
            x.reshape(ny, n)[:, : n // 4][rng.random((ny, n // 4)) < 0.9] = 0.0
    if rng.random() < 0.25:        # a dry or a very wet year
        y = rng.integers(0, ny)
        x.reshape(ny, n)[y] *= rng.choice([0.0, 8.0])
    if rng.random() < 0.2:
        x[rng.integers(0, m, 5)] = rng.choice([0.0001, 0.0004, 0.0006, 0.01])
    return x


def holes(rng, x, n):
    k = rng.integers(0, 8)
    m = x.size
    ny = m // n
    if k == 1:
        x[rng.random(m) < 0.04] = np.nan
    elif k == 2:
        x[: rng.integers(1, 2 * n)] = np.nan
    elif k == 3:
        x[m - rng.integers(1, 2 * n):] = np.nan
    elif k == 4 and ny:
        a = rng.integers(0, m - n)
        x[a:a + rng.integers(1, n)] = np.nan
    elif k == 5 and ny:
        x[: ny * n].reshape(ny, n)[:, rng.integers(0, n)] = np.nan
    elif k == 6:
        x[rng.integers(0, m)] = np.nan
    return x


def negatives(rng, x):
    if rng.random() < 0.25:
        x[rng.integers(0, x.size, rng.integers(1, 6))] = -rng.choice([0.5, 3.0, 99.0])
    return x


def cut(rng, x, n):
    """often an unfinished last year"""
    return x[: x.size - rng.integers(1, n)] if rng.random() < 0.4 else x


def calibration(rng, start, ny):
    """all relations of the calibration period to the data period"""
    end = start + ny - 1
    k = rng.integers(0, 11)
    if k <= 1:
        return start, end
    if k == 10:                                          # a few years
        a = int(rng.integers(0, ny))
        return start + a, min(end, start + a + int(rng.integers(0, 4)))
    if k == 2:
        return start - rng.integers(1, 4), end           # starts before
    if k == 3:
        return start, end + rng.integers(1, 4)           # ends after
    if k == 4:
        return start - 1, end + 1
    if k == 5:
        return start + min(2, ny - 5), end               # ends with the data
    if k == 6:
        return start, end - min(2, ny - 5)
    if k == 7:
        return start + 1, end + 1
    a = rng.integers(0, max(1, ny - 5))
    b = rng.integers(min(a + 4, ny - 1), ny)
    return start + a, start + b
