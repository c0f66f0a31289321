"""Simulated link: a common source of photon pairs, two detectors, two free-running clocks.

All link quantities are in units of the correlation window Ta = R 2^q k (ns). Clock readings are exact integers in
units of 1/256 ns; on the time axis a' = A - S0, b' = B - S0 they obey b' = (1+u) a' + D.
"""
import math

import numpy as np


def window(p):
    return float(p["R"] * 2 ** p["q"] * p["k"])


def detector(rng, t, T, d, dead, Ta, floods):
    """What one party records of photons at times t (ns), on ideal time."""
    x = t[rng.rand(len(t)) < d["eta"]]
    x = np.concatenate([x, rng.uniform(0, T, rng.poisson(d["dark"] * max(1, len(x))))])
    for a, b, n in floods:
        x = np.concatenate([x, rng.uniform(a, b, n)])
    if d["jitter"]:
        x = x + rng.normal(0, d["jitter"], len(x))
    x = np.sort(x)
    for a, b in d["losses"]:
        x = x[(x < a * Ta) | (x >= (a + b) * Ta)]
    if dead:
        keep, last = [], -1e18
        for v in x.tolist():
            if v - last >= dead:
                keep.append(v)
                last = v
        x = np.array(keep)
    return x[x > 0]


def link(p):
    """Clock readings relative to S0 (1/256 ns integers) of both parties."""
    rng = np.random.RandomState(p["seed"] & 0xFFFFFFFF)
    Ta = window(p)
    T = p["T"] * Ta
    n = int(p["N"] * p["T"])
    t = np.sort(rng.uniform(0, T, n))
    out = []
    for k in "ab":
        src = t if (k == "a" or not p.get("uncorrelated")) else np.sort(rng.uniform(0, T, n))
        d = p[k]
        out.append(detector(rng, src, T, d, d["dead"], Ta, [(x * Ta, (x + y) * Ta, int(p["N"] * y * z)) for x, y, z in d["floods"]]))
    a, b = out
    A = np.round(a * 256).astype(np.int64)
    B = np.round(((1 + p["u"]) * b + p["D"]) * 256).astype(np.int64)
    return A, B


def truth(p, A, B, skip_ns=0.0):
    """Expected (df, dt) at the common start; A, B relative to S0."""
    s = max(int(A[0]), int(B[0])) / 256 + skip_ns
    return p["u"], p["u"] * s + p["D"]


def margin(p, thr, r):
    """Smallest ratio of peak height to noise over the stages, in units of the threshold; and the background per bin."""
    Ta = window(p)
    na, nb, c, sig2 = [], [], p["N"], 0.0
    cnt = {}
    for k in "ab":
        d = p[k]
        rate = p["N"] * d["eta"] * (1 + d["dark"]) / Ta
        eff = 1 / (1 + rate * d["dead"])
        lost = sum(y for _, y in d["losses"])
        c *= d["eta"] * eff * max(0.0, 1 - lost)
        cnt[k] = rate * Ta
        sig2 += d["jitter"] ** 2
    bins = 2.0 ** p["q"]
    lam = cnt["a"] * cnt["b"] / bins
    for x in p["a"]["floods"]:
        lam += p["N"] * x[1] * x[2] * cnt["b"] / bins
    for y in p["b"]["floods"]:
        lam += p["N"] * y[1] * y[2] * cnt["a"] / bins
    for x in p["a"]["floods"]:
        for y in p["b"]["floods"]:
            lam += p["N"] ** 2 * x[1] * x[2] * y[1] * y[2] / (max(x[1], y[1], 1e-3) * bins)
    c *= max(0.0, 1 - abs(p["D"]) / Ta)
    s = math.sqrt(sig2)
    pk = min(c / (2 + abs(p["u"]) * Ta / p["R"] + 2 * s / p["R"]), c / (3 + 4 * s / r))
    return (pk / (thr * math.sqrt(lam + 1)) if pk >= 30 else 0.0), lam


def spread(p):
    """Width (ns) over which skew and jitter spread the coincidences of one window."""
    return abs(p["u"]) * window(p) + 3 * math.hypot(p["a"]["jitter"], p["b"]["jitter"])


def stages(p, levels=6):
    """Expected significance with 1, 2, 4, .. bins merged; coincidences and background per bin."""
    c, Ta, cnt = p["N"], window(p), {}
    for k in "ab":
        d = p[k]
        rate = p["N"] * d["eta"] * (1 + d["dark"]) / Ta
        c *= d["eta"] / (1 + rate * d["dead"]) * max(0.0, 1 - sum(y for _, y in d["losses"]))
        cnt[k] = rate * Ta
    c *= max(0.0, 1 - abs(p["D"]) / Ta)
    lam = cnt["a"] * cnt["b"] / 2.0 ** p["q"]
    w = spread(p) / p["R"]
    sig = []
    for m in range(levels):
        B = 2.0 ** m
        sig.append(c * (B / w if B <= w else max(0.5, 1 - w / (2 * B))) / math.sqrt(lam * B + 1))
    return sig, c, lam


def histogram_peaks(a, b, start, duration, res, n, levels):
    """(delay, significance, height, highest elsewhere) of the circular correlation, after each merging of bins."""
    def hist(x):
        x = x[(x >= start) & (x < start + duration)] - start
        return np.bincount((x // res).astype(np.int64) % n, minlength=n)
    y = np.fft.irfft(np.conj(np.fft.rfft(hist(a))) * np.fft.rfft(hist(b)), n)
    out = []
    for m in range(levels):
        k, N, s = int(np.argmax(y)), len(y), float(y.std())
        z = y.copy()
        z[(k + np.arange(-3, 4)) % N] = -1
        out.append(((k if k < N / 2 else k - N) * res * 2 ** m, (y[k] - y.mean()) / s if s else 0.0, float(y[k]), float(z.max())))
        y = y.reshape(-1, 2).sum(axis=1)
    return out


def visible(p, A, B):
    """Merging level at which the signal stands out clearly in both windows of these recordings; None if that is not beyond doubt."""
    a, b = A / 256, B / 256
    s = max(a[0], b[0])
    d0, Ta, n, w = p["u"] * s + p["D"], window(p), 2 ** p["q"], spread(p)
    for m, (d, sig, y, y2) in enumerate(histogram_peaks(a - s, b - s, 0, Ta, p["R"], n, 8)):
        res = p["R"] * 2 ** m
        if abs(sig - p["thr"]) < 0.02 * p["thr"]:
            return None
        if sig > p["thr"]:
            D, _, y, y2 = histogram_peaks(a - s, b - s, p["sep"] * Ta, Ta, res, n, 1)[0]
            clear = abs(d - (d0 + p["u"] * Ta / 2)) <= w / 2 + 2 * res and abs(D - (d0 + p["u"] * (p["sep"] + 0.5) * Ta)) <= w / 2 + 2 * res and y >= 1.25 * y2
            # the first estimate of the skew must stay below the largest one that can be corrected
            return m if clear and abs(p["u"]) + (w / Ta + 4 * res / Ta) / p["sep"] <= 1.15e-4 else None
    return None


def deceptive(p, A, B, v):
    """Whether these recordings, with B slowed down by the wrong value v, show by chance a peak above threshold early on and another
    one later at a distance that a small frequency offset explains."""
    s = max(A[0], B[0]) / 256
    a, b, Ta, n = A / 256 - s, (B / 256 - s) / (1 + v), window(p), 2 ** p["q"]
    for m, (d, sig, _, _) in enumerate(histogram_peaks(a, b, 0, Ta, p["R"], n, p["q"] - 1)):
        if sig >= 0.97 * p["thr"]:
            D = histogram_peaks(a, b, p["sep"] * Ta, Ta, p["R"] * 2 ** m, n, 1)[0][0]
            if abs(D - d) <= 1.3e-4 * p["sep"] * Ta:
                return True
            if sig > 1.03 * p["thr"]:
                return False
    return False


def encode_raw(X, S0, pats, legacy):
    """X relative to S0 in 1/256 ns -> bytes of an 'a1' file."""
    w = ((X.astype(np.uint64) + np.uint64(S0 * 256)) << np.uint64(10)) | pats.astype(np.uint64)
    if legacy:
        w = (w >> np.uint64(32)) | (w << np.uint64(32))
    return w.astype("<u8").tobytes()
