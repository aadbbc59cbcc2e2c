"""Input generators shared by the workloads."""
import numpy as np


def half_bandwidth(rng):
    pick = rng.integers(0, 6)
    if pick == 0:
        return 1
    if pick == 1:
        return 1.0
    if pick == 2:
        return int(rng.integers(2, 9))
    if pick == 3:
        return float(10**rng.uniform(-3, 3))
    if pick == 4:
        return np.float64(rng.uniform(0.1, 5))
    return float(rng.uniform(0.2, 3))


def beta(rng, lo=0.2, hi=200.0):
    pick = rng.integers(0, 5)
    if pick == 0:
        return int(rng.integers(1, 60))
    if pick == 1:
        return 1.0
    return float(np.exp(rng.uniform(np.log(lo), np.log(hi))))


def form(rng, values):
    """Present a 1-d array in one of the accepted forms; returns (argument, shape, tag)."""
    values = np.asarray(values)
    n = values.size
    pick = int(rng.integers(0, 7))
    if pick == 0:
        return values[0].item(), (), values[:1], "pyscalar"
    if pick == 1:
        return values[0], (), values[:1], "npscalar"
    if pick == 2:
        return values[0].reshape(()).copy() if isinstance(values[0], np.ndarray) else np.array(values[0]), (), values[:1], "0d"
    if pick == 3 and n >= 4:
        m = n//2
        return values[:2*m].reshape(2, m).copy(), (2, m), values[:2*m], "2d"
    if pick == 4 and n >= 2:
        big = np.empty(2*n, dtype=values.dtype)
        big[::2] = values
        big[1::2] = np.nan
        return big[::2], (n,), values, "strided"
    if pick == 5 and n >= 4:
        m = n//2
        return np.asfortranarray(values[:2*m].reshape(2, m)), (2, m), values[:2*m], "fortran"
    return values.copy(), (n,), values, "1d"


def readonly(arr):
    arr = np.array(arr)
    arr.setflags(write=False)
    return arr


def loguni(rng, lo, hi, size=None):
    return np.exp(rng.uniform(np.log(lo), np.log(hi), size))


def size(rng, lo, hi, big, prob=0.06):
    """Mostly small sizes in [lo, hi), sometimes large ones up to `big` (often next to powers of two)."""
    if rng.random() >= prob or big <= hi:
        return int(rng.integers(lo, hi))
    num = int(loguni(rng, hi, big))
    if rng.random() < 0.4:
        num = int(np.clip(2**round(np.log2(num)) + rng.integers(-1, 2), hi, big))
    return num
