"""generators and builders shared by the checks (everything JSON-able)"""
import numpy as np
from hypothesis import strategies as st

seeds = st.integers(0, 2**31 - 1)


def fl(lo, hi):
    """floats rounded so that cases stay readable and shrink well"""
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(
        lambda x: float(np.round(x, 4)))


def halfint(lo, hi):
    """values on a half-integer grid: exact ties of pixel geometry"""
    return st.integers(2*lo, 2*hi).map(lambda x: x/2)


def rng_of(case, salt=0):
    return np.random.RandomState((int(case["seed"]) + 7919*salt) % (2**32))


def rare(common, unusual, n=12):
    """mostly the common values, about one time in n the unusual ones"""
    return st.integers(0, n-1).flatmap(lambda k: unusual if k == n-1 else common)
