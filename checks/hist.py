"""Symbolic choices: histories whose operations are chosen by the solver's variables."""
import torch


def pick(cx, name, n):
    """an arbitrary number in 0..n-1 (a real variable in [0, n), cut at the integers)"""
    c = cx.real(name, lo=0.0, hi=float(n), box=True)
    lo, hi = 0, n - 1
    while lo < hi:
        mid = (lo + hi) // 2
        if bool(c < mid + 1):
            hi = mid
        else:
            lo = mid + 1
    return lo
