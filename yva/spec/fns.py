"""callers of functions that return functions, interpreted by the same engine"""
from yuca.activations import get_smooth_steps_fn


def smooth_apply(intervals, alpha, x):
    return get_smooth_steps_fn(intervals, alpha)(x)
