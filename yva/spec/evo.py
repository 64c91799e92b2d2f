"""Reference statistics of the evolution strategy (parsed and interpreted abstractly, never executed)."""
import numpy as np


def means(elites):
    return np.mean(elites, axis=0)


def covar(elites, previous, k):
    return (1 / k) * np.matmul((elites - previous).T, (elites - previous))
