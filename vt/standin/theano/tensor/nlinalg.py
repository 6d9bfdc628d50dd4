import numpy as np


def diag(x):
    return np.diag(x).view(type(x))


def matrix_inverse(x):
    return np.linalg.inv(x)
