"""Tensor helpers shared by the reference models."""
import numpy as np

VOIGT = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]


def to_tensor(C):
    T = np.zeros((3, 3, 3, 3))
    for a, (i, j) in enumerate(VOIGT):
        for b, (k, l) in enumerate(VOIGT):
            v = C[a][b]
            T[i, j, k, l] = T[j, i, k, l] = T[i, j, l, k] = T[j, i, l, k] = v
    return T


def to_voigt(T):
    return np.array([[T[i, j, k, l] for (k, l) in VOIGT] for (i, j) in VOIGT])


def rotate(C, R):
    return to_voigt(np.einsum("ia,jb,kc,ld,abcd->ijkl", R, R, R, R, to_tensor(C)))


def iso(k, g):
    c = np.zeros((6, 6))
    c[:3, :3] = k - 2 * g / 3
    c[[0, 1, 2], [0, 1, 2]] = k + 4 * g / 3
    c[[3, 4, 5], [3, 4, 5]] = g
    return c


def vti(c11, c33, c13, c44, c66):
    c = np.diag([c11, c11, c33, c44, c44, c66]).astype(float)
    c[0, 1] = c[1, 0] = c11 - 2 * c66
    c[0, 2] = c[2, 0] = c[1, 2] = c[2, 1] = c13
    return c


def hti(c11, c33, c13, c44, c55):
    c = np.diag([c11, c33, c33, c44, c55, c55]).astype(float)
    c[0, 1] = c[1, 0] = c[0, 2] = c[2, 0] = c13
    c[1, 2] = c[2, 1] = c33 - 2 * c44
    return c
