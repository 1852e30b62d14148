"""Reference definitions read by the analyser (never executed): inverse of the closest circulant matrix."""
import numpy as np
from scipy import fft


def circulant(t, v):
    """t: first column of a symmetric Toeplitz matrix; v: (..., n, m)"""
    n = t.shape[-1]
    k = np.arange(1, n, dtype=t.dtype)
    w = ((n - k) * t[..., 1:] + k * t[..., :0:-1]) / n
    c = np.concatenate((t[..., :1], w), axis=-1)
    C = fft.rfft(c, axis=-1)
    C = C.conj() / np.maximum(C.real ** 2 + C.imag ** 2, 1e-6)
    return fft.irfft(C[..., None] * fft.rfft(v, n=n, axis=-2), n=n, axis=-2)


def block_circulant(t, v):
    """t: (..., 2 n, r, c) first row then first column of the blocks; v: (..., n c, m)"""
    n = t.shape[-3] // 2
    k = np.arange(1, n, dtype=t.dtype)[:, None, None]
    up = t[..., n - 1 : 0 : -1, :, :]
    down = t[..., : n : -1, :, :]
    c = np.concatenate((t[..., :1, :, :], (k * up + (n - k) * down) / n), axis=-3)
    C = np.linalg.inv(fft.rfft(c, axis=-3))
    x = v.reshape(v.shape[:-2] + (n, t.shape[-1], v.shape[-1]))
    x = fft.rfft(x, n=n, axis=-3)
    y = fft.irfft(np.einsum("...rc,...cm->...rm", C, x), n=n, axis=-3)
    return y.reshape(v.shape)
