"""Reference definitions read by the analyser (never executed): inverse of the closest circulant matrix."""
import torch


def circulant(t, v):
    """t: first column of a symmetric Toeplitz matrix; v: (..., n, m)"""
    n = t.shape[-1]
    k = torch.arange(1, n, dtype=t.dtype, device=t.device)
    w = ((n - k) * t[..., 1:] + k * t[..., 1:].flip(dims=(-1,))) / n
    c = torch.cat((t[..., :1], w), dim=-1)
    C = torch.fft.rfft(c, dim=-1)
    C = C.conj() / torch.clamp(C.real ** 2 + C.imag ** 2, min=1e-6)
    return torch.fft.irfft(C[..., None] * torch.fft.rfft(v, n=n, dim=-2), n=n, dim=-2)


def block_circulant(t, v):
    """t: (..., 2 n, r, c) first row then first column of the blocks; v: (..., n c, m)"""
    n = t.shape[-3] // 2
    k = torch.arange(1, n, dtype=t.dtype, device=t.device)[:, None, None]
    up = t[..., 1:n, :, :].flip(dims=(-3,))
    down = t[..., n + 1 :, :, :].flip(dims=(-3,))
    c = torch.cat((t[..., :1, :, :], (k * up + (n - k) * down) / n), dim=-3)
    C = torch.linalg.inv(torch.fft.rfft(c, dim=-3))
    x = v.reshape(v.shape[:-2] + (n, t.shape[-1], v.shape[-1]))
    x = torch.fft.rfft(x, n=n, dim=-3)
    y = torch.fft.irfft(torch.einsum("...rc,...cm->...rm", C, x), n=n, dim=-3)
    return y.reshape(v.shape)
