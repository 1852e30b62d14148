"""Reference definitions read by the analyser (never executed): PyTorch flavour."""
import torch


def pcg(A, b, x, n_iter, M):
    """n_iter steps of the preconditioned conjugate gradient method from x"""
    r = b - A @ x
    z = r if M is None else M @ r
    p = z
    rho = torch.sum(r * z, dim=-2, keepdim=True)
    for k in range(1, n_iter + 1):
        q = A @ p
        alpha = rho / torch.clamp(torch.sum(p * q, dim=-2, keepdim=True), min=1e-6)
        x = x + alpha * p
        if k % 5 == 0:
            r = b - A @ x
        else:
            r = r - alpha * q
        z = r if M is None else M @ r
        new = torch.sum(r * z, dim=-2, keepdim=True)
        p = z + new / torch.clamp(rho, min=1e-6) * p
        rho = new
    return x
