"""Reference definitions read by the analyser (never executed): numpy flavour."""
import numpy as np


def pcg(A, b, x, n_iter, M):
    """n_iter steps of the preconditioned conjugate gradient method from x"""
    r = b - A @ x
    z = r if M is None else M @ r
    p = z
    rho = np.sum(r * z, axis=-2, keepdims=True)
    for k in range(1, n_iter + 1):
        q = A @ p
        alpha = rho / np.maximum(np.sum(p * q, axis=-2, keepdims=True), 1e-6)
        x = x + alpha * p
        if k % 5 == 0:
            r = b - A @ x
        else:
            r = r - alpha * q
        z = r if M is None else M @ r
        new = np.sum(r * z, axis=-2, keepdims=True)
        p = z + new / np.maximum(rho, 1e-6) * p
        rho = new
    return x
