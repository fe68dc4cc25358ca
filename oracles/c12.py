from common import *
import numpy as np
from rei.tensor.tensor_representation import NumpyTensorRepresentation


def check(case):
    rep = NumpyTensorRepresentation()
    W, Io, Ii = (np.array(case[k], dtype=float) for k in ("W", "Io", "Ii"))
    m, n = case["m"], case["n"]
    W, Io, Ii = W.reshape(m, n, n), Io.reshape(m, n), Ii.reshape(m, n)
    rep._weight_tensor, rep._incidence_matrix_out, rep._incidence_matrix_in = W.copy(), Io.copy(), Ii.copy()
    deg = [(sum(Io[e, j] for e in range(m)) + sum(Ii[e, j] for e in range(m))) *
           (0.5 if all(Io[e, j] == Ii[e, j] for e in range(m)) else 1.0) for j in range(n)]
    need(np.allclose(rep.deg, deg), "degrees %r, expected %r", rep.deg, deg)
    need(np.allclose(rep.D, np.diag(deg)), "degree matrix is wrong")
    need(np.isclose(rep.total_deg, sum(deg)), "total degree %r, expected %r", rep.total_deg, sum(deg))
    need(np.isclose(np.trace(rep.D), rep.total_deg), "trace differs from the total degree")
    L = np.zeros((m, n, n))
    for e in range(m):
        for j in range(n):
            col = sum(W[e, i, j] for i in range(n))
            row = sum(W[e, j, i] for i in range(n))
            L[e, j, j] = col * (0.5 if col == row else 1.0)
    need(np.allclose(rep.DD, L), "diagonal degree tensor is wrong")
    L = L - W
    need(rep.L.shape == L.shape and np.allclose(rep.L, L), "Laplacian is wrong")
    Lp = np.diag(deg) - sum(W[e] for e in range(m))
    need(rep.Lp.shape == Lp.shape and np.allclose(rep.Lp, Lp), "projected Laplacian is wrong")
    need((rep.W == W).all() and (rep.Io == Io).all() and (rep.Ii == Ii).all(), "reading changed the tensors")


def cases(rng, tier):
    n = 800 if tier == "quick" else 20000
    for _ in range(n):
        m, k = rng.randrange(0, 5), rng.randrange(0 if rng.random() < .05 else 1, 6)
        pool = rng.choice([[0, 1], [0, 1, 2], [0, 0.5, 1, 3, -1]])
        W = [rng.choice(pool) for _ in range(m * k * k)]
        Io = [rng.choice(pool) for _ in range(m * k)]
        Ii = list(Io) if rng.random() < .3 else [rng.choice(pool) for _ in range(m * k)]
        if k and rng.random() < .5:
            j = rng.randrange(k)
            for e in range(m):
                Ii[e * k + j] = Io[e * k + j]
        if rng.random() < .3:
            for e in range(m):
                for a in range(k):
                    for b in range(k):
                        W[e * k * k + a * k + b] = W[e * k * k + b * k + a]
        yield {"m": m, "n": k, "W": W, "Io": Io, "Ii": Ii}
