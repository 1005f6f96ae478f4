"""Independent reference model (plain numpy): channels, states, Pauli algebra, stabilizer codes.

Nothing here imports PyQCodes; the monitors compare what the real code did with what is here.
"""
import itertools
import numpy as np

# ------------------------------------------------------------------ linear algebra / channels


def dag(a):
    return np.conj(np.asarray(a)).T


def kron_all(mats):
    out = np.eye(1, dtype=complex)
    for m in mats:
        out = np.kron(out, m)
    return out


def todense(a):
    """Any array the package may return (COO, csr, matrix, ndarray) as a complex ndarray."""
    if hasattr(a, "todense"):
        a = a.todense()
    return np.asarray(a, dtype=complex)


def apply(kraus, rho):
    return sum(np.asarray(k) @ rho @ dag(k) for k in kraus)


def apply_adjoint(kraus, op):
    return sum(dag(k) @ op @ np.asarray(k) for k in kraus)


def power(kraus, n):
    """Kraus operators of the channel used n times, lexicographic order."""
    return [kron_all(c) for c in itertools.product(kraus, repeat=n)]


def exchange(kraus, rho):
    """W_ij = Tr(A_i rho A_j^dag)."""
    m = len(kraus)
    w = np.zeros((m, m), dtype=complex)
    for i in range(m):
        t = kraus[i] @ rho
        for j in range(m):
            w[i, j] = np.sum(t * np.conj(kraus[j]))
    return w


def exchange_adjoint(kraus, mat):
    """Heisenberg picture of the complementary channel: Tr(M W(rho)) = Tr(E(M) rho)."""
    m = len(kraus)
    # Tr(M W) = sum_ij M_ji Tr(A_i rho A_j^dag) = Tr(rho sum_ij M_ji A_j^dag A_i)
    return sum(mat[j, i] * dag(kraus[j]) @ kraus[i] for i in range(m) for j in range(m))


def entropy(mat):
    e = np.linalg.eigvalsh((mat + dag(mat)) / 2)
    e = e[e > 1e-13]
    return float(-np.sum(e * np.log2(e)))


def coherent(kraus, rho):
    return entropy(apply(kraus, rho)) - entropy(exchange(kraus, rho))


def psd_sqrt(rho):
    e, v = np.linalg.eigh((rho + dag(rho)) / 2)
    return (v * np.sqrt(np.clip(e, 0, None))) @ dag(v)


def fidelity(rho, sigma):
    """Root fidelity Tr sqrt(sqrt(rho) sigma sqrt(rho)), as the trace norm of sqrt(rho)sqrt(sigma)."""
    return float(np.sum(np.linalg.svd(psd_sqrt(rho) @ psd_sqrt(sigma), compute_uv=False)))


def choi(kraus):
    """Column-stacking Choi matrix, (I (x) Phi) applied to sum |ii><jj|."""
    return sum(np.outer(np.ravel(k, order="F"), np.conj(np.ravel(k, order="F"))) for k in kraus)


def ent_fidelity(kraus, rho):
    return float(sum(abs(np.trace(np.asarray(k) @ rho)) ** 2 for k in kraus))


def is_psd(m, tol):
    return np.abs(m - dag(m)).max() < tol and np.linalg.eigvalsh((m + dag(m)) / 2)[0] > -tol


# ------------------------------------------------------------------ Pauli algebra

PX = np.array([[0, 1], [1, 0]], dtype=complex)
PZ = np.array([[1, 0], [0, -1]], dtype=complex)
PXZ = PX @ PZ                      # the package's "Y" (documented: exactly Y = XZ, no phase)
PI = np.eye(2, dtype=complex)
PY = np.array([[0, -1j], [1j, 0]])
LETTER = {(0, 0): "I", (1, 0): "X", (0, 1): "Z", (1, 1): "Y"}
BITS = {v: k for k, v in LETTER.items()}
MAT = {"I": PI, "X": PX, "Z": PZ, "Y": PXZ}


def bits(s):
    return np.array([BITS[c][0] for c in s] + [BITS[c][1] for c in s], dtype=int)


def letters(v):
    n = len(v) // 2
    return "".join(LETTER[(int(v[i]), int(v[n + i]))] for i in range(n))


def pmat(v):
    """Matrix of a binary vector in the Y := XZ convention, qubit 0 is the leftmost factor."""
    return kron_all([MAT[c] for c in letters(v)])


def smat(s):
    return kron_all([MAT[c] for c in s])


def symp(u, v):
    n = len(u) // 2
    u = np.asarray(u).astype(int)
    v = np.asarray(v).astype(int)
    return int((u[:n] @ v[n:] + u[n:] @ v[:n]) % 2)


def ycount(v):
    n = len(v) // 2
    v = np.asarray(v).astype(int)
    return int(np.sum(v[:n] * v[n:]))


def gf2_rank(m):
    m = np.array(m, dtype=int) % 2
    r = 0
    rows = [int("".join(map(str, row)), 2) for row in m] if m.size else []
    basis = []
    for x in rows:
        for b in basis:
            x = min(x, x ^ b)
        if x:
            basis.append(x)
            r += 1
    return r


def in_span(v, rows):
    rows = np.array(rows, dtype=int)
    return gf2_rank(np.vstack([rows, np.asarray(v, dtype=int)])) == gf2_rank(rows)


def span(rows):
    rows = np.array(rows, dtype=int)
    out = set()
    for c in itertools.product([0, 1], repeat=len(rows)):
        out.add(tuple((np.array(c) @ rows) % 2))
    return out


def permute(v, perm):
    """New vector w with w[i] = v[perm[i]] on both halves."""
    n = len(v) // 2
    v = np.asarray(v)
    return np.concatenate([v[:n][perm], v[n:][perm]])


def projector(rows):
    """Projector onto the joint +1 eigenspace of the generators."""
    n = len(rows[0]) // 2
    p = np.eye(2 ** n, dtype=complex)
    for r in rows:
        p = p @ (np.eye(2 ** n) + pmat(r)) / 2
    return p


# ------------------------------------------------------------------ known codes

KNOWN = {
    "bitflip3": (["ZZI", "IZZ"], 3, 1),
    "phaseflip3": (["XXI", "IXX"], 3, 1),
    "bitflip3b": (["ZZI", "ZIZ"], 3, 1),
    "five": (["XZZXI", "IXZZX", "XIXZZ", "ZXIXZ"], 5, 1),
    "steane": (["IIIXXXX", "IXXIIXX", "XIXIXIX", "IIIZZZZ", "IZZIIZZ", "ZIZIZIZ"], 7, 1),
    "shor": (["ZZIIIIIII", "ZIZIIIIII", "IIIZZIIII", "IIIZIZIII", "IIIIIIZZI", "IIIIIIZIZ",
              "XXXXXXIII", "XXXIIIXXX"], 9, 1),
    "four22": (["XXXX", "ZZZZ"], 4, 2),
    "six42": (["XXXXXX", "ZZZZZZ"], 6, 4),
    "eight3": (["XXXXXXXX", "ZZZZZZZZ", "XIXIZYZY", "XIYZXIYZ", "XZIYIYXZ"], 8, 3),
}


def act(v, state):
    """The operator of a binary vector (Y := XZ) on a state vector, or on every column of a matrix, without its matrix."""
    n = len(v) // 2
    v = np.asarray(v).astype(int)
    i = np.arange(2 ** n)
    sign = np.zeros(2 ** n, dtype=int)
    xmask = 0
    for q in range(n):
        xmask |= int(v[q]) << (n - 1 - q)
        if v[n + q]:
            sign ^= (i >> (n - 1 - q)) & 1
    state = np.asarray(state)
    out = np.empty_like(state)
    w = (1 - 2 * sign).reshape([-1] + [1] * (state.ndim - 1))
    out[i ^ xmask] = w * state
    return out
