"""Workload generators (seeded): channels, states, stabilizer codes, circuits."""
import numpy as np
import ref

# ------------------------------------------------------------------ states


def herm(rng, d):
    a = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    return (a + ref.dag(a)) / 2


def vec(rng, d):
    v = rng.normal(size=d) + 1j * rng.normal(size=d)
    return v / np.linalg.norm(v)


def haar(rng, d):
    q, r = np.linalg.qr(rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d)))
    return q * (np.diag(r) / np.abs(np.diag(r)))


RHO_KINDS = ("full", "pure", "lowrank", "mixed", "basis", "diag", "degenerate", "real", "product")


def rho(rng, d, kind=None):
    kind = kind or RHO_KINDS[rng.integers(len(RHO_KINDS))]
    if kind == "pure":
        v = vec(rng, d)
        m = np.outer(v, v.conj())
    elif kind == "lowrank":
        r = int(rng.integers(1, max(2, d)))
        a = rng.normal(size=(d, r)) + 1j * rng.normal(size=(d, r))
        m = a @ ref.dag(a)
    elif kind == "mixed":
        m = np.eye(d, dtype=complex)
    elif kind == "basis":
        m = np.zeros((d, d), dtype=complex)
        i = rng.integers(d)
        m[i, i] = 1
    elif kind == "diag":
        m = np.diag(rng.dirichlet(np.ones(d))).astype(complex)
    elif kind == "degenerate":
        u = haar(rng, d)
        e = np.zeros(d)
        e[: max(1, d // 2)] = 1
        m = (u * e) @ ref.dag(u)
    elif kind == "real":
        a = rng.normal(size=(d, d))
        m = (a @ a.T).astype(complex)
    elif kind == "product":
        m = np.eye(1, dtype=complex)
        left = d
        while left > 1:
            f = next(p for p in (2, 3, 5, 7, left) if left % p == 0)
            a = rng.normal(size=(f, f)) + 1j * rng.normal(size=(f, f))
            m = np.kron(m, a @ ref.dag(a))
            left //= f
    else:
        a = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
        m = a @ ref.dag(a)
    m = (m + ref.dag(m)) / 2
    return m / np.trace(m).real, kind


# ------------------------------------------------------------------ channels
# Each returns a list of Kraus operators (trace preserving to rounding error).


def isometry_channel(rng, din, dout, m):
    a = rng.normal(size=(m * dout, din)) + 1j * rng.normal(size=(m * dout, din))
    q, _ = np.linalg.qr(a)
    return [q[i * dout:(i + 1) * dout] for i in range(m)]


def pauli_channel(p):
    i, x, y, z = np.eye(2), ref.PX, ref.PY, ref.PZ
    return [np.sqrt(q) * o for q, o in zip(p, (i.astype(complex), x, y, z))]


def amp_damp(g):
    return [np.array([[1, 0], [0, np.sqrt(1 - g)]], dtype=complex),
            np.array([[0, np.sqrt(g)], [0, 0]], dtype=complex)]


def dephrasure(p, q):
    k1 = np.array([[1, 0], [0, 1], [0, 0]], dtype=complex)
    k2 = np.array([[1, 0], [0, -1], [0, 0]], dtype=complex)
    e1 = np.array([[0, 0], [0, 0], [1, 0]], dtype=complex)
    e2 = np.array([[0, 0], [0, 0], [0, 1]], dtype=complex)
    return [np.sqrt((1 - q) * (1 - p)) * k1, np.sqrt((1 - q) * p) * k2,
            np.sqrt(q) * e1, np.sqrt(q) * e2]


def erasure(q):
    k = dephrasure(0.0, q)
    return [k[0], k[2], k[3]]


CHAN_KINDS = ("haar", "pauli", "ampdamp", "dephrasure", "erasure", "unitary", "replace",
              "measure", "redundant", "real", "gad", "weak")


def channel(rng, din=None, dout=None, kind=None, mmax=4):
    """Random channel: (kraus list, dim_in, dim_out, kind)."""
    if kind is None:
        kind = CHAN_KINDS[rng.integers(len(CHAN_KINDS))]
    if kind == "pauli":
        return pauli_channel(rng.dirichlet(np.ones(4))), 2, 2, kind
    if kind == "ampdamp":
        return amp_damp(rng.uniform(0, 1)), 2, 2, kind
    if kind == "gad":
        g, p = rng.uniform(0, 1, 2)
        k = amp_damp(g)
        fl = ref.PX
        return [np.sqrt(p) * x for x in k] + [np.sqrt(1 - p) * fl @ x @ fl for x in k], 2, 2, kind
    if kind == "dephrasure":
        return dephrasure(rng.uniform(0, 1), rng.uniform(0, 1)), 2, 3, kind
    if kind == "erasure":
        return erasure(rng.uniform(0, 1)), 2, 3, kind
    din = din or int(rng.integers(2, 4))
    if kind == "unitary":
        return [haar(rng, din)], din, din, kind
    if kind == "weak":             # nearly unitary
        p = 10. ** rng.uniform(-6, -2)
        return [np.sqrt(1 - p) * haar(rng, din), np.sqrt(p) * haar(rng, din)], din, din, kind
    dout = dout or int(rng.integers(2, 4))
    if kind == "replace":          # rho -> |psi><psi|
        v = vec(rng, dout)
        return [np.outer(v, np.eye(din)[i]) for i in range(din)], din, dout, kind
    if kind == "measure":          # measure in a basis, prepare basis states
        u = haar(rng, din)
        ks = []
        for i in range(din):
            o = np.zeros((dout, din), dtype=complex)
            o[int(rng.integers(dout))] = u[i]
            ks.append(o)
        return ks, din, dout, kind
    m = int(rng.integers(max(1, -(-din // dout)), mmax + 1))
    if kind == "redundant":        # contains a zero operator and a repeated operator
        k = isometry_channel(rng, din, dout, max(m - 1, -(-din // dout)))
        k = [k[0] / np.sqrt(2), k[0] / np.sqrt(2)] + k[1:] + [np.zeros((dout, din), dtype=complex)]
        return k, din, dout, kind
    if kind == "real":
        a = rng.normal(size=(m * dout, din))
        q, _ = np.linalg.qr(a)
        return [q[i * dout:(i + 1) * dout].astype(complex) for i in range(m)], din, dout, kind
    return isometry_channel(rng, din, dout, m), din, dout, "haar"


def multi_channel(rng, mmax=3):
    """A channel on several particles: (kraus, [M, N], dim_in, dim_out)."""
    opts = [([2, 1], 2, 2), ([1, 2], 2, 2), ([2, 2], 2, 2), ([1, 2], 2, 3), ([2, 1], 2, 3),
            ([1, 1], 4, 2), ([1, 3], 2, 2), ([1, 1], 2, 4), ([3, 1], 2, 2), ([2, 1], 3, 2)]
    nq, di, do = opts[rng.integers(len(opts))]
    din, dout = di ** nq[0], do ** nq[1]
    m = int(rng.integers(-(-din // dout), max(mmax, -(-din // dout)) + 1))
    return isometry_channel(rng, din, dout, m), list(nq), di, do


def orthogonal_channel(rng):
    """Kraus groups with orthogonal ranges: (kraus, split indices, dim_in, dim_out).

    dim_out = direct sum of group output spaces, so A_i^dag A_j = 0 across groups.
    """
    din = int(rng.integers(2, 4))
    ng = int(rng.integers(2, 6))
    # Group sizes and output dimensions are coupled so that the channel is trace preserving.
    outs = [int(rng.integers(1, 3)) for _ in range(ng)]
    sizes = [int(rng.integers(1, 3)) for _ in range(ng)]
    while sum(o * s for o, s in zip(outs, sizes)) < din:
        sizes[int(rng.integers(ng))] += 1
    tot = sum(outs)
    rows = sum(o * s for o, s in zip(outs, sizes))
    q, _ = np.linalg.qr(rng.normal(size=(rows, din)) + 1j * rng.normal(size=(rows, din)))
    ks, splits, r, off = [], [], 0, 0
    for o, s in zip(outs, sizes):
        for _ in range(s):
            k = np.zeros((tot, din), dtype=complex)
            k[off:off + o] = q[r:r + o]
            r += o
            ks.append(k)
        off += o
        splits.append(len(ks))
    return ks, splits[:-1], din, tot


# ------------------------------------------------------------------ stabilizer codes

def _gate(rng, rows, n):
    t = rng.integers(4 if n > 1 else 2)
    a = rng.integers(n)
    if t == 0:                                   # H
        rows[:, [a, n + a]] = rows[:, [n + a, a]]
    elif t == 1:                                 # S
        rows[:, n + a] ^= rows[:, a]
    else:
        b = (a + rng.integers(1, n)) % n
        if t == 2:                               # CNOT a->b
            rows[:, b] ^= rows[:, a]
            rows[:, n + a] ^= rows[:, n + b]
        else:                                    # CZ
            rows[:, n + a] ^= rows[:, b]
            rows[:, n + b] ^= rows[:, a]
    return rows


def code(rng, n, k, even_y=True, css=False, tries=400):
    """Random independent commuting generators (binary) of an [n, k] code."""
    for _ in range(tries):
        rows = np.zeros((n - k, 2 * n), dtype=int)
        for i in range(n - k):
            rows[i, n + i] = 1
        if css:
            flip = rng.integers(0, 2, n).astype(bool)
            rows[:, :n], rows[:, n:] = np.where(flip, rows[:, n:], rows[:, :n]), \
                np.where(flip, rows[:, :n], rows[:, n:])
            for _ in range(int(rng.integers(n, 4 * n + 1))):
                a = rng.integers(n)
                b = (a + rng.integers(1, n)) % n if n > 1 else a
                if a != b:
                    rows[:, b] ^= rows[:, a]
                    rows[:, n + a] ^= rows[:, n + b]
        else:
            for _ in range(int(rng.integers(1, 6 * n + 1))):
                rows = _gate(rng, rows, n)
        # random invertible recombination of the generators
        for _ in range(int(rng.integers(0, 3 * (n - k) + 1))):
            if n - k < 2:
                break
            a = rng.integers(n - k)
            b = (a + rng.integers(1, n - k)) % (n - k)
            rows[b] ^= rows[a]
        rows = rows[rng.permutation(n - k)]
        if even_y and any(ref.ycount(r) % 2 for r in rows):
            continue
        return rows
    return code(rng, n, k, even_y, True)


def code_with_logicals(rng, n, k, even_y=False, tries=400):
    """Random [n, k] code with logical X and Z operators of a random Clifford frame."""
    for _ in range(tries):
        rows = np.zeros((n + k, 2 * n), dtype=int)
        for i in range(n):                       # Z on every qubit: stabilizers, then logical Z
            rows[i, n + i] = 1
        for i in range(k):                       # logical X
            rows[n + i, n - k + i] = 1
        for _ in range(int(rng.integers(1, 6 * n + 1))):
            rows = _gate(rng, rows, n)
        st, lz, lx = rows[:n - k], rows[n - k:n], rows[n:]
        if even_y and any(ref.ycount(r) % 2 for r in st):
            continue
        return st[rng.permutation(n - k)], lx, lz
    return code_with_logicals(rng, n, k, even_y)


def real_code(rng, n, k, css=False):
    """Random [n, k] code from a real Clifford circuit (H, CNOT, CZ): every element of the group has an even number of Y's."""
    rows = np.zeros((n - k, 2 * n), dtype=int)
    for i in range(n - k):
        rows[i, n + i] = 1
    perm = rng.permutation(n)
    rows = np.hstack([rows[:, :n][:, perm], rows[:, n:][:, perm]])
    if css:
        flip = rng.integers(0, 2, n).astype(bool)
        rows[:, :n], rows[:, n:] = np.where(flip, rows[:, n:], rows[:, :n]), np.where(flip, rows[:, :n], rows[:, n:])
    for _ in range(int(rng.integers(n, 6 * n + 1))):
        a = rng.integers(n)
        b = (a + rng.integers(1, n)) % n
        t = 2 if css else rng.integers(3)
        if t == 0:
            rows[:, [a, n + a]] = rows[:, [n + a, a]]
        elif t == 1:
            rows[:, n + a] ^= rows[:, b]
            rows[:, n + b] ^= rows[:, a]
        else:
            rows[:, b] ^= rows[:, a]
            rows[:, n + a] ^= rows[:, n + b]
    for _ in range(int(rng.integers(0, 3 * (n - k) + 1))):
        if n - k < 2:
            break
        a = rng.integers(n - k)
        b = (a + rng.integers(1, n - k)) % (n - k)
        rows[b] ^= rows[a]
    return rows[rng.permutation(n - k)]


def big_channel(rng, idx):
    """Channels beyond the sizes of channel() and multi_channel(): (kraus, numb_qubits, dim_in, dim_out, kind, n)."""
    t = idx % 4
    if t == 0:                                   # many Kraus operators
        n = 1 + (idx // 4) % 2
        din, dout = (int(rng.integers(2, 5 if n == 1 else 3)) for _ in range(2))
        return isometry_channel(rng, din, dout, int(rng.integers(9, 21) if n == 1 else rng.integers(5, 9))), [1, 1], din, dout, "many", n
    if t == 1:                                   # many uses
        k, di, do, kind = channel(rng, kind=("ampdamp", "unitary", "weak", "haar", "real")[idx // 4 % 5], din=2, dout=2, mmax=2)
        return k, [1, 1], di, do, "deep", 5 if len(k) > 1 else int(rng.integers(5, 7))
    if t == 2:                                   # large dimensions of one particle
        din, dout = int(rng.integers(4, 13)), int(rng.integers(4, 13))
        m = int(rng.integers(-(-din // dout), -(-din // dout) + 4))
        return isometry_channel(rng, din, dout, m), [1, 1], din, dout, "wide", 1
    nq, di, do = (([4, 4], 2, 2), ([4, 2], 2, 2), ([2, 4], 2, 2), ([3, 5], 2, 2), ([5, 3], 2, 2), ([2, 2], 3, 3), ([2, 3], 3, 2),
                  ([1, 2], 4, 3), ([3, 2], 2, 4))[int(rng.integers(9))]
    din, dout = di ** nq[0], do ** nq[1]
    m = int(rng.integers(-(-din // dout), -(-din // dout) + 3))
    return isometry_channel(rng, din, dout, m), list(nq), di, do, "particles%s" % nq, 1


def big_orthogonal(rng):
    """Five to nine orthogonal groups: (kraus, split indices, dim_in, dim_out)."""
    din = int(rng.integers(2, 4))
    ng = int(rng.integers(5, 10))
    sizes = [int(rng.integers(1, 4)) for _ in range(ng)]
    q, _ = np.linalg.qr(rng.normal(size=(sum(sizes), din)) + 1j * rng.normal(size=(sum(sizes), din)))
    ks, r = [], 0
    for g, s in enumerate(sizes):
        for _ in range(s):
            k = np.zeros((ng, din), dtype=complex)
            k[g] = q[r]
            r += 1
            ks.append(k)
    return ks, [int(x) for x in np.cumsum(sizes)[:-1]], din, ng
