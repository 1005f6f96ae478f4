"""C01-C08 on large channels; C15-C24 on codes with many qubits (two-digit qubit numbers, long registers).

The oracles avoid matrices of the full size: operators act on state vectors by their bit masks, groups are compared by
binary linear algebra and letter statistics."""
import collections
import itertools

import numpy as np

import gen
import ref
from sim import Sim, overlap
from vlib import scenario
from props_codes import GIVEN, arr, concatenated, element_format, give, inner_code, own_logicals, rand_paulis
from props_chan import FORMS, build, describe
from PyQCodes.chan.channel import AnalyticQChan
from PyQCodes.codes import StabilizerCode


@scenario("C01", 48, 800)
def large_action(m, rng, idx):
    k, nq, di, do, kind, n = gen.big_channel(rng, idx)
    a, b = (di ** nq[0]) ** n, (do ** nq[1]) ** n
    form = FORMS[idx // 4 % len(FORMS)]
    r, op = gen.rho(rng, a)[0], gen.herm(rng, b)
    describe(m, k, nq, di, do, "large " + kind, form, n, rho=r)
    c = build(k, nq, di, do, form)
    kn = ref.power(k, n)
    m.close(c.channel(r, n), ref.apply(kn, r), "output")
    m.close(c.channel(op, n, adjoint=True), ref.apply_adjoint(kn, op), "adjoint")
    rs = np.array([gen.rho(rng, a)[0] for _ in range(3)])
    m.close(c.channel(rs, n), np.array([ref.apply(kn, x) for x in rs]), "batch")


@scenario("C02", 12, 200)
def large_walks(m, rng, idx):
    """Up to six uses and back."""
    k, nq, di, do, kind, n = gen.big_channel(rng, 4 * idx + (1 if idx % 3 else 0))
    form = FORMS[idx % len(FORMS)]
    walk = [n, 1, n] if n <= 2 else [int(rng.integers(1, n)), n, int(rng.integers(1, 4)), n - 1]
    m.case(kraus=np.array(k), form=form, walk=walk)
    c = build(k, nq, di, do, form)
    for j, u in enumerate(walk):
        m.event("large n=%d" % u)
        kn = ref.power(k, u)
        r = gen.rho(rng, di ** u)[0]
        m.close(c.channel(r, u), ref.apply(kn, r), "fresh", msg="walk %s" % walk[:j + 1])
        m.close(c.nth_kraus_operators, np.array(kn), "nth-operators", msg="walk %s" % walk[:j + 1])
        m.ok((c.input_dimension, c.output_dimension) == (di ** u, do ** u), "dimensions")


@scenario("C03", 40, 600)
def large_exchange(m, rng, idx):
    k, nq, di, do, kind, n = gen.big_channel(rng, idx)
    n = min(n, 5)
    form = FORMS[idx // 4 % len(FORMS)]
    r = gen.rho(rng, (di ** nq[0]) ** n)[0]
    describe(m, k, nq, di, do, "large " + kind, form, n, rho=r)
    w = build(k, nq, di, do, form).entropy_exchange(r, n)
    m.ok(len(w) == 1, "exchange-list")
    m.close(w[0], ref.exchange(ref.power(k, n), r), "exchange")


@scenario("C03", 24, 400)
def large_blocks(m, rng, idx):
    k, splits, di, do = gen.big_orthogonal(rng)
    n = 1 if len(k) > 8 else 1 + idx % 2
    r = gen.rho(rng, di ** n)[0]
    m.case(kraus=np.array(k), splits=splits, n=n, rho=r)
    m.event("groups=%d" % (len(splits) + 1), "large n=%d" % n)
    c = build(k, [1, 1], di, do, ("list", "array")[idx % 2], orth=splits)
    full = ref.exchange(ref.power(k, n), r)
    blocks = c.entropy_exchange(r, n)
    m.ok(len(blocks) == len(splits) + 1, "blocks", "%d blocks for %d groups" % (len(blocks), len(splits) + 1))
    edges = [0] + [s * len(k) ** (n - 1) for s in splits] + [len(k) ** n]
    for b, lo, hi in zip(blocks, edges, edges[1:]):
        m.close(b, full[lo:hi, lo:hi], "blocks", msg="block %d:%d" % (lo, hi))
    m.close(c.coherent_information(r, n), ref.coherent(ref.power(k, n), r), "blocks", tol=1e-6, msg="coherent information")


@scenario("C04", 16, 300)
def large_agreement(m, rng, idx):
    k, nq, di, do, kind, n = gen.big_channel(rng, idx)
    n = min(n, 5)
    r, op = gen.rho(rng, (di ** nq[0]) ** n)[0], gen.herm(rng, (do ** nq[1]) ** n)
    describe(m, k, nq, di, do, "large " + kind, "both", n, rho=r)
    d, s = build(k, nq, di, do, "list"), build(k, nq, di, do, "sparse-list")
    m.close(d.channel(r, n), s.channel(r, n), "agree", tol=1e-9, msg="output")
    m.close(d.channel(op, n, adjoint=True), s.channel(op, n, adjoint=True), "agree", tol=1e-9, msg="adjoint")
    m.close(d.nth_kraus_operators, ref.todense(s.nth_kraus_operators), "agree", tol=1e-10, msg="n-use operators")
    m.close(d.entropy_exchange(r, n)[0], s.entropy_exchange(r, n)[0], "agree", tol=1e-9, msg="exchange")
    m.close(d.coherent_information(r, n), s.coherent_information(r, n), "agree", tol=1e-6, msg="coherent information")


@scenario("C05", 48, 600)
def large_choi(m, rng, idx):
    k, nq, di, do, kind, _ = gen.big_channel(rng, 4 * (idx // 3) + (0, 2, 3)[idx % 3])
    a, b = di ** nq[0], do ** nq[1]
    ch, r, op = ref.choi(k), gen.rho(rng, a)[0], gen.herm(rng, b)
    m.case(choi=ch, nq=list(nq), rho=r)
    m.event("large " + kind, "in %d out %d" % (a, b))
    c = AnalyticQChan(np.array(ch), list(nq), di, do)
    m.close(c.channel(r, 1), ref.apply(k, r), "output")
    m.close(c.channel(op, 1, adjoint=True), ref.apply_adjoint(k, op), "adjoint", tol=1e-6)
    m.close(ref.choi(c.kraus), ch, "regenerate", tol=1e-6)
    m.close(ref.apply(c.kraus, r), ref.apply(k, r), "regenerate", tol=1e-6)
    m.ok((c.input_dimension, c.output_dimension) == (a, b), "attributes")


@scenario("C07", 24, 400)
def large_coherent(m, rng, idx):
    k, nq, di, do, kind, n = gen.big_channel(rng, idx)
    n = min(n, 5)
    form = FORMS[idx // 4 % len(FORMS)]
    r = gen.rho(rng, (di ** nq[0]) ** n)[0]
    describe(m, k, nq, di, do, "large " + kind, form, n, rho=r)
    c = build(k, nq, di, do, form)
    want = ref.coherent(ref.power(k, n), r)
    m.close(c.coherent_information(r, n), want, "coherent", tol=1e-6)
    m.close(c.coherent_information(r, n, regularized=True), want / n, "coherent", tol=1e-6, msg="regularised")


@scenario("C08", 24, 400)
def large_fidelity(m, rng, idx):
    while True:
        k, nq, di, do, kind, n = gen.big_channel(rng, idx)
        if di ** nq[0] == do ** nq[1]:
            break
    a = (di ** nq[0]) ** n
    r = gen.rho(rng, a, gen.RHO_KINDS[idx % len(gen.RHO_KINDS)])[0]
    describe(m, k, nq, di, do, "large " + kind, "list", n, rho=r)
    got = build(k, nq, di, do, FORMS[idx // 4 % len(FORMS)]).fidelity_two_states(r, n)
    m.close(got, ref.fidelity(r, ref.apply(ref.power(k, n), r)), "fidelity", tol=5e-6)


def profile(rows):
    """Letter statistics over the whole group, see props_codes.group_profile."""
    rows = np.array(rows, dtype=np.uint8)
    n = rows.shape[1] // 2
    sp = np.zeros((1, 2 * n), dtype=np.uint8)
    for r in rows:
        sp = np.vstack([sp, sp ^ r])
    x, z = sp[:, :n].astype(int), sp[:, n:].astype(int)
    y = (x * z).sum(1)
    return collections.Counter(zip(x.sum(1) - y, y, z.sum(1) - y))


def sample_group(rng, nf):
    return rng.integers(0, 2, len(nf)) @ nf % 2


@scenario("C15", 100, 8000)
def large_normal_forms(m, rng, idx):
    n = int(rng.integers(8, 25))
    r = int(rng.integers(1, min(n, 11) + 1))                 # number of generators
    if idx % 3 == 0:
        r = int(rng.integers(min(n, 11), n + 1))
    k = n - r
    rows = gen.real_code(rng, n, k, css=idx % 4 == 0) if idx % 2 else gen.code(rng, n, k, even_y=False, css=idx % 8 == 0)
    how = GIVEN[idx // 2 % 4]
    m.case(code=rows, how=how)
    m.event("large n=%d" % n)
    c = StabilizerCode(give(rows, how), n, k)
    m.ok((c.n, c.k) == (n, k), "attributes")
    m.close(c.stab_bin_rep, rows, "attributes", tol=0, msg="given generators")
    m.ok(list(c.pauli_stab) == [ref.letters(v) for v in rows], "attributes", "strings")
    nf = arr(c.normal_form)
    rank = int(c.rank)
    low = r - rank
    m.ok(nf.shape == (r, 2 * n) and set(np.unique(nf)) <= {0, 1}, "normal-form", "shape")
    m.ok(rank == ref.gf2_rank(rows[:, :n]), "normal-form", "rank %d" % rank)
    m.ok(np.array_equal(nf[:rank, :rank], np.eye(rank)) and not nf[rank:, :n].any()
         and np.array_equal(nf[rank:, n + rank:n + r], np.eye(low)), "normal-form", "blocks")
    m.ok(all(ref.symp(a, b) == 0 for a in nf for b in nf) and ref.gf2_rank(nf) == r, "normal-form", "group")
    if r <= 11:
        m.ok(profile(nf) == profile(rows), "same-group", "letter statistics of the groups differ")
    else:
        # per qubit: the rank of the generators on each qubit and pair of qubits does not depend on the generators
        def ranks(g):
            return sorted(ref.gf2_rank(g[:, [a, b, n + a, n + b]]) for a in range(n) for b in range(a))
        m.ok(ranks(nf) == ranks(rows), "same-group", "ranks on pairs of qubits differ")


@scenario("C16", 100, 8000)
def large_logical_algebra(m, rng, idx):
    n = int(rng.integers(8, 25))
    k = int(rng.integers(1, n))
    rows = gen.real_code(rng, n, k, css=idx % 4 == 0) if idx % 2 else gen.code(rng, n, k, even_y=False, css=idx % 8 == 0)
    m.case(code=rows)
    m.event("large n=%d" % n)
    c = StabilizerCode(give(rows, GIVEN[idx // 2 % 4]), n, k)
    lx, lz, nf = arr(c.logical_x), arr(c.logical_z), arr(c.normal_form)
    m.ok(lx.shape == (k, 2 * n) and lz.shape == (k, 2 * n) and set(np.unique(np.vstack([lx, lz]))) <= {0, 1}, "commute",
         "shapes %s %s" % (lx.shape, lz.shape))
    full = np.vstack([lx, lz, nf])
    g = (full[:, :n] @ full[:, n:].T + full[:, n:] @ full[:, :n].T) % 2
    want = np.zeros_like(g)
    want[:k, k:2 * k] = want[k:2 * k, :k] = np.eye(k, dtype=int)
    m.ok(np.array_equal(g[2 * k:], want[2 * k:]), "commute", "operators anticommute with the normal form")
    m.ok(np.array_equal(g, want), "pauli-algebra", "products of the logical operators")
    m.ok(ref.gf2_rank(full) == n + k, "independent")


@scenario("C17", 12, 120)
def large_encoders(m, rng, idx):
    n = int(rng.integers(7, 10 if idx % 4 else 11))
    k = int(rng.integers(0, 4))
    rows = gen.real_code(rng, n, k, css=idx % 3 == 0)
    m.case(code=rows)
    m.event("large n=%d k=%d" % (n, k))
    c = StabilizerCode(give(rows, GIVEN[idx % 4]), n, k)
    v = np.asarray(c.encode_krauss_operators())
    m.ok(v.shape == (2 ** n, 2 ** k), "isometry", "shape %s" % (v.shape,))
    m.close(ref.dag(v) @ v, np.eye(2 ** k), "isometry", tol=1e-8)
    for g in rows:
        m.close(ref.act(g, v), v, "code-space", tol=1e-8, msg=ref.letters(g))
    m.close(ref.todense(c.encode_krauss_operators(sparse=True)), v, "sparse", tol=1e-8)


def encode(rng, c, x):
    s = Sim(rng, c.n)
    c.encoding_circuit(s.eng, s.reg, list(x))
    v = s.state(s.reg)
    s.free(s.reg)
    return v


def big_code(m, rng, idx, lo=9, hi=12, kmin=0, kmax=4):
    n = int(rng.integers(lo, hi + 1))
    k = int(rng.integers(kmin, min(kmax, n - 1) + 1))
    rows = gen.real_code(rng, n, k, css=idx % 4 == 0)
    c = StabilizerCode(give(rows, GIVEN[idx % 4]), n, k)
    if idx % 3 == 1:
        c = own_logicals(m, rng, c, give(rows, GIVEN[idx % 4]))
    m.event("large n=%d k=%d" % (n, k))
    return rows, n, k, c


@scenario("C18", 160, 4000)
def large_encoding(m, rng, idx):
    rows, n, k, c = big_code(m, rng, idx, 9, 13, kmax=11 if idx % 4 == 3 else 4)
    x = tuple(int(b) for b in rng.integers(0, 2, k))
    y = tuple(int(b) for b in rng.integers(0, 2, k))
    m.case(code=rows, x=x, y=y)
    nf, lx, lz = arr(c.normal_form), arr(c.logical_x), arr(c.logical_z)
    zero = encode(rng, c, (0,) * k)
    for b in {x, y, (0,) * k}:
        v = zero if not any(b) else encode(rng, c, b)
        m.ok(abs(np.linalg.norm(v) - 1) < 1e-9, "stabilized", "norm")
        for g in nf:
            m.close(ref.act(g, v), v, "stabilized", tol=1e-8, msg="generator %s on %s" % (ref.letters(g), b))
        w = zero
        for i in reversed(range(k)):
            m.close(ref.act(lz[i], v), (-1) ** b[i] * v, "logical-z", tol=1e-8, msg="Z%d on %s" % (i, b))
            if b[i]:
                w = ref.act(lx[i], w)
        m.close(w, v, "logical-x", tol=1e-8, msg="state %s" % (b,))


@scenario("C19", 40, 3000)
def large_decoding(m, rng, idx):
    rows, n, k, c = big_code(m, rng, idx, 9, 11, kmin=1, kmax=3)
    strings = [tuple(int(b) for b in rng.integers(0, 2, k)) for _ in range(3)]
    strings = sorted(set(strings))
    amp = gen.vec(rng, len(strings))
    add, drop = bool(idx & 1), bool(idx & 2)
    m.case(code=rows, strings=strings, amplitudes=amp, add=add, drop=drop)
    zero = encode(rng, c, (0,) * k)
    start = sum(a * encode(rng, c, x) for a, x in zip(amp, strings))
    want = np.zeros(2 ** k, dtype=complex)
    for a, x in zip(amp, strings):
        want[int("".join(map(str, x)), 2)] = a
    s = Sim(rng)
    code = list(s.alloc(n))
    if add:
        s.set(start, code)
        got = list(c.decoding_circuit(s.eng, s_reg(code), add_ancilla_bits=True, deallocate_nqubits=drop))
        anc = got if drop else got[n:]
    else:
        anc = list(s.alloc(k))
        s.set(np.kron(start, np.eye(2 ** k)[0]), code + anc)
        got = list(c.decoding_circuit(s.eng, s_reg(code + anc), add_ancilla_bits=False, deallocate_nqubits=drop))
    ids = [q.id for q in got]
    m.ok(len(set(ids)) == len(ids) == (k if drop else n + k), "returned", "qubits %s" % ids)
    m.ok(not set(ids) & {q.id for q in code} if drop else ids[:n] == [q.id for q in code], "returned", "qubits %s" % ids)
    fin = s.state(code + anc)
    left = zero
    if drop:
        j = int((np.abs(fin.reshape(2 ** n, -1)) ** 2).sum(1).argmax())
        m.ok(abs(left[j]) > 1e-9, "measured", "code qubits not measured in the support of the encoded zero")
        left = np.eye(2 ** n)[j]
    m.close(overlap(fin, np.kron(left, want)), 1.0, "decoded", tol=1e-8, msg="overlap with the superposition on the ancillas")
    s.free(code, anc)


def s_reg(qubits):
    """A list of qubits, in the order given, as a register."""
    return list(qubits)


@scenario("C20", 60, 3000)
def large_syndromes(m, rng, idx):
    rows, n, k, c = big_code(m, rng, idx, 10, 12, kmax=2)
    nf = arr(c.normal_form)
    own = bool(idx & 1)
    x = [int(b) for b in rng.integers(0, 2, k)]
    err = rand_paulis(rng, n, 1)[0]
    m.case(code=rows, x=x, error=err, own=own)
    s = Sim(rng, n)
    code = list(s.reg)
    c.encoding_circuit(s.eng, s.reg, x)
    v = ref.act(err, s.state(code))
    anc = list(s.alloc(1)) if own else []
    z = np.array([1.0, 0.0]) if own else np.ones(1)
    s.set(np.kron(v, z), code + anc)
    for j in rng.permutation(len(nf))[:6]:
        g = nf[j]
        r = c.single_syndrome_measurement(s.eng, code + anc, element_format(rng, g))
        m.ok(r == ref.symp(err, g), "syndrome", "%s gives %s, error %s" % (ref.letters(g), r, ref.letters(err)))
        m.close(overlap(s.state(code + anc), np.kron(v, z)), 1.0, "undisturbed", tol=1e-8, msg=ref.letters(g))
        m.event("outcome %d" % r)
    # elements outside of the group, Y's on the last qubits: projective
    for _ in range(2):
        g = rand_paulis(rng, n, 1)[0]
        g[n - 2:n] = g[2 * n - 2:] = 1
        if ref.ycount(g) % 2:
            j = int(rng.integers(n - 2))
            g[j], g[n + j] = (1, 1) if not (g[j] and g[n + j]) else (0, 1)
        r = c.single_syndrome_measurement(s.eng, code + anc, element_format(rng, g))
        want = (v + (-1) ** r * ref.act(g, v)) / 2
        m.ok(np.linalg.norm(want) > 1e-6, "projective", "outcome %s of %s has probability 0" % (r, ref.letters(g)))
        v = want / np.linalg.norm(want)
        m.close(overlap(s.state(code + anc), np.kron(v, z)), 1.0, "projective", tol=1e-7, msg=ref.letters(g))
    s.free(code, anc)


@scenario("C21", 50, 3000)
def large_operators(m, rng, idx):
    many = idx % 2 == 0                       # ten or more logical qubits: two-digit names
    n = int(rng.integers(12, 14)) if many else int(rng.integers(10, 13))
    k = int(rng.integers(11, n)) if many else int(rng.integers(1, 4))
    rows = gen.real_code(rng, n, k)
    c = StabilizerCode(give(rows, GIVEN[idx % 4]), n, k)
    if idx % 3 == 1:
        c = own_logicals(m, rng, c, give(rows, GIVEN[idx % 4]))
    lx, lz = arr(c.logical_x), arr(c.logical_z)
    v = gen.vec(rng, 2 ** n)
    m.case(code=rows, state=v[:64])
    m.event("large n=%d k=%d" % (n, k))
    s = Sim(rng, n)
    for i in {k - 1, int(rng.integers(k)), min(k - 1, 1)}:
        for name, op in (("X", lx[i]), ("Z", lz[i]), ("Y", (lx[i] + lz[i]) % 2)):
            s.set(v, s.reg)
            c.logical_circuit(s.eng, s.reg, name + str(i))
            m.close(s.state(s.reg), ref.act(op, v), "logical-matrix", tol=1e-9, msg="%s%d = %s" % (name, i, ref.letters(op)))
    for _ in range(3):
        g = rand_paulis(rng, n, 1)[0]
        g[n - 1] = g[2 * n - 1] = 1
        s.set(v, s.reg)
        c.apply_stabilizer_circuit(s.eng, s.reg, element_format(rng, g))
        # true Pauli matrices: Y = i XZ
        m.close(s.state(s.reg), 1j ** ref.ycount(g) * ref.act(g, v), "stabilizer-matrix", tol=1e-9, msg=ref.letters(g))
    for bad in ("X%d" % k, "Z%d" % (10 * k + 10), "Y1%dX" % (k - 1)):
        m.raises(lambda: c.logical_circuit(s.eng, s.reg, bad), "refused", "name %r" % bad)
    s.free(s.reg)


@scenario("C22", 80, 3000)
def large_representations(m, rng, idx):
    n = int(rng.integers(10, 65)) if idx % 5 else int(rng.integers(200, 400))
    count = int(rng.integers(1, 6))
    rows = rand_paulis(rng, n, count)
    if idx % 4 == 0:                          # many overlapping factors
        rows[:] = 1
    s = [ref.letters(r) for r in rows]
    m.case(strings=s)
    m.event("large n=%d" % (n // 10 * 10))
    b = StabilizerCode.pauli_str_to_binary_representation(s)
    m.close(b, rows, "strings", tol=0, msg="string to vector")
    for r, x in zip(b, s):
        m.ok(StabilizerCode.binary_rep_to_pauli_str(r) == x, "strings", "vector to string: %s" % x)
    for i, j in itertools.product(range(count), repeat=2):
        m.ok(StabilizerCode.inner_prod(rows[i], rows[j]) == ref.symp(rows[i], rows[j]) == StabilizerCode.inner_prod(b[i], b[j]),
             "symplectic", "%s, %s" % (s[i], s[j]))
    n = int(rng.integers(7, 10))
    rows = rand_paulis(rng, n, 2)
    v = gen.vec(rng, 2 ** n)
    for sp in (False, True):
        for a, r in zip(StabilizerCode.binary_rep_to_pauli_mat(np.array(rows), sparse=sp), rows):
            m.ok(a.shape == (2 ** n, 2 ** n), "matrices", "shape %s" % (a.shape,))
            m.close(ref.todense(a) @ v, ref.act(r, v), "matrices", tol=1e-10, msg=ref.letters(r))


@scenario("C23", 40, 4000)
def large_concatenation(m, rng, idx):
    l = int(rng.integers(1, 6))
    m_ = int(rng.integers(l + 1, l + 4))
    n = l * int(rng.integers(2, max(3, 13 // l + 1)))
    k = int(rng.integers(0, n))
    rows = gen.code(rng, n, k, even_y=False, css=rng.random() < 0.3)
    outer = StabilizerCode(give(rows, GIVEN[idx % 4]), n, k)
    inner, st, lx, lz = inner_code(rng, m_, l)
    tot = n // l * m_
    m.case(outer=rows, inner=st, lx=lx, lz=lz)
    m.event("large [%d,%d]" % (tot // 10 * 10, k))
    c = StabilizerCode.concatenate_codes(outer, inner)
    m.ok((c.n, c.k) == (tot, k), "parameters", "[%s,%s] instead of [%d,%d]" % (c.n, c.k, tot, k))
    want, got = concatenated(rows, n, st, lx, lz, m_, l), arr(c.stab_bin_rep)
    m.ok(got.shape == want.shape and ref.gf2_rank(got) == ref.gf2_rank(want) == ref.gf2_rank(np.vstack([got, want])), "group",
         "the generators span another group")
    full = np.vstack([arr(c.logical_x), arr(c.logical_z), arr(c.normal_form)])
    g = (full[:, :tot] @ full[:, tot:].T + full[:, tot:] @ full[:, :tot].T) % 2
    exp = np.zeros_like(g)
    exp[:k, k:2 * k] = exp[k:2 * k, :k] = np.eye(k, dtype=int)
    m.ok(np.array_equal(g, exp), "logical", "logical operators of the result")
    # a third level, with the identity [l, l]-like block of one qubit where it divides
    if tot <= 24 and idx % 2:
        third, st3, lx3, lz3 = inner_code(rng, 3, 1)
        d = StabilizerCode.concatenate_codes(c, third)
        want = concatenated(got, tot, st3, lx3, lz3, 3, 1)
        m.ok((d.n, d.k) == (3 * tot, k), "parameters", "third level")
        m.ok(ref.gf2_rank(arr(d.stab_bin_rep)) == ref.gf2_rank(want) == ref.gf2_rank(np.vstack([arr(d.stab_bin_rep), want])),
             "group", "third level")
        m.event("three levels")


@scenario("C24", 12, 200)
def large_lists(m, rng, idx):
    from scipy.sparse import csr_matrix
    n = int(rng.integers(5, 8))
    k = int(rng.integers(0, 4))
    rows = gen.real_code(rng, n, k, css=idx % 3 == 0)
    c = StabilizerCode(give(rows, GIVEN[idx % 4]), n, k)
    # every error of weight one, shuffled, with the identity
    errs = np.vstack([np.zeros((1, 2 * n), int), np.eye(2 * n, dtype=int), np.eye(n, 2 * n, dtype=int) + np.eye(n, 2 * n, n, dtype=int)])
    errs = errs[rng.permutation(len(errs))][:12]
    amp = rng.uniform(0.2, 1, len(errs))
    m.case(code=rows, errors=errs, amp=amp)
    m.event("large n=%d" % n)
    mats = [a * ref.smat(ref.letters(e)) for a, e in zip(amp, errs)]
    for sp in (False, True):
        got = c.kraus_operators_correcting_errors([csr_matrix(w) if sp else w.copy() for w in mats], sparse=sp)
        oracle = "sparse-list" if sp else "list"
        m.ok(len(got) == len(errs), oracle, "%d operators for %d errors" % (len(got), len(errs)))
        for g, w, e in zip(got, mats, errs):
            anti = [r for r in rows if ref.symp(e, r)]
            m.close(ref.todense(g), ref.act(anti[0], w) if anti else w, oracle, tol=1e-9, msg=ref.letters(e))


@scenario("C25", 12, 200)
def large_two_designs(m, rng, idx):
    """Five to eleven qubits."""
    from props_dev import ProjectQDeviceAdaptor, layers
    n = 5 + idx % 7
    eps = float(rng.uniform(0.05, 0.9))
    s = Sim(rng, n)
    v = gen.vec(rng, 2 ** n)
    m.case(n=n, eps=eps, state=v[:64])
    m.event("large n=%d" % n, "layers=%d" % layers(n, eps))
    d = ProjectQDeviceAdaptor(s.eng, s.reg)
    s.set(v, s.reg)
    first = d.approximate_unitary_two_design(eps)
    m.ok(len(first) == layers(n, eps), "layers", "%d layers for %d qubits and epsilon %g" % (len(first), n, eps))
    mid = s.state(s.reg)
    m.event("circuit moved the state" if overlap(mid, v) < 1 - 1e-9 else "circuit left the state")
    d.inverse_of_unitary_two_design(first)
    m.close(overlap(s.state(s.reg), v), 1, "inverse", tol=1e-8, msg="the circuit is not undone")
    s.free(s.reg)


@scenario("C25", 8, 100)
def large_estimates(m, rng, idx):
    from projectq.ops import X, Y, Z
    from props_dev import ProjectQDeviceAdaptor, QDeviceChannel, Watch, judge
    n = 5 + idx % 4
    eps = float(rng.uniform(0.1, 0.9))
    ntimes = int(rng.integers(2, 7))
    s = Sim(rng, n)
    w = Watch(s.eng)
    kind = ("identity", "pauli", "sometimes")[idx % 3]
    calls = [0]

    def noise(eng, reg):
        calls[0] += 1
        if kind == "pauli" or kind == "sometimes" and calls[0] % 2:
            (X, Y, Z)[int(rng.integers(3))] | reg[int(rng.integers(n))]
    m.case(n=n, eps=eps, ntimes=ntimes, kind=kind, seed=int(rng.integers(1 << 30)))
    m.event("large n=%d" % n, kind)
    if idx % 2:
        value = ProjectQDeviceAdaptor(s.eng, s.reg).estimate_average_fidelity(w.around(noise), ntimes, eps, cheat=bool(idx & 4))
    else:
        value = QDeviceChannel(s.eng, s.reg, w.around(noise)).estimate_average_fidelity_channel(ntimes, eps, cheat=bool(idx & 4))
    judge(m, w, value, ntimes, n, s.eng)
    if kind == "identity":
        m.ok(value == 1, "identity", "%r for the identity" % value)
