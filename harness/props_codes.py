"""C14 (codes), C15-C24, C26 and C29 (codes): stabilizer-code monitors."""
import collections
import itertools

import numpy as np

import gen
import ref
from sim import Sim, overlap
from vlib import rule, scenario
from props_chan import build
from PyQCodes.codes import StabilizerCode
from PyQCodes.chan.channel import AnalyticQChan
from PyQCodes.chan.param import CholeskyParam, OverParam
from PyQCodes.find_codes import effective_channel_with_stabilizers

GIVEN = ("str", "list", "array", "float")


def give(rows, how):
    """The generators in one of the accepted input formats."""
    rows = np.array(rows, dtype=int)
    if how == "str":
        return [ref.letters(r) for r in rows]
    if how == "list":
        return [[int(x) for x in r] for r in rows]
    return np.array(rows, dtype=float if how == "float" else int)


def code_case(rng, nmax=6, even_y=True, kmin=0, kmax=99, nmin=1):
    n = int(rng.integers(max(nmin, kmin + 1), nmax + 1))
    k = int(rng.integers(kmin, min(n - 1, kmax) + 1))
    return gen.code(rng, n, k, even_y=even_y, css=rng.random() < 0.3), n, k


KNOWN = [(v[0], v[1], v[2]) for v in ref.KNOWN.values()]


def known_code(idx, nmax=9):
    ks = [x for x in KNOWN if x[1] <= nmax]
    s, n, k = ks[idx % len(ks)]
    return np.array([ref.bits(x) for x in s]), n, k


def arr(m):
    return np.array(m, dtype=float).astype(int)


def rand_paulis(rng, n, count):
    return rng.integers(0, 2, size=(count, 2 * n))


# ------------------------------------------------------------------------------------------ C14 (codes)

@scenario("C14", 300, 2400)
def code_descriptions(m, rng, idx):
    rows, n, k = code_case(rng, even_y=False)
    how = GIVEN[idx % 4]
    m.case(code=rows, how=how, n=n, k=k)
    StabilizerCode(give(rows, how), n, k)
    m.ok(True, "code-accepted")

    def refuse(g, nn=n, kk=k, msg="", raw=False):
        m.raises(lambda: StabilizerCode(g if raw else give(g, how), nn, kk), "code-refused", msg)
    # one anticommuting pair, at a random place
    if n - k >= 2:
        for _ in range(3):
            a, b = rng.choice(n - k, 2, replace=False)
            bad = rows.copy()
            if not bad[b].any():
                continue
            j = int(rng.choice(np.flatnonzero(bad[b])))
            bad[a, (j + n) % (2 * n)] ^= 1
            if any(ref.symp(bad[x], bad[y]) for x in range(n - k) for y in range(x)):
                refuse(bad, msg="anticommuting generators")
        refuse(rows[:-1], msg="a generator is missing")
    refuse(np.vstack([rows, rows[0]]), msg="one generator too many")
    refuse(rows, kk=k + 1, msg="k too large")
    if k:
        refuse(rows, kk=k - 1, msg="k too small")
    refuse(rows, nn=n + 1, msg="n too large")
    refuse(rows, nn=n + 1, kk=k + 1, msg="n and k too large")
    if n > 1:
        refuse(rows, nn=n - 1, kk=max(k - 1, 0), msg="n too small")
    wide = np.hstack([rows[:, :n], np.zeros((n - k, 1), int), rows[:, n:], np.zeros((n - k, 1), int)])
    refuse(wide, msg="vectors too long")
    s = give(rows, "str")
    refuse([x + "I" for x in s], raw=True, msg="strings too long")
    if n - k >= 2:
        j = int(rng.integers(n - k))
        refuse(s[:j] + [s[j] + "I"] + s[j + 1:], raw=True, msg="one string too long")
        refuse(s[:j] + [s[j][:-1]] + s[j + 1:], raw=True, msg="one string too short")
    j, c = int(rng.integers(n - k)), int(rng.integers(n))
    refuse(s[:j] + [s[j][:c] + "WxyzA0"[int(rng.integers(6))] + s[j][c + 1:]] + s[j + 1:], raw=True, msg="unknown letter")
    m.event("code faults")


# ------------------------------------------------------------------------------------------ C15

rule("C15", "random stabilizer groups (n up to 7, every k, with and without odd Y counts, CSS and general, random generator "
     "recombinations) and standard codes x input format; span compared over all qubit relabellings; non-trivial: distinct "
     "generator sets",
     {"normal-form": 250, "same-group": 150, "attributes": 250})


def group_profile(rows):
    """Multiset of letter counts over the whole group: invariant under relabelling of the qubits."""
    out = collections.Counter()
    for v in ref.span(rows):
        s = ref.letters(v)
        out[(s.count("X"), s.count("Y"), s.count("Z"))] += 1
    return out


def relabelling(nf, rows, n):
    """A qubit permutation that maps the normal form into the given group, or None."""
    sp = ref.span(rows)
    cols = [(tuple(nf[:, i]), tuple(nf[:, n + i])) for i in range(n)]
    ident = list(range(n))
    for perm in itertools.chain([ident], itertools.permutations(range(n))):
        perm = list(perm)
        if all(tuple(ref.permute(r, perm)) in sp for r in nf):
            return perm
    return None


@scenario("C15", 3120, 48000)
def normal_forms(m, rng, idx):
    if idx % 20 == 0:
        rows, n, k = known_code(idx // 20)
    else:
        rows, n, k = code_case(rng, 7 if idx % 8 == 0 else 6, even_y=bool(idx % 2))
    how = GIVEN[idx % 4]
    m.case(code=rows, how=how)
    c = StabilizerCode(give(rows, how), n, k)
    m.ok((c.n, c.k) == (n, k), "attributes")
    m.close(c.stab_bin_rep, rows, "attributes", tol=0, msg="given generators")
    m.ok(list(c.pauli_stab) == [ref.letters(r) for r in rows], "attributes", "strings %s" % c.pauli_stab)
    nf = arr(c.normal_form)
    m.ok(nf.shape == (n - k, 2 * n) and set(np.unique(nf)) <= {0, 1}, "normal-form", "shape")
    rank = int(c.rank)
    m.ok(rank == ref.gf2_rank(rows[:, :n]), "normal-form", "rank %d of the X block" % rank)
    m.ok(np.array_equal(nf[:rank, :rank], np.eye(rank)), "normal-form", "identity block of the X part")
    m.ok(not nf[rank:, :n].any(), "normal-form", "X part of the lower rows")
    low = n - k - rank
    m.ok(np.array_equal(nf[rank:, n + rank:n + rank + low], np.eye(low)), "normal-form", "identity block of the Z part")
    m.ok(all(ref.symp(a, b) == 0 for a in nf for b in nf), "normal-form", "rows anticommute")
    m.ok(ref.gf2_rank(nf) == n - k, "normal-form", "rows are dependent")
    it = [np.array(r, dtype=float).astype(int) for r in c]
    m.ok(len(it) == n - k and all(np.array_equal(a, b) for a, b in zip(it, nf)), "attributes", "iteration")
    m.event("n=%d k=%d" % (n, k), "rank %s" % ("full" if rank == n - k else "0" if rank == 0 else "partial"), "given " + how)
    if n <= 6:
        perm = relabelling(nf, rows, n)
        m.ok(perm is not None, "same-group", "no relabelling of the qubits maps the normal form into the code")
        m.event("relabelled" if perm != list(range(n)) else "not relabelled")
    else:
        m.ok(group_profile(nf) == group_profile(rows), "same-group", "letter statistics of the groups differ")


# ------------------------------------------------------------------------------------------ C16

rule("C16", "random codes and standard codes with k >= 1: symplectic products of all pairs of derived operators and normal-form "
     "rows, independence over the binary field; user-supplied operators from a random Clifford frame; non-trivial: distinct "
     "codes",
     {"commute": 200, "pauli-algebra": 200, "independent": 200, "user": 60})


@scenario("C16", 2400, 40000)
def logical_algebra(m, rng, idx):
    if idx % 20 == 0:
        rows, n, k = known_code(idx // 20)
    else:
        rows, n, k = code_case(rng, 7, even_y=bool(idx % 2), kmin=1)
    how = GIVEN[idx % 4]
    m.case(code=rows, how=how)
    m.event("n=%d k=%d" % (n, k))
    c = StabilizerCode(give(rows, how), n, k)
    lx, lz = arr(c.logical_x), arr(c.logical_z)
    m.ok(lx.shape == (k, 2 * n) and lz.shape == (k, 2 * n) and set(np.unique(np.vstack([lx, lz]))) <= {0, 1}, "commute",
         "shapes %s %s" % (lx.shape, lz.shape))
    nf = arr(c.normal_form)
    m.ok(all(ref.symp(a, g) == 0 for a in np.vstack([lx, lz]) for g in nf), "commute",
         "a logical operator anticommutes with a normal-form row")
    for i in range(k):
        for j in range(k):
            m.ok(ref.symp(lx[i], lz[j]) == int(i == j) and ref.symp(lx[i], lx[j]) == 0 and ref.symp(lz[i], lz[j]) == 0,
                 "pauli-algebra", "pair %d, %d" % (i, j))
    m.ok(ref.gf2_rank(np.vstack([nf, lx, lz])) == n + k, "independent")
    x2, z2 = c.logical_operators()
    m.ok(np.array_equal(arr(x2), lx) and np.array_equal(arr(z2), lz), "pauli-algebra", "recomputed operators differ")


@scenario("C16", 800, 10000)
def user_logicals(m, rng, idx):
    n = int(rng.integers(2, 6))
    k = int(rng.integers(1, n))
    st, lx, lz = gen.code_with_logicals(rng, n, k)
    m.case(code=st, lx=lx, lz=lz)
    c = StabilizerCode(give(st, GIVEN[idx % 4]), n, k, [lx.copy(), lz.copy()])
    m.ok(np.array_equal(arr(c.logical_x), lx) and np.array_equal(arr(c.logical_z), lz), "user", "operators not as given")
    s = Sim(rng, n)
    v = gen.vec(rng, 2 ** n)
    i = int(rng.integers(k))
    for name, op in (("X%d" % i, lx[i]), ("Z%d" % i, lz[i]), ("Y%d" % i, (lx[i] + lz[i]) % 2)):
        s.set(v, s.reg)
        c.logical_circuit(s.eng, s.reg, name)
        m.close(s.state(s.reg), ref.pmat(op) @ v, "user", tol=1e-9, msg="circuit of the operator given: " + name)
    s.free(s.reg)


# ------------------------------------------------------------------------------------------ C17

rule("C17", "random and standard codes with Hermitian generators: orthonormality and projector of the encoder, dense and sparse; "
     "non-trivial: distinct codes",
     {"isometry": 150, "code-space": 150, "sparse": 100})


@scenario("C17", 1440, 20800)
def encoders(m, rng, idx):
    if idx % 18 == 0:
        rows, n, k = known_code(idx // 18, 7 if idx < 170 else 9)
    else:
        rows, n, k = code_case(rng)
    m.case(code=rows)
    m.event("n=%d k=%d" % (n, k))
    c = StabilizerCode(give(rows, GIVEN[idx % 4]), n, k)
    v = np.asarray(c.encode_krauss_operators())
    m.ok(v.shape == (2 ** n, 2 ** k), "isometry", "shape %s" % (v.shape,))
    m.close(ref.dag(v) @ v, np.eye(2 ** k), "isometry", tol=1e-8)
    m.close(v @ ref.dag(v), ref.projector(rows), "code-space", tol=1e-8)
    s = c.encode_krauss_operators(sparse=True)
    m.ok(hasattr(s, "todense"), "sparse", "type %s" % type(s))
    m.close(ref.todense(s), v, "sparse", tol=1e-8)
    if idx % 3 == 0 and n <= 5:               # as a channel it is trace preserving and preserves states
        ch = AnalyticQChan([v], [k, n] if k else [1, n], 2 if k else 1, 2)
        r = gen.rho(rng, 2 ** k)[0]
        m.close(ch.channel(r, 1), v @ r @ ref.dag(v), "isometry", tol=1e-8)


# ------------------------------------------------------------------------------------------ C18

rule("C18", "random and standard codes x every bit string (k <= 3, else random): state vectors from the simulator against the "
     "matrices of the normal form and logical operators; non-trivial: distinct (code, bit string)",
     {"stabilized": 150, "logical-z": 100, "logical-x": 100, "refused": 60})


def enc_states(c, rng, strings):
    """State vectors prepared by the encoding circuit."""
    out = {}
    for x in strings:
        s = Sim(rng, c.n)
        c.encoding_circuit(s.eng, s.reg, list(x))
        out[x] = s.state(s.reg)
        s.free(s.reg)
    return out


def circuit_code(rng, idx, nmax=6, kmin=0, kmax=3):
    if idx % 12 == 0:
        return known_code(idx // 12, 8 if nmax > 5 else nmax)
    return code_case(rng, nmax, kmin=kmin, kmax=kmax, nmin=1 if idx % 3 == 0 else 3)


def own_logicals(m, rng, c, given):
    """The same code with user-supplied logical operators: the derived ones times Z-type generators of the normal form.

    They act on the code space exactly as the derived ones (also in the convention Y = XZ), but have other letters, e.g. Y."""
    zrows = arr(c.normal_form)[c.rank:]
    if not len(zrows) or not c.k:
        return c
    lx, lz = [(arr(l) + rng.integers(0, 2, (c.k, len(zrows))) @ zrows) % 2 for l in (c.logical_x, c.logical_z)]
    m.event("own logical operators", *(["own with Y"] if any("Y" in ref.letters(v) for v in lx) else []))
    return StabilizerCode(given, c.n, c.k, [lx, lz])


@scenario("C18", 880, 12000)
def encoding(m, rng, idx):
    rows, n, k = circuit_code(rng, idx)
    c = StabilizerCode(give(rows, GIVEN[idx % 4]), n, k)
    if idx % 5 == 1:
        c = own_logicals(m, rng, c, give(rows, GIVEN[idx % 4]))
    strings = list(itertools.product([0, 1], repeat=k))
    if len(strings) > 8:
        strings = [strings[0]] + [strings[i] for i in rng.choice(np.arange(1, len(strings)), 5, replace=False)]
    nf, lx, lz = arr(c.normal_form), arr(c.logical_x), arr(c.logical_z)
    m.case(code=rows, strings=strings)
    m.event("n=%d k=%d" % (n, k))
    st = enc_states(c, rng, strings)
    zero = st[strings[0]]
    for x in strings:
        m.ok(abs(np.linalg.norm(st[x]) - 1) < 1e-9, "stabilized", "norm")
        for g in nf:
            m.close(ref.pmat(g) @ st[x], st[x], "stabilized", tol=1e-8, msg="generator %s on %s" % (ref.letters(g), x))
        op = np.eye(2 ** n)
        for i in range(k):
            m.close(ref.pmat(lz[i]) @ st[x], (-1) ** x[i] * st[x], "logical-z", tol=1e-8, msg="Z%d on %s" % (i, x))
            if x[i]:
                op = op @ ref.pmat(lx[i])
        m.close(op @ zero, st[x], "logical-x", tol=1e-8, msg="state %s" % (x,))
    g = np.array([[np.vdot(st[a], st[b]) for b in strings] for a in strings])
    m.close(g, np.eye(len(strings)), "orthogonal", tol=1e-8)


@scenario("C18", 192, 1920)
def encoding_refused(m, rng, idx):
    rows, n, k = code_case(rng, 5, kmin=1, nmin=2)
    c = StabilizerCode(give(rows, "str"), n, k)
    m.case(code=rows)
    s = Sim(rng, n)
    good = [int(x) for x in rng.integers(0, 2, k)]
    j = int(rng.integers(k))
    bad = [good[:-1], good + [0], good[:j] + [2] + good[j + 1:], good[:j] + [-1] + good[j + 1:],
           good[:j] + [0.5] + good[j + 1:]]
    for x in bad:
        m.raises(lambda: c.encoding_circuit(s.eng, s.reg, x), "refused", "state %s" % (x,))
    m.raises(lambda: c.encoding_circuit(s.eng, s.reg[:-1], good), "refused", "register too short")
    extra = s.alloc(1)
    m.raises(lambda: c.encoding_circuit(s.eng, s.reg + extra, good), "refused", "register too long")
    s.free(s.reg, extra)


# ------------------------------------------------------------------------------------------ C19

rule("C19", "random and standard codes x superpositions (half of them entangled with a reference qubit) x the four modes: final "
     "state vector and identity of the returned qubits; non-trivial: distinct (code, amplitudes, mode)",
     {"decoded": 80, "returned": 80, "measured": 30})


@scenario("C19", 1200, 16000)
def decoding(m, rng, idx):
    rows, n, k = circuit_code(rng, idx, nmax=5, kmin=1)
    c = StabilizerCode(give(rows, GIVEN[idx % 4]), n, k)
    if (idx >> 3) % 3 == 1:
        c = own_logicals(m, rng, c, give(rows, GIVEN[idx % 4]))
    k = c.k
    strings = list(itertools.product([0, 1], repeat=k))
    st = enc_states(c, rng, strings)
    add, drop = bool(idx & 1), bool(idx & 2)
    refq = bool((idx >> 2) & 1)
    amp = gen.vec(rng, 2 ** k * (2 if refq else 1)).reshape(-1, 2 ** k)
    if idx % 7 == 0:                         # a basis state
        amp = np.zeros_like(amp)
        amp[0, int(rng.integers(2 ** k))] = 1
    m.case(code=rows, amplitudes=amp, add=add, drop=drop)
    m.event("n=%d k=%d" % (n, k), "add=%s drop=%s reference=%s" % (add, drop, refq))
    enc = np.stack([st[x] for x in strings], axis=1)       # columns in the order of the bit strings
    s = Sim(rng)
    r = s.alloc(1) if refq else []
    code = s.alloc(n)
    start = (amp @ enc.T).reshape(-1)
    if add:
        s.set(start, list(r) + list(code))
        got = c.decoding_circuit(s.eng, code, add_ancilla_bits=True, deallocate_nqubits=drop)
        anc = list(got) if drop else list(got)[n:]
        given = list(code)
    else:
        anc = s.alloc(k)
        reg = list(code) + list(anc)
        given = list(code)
        zero = np.zeros(2 ** k)
        zero[0] = 1
        s.set(np.kron(start, zero), list(r) + reg)
        got = c.decoding_circuit(s.eng, reg, add_ancilla_bits=False, deallocate_nqubits=drop)
    ids = [q.id for q in got]
    m.ok(len(set(ids)) == len(ids), "returned", "qubits %s" % ids)
    if drop:
        m.ok(len(ids) == k and not set(ids) & {q.id for q in given}, "returned", "qubits %s instead of the ancillas" % ids)
        m.ok(add or ids == [q.id for q in anc], "returned", "the ancillas given, in order")
    else:
        m.ok(ids == [q.id for q in given] + [q.id for q in anc] and len(ids) == n + k, "returned",
             "qubits %s instead of code then ancillas" % ids)
    everything = list(r) + given + list(anc)
    fin = s.state(everything)
    left = st[strings[0]]                    # the encoded zero state
    if drop:                                 # measured: one bit string of its support remains
        p = (np.abs(fin.reshape(-1, 2 ** n, 2 ** k)) ** 2).sum((0, 2))
        j = int(p.argmax())
        m.ok(p[j] > 1 - 1e-9 and abs(left[j]) > 1e-9, "measured", "code qubits not measured in the support of the encoded zero")
        left = np.eye(2 ** n)[j]
    want = np.stack([np.kron(left, a) for a in amp]).reshape(-1)
    m.close(overlap(fin, want), 1.0, "decoded", tol=1e-8, msg="overlap with the superposition on the ancillas")
    s.free(everything)


# ------------------------------------------------------------------------------------------ C20

rule("C20", "random codes x Pauli errors x stabilizer elements (deterministic outcomes, state unchanged) and random states x "
     "Hermitian elements (projective statistics, post-measurement state, repetition), fresh and supplied ancilla; "
     "non-trivial: distinct (code, error or state, element)",
     {"syndrome": 200, "undisturbed": 200, "projective": 100, "statistics": 8, "repeat": 100, "ancilla": 200, "refused": 40})


def element_format(rng, v):
    t = int(rng.integers(3))
    return ref.letters(v) if t == 0 else np.array(v, dtype=int if t == 1 else float)


@scenario("C20", 560, 8000)
def syndromes(m, rng, idx):
    rows, n, k = circuit_code(rng, idx, nmax=5, kmax=2)
    if n > 6:
        rows, n, k = known_code(3, 5)
    c = StabilizerCode(give(rows, GIVEN[idx % 4]), n, k)
    nf = arr(c.normal_form)
    x = [int(b) for b in rng.integers(0, 2, k)]
    err = rand_paulis(rng, n, 1)[0]
    if idx % 4 == 0:
        err[:] = 0
        err[int(rng.integers(2 * n))] = 1
    own = bool(idx & 1)                       # supplied ancilla
    m.case(code=rows, x=x, error=err, own=own)
    m.event("ancilla %s" % ("supplied" if own else "fresh"), "n=%d k=%d" % (n, k))
    s = Sim(rng, n)
    code = list(s.reg)
    c.encoding_circuit(s.eng, s.reg, x)
    anc = list(s.alloc(1)) if own else []
    # other qubits of the engine, which take no part
    spect = list(s.alloc(1 + idx % 2)) if idx % 3 == 0 else []
    spect_state = gen.vec(rng, 2 ** len(spect)) if spect else np.ones(1)
    if spect:
        s.set(np.kron(s.state(code + anc + spect).reshape(-1, 2 ** len(spect))[:, 0], spect_state), code + anc + spect)
        m.event("spectators %d" % len(spect))

    def seen():
        full = s.state(code + anc + spect).reshape(-1, 2 ** len(spect))
        m.close(np.linalg.norm(full @ spect_state.conj()), 1.0, "undisturbed", tol=1e-8, msg="other qubits")
        return full @ spect_state.conj()
    v = seen()
    v = (np.kron(ref.smat(ref.letters(err)), np.eye(2)) if own else ref.smat(ref.letters(err))) @ v
    s.set(np.kron(v, spect_state), code + anc + spect)
    # generators, random products with an even number of Y's, repeated, in random order
    elems = [g for g in nf]
    for _ in range(3):
        w = rng.integers(0, 2, len(nf)) @ nf % 2
        elems.append(w)
    for j in rng.permutation(len(elems)):
        g = elems[j]
        if ref.ycount(g) % 2:
            continue
        # the sign of a product relative to the Hermitian matrix of its vector: read it off the state
        want = ref.pmat(g) @ (v.reshape(-1, 2)[:, 0] if own else v)
        sign = np.vdot(v.reshape(-1, 2)[:, 0] if own else v, want).real
        r = c.single_syndrome_measurement(s.eng, code + anc, element_format(rng, g))
        m.ok(r in (0, 1) and abs(abs(sign) - 1) < 1e-6 and r == int(sign < 0), "syndrome",
             "%s gives %s, eigenvalue %.3f" % (ref.letters(g), r, sign))
        if j < len(nf):
            m.ok(r == ref.symp(err, g), "syndrome", "%s gives %s, error %s" % (ref.letters(g), r, ref.letters(err)))
        try:
            now = seen()
        except AssertionError as e:
            m.fail("ancilla", str(e))
        m.oracles["ancilla"] += 1
        m.close(overlap(now, v), 1.0, "undisturbed", tol=1e-8, msg="after measuring " + ref.letters(g))
        m.event("outcome %d" % r)
    s.free(code, anc, spect)


@scenario("C20", 480, 7200)
def projective(m, rng, idx):
    rows, n, k = code_case(rng, 4, nmin=1 + idx % 3)
    c = StabilizerCode(give(rows, "array"), n, k)
    own = bool(idx & 1)
    s = Sim(rng, n)
    code, anc = list(s.reg), (list(s.alloc(1)) if own else [])
    v = gen.vec(rng, 2 ** n)
    z = np.array([1.0, 0.0])
    m.case(code=rows, state=v, own=own)
    s.set(np.kron(v, z) if own else v, code + anc)

    def next_id():
        q = s.alloc(1)
        i = q[0].id
        s.free(q)
        return i
    first = next_id()
    for _ in range(5):
        g = rand_paulis(rng, n, 1)[0]
        if ref.ycount(g) % 2:
            continue
        p = ref.pmat(g)
        r = c.single_syndrome_measurement(s.eng, code + anc, element_format(rng, g))
        try:
            now = s.state(code + anc)
        except AssertionError as e:
            m.fail("ancilla", str(e))
        m.oracles["ancilla"] += 1
        want = (v + (-1) ** r * (p @ v)) / 2
        m.ok(np.linalg.norm(want) > 1e-6, "projective", "outcome %s of %s has probability 0" % (r, ref.letters(g)))
        want = want / np.linalg.norm(want)
        m.close(overlap(now, np.kron(want, z) if own else want), 1.0, "projective", tol=1e-7,
                msg="state after outcome %s of %s" % (r, ref.letters(g)))
        again = c.single_syndrome_measurement(s.eng, code + anc, element_format(rng, g))
        m.ok(again == r, "repeat", "%s: first %s, then %s" % (ref.letters(g), r, again))
        now = s.state(code + anc)
        v = now.reshape(-1, 2)[:, 0] if own else now
        v = v / np.linalg.norm(v)
        m.event("outcome %d" % r, "ancilla %s" % ("supplied" if own else "fresh"))
    if own:
        m.ok(next_id() == first + 1, "ancilla", "qubits were allocated although an ancilla was supplied")
    s.free(code, anc)


@scenario("C20", 80, 480)
def statistics(m, rng, idx):
    """Frequencies of the outcomes over many copies of random states."""
    n = int(rng.integers(1, 4))
    rows = gen.code(rng, n, 0)
    c = StabilizerCode(give(rows, "array"), n, 0)
    own = bool(idx & 1)
    s = Sim(rng, n)
    code, anc = list(s.reg), (list(s.alloc(1)) if own else [])
    dev, var, cnt = 0.0, 0.0, 0
    first = None
    for _ in range(120):
        v = gen.vec(rng, 2 ** n)
        g = rand_paulis(rng, n, 1)[0]
        if ref.ycount(g) % 2 or not g.any():
            continue
        first = v if first is None else first
        s.set(np.kron(v, [1.0, 0.0]) if own else v, code + anc)
        p1 = (1 - np.vdot(v, ref.pmat(g) @ v).real) / 2
        r = c.single_syndrome_measurement(s.eng, code + anc, element_format(rng, g))
        # weight each outcome by its own deviation, so that opposite biases do not cancel
        w = p1 - 0.5
        dev += w * (r - p1)
        var += w * w * p1 * (1 - p1)
        cnt += 1
    m.case(state=first, count=cnt)
    m.ok(abs(dev) < 6 * np.sqrt(var) + 1e-9, "statistics", "deviation %.1f sigma over %d outcomes" % (dev / np.sqrt(var), cnt))
    s.free(code, anc)


@scenario("C20", 160, 1280)
def syndrome_refused(m, rng, idx):
    rows, n, k = code_case(rng, 4, nmin=2)
    c = StabilizerCode(give(rows, "str"), n, k)
    m.case(code=rows)
    g = ref.letters(rows[0])
    s = Sim(rng, n + 2)
    m.raises(lambda: c.single_syndrome_measurement(s.eng, s.reg, g), "refused", "n + 2 qubits")
    s.free(s.reg)
    s = Sim(rng, n - 1)
    m.raises(lambda: c.single_syndrome_measurement(s.eng, s.reg, g), "refused", "n - 1 qubits")
    s.free(s.reg)
    s = Sim(rng, n)
    j = int(rng.integers(n))
    bad = "I" * j + "AWx"[int(rng.integers(3))] + "I" * (n - j - 1)
    m.raises(lambda: c.single_syndrome_measurement(s.eng, s.reg, bad), "refused", "unknown letter")


# ------------------------------------------------------------------------------------------ C21

rule("C21", "random states x logical names on random codes and random Pauli strings: state vectors against exact matrices, phases "
     "included; logical algebra on encoded states; non-trivial: distinct (code, state, operator)",
     {"logical-matrix": 100, "encoded": 60, "stabilizer-matrix": 100, "refused": 100})


@scenario("C21", 900, 13000)
def logical_circuits(m, rng, idx):
    rows, n, k = circuit_code(rng, idx, nmax=5, kmin=1)
    c = StabilizerCode(give(rows, GIVEN[idx % 4]), n, k)
    lx, lz = arr(c.logical_x), arr(c.logical_z)
    i = int(rng.integers(k))
    v = gen.vec(rng, 2 ** n)
    m.case(code=rows, state=v[:64], i=i)
    m.event("n=%d k=%d" % (n, k))
    s = Sim(rng, n)
    ops = {"X": lx[i], "Z": lz[i], "Y": (lx[i] + lz[i]) % 2}
    for name, op in ops.items():
        s.set(v, s.reg)
        c.logical_circuit(s.eng, s.reg, name + str(i))
        m.close(s.state(s.reg), ref.pmat(op) @ v, "logical-matrix", tol=1e-9, msg="%s%d = %s" % (name, i, ref.letters(op)))
        if ref.ycount(op):
            m.event("logical with Y")
    s.free(s.reg)
    if n <= 5:
        x = tuple(int(b) for b in rng.integers(0, 2, k))
        y = tuple(b ^ (j == i) for j, b in enumerate(x))
        st = enc_states(c, rng, [x, y])
        s = Sim(rng, n)
        for name, want in (("X", st[y]), ("Z", (-1) ** x[i] * st[x])):
            s.set(st[x], s.reg)
            c.logical_circuit(s.eng, s.reg, name + str(i))
            m.close(s.state(s.reg), want, "encoded", tol=1e-8, msg="%s%d on the encoding of %s" % (name, i, x))
        s.set(st[x], s.reg)
        c.logical_circuit(s.eng, s.reg, "Y" + str(i))
        m.close(overlap(s.state(s.reg), st[y]), 1.0, "encoded", tol=1e-8, msg="Y%d on the encoding of %s" % (i, x))
        s.free(s.reg)
    s = Sim(rng, n)
    for bad in ("", "X", "X%dX" % i, "A%d" % i, "x%d" % i, "X%d" % k if k < 10 else "X", "%dX" % i, "I%d" % i, "XX", "X-1"):
        m.raises(lambda: c.logical_circuit(s.eng, s.reg, bad), "refused", "name %r" % bad)
    s.free(s.reg)


@scenario("C21", 900, 13000)
def stabilizer_circuits(m, rng, idx):
    rows, n, k = code_case(rng, 5)
    c = StabilizerCode(give(rows, "str"), n, k)
    g = rand_paulis(rng, n, 1)[0] if idx % 3 else rows[int(rng.integers(len(rows)))]
    t = ("str", "array", "list")[idx % 3]
    arg = ref.letters(g) if t == "str" else np.array(g) if t == "array" else [int(x) for x in g]
    v = gen.vec(rng, 2 ** n)
    m.case(pauli=g, state=v, how=t)
    m.event("given " + t, "Y count %d" % ref.ycount(g))
    s = Sim(rng, n)
    s.set(v, s.reg)
    c.apply_stabilizer_circuit(s.eng, s.reg, arg)
    true = ref.kron_all([{"I": ref.PI, "X": ref.PX, "Y": ref.PY, "Z": ref.PZ}[x] for x in ref.letters(g)])
    m.close(s.state(s.reg), true @ v, "stabilizer-matrix", tol=1e-9, msg=ref.letters(g))
    c.apply_stabilizer_circuit(s.eng, s.reg, arg)
    m.close(s.state(s.reg), v, "stabilizer-matrix", tol=1e-9, msg="twice " + ref.letters(g))
    s.free(s.reg)


# ------------------------------------------------------------------------------------------ C22

rule("C22", "random Pauli strings (1-8 qubits): conversions, matrices (dense, sparse), symplectic products against commutators; "
     "faults refused; non-trivial: distinct strings",
     {"strings": 200, "matrices": 200, "symplectic": 200, "refused": 100, "generators": 40})


@scenario("C22", 1760, 28000)
def representations(m, rng, idx):
    n = int(rng.integers(1, 7))
    count = int(rng.integers(1, 5))
    rows = rand_paulis(rng, n, count)
    if idx % 9 == 0:
        rows[:] = 0
    s = [ref.letters(r) for r in rows]
    m.case(strings=s)
    m.event("n=%d" % n)
    b = StabilizerCode.pauli_str_to_binary_representation(s)
    m.close(b, rows, "strings", tol=0, msg="string to vector")
    for r, x in zip(b, s):
        m.ok(StabilizerCode.binary_rep_to_pauli_str(r) == x, "strings", "vector to string: %s" % x)
        m.ok(StabilizerCode.binary_rep_to_pauli_str([int(y) for y in r]) == x, "strings", "list to string: %s" % x)
    dense = StabilizerCode.binary_rep_to_pauli_mat(np.array(rows))
    sp = StabilizerCode.binary_rep_to_pauli_mat(b, sparse=True)
    m.ok(len(dense) == count and len(sp) == count, "matrices")
    mats = [ref.pmat(r) for r in rows]
    for d, e, w in zip(dense, sp, mats):
        m.close(d, w, "matrices", tol=1e-12)
        m.ok(hasattr(e, "todense"), "matrices", "sparse type")
        m.close(e, w, "matrices", tol=1e-12)
    for i in range(count):
        for j in range(count):
            ip = StabilizerCode.inner_prod(rows[i], rows[j])
            comm = np.abs(mats[i] @ mats[j] - mats[j] @ mats[i]).max()
            anti = np.abs(mats[i] @ mats[j] + mats[j] @ mats[i]).max()
            m.ok((ip == 0 and comm < 1e-12) or (ip == 1 and anti < 1e-12), "symplectic", "%s, %s: %s" % (s[i], s[j], ip))
            m.ok(StabilizerCode.inner_prod(b[i], b[j]) == ip, "symplectic")
    # refused
    j, c = int(rng.integers(count)), int(rng.integers(n))
    bad = s[:j] + [s[j][:c] + "ABxi -1"[int(rng.integers(7))] + s[j][c + 1:]] + s[j + 1:]
    m.raises(lambda: StabilizerCode.pauli_str_to_binary_representation(bad), "refused", "letters %s" % bad)
    v = [int(x) for x in rows[j]]
    q = int(rng.integers(2 * n))
    for val in (2, -1):
        w = list(v)
        w[q] = val
        w[(q + n) % (2 * n)] = 0
        m.raises(lambda: StabilizerCode.binary_rep_to_pauli_str(w), "refused", "entry %d" % val)
        m.raises(lambda: StabilizerCode.binary_rep_to_pauli_mat(np.array([w])), "refused", "entry %d" % val)
    m.raises(lambda: StabilizerCode.binary_rep_to_pauli_str(tuple(v)), "refused", "tuple")
    m.raises(lambda: StabilizerCode.binary_rep_to_pauli_mat(np.array(v)), "refused", "one-dimensional array")
    m.raises(lambda: StabilizerCode.binary_rep_to_pauli_mat(np.array([rows])), "refused", "three-dimensional array")


@scenario("C22", 384, 2400)
def single_qubit(m, rng, idx):
    x, z, sp = (idx >> 2) & 1, (idx >> 1) & 1, bool(idx & 1)
    g = StabilizerCode.index_to_qubit_pauli(x, z, sp)
    m.case(x=x, z=z, sparse=sp, idx=idx)
    m.close(g, ref.MAT[ref.LETTER[(x, z)]], "matrices", tol=0)
    m.raises(lambda: StabilizerCode.index_to_qubit_pauli(2, z, sp), "refused", "entry 2")
    m.raises(lambda: StabilizerCode.index_to_qubit_pauli(x, -1, sp), "refused", "entry -1")
    rows, n, k = code_case(rng)
    c = StabilizerCode(give(rows, "str"), n, k)
    s = arr(c.generator_set_pauli_elements())
    want = {tuple(int(i == j) for i in range(2 * n)) for j in range(2 * n)}
    m.ok(s.shape == (2 * n, 2 * n) and {tuple(r) for r in s} == want, "generators", "n=%d" % n)


# ------------------------------------------------------------------------------------------ C23

rule("C23", "random outer [n,k] and inner [m,l] codes (l dividing n, inner logical operators from a random frame or derived and "
     "commuting with the given generators): group of the result against the definition; non-trivial: distinct pairs",
     {"group": 60, "parameters": 60, "logical": 60, "refused": 16})


def inner_code(rng, m_, l):
    """Inner code whose logical operators commute with its generators."""
    if rng.random() < 0.5:
        st, lx, lz = gen.code_with_logicals(rng, m_, l)
        return StabilizerCode(give(st, GIVEN[rng.integers(4)]), m_, l, [lx, lz]), st, lx, lz
    while True:
        st = gen.code(rng, m_, l, even_y=False, css=rng.random() < 0.3)
        c = StabilizerCode(give(st, GIVEN[rng.integers(4)]), m_, l)
        lx, lz = arr(c.logical_x), arr(c.logical_z)
        if all(ref.symp(a, g) == 0 for a in np.vstack([lx, lz]) for g in st):
            return c, st, lx, lz


def concatenated(rows, n, st, lx, lz, m_, l):
    """Generators of the concatenated code by definition."""
    nb = n // l
    tot = nb * m_
    out = []
    for b in range(nb):
        for g in st:
            v = np.zeros(2 * tot, dtype=int)
            v[b * m_:(b + 1) * m_] = g[:m_]
            v[tot + b * m_:tot + (b + 1) * m_] = g[m_:]
            out.append(v)
    for g in rows:
        v = np.zeros(2 * tot, dtype=int)
        for q in range(n):
            b, i = divmod(q, l)
            for bit, op in ((g[q], lx[i]), (g[n + q], lz[i])):
                if bit:
                    v[b * m_:(b + 1) * m_] ^= op[:m_]
                    v[tot + b * m_:tot + (b + 1) * m_] ^= op[m_:]
        out.append(v)
    return np.array(out)


@scenario("C23", 900, 13000)
def concatenation(m, rng, idx):
    l = 1 if idx % 3 == 0 else int(rng.integers(2, 4))
    m_ = int(rng.integers(l + 1, l + 3))
    n = l * int(rng.integers(1 if l > 1 else 2, 3 if l > 1 else 4))
    k = int(rng.integers(0, n))
    rows = gen.code(rng, n, k, even_y=False, css=rng.random() < 0.3)
    outer = StabilizerCode(give(rows, GIVEN[idx % 4]), n, k)
    inner, st, lx, lz = inner_code(rng, m_, l)
    m.case(outer=rows, inner=st, lx=lx, lz=lz)
    m.event("[%d,%d] in [%d,%d]" % (n, k, m_, l), "Y in outer" if any(ref.ycount(r) for r in rows) else "no Y in outer")
    c = StabilizerCode.concatenate_codes(outer, inner)
    tot = n // l * m_
    m.ok((c.n, c.k) == (tot, k), "parameters", "[%s,%s] instead of [%d,%d]" % (c.n, c.k, tot, k))
    want = concatenated(rows, n, st, lx, lz, m_, l)
    got = arr(c.stab_bin_rep)
    m.ok(got.shape == want.shape, "group", "shape %s" % (got.shape,))
    r = ref.gf2_rank(want)
    m.ok(ref.gf2_rank(got) == r == ref.gf2_rank(np.vstack([got, want])), "group", "the generators span another group")
    nf = arr(c.normal_form)
    ls = np.vstack([arr(c.logical_x), arr(c.logical_z)]) if k else np.zeros((0, 2 * tot), int)
    m.ok(all(ref.symp(a, g) == 0 for a in ls for g in nf) and
         all(ref.symp(ls[i], ls[j]) == int(abs(i - j) == k) for i in range(2 * k) for j in range(2 * k)), "logical",
         "logical operators of the result")
    m.ok(np.array_equal(arr(outer.stab_bin_rep), rows) and np.array_equal(arr(inner.stab_bin_rep), st), "parameters",
         "the operands changed")


@scenario("C23", 240, 2000)
def concatenation_refused(m, rng, idx):
    l = int(rng.integers(2, 5))
    n = int(rng.integers(1, 8))
    while n % l == 0:
        n += 1
    outer = StabilizerCode(give(gen.code(rng, n, 0 if n == 1 else 1, even_y=False), "str"), n, 0 if n == 1 else 1)
    inner = StabilizerCode(give(gen.code(rng, l + 1, l, even_y=False), "str"), l + 1, l)
    m.case(n=n, l=l, a=arr(outer.stab_bin_rep), b=arr(inner.stab_bin_rep))
    m.oracles["refused"] += 1
    try:
        StabilizerCode.concatenate_codes(outer, inner)
    except ValueError:
        return
    except Exception as e:
        m.fail("refused", "%s instead of a ValueError for l=%d, n=%d" % (type(e).__name__, l, n))
    m.fail("refused", "l=%d does not divide n=%d and was accepted" % (l, n))


@scenario("C23", 60, 300)
def shor_like(m, rng, idx):
    """Repetition codes concatenated both ways: the distance of the Shor code."""
    z, x = (["ZZI", "IZZ"], ["XXI", "IXX"])
    lz, lx = np.array([[0, 0, 0, 1, 1, 1]]), np.array([[1, 1, 1, 0, 0, 0]])
    zi = StabilizerCode(z, 3, 1, [lx, np.array([[0, 0, 0, 1, 0, 0]])])
    xi = StabilizerCode(x, 3, 1, [np.array([[1, 0, 0, 0, 0, 0]]), lz])
    outer, inner = (xi, zi) if idx % 2 else (zi, xi)
    m.case(idx=idx % 2)
    c = StabilizerCode.concatenate_codes(outer, inner)
    rows = arr(c.stab_bin_rep)
    m.ok((c.n, c.k) == (9, 1) and ref.gf2_rank(rows) == 8, "parameters")
    # no undetectable error of weight 1 or 2
    for q1 in range(9):
        for q2 in range(q1, 9):
            for l1, l2 in itertools.product("XYZ", repeat=2):
                s = ["I"] * 9
                s[q1], s[q2] = l1, l2
                e = ref.bits("".join(s))
                if all(ref.symp(e, g) == 0 for g in rows):
                    m.ok(ref.in_span(e, rows), "group", "undetectable error %s" % "".join(s))
    m.oracles["group"] += 1


# ------------------------------------------------------------------------------------------ C24

rule("C24", "random codes x random scaled Pauli lists (dense, sparse) for the operator list; Pauli channels x codes with k = 1 "
     "for the effective channel, value recomputed at the reported state from the definition; options varied; non-trivial: "
     "distinct (code, errors)",
     {"list": 120, "sparse-list": 60, "value": 24, "at-least-guess": 24, "options": 24, "refused": 24})


@scenario("C24", 150, 2400)
def correcting_lists(m, rng, idx):
    from scipy.sparse import csr_matrix
    rows, n, k = code_case(rng, 4, even_y=bool(idx % 2))
    c = StabilizerCode(give(rows, GIVEN[idx % 4]), n, k)
    count = int(rng.integers(1, 8))
    errs = rand_paulis(rng, n, count)
    if idx % 3 == 0:
        errs[0] = 0
        if count > 1:
            errs[1] = rows[int(rng.integers(len(rows)))]
    # products of many single-qubit error amplitudes become very small
    size = 10.0 ** -rng.choice([0, 0, 2, 4, 6, 9], count)
    amp = rng.uniform(0.2, 1, count) * np.exp(2j * np.pi * rng.random(count)) * size
    mats = [a * ref.smat(ref.letters(e)) for a, e in zip(amp, errs)]
    want, hits = [], 0
    for e, w in zip(errs, mats):
        anti = [g for g in rows if ref.symp(e, g)]
        hits += bool(anti)
        want.append(ref.pmat(anti[0]) @ w if anti else w)
    m.case(code=rows, errors=errs)
    m.event("correctable %d of %d" % (hits, count), "n=%d" % n)
    got = c.kraus_operators_correcting_errors([w.copy() for w in mats], sparse=False)
    m.ok(len(got) == count, "list", "%d operators for %d errors" % (len(got), count))
    for g, w, a in zip(got, want, size):
        m.close(ref.todense(g) / a, w / a, "list", tol=1e-9, msg="amplitude %g" % a)
    got = c.kraus_operators_correcting_errors([csr_matrix(w) for w in mats], sparse=True)
    m.ok(len(got) == count, "sparse-list")
    for g, w, a in zip(got, want, size):
        m.close(ref.todense(g) / a, w / a, "sparse-list", tol=1e-9, msg="amplitude %g" % a)
    zero = np.zeros((2 ** n, 2 ** n), dtype=complex)
    m.close(c.kraus_operators_correcting_errors([zero, mats[0]], sparse=False)[0], zero, "list", msg="error that never happens")


def effective(rows, paulis, v, n):
    """Kraus operators of the effective channel, by definition; paulis are (amplitude, letters on k qubits)."""
    out = []
    for combo in itertools.product(paulis, repeat=n // len(paulis[0][1])):
        e = ref.bits("".join(x for _, x in combo))
        w = np.prod([a for a, _ in combo]) * ref.smat("".join(x for _, x in combo))
        anti = [g for g in rows if ref.symp(e, g)]
        out.append((ref.pmat(anti[0]) @ w if anti else w) @ v)
    return out


@scenario("C24", 36, 400)
def effective_channels(m, rng, idx):
    n = int(rng.integers(2, 4))
    while True:
        rows = gen.code(rng, n, 1, css=rng.random() < 0.5) if idx % 4 else known_code(idx // 4 % 3)[0]
        n = rows.shape[1] // 2
        if n <= 3:
            break
    letters = list("IXYZ") if n == 2 else ["I", "X", "Z", "Y"][:int(rng.integers(2, 4))]
    p = rng.dirichlet(np.ones(len(letters)) * 0.7)
    paulis = [(np.sqrt(q), x) for q, x in zip(p, letters)]
    ops = [a * ref.smat(x).astype(complex) for a, x in paulis]
    sparse = bool(idx & 1)
    pname = ("overparam", "cholesky", "class")[idx % 3]
    cls = {"overparam": OverParam, "cholesky": CholeskyParam, "class": CholeskyParam}[pname]
    from props_opt import guesses
    samples = guesses(cls, 2, 2, int(rng.integers(1, 4)), rng)
    lip = int(rng.integers(1, 4)) if idx % 5 == 0 else 0
    opts = {"param": CholeskyParam if pname == "class" else pname, "samples": samples, "lipschitz": lip,
            "use_pool": 0 if idx % 6 else 2, "maxiter": int(rng.integers(1, 20))}
    keep = [s.copy() for s in samples]
    strings = [ref.letters(r) for r in rows]
    m.case(code=rows, p=p, letters=letters, sparse=sparse, options={k: str(v)[:20] for k, v in opts.items()})
    m.event("n=%d" % n, "sparse=%s" % sparse, pname, "pool=%d" % opts["use_pool"], "lip>0" if lip else "no lip")
    given = give(rows, GIVEN[idx % 4]) if idx % 2 else strings
    try:
        res = effective_channel_with_stabilizers(given, (n, 1), [o.copy() for o in ops], "coherent", sparse=sparse,
                                                 options=opts)
    except AssertionError as e:
        m.ok(lip > 1 and "ipschitz" in str(e), "options", str(e))
        return
    rho = ref.todense(res["optimal_rho"])
    m.ok(rho.shape == (2, 2) and abs(np.trace(rho) - 1) < 1e-8 and ref.is_psd(rho, 1e-8), "value", "reported state")
    v = np.asarray(StabilizerCode(strings, n, 1).encode_krauss_operators())
    kr = effective(rows, paulis, v, n)
    m.close(res["optimal_val"], ref.coherent(kr, rho), "value", tol=1e-6, msg="value at the reported state")
    for s in samples:
        g = ref.coherent(kr, cls.rho_from_vec(s, 2, 2))
        m.ok(res["optimal_val"] > g - 1e-6, "at-least-guess", "reported %.9g, a guess has %.9g" % (res["optimal_val"], g))
    m.ok(res["lipschitz"] == (lip > 0) and res["method"] == "slsqp" and res["objective"] == "coherent", "options",
         "reported %s" % {q: res[q] for q in ("lipschitz", "method", "objective")})
    m.ok(all(np.array_equal(a, b) for a, b in zip(samples, keep)) and opts["maxiter"] is not None, "options")
    if idx % 3 == 0:
        longer = effective_channel_with_stabilizers(strings, (n, 1), ops, "coherent", sparse=sparse,
                                                    options=dict(opts, maxiter=60, lipschitz=0))
        m.ok(longer["optimal_val"] > max(ref.coherent(kr, cls.rho_from_vec(s, 2, 2)) for s in samples) - 1e-6,
             "at-least-guess", "longer run")
        m.close(longer["optimal_val"], ref.coherent(kr, ref.todense(longer["optimal_rho"])), "value", tol=1e-6)


@scenario("C24", 10, 120)
def effective_several_logical(m, rng, idx):
    """Several logical qubits: the errors act on k qubits and are used n / k times."""
    n, k = (6, 3) if idx % 10 == 9 else (4, 2)
    rows = gen.code(rng, n, k, css=rng.random() < 0.5) if idx % 4 else np.array([ref.bits(x) for x in ("XXXX", "ZZZZ")])
    n, k = rows.shape[1] // 2, rows.shape[1] // 2 - len(rows)
    letters = ["".join(rng.choice(list("IXYZ"), k)) for _ in range(int(rng.integers(2, 4)))]
    letters = sorted(set(letters + ["I" * k]))
    p = rng.dirichlet(np.ones(len(letters)) * 0.7)
    paulis = [(np.sqrt(q), x) for q, x in zip(p, letters)]
    ops = [a * ref.smat(x).astype(complex) for a, x in paulis]
    sparse = bool(idx & 1)
    cls, pname = ((OverParam, "overparam"), (CholeskyParam, "cholesky"))[idx // 2 % 2]
    from props_opt import guesses
    samples = guesses(cls, 2 ** k, 2, int(rng.integers(1, 3)), rng)
    opts = {"param": pname, "samples": samples, "lipschitz": 0, "use_pool": 0, "maxiter": int(rng.integers(1, 5))}
    m.case(code=rows, p=p, letters=letters, sparse=sparse)
    m.event("several logical qubits: n=%d k=%d" % (n, k), "sparse=%s" % sparse, pname)
    strings = [ref.letters(r) for r in rows]
    res = effective_channel_with_stabilizers(give(rows, GIVEN[idx % 4]), (n, k), [o.copy() for o in ops], "coherent",
                                             sparse=sparse, options=opts)
    rho = ref.todense(res["optimal_rho"])
    m.ok(rho.shape == (2 ** k, 2 ** k) and abs(np.trace(rho) - 1) < 1e-8 and ref.is_psd(rho, 1e-8), "value", "reported state")
    kr = effective(rows, paulis, np.asarray(StabilizerCode(strings, n, k).encode_krauss_operators()), n)
    m.close(res["optimal_val"], ref.coherent(kr, rho), "value", tol=1e-6, msg="value at the reported state")
    for s in samples:
        g = ref.coherent(kr, cls.rho_from_vec(s, 2 ** k, 2))
        m.ok(res["optimal_val"] > g - 1e-6, "at-least-guess", "reported %.9g, a guess has %.9g" % (res["optimal_val"], g))


@scenario("C24", 4, 40)
def effective_fidelity(m, rng, idx):
    """The fidelity objective compares states on k qubits with states on n qubits; see the known findings."""
    rows = gen.code(rng, int(rng.integers(2, 4)), 1)
    n = rows.shape[1] // 2
    k = n - len(rows)
    ops = gen.pauli_channel(rng.dirichlet(np.ones(4)))
    m.case(code=rows, ops=np.array(ops))
    o = {"lipschitz": 0, "samples": [rng.uniform(-1, 1, 4)], "use_pool": 0, "maxiter": 2}
    try:
        res = effective_channel_with_stabilizers([ref.letters(r) for r in rows], (n, k), ops, "fidelity",
                                                 sparse=bool(idx & 1), options=o)
    except ValueError as e:
        m.event("fidelity objective refused")
        m.known("fidelity-objective-of-a-rectangular-channel",
                "optimize='fidelity' is documented but always raises for k < n (%s)" % e)
        return
    rho = ref.todense(res["optimal_rho"])
    m.ok(rho.shape == (2 ** k, 2 ** k) and abs(np.trace(rho) - 1) < 1e-8 and ref.is_psd(rho, 1e-8), "value", "reported state")
    m.ok(-1e-8 < res["optimal_val"] < 1 + 1e-8 and res["objective"] == "fidelity", "value", "fidelity outside [0, 1]")


@scenario("C24", 12, 100)
def effective_refused(m, rng, idx):
    ops = gen.pauli_channel(rng.dirichlet(np.ones(4)))
    s = ["ZZI", "IZZ"]
    m.case(ops=np.array(ops))
    o = {"lipschitz": 0, "samples": [rng.uniform(-1, 1, 8)], "use_pool": 0, "maxiter": 1}
    bad = [lambda: effective_channel_with_stabilizers(s, (3, 1), ops, "entropy", options=o),
           lambda: effective_channel_with_stabilizers(s, (3, 1), ops, 3, options=o),
           lambda: effective_channel_with_stabilizers(s, (3, 1), [np.kron(x, x) for x in ops], "coherent", options=o),
           lambda: effective_channel_with_stabilizers(s, (3, 2), ops, "coherent", options=o),
           lambda: effective_channel_with_stabilizers(["ZZI", "XIZ"], (3, 1), ops, "coherent", options=o),
           lambda: effective_channel_with_stabilizers(s, (3, 1), ops, "coherent", options=dict(o, param="bloch")),
           lambda: effective_channel_with_stabilizers(s, (3, 1), ops, "coherent", options=dict(o, samples=[])),
           lambda: effective_channel_with_stabilizers(s, (3, 1), [x * 0.9 for x in ops], "coherent", options=o)]
    for j, f in enumerate(bad):
        m.raises(f, "refused", "fault %d" % j)


# ------------------------------------------------------------------------------------------ C26

rule("C26", "random codes with n <= 4 (5 in the thorough tier), every k, odd Y counts included, and standard codes: full enumeration of "
     "the normalizer by the reference; non-trivial: distinct codes",
     {"normalizer": 80, "undetectable": 80, "distance": 3})


@scenario("C26", 720, 5600)
def normalizers(m, rng, idx):
    if idx % 30 == 1:
        rows, n, k = known_code(idx // 30, 5)
        if n > 4 and idx < 90:
            rows, n, k = known_code(0, 3)
    else:
        rows, n, k = code_case(rng, 5 if idx % 30 == 0 else 4, even_y=False)
    m.case(code=rows)
    m.event("n=%d k=%d" % (n, k))
    c = StabilizerCode(give(rows, GIVEN[idx % 4]), n, k)
    got = np.asarray(c.normalizer())
    sp = ref.span(rows)
    want = {v for v in itertools.product([0, 1], repeat=2 * n)
            if v not in sp and all(ref.symp(v, g) == 0 for g in rows)}
    m.ok(len(want) == 4 ** n // 2 ** (n - k) - 2 ** (n - k), "normalizer", "reference count")
    lst = [tuple(int(x) for x in r) for r in got]
    m.ok(len(lst) == len(set(lst)), "normalizer", "elements listed twice")
    m.ok(set(lst) == want, "normalizer", "%d elements listed, %d missing, %d foreign"
         % (len(lst), len(want - set(lst)), len(set(lst) - want)))
    und = c.undetectable_errors()
    m.ok(len(und) == len(want) and set(und) == {ref.letters(v) for v in want}, "undetectable")
    m.ok(np.array_equal(arr(c.stab_bin_rep), rows), "normalizer", "the generators changed")


@scenario("C26", 4, 12)
def distances(m, rng, idx):
    name, dist = (("bitflip3", 1), ("phaseflip3", 1), ("four22", 2), ("five", 3))[idx % 4]
    s, n, k = ref.KNOWN[name]
    m.case(name=name)
    und = StabilizerCode(s, n, k).undetectable_errors()
    m.ok(min(sum(x != "I" for x in u) for u in und) == dist, "distance", "minimal weight of %s" % name)


# ------------------------------------------------------------------------------------------ C29 (codes)

@scenario("C29", 60, 800)
def code_purity(m, rng, idx):
    n = int(rng.integers(2, 5))
    k = int(rng.integers(1, n))
    st, lx, lz = gen.code_with_logicals(rng, n, k, even_y=True)
    how = GIVEN[idx % 4]
    g = give(st, how)
    ax, az = lx.copy(), lz.copy()
    own = bool(idx & 1)
    c = StabilizerCode(g, n, k, [ax, az]) if own else StabilizerCode(g, n, k)
    m.case(code=st, how=how, own=own)

    def same(a, b):
        return np.array_equal(np.array(a), np.array(b))
    s = Sim(rng, n)
    v = gen.vec(rng, 2 ** n)

    def observe():
        out = [np.array(c.stab_bin_rep, float), np.array(c.normal_form, float), np.array(c.logical_x, float),
               np.array(c.logical_z, float), np.array(c.encode_krauss_operators()), list(c.pauli_stab)]
        if n <= 3:
            out.append(np.array(c.normalizer()))
        for name in ("X0", "Y0", "Z0"):
            s.set(v, s.reg)
            c.logical_circuit(s.eng, s.reg, name)
            out.append(s.state(s.reg))
        return out
    first = observe()
    second = observe()
    for a, b in zip(first, second):
        m.ok(a == b if isinstance(a, list) else np.abs(a - b).max() < 1e-9 if np.size(a) else True, "repeatable")
    m.ok(same(g, give(st, how)) and same(ax, lx) and same(az, lz), "inputs-untouched", "generators or logical operators changed")
    e = np.array(st[0])
    for f in (lambda: c.apply_stabilizer_circuit(s.eng, s.reg, e), lambda: c.single_syndrome_measurement(s.eng, s.reg, e),
              lambda: StabilizerCode.binary_rep_to_pauli_str(e), lambda: StabilizerCode.inner_prod(e, np.array(st[-1]))):
        f()
        m.ok(same(e, st[0]), "inputs-untouched", "the element given changed")
    bits = [int(b) for b in rng.integers(0, 2, k)]
    keep = list(bits)
    q = Sim(rng, n)
    c.encoding_circuit(q.eng, q.reg, bits)
    m.ok(bits == keep, "inputs-untouched", "the bit string given changed")
    q.free(q.reg)
    errs = [ref.smat(ref.letters(x)) for x in rand_paulis(rng, n, 3)]
    kept = [x.copy() for x in errs]
    c.kraus_operators_correcting_errors(errs, sparse=False)
    m.ok(all(same(a, b) for a, b in zip(errs, kept)), "inputs-untouched", "the errors given changed")
    # the caller reuses its containers
    if isinstance(g, np.ndarray):
        g[...] = 0
    else:
        g[0] = g[-1] if how == "str" else [0] * (2 * n)
    ax[...] = 0
    az[...] = 1
    third = observe()
    for a, b in zip(first, third):
        m.ok(a == b if isinstance(a, list) else np.abs(a - b).max() < 1e-9 if np.size(a) else True, "no-aliasing")
    s.free(s.reg)
