"""C25, C27, C28: device estimates and decoder optimisation."""
import itertools
import math
import time

import numpy as np
import picos
from projectq.ops import All, CNOT, H, Measure, Rx, Ry, Rz, S, T, X, Y, Z, get_inverse

import gen
import ref
from props_codes import GIVEN, give
from sim import Sim, overlap
from scipy.sparse import csr_matrix
from vlib import Violation, rule, scenario
from PyQCodes.avgfid import avg_fidelity
from PyQCodes.avgfid.avg_fidelity import optimize_decoder_stabilizers
from PyQCodes.chan._choi import ChoiQutip
from PyQCodes.codes import StabilizerCode
from PyQCodes.device_adaptor import ProjectQDeviceAdaptor
from PyQCodes.find_codes import QDeviceChannel

# ------------------------------------------------------------------------------------------ C25

rule("C25", "random states (with a reference qubit) through random two-design circuits and their inverses, nested; random channel "
     "callbacks (unitary noise, measurements, ancillas, resets, trial-dependent) with the state observed around every call and the "
     "measured bits read from the engine; two-design moments over many draws; non-trivial: distinct (qubits, accuracy, input)",
     {"inverse": 80, "layers": 80, "calls": 60, "survival": 60, "order": 24, "identity": 24, "moments": 12})


def layers(n, eps):
    return 2 * int(math.ceil(math.log2(1. / eps) / n)) + 1


def program(rng, n, length):
    """Random gates as (gate, positions)."""
    out = []
    for _ in range(length):
        t = int(rng.integers(9 if n > 1 else 8))
        q = [int(x) for x in rng.permutation(n)]
        g = (H, X, Z, S, T, Rx, Ry, Rz, CNOT)[t]
        if g in (Rx, Ry, Rz):
            g = g(float(rng.uniform(0, 4 * np.pi)))
        out.append((g, q[:2] if t == 8 else q[:1]))
    return out


def play(prog, reg):
    for g, q in prog:
        if len(q) == 2:
            g | (reg[q[0]], reg[q[1]])
        else:
            g | reg[q[0]]


def unplay(prog, reg):
    for g, q in reversed(prog):
        if len(q) == 2:
            get_inverse(g) | (reg[q[0]], reg[q[1]])
        else:
            get_inverse(g) | reg[q[0]]


EPS = (0.5, 0.3, 0.1, 0.03, 0.01, 1e-3, 1e-5)


@scenario("C25", 120, 1500)
def two_design_inverse(m, rng, idx):
    n = 1 + idx % 4
    eps = EPS[int(rng.integers(len(EPS)))] if idx % 3 else float(rng.uniform(0.002, 0.9))
    refq = bool(rng.integers(2))
    s = Sim(rng, n)
    r = list(s.alloc(1)) if refq else []
    regs = r + list(s.reg)
    v = gen.vec(rng, 2 ** len(regs))
    if idx % 5 == 0:
        v = np.eye(2 ** len(regs))[int(rng.integers(2 ** len(regs)))]
    m.case(n=n, eps=eps, state=v)
    m.event("n=%d" % n, "layers=%d" % layers(n, eps))
    d = ProjectQDeviceAdaptor(s.eng, s.reg)
    m.ok(d.numb_qubits == n and d.eng is s.eng and [q.id for q in d.register] == [q.id for q in s.reg], "layers", "attributes")
    s.set(v, regs)
    first = d.approximate_unitary_two_design(eps)
    m.ok(len(first) == layers(n, eps), "layers", "%d layers for %d qubits and epsilon %g, expected %d" % (len(first), n, eps, layers(n, eps)))
    mid = s.state(regs)
    if idx % 2:                              # nested: the second circuit is undone before the first
        second = d.approximate_unitary_two_design(min(eps * 2, 0.9))
        d.inverse_of_unitary_two_design(second)
        m.close(overlap(s.state(regs), mid), 1, "inverse", tol=1e-8, msg="the inner circuit is not undone")
    keep = [list(map(float, x)) for x in first]
    d.inverse_of_unitary_two_design(first)
    m.close(overlap(s.state(regs), v), 1, "inverse", tol=1e-8, msg="the circuit is not undone")
    m.ok([list(map(float, x)) for x in first] == keep, "inverse", "the record of phases changed")
    m.event("circuit moved the state" if overlap(mid, v) < 1 - 1e-9 else "circuit left the state")
    # the record belongs to the circuit, not to the adaptor: replayed on another state
    w = gen.vec(rng, 2 ** len(regs))
    s.set(w, regs)
    other = d.approximate_unitary_two_design(eps)
    d.inverse_of_unitary_two_design(other)
    m.close(overlap(s.state(regs), w), 1, "inverse", tol=1e-8, msg="second use of the adaptor")
    s.free(regs)


@scenario("C25", 24, 200)
def two_design_moments(m, rng, idx):
    """Average over the draws of |<0|U^dag P U|0>|^2 for Pauli P != I is 1/(d+1) for a two-design."""
    n = (1, 2, 2, 3)[idx % 4]
    eps = 0.01
    draws = 240
    s = Sim(rng, n)
    d = ProjectQDeviceAdaptor(s.eng, s.reg)
    paulis = []
    while len(paulis) < 6:
        v = rng.integers(0, 2, 2 * n)
        if v.any():
            paulis.append(ref.pmat(v))
    m.case(n=n, idx=idx)
    zero = np.eye(2 ** n)[0]
    got = []
    for _ in range(draws):
        s.set(zero, s.reg)
        d.approximate_unitary_two_design(eps)
        st = s.state(s.reg)
        got.append([abs(np.vdot(st, p @ st)) ** 2 for p in paulis])
    got = np.array(got)
    want = 1. / (2 ** n + 1)
    # variance of the overlap is below that of a variable on [0, 1] with this mean
    tol = 6.5 * max(np.sqrt(want * (1 - want) / draws), 1e-9) + eps
    m.close(got.mean(0), np.full(len(paulis), want), "moments", tol=tol, msg="second moments of the random circuits")
    s.free(s.reg)


@scenario("C25", 4, 16)
def two_design_large(m, rng, idx):
    """The same on more qubits, for all Paulis and to an accuracy near epsilon."""
    n, eps, draws = ((4, 2. ** -8, 5000), (3, 2. ** -9, 6000), (4, 2. ** -8, 5000), (5, 2. ** -9, 1800))[idx % 4]
    d = 2 ** n
    s = Sim(rng, n, bare=True)
    dev = ProjectQDeviceAdaptor(s.eng, s.reg)
    start = np.eye(d)[0 if idx < 4 else int(rng.integers(d))]
    m.case(n=n, eps=eps, start=start, idx=idx)
    x = np.arange(d)
    sign = (-1.) ** np.array([[bin(a & b).count("1") for a in x] for b in x])
    total, square = np.zeros((d, d)), np.zeros((d, d))
    began, done = time.monotonic(), 0
    while done < draws and (done < 200 or time.monotonic() - began < 90):      # fewer draws when the machine is busy
        s.set(start, s.reg)
        dev.approximate_unitary_two_design(eps)
        st = s.state(s.reg)
        # |<st| X^a Z^b |st>|^2 for every a and b
        e = np.abs((np.conj(st[x[:, None] ^ x]) * st) @ sign) ** 2
        total += e
        square += e ** 2
        done += 1
    m.event("moments n=%d from %d00 draws" % (n, done // 100))
    mean = total / done
    sd = np.sqrt(np.maximum(square / done - mean ** 2, 2. / (d + 1) ** 2) / done)
    excess = (np.abs(mean - 1. / (d + 1)) - eps) / sd
    excess[0, 0] = 0
    m.ok(excess.max() < 5, "moments", "second moments of the random circuits on %d qubits deviate from a two-design's by more than "
         "epsilon = %g: %.1f standard errors" % (n, eps, excess.max()))
    s.free(s.reg)


class Watch:
    """Observes trials of an estimate: the state around each call of the noise and the bits measured."""
    def __init__(self, eng):
        self.eng, self.trials = eng, []

    def collect(self):
        self.eng.flush()
        if self.trials and self.trials[-1]["bits"] is None:
            meas = getattr(self.eng, "_measurements", {})
            ids = self.trials[-1]["ids"]
            if all(i in meas for i in ids):
                self.trials[-1]["bits"] = [int(meas[i]) for i in ids]

    def psi(self, reg):
        self.eng.flush()
        pos, v = self.eng.backend.cheat()
        ids = [q.id for q in reg]
        if not set(ids) <= set(pos):
            return None
        n = len(pos)
        rest = [i for i in sorted(pos) if i not in ids]
        t = np.array(v).reshape([2] * n).transpose([n - 1 - pos[i] for i in ids + rest])
        return t.reshape(2 ** len(ids), -1)

    def around(self, noise):
        """A callable (eng, reg) that runs the noise under observation as one trial."""
        def channel(eng, reg):
            self.collect()
            a = self.psi(reg)
            noise(eng, reg)
            b = self.psi(reg)
            # probability that undoing the circuit gives all zeros; a is pure when the register is
            p = None
            if a is not None and b is not None:
                u, w, _ = np.linalg.svd(a, full_matrices=False)
                if w[0] > 1 - 1e-9:
                    p = float(np.sum(np.abs(np.conj(u[:, 0]) @ b) ** 2))
            self.trials.append({"ids": [q.id for q in reg], "p": p, "bits": None, "n": len(reg), "eng": eng})
        return channel


def judge(m, w, value, ntimes, n, eng, msg=""):
    """The reported estimate against the observed trials."""
    w.collect()
    m.ok(len(w.trials) == ntimes, "calls", "%s the noise ran %d times for %d trials" % (msg, len(w.trials), ntimes))
    m.ok(all(t["n"] == n and t["eng"] is eng for t in w.trials), "calls", "%s register or engine of another size" % msg)
    count = value * ntimes
    m.ok(abs(count - round(count)) < 1e-6 and -1e-9 <= value <= 1 + 1e-9, "calls", "%s value %r for %d trials" % (msg, value, ntimes))
    ps = [t["p"] for t in w.trials]
    if all(p is not None for p in ps):
        sure = sum(p > 1 - 1e-9 for p in ps)
        never = sum(p < 1e-9 for p in ps)
        m.ok(sure - 1e-6 <= count <= ntimes - never + 1e-6, "survival",
             "%s %g trials counted, %d must and %d cannot survive of %d" % (msg, count, sure, never, ntimes))
        mean = sum(ps)
        sd = math.sqrt(sum(max(p * (1 - p), 0) for p in ps))
        m.ok(abs(count - mean) <= 7 * sd + 3.5, "survival", "%s %g trials counted, %g expected" % (msg, count, mean))
    if all(t["bits"] is not None for t in w.trials):
        zero = sum(not any(t["bits"]) for t in w.trials)
        m.ok(abs(count - zero) < 1e-6, "survival", "%s %g trials counted, %d measured as all zero" % (msg, count, zero))
        m.event("measured bits observed")


def history(rng, s, idx):
    """Something that happened before on the register."""
    k = idx % 5
    if k == 1:
        All(X) | s.reg
    elif k == 2:
        play(program(rng, len(s.reg), 4), s.reg)
    elif k == 3:
        play(program(rng, len(s.reg), 6), s.reg)
        s.eng.flush()
    elif k == 4:
        All(H) | s.reg
        All(Measure) | s.reg
        s.eng.flush()


@scenario("C25", 80, 1000)
def estimates(m, rng, idx):
    n = 1 + idx % 3
    eps = EPS[int(rng.integers(5))]
    ntimes = int(rng.integers(1, 25))
    cheat = bool((idx // 2) & 1)
    s = Sim(rng, n)
    history(rng, s, idx)
    w = Watch(s.eng)
    prog = program(rng, n, int(rng.integers(1, 5)))
    kind = ("identity", "program", "trial", "random", "collapse", "ancilla", "pauli", "flip")[int(rng.integers(8))]
    calls = [0]
    stray = []

    def noise(eng, reg):
        calls[0] += 1
        if kind == "program":
            play(prog, reg)
        elif kind == "trial" and calls[0] % 2:
            play(prog, reg)
        elif kind == "random":
            if rng.random() < 0.4:
                play(prog, reg)
        elif kind == "collapse":
            if calls[0] % 2:
                Measure | reg[int(rng.integers(n))]
                eng.flush()
        elif kind == "ancilla":
            a = eng.allocate_qubit()
            H | a
            CNOT | (a[0], reg[0])
            Measure | a
            eng.flush()
            stray.append(int(a))
        elif kind == "pauli":
            for q in reg:
                t = int(rng.integers(5))
                if t < 3:
                    (X, Y, Z)[t] | q
        elif kind == "flip":                 # exactly orthogonal state in every third trial
            if calls[0] % 3 == 0:
                eng.flush()
                v = w.psi(reg)[:, 0]
                o = np.eye(2 ** n)[int(np.abs(v).argmin())]
                o = o - np.vdot(v, o) * v
                o /= np.linalg.norm(o)
                t = o.reshape([2] * n).transpose(range(n - 1, -1, -1)).reshape(-1)
                eng.backend.set_wavefunction(t, list(reg))
    m.case(n=n, eps=eps, ntimes=ntimes, kind=kind, cheat=cheat, history=idx % 5, seed=int(rng.integers(1 << 30)))
    m.event("n=%d" % n, kind, "cheat=%s" % cheat, "history %d" % (idx % 5))
    if idx % 2:
        d = ProjectQDeviceAdaptor(s.eng, s.reg)
        value = d.estimate_average_fidelity(w.around(noise), ntimes, eps, cheat=cheat)
    else:
        d = QDeviceChannel(s.eng, s.reg, w.around(noise))
        value = d.estimate_average_fidelity_channel(ntimes, eps, cheat=cheat)
    judge(m, w, value, ntimes, n, s.eng)
    if kind == "identity":
        m.ok(value == 1, "identity", "%r for the identity" % value)
    # once more on the same object, whatever the first run left behind
    w.trials.clear()
    if idx % 2:
        again = d.estimate_average_fidelity(w.around(noise), ntimes, eps)
    else:
        again = d.estimate_average_fidelity_channel(ntimes, eps)
    judge(m, w, again, ntimes, n, s.eng, "second run:")
    # and the identity after all that
    w.trials.clear()
    reg = list(d.register)
    m.ok(len(reg) == n, "calls", "register of %d qubits" % len(reg))
    if rng.integers(2):
        play(program(rng, n, 3), reg)
    d = QDeviceChannel(s.eng, d.register, w.around(lambda e, q: None))
    value = d.estimate_average_fidelity_channel(5, eps, cheat=not cheat)
    judge(m, w, value, 5, n, s.eng, "identity afterwards:")
    m.ok(value == 1, "identity", "%r for the identity after other runs" % value)


@scenario("C25", 20, 200)
def real_device(m, rng, idx):
    """On a real device the register starts in zero; the simulator's shortcuts do not exist there."""
    n = 1 + idx % 3
    ntimes = int(rng.integers(1, 8))
    eps = EPS[int(rng.integers(4))]
    s = Sim(rng, n)
    used = []
    backend = s.eng.backend
    plain = {}
    for name in ("set_wavefunction", "cheat", "get_amplitude", "get_probability", "collapse_wavefunction", "get_expectation_value"):
        plain[name] = getattr(backend, name)
        setattr(backend, name, lambda *a, name=name, **k: (used.append(name), plain[name](*a, **k))[1])
    calls = []

    def noise(eng, reg):
        calls.append((eng is s.eng, [q.id for q in reg]))

    m.case(n=n, eps=eps, ntimes=ntimes, idx=idx)
    m.event("real device n=%d" % n)
    if idx % 2:
        d = ProjectQDeviceAdaptor(s.eng, s.reg, True)
        value = d.estimate_average_fidelity(noise, ntimes, eps, cheat=bool(idx & 2))
    else:
        d = QDeviceChannel(s.eng, s.reg, noise, True)
        value = d.estimate_average_fidelity_channel(ntimes, eps, cheat=bool(idx & 2))
    m.ok(not used, "calls", "simulator functions used for a real device: %s" % sorted(set(used)))
    m.ok(len(calls) == ntimes and all(e and len(ids) == n for e, ids in calls), "calls", "noise called %d times for %d trials" % (len(calls), ntimes))
    m.ok(value == 1, "identity", "%r for the identity on a real device" % value)


@scenario("C25", 40, 500)
def error_code_estimates(m, rng, idx):
    n = 1 + idx % 3
    eps = EPS[int(rng.integers(5))]
    ntimes = int(rng.integers(2, 12))
    s = Sim(rng, n)
    history(rng, s, idx)
    w = Watch(s.eng)
    log = []
    enc, mid = program(rng, n, 5), program(rng, n, 3)
    kind = ("undo", "noise", "wrong", "full")[idx % 4]
    noisy = [rng.random() < 0.5 for _ in range(ntimes)]

    def inner(eng, reg):
        log.append("c")
        if kind == "full" or kind == "noise" and noisy[min(log.count("c"), ntimes) - 1]:
            play(mid, reg)

    def encoder(eng, reg):
        log.append("e")
        w.collect()
        state["a"] = w.psi(reg)[:, 0]
        play(enc, reg)

    def decoder(eng, reg):
        log.append("d")
        if kind == "full":
            unplay(mid, reg)
        unplay(enc[1:] if kind == "wrong" else enc, reg)
        b = w.psi(reg)[:, 0]
        w.trials.append({"ids": [q.id for q in reg], "p": float(abs(np.vdot(state["a"], b)) ** 2), "bits": None, "n": len(reg),
                         "eng": eng})
    state = {}
    m.case(n=n, eps=eps, ntimes=ntimes, kind=kind, enc=str(enc), mid=str(mid))
    m.event("n=%d" % n, kind)
    d = QDeviceChannel(s.eng, s.reg, inner)
    value = d.estimate_average_fidelity_error_code(encoder, decoder, ntimes, eps)
    m.ok("".join(log) == "ecd" * ntimes, "order", "calls %s" % "".join(log)[:60])
    judge(m, w, value, ntimes, n, s.eng)
    if kind in ("undo", "full"):
        m.ok(value == 1, "identity", "%r for an error code that undoes everything" % value)


@scenario("C25", 8, 60)
def average_fidelities(m, rng, idx):
    """The estimate converges to the average gate fidelity."""
    n = 1 + idx % 2
    d_ = 2 ** n
    ntimes, eps = 400, 0.01
    s = Sim(rng, n)
    prog = program(rng, n, int(rng.integers(1, 3)))
    u = np.zeros((d_, d_), dtype=complex)
    for j in range(d_):
        s.set(np.eye(d_)[j], s.reg)
        play(prog, s.reg)
        u[:, j] = s.state(s.reg)
    p = float(rng.uniform(0, 1)) if idx % 4 else 1.0
    # global phases of the columns are common to the whole unitary
    fe = (1 - p) + p * abs(np.trace(u)) ** 2 / d_ ** 2
    want = (d_ * fe + 1) / (d_ + 1)
    m.case(n=n, p=p, u=u)
    s.set(np.eye(d_)[0], s.reg)

    def noise(eng, reg):
        if rng.random() < p:
            play(prog, reg)
    got = QDeviceChannel(s.eng, s.reg, noise).estimate_average_fidelity_channel(ntimes, eps, cheat=bool(idx & 1))
    m.close(got, want, "moments", tol=6.5 * 0.5 / math.sqrt(ntimes) + eps, msg="average fidelity")


# ------------------------------------------------------------------------------------------ C27

rule("C27", "codes [2,1], [3,1] ([4,1] in the thorough tier) x single-qubit channels (Pauli with the exact optimum, amplitude damping, "
     "random complex) x dense and sparse: the recovery is read back as Kraus operators and played against the encoder and the channel; "
     "lower bounds from syndrome decoding and an iteration, upper bound from a dual certificate; non-trivial: distinct (code, channel)",
     {"recovery": 16, "attained": 16, "lower": 16, "upper": 16, "exact": 4, "options": 16},
     assume=["solver tolerances of 1e-3 are requested; comparisons use 8e-3; the iteration limit is raised until the solver result is right to that accuracy"])


def syndrome_decoding(rows, v, kr):
    """Entanglement fidelity of syndrome measurement followed by the lightest Pauli, logical basis of v."""
    n = rows.shape[1] // 2
    best = 0
    groups = {}
    for e in sorted(itertools.product("IXYZ", repeat=n), key=lambda e: sum(x != "I" for x in e)):
        b = ref.bits("".join(e))
        groups.setdefault(tuple(ref.symp(b, g) for g in rows), ref.pmat(b))
    for s, r in groups.items():
        p = np.eye(2 ** n)
        for bit, g in zip(s, rows):
            p = p @ (np.eye(2 ** n) + (-1) ** bit * ref.pmat(g)) / 2
        d = ref.dag(v) @ ref.dag(r) @ p
        best += sum(abs(np.trace(d @ k)) ** 2 for k in kr) / 4
    return best


def coset_optimum(rows, v, probs):
    """Exact optimum for a Pauli channel: the most likely logical class of every syndrome."""
    n = rows.shape[1] // 2
    tot = {}
    pi = dict(zip("IXYZ", probs))
    keys = {}
    for e in itertools.product("IXYZ", repeat=n):
        b = ref.bits("".join(e))
        s = tuple(ref.symp(b, g) for g in rows)
        q = float(np.prod([pi[x] for x in e]))
        classes = keys.setdefault(s, [])
        for j, c in enumerate(classes):
            if ref.in_span((c + b) % 2, rows):
                tot[s, j] += q
                break
        else:
            classes.append(b)
            tot[s, len(classes) - 1] = q
    return sum(max(tot[s, j] for j in range(len(c))) for s, c in keys.items())


def recovery_iteration(c, din, steps=300):
    """Improves a recovery (Choi matrix, input tensor output) for the linear objective tr(X c)."""
    x = np.eye(2 * din, dtype=complex) / 2
    for _ in range(steps):
        y = c @ x @ c + 1e-12 * np.eye(2 * din)
        t = np.einsum("iaja->ij", y.reshape(din, 2, din, 2))
        e, u = np.linalg.eigh((t + ref.dag(t)) / 2)
        i = np.kron((u / np.sqrt(np.maximum(e, 1e-15))) @ ref.dag(u), np.eye(2))
        x = i @ y @ i
    return x


@scenario("C27", 24, 130)
def decoders(m, rng, idx, thorough_n4=False):
    n = (2, 3, 3)[idx % 3] if idx < 24 else (2, 3, 3, 4)[idx % 4]
    rows = gen.code(rng, n, 1, css=rng.random() < 0.4)
    if n == 3 and idx % 2:
        rows = np.array([ref.bits(x) for x in (["ZZI", "IZZ"], ["XXI", "IXX"])[idx // 2 % 2]])
    kind = ("pauli", "damp", "random", "unitary", "pauli", "phase")[idx // 2 % 6]
    probs = None
    if kind == "pauli":
        p = float(rng.uniform(0.02, 0.6))
        rest = rng.dirichlet(np.ones(3)) * p
        probs = [1 - p] + [rest[0], rest[1], rest[2]]          # I, X, Y, Z
        kr = gen.pauli_channel(probs)
    elif kind == "damp":
        kr = gen.amp_damp(float(rng.uniform(0.05, 0.7)))
    elif kind == "random":
        kr = gen.isometry_channel(rng, 2, 2, int(rng.integers(2, 4)))
    elif kind == "unitary":
        kr = [gen.haar(rng, 2)]
    else:
        u = gen.haar(rng, 2)
        q = float(rng.uniform(0.1, 0.5))
        kr = [np.sqrt(1 - q) * u, np.sqrt(q) * u @ np.diag([1, 1j])]
    sparse = bool((idx // 3) & 1)
    m.case(code=rows, kraus=np.array(kr), sparse=sparse)
    m.event("n=%d" % n, kind, "sparse=%s" % sparse)
    # the encoder and the noise, in the reference
    v = np.asarray(StabilizerCode([ref.letters(r) for r in rows], n, 1).encode_krauss_operators())
    noisy = [k @ v for k in ref.power(kr, n)]
    din = 2 ** n
    vecs = [ref.dag(k).ravel(order="F") for k in noisy]
    c = sum(np.outer(a, a.conj()) for a in vecs) / 4
    xi = recovery_iteration(c, din)
    lows = {"syndrome decoding": syndrome_decoding(rows, v, noisy), "an iteration": float(np.trace(xi @ c).real)}
    exact = None if probs is None else coset_optimum(rows, v, probs)
    given = give(rows, GIVEN[idx % 4])

    def solve(maxit, sparse):
        keep = [k.copy() for k in kr]
        res = optimize_decoder_stabilizers(given, (n, 1), kr, sparse=sparse, options={"maxit": maxit})
        m.ok(all(np.array_equal(a, b) for a, b in zip(kr, keep)), "recovery", "the channel given changed")
        return res

    def judged(res):
        x = np.array(res["optimal_recov"].value, dtype=complex)
        val = complex(np.array(res["optimal_val"]).ravel()[0])
        m.ok(abs(val.imag) < 1e-6, "attained", "value %r" % val)
        val = val.real
        m.ok(x.shape == (2 * din, 2 * din), "recovery", "shape %s" % (x.shape,))
        m.ok(ref.is_psd(x, 6e-3), "recovery", "not positive")
        m.close(np.einsum("iaja->ij", x.reshape(din, 2, din, 2)), np.eye(din), "recovery", tol=1e-2, msg="not trace preserving")
        # the recovery as Kraus operators: columns of the Choi matrix, column stacking
        e, w = np.linalg.eigh((x + ref.dag(x)) / 2)
        rec = [np.sqrt(l) * w[:, j].reshape(2, din, order="F") for j, l in enumerate(e) if l > 1e-9]
        f = sum(abs(np.trace(r @ k)) ** 2 for r in rec for k in noisy) / 4
        m.close(val, f, "attained", tol=6e-3, msg="fidelity of encoding, channel and recovery")
        for name, low in lows.items():
            m.ok(val > low - 8e-3, "lower", "%.5f, %s reaches %.5f" % (val, name, low))
        best = 1.0
        for cand in (xi, x):
            y = np.einsum("iaja->ij", (cand @ c).reshape(din, 2, din, 2))
            y = (y + ref.dag(y)) / 2
            gap = max(0, np.linalg.eigvalsh(c - np.kron(y, np.eye(2)))[-1])
            best = min(best, float(np.trace(y).real + gap * din))
        m.ok(val < best + 8e-3, "upper", "%.5f, no recovery exceeds %.5f" % (val, best))
        m.event("certified gap below 0.02" if best - max(lows.values()) < 0.02 else "certified gap above 0.02")
        if exact is not None:
            m.close(val, exact, "exact", tol=8e-3, msg="sum of the most likely cosets")
        return val

    def converged(sparse):
        """The interior-point method neither stops by itself nor survives too many iterations on these problems, so
        the iteration limit is raised until the result is judged right; if it never is, the last verdict stands."""
        last = None
        for maxit in (14, 20, 26, 10):
            res = solve(maxit, sparse)
            try:
                val = judged(res)
                m.event("%d iterations" % maxit)
                return val
            except Violation as e:
                last = last or e
        raise last
    val = converged(sparse)
    if idx % 4 == 0 and n <= 3:
        m.close(converged(not sparse), val, "attained", tol=2e-2, msg="dense and sparse modes")


SOLVER = {"maxit": 50, "feastol": 1e-3, "abstol": 1e-3, "reltol": 1e-3}


@scenario("C27", 16, 96)
def solver_options(m, rng, idx):
    """The options in force when the solver starts are the documented ones, overridden by those given."""
    keys = [k for k in SOLVER if rng.random() < 0.5] if idx % 8 else []
    opts = {k: (int(rng.integers(3, 9)) if k == "maxit" else float(10 ** rng.uniform(-6, -2))) for k in keys}
    opts = opts if idx % 16 else None
    rows = gen.code(rng, 2, 1)
    kr = gen.pauli_channel([0.8, 0.1, 0.05, 0.05])
    m.case(code=rows, opts=opts)
    m.event("%d options" % len(opts or {}))
    seen = []
    old = picos.Problem.solve

    class Enough(Exception):
        pass

    def solve(self, *a, **kw):
        seen.append({k: kw.get(k, self.options[k]) for k in SOLVER})
        raise Enough()
    picos.Problem.solve = solve
    keep = dict(opts or {})
    try:
        optimize_decoder_stabilizers([ref.letters(r) for r in rows], (2, 1), kr, sparse=bool(idx & 1),
                                     **({"options": opts} if opts is not None or idx % 3 else {}))
    except Enough:
        pass
    finally:
        picos.Problem.solve = old
    m.ok(len(seen) == 1 and seen[0] == dict(SOLVER, **(opts or {})), "options", "solver options %s for %s" % (seen, opts))
    m.ok(keep == (opts or {}), "options", "the options given changed")


class Programme(Exception):
    """Raised where the solver would start; carries the semidefinite programme."""


def programme(call):
    """The programme that the call hands to the solver, or None when it solves it in another way."""
    old = picos.Problem.solve

    def solve(self, *a, **kw):
        raise Programme(self)
    picos.Problem.solve = solve
    try:
        call()
    except Programme as e:
        return e.args[0]
    finally:
        picos.Problem.solve = old
    return None


def feasible(problem, x):
    """(largest violation of a constraint, objective) of the programme at a given Choi matrix."""
    var = [problem.get_variable(v) for v in problem.variables]
    var = [v for v in var if tuple(v.size) == x.shape]
    if len(var) != 1:
        return None
    var[0].value = x
    worst = 0.
    for c in problem.constraints:
        s = np.array(c.slack)
        if "LMI" in type(c).__name__:
            worst = max(worst, -float(np.linalg.eigvalsh((s + ref.dag(s)) / 2)[0]))
        else:
            worst = max(worst, float(np.abs(s).max()))
    return worst, complex(np.array(problem.obj_value()).ravel()[0])


@scenario("C27", 40, 240)
def recovery_programme(m, rng, idx):
    """The programme given to the solver, evaluated at known recoveries: bigger codes and several logical qubits."""
    n, k = ((2, 1), (3, 1), (4, 1), (4, 2), (5, 1))[idx % 5]
    rows = gen.code(rng, n, k, css=rng.random() < 0.4)
    kr = gen.isometry_channel(rng, 2 ** k, 2 ** k, int(rng.integers(1, 4 if n < 5 else 3)))
    sparse = bool(idx // 5 & 1)
    m.case(code=rows, kraus=np.array(kr), sparse=sparse)
    m.event("programme n=%d k=%d" % (n, k))
    v = np.asarray(StabilizerCode([ref.letters(r) for r in rows], n, k).encode_krauss_operators())
    noisy = [a @ v for a in ref.power(kr, n // k)]
    p = programme(lambda: optimize_decoder_stabilizers(give(rows, GIVEN[idx % 4]), (n, k), [a.copy() for a in kr], sparse=sparse))
    _programme_at(m, rng, p, noisy, 2 ** n, 2 ** k, 4 ** k, idx)


def _programme_at(m, rng, p, noisy, din, dout, norm, idx):
    if p is None:
        m.event("no programme seen")
        return
    m.ok(p.objective[0] == "max", "programme", "the programme is to %s" % p.objective[0])
    for j in range(3):
        rec = gen.isometry_channel(rng, din, dout, max(-(-din // dout), 1 + j))
        res = feasible(p, ref.choi(rec))
        if res is None:
            m.event("programme in other variables")
            return
        m.ok(res[0] < 1e-6, "programme", "a valid operation violates a constraint by %g" % res[0])
        want = sum(abs(np.trace(r @ e)) ** 2 for r in rec for e in noisy) / norm
        m.close(res[1], want, "programme", tol=1e-9, msg="objective at a known operation")
    x = np.array(ref.choi(rec))
    bad = [x * 1.05, x + 0.3 * np.kron(gen.rho(rng, din)[0], gen.rho(rng, dout)[0])]
    # trace preserving but not positive
    h, g = gen.herm(rng, dout), gen.herm(rng, din)
    h = h - np.trace(h) / dout * np.eye(dout)
    bad.append(np.kron(np.eye(din), np.eye(dout) / dout) +
               3 * np.kron(g / np.abs(np.linalg.eigvalsh(g)).max(), h / np.abs(np.linalg.eigvalsh(h)).max()))
    # a channel in the other direction
    bad.append(np.array(ref.choi(gen.isometry_channel(rng, dout, din, dout))))
    for j, y in enumerate(bad):
        if j == 3 and din == dout:
            continue
        m.ok(feasible(p, y)[0] > 1e-4, "programme", "operation %d that is no channel satisfies the constraints" % j)


@scenario("C27", 12, 60)
def encoder_programme(m, rng, idx):
    search = getattr(avg_fidelity, "_optimize_average_entang_fid", None)
    if search is None:
        m.event("no encoder search")
        return
    n = 1 + idx % 3
    d = 2 ** n
    noise = gen.isometry_channel(rng, d, d, 2)
    rec = gen.isometry_channel(rng, d, 2, max(d // 2, 1 + idx % 2))
    kr = [np.asarray(r, dtype=complex) @ np.asarray(k) for r in rec for k in noise]
    m.case(kraus=np.array(kr), n=n)
    m.event("encoder programme n=%d" % n)
    given = [csr_matrix(k) for k in kr] if idx & 1 else kr
    p = programme(lambda: search(given, (1, n), 2, 2, encoder=True, verbose=False))
    _programme_at(m, rng, p, kr, 2, d, 4, idx)


@scenario("C27", 12, 72)
def encoder_search(m, rng, idx):
    """The same optimisation over encoders, for a fixed recovery."""
    search = getattr(avg_fidelity, "_optimize_average_entang_fid", None)
    if search is None:                       # not part of the interface
        m.event("no encoder search")
        return
    n = 1 + (idx % 5 > 0)
    d = 2 ** n
    noise = ref.power(gen.isometry_channel(rng, 2, 2, 2 + idx % 2) if idx % 3 else gen.amp_damp(float(rng.uniform(0.1, 0.6))), n)
    recovery = gen.isometry_channel(rng, d, 2, max(d // 2, 1 + idx % 2))
    kr = [np.asarray(r, dtype=complex) @ np.asarray(k) for r in recovery for k in noise]
    m.case(kraus=np.array(kr), n=n)
    m.event("encoder n=%d" % n)
    vecs = [ref.dag(k).ravel(order="F") for k in kr]
    c = sum(np.outer(a, a.conj()) for a in vecs) / 4
    # the largest value over encoders, from below by an iteration and from above by a dual point
    x = np.eye(2 * d, dtype=complex) / d
    for _ in range(400):
        y = c @ x @ c + 1e-12 * np.eye(2 * d)
        t = np.einsum("iaja->ij", y.reshape(2, d, 2, d))
        e, u = np.linalg.eigh((t + ref.dag(t)) / 2)
        i = np.kron((u / np.sqrt(np.maximum(e, 1e-15))) @ ref.dag(u), np.eye(d))
        x = i @ y @ i
    low = float(np.trace(x @ c).real)
    given = [csr_matrix(k) for k in kr] if idx & 1 else kr
    last = None
    for maxit in (34, 46, 26, 60, 14):
        res = search(given, (1, n), 2, 2, encoder=True, verbose=False, options={"maxit": maxit})
        try:
            got = np.array(res["optimal_recov"].value, dtype=complex)
            val = complex(np.array(res["optimal_val"]).ravel()[0]).real
            m.ok(got.shape == (2 * d, 2 * d) and ref.is_psd(got, 6e-3), "recovery", "the encoder is not positive")
            m.close(np.einsum("iaja->ij", got.reshape(2, d, 2, d)), np.eye(2), "recovery", tol=1e-2, msg="encoder not trace preserving")
            e, w = np.linalg.eigh((got + ref.dag(got)) / 2)
            enc = [np.sqrt(l) * w[:, j].reshape(d, 2, order="F") for j, l in enumerate(e) if l > 1e-9]
            f = sum(abs(np.trace(k @ a)) ** 2 for a in enc for k in kr) / 4
            m.close(val, f, "attained", tol=6e-3, msg="fidelity of encoder, channel and recovery")
            m.ok(val > low - 8e-3, "lower", "%.5f, an iteration reaches %.5f" % (val, low))
            best = 1.0
            for cand in (x, got):
                y = np.einsum("iaja->ij", (cand @ c).reshape(2, d, 2, d))
                y = (y + ref.dag(y)) / 2
                gap = max(0, np.linalg.eigvalsh(c - np.kron(y, np.eye(d)))[-1])
                best = min(best, float(np.trace(y).real + gap * 2))
            m.ok(val < best + 8e-3, "upper", "%.5f, no encoder exceeds %.5f" % (val, best))
            return
        except Violation as err:
            last = last or err
    raise last


# ------------------------------------------------------------------------------------------ C28

rule("C28", "parameter splits (M, N), bounds and scores varied; encoder, channel and decoder record every call, and make a trial survive "
     "or fail exactly by the simulator; the search seen from the callbacks against the reported result; non-trivial: distinct (split, "
     "bounds, target)",
     {"lengths": 30, "bounds": 30, "order": 30, "value": 30, "best": 24, "refused": 20})


@scenario("C28", 40, 400)
def encoder_decoder(m, rng, idx):
    n = 1 + idx % 2
    split = ((1, 1), (2, 1), (1, 2), (1, 3), (0, 2), (2, 0), (1, 0), (2, 2))[int(rng.integers(8))]
    tot = sum(split)
    lo = rng.uniform(-3, 3, tot)
    bounds = [(float(a), float(a + w)) for a, w in zip(lo, rng.uniform(0.3, 2, tot))]
    target = np.array([rng.uniform(*b) for b in bounds])
    ntimes = int(rng.integers(1, 4))
    maxiter = int(rng.integers(0, 3))
    noisy = idx % 4 == 3
    s = Sim(rng, n)
    log, evals, now = [], [], {}
    m.case(n=n, split=split, bounds=np.array(bounds), target=target, ntimes=ntimes)
    m.event("n=%d" % n, "split %s" % (split,), "noisy" if noisy else "exact")

    def score(p):
        """Number of trials that survive."""
        dist = np.abs((np.asarray(p) - target) / [b[1] - b[0] for b in bounds]).max()
        return int(round(ntimes * max(0, 1 - 1.7 * dist)))
    w = Watch(s.eng)

    def encoder(eng, reg, p):
        log.append("e")
        now["p"] = np.array(p, dtype=float)
        w.collect()
        now["a"] = w.psi(reg)[:, 0]
        if len(w.trials) and len(w.trials) % ntimes == 0 and not now.get("closed"):
            pass

    def channel(eng, reg):
        log.append("c")

    def decoder(eng, reg, p):
        log.append("d")
        full = np.concatenate([now["p"], np.array(p, dtype=float)])
        lengths.add((len(now["p"]), len(p)))
        if noisy:
            if len(full):
                Ry(float(full[0] - target[0]) * 3) | reg[0]
        else:
            if len(full) == tot and len(w.trials) % ntimes >= score(full):
                eng.flush()
                v = now["a"]
                o = np.eye(2 ** n)[int(np.abs(v).argmin())]
                o = o - np.vdot(v, o) * v
                o /= np.linalg.norm(o)
                eng.backend.set_wavefunction(o.reshape([2] * n).transpose(range(n - 1, -1, -1)).reshape(-1), list(reg))
        b = w.psi(reg)[:, 0]
        w.trials.append({"ids": [q.id for q in reg], "p": float(abs(np.vdot(now["a"], b)) ** 2), "bits": None, "n": len(reg),
                         "eng": eng})
        params.append(full)
    lengths, params = set(), []
    d = QDeviceChannel(s.eng, s.reg, channel)
    kw = {} if idx % 3 else {"optimizer": "diffev"}
    res = d.optimize_encoder_decoder_average_fidelity(encoder, decoder, ntimes, 0.3, split if idx % 2 else list(split), bounds,
                                                      maxiter=maxiter, **kw)
    w.collect()
    m.ok(lengths == {split}, "lengths", "encoder and decoder got %s parameters instead of %s" % (lengths, split))
    pe, pd = np.array(res["params_encoder"]), np.array(res["params_decoder"])
    m.ok((len(pe), len(pd)) == split, "lengths", "%d and %d parameters returned" % (len(pe), len(pd)))
    m.ok("".join(log) == "ecd" * (len(log) // 3), "order", "calls %s" % "".join(log)[:60])
    m.ok(len(params) % ntimes == 0, "order", "%d trials of %d" % (len(params), ntimes))
    lo_, up_ = np.array(bounds).T
    slack = 1e-9 + 1e-7 * np.abs(lo_).max()
    m.ok(all((p >= lo_ - slack).all() and (p <= up_ + slack).all() for p in params), "bounds", "parameters outside of the bounds")
    x = np.concatenate([pe, pd])
    m.ok((x >= lo_ - slack).all() and (x <= up_ + slack).all(), "bounds", "result outside of the bounds")
    groups = []
    for i in range(0, len(params), ntimes):
        g = params[i:i + ntimes]
        m.ok(all(np.array_equal(a, g[0]) for a in g), "order", "parameters change within an evaluation")
        ts = w.trials[i:i + ntimes]
        if noisy:
            if any(t["bits"] is None for t in ts):
                m.event("bits not observed")
                return
            groups.append((g[0], sum(not any(t["bits"]) for t in ts) / ntimes))
        else:
            groups.append((g[0], score(g[0]) / ntimes))
    m.event("evaluations %d00+" % (len(groups) // 100))
    val = float(res["optimal_val"])
    at = [f for p, f in groups if np.array_equal(p, x)]
    m.ok(len(at) > 0, "value", "the parameters returned were never tried")
    m.ok(any(abs(f - val) < 1e-9 for f in at), "value", "reported %g, trials at the parameters returned gave %s" % (val, at[:5]))
    if not noisy:
        m.ok(val > max(f for _, f in groups) - 1e-9, "best", "reported %g, a trial had %g" % (val, max(f for _, f in groups)))
    m.ok(len(groups) <= (maxiter + 1) * 15 * max(tot, 1) + 60 * (tot + 1) + 100, "best", "%d evaluations for %d iterations" %
         (len(groups), maxiter))


@scenario("C28", 20, 120)
def encoder_decoder_refused(m, rng, idx):
    s = Sim(rng, 1)
    calls = []
    d = QDeviceChannel(s.eng, s.reg, lambda e, r: calls.append("c"))

    def f(eng, reg, p):
        calls.append(len(p))
    a, b = int(rng.integers(0, 4)), int(rng.integers(0, 4))
    bounds = [(0., 1.)] * (a + b)
    m.case(a=a, b=b, idx=idx)
    m.raises(lambda: d.optimize_encoder_decoder_average_fidelity(f, f, 1, 0.5, (a, b), bounds + [(0., 1.)], maxiter=1), "refused",
             "one bound too many")
    if a + b:
        m.raises(lambda: d.optimize_encoder_decoder_average_fidelity(f, f, 1, 0.5, (a, b), bounds[:-1], maxiter=1), "refused",
                 "one bound too few")
    m.ok(not calls, "refused", "the circuits ran")
    m.oracles["refused"] += 1
    try:
        d.optimize_encoder_decoder_average_fidelity(f, f, 1, 0.5, (a, b), bounds, maxiter=1,
                                                    optimizer=("nelder", "slsqp", "DIFFEV", "", None)[idx % 5])
    except ValueError:
        return
    except Exception as e:
        m.fail("refused", "%s instead of a ValueError" % type(e).__name__)
    m.fail("refused", "an unknown optimizer was accepted")
