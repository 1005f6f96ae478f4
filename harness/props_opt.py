"""C10-C13 and the parameterisation part of C29: optimisation monitors."""
import os
import shutil
import tempfile

import numpy as np

import gen
import ref
from vlib import rule, scenario
from props_chan import FORMS, build, max_n, some_channel
from PyQCodes.chan.channel import AnalyticQChan
from PyQCodes.chan.param import CholeskyParam, OverParam, ParameterizationABC, StandardBasis

PARAMS = {"overparam": OverParam, "cholesky": CholeskyParam}


# --------------------------------------------------------------- user-supplied parameterisations

class Diagonal(ParameterizationABC):
    """Diagonal states, weights squared (any vector but 0); rank is the support size."""
    @staticmethod
    def numb_variables(nsize, rank):
        return rank

    @staticmethod
    def bounds(nsize, rank):
        return [(-2.0, 2.0)] * rank

    @staticmethod
    def rho_from_vec(vec, nsize, rank=None):
        w = np.zeros(nsize)
        w[:len(vec)] = np.asarray(vec) ** 2 + 1e-9
        return np.diag(w / w.sum()).astype(complex)

    @staticmethod
    def vec_from_rho(rho, nsize, rank):
        return np.sqrt(np.real(np.diag(rho))[:rank])

    @staticmethod
    def random_vectors(nsize, rank):
        return np.random.uniform(-1.5, 1.5, rank)


class Recording(ParameterizationABC):
    """Over-parameterisation with wide bounds that records every draw and every evaluation."""
    log = []
    feed = None          # optional iterator of vectors to hand out as "random" ones

    @staticmethod
    def numb_variables(nsize, rank):
        return 2 * nsize * rank

    @staticmethod
    def bounds(nsize, rank):
        return [(-9.0, 9.0)] * (2 * nsize * rank)

    @staticmethod
    def rho_from_vec(vec, nsize, rank=None):
        vec = np.array(vec, dtype=float)
        Recording.log.append(("rho", vec))
        return Recording.state(vec, nsize)

    @staticmethod
    def state(vec, nsize):
        c = vec[0::2] + 1j * vec[1::2]
        a = c.reshape(nsize, -1)
        m = a @ a.conj().T
        return m / np.trace(m).real

    @staticmethod
    def vec_from_rho(rho, nsize, rank):
        raise NotImplementedError

    @staticmethod
    def random_vectors(nsize, rank):
        if Recording.feed is not None:
            v = np.array(next(Recording.feed), dtype=float)
        else:
            v = np.random.normal(size=2 * nsize * rank)
        Recording.log.append(("draw", v.copy()))
        return v


# ------------------------------------------------------------------------------------------ C10

rule("C10", "sizes 1..8 (16 in the thorough tier) x every rank x random, extreme, sparse and one-hot vectors; states of "
     "every rank converted to vectors and back; samplers under every option; non-trivial: distinct (size, rank, vector)",
     {"state": 400, "roundtrip": 300, "lengths": 300, "standard-basis": 100},
     assume=["round trips use states whose eigenvalues are 0 or above 1e-4: the over-parameterisation truncates at 1e-5"])


def _vector(rng, n, lo, hi, t):
    if t == 0:
        v = rng.uniform(lo, hi, n)
    elif t == 1:                         # on the bounds
        v = np.where(rng.random(n) < 0.5, lo, hi).astype(float)
    elif t == 2:                         # one-hot
        v = np.zeros(n)
        v[rng.integers(n)] = hi
    elif t == 3:                         # sparse
        v = rng.uniform(lo, hi, n) * (rng.random(n) < 0.4)
    else:                                # tiny
        v = rng.uniform(lo, hi, n) * 1e-5
    return v


def _check_state(m, r, size, rank, tol=1e-9):
    m.ok(isinstance(r, np.ndarray) and r.shape == (size, size), "state", "shape %s" % (np.shape(r),))
    m.ok(np.all(np.isfinite(r)), "state", "not finite")
    m.ok(abs(np.trace(r) - 1) < tol and np.abs(r - ref.dag(r)).max() < tol, "state", "trace or Hermiticity")
    e = np.linalg.eigvalsh((r + ref.dag(r)) / 2)
    m.ok(e[0] > -tol, "state", "negative eigenvalue %g" % e[0])
    m.ok(int(np.sum(e > 1e-9)) <= rank, "state", "rank %d instead of %d" % (int(np.sum(e > 1e-9)), rank))


@scenario("C10", 2080, 32000)
def vectors_to_states(m, rng, idx):
    name = ("overparam", "cholesky")[idx % 2]
    p = PARAMS[name]
    size = int(rng.integers(1, 9)) if idx % 16 else int(rng.choice([12, 16]))
    rank = int(rng.integers(1, size + 1))
    nv = p.numb_variables(size, rank)
    bounds = p.bounds(size, rank)
    m.ok(len(bounds) == nv, "lengths", "%d bounds for %d variables" % (len(bounds), nv))
    m.event("%s rank %s" % (name, "full" if rank == size else "deficient"), "size=%d" % size)
    want = 2 * size * rank if name == "overparam" else rank + 2 * (rank * (rank - 1) // 2 + (size - rank) * rank)
    m.ok(nv == want, "lengths", "%d variables for a factor with %d real degrees" % (nv, want))
    lo = np.array([b[0] for b in bounds], dtype=float)
    hi = np.array([b[1] for b in bounds], dtype=float)
    t = int(rng.integers(5))
    v = np.zeros(nv)
    while np.abs(v).max() < 1e-9:
        v = _vector(rng, nv, 0, 1, t)
        v = np.where(lo < 0, np.where(rng.random(nv) < 0.5, v * lo, v * hi), lo + v * (hi - lo))
    m.case(param=name, size=size, rank=rank, vec=v)
    m.event("vector kind %d" % t)
    r = p.rho_from_vec(v, size, rank)
    _check_state(m, r, size, rank)
    if name == "overparam":
        a = (v[0::2] + 1j * v[1::2]).reshape(size, rank)
    else:
        a = np.zeros((size, rank), dtype=complex)
        a[np.arange(rank), np.arange(rank)] = v[:rank]
        j = rank
        for row in range(size):
            for col in range(min(row, rank)):
                a[row, col] = v[j] + 1j * v[j + 1]
                j += 2
    m.close(r, a @ ref.dag(a) / np.sum(np.abs(a) ** 2), "state", tol=1e-9, msg="factorisation")
    # scaling the vector leaves the state
    m.close(p.rho_from_vec(v * 0.5, size, rank), r, "state", tol=1e-9, msg="scaled vector")
    # every option of the sampler
    for kw in ({}, {"dist": "uniform"}, {"dist": "normal"}):
        w = p.random_vectors(size, rank, **kw)
        m.ok(len(w) == nv and np.all(np.isfinite(w)) and np.isrealobj(np.asarray(w)), "lengths", "random vector %s" % kw)
        if kw.get("dist") == "uniform" or (name == "cholesky" and not kw):
            m.ok(np.all(w >= lo - 1e-12) and np.all(w <= hi + 1e-12), "lengths", "uniform vector outside the bounds")
        _check_state(m, p.rho_from_vec(w, size, rank), size, rank)
        w2 = p.random_vectors(size, rank, **kw)
        m.ok(nv == 1 or not np.array_equal(w, w2), "lengths", "the sampler repeats itself")
    m.raises(lambda: p.random_vectors(size, rank, dist="cauchy"), "refused", "unknown distribution")
    if name == "cholesky":
        b = rng.uniform(0.1, 2)
        w = p.random_vectors(size, rank, dist="uniform", l_bnd=-b / 2, u_bnd=b)
        bb = p.bounds(size, rank, -b / 2, b)
        m.ok(len(w) == len(bb) == nv and all(x - 1e-12 <= y <= z + 1e-12 for (x, z), y in zip(bb, w)), "lengths",
             "custom bounds")
        if rank == size:
            m.close(p.rho_from_vec(v, size), r, "state", tol=1e-12, msg="rank left out")
    else:
        m.close(p.rho_from_vec(v, size), r, "state", tol=1e-12, msg="rank left out")


def clean_state(rng, size, true_rank, t):
    """State with true_rank eigenvalues above 1e-3 and the others 0."""
    if t == 0:
        u = gen.haar(rng, size)
    elif t == 1:
        u = np.linalg.qr(rng.normal(size=(size, size)))[0].astype(complex)
    else:
        u = np.eye(size, dtype=complex)[:, rng.permutation(size)]
    w = rng.uniform(0.05, 1, true_rank)
    if rng.random() < 0.3:
        w[:] = 1
    w /= w.sum()
    r = (u[:, :true_rank] * w) @ ref.dag(u[:, :true_rank])
    return (r + ref.dag(r)) / 2


@scenario("C10", 1920, 28800)
def round_trips(m, rng, idx):
    name = ("overparam", "cholesky")[idx % 2]
    p = PARAMS[name]
    size = int(rng.integers(1, 9)) if idx % 16 else 16
    rank = int(rng.integers(1, size + 1))
    true = int(rng.integers(1, rank + 1)) if idx % 3 == 0 else rank
    t = int(rng.integers(3))
    r = clean_state(rng, size, true, t)
    m.case(param=name, size=size, rank=rank, true=true, rho=r)
    m.event("%s requested %s true rank" % (name, "=" if true == rank else ">"), "basis %d" % t)
    v = p.vec_from_rho(np.array(r), size, rank)
    m.ok(len(v) == p.numb_variables(size, rank) and np.isrealobj(np.asarray(v)), "lengths", "converted vector")
    b = p.bounds(size, rank)
    m.ok(all(lo - 1e-9 <= x <= hi + 1e-9 for (lo, hi), x in zip(b, v)), "lengths", "converted vector outside the bounds")
    m.close(p.rho_from_vec(v, size, rank), r, "roundtrip", tol=1e-7)
    if name == "cholesky" and rank == size:
        m.close(p.vec_from_rho(np.array(r), size), v, "roundtrip", tol=1e-12, msg="rank left out")
    w = p.vec_from_rho(p.rho_from_vec(v, size, rank), size, rank)
    m.close(p.rho_from_vec(w, size, rank), r, "roundtrip", tol=1e-7, msg="second round trip")


@scenario("C10", 480, 6400)
def standard_basis(m, rng, idx):
    d = int(rng.integers(1, 8))
    v = rng.uniform(-1, 1, d * d)
    m.case(d=d, vec=v)
    p = StandardBasis
    m.ok(p.numb_variables(d) == d * d and len(p.bounds(d)) == d * d, "lengths")
    h = p.rho_from_vec(v, d)
    want = np.zeros((d, d), dtype=complex)
    j = 0
    for a in range(d):
        want[a, a] = v[j]
        j += 1
        for b in range(a + 1, d):
            want[a, b] = v[j] + 1j * v[j + 1]
            want[b, a] = v[j] - 1j * v[j + 1]
            j += 2
    m.close(h, want, "standard-basis", tol=1e-12)
    m.close(p.vec_from_rho(h, d), v, "standard-basis", tol=1e-12, msg="vector -> matrix -> vector")
    g = gen.herm(rng, d)
    m.close(p.rho_from_vec(p.vec_from_rho(g, d), d), g, "standard-basis", tol=1e-12, msg="matrix -> vector -> matrix")
    m.raises(lambda: p.rho_from_vec(np.append(v, 0.0), d), "refused", "vector too long")


# ------------------------------------------------------------------------------------------ C11

rule("C11", "optimiser x parameterisation (names, classes, user-defined) x representation (dense, sparse, Choi, orthogonal "
     "groups, multi-particle) x n x rank x source of guesses; the reported value is recomputed at the reported state; "
     "non-trivial: distinct (channel, configuration)",
     {"value-at-state": 80, "state": 80, "truthful": 80, "refused": 60})


def optim_channel(rng, n2=True):
    """Small channel with its representation: (object, kraus, a, nq, form)."""
    t = rng.integers(10)
    if t == 0:
        k, splits, di, do = gen.orthogonal_channel(rng)
        if len(k) <= 4 and di <= 3:
            return build(k, [1, 1], di, do, "list", orth=splits), k, [1, 1], di, do, "orthogonal"
    if t <= 2:
        k, di, do, _ = gen.channel(rng, mmax=3)
        return AnalyticQChan(ref.choi(k), [1, 1], di, do), k, [1, 1], di, do, "choi"
    if t == 3:
        k, nq, di, do = gen.multi_channel(rng)
        while di ** nq[0] > 4:
            k, nq, di, do = gen.multi_channel(rng)
    else:
        k, di, do, _ = gen.channel(rng, mmax=3)
        nq = [1, 1]
    form = FORMS[rng.integers(len(FORMS))]
    return build(k, nq, di, do, form), k, nq, di, do, form


def guesses(p, size, rank, count, rng):
    """Guesses inside the bounds."""
    b = p.bounds(size, rank)
    lo, hi = np.array([x[0] for x in b]), np.array([x[1] for x in b])
    return [lo + (hi - lo) * rng.uniform(0.02, 0.98, len(b)) for _ in range(count)]


def value(objective, k, n, rho):
    kn = ref.power(k, n)
    return ref.coherent(kn, rho) if objective == "coherent" else ref.fidelity(rho, ref.apply(kn, rho))


@scenario("C11", 120, 1200)
def self_consistent(m, rng, idx):
    objective = ("coherent", "coherent", "fidelity")[idx % 3]
    while True:
        c, k, nq, di, do, form = optim_channel(rng)
        if objective == "coherent" or di ** nq[0] == do ** nq[1]:
            break
    n = 1 if form == "choi" else int(rng.integers(1, min(2, max_n(k, nq, di, do, cap=4096)) + 1))
    size = (di ** nq[0]) ** n
    rank = 1 if objective == "fidelity" else int(rng.integers(1, size + 1))
    if size > 4:
        rank = min(rank, 3)
    pname = ("overparam", "cholesky", "class-over", "class-chol", "user", "instance")[rng.integers(6)]
    param, pcls = {"overparam": ("overparam", OverParam), "cholesky": ("cholesky", CholeskyParam),
                   "class-over": (OverParam, OverParam), "class-chol": (CholeskyParam, CholeskyParam),
                   "user": (Diagonal, Diagonal), "instance": (Diagonal(), Diagonal)}[pname]
    diffev = idx % 4 == 3
    source = ("samples", "lipschitz", "both", "default")[rng.integers(4)]
    if source == "default" and (not diffev or len(pcls.bounds(size, rank)) > 8):
        source = "samples"
    count = 6 if diffev else int(rng.integers(1, 4))
    lip = int(rng.integers(6, 8) if diffev else rng.integers(1, 4)) if source in ("lipschitz", "both") else 0
    samples = guesses(pcls, size, rank, count, rng) if source in ("samples", "both") else []
    pool = int(rng.integers(0, 3)) if not diffev and idx % 5 == 0 else 0
    regular = bool(objective == "coherent" and rng.random() < 0.4)
    cfg = dict(objective=objective, form=form, n=n, rank=rank, param=pname, optimizer="diffev" if diffev else "slsqp",
               source=source, lip=lip, pool=pool, regularized=regular, count=len(samples))
    m.case(kraus=np.array(k), **cfg)
    m.event(*["%s=%s" % (q, v) for q, v in cfg.items() if q not in ("count", "lip")])
    kw = dict(optimizer=cfg["optimizer"], param=param, lipschitz=lip, use_pool=pool,
              maxiter=int(rng.integers(1, 4) if diffev else rng.integers(1, 12)), samples=samples)
    if rng.random() < 0.3:                         # an object with a history
        if form != "choi":
            c.channel(gen.rho(rng, (di ** nq[0]) ** (3 - n))[0], 3 - n) if size <= 4 else None
    try:
        if objective == "coherent":
            res = c.optimize_coherent(n, rank, regularized=regular, **kw)
        else:
            res = c.optimize_fidelity(n, **kw)
    except AssertionError as e:
        # the sampler may legitimately give up
        m.ok(lip > 1 and "ipschitz" in str(e), "truthful", "refused a valid configuration: %s" % e)
        m.event("sampler gave up")
        return
    rho = ref.todense(res["optimal_rho"])
    m.ok(rho.shape == (size, size), "state", "shape %s for input size %d" % (rho.shape, size))
    _check_state(m, rho, size, rank, 1e-7)
    want = value(objective, k, n, rho)
    if regular:
        want /= n
    m.close(res["optimal_val"], want, "value-at-state", tol=1e-5 if objective == "fidelity" else 1e-6,
            msg="reported optimum against the objective at the reported state")
    m.ok(res["method"] == cfg["optimizer"] and res["objective"] == objective and res["lipschitz"] == (lip > 0)
         and "success" in res, "truthful", "reported %s" % {q: res[q] for q in ("method", "objective", "lipschitz")})
    m.ok(isinstance(bool(res["success"]), bool) and res["success"] in (True, False), "truthful")


@scenario("C11", 24, 200)
def refused(m, rng, idx):
    k, di, do, kind = gen.channel(rng, kind="gad")
    form = FORMS[idx % len(FORMS)]
    c = build(k, [1, 1], di, do, form)
    v = guesses(OverParam, 2, 1, 2, rng)
    m.case(kraus=np.array(k), form=form)
    good = dict(optimizer="slsqp", samples=v, maxiter=1)
    bad = [dict(good, optimizer="newton"), dict(good, param="bloch"), dict(good, param=3), dict(good, param=dict),
           dict(good, use_pool=-1), dict(good, use_pool=1.5), dict(good, lipschitz=-1), dict(good, lipschitz=1.5),
           dict(good, samples=tuple(v)), dict(optimizer="slsqp", samples=[], maxiter=1),
           dict(optimizer="slsqp", maxiter=1)]
    bad += [dict(optimizer="diffev", maxiter=1, **x) for x in (
        {"use_pool": -1}, {"use_pool": 2.0}, {"lipschitz": -1}, {"lipschitz": 1.0}, {"param": "bloch"}, {"param": dict},
        {"samples": tuple(guesses(OverParam, 2, 1, 6, rng))})]
    for kw in bad:
        m.raises(lambda: c.optimize_coherent(1, 1, **kw), "refused", "coherent %s" % {q: str(x)[:20] for q, x in kw.items()})
        m.raises(lambda: c.optimize_fidelity(1, **kw), "refused", "fidelity %s" % {q: str(x)[:20] for q, x in kw.items()})
    c.optimize_coherent(1, 1, **good)
    c.optimize_fidelity(1, **good)
    ch = AnalyticQChan(ref.choi(k), [1, 1], di, do)
    m.raises(lambda: ch.optimize_coherent(2, 1, **dict(good, samples=guesses(OverParam, 4, 1, 2, rng))), "refused",
             "two uses of a Choi channel")


# ------------------------------------------------------------------------------------------ C12

rule("C12", "lists of 1-5 guesses of mixed quality x permutations x pool sizes x optimisers; each guess optimised alone; "
     "channels with closed-form optima; non-trivial: distinct (channel, list) whose single results differ by more than 1e-6",
     {"best-of-all": 60, "order": 30, "at-least-guess": 100, "closed-form": 40, "pool": 6})


def _opt(c, objective, n, rank, **kw):
    r = c.optimize_coherent(n, rank, **kw) if objective == "coherent" else c.optimize_fidelity(n, **kw)
    return r["optimal_val"], r["optimal_rho"]


def better(objective, x, y):
    """How much worse x is than y (fidelities are compared squared: their root amplifies rounding near zero)."""
    return y - x if objective == "coherent" else max(x, 0) ** 2 - max(y, 0) ** 2


@scenario("C12", 64, 900)
def best_of_all(m, rng, idx):
    objective = ("coherent", "fidelity")[idx % 2]
    while True:
        k, nq, di, do, kind = some_channel(rng, multi=0.1, mmax=3)
        if di ** nq[0] <= 4 and (objective == "coherent" or di ** nq[0] == do ** nq[1]):
            break
    form = FORMS[idx % len(FORMS)]
    n = int(rng.integers(1, min(2, max_n(k, nq, di, do, cap=1500)) + 1))
    size = (di ** nq[0]) ** n
    rank = 1 if objective == "fidelity" else int(rng.integers(1, min(size, 3) + 1))
    pname = ("overparam", "cholesky")[rng.integers(2)]
    p = PARAMS[pname]
    count = int(rng.integers(2, 5))
    samples = guesses(p, size, rank, count, rng)
    if idx % 3 == 0:                       # a stationary poor guess: a basis state
        e = np.zeros((size, size), dtype=complex)
        e[0, 0] = 1
        samples[int(rng.integers(count))] = np.clip(p.vec_from_rho(e, size, rank), -1, 1)
    c = build(k, nq, di, do, form)
    maxiter = int(rng.integers(1, 15))
    kw = dict(optimizer="slsqp", param=pname, maxiter=maxiter)
    single = [_opt(c, objective, n, rank, samples=[s], **kw)[0] for s in samples]
    m.case(nontrivial=max(single) - min(single) > 1e-6, kraus=np.array(k), n=n, rank=rank, samples=samples)
    best = max(single) if objective == "coherent" else min(single)
    m.event("best guess at %d of %d" % (single.index(best), count), "form:" + form, objective, pname)
    for turn in range(2):
        order = list(rng.permutation(count)) if turn else list(range(count))
        got, rho = _opt(c, objective, n, rank, samples=[samples[i] for i in order], **kw)
        m.ok(better(objective, got, best) < 1e-7, "order" if turn else "best-of-all",
             "reported %.9g, single runs %s in order %s" % (got, single, order))
        start = [value(objective, k, n, p.rho_from_vec(s, size, rank)) for s in samples]
        for s in start:
            m.ok(better(objective, got, s) < 1e-6, "at-least-guess", "reported %.9g, a guess has %.9g" % (got, s))
    if idx % 8 < 2:
        got, rho = _opt(c, objective, n, rank, samples=samples, use_pool=int(rng.integers(1, 4)), **kw)
        m.ok(better(objective, got, best) < 1e-7, "pool", "pool reported %.9g, single runs %s" % (got, single))
        m.close(value(objective, k, n, ref.todense(rho)), got, "pool", tol=1e-5)
    if objective == "coherent":
        m.ok(got <= n * np.log2(di ** nq[0]) + 1e-7, "limits", "coherent information %g" % got)
    else:
        m.ok(-1e-9 <= got <= 1 + 1e-6, "limits", "fidelity %g" % got)


@scenario("C12", 16, 200)
def evolution_keeps_best(m, rng, idx):
    """Differential evolution from given guesses never ends below the best of them."""
    objective = ("coherent", "fidelity")[idx % 2]
    k, di, do, kind = gen.channel(rng, kind=("gad", "pauli", "ampdamp", "unitary")[idx // 2 % 4], din=2)
    pname = ("overparam", "cholesky")[rng.integers(2)]
    p = PARAMS[pname]
    rank = 1 if objective == "fidelity" else int(rng.integers(1, 3))
    samples = guesses(p, 2, rank, int(rng.integers(6, 10)), rng)
    form = FORMS[idx % len(FORMS)]
    m.case(kraus=np.array(k), samples=samples, rank=rank)
    got, rho = _opt(build(k, [1, 1], di, do, form), objective, 1, rank, optimizer="diffev", param=pname, maxiter=2,
                    samples=samples)
    for s in samples:
        v = value(objective, k, 1, p.rho_from_vec(s, 2, rank))
        m.ok(better(objective, got, v) < 1e-6, "at-least-guess", "reported %.9g, a guess has %.9g" % (got, v))
    m.event("diffev " + objective)


class Meridian(ParameterizationABC):
    """Pure qubit states on a piece of a meridian; every evaluation is appended to a file (also by worker processes)."""
    lo, hi, path = 0.0, 1.0, None

    @staticmethod
    def numb_variables(nsize, rank):
        return 2

    @staticmethod
    def bounds(nsize, rank):
        return [(Meridian.lo, Meridian.hi), (-1.0, 1.0)]

    @staticmethod
    def state(vec):
        v = np.array([np.cos(vec[0]), np.sin(vec[0]) * np.exp(1j * vec[1])])
        return np.outer(v, v.conj())

    @staticmethod
    def rho_from_vec(vec, nsize, rank=None):
        vec = np.array(vec, dtype=float)
        fd = os.open(Meridian.path, os.O_WRONLY | os.O_APPEND)
        os.write(fd, ("%d %r %r\n" % (os.getpid(), float(vec[0]), float(vec[1]))).encode())
        os.close(fd)
        return Meridian.state(vec)

    @staticmethod
    def vec_from_rho(rho, nsize, rank):
        raise NotImplementedError

    @staticmethod
    def random_vectors(nsize, rank):
        return np.array([np.random.uniform(Meridian.lo, Meridian.hi), np.random.uniform(-1, 1)])


@scenario("C12", 24, 300)
def bounds_and_guesses_used(m, rng, idx):
    """Every guess is evaluated, nothing outside the parameterisation's bounds is, and the iterations are as many as asked for."""
    p = float(rng.uniform(0.1, 0.9))
    lo = float(rng.uniform(0, 0.7))
    hi = float(rng.uniform(lo + 0.1, min(lo + 0.8, np.pi / 2)))
    k = gen.amp_damp(p)
    diffev = idx % 2 == 0
    maxiter = (1, 2, 40)[idx // 2 % 3] if diffev else int(rng.integers(1, 30))
    lip = 0 if idx % 5 or idx % 3 == 0 else 6
    count = int(rng.integers(6, 10)) if diffev else int(rng.integers(1, 4))
    given = [np.array([rng.uniform(lo, hi), rng.uniform(-1, 1)]) for _ in range(count)]
    form = FORMS[idx % len(FORMS)]
    m.case(p=p, lo=lo, hi=hi, given=given, diffev=diffev, maxiter=maxiter, form=form, lipschitz=lip)
    m.event("diffev" if diffev else "slsqp", "form:" + form)
    d = tempfile.mkdtemp(prefix="c12-")
    try:
        Meridian.lo, Meridian.hi, Meridian.path = lo, hi, os.path.join(d, "log")
        open(Meridian.path, "w").close()
        try:
            res = build(k, [1, 1], 2, 2, form).optimize_fidelity(
                1, optimizer="diffev" if diffev else "slsqp", param=Meridian, samples=list(given), maxiter=maxiter, lipschitz=lip)
        except AssertionError as e:
            m.ok(lip > 1 and "ipschitz" in str(e), "at-least-guess", "refused: %s" % e)
            return
        log = [x.split() for x in open(Meridian.path)]
    finally:
        shutil.rmtree(d)
    pts = np.array([[float(x[1]), float(x[2])] for x in log])
    m.ok(len(pts) and pts[:, 0].min() > lo - 2e-5 and pts[:, 0].max() < hi + 2e-5, "limits",
         "evaluated [%g, %g], bounds [%g, %g]" % (pts[:, 0].min(), pts[:, 0].max(), lo, hi))
    for g in given:
        m.ok(np.abs(pts - g).max(axis=1).min() < 1e-9, "at-least-guess", "the guess %s was never evaluated" % g)
    if diffev:
        workers = sum(1 for x in log if int(x[0]) != os.getpid())
        if workers:
            size = count + lip
            m.ok(workers <= size * (maxiter + 1), "at-least-guess", "%d evaluations of a population of %d in %d iterations" % (workers, size, maxiter))
            m.event("worker evaluations")
    f = lambda t: value("fidelity", k, 1, Meridian.state([t, 0.0]))
    best = min([f(lo), f(hi)] + [f(t) for t in np.linspace(lo, hi, 30)])
    m.ok(res["optimal_val"] > best - 1e-4, "limits", "%.9g, the minimum within the bounds is %.9g" % (res["optimal_val"], best))
    m.ok(res["optimal_val"] < min(f(g[0]) for g in given) + 1e-6, "at-least-guess")


def h2(x):
    return 0.0 if x <= 0 or x >= 1 else float(-x * np.log2(x) - (1 - x) * np.log2(1 - x))


@scenario("C12", 48, 600)
def closed_forms(m, rng, idx):
    t = idx % 8
    p = float(rng.uniform(0.02, 0.45))
    form = FORMS[(idx // 8) % len(FORMS)]
    objective, n, di, do = "coherent", 1, 2, 2
    u = gen.haar(rng, 2)
    if t == 0:
        k, want, do = gen.erasure(p), 1 - 2 * p, 3
        n = 1 + (idx // 8) % 2
    elif t == 1:                      # dephasing in a random basis
        k = [np.sqrt(1 - p) * np.eye(2), np.sqrt(p) * u @ ref.PZ @ ref.dag(u)]
        want = 1 - h2(p)
        n = 1 + (idx // 8) % 2
    elif t == 2:
        di = do = int(rng.integers(2, 4))
        k, want = [gen.haar(rng, di)], np.log2(di)
    elif t == 3:
        objective = "fidelity"
        k, want = gen.pauli_channel([1 - p, p / 3, p / 3, p / 3]), np.sqrt(1 - 2 * p / 3)
    elif t == 4:
        objective = "fidelity"
        k, want = gen.amp_damp(p), np.sqrt(1 - p)
    elif t == 5:
        objective = "fidelity"
        k = [np.sqrt(1 - p) * np.eye(2), np.sqrt(p) * u @ ref.PZ @ ref.dag(u)]
        want = np.sqrt(1 - p)
    elif t == 6:
        objective = "fidelity"
        th = rng.uniform(0.2, 2.8)
        k = [u @ np.diag([np.exp(0.5j * th), np.exp(-0.5j * th)]) @ ref.dag(u)]
        want = np.cos(th / 2)
    else:                             # amplitude damping: one-parameter maximum over the excited population
        k = gen.amp_damp(p)
        g = np.linspace(0, 1, 20001)
        hh = np.vectorize(h2)
        want = float(np.max(hh((1 - p) * g) - hh(p * g)))
    size = di ** n
    rank = 1 if objective == "fidelity" else size
    pname = ("overparam", "cholesky")[(idx // 8) % 2]
    lip = idx % 3 == 0 and n == 1
    m.case(kraus=np.array(k), n=n, objective=objective, param=pname, lip=lip)
    m.event("closed form %d n=%d" % (t, n), pname)
    kw = dict(lipschitz=5) if lip else dict(samples=guesses(PARAMS[pname], size, rank, 4, rng))
    try:
        got, rho = _opt(build(k, [1, 1], di, do, form), objective, n, rank, optimizer="slsqp", param=pname, maxiter=80, **kw)
    except AssertionError as e:
        m.ok(lip and "ipschitz" in str(e), "closed-form", str(e))
        got, rho = _opt(build(k, [1, 1], di, do, form), objective, n, rank, optimizer="slsqp", param=pname, maxiter=80,
                        samples=guesses(PARAMS[pname], size, rank, 5, rng))
    m.close(got, want * n if objective == "coherent" else want, "closed-form", tol=4e-3, msg="optimum")
    m.ok(better(objective, want * (n if objective == "coherent" else 1), got) < 1e-5, "limits",
         "%.9g beats the proven optimum %.9g" % (got, want))
    m.close(value(objective, k, n, ref.todense(rho)), got, "limits", tol=1e-5)


# ------------------------------------------------------------------------------------------ C13

rule("C13", "a recording parameterisation is handed to the optimiser: the log of draws and evaluations is replayed against the "
     "acceptance rule; scripted draws force rejections, late acceptance and exhaustion; non-trivial: distinct logs with at "
     "least one rejected draw",
     {"accepted-rule": 80, "count": 40, "drawn": 40, "exhausted": 10, "with-samples": 10})


def replay_log(m, log, objective, k, n, size, wanted, samples=()):
    """Offline checker of one log against the acceptance rule; returns the number of rejections."""
    draws = [v for e, v in log if e == "draw"]
    last = max(i for i, (e, v) in enumerate(log) if e == "draw")
    after = {v.tobytes() for e, v in log[last + 1:] if e == "rho"}
    keep = [v.tobytes() in after for v in draws]
    sign = 1 if objective == "coherent" else -1
    acc_f, acc_r, rejected = [], [], 0
    for j, (v, kept) in enumerate(zip(draws, keep)):
        rho = Recording.state(v, size)
        if acc_f:
            slack = min(f + np.abs(rho - r).sum() for f, r in zip(acc_f, acc_r)) - max(acc_f)
            if abs(slack) > 1e-6:
                m.ok(kept == (slack > 0), "accepted-rule",
                     "draw %d was %s although the smallest bound minus the best objective is %g"
                     % (j, "kept" if kept else "dropped", slack))
        else:
            m.ok(kept, "accepted-rule", "the first draw was dropped")
        if kept:
            acc_f.append(sign * value(objective, k, n, rho))
            acc_r.append(rho)
        else:
            rejected += 1
    m.ok(len(acc_f) == wanted, "count", "%d of %d requested guesses were used" % (len(acc_f), wanted))
    for s in samples:
        m.ok(s.tobytes() in after, "with-samples", "a user sample was not used")
    m.oracles["drawn"] += 1
    return rejected


def sampler_channel(rng, objective):
    while True:
        k, di, do, kind = gen.channel(rng, mmax=3)
        if objective == "coherent" or di == do:
            return k, di, do, kind


@scenario("C13", 40, 600)
def sampler_log(m, rng, idx):
    objective = ("coherent", "fidelity")[idx % 2]
    k, di, do, kind = sampler_channel(rng, objective)
    if idx % 3 == 0 and objective == "fidelity":           # small distances matter: many rejections
        k, di, do, kind = gen.amp_damp(0.95), 2, 2, "ampdamp"
    form = FORMS[idx % len(FORMS)]
    n = int(rng.integers(1, min(2, max_n(k, [1, 1], di, do, cap=1500)) + 1))
    size = di ** n
    rank = 1 if objective == "fidelity" else int(rng.integers(2, size + 1)) if size < 4 else 2
    want = int(rng.integers(1, 9))
    samples = [rng.uniform(-1, 1, 2 * size * rank) for _ in range(int(rng.integers(0, 3)))] if idx % 2 else []
    c = build(k, [1, 1], di, do, form)
    Recording.log = []
    # scripted draws: a cluster around a few centres, so that near-duplicates of poor guesses occur
    centres = [rng.normal(size=2 * size * rank) for _ in range(24)]
    sign = 1 if objective == "coherent" else -1
    centres.sort(key=lambda v: sign * value(objective, k, n, Recording.state(v, size)))
    centres = [centres[0], centres[int(rng.integers(1, 23))], centres[-1]]
    width = float(rng.choice([0.002, 0.01, 0.05, 0.2]))

    def feed():
        while True:
            yield centres[int(rng.integers(3))] + width * rng.normal(size=2 * size * rank)
    Recording.feed = feed() if idx % 4 else None
    kw = dict(optimizer="slsqp", param=Recording, lipschitz=want, samples=samples, maxiter=1)
    gave_up = False
    try:
        if objective == "coherent":
            res = c.optimize_coherent(n, rank, **kw)
        else:
            res = c.optimize_fidelity(n, **kw)
    except AssertionError:
        gave_up = True
    log, Recording.log, Recording.feed = Recording.log, [], None
    draws = [v for e, v in log if e == "draw"]
    m.ok(1 <= len(draws) <= 1001, "tries", "%d draws" % len(draws))
    if gave_up:
        m.ok(len(draws) >= 1000, "exhausted", "gave up after %d draws" % len(draws))
        m.case(log=draws[:20], gave_up=True)
        m.event("gave up")
        return
    rejected = replay_log(m, log, objective, k, n, size, want, samples)
    m.case(nontrivial=rejected > 0, log=draws, want=want)
    m.event("rejections %s" % ("0" if not rejected else "1-9" if rejected < 10 else "10+"), objective, "n=%d" % n)
    m.ok(res["lipschitz"] is True, "truthful")


@scenario("C13", 16, 160)
def exhaustion(m, rng, idx):
    """Best, poor, then copies of the poor one: nothing more is acceptable, unless a good draw comes late."""
    p = float(rng.uniform(0.5, 0.95))
    k = gen.amp_damp(p)
    form = FORMS[idx % len(FORMS)]
    good = np.array([0.0, 0, 1.0, 0])       # |1>: lowest fidelity
    poor = np.array([1.0, 0, 0, 0])         # |0>: fidelity one
    want = 2 + int(rng.integers(1, 4))
    late = int(rng.integers(50, 980)) if idx % 2 else None
    m.case(p=p, form=form, late=late, want=want)

    def feed():
        yield good
        yield poor
        j = 2
        while True:
            th = rng.uniform(0, 1e-3)
            if late is not None and j >= late:
                x = rng.normal(size=4)
                yield good + 0.05 * x          # far from the poor guess: acceptable
            else:
                yield np.array([np.cos(th), 0, np.sin(th), 0])
            j += 1
    Recording.log, Recording.feed = [], feed()
    c = build(k, [1, 1], 2, 2, form)
    kw = dict(optimizer="slsqp", param=Recording, lipschitz=want, maxiter=1)
    if late is None:
        kw["samples"] = [rng.uniform(-1, 1, 4)] if idx % 4 == 0 else []
        m.raises(lambda: c.optimize_fidelity(1, **kw), "exhausted", "too few guesses")
        m.ok(len([1 for e, v in Recording.log if e == "draw"]) <= 1001, "tries")
    else:
        c.optimize_fidelity(1, **kw)
        rej = replay_log(m, Recording.log, "fidelity", k, 1, 2, want)
        m.ok(rej >= late - 4, "exhausted", "only %d rejections" % rej)
    m.event("late=%s" % (late is not None))
    Recording.log, Recording.feed = [], None


# ------------------------------------------------------------------------------------------ C29 (parameters)

@scenario("C29", 60, 800)
def param_purity(m, rng, idx):
    name = ("overparam", "cholesky")[idx % 2]
    p = PARAMS[name]
    size = int(rng.integers(1, 6))
    rank = int(rng.integers(1, size + 1))
    r = clean_state(rng, size, rank, idx % 3)
    keep = r.copy()
    v = p.vec_from_rho(r, size, rank)
    m.case(param=name, rho=keep, rank=rank)
    m.ok(np.array_equal(r, keep), "inputs-untouched", "vec_from_rho changed the state")
    kv = np.array(v)
    a = p.rho_from_vec(v, size, rank)
    m.ok(np.array_equal(v, kv), "inputs-untouched", "rho_from_vec changed the vector")
    m.close(p.rho_from_vec(v, size, rank), a, "repeatable", tol=0)
    v[...] = 0.3
    a0 = a.copy()
    r[...] = 0
    m.ok(np.array_equal(a, a0), "no-aliasing", "the state shares memory with the vector")
    s = rng.uniform(-1, 1, size * size)
    ks = s.copy()
    h = StandardBasis.rho_from_vec(s, size)
    kh = h.copy()
    StandardBasis.vec_from_rho(h, size)
    m.ok(np.array_equal(s, ks) and np.array_equal(h, kh), "inputs-untouched", "standard basis")


@scenario("C29", 16, 200)
def optimisation_purity(m, rng, idx):
    """The optimisation leaves the guesses, the list and the channel alone."""
    k, di, do, kind = gen.channel(rng, kind=("gad", "pauli", "unitary")[idx % 3], din=2)
    form = FORMS[idx % len(FORMS)]
    c = build(k, [1, 1], di, do, form)
    n = 1 + idx % 2
    samples = [rng.uniform(-1, 1, 2 * di ** n) * 1.0 for _ in range(2)]
    keep = [s.copy() for s in samples]
    m.case(kraus=np.array(k), samples=keep, form=form)
    lip = 2 if idx % 4 == 3 else 0
    vals = []
    for _ in range(2):
        np.random.seed(idx)
        f = c.optimize_fidelity if idx % 2 else (lambda *a, **q: c.optimize_coherent(a[0], 1, **q))
        vals.append(f(n, optimizer="slsqp", samples=samples, lipschitz=lip, maxiter=4)["optimal_val"])
        m.ok(len(samples) == 2 and all(np.array_equal(a, b) for a, b in zip(samples, keep)), "inputs-untouched",
             "the optimisation changed the guesses")
    m.close(vals[0], vals[1], "repeatable", tol=1e-9)
    r = gen.rho(rng, di)[0]
    m.close(c.channel(r, 1), ref.apply(k, r), "repeatable")
