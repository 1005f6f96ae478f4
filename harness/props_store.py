"""C30: results do not depend on how the numbers given are stored."""
import numpy as np
from sparse import COO

import gen
import ref
from sim import Sim
from vlib import rule, scenario
from PyQCodes.chan.channel import AnalyticQChan
from PyQCodes.chan._kraus import DenseKraus, SparseKraus
from PyQCodes.chan.param import CholeskyParam, OverParam
from PyQCodes.codes import StabilizerCode

rule("C30", "the same channel, state, vector and generators in different storage (real, integer and single precision types, Fortran order, "
     "strided, reversed, transposed and read-only views, lists, arrays and sparse arrays), each result against the reference model; "
     "non-trivial: distinct (values, storage)",
     {"channel": 100, "values": 100, "choi": 40, "static": 40, "parameters": 60, "optimise": 12, "codes": 100, "circuits": 40})

LAYOUTS = ("plain", "fortran", "strided", "reversed", "transposed", "readonly")


def layout(a, how):
    """The same values and type in another memory layout."""
    a = np.array(a)
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "strided":
        big = np.full([2 * s for s in a.shape], 7, dtype=a.dtype)
        big[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return big[tuple(slice(None, None, 2) for _ in a.shape)]
    if how == "reversed":
        r = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[r])[r]
    if how == "transposed" and a.ndim > 1:
        return np.ascontiguousarray(np.swapaxes(a, -1, -2)).swapaxes(-1, -2)
    if how == "readonly":
        a.flags.writeable = False
    return a


def numbers(a, how):
    """The same values in another type; types that cannot hold them give the values back unchanged."""
    a = np.asarray(a)
    if how == "real" and np.all(np.imag(a) == 0):
        return np.real(a).astype(float)
    if how in ("int64", "int8", "int32") and np.all(np.imag(a) == 0) and np.all(np.real(a) == np.round(np.real(a))):
        return np.real(a).astype(how)
    if how == "single":
        return a.astype(np.complex64 if np.iscomplexobj(a) else np.float32)
    return a.astype(complex)


TYPES = ("complex", "real", "int64", "single", "int8", "int32")


def stored(rng, a, single=True):
    """(array, description, tolerance)"""
    t = TYPES[rng.integers(len(TYPES))]
    if t == "single" and not single:
        t = "complex"
    lay = LAYOUTS[rng.integers(len(LAYOUTS))]
    out = layout(numbers(a, t), lay)
    eps = 2e-5 if out.dtype in (np.complex64, np.float32) else 1e-8
    return out, "%s %s" % (out.dtype, lay), eps


def plain_channel(rng, idx):
    """Channels whose values fit many types."""
    t = idx % 6
    if t == 0:                                             # permutations: integers
        d = int(rng.integers(2, 5))
        return [np.eye(d)[rng.permutation(d)]], [1, 1], d, d
    if t == 1:                                             # projective measurement: integers
        d = int(rng.integers(2, 4))
        return [np.outer(e, e) for e in np.eye(d)], [1, 1], d, d
    if t == 2:                                             # reset, or an embedding into more particles
        if rng.random() < 0.5:
            return [np.outer(np.eye(2)[0], e) for e in np.eye(2)], [1, 1], 2, 2
        return [np.eye(4)[:, [0, 3]]], [1, 2], 2, 2
    if t == 3:
        return gen.channel(rng, kind="real")[0], None, None, None
    if t == 4:
        k, nq, di, do = gen.multi_channel(rng, mmax=2)
        return k, nq, di, do
    return gen.channel(rng, kind="haar")[0], None, None, None


def plain_state(rng, d, idx):
    if idx % 3 == 0:
        return np.diag(np.eye(d)[rng.integers(d)])
    r = gen.rho(rng, d)[0]
    return r if idx % 3 == 1 else np.real(r).astype(complex)


@scenario("C30", 360, 5000)
def channel_storage(m, rng, idx):
    k, nq, di, do = plain_channel(rng, idx)
    if nq is None:
        nq, di, do = [1, 1], k[0].shape[1], k[0].shape[0]
    a, b = k[0].shape[1], k[0].shape[0]
    n = 2 if (len(k) * a) ** 4 <= 2e4 and max(a, b) <= 4 and rng.random() < 0.5 else 1
    full = ref.power(k, n)
    r, op = plain_state(rng, a ** n, idx // 6), gen.herm(rng, b ** n)
    if idx % 4 == 0:
        op = np.round(np.real(op) * 3)
    form = ("list", "array", "mixed", "coo")[idx // 6 % 4]
    sparse = form == "coo" or bool(rng.integers(2))
    how, tol = [], 1e-8
    if form in ("list", "mixed"):
        given = []
        for x in k:
            x, h, e = stored(rng, x)
            given.append(x)
            how.append(h)
            tol = max(tol, e)
    else:
        given, h, tol = stored(rng, np.array(k))
        how.append(h)
        if form == "coo":
            given = COO(np.array(given))
    rs, rh, e1 = stored(rng, r)
    os, oh, e2 = stored(rng, op)
    m.case(kraus=np.array(k), nq=list(nq), rho=r, form=form, storage=how, states=[rh, oh], n=n)
    m.event("form " + form, "kraus " + how[0].split()[0], "layout " + how[0].split()[1], "state " + rh.split()[0], "sparse=%s" % sparse)
    c = AnalyticQChan(given, list(nq), di, do, sparse=sparse)
    m.close(c.channel(rs, n), ref.apply(full, r), "channel", tol=max(tol, e1))
    scale = max(1.0, np.abs(op).max())
    m.close(np.asarray(c.channel(os, n, adjoint=True)) / scale, ref.apply_adjoint(full, op) / scale, "channel", tol=max(tol, e2), msg="adjoint")
    batch = np.array([r, np.eye(a ** n) / a ** n, plain_state(rng, a ** n, 0)])
    bs, bh, e3 = stored(rng, batch)
    m.close(c.channel(bs, n), np.array([ref.apply(full, x) for x in batch]), "channel", tol=max(tol, e3), msg="batch " + bh)
    w = c.entropy_exchange(rs, n)
    m.close(w[0], ref.exchange(full, r), "channel", tol=max(tol, e1), msg="entropy exchange")
    x = gen.herm(rng, len(full))
    xs, xh, e4 = stored(rng, x)
    got = c.entropy_exchange(xs, n, adjoint=True)
    m.close(got, ref.exchange_adjoint(full, x), "channel", tol=10 * max(tol, e4), msg="adjoint of the entropy exchange")
    # rounding to single precision moves eigenvalues by 1e-7, their entropy by much more
    loose = max(tol, e1)
    et = 1e-6 if loose < 1e-7 else 1e-3
    m.close(c.entropy(rs), ref.entropy(r), "values", tol=et, msg="entropy " + rh)
    m.close(c.entropy([rs, rs]), 2 * ref.entropy(r), "values", tol=2 * et, msg="entropy of a list")
    m.close(c.coherent_information(rs, n), ref.coherent(full, r), "values", tol=et * 4, msg="coherent information")
    if a == b:
        f = ref.fidelity(r, ref.apply(full, r))
        g = float(np.real(c.fidelity_two_states(rs, n)))
        m.ok(abs(g - f) < 1e-6 if loose < 1e-7 and f > 1e-3 else abs(g ** 2 - f ** 2) < 1e-2, "values", "fidelity %.9g, expected %.9g" % (g, f))


@scenario("C30", 90, 1200)
def choi_storage(m, rng, idx):
    k, nq, di, do = plain_channel(rng, idx)
    if nq is None:
        nq, di, do = [1, 1], k[0].shape[1], k[0].shape[0]
    a, b = k[0].shape[1], k[0].shape[0]
    ch = ref.choi(k)
    cs, chow, tol = stored(rng, ch, single=False)
    r, op = plain_state(rng, a, idx // 6), gen.herm(rng, b)
    rs, rh, e1 = stored(rng, r, single=False)
    os, oh, e2 = stored(rng, op, single=False)
    m.case(choi=ch, nq=list(nq), rho=r, storage=[chow, rh, oh])
    m.event("choi " + chow.split()[0], "layout " + chow.split()[1])
    c = AnalyticQChan(cs, list(nq), di, do)
    m.close(c.channel(rs, 1), ref.apply(k, r), "choi", tol=1e-7)
    m.close(c.channel(os, 1, adjoint=True), ref.apply_adjoint(k, op), "choi", tol=1e-6, msg="adjoint")
    m.close(ref.choi([np.asarray(x) for x in c.kraus]), ch, "choi", tol=1e-6, msg="Kraus operators")
    m.close(c.coherent_information(rs, 1), ref.coherent(k, r), "choi", tol=1e-6, msg="coherent information")
    if a == b:
        p = rng.dirichlet(np.ones(2))
        states = [r, gen.rho(rng, a)[0]]
        st = [stored(rng, x, single=False)[0] for x in states]
        want = sum(q * ref.ent_fidelity(k, x) for q, x in zip(p, states))
        m.close(c.average_entanglement_fidelity(list(p), st), want, "choi", tol=1e-6, msg="average entanglement fidelity")
        m.close(c.average_entanglement_fidelity(np.array(p), np.array(states)), want, "choi", tol=1e-6,
                msg="average entanglement fidelity of arrays")


@scenario("C30", 60, 800)
def static_storage(m, rng, idx):
    d, e, f = [int(x) for x in rng.integers(2, 4, 3)]
    x = [np.round(rng.normal(size=(e, d)) * 2) for _ in range(int(rng.integers(1, 4)))]
    y = [np.round(rng.normal(size=(f, e)) * 2) for _ in range(int(rng.integers(1, 4)))]
    if idx % 2:
        x = [z + 1j * np.round(rng.normal(size=z.shape)) for z in x]
    xs, xh, e1 = stored(rng, np.array(x))
    ys, yh, e2 = stored(rng, np.array(y))
    if idx % 3 == 0:
        xs = [stored(rng, z)[0] for z in x]
    if idx % 3 == 1:
        ys = [stored(rng, z)[0] for z in y]
    m.case(x=np.array(x), y=np.array(y), storage=[xh, yh], idx=idx)
    m.event("static " + xh.split()[1])
    for cls in (DenseKraus, SparseKraus):
        m.close(cls.serial_concatenate(ys, xs), np.array([v @ u for v in y for u in x]), "static", tol=1e-4, msg="serial")
        m.close(cls.parallel_concatenate(xs, ys), np.array([np.kron(u, v) for u in x for v in y]), "static", tol=1e-4, msg="parallel")


@scenario("C30", 120, 1600)
def parameter_storage(m, rng, idx):
    name, p = (("overparam", OverParam), ("cholesky", CholeskyParam))[idx % 2]
    d = int(rng.integers(2, 6))
    rank = int(rng.integers(1, d + 1))
    nv = p.numb_variables(d, rank)
    v = rng.uniform(0.05, 1, nv) * np.where(rng.random(nv) < 0.5, -1, 1)
    if name == "cholesky":
        v[:rank] = np.abs(v[:rank])
    if idx % 3 == 0:
        v = np.where(np.abs(v) > 0.5, np.sign(v), 0)
        v[0] = 1
    t = ("float64", "float32", "int64", "int8")[rng.integers(4)]
    if t.startswith("int") and np.any(v != np.round(v)):
        t = "float64"
    lay = LAYOUTS[rng.integers(len(LAYOUTS))]
    vs = layout(v.astype(t), lay)
    m.case(param=name, size=d, rank=rank, vec=v, storage=[t, lay])
    m.event("vector %s %s" % (t, lay))
    if name == "overparam":
        a = (v[0::2] + 1j * v[1::2]).reshape(d, rank)
    else:
        a = np.zeros((d, rank), dtype=complex)
        a[np.arange(rank), np.arange(rank)] = v[:rank]
        j = rank
        for row in range(d):
            for col in range(min(row, rank)):
                a[row, col] = v[j] + 1j * v[j + 1]
                j += 2
    want = a @ ref.dag(a) / np.sum(np.abs(a) ** 2)
    tol = 1e-9 if t != "float32" else 1e-5
    m.close(p.rho_from_vec(vs, d, rank), want, "parameters", tol=tol, msg="vector to state")
    # a state of exactly that rank with well separated spectrum
    u = gen.haar(rng, d) if idx % 3 else np.eye(d)[rng.permutation(d)]
    w = rng.uniform(0.2, 1, rank)
    r = (u[:, :rank] * (w / w.sum())) @ ref.dag(u[:, :rank])
    rs, rh, _ = stored(rng, r, single=False)
    m.event("state " + rh)
    m.close(p.rho_from_vec(p.vec_from_rho(rs, d, rank), d, rank), r, "parameters", tol=1e-7, msg="state to vector " + rh)


@scenario("C30", 16, 160)
def optimiser_storage(m, rng, idx):
    k, di, do, kind = gen.channel(rng, kind=("haar", "gad", "ampdamp", "real")[idx % 4], din=2, dout=2)
    name, p = (("overparam", OverParam), ("cholesky", CholeskyParam))[idx // 4 % 2]
    nv = p.numb_variables(2, 1)
    v = [rng.uniform(0.1, 0.9, nv) for _ in range(int(rng.integers(1, 4)))]
    if idx % 3 == 0:
        v[0] = np.ones(nv)
    ts = []
    for x in v:
        t = "int64" if np.all(x == 1) else ("float64", "float32")[rng.integers(2)]
        ts.append(layout(x.astype(t), LAYOUTS[rng.integers(len(LAYOUTS))]))
    m.case(kraus=np.array(k), samples=np.array(v), storage=[str(x.dtype) for x in ts])
    c = AnalyticQChan([layout(x, LAYOUTS[rng.integers(len(LAYOUTS))]) for x in k], [1, 1], di, do, sparse=bool(idx & 1))
    for obj in ("coherent", "fidelity"):
        kw = dict(optimizer="slsqp", param=name, samples=list(ts), maxiter=int(rng.integers(1, 12)))
        res = c.optimize_coherent(1, 1, **kw) if obj == "coherent" else c.optimize_fidelity(1, **kw)
        rho = ref.todense(res["optimal_rho"])
        val = (lambda x: ref.coherent(k, x)) if obj == "coherent" else (lambda x: ref.fidelity(x, ref.apply(k, x)))
        m.close(res["optimal_val"], val(rho), "optimise", tol=1e-5, msg=obj + " at the reported state")
        for x in v:
            g = val(p.rho_from_vec(x, 2, 1))
            better = res["optimal_val"] > g - 1e-5 if obj == "coherent" else res["optimal_val"] < g + 1e-5
            m.ok(better, "optimise", "%s %.9g, a guess has %.9g" % (obj, res["optimal_val"], g))
    if idx % 4 == 0:
        # a good guess among others of another type
        fid = lambda x: ref.fidelity(p.rho_from_vec(x, 2, 1), ref.apply(k, p.rho_from_vec(x, 2, 1)))
        best = min((rng.uniform(0.05, 0.95, nv) for _ in range(40)), key=fid)
        pop = [np.ones(nv, dtype=("int64", "float32", "int8")[idx // 4 % 3])] + [rng.uniform(0.05, 0.95, nv) for _ in range(4)] + [best]
        m.event("population of %s first" % pop[0].dtype)
        res = c.optimize_fidelity(1, optimizer="diffev", param=name, samples=pop, maxiter=1)
        g = min(fid(x) for x in pop)
        m.ok(res["optimal_val"] < g + 1e-5, "optimise", "diffev: %.9g, a guess has %.9g" % (res["optimal_val"], g))


ROWS = ("int64", "int32", "int8", "uint8", "float64", "float32")


def rows_stored(rng, rows):
    t = ROWS[rng.integers(len(ROWS))]
    lay = LAYOUTS[rng.integers(len(LAYOUTS))]
    a = layout(np.array(rows).astype(t), lay)
    f = int(rng.integers(4))
    if f == 1:
        return [x for x in a], "list of %s %s" % (t, lay)
    if f == 2:
        return [[x for x in r] for r in a.tolist()], "lists of %s" % a.dtype.kind
    if f == 3:
        return [ref.letters(r) for r in rows], "strings"
    return a, "%s %s" % (t, lay)


@scenario("C30", 240, 3200)
def code_storage(m, rng, idx):
    n = int(rng.integers(1, 6))
    k = int(rng.integers(0, n))
    rows = gen.code(rng, n, k)
    n, k = rows.shape[1] // 2, rows.shape[1] // 2 - len(rows)
    g, how = rows_stored(rng, rows)
    m.case(code=rows, storage=how)
    m.event("code as " + how.split()[0], "code layout " + how.split()[-1])
    c = StabilizerCode(g, n, k)
    plain = StabilizerCode([ref.letters(r) for r in rows], n, k)
    for what in ("pauli_stab", "rank", "n", "k"):
        m.ok(getattr(c, what) == getattr(plain, what), "codes", "%s given as %s" % (what, how))
    for what in ("stab_bin_rep", "normal_form", "logical_x", "logical_z"):
        m.close(np.asarray(getattr(c, what), dtype=float), np.asarray(getattr(plain, what), dtype=float), "codes", tol=0,
                msg="%s given as %s" % (what, how))
    proj = ref.projector(rows)
    for sp in (False, True):
        v = ref.todense(c.encode_krauss_operators(sparse=sp))
        m.close(v @ ref.dag(v), proj, "codes", tol=1e-8, msg="encoder")
    if n <= 4:
        want = sorted(tuple(int(x) for x in r) for r in plain.normalizer())
        m.ok(sorted(tuple(int(x) for x in r) for r in c.normalizer()) == want, "codes", "normalizer given as " + how)
    # vectors in other types
    e = rng.integers(0, 2, 2 * n)
    f = rng.integers(0, 2, 2 * n)
    t = ROWS[rng.integers(len(ROWS))]
    es, fs = layout(e.astype(t), LAYOUTS[rng.integers(6)]), layout(f.astype(ROWS[rng.integers(len(ROWS))]), LAYOUTS[rng.integers(6)])
    m.ok(StabilizerCode.inner_prod(es, fs) == ref.symp(e, f), "codes", "symplectic product of %s and %s" % (es.dtype, fs.dtype))
    m.ok(StabilizerCode.binary_rep_to_pauli_str(es) == ref.letters(e), "codes", "letters of %s" % es.dtype)
    m.close(StabilizerCode.binary_rep_to_pauli_mat(layout(np.array([e, f]).astype(t), LAYOUTS[rng.integers(6)]))[0], ref.pmat(e), "codes",
            tol=0, msg="matrix")
    # errors as real and integer matrices
    if n <= 4:
        err = ref.pmat(e)
        es2, eh, _ = stored(rng, err, single=False)
        anti = [r for r in rows if ref.symp(e, r)]
        got = c.kraus_operators_correcting_errors([es2], sparse=False)
        m.close(ref.todense(got[0]), ref.pmat(anti[0]) @ err if anti else err, "codes", tol=1e-9, msg="correcting operator, error as " + eh)


@scenario("C30", 100, 1400)
def circuit_storage(m, rng, idx):
    n = int(rng.integers(1, 5))
    k = int(rng.integers(0, n))
    rows = gen.code(rng, n, k)
    n, k = rows.shape[1] // 2, rows.shape[1] // 2 - len(rows)
    g, how = rows_stored(rng, rows)
    m.case(code=rows, storage=how)
    c = StabilizerCode(g, n, k)
    plain = StabilizerCode([ref.letters(r) for r in rows], n, k)
    s, q = Sim(rng, n), Sim(rng, n)
    bitsx = [int(x) for x in rng.integers(0, 2, k)]
    form = idx % 4
    given = bitsx if form == 0 else np.array(bitsx, dtype=ROWS[rng.integers(len(ROWS))]) if form < 3 else tuple(bitsx)
    m.event("state as %s" % type(given).__name__)
    c.encoding_circuit(s.eng, s.reg, given)
    plain.encoding_circuit(q.eng, q.reg, bitsx)
    v = s.state(s.reg)
    m.close(v, q.state(q.reg), "circuits", tol=1e-9, msg="encoding")
    e = rng.integers(0, 2, 2 * n)
    t = ROWS[rng.integers(len(ROWS))]
    es = layout(e.astype(t), LAYOUTS[rng.integers(6)])
    if idx % 3 == 0:
        es = [x for x in es]
    c.apply_stabilizer_circuit(s.eng, s.reg, es)
    true = ref.kron_all([{"I": ref.PI, "X": ref.PX, "Y": ref.PY, "Z": ref.PZ}[x] for x in ref.letters(e)])
    m.close(s.state(s.reg), true @ v, "circuits", tol=1e-9, msg="Pauli circuit from %s" % t)
    for r in plain.normal_form:
        rs = layout(np.asarray(r).astype(ROWS[rng.integers(len(ROWS))]), LAYOUTS[rng.integers(6)])
        m.ok(c.single_syndrome_measurement(s.eng, s.reg, rs) == ref.symp(e, np.asarray(r).astype(int)), "circuits",
             "syndrome of %s as %s" % (ref.letters(np.asarray(r).astype(int)), rs.dtype))
    s.free(s.reg)
    q.free(q.reg)
