"""C01-C09, C14 (channels) and C29: channel monitors against the reference model."""
import numpy as np
from sparse import COO

import gen
import ref
from vlib import rule, scenario
from PyQCodes.chan.channel import AnalyticQChan
from PyQCodes.chan._choi import ChoiQutip
from PyQCodes.chan._kraus import DenseKraus, SparseKraus

FORMS = ("list", "array", "sparse-list", "sparse-array", "sparse-coo")


def build(kraus, nq, di, do, form="list", orth=()):
    if form == "list":
        op = [np.array(k) for k in kraus]
    elif form == "array":
        op = np.array(kraus, dtype=complex)
    elif form == "sparse-list":
        op = [np.array(k) for k in kraus]
    elif form == "sparse-array":
        op = np.array(kraus, dtype=complex)
    else:
        op = COO(np.array(kraus, dtype=complex))
    if orth:
        return AnalyticQChan(op, list(nq), di, do, orthogonal_krauss=orth)
    return AnalyticQChan(op, list(nq), di, do, sparse=form.startswith("sparse"))


def some_channel(rng, multi=0.35, mmax=4):
    """(kraus, nq, di, do, kind)"""
    if rng.random() < multi:
        k, nq, di, do = gen.multi_channel(rng)
        return k, nq, di, do, "multi%s%s%s" % (nq, di, do)
    k, di, do, kind = gen.channel(rng, mmax=mmax)
    return k, [1, 1], di, do, kind


def max_n(k, nq, di, do, cap=3e5, top=4):
    """Largest n such that the exchange tensor of the n-use channel stays small."""
    m, a, b = len(k), di ** nq[0], do ** nq[1]
    n = 1
    while n < top and (m * a) ** (2 * (n + 1)) <= cap and (m * a * b) ** (n + 1) <= 4e4 \
            and max(a, b) ** (n + 1) <= 64:
        n += 1
    return n


def pick_n(rng, k, nq, di, do, **kw):
    return int(rng.integers(1, max_n(k, nq, di, do, **kw) + 1))


def describe(m, k, nq, di, do, kind, form, n, **kw):
    m.case(kraus=np.array(k), nq=list(nq), dims=[di, do], kind=kind, form=form, n=n, **kw)
    m.event("kind:" + kind, "form:" + form, "n=%d" % n)


# ------------------------------------------------------------------------------------------ C01

rule("C01", "random channels (Haar, Pauli, damping, dephrasure, erasure, unitary, measuring, redundant, "
     "multi-particle) x container x n uses x states of every rank; non-trivial: every distinct "
     "(Kraus set, n, state)",
     {"output": 100, "adjoint": 100, "batch": 40, "batch-adjoint": 40, "duality": 100})


@scenario("C01", 420, 6000)
def action(m, rng, idx):
    k, nq, di, do, kind = some_channel(rng)
    form = FORMS[idx % len(FORMS)]
    n = pick_n(rng, k, nq, di, do)
    r, rk = gen.rho(rng, (di ** nq[0]) ** n)
    describe(m, k, nq, di, do, kind, form, n, rho=r)
    m.event("rho:" + rk)
    c = build(k, nq, di, do, form)
    kn = ref.power(k, n)
    out = np.asarray(ref.todense(c.channel(r, n)))
    m.close(out, ref.apply(kn, r), "output", msg="channel output")
    m.ok(abs(np.trace(out) - 1) < 1e-7 and ref.is_psd(out, 1e-7), "output-is-state")
    op = gen.herm(rng, (do ** nq[1]) ** n)
    ad = ref.todense(c.channel(op, n, adjoint=True))
    m.close(ad, ref.apply_adjoint(kn, op), "adjoint", msg="adjoint output")
    m.ok(abs(np.trace(op @ out) - np.trace(ad @ r)) < 1e-7 * max(1, np.abs(op).max()), "duality")
    one = ref.todense(c.channel(np.eye((do ** nq[1]) ** n, dtype=complex), n, True))
    m.close(one, np.eye((di ** nq[0]) ** n), "unital-adjoint")


@scenario("C01", 160, 2400)
def batches(m, rng, idx):
    k, nq, di, do, kind = some_channel(rng)
    form = FORMS[idx % len(FORMS)]
    n = pick_n(rng, k, nq, di, do, top=3)
    a, b = (di ** nq[0]) ** n, (do ** nq[1]) ** n
    size = int(rng.choice([1, 2, 3, 5, a]))
    if idx % 4 == 0 and a * b <= 64:
        size = int(rng.integers(6, 150))
    rs = np.array([gen.rho(rng, a)[0] for _ in range(size)])
    ops = np.array([gen.herm(rng, b) for _ in range(size)])
    describe(m, k, nq, di, do, kind, form, n, rhos=rs)
    m.event("batch=%d" % size if size < 6 else "large batch")
    c = build(k, nq, di, do, form)
    kn = ref.power(k, n)
    m.close(c.channel(rs, n), np.array([ref.apply(kn, r) for r in rs]), "batch")
    m.close(c.channel(ops, n, adjoint=True), np.array([ref.apply_adjoint(kn, o) for o in ops]),
            "batch-adjoint")
    # positional adjoint flag, Kraus object used directly
    ks = c.krauss
    m.close(ks.channel(rs[0]), ref.apply(kn, rs[0]), "output")
    m.close(ks.channel(ops[0], True), ref.apply_adjoint(kn, ops[0]), "adjoint")


@scenario("C01", 40, 500)
def kraus_objects(m, rng, idx):
    """The Kraus classes used on their own (documented interface)."""
    k, nq, di, do, kind = some_channel(rng)
    cls = (DenseKraus, SparseKraus)[idx % 2]
    describe(m, k, nq, di, do, kind, cls.__name__, 1)
    o = cls([np.array(x) for x in k], list(nq), di, do)
    m.ok(bool(o.is_trace_perserving()), "trace-preserving")
    m.ok(len(o) == len(k), "length")
    n = max_n(k, nq, di, do)
    for u in [int(x) for x in rng.integers(1, n + 1, 3)]:
        o.update_kraus_operators(u)
        r, _ = gen.rho(rng, (di ** nq[0]) ** u)
        m.close(o.channel(r), ref.apply(ref.power(k, u), r), "output", msg="after update to %d" % u)
    bad = [np.array(x) for x in k]
    bad[int(rng.integers(len(bad)))] = bad[0] * 1.3 + 0.1
    m.ok(not cls(bad, list(nq), di, do).is_trace_perserving(), "trace-preserving",
         "a map that is not trace preserving is reported as such")


# ------------------------------------------------------------------------------------------ C02

rule("C02", "random histories of 8-20 public operations on one channel object with n moving up and down "
     "in 1..4, each result compared with a fresh object and the n-use operators with the tensor "
     "products; non-trivial: distinct (channel, history) in which n changes at least twice",
     {"fresh": 300, "nth-operators": 200, "dimensions": 200})


def _ops():
    def rho_n(rng, s, n):
        return gen.rho(rng, s["a"] ** n)[0]

    def o_channel(c, x, n): return c.channel(x["rho"], n)
    def o_adjoint(c, x, n): return c.channel(x["op"], n, adjoint=True)
    def o_batch(c, x, n): return c.channel(np.array([x["rho"], x["rho"].T]), n)
    def o_exch(c, x, n): return c.entropy_exchange(x["rho"], n)[0]
    def o_exadj(c, x, n): return c.entropy_exchange(x["env"], n, True)
    def o_coh(c, x, n): return c.coherent_information(x["rho"], n)
    def o_reg(c, x, n): return c.coherent_information(x["rho"], n, regularized=True)
    def o_fid(c, x, n): return c.fidelity_two_states(x["rho"], n)
    return {"channel": o_channel, "adjoint": o_adjoint, "batch": o_batch, "exchange": o_exch,
            "exchange-adjoint": o_exadj, "coherent": o_coh, "regularized": o_reg, "fidelity": o_fid}


OPS = _ops()


def inputs_for(rng, k, nq, di, do, n):
    a, b = (di ** nq[0]) ** n, (do ** nq[1]) ** n
    e = len(k) ** n
    env = rng.normal(size=(e, e)) + 1j * rng.normal(size=(e, e))
    return {"rho": gen.rho(rng, a)[0], "op": gen.herm(rng, b), "env": env}


def small_channel(rng):
    while True:
        k, nq, di, do, kind = some_channel(rng, multi=0.2, mmax=3)
        if max_n(k, nq, di, do, cap=2e6) >= 2:
            return k, nq, di, do, kind


@scenario("C02", 70, 1200)
def histories(m, rng, idx):
    k, nq, di, do, kind = small_channel(rng)
    form = FORMS[idx % len(FORMS)]
    top = max_n(k, nq, di, do, cap=2e6)
    c = build(k, nq, di, do, form)
    length = int(rng.integers(8, 21))
    names = list(OPS)
    if di ** nq[0] != do ** nq[1]:
        names.remove("fidelity")
    script = []
    for _ in range(length):
        w = rng.random()
        if w < 0.12:
            script.append(("update", int(rng.integers(1, top + 1))))
        elif w < 0.17 and idx % 4 == 0:
            script.append(("optimize", 1 if (di ** nq[0]) > 2 else int(rng.integers(1, 3))))
        else:
            script.append((names[rng.integers(len(names))], int(rng.integers(1, top + 1))))
    ns = [s[1] for s in script]
    changes = sum(1 for a, b in zip([1] + ns, ns) if a != b)
    m.case(nontrivial=changes >= 2, kraus=np.array(k), nq=list(nq), dims=[di, do], form=form,
           script=script)
    last = 1
    for step, (name, n) in enumerate(script):
        m.event("op:" + name, "n %d->%d" % (last, n))
        if name == "update":
            c.krauss.update_kraus_operators(n)
        elif name == "optimize":
            vec = rng.uniform(-1, 1, 2 * (di ** nq[0]) ** n)
            c.optimize_coherent(n, 1, optimizer="slsqp", samples=[vec], maxiter=2)
        else:
            x = inputs_for(rng, k, nq, di, do, n)
            got = OPS[name](c, x, n)
            fresh = OPS[name](build(k, nq, di, do, form), x, n)
            tol = 1e-6 if name == "fidelity" else 1e-8
            m.close(got, fresh, "fresh", tol=tol,
                    msg="%s with n=%d at step %d of %s" % (name, n, step, script))
        last = n
        if rng.random() < 0.5:
            m.close(c.nth_kraus_operators, np.array(ref.power(k, n)), "nth-operators",
                    msg="n-use operators after %s" % script[:step + 1])
            m.ok(c.input_dimension == (di ** nq[0]) ** n and
                 c.output_dimension == (do ** nq[1]) ** n, "dimensions",
                 "reported %s, %s for n=%d" % (c.input_dimension, c.output_dimension, n))
    m.close(c.kraus, np.array(k), "single-use-operators")
    m.ok(c.numb_krauss == len(k) and c.dim_in == di and c.dim_out == do and
         list(c.numb_qubits) == list(nq), "dimensions", "single-use attributes after a history")


@scenario("C02", 48, 700)
def transitions(m, rng, idx):
    """Every ordered pair and triple of use counts, every cache observed after each."""
    k = gen.channel(rng, kind=("ampdamp", "dephrasure", "haar", "unitary", "gad")[idx % 5],
                    din=2, dout=2, mmax=2)
    k, di, do, kind = k
    form = FORMS[(idx // 5) % len(FORMS)]
    top = max_n(k, [1, 1], di, do, cap=2e6)
    walk = [int(x) for x in rng.integers(1, top + 1, 7)]
    m.case(nontrivial=len(set(walk)) > 1, kraus=np.array(k), form=form, walk=walk)
    c = build(k, [1, 1], di, do, form)
    for j, n in enumerate(walk):
        x = inputs_for(rng, k, [1, 1], di, do, n)
        kn = ref.power(k, n)
        which = rng.permutation(4)[:2]
        for w in which:
            if w == 0:
                m.close(c.channel(x["rho"], n), ref.apply(kn, x["rho"]), "fresh", msg=str(walk[:j + 1]))
            elif w == 1:
                m.close(c.channel(x["op"], n, True), ref.apply_adjoint(kn, x["op"]), "fresh",
                        msg=str(walk[:j + 1]))
            elif w == 2:
                m.close(c.entropy_exchange(x["rho"], n)[0], ref.exchange(kn, x["rho"]), "fresh",
                        msg=str(walk[:j + 1]))
            else:
                m.close(c.coherent_information(x["rho"], n), ref.coherent(kn, x["rho"]), "fresh",
                        msg=str(walk[:j + 1]))
        m.close(c.nth_kraus_operators, np.array(kn), "nth-operators", msg=str(walk[:j + 1]))
        m.ok((c.input_dimension, c.output_dimension) == (di ** n, do ** n), "dimensions")
        m.event("n=%d" % n)


@scenario("C02", 30, 400)
def orthogonal_histories(m, rng, idx):
    """Histories on a channel with declared orthogonal groups: the blocks follow n."""
    k, splits, di, do = gen.orthogonal_channel(rng)
    top = max_n(k, [1, 1], di, do, cap=2e6)
    walk = [int(x) for x in rng.integers(1, top + 1, 6)]
    m.case(nontrivial=len(set(walk)) > 1, kraus=np.array(k), splits=splits, walk=walk)
    c = build(k, [1, 1], di, do, "list", orth=splits)
    for j, n in enumerate(walk):
        r = gen.rho(rng, di ** n)[0]
        got = c.entropy_exchange(r, n)
        fresh = build(k, [1, 1], di, do, "list", orth=splits).entropy_exchange(r, n)
        m.ok(len(got) == len(fresh), "fresh")
        for g, f in zip(got, fresh):
            m.close(g, f, "fresh", msg=str(walk[:j + 1]))
        m.close(c.coherent_information(r, n), ref.coherent(ref.power(k, n), r), "fresh")
        m.ok((c.input_dimension, c.output_dimension) == (di ** n, do ** n), "dimensions")


# ------------------------------------------------------------------------------------------ C03

rule("C03", "random channels x n x complex states: W_ij = Tr(A_i rho A_j^dag) from the reported n-use "
     "operators; declared orthogonal groups of 2-5 sets; adjoint against the dual formula; "
     "non-trivial: distinct (Kraus set, n, state) with at least two Kraus operators",
     {"exchange": 150, "blocks": 60, "adjoint": 100, "exchange-is-state": 150})


@scenario("C03", 330, 5000)
def exchange(m, rng, idx):
    k, nq, di, do, kind = some_channel(rng)
    form = FORMS[idx % len(FORMS)]
    n = pick_n(rng, k, nq, di, do)
    r, rk = gen.rho(rng, (di ** nq[0]) ** n)
    m.case(nontrivial=len(k) > 1, kraus=np.array(k), nq=list(nq), dims=[di, do], form=form, n=n, rho=r)
    m.event("kind:" + kind, "form:" + form, "n=%d" % n, "rho:" + rk)
    c = build(k, nq, di, do, form)
    w = c.entropy_exchange(r, n)
    m.ok(isinstance(w, list) and len(w) == 1, "exchange-list", "one block is expected")
    w = ref.todense(w[0])
    m.close(w, ref.exchange(ref.power(k, n), r), "exchange")
    m.ok(abs(np.trace(w) - 1) < 1e-7 and ref.is_psd(w, 1e-7), "exchange-is-state")
    env = rng.normal(size=w.shape) + 1j * rng.normal(size=w.shape)
    if idx % 3 == 0:
        env = (env + ref.dag(env)) / 2
    if w.shape[0] <= 32:
        e = ref.todense(c.entropy_exchange(env, n, adjoint=True))
        kn = ref.power(k, n)
        want = sum(env[i, j] * ref.dag(kn[i]) @ kn[j] for i in range(len(kn)) for j in range(len(kn)))
        m.close(e, want, "adjoint", tol=1e-6)
        # the adjoint in the sense of the pairing sum_ij M_ij W_ji... of the defining formula
        m.ok(abs(np.trace(e @ r) - np.sum(env.T * w)) < 1e-6, "adjoint-pairing")


@scenario("C03", 110, 1600)
def orthogonal_blocks(m, rng, idx):
    k, splits, di, do = gen.orthogonal_channel(rng)
    n = pick_n(rng, k, [1, 1], di, do, top=3)
    r, rk = gen.rho(rng, di ** n)
    m.case(kraus=np.array(k), splits=splits, n=n, rho=r)
    m.event("groups=%d" % (len(splits) + 1), "n=%d" % n, "group sizes %s of %d" % (splits, len(k)))
    c = build(k, [1, 1], di, do, ("list", "array")[idx % 2], orth=splits)
    full = ref.exchange(ref.power(k, n), r)
    blocks = c.entropy_exchange(r, n)
    m.ok(len(blocks) == len(splits) + 1, "blocks", "%d blocks for %d groups" % (len(blocks), len(splits) + 1))
    edges = [0] + [s * len(k) ** (n - 1) for s in splits] + [len(k) ** n]
    for b, lo, hi in zip(blocks, edges, edges[1:]):
        m.close(b, full[lo:hi, lo:hi], "blocks", msg="block %d:%d" % (lo, hi))
    m.ok(abs(sum(np.trace(np.asarray(b)) for b in blocks) - 1) < 1e-7, "exchange-is-state")
    env = rng.normal(size=full.shape) + 1j * rng.normal(size=full.shape)
    kn = ref.power(k, n)
    if len(kn) <= 32:
        m.close(c.entropy_exchange(env, n, adjoint=True),
                sum(env[i, j] * ref.dag(kn[i]) @ kn[j] for i in range(len(kn)) for j in range(len(kn))),
                "adjoint", tol=1e-6)
    # the documented examples: dephrasure and erasure
    p, q = rng.uniform(0.01, 0.99, 2)
    for ks, sp in ((gen.dephrasure(p, q), [2]), (gen.erasure(q), [1])):
        c = build(ks, [1, 1], 2, 3, "list", orth=sp)
        nn = int(rng.integers(1, 4))
        r = gen.rho(rng, 2 ** nn)[0]
        full = ref.exchange(ref.power(ks, nn), r)
        cut = sp[0] * len(ks) ** (nn - 1)
        b = c.entropy_exchange(r, nn)
        m.close(b[0], full[:cut, :cut], "blocks")
        m.close(b[1], full[cut:, cut:], "blocks")
        off = full[:cut, cut:]
        m.ok(np.abs(off).max() < 1e-9, "groups-are-orthogonal")


# ------------------------------------------------------------------------------------------ C04

rule("C04", "every operation both representations offer, run on a dense and a sparse object (given lists, "
     "arrays, sparse arrays) built from the same random Kraus set along a random history; non-trivial: "
     "distinct (channel, history)",
     {"agree": 400, "agree-batch": 40, "agree-attributes": 60, "agree-composition": 40})


@scenario("C04", 110, 1600)
def agreement(m, rng, idx):
    k, nq, di, do, kind = some_channel(rng)
    top = max_n(k, nq, di, do)
    form = ("sparse-list", "sparse-array", "sparse-coo")[idx % 3]
    d = build(k, nq, di, do, "list")
    s = build(k, nq, di, do, form)
    walk = [int(x) for x in rng.integers(1, top + 1, 4)]
    describe(m, k, nq, di, do, kind, form, walk[0], walk=walk)
    for n in walk:
        x = inputs_for(rng, k, nq, di, do, n)
        names = [o for o in OPS if not (o == "fidelity" and di ** nq[0] != do ** nq[1])]
        for name in names:
            if name == "batch":
                m.close(OPS[name](s, x, n), OPS[name](d, x, n), "agree-batch", msg=name)
                ops = np.array([x["op"], x["op"].T])
                m.close(s.channel(ops, n, True), d.channel(ops, n, True), "agree-batch", msg="adjoint batch")
                continue
            m.close(OPS[name](s, x, n), OPS[name](d, x, n), "agree",
                    tol=1e-6 if name == "fidelity" else 1e-8, msg="%s n=%d" % (name, n))
        out = s.channel(x["rho"], n)
        m.close(s.entropy(out), d.entropy(d.channel(x["rho"], n)), "agree", msg="entropy")
        m.close(s.entropy(s.entropy_exchange(x["rho"], n)), d.entropy(d.entropy_exchange(x["rho"], n)),
                "agree", msg="entropy of exchange")
        m.close(s.nth_kraus_operators, d.nth_kraus_operators, "agree", msg="n-use operators")
        m.ok((s.input_dimension, s.output_dimension, s.numb_krauss, s.dim_in, s.dim_out) ==
             (d.input_dimension, d.output_dimension, d.numb_krauss, d.dim_in, d.dim_out) and
             list(s.numb_qubits) == list(d.numb_qubits), "agree-attributes")
        m.close(s.kraus, d.kraus, "agree-attributes")


@scenario("C04", 60, 900)
def composition_agreement(m, rng, idx):
    a, di, do, kind = gen.channel(rng, mmax=2)
    b, _, _, _ = gen.channel(rng, din=do, dout=2, kind=("haar", "real", "measure")[idx % 3], mmax=2)
    bi, bo = b[0].shape[1], b[0].shape[0]
    form = ("sparse-list", "sparse-array", "sparse-coo")[idx % 3]
    m.case(a=np.array(a), b=np.array(b), form=form)
    da, db = build(a, [1, 1], di, do), build(b, [1, 1], bi, bo)
    sa, sb = build(a, [1, 1], di, do, form), build(b, [1, 1], bi, bo, form)
    r = gen.rho(rng, di)[0]
    for s, d, x in ((sb + sa, db + da, r), (sa * sb, da * db, gen.rho(rng, di * bi)[0])):
        m.close(s.channel(x, 1), d.channel(x, 1), "agree-composition")
        m.close(s.kraus, d.kraus, "agree-composition", msg="operators")
        m.close(s.coherent_information(x, 1), d.coherent_information(x, 1), "agree-composition")
        m.ok((s.input_dimension, s.output_dimension, s.dim_in, s.dim_out) ==
             (d.input_dimension, d.output_dimension, d.dim_in, d.dim_out), "agree-attributes")
    if len(a) * len(b) <= 4 and di * bo <= 6:
        x = gen.rho(rng, di ** 2)[0]
        m.close((sb + sa).channel(x, 2), (db + da).channel(x, 2), "agree-composition", msg="two uses")
    ks = [np.array(x) for x in a]
    bad = [x.copy() for x in ks]
    bad[-1] = bad[-1] + 0.05
    for z in (ks, bad):
        m.ok(bool(SparseKraus(z, [1, 1], di, do).is_trace_perserving()) ==
             bool(DenseKraus(z, [1, 1], di, do).is_trace_perserving()), "agree-attributes")
    # Kraus-class level operators
    x = gen.rho(rng, di)[0]
    s = SparseKraus(b, [1, 1], bi, bo) + SparseKraus(a, [1, 1], di, do)
    d = DenseKraus(b, [1, 1], bi, bo) + DenseKraus(a, [1, 1], di, do)
    m.close(s.channel(x), d.channel(x), "agree-composition", msg="Kraus objects, serial")
    x = gen.rho(rng, di * bi)[0]
    s = SparseKraus(a, [1, 1], di, do) * SparseKraus(b, [1, 1], bi, bo)
    d = DenseKraus(a, [1, 1], di, do) * DenseKraus(b, [1, 1], bi, bo)
    m.close(s.channel(x), d.channel(x), "agree-composition", msg="Kraus objects, parallel")
    m.close(s.entropy_exchange(x, 1)[0], d.entropy_exchange(x, 1)[0], "agree-composition")


# ------------------------------------------------------------------------------------------ C05

rule("C05", "Choi matrices of random channels with equal and unequal particle numbers and dimensions, acting on "
     "states of every rank and observables, against the generating Kraus operators; invalid Choi matrices; "
     "non-trivial: distinct (Choi matrix, state)",
     {"output": 100, "adjoint": 100, "regenerate": 100, "rejected": 60, "attributes": 100})


@scenario("C05", 2400, 32000)
def choi_vs_kraus(m, rng, idx):
    k, nq, di, do, kind = some_channel(rng, multi=0.5)
    a, b = di ** nq[0], do ** nq[1]
    ch = ref.choi(k)
    r, rk = gen.rho(rng, a)
    m.case(choi=ch, nq=list(nq), dims=[di, do], rho=r)
    m.event("kind:" + kind, "rho:" + rk, "in %d out %d" % (a, b))
    c = AnalyticQChan(np.array(ch), list(nq), di, do)
    m.close(c.channel(r, 1), ref.apply(k, r), "output")
    op = gen.herm(rng, b)
    m.close(c.channel(op, 1, adjoint=True), ref.apply_adjoint(k, op), "adjoint", tol=1e-6)
    ks = c.kraus
    m.close(ref.choi(ks), ch, "regenerate", tol=1e-6)
    m.close(sum(ref.dag(x) @ x for x in ks), np.eye(a), "regenerate", tol=1e-6, msg="trace preservation")
    m.close(ref.apply(ks, r), ref.apply(k, r), "regenerate", tol=1e-6)
    m.ok((c.input_dimension, c.output_dimension, c.dim_in, c.dim_out) == (a, b, di, do) and
         list(c.numb_qubits) == list(nq), "attributes")
    # a Kraus channel built from the reported operators is the same channel
    c2 = AnalyticQChan([np.array(x) for x in ks], list(nq), di, do)
    m.close(c2.channel(r, 1), ref.apply(k, r), "output", tol=1e-6)
    if a == b:
        m.close(c.fidelity_two_states(r, 1), ref.fidelity(r, ref.apply(k, r)), "fidelity", tol=1e-6)
    m.close(c.coherent_information(r, 1), ref.coherent(k, r), "coherent", tol=2e-5)


@scenario("C05", 240, 2400)
def choi_class(m, rng, idx):
    """The Choi class on its own, as the encoder and recovery optimisation uses it."""
    k, nq, di, do, kind = some_channel(rng, multi=0.5)
    a, b = di ** nq[0], do ** nq[1]
    ch = ref.choi(k)
    r, rk = gen.rho(rng, a)
    m.case(choi=ch, nq=list(nq), dims=[di, do], rho=r)
    m.event("class rho:" + rk)
    given = np.array(ch)
    c = ChoiQutip(given, list(nq), di, do)
    given *= 0                                   # the caller's array is the caller's
    m.ok((c.input_dim, c.output_dim, c.num_in, c.num_out) == (a, b, nq[0], nq[1]) and list(c.numb_qubits) == list(nq), "attributes")
    m.close(c.channel(r), ref.apply(k, r), "output", msg="Choi class")
    m.close(c.channel(r, False), ref.apply(k, r), "output", msg="Choi class")
    op = gen.herm(rng, b)
    m.close(c.channel(op, True), ref.apply_adjoint(k, op), "adjoint", tol=1e-6, msg="Choi class")
    ks = c.kraus_operators()
    m.close(ref.choi(ks), ch, "regenerate", tol=1e-6, msg="Choi class")
    # the partial trace said to give the identity for trace-preserving maps does so
    out, dims = ChoiQutip.constraint_partial_trace(list(nq), di, do)
    shape = [int(x[0]) for x in dims] + [int(x[1]) for x in dims]
    left = np.trace(ch.reshape(shape), axis1=out, axis2=out + 2) if int(np.prod(shape)) == ch.size else np.zeros(0)
    m.ok(left.shape == (a, a) and np.allclose(left, np.eye(a)), "attributes", "partial trace for trace preservation: %r, %r" % (out, dims))
    # (I x channel) of the purification of r: the isometric extension in reference, output
    root = ref.psd_sqrt(r)
    joint = sum(np.outer(v, v.conj()) for v in ((x @ root).reshape(-1, order="F") for x in k))
    got = c.complementary_channel(r)
    m.ok(np.shape(got) == np.shape(joint), "output", "complementary channel of the Choi class has shape %s" % (np.shape(got),))
    m.close(got, joint, "output", tol=1e-5, msg="complementary channel of the Choi class")
    if a == b:
        p = rng.dirichlet(np.ones(3))
        st = [gen.rho(rng, a)[0] for _ in p]
        # sum of |tr(K rho)|^2
        want = sum(w * sum(abs(np.trace(x @ s)) ** 2 for x in k) for w, s in zip(p, st))
        m.close(c.average_entanglement_fidelity(list(p), st), want, "fidelity", tol=1e-6, msg="Choi class")


@scenario("C05", 480, 6400)
def choi_rejected(m, rng, idx):
    k, nq, di, do, kind = some_channel(rng, multi=0.4)
    a, b = di ** nq[0], do ** nq[1]
    ch = ref.choi(k)
    m.case(choi=ch, fault=idx % 5)
    m.event("fault %d" % (idx % 5))
    eps = float(rng.choice([1e-3, 0.05, 0.5]))
    if idx % 5 == 0:                 # not trace preserving
        m.raises(lambda: AnalyticQChan(ch * (1 + eps), list(nq), di, do), "rejected", "scaled Choi matrix")
    elif idx % 5 == 1:               # CP, right total trace, not TP
        t = np.zeros((a, a))
        t[0, 0], t[-1, -1] = eps, -eps
        bad = ch + np.kron(t, np.eye(b)) / b
        m.raises(lambda: AnalyticQChan(bad, list(nq), di, do), "rejected", "not trace preserving")
    elif idx % 5 == 2:               # TP but not CP: add a traceless direction that makes it indefinite
        v = gen.herm(rng, b)
        v -= np.trace(v) / b * np.eye(b)
        bad = ch + 3 * np.kron(np.eye(a), v / np.abs(np.linalg.eigvalsh(v)).max())
        m.raises(lambda: AnalyticQChan(bad, list(nq), di, do), "rejected", "not completely positive")
    elif idx % 5 == 3:               # the transposition map
        d = 2
        sw = sum(np.kron(np.outer(np.eye(d)[i], np.eye(d)[j]), np.outer(np.eye(d)[j], np.eye(d)[i]))
                 for i in range(d) for j in range(d))
        m.raises(lambda: AnalyticQChan(sw.astype(complex), [1, 1], 2, 2), "rejected", "transposition map")
    else:                            # wrong dimensions
        m.raises(lambda: AnalyticQChan(ch, list(nq), di, do + 1), "rejected", "dimensions")
        m.raises(lambda: AnalyticQChan(ch, [nq[0] + 1, nq[1]], di, do), "rejected", "particles")
    m.raises(lambda: AnalyticQChan(np.array(ch), list(nq), di, do).channel(gen.rho(rng, a ** 2)[0], 2),
             "rejected", "two uses of a Choi channel")
    # nor is the answer for one use given when more uses are asked for
    c = AnalyticQChan(np.array(ch), list(nq), di, do)
    r, u = gen.rho(rng, a)[0], int(rng.integers(2, 5))
    m.raises(lambda: c.channel(r, u), "rejected", "%d uses of a Choi channel" % u)
    m.raises(lambda: c.channel(gen.herm(rng, b), u, adjoint=True), "rejected", "%d uses of a Choi channel, adjoint" % u)
    m.raises(lambda: c.coherent_information(r, u), "rejected", "%d uses of a Choi channel, coherent information" % u)
    if a == b:
        m.raises(lambda: c.fidelity_two_states(r, u), "rejected", "%d uses of a Choi channel, fidelity" % u)


# ------------------------------------------------------------------------------------------ C06

rule("C06", "random expressions of + and * (depth up to 3) over random channels with asymmetric dimensions, "
     "dense, sparse and mixed; static concatenations of lists and arrays; mismatches; non-trivial: distinct "
     "expressions with at least two different channels",
     {"action": 120, "operators": 120, "dimensions": 120, "static": 60, "rejected": 30})


class Node:
    """A composed channel next to its reference Kraus list."""

    def __init__(self, chan, kraus, text):
        self.chan, self.kraus, self.text = chan, kraus, text

    @property
    def a(self):
        return self.kraus[0].shape[1]

    @property
    def b(self):
        return self.kraus[0].shape[0]


def _leaf(rng, din=None, mix=True, multi=True):
    form = FORMS[rng.integers(len(FORMS))] if mix else "list"
    if multi and rng.random() < 0.3:
        for _ in range(20):
            k, nq, di, do = gen.multi_channel(rng, mmax=2)
            if din is None or di ** nq[0] == din:
                return Node(build(k, nq, di, do, form), k, "L%s" % (nq,))
    din = din or int(rng.integers(2, 4))
    if din > 4:
        k = [gen.haar(rng, din)] if rng.random() < 0.5 else gen.isometry_channel(rng, din, 2, -(-din // 2))
    else:
        kinds = ["haar", "real", "unitary", "measure"] + (["ampdamp", "dephrasure", "pauli"] if din == 2 else [])
        k = gen.channel(rng, din=din, kind=kinds[rng.integers(len(kinds))], mmax=2)[0]
    di, do = k[0].shape[1], k[0].shape[0]
    return Node(build(k, [1, 1], di, do, form), k, "L%d>%d%s" % (di, do, form[0]))


def _grow(rng, node, depth, mix):
    for _ in range(depth):
        w = rng.random()
        if w < 0.55:
            other = _leaf(rng, din=node.b, mix=mix)            # other after node
            node = Node(other.chan + node.chan, [x @ y for x in other.kraus for y in node.kraus],
                        "(%s + %s)" % (other.text, node.text))
        else:
            other = _leaf(rng, din=2, mix=mix, multi=False)
            if rng.random() < 0.5:
                node = Node(node.chan * other.chan, [np.kron(x, y) for x in node.kraus for y in other.kraus],
                            "(%s * %s)" % (node.text, other.text))
            else:
                node = Node(other.chan * node.chan, [np.kron(x, y) for x in other.kraus for y in node.kraus],
                            "(%s * %s)" % (other.text, node.text))
        if len(node.kraus) > 24 or node.a * node.b > 150:
            break
    return node


@scenario("C06", 170, 2500)
def expressions(m, rng, idx):
    mix = idx % 3 != 0
    node = _grow(rng, _leaf(rng, mix=mix), 1 + idx % 3, mix)
    r = gen.rho(rng, node.a)[0]
    m.case(expr=node.text, kraus=np.array(node.kraus), rho=r)
    m.event("depth=%d" % (1 + idx % 3))
    c = node.chan
    m.close(c.channel(r, 1), ref.apply(node.kraus, r), "action", msg=node.text)
    m.close(c.kraus, np.array(node.kraus), "operators", msg=node.text)
    m.ok(c.input_dimension == node.a and c.output_dimension == node.b and
         c.dim_in ** c.numb_qubits[0] == node.a and c.dim_out ** c.numb_qubits[1] == node.b and
         c.numb_krauss == len(node.kraus), "dimensions",
         "%s reports in %s out %s" % (node.text, c.input_dimension, c.output_dimension))
    op = gen.herm(rng, node.b)
    m.close(c.channel(op, 1, adjoint=True), ref.apply_adjoint(node.kraus, op), "action", msg="adjoint " + node.text)
    m.close(c.coherent_information(r, 1), ref.coherent(node.kraus, r), "action", tol=1e-6, msg="coherent")
    if (len(node.kraus) * node.a) ** 4 <= 3e5 and max(node.a, node.b) <= 6:
        r2 = gen.rho(rng, node.a ** 2)[0]
        m.close(c.channel(r2, 2), ref.apply(ref.power(node.kraus, 2), r2), "action", msg="two uses of " + node.text)
        m.ok(c.input_dimension == node.a ** 2 and c.output_dimension == node.b ** 2, "dimensions", "two uses")


@scenario("C06", 70, 900)
def composing_used_channels(m, rng, idx):
    """Composition of channels whose objects were used with n > 1 before."""
    form = FORMS[idx % len(FORMS)]
    a, di, do, _ = gen.channel(rng, kind=("ampdamp", "haar", "dephrasure")[idx % 3], din=2, dout=2, mmax=2)
    b = gen.channel(rng, kind="haar", din=do, dout=2, mmax=2)[0]
    ca, cb = build(a, [1, 1], di, do, form), build(b, [1, 1], do, 2, form)
    m.case(a=np.array(a), b=np.array(b), form=form)
    for c, d in ((ca, di), (cb, do)):
        n = int(rng.integers(1, 3))
        c.channel(gen.rho(rng, d ** n)[0], n)
    r = gen.rho(rng, di)[0]
    m.close((cb + ca).channel(r, 1), ref.apply([y @ x for y in b for x in a], r), "action", msg="used +")
    r = gen.rho(rng, di * do)[0]
    m.close((ca * cb).channel(r, 1), ref.apply([np.kron(x, y) for x in a for y in b], r), "action", msg="used *")
    m.ok((ca * cb).output_dimension == do * 2 and (cb + ca).input_dimension == di, "dimensions")
    # the operands are still what they were
    r = gen.rho(rng, di)[0]
    m.close(ca.channel(r, 1), ref.apply(a, r), "action", msg="operand after composing")
    # composing a channel with itself, three times
    if di == do:
        m.close((ca + ca + ca).channel(r, 1), ref.apply(a, ref.apply(a, ref.apply(a, r))), "action", msg="A+A+A")


@scenario("C06", 70, 900)
def static_functions(m, rng, idx):
    a = gen.channel(rng, mmax=3)[0]
    di, do = a[0].shape[1], a[0].shape[0]
    b = gen.channel(rng, din=do, kind="haar", mmax=3)[0]
    m.case(a=np.array(a), b=np.array(b))
    aa, bb = (list(a), list(b)) if idx % 2 else (np.array(a), np.array(b))
    for cls in (DenseKraus, SparseKraus):
        m.close(cls.serial_concatenate(bb, aa), np.array([y @ x for y in b for x in a]), "static", msg="serial")
        m.close(cls.parallel_concatenate(aa, bb), np.array([np.kron(x, y) for x in a for y in b]), "static",
                msg="parallel")
    m.close(SparseKraus.serial_concatenate(COO(np.array(b)), COO(np.array(a))),
            np.array([y @ x for y in b for x in a]), "static", msg="serial of sparse arrays")
    m.close(SparseKraus.parallel_concatenate(COO(np.array(a)), COO(np.array(b))),
            np.array([np.kron(x, y) for x in a for y in b]), "static", msg="parallel of sparse arrays")
    for cls in (DenseKraus, SparseKraus):
        oa, ob = cls(list(a), [1, 1], di, do), cls(list(b), [1, 1], do, b[0].shape[0])
        r = gen.rho(rng, di)[0]
        m.close((ob + oa).channel(r), ref.apply(b, ref.apply(a, r)), "action", msg="Kraus objects +")
        r = gen.rho(rng, di * do)[0]
        o = oa * ob
        m.close(o.channel(r), ref.apply([np.kron(x, y) for x in a for y in b], r), "action", msg="Kraus objects *")
        m.ok(o.input_dim == di * do and o.output_dim == do * b[0].shape[0] and o.numb_kraus == len(a) * len(b),
             "dimensions")


@scenario("C06", 60, 800)
def kraus_objects_and_choi(m, rng, idx):
    """Kraus objects on several particles, a channel composed with itself, a Choi channel as the second operand."""
    while True:
        a, nqa, dia, doa = gen.multi_channel(rng, mmax=2)
        if a[0].shape[0] <= 8 and a[0].shape[1] <= 8:
            break
    da, ea = a[0].shape[1], a[0].shape[0]
    b = gen.channel(rng, din=ea, kind="haar", dout=int(rng.integers(max(2, -(-ea // 2)), 5)), mmax=3)[0] if ea < 8 else \
        [gen.haar(rng, ea)]
    eb = b[0].shape[0]
    m.case(a=np.array(a), b=np.array(b), nq=list(nqa), dims=[dia, doa])
    m.event("nq=%s" % list(nqa))
    r = gen.rho(rng, da)[0]
    op = gen.herm(rng, eb)
    serial = [y @ x for y in b for x in a]
    for cls in (DenseKraus, SparseKraus):
        oa, ob = cls(list(a), list(nqa), dia, doa), cls(np.array(b), [1, 1], ea, eb)
        o = ob + oa
        m.close(o.channel(r), ref.apply(serial, r), "action", msg="Kraus objects +")
        m.close(o.channel(op, True), ref.apply_adjoint(serial, op), "action", msg="Kraus objects +, adjoint")
        m.ok(o.input_dim == da and o.output_dim == eb and len(o) == len(serial) and
             o.dim_in ** o.numb_qubits[0] == da and o.dim_out ** o.numb_qubits[1] == eb, "dimensions", "Kraus objects +")
        if da * ea <= 16:
            p = oa * ob
            want = [np.kron(x, y) for x in a for y in b]
            m.close(ref.todense(p.kraus_ops), np.array(want), "operators", msg="Kraus objects *")
            m.ok(p.input_dim == da * ea and p.output_dim == ea * eb and len(p) == len(want) and
                 p.dim_in ** p.numb_qubits[0] == da * ea and p.dim_out ** p.numb_qubits[1] == ea * eb, "dimensions",
                 "Kraus objects *")
        m.close(oa.channel(r), ref.apply(a, r), "action", msg="operand after composing")
    sa = build(a, nqa, dia, doa, FORMS[idx % len(FORMS)])
    if da * da <= 16 and ea * ea <= 16:
        sq = sa * sa
        r2 = gen.rho(rng, da * da)[0]
        m.close(sq.channel(r2, 1), ref.apply(ref.power(a, 2), r2), "action", msg="A * A")
        m.close(sq.channel(r2, 1), sa.channel(r2, 2), "action", msg="A * A is two uses of A")
        m.close(sa.channel(r, 1), ref.apply(a, r), "action", msg="A after A * A")
    # second operand given as Choi matrix; its Kraus operators are only fixed up to a remixing
    small = gen.channel(rng, din=2, dout=2, kind="haar", mmax=3)[0]
    cc = AnalyticQChan(ref.choi(small), [1, 1], 2, 2)
    other = gen.channel(rng, din=2, dout=3, kind="haar", mmax=3)[0]
    so = build(other, [1, 1], 2, 3, FORMS[idx % len(FORMS)])
    r = gen.rho(rng, 2)[0]
    m.close((so + cc).channel(r, 1), ref.apply(other, ref.apply(small, r)), "action", tol=1e-5, msg="Kraus + Choi")
    r = gen.rho(rng, 4)[0]
    t = so * cc
    m.close(t.channel(r, 1), ref.apply([np.kron(x, y) for x in other for y in small], r), "action", tol=1e-5, msg="Kraus * Choi")
    m.ok((t.input_dimension, t.output_dimension) == (4, 6), "dimensions", "Kraus * Choi")


@scenario("C06", 40, 400)
def mismatches(m, rng, idx):
    k1 = gen.channel(rng, din=2, dout=3, kind="haar")[0]
    k2 = gen.channel(rng, din=2, dout=2, kind="haar")[0]
    f = FORMS[idx % len(FORMS)]
    m.case(a=np.array(k1), b=np.array(k2), form=f)
    c1, c2 = build(k1, [1, 1], 2, 3, f), build(k2, [1, 1], 2, 2, f)
    m.raises(lambda: c2 + c1, "rejected", "3-dim output into 2-dim input")
    m.raises(lambda: c1 + c1, "rejected", "3-dim output into 2-dim input")
    cls = DenseKraus if idx % 2 else SparseKraus
    o1, o2 = cls(k1, [1, 1], 2, 3), cls(k2, [1, 1], 2, 2)
    m.raises(lambda: o2 + o1, "rejected", "Kraus objects")
    m.raises(lambda: cls.serial_concatenate(k2, k1), "rejected", "static")
    m.ok((c1 + c2).output_dimension == 3, "dimensions")


# ------------------------------------------------------------------------------------------ C07

rule("C07", "random channels x states x n x representation (dense, sparse, orthogonal groups, Choi) against the "
     "eigenvalue definition, plus remixing, additivity, input-entropy bound and data processing on the package's own numbers; "
     "non-trivial: distinct (channel, state)",
     {"entropy": 150, "coherent": 300, "remix": 60, "additive": 40, "data-processing": 60, "bound": 150})


@scenario("C07", 160, 2400)
def coherent_values(m, rng, idx):
    k, nq, di, do, kind = some_channel(rng)
    n = pick_n(rng, k, nq, di, do)
    a = (di ** nq[0]) ** n
    r, rk = gen.rho(rng, a)
    m.case(kraus=np.array(k), n=n, rho=r)
    m.event("kind:" + kind, "rho:" + rk, "n=%d" % n)
    want = ref.coherent(ref.power(k, n), r)
    sin = ref.entropy(r)
    for form in ("list", FORMS[1 + idx % 4]):
        c = build(k, nq, di, do, form)
        got = c.coherent_information(r, n)
        m.close(got, want, "coherent", tol=1e-6, msg="%s n=%d" % (form, n))
        m.close(c.coherent_information(r, n, regularized=True), want / n, "coherent", tol=1e-6, msg="regularised")
        m.ok(got <= sin + 1e-6 and got >= -sin - 1e-6, "bound", "coherent %s, input entropy %s" % (got, sin))
        m.close(c.entropy(c.channel(r, n)), ref.entropy(ref.apply(ref.power(k, n), r)), "entropy", tol=1e-6)
        m.close(c.entropy(c.entropy_exchange(r, n)), ref.entropy(ref.exchange(ref.power(k, n), r)), "entropy",
                tol=1e-6, msg="exchange")
    if n == 1:
        c = AnalyticQChan(ref.choi(k), list(nq), di, do)
        m.close(c.coherent_information(r, 1), want, "coherent", tol=2e-5, msg="Choi")
        m.close(c.coherent_information(r, 1, regularized=True), want, "coherent", tol=2e-5, msg="Choi, regularised")
        m.event("choi")


@scenario("C07", 70, 1000)
def orthogonal_coherent(m, rng, idx):
    if idx % 3:
        k, splits, di, do = gen.orthogonal_channel(rng)
    else:
        p, q = rng.uniform(0, 1, 2)
        k, splits, di, do = (gen.dephrasure(p, q), [2], 2, 3) if idx % 2 else (gen.erasure(q), [1], 2, 3)
    n = pick_n(rng, k, [1, 1], di, do, top=3)
    r = gen.rho(rng, di ** n)[0]
    m.case(kraus=np.array(k), splits=splits, n=n, rho=r)
    m.event("groups=%d" % (len(splits) + 1), "n=%d" % n)
    c = build(k, [1, 1], di, do, "list", orth=splits)
    m.close(c.coherent_information(r, n), ref.coherent(ref.power(k, n), r), "coherent", tol=1e-6, msg="groups")
    m.close(c.entropy(c.entropy_exchange(r, n)), ref.entropy(ref.exchange(ref.power(k, n), r)), "entropy", tol=1e-6)


@scenario("C07", 90, 1200)
def entropies(m, rng, idx):
    c = build(gen.amp_damp(0.3), [1, 1], 2, 2, FORMS[idx % len(FORMS)])
    d = int(rng.integers(1, 9))
    r, rk = gen.rho(rng, d) if d > 1 else (np.eye(1, dtype=complex), "one")
    m.case(rho=r)
    m.event("rho:" + rk)
    m.close(c.entropy(r), ref.entropy(r), "entropy", tol=1e-7)
    m.ok(-1e-9 <= c.entropy(r) <= np.log2(d) + 1e-9, "bound")
    # blocks of different sizes, weights adding to one
    sizes = [int(x) for x in rng.integers(1, 5, int(rng.integers(2, 5)))]
    w = rng.dirichlet(np.ones(len(sizes)))
    blocks = [p * (gen.rho(rng, s)[0] if s > 1 else np.eye(1)) for p, s in zip(w, sizes)]
    full = np.zeros((sum(sizes),) * 2, dtype=complex)
    o = 0
    for b in blocks:
        full[o:o + len(b), o:o + len(b)] = b
        o += len(b)
    m.close(c.entropy(blocks), ref.entropy(full), "entropy", tol=1e-7, msg="blocks %s" % sizes)
    m.close(c.entropy(full), ref.entropy(full), "entropy", tol=1e-7)
    u = gen.haar(rng, d)
    m.close(c.entropy(u @ r @ ref.dag(u)), ref.entropy(r), "entropy", tol=1e-7, msg="unitary invariance")
    # small but relevant eigenvalues are not cut off
    tiny = float(rng.choice([1e-4, 1e-6, 1e-8]))
    t = np.diag([1 - tiny, tiny]).astype(complex)
    want = -(1 - tiny) * np.log2(1 - tiny) - tiny * np.log2(tiny)
    m.close(c.entropy(t), want, "entropy", tol=1e-9 + 1e-3 * want, msg="tiny eigenvalue")
    # the cut-off drops exactly the eigenvalues below it
    e = np.array([0.7, 0.2, 0.06, 0.04])
    cut = float(rng.choice([0.01, 0.05, 0.1, 0.3]))
    keep = e[e > cut]
    m.close(c.entropy(np.diag(e).astype(complex), cut_off=cut), -np.sum(keep * np.log2(keep)), "cut-off")


@scenario("C07", 80, 1200)
def relations(m, rng, idx):
    k, nq, di, do, kind = some_channel(rng, multi=0.2, mmax=3)
    a, b = di ** nq[0], do ** nq[1]
    r = gen.rho(rng, a)[0]
    form = FORMS[idx % len(FORMS)]
    m.case(kraus=np.array(k), rho=r, form=form)
    c = build(k, nq, di, do, form)
    v = c.coherent_information(r, 1)
    # remixing the Kraus operators, possibly with extra zero operators
    extra = int(rng.integers(0, 2))
    kk = list(k) + [np.zeros_like(k[0])] * extra
    u = gen.haar(rng, len(kk))
    mixed = [sum(u[i, j] * kk[j] for j in range(len(kk))) for i in range(len(kk))]
    m.close(build(mixed, nq, di, do, form).coherent_information(r, 1), v, "remix", tol=1e-6)
    # additivity on products
    if max_n(k, nq, di, do) >= 2:
        s = gen.rho(rng, a)[0]
        v2 = c.coherent_information(np.kron(r, s), 2)
        m.close(v2, v + c.coherent_information(s, 1), "additive", tol=1e-6)
        m.close(c.coherent_information(np.kron(r, r), 2, regularized=True), v, "additive", tol=1e-6)
    # post-processing does not increase it
    post = gen.channel(rng, din=b, dout=int(rng.integers(2, 4)), kind="haar", mmax=2 if b <= 4 else -(-b // 2))[0]
    if b * len(post) <= 64:
        p = build(post, [1, 1], b, post[0].shape[0], form)
        m.ok((p + c).coherent_information(r, 1) <= v + 1e-6, "data-processing")
    # unitary channels and pure inputs
    un = build([gen.haar(rng, a)], [1, 1], a, a, form)
    m.close(un.coherent_information(r, 1), ref.entropy(r), "coherent", tol=1e-6, msg="unitary")
    w = gen.vec(rng, a)
    m.close(c.coherent_information(np.outer(w, w.conj()), 1), 0.0, "coherent", tol=1e-6, msg="pure input")


# ------------------------------------------------------------------------------------------ C08

rule("C08", "square channels x states of every rank x n x representation against the trace norm of sqrt(rho) sqrt(N(rho)); "
     "special cases (pure, fixed, orthogonal); non-trivial: distinct (channel, state)",
     {"fidelity": 300, "pure": 80, "fixed": 60, "orthogonal": 40})


def square_channel(rng):
    while True:
        k, nq, di, do, kind = some_channel(rng, multi=0.25)
        if di ** nq[0] == do ** nq[1]:
            return k, nq, di, do, kind


@scenario("C08", 260, 4000)
def fidelity(m, rng, idx):
    k, nq, di, do, kind = square_channel(rng)
    n = pick_n(rng, k, nq, di, do)
    a = (di ** nq[0]) ** n
    r, rk = gen.rho(rng, a, gen.RHO_KINDS[idx % len(gen.RHO_KINDS)])
    m.case(kraus=np.array(k), n=n, rho=r)
    m.event("kind:" + kind, "rho:" + rk, "n=%d" % n)
    out = ref.apply(ref.power(k, n), r)
    want = ref.fidelity(r, out)
    c = build(k, nq, di, do, FORMS[(idx // 9) % len(FORMS)])
    got = c.fidelity_two_states(r, n)
    m.close(got, want, "fidelity", tol=2e-6)
    m.ok(np.isrealobj(np.asarray(got)) and -1e-7 <= got <= 1 + 1e-6, "range")
    if n == 1:
        m.close(AnalyticQChan(ref.choi(k), list(nq), di, do).fidelity_two_states(r, 1), want, "fidelity", tol=2e-6,
                msg="Choi")
    v = gen.vec(rng, a)
    p = np.outer(v, v.conj())
    m.close(c.fidelity_two_states(p, n), np.sqrt(np.vdot(v, ref.apply(ref.power(k, n), p) @ v).real), "pure", tol=1e-6)


@scenario("C08", 80, 1000)
def special(m, rng, idx):
    d = int(rng.integers(2, 4))
    n = int(rng.integers(1, 3))
    r, rk = gen.rho(rng, d ** n, gen.RHO_KINDS[idx % len(gen.RHO_KINDS)])
    m.case(rho=r, n=n)
    m.event("rho:" + rk)
    form = FORMS[idx % len(FORMS)]
    m.close(build([np.eye(d)], [1, 1], d, d, form).fidelity_two_states(r, n), 1.0, "fixed", tol=1e-6)
    # a state diagonal in the basis that the dephasing leaves alone
    u = gen.haar(rng, d)
    pr = [np.outer(u[:, i], u[:, i].conj()) for i in range(d)]
    w = rng.dirichlet(np.ones(d))
    if idx % 2:
        w = np.eye(d)[0]
    fixed = sum(x * q for x, q in zip(w, pr))
    fn = ref.kron_all([fixed] * n)
    m.close(build(pr, [1, 1], d, d, form).fidelity_two_states(fn, n), 1.0, "fixed", tol=1e-6)
    # orthogonal input and output: a cyclic shift of basis states
    s = np.roll(np.eye(d), 1, axis=0).astype(complex)
    e = np.zeros(d ** n)
    e[int(rng.integers(d ** n))] = 1
    m.close(build([s], [1, 1], d, d, form).fidelity_two_states(np.outer(e, e).astype(complex), n), 0.0, "orthogonal",
            tol=1e-6)
    # closed form: depolarising on a pure state
    p = rng.uniform(0, 1)
    k = gen.pauli_channel([1 - p, p / 3, p / 3, p / 3])
    v = gen.vec(rng, 2)
    m.close(build(k, [1, 1], 2, 2, form).fidelity_two_states(np.outer(v, v.conj()), 1), np.sqrt(1 - 2 * p / 3), "pure",
            tol=1e-6)


# ------------------------------------------------------------------------------------------ C09

rule("C09", "random channels x ensembles for Choi input and dense and sparse Kraus input; non-trivial: distinct "
     "(channel, ensemble) with at least two members",
     {"choi": 120, "kraus": 80, "rejected": 20},
     assume=["the Kraus versions compute documented wrong values (known findings); any value that is neither the correct "
             "one nor that of the listed mechanism is a violation"])


def _ensemble(rng, d):
    size = int(rng.integers(1, 4))
    p = rng.dirichlet(np.ones(size))
    if rng.random() < 0.2:
        p = np.eye(size)[0]
    return list(p), [gen.rho(rng, d)[0] for _ in range(size)]


@scenario("C09", 150, 2000)
def choi_average(m, rng, idx):
    k, nq, di, do, kind = square_channel(rng)
    a = di ** nq[0]
    if idx % 10 == 0:
        k, nq, di, do = [np.eye(a)], [1, 1], a, a
    p, st = _ensemble(rng, a)
    m.case(nontrivial=len(p) > 1, kraus=np.array(k), p=p, states=st)
    m.event("kind:" + kind, "members=%d" % len(p))
    want = sum(x * ref.ent_fidelity(k, s) for x, s in zip(p, st))
    c = AnalyticQChan(ref.choi(k), list(nq), di, do)
    got = c.average_entanglement_fidelity(p, st)
    m.close(got, want, "choi")
    m.ok(-1e-8 <= np.real(got) <= 1 + 1e-8, "range")
    q, st2 = _ensemble(rng, a)
    lam = rng.uniform()
    both = c.average_entanglement_fidelity([lam * x for x in p] + [(1 - lam) * x for x in q], st + st2)
    m.close(both, lam * got + (1 - lam) * c.average_entanglement_fidelity(q, st2), "linear")
    if len(k) == 1 and np.abs(k[0] - np.eye(a)).max() < 1e-12:
        m.close(got, 1.0, "identity")


@scenario("C09", 120, 1500)
def kraus_average(m, rng, idx):
    k, nq, di, do, kind = square_channel(rng)
    a = di ** nq[0]
    sparse = idx % 2 == 1
    p, st = _ensemble(rng, a)
    m.case(nontrivial=len(p) > 1, kraus=np.array(k), p=p, states=st, sparse=sparse)
    want = sum(x * ref.ent_fidelity(k, s) for x, s in zip(p, st))
    c = build(k, nq, di, do, FORMS[2 + idx % 3] if sparse else FORMS[(idx // 2) % 2])
    got = ref.todense(c.average_entanglement_fidelity(p, st))
    m.oracles["kraus"] += 1
    if got.shape == () and abs(got - want) < 1e-7:
        m.event("correct value")
        return
    arr = np.array(k)
    if not sparse:
        key = "dense-sum-of-all-entries"
        wrong = sum(x * np.sum(np.abs(np.einsum("ijk,kp->i", arr, s)) ** 2) for x, s in zip(p, st))
    else:
        key = "sparse-trace-over-operator-index"
        wrong = sum(x * np.sum(np.abs(np.trace(arr @ s, axis1=0, axis2=1)) ** 2) for x, s in zip(p, st))
    if got.shape == () and abs(got - wrong) < 1e-7:
        m.event("known wrong value: " + key)
        m.known(key, "reported %.6f, correct %.6f" % (got.real, want))
        return
    m.fail("kraus", "average entanglement fidelity %s is neither the correct %s nor the listed wrong value %s"
           % (got, want, wrong))


@scenario("C09", 24, 200)
def choi_rejects(m, rng, idx):
    k, di, do, kind = gen.channel(rng, kind=("dephrasure", "erasure", "haar")[idx % 3], din=2, dout=3)
    m.case(kraus=np.array(k))
    c = AnalyticQChan(ref.choi(k), [1, 1], di, do)
    m.raises(lambda: c.average_entanglement_fidelity([1.0], [np.eye(2) / 2]), "rejected", "unequal dimensions")


# ------------------------------------------------------------------------------------------ C14 (channels)

rule("C14", "valid channel and code descriptions (accepted) and single-fault mutations of them (refused), dense, sparse, "
     "Choi, strings, binary vectors; non-trivial: distinct (description, fault)",
     {"accepted": 150, "refused": 150, "code-accepted": 60, "code-refused": 100})


@scenario("C14", 440, 3000)
def channel_descriptions(m, rng, idx):
    k, nq, di, do, kind = some_channel(rng, multi=0.5)
    form = FORMS[idx % len(FORMS)]
    sparse = form.startswith("sparse")
    fault = (idx // len(FORMS)) % 10
    eps = float(rng.choice([1e-4, 2e-3, 0.03, 0.4]))
    m.case(kraus=np.array(k), nq=list(nq), dims=[di, do], form=form, fault=fault)
    m.event("fault %d" % fault, "form:" + form)
    build(k, nq, di, do, form)
    AnalyticQChan(ref.choi(k), list(nq), di, do)
    m.ok(True, "accepted")
    j = int(rng.integers(len(k)))
    a, b = di ** nq[0], do ** nq[1]

    def refuse(kk, q=nq, x=di, y=do, msg=""):
        m.raises(lambda: build(kk, q, x, y, form), "refused", msg)
    if fault == 0:
        refuse([x * (1 + eps) for x in k], msg="all operators scaled")
    elif fault == 1:
        kk = [np.array(x) for x in k]
        # perturb one entry so that sum A^dag A moves by eps in one diagonal entry
        kk.append(np.zeros_like(kk[0]))
        kk[-1][int(rng.integers(b)), int(rng.integers(a))] = np.sqrt(eps)
        refuse(kk, msg="one small extra operator")
    elif fault == 2:
        kk = [np.array(x) for x in k]
        if np.linalg.norm(kk[j]) > 0.1:
            kk.pop(j)
            if kk:
                refuse(kk, msg="one operator missing")
    elif fault == 3:
        refuse(k, q=[nq[0] + 1, nq[1]], msg="input particles")
    elif fault == 4:
        refuse(k, q=[nq[0], nq[1] + 1], msg="output particles")
    elif fault == 5:
        refuse(k, x=di + 1, msg="input dimension")
    elif fault == 6:
        refuse(k, y=do + 1, msg="output dimension")
    elif fault == 7:
        kk = [np.vstack([x, np.zeros((1, a))]) for x in k]
        refuse(kk, msg="an extra row")
        if not sparse and form == "list" and len(k) > 1:
            kk = [np.array(x) for x in k]
            kk[-1] = np.vstack([kk[-1], np.zeros((1, a))])
            refuse(kk, msg="an extra row in the last operator")
    elif fault == 8:
        for junk in (tuple(np.array(x) for x in k), "kraus", 3, None, {"a": 1}):
            m.raises(lambda: AnalyticQChan(junk, list(nq), di, do, sparse=sparse), "refused", "type %s" % type(junk))
        m.raises(lambda: AnalyticQChan(np.array(k)[None], list(nq), di, do, sparse=sparse), "refused", "4-dim array")
        m.raises(lambda: AnalyticQChan(np.array(k)[0, 0], list(nq), di, do, sparse=sparse), "refused", "1-dim array")
        m.raises(lambda: AnalyticQChan(COO(np.array(k[0])), list(nq), di, do, sparse=sparse), "refused", "2-dim sparse")
        m.raises(lambda: AnalyticQChan(COO(ref.choi(k)), list(nq), di, do, sparse=sparse), "refused", "sparse Choi")
    else:
        # off-diagonal violation: a non-unitary mixing that keeps the diagonal of sum A^dag A
        t = np.eye(a, dtype=complex)
        if a > 1:
            x = np.eye(a, dtype=complex)
            x[0, 1] = x[1, 0] = eps
            w = np.linalg.cholesky(x).conj().T
            refuse([y @ w for y in k], msg="off-diagonal deviation")
        m.raises(lambda: build(k, [nq[0], nq[1]], float(di), do, form), "refused", "non-integer dimension")


# ------------------------------------------------------------------------------------------ C29

rule("C29", "operations on channels, parameterisations and codes with every input compared bit for bit before and after, "
     "caller-owned operators overwritten after construction, calls repeated; non-trivial: distinct inputs",
     {"inputs-untouched": 300, "no-aliasing": 80, "repeatable": 150})


@scenario("C29", 90, 1200)
def channel_purity(m, rng, idx):
    k, nq, di, do, kind = small_channel(rng)
    form = FORMS[idx % len(FORMS)]
    n = pick_n(rng, k, nq, di, do, cap=2e6)
    describe(m, k, nq, di, do, kind, form, n)
    own = [np.array(x) for x in k]
    container = own if form.endswith("list") else np.array(own)
    if form == "sparse-coo":
        container = COO(np.array(own))
    callers_nq = list(nq)
    c = AnalyticQChan(container, callers_nq, di, do, sparse=form.startswith("sparse"))
    x = inputs_for(rng, k, nq, di, do, n)
    probs, states = [0.4, 0.6], [gen.rho(rng, di ** nq[0])[0] for _ in range(2)]
    sq = di ** nq[0] == do ** nq[1]
    first = {}
    for rounds in range(2):
        for name, f in OPS.items():
            if name == "fidelity" and not sq:
                continue
            keep = {q: v.copy() for q, v in x.items()}
            got = ref.todense(f(c, x, n))
            m.ok(all(np.array_equal(x[q], keep[q]) for q in x), "inputs-untouched", "%s changed its input" % name)
            if name in first:
                m.close(got, first[name], "repeatable", tol=1e-10, msg=name)
            first[name] = got
        if sq:
            keep = [s.copy() for s in states]
            v = ref.todense(c.average_entanglement_fidelity(probs, states))
            m.ok(all(np.array_equal(a, b) for a, b in zip(keep, states)) and probs == [0.4, 0.6], "inputs-untouched")
            m.close(v, first.setdefault("avg", v), "repeatable", tol=1e-10)
        blocks = [p.copy() for p in (x["rho"] * 0.5, x["rho"] * 0.5)]
        kept = [b.copy() for b in blocks]
        c.entropy(blocks)
        m.ok(all(np.array_equal(a, b) for a, b in zip(kept, blocks)), "inputs-untouched", "entropy changed its blocks")
    m.ok(all(np.array_equal(a, b) for a, b in zip(own, k)), "inputs-untouched", "Kraus operators changed")
    m.ok(callers_nq == list(nq), "inputs-untouched", "particle numbers changed")
    if form == "sparse-coo":
        m.ok(np.array_equal(container.todense(), np.array(k)), "inputs-untouched", "sparse Kraus operators changed")
    # the caller reuses its arrays and lists
    for a in own:
        a[...] = rng.normal(size=a.shape)
    callers_nq[:] = [nq[0] + 1, nq[1] + 2]
    if form == "sparse-coo":
        container.data[...] = 0.3
    elif isinstance(container, np.ndarray):
        container[...] = 0.3
    else:
        container[0] = np.zeros_like(own[0])
        container.pop()
    nn = 1 if n > 1 else min(2, max_n(k, nq, di, do, cap=2e6))
    for q in (n, nn, 1):
        y = inputs_for(rng, k, nq, di, do, q)
        kn = ref.power(k, q)
        m.close(c.channel(y["rho"], q), ref.apply(kn, y["rho"]), "no-aliasing", msg="n=%d" % q)
        m.close(ref.todense(c.entropy_exchange(y["rho"], q)[0]), ref.exchange(kn, y["rho"]), "no-aliasing")
        m.ok((c.input_dimension, c.output_dimension) == (di ** (nq[0] * q), do ** (nq[1] * q)), "no-aliasing")
    m.close(c.kraus, np.array(k), "no-aliasing")
    m.ok(list(c.numb_qubits) == list(nq), "no-aliasing", "particle numbers")


@scenario("C29", 40, 500)
def orthogonal_purity(m, rng, idx):
    """Declared orthogonal groups: the caller reuses the list of indices."""
    k, splits, di, do = gen.orthogonal_channel(rng)
    own, ops = list(splits), [np.array(x) for x in k]
    m.case(kraus=np.array(k), splits=list(splits))
    c = AnalyticQChan(ops, [1, 1], di, do, orthogonal_krauss=own)
    r = gen.rho(rng, di)[0]
    n = 2 if len(k) ** 4 * di ** 4 < 2e5 else 1
    before = [np.array(b) for b in c.entropy_exchange(r, 1)]
    if n == 2:
        c.channel(np.kron(r, r), 2)
    m.ok(own == list(splits), "inputs-untouched")
    own[:] = [len(k)] * 2
    for o in ops:
        o[...] = 0
    after = c.entropy_exchange(r, 1)
    m.ok(len(before) == len(after), "no-aliasing", "number of blocks")
    for x, y in zip(before, after):
        m.close(y, x, "no-aliasing", msg="block")
    m.close(c.coherent_information(r, 1), ref.coherent(k, r), "no-aliasing", tol=1e-6)


@scenario("C29", 60, 800)
def choi_purity(m, rng, idx):
    k, nq, di, do, kind = some_channel(rng, multi=0.4)
    a, b = di ** nq[0], do ** nq[1]
    own = np.array(ref.choi(k))
    keep = own.copy()
    m.case(choi=keep)
    c = AnalyticQChan(own, list(nq), di, do)
    r, op = gen.rho(rng, a)[0], gen.herm(rng, b)
    r0, op0 = r.copy(), op.copy()
    first = None
    for _ in range(2):
        got = [c.channel(r, 1), c.channel(op, 1, adjoint=True), c.coherent_information(r, 1),
               c.fidelity_two_states(r, 1) if a == b else 0.0]
        m.ok(np.array_equal(own, keep) and np.array_equal(r, r0) and np.array_equal(op, op0), "inputs-untouched")
        if first is not None:
            for g, f in zip(got, first):
                m.close(g, f, "repeatable", tol=1e-9)
        first = [ref.todense(g).copy() for g in got]
    own[...] = 0
    m.close(c.channel(r, 1), ref.apply(k, r), "no-aliasing")
    m.close(c.channel(op, 1, adjoint=True), ref.apply_adjoint(k, op), "no-aliasing", tol=1e-6)
    m.close(c.coherent_information(r, 1), ref.coherent(k, r), "no-aliasing", tol=1e-6)


@scenario("C29", 60, 800)
def composition_purity(m, rng, idx):
    k1, di, do, _ = gen.channel(rng, mmax=2)
    k2 = gen.channel(rng, din=do, kind="haar", mmax=2)[0]
    form = FORMS[idx % len(FORMS)]
    m.case(a=np.array(k1), b=np.array(k2), form=form)
    a, b = build(k1, [1, 1], di, do, form), build(k2, [1, 1], do, k2[0].shape[0], form)
    l1, l2 = [np.array(x) for x in k1], [np.array(x) for x in k2]
    DenseKraus.serial_concatenate(l2, l1), DenseKraus.parallel_concatenate(l1, l2)
    SparseKraus.serial_concatenate(l2, l1), SparseKraus.parallel_concatenate(l1, l2)
    m.ok(all(np.array_equal(x, y) for x, y in zip(l1 + l2, list(k1) + list(k2))), "inputs-untouched")
    m.ok(len(l1) == len(k1) and len(l2) == len(k2), "inputs-untouched")
    s, t = b + a, a * b
    r = gen.rho(rng, di)[0]
    want = ref.apply(k2, ref.apply(k1, r))
    m.close(s.channel(r, 1), want, "repeatable")
    # using and composing the results leaves the operands and each other alone
    s.channel(gen.rho(rng, di ** 2)[0], 2) if len(k1) * len(k2) * di * k2[0].shape[0] < 40 else None
    t.channel(gen.rho(rng, di * do)[0], 1)
    m.close(s.channel(r, 1), want, "repeatable")
    m.close(a.channel(r, 1), ref.apply(k1, r), "repeatable")
    m.close((b + a).channel(r, 1), want, "repeatable")
    r2 = gen.rho(rng, do)[0]
    m.close(b.channel(r2, 1), ref.apply(k2, r2), "repeatable")
    m.ok((a.input_dimension, a.output_dimension, list(a.numb_qubits)) == (di, do, [1, 1]), "repeatable")
