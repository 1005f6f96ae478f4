"""A ProjectQ engine under observation: states in and out with qubit 0 as the leftmost factor."""
import gc

import numpy as np
from projectq import MainEngine
from projectq.backends import Simulator
from projectq.cengines import BasicEngine
from projectq.ops import All, FlushGate, Measure


class Recorder(BasicEngine):
    """Compiler engine that forwards everything and keeps the command stream."""
    def __init__(self):
        super().__init__()
        self.commands = []

    def receive(self, command_list):
        for c in command_list:
            if not isinstance(c.gate, FlushGate):
                self.commands.append((str(c.gate), [q.id for r in c.qubits for q in r], [q.id for q in c.control_qubits]))
        self.send(command_list)


class Sim:
    def __init__(self, rng, n=0, bare=False):
        """bare: without the compiler engines."""
        seed = int(rng.integers(1, 2 ** 31 - 1))
        self.eng = MainEngine(Simulator(rnd_seed=seed), engine_list=[]) if bare else MainEngine(Simulator(rnd_seed=seed))
        self.reg = self.alloc(n) if n else []

    def alloc(self, n):
        reg = self.eng.allocate_qureg(n)
        self.eng.flush()
        return reg

    def settle(self, n):
        """Flush.  A qubit too many may only be waiting for the garbage collector: a failing finalizer of an engine of an
        earlier case keeps the frames that happened to be running, and what they refer to, alive until the next collection."""
        self.eng.flush()
        if len(self.eng.backend.cheat()[0]) != n:
            gc.collect()
            self.eng.flush()

    def state(self, regs):
        """State vector of exactly the qubits given, the first one most significant."""
        self.settle(len(regs))
        pos, v = self.eng.backend.cheat()
        v = np.array(v)
        ids = [q.id for q in regs]
        if sorted(ids) != sorted(pos):
            raise AssertionError("the simulator holds qubits %s, expected %s" % (sorted(pos), sorted(ids)))
        n = len(ids)
        # axis i of the reshaped array belongs to bit n-1-i
        t = v.reshape([2] * n) if n else v
        axes = [n - 1 - pos[i] for i in ids]
        return t.transpose(axes).reshape(-1) if n else t

    def set(self, vec, regs):
        self.settle(len(regs))
        n = len(regs)
        v = np.asarray(vec, dtype=complex).reshape([2] * n).transpose(range(n - 1, -1, -1)).reshape(-1)
        self.eng.backend.set_wavefunction(v, list(regs))

    def free(self, *regs):
        for r in regs:
            for q in r:
                if q.id >= 0:
                    Measure | q
        self.eng.flush()


def overlap(a, b):
    """|<a|b>| of normalised vectors."""
    return abs(np.vdot(a, b)) / (np.linalg.norm(a) * np.linalg.norm(b))
