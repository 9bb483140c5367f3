"""Executable models of whole runs: the published equations, written down once more.

A model receives the initial solutions and a source of random answers and yields nothing but the
sequence of solutions it evaluates; it shares no code with niapy and sees no internal state of it.
"""
import math

import numpy as np


class Stop(Exception):
    """More draws than the bound."""


class Draws:
    """Random answers by kind: every uniform draw is u, every normal draw z, index draws rotate.

    A tuple of answers is gone through iteration by iteration."""

    def __init__(self, u, z, k, dev=None, cap=4000):
        self.u_, self.z_, self.k_ = [v if isinstance(v, tuple) else (v,) for v in (u, z, k)]
        self.turn = -1            # iterations begun, less one
        self.dev = dev            # (kind, position, value): one scalar answer differs
        self.nu = self.nz = self.np = self.ni = 0
        self.cap = cap

    def u(self):
        self.nu += 1
        if self.nu > self.cap:
            raise Stop()
        d = self.dev
        return d[2] if d is not None and d[0] == 'u' and d[1] == self.nu - 1 else self.now(self.u_)

    def z(self):
        self.nz += 1
        if self.nz > self.cap:
            raise Stop()
        d = self.dev
        return d[2] if d is not None and d[0] == 'z' and d[1] == self.nz - 1 else self.now(self.z_)

    def index(self, n):
        self.ni += 1
        d = self.dev
        return min(n - 1, int((d[2] if d is not None and d[0] == 'i' and d[1] == self.ni - 1 else self.now(self.k_)) * n))

    def now(self, values):
        return values[max(self.turn, 0) % len(values)]

    def order(self, n, out=(), weights=None):
        """A rotation of range(n) without those left out; each call rotates one further.

        Unequal weights decide the sequence that is rotated, the largest first."""
        self.np += 1
        if self.np > self.cap:
            raise Stop()
        s = (int(self.now(self.k_) * n) + self.np) % n
        if self.dev is not None and self.dev[0] == 'p' and self.dev[1] == self.np - 1:
            s = (s + self.dev[2]) % n
        seq = list(range(n))
        if weights is not None and len({weights[i] for i in seq if i not in out}) > 1:
            rank = {}
            for v in sorted(weights, reverse=True):
                rank.setdefault(v, v if not rank or prev - v > 1e-9 * prev else rank[prev])
                prev = v
            seq.sort(key=lambda i: (-rank[weights[i]], i))
        seq = seq[s:] + seq[:s]
        return [i for i in seq if i not in out]

    def count(self, kind):
        return {'u': self.nu, 'z': self.nz, 'i': self.ni, 'p': self.np}[kind]

    def us(self, n):
        return np.array([self.u() for _ in range(n)])

    def zs(self, n):
        return np.array([self.z() for _ in range(n)])


class World:
    """What a model may ask for."""

    def __init__(self, lo, hi, fn, init, draws, iters, max_evals):
        self.lo, self.hi, self.fn, self.r = lo, hi, fn, draws
        self.D, self.T, self.E = len(lo), iters, max_evals
        self.xs = [np.array(x) for x in init]
        self.fs = [fn(x) for x in init]
        self.X = np.array(self.xs)
        self.F = np.array(self.fs)
        b = int(np.argmin(self.F))
        self.b, self.fb = self.X[b].copy(), self.F[b]

    def turns(self, first=0):
        """The iterations of the run."""
        for t in range(first, first + self.T):
            self.r.turn += 1
            yield t

    def clip(self, x):
        return np.minimum(np.maximum(x, self.lo), self.hi)

    def eval(self, x):
        self.xs.append(np.array(x))
        self.fs.append(self.fn(x))
        return self.fs[-1]

    def better(self, x, f, strict=False):
        if f < self.fb or (f == self.fb and not strict):
            self.b, self.fb = np.array(x), f


def wrap(v, lo, hi):
    v = np.array(v, dtype=float)
    for d in range(len(v)):
        if v[d] < lo[d] or v[d] > hi[d]:
            v[d] = min(lo[d] + v[d] % (hi[d] - lo[d]), hi[d]) if hi[d] > lo[d] else lo[d]
    return v


def levy(w, alpha=0.01, n=1, beta=1.5):
    s = (math.gamma(1 + beta) * math.sin(math.pi * beta / 2) / (math.gamma((1 + beta) / 2) * beta * 2 ** ((beta - 1) / 2))) ** (1 / beta)
    a, b = w.r.zs(n), w.r.zs(n)
    return alpha * s * a / np.abs(b) ** (1 / beta)


# ---------------------------------------------------------------- particle swarms
def swarm(w, s, center=False, mutations=0, unified=False):
    n, D = len(w.X), w.D
    inertia = s.get('w', 1.0)
    lo, hi = np.full(D, s.get('min_velocity', -np.inf)), np.full(D, s.get('max_velocity', np.inf))
    V, pb, pf = np.zeros((n, D)), w.X.copy(), w.F.copy()
    for _ in w.turns():
        for i in range(n):
            if unified:
                m, r1, r2 = w.r.us(D), w.r.us(D), w.r.us(D)
                v = inertia * V[i] + s['c1'] * r1 * m * (pb[i] - w.X[i]) + s['c2'] * r2 * (1 - m) * (w.b - w.X[i])
            else:
                r1, r2 = w.r.us(D), w.r.us(D)
                v = inertia * V[i] + s['c1'] * r1 * (pb[i] - w.X[i]) + s['c2'] * r2 * (w.b - w.X[i])
            V[i] = wrap(v, lo, hi)
            w.X[i] = w.clip(w.X[i] + V[i])
            w.F[i] = w.eval(w.X[i])
            if w.F[i] < pf[i]:
                pb[i], pf[i] = w.X[i].copy(), w.F[i]
            w.better(w.X[i], w.F[i], True)
        if center:
            c = np.mean(w.X, axis=0)
            w.better(c, w.eval(c))
        if mutations:
            va = np.mean(V, axis=0)
            big = np.max(np.abs(va))
            va = va / big if big > 0 else va
            for _m in range(mutations):
                g = w.clip(w.b + va * (w.lo + w.r.us(D) * (w.hi - w.lo)))
                w.better(g, w.eval(g))


# ---------------------------------------------------------------- bats
def bat(w, s):
    n, D = len(w.X), w.D
    V, A = np.zeros((n, D)), s['loudness']
    for t in w.turns():
        A *= s['alpha']
        rate = s['pulse_rate'] * (1 - math.exp(-s['gamma'] * t))
        for i in range(n):
            V[i] += (w.X[i] - w.b) * (s['min_frequency'] + (s['max_frequency'] - s['min_frequency']) * w.r.u())
            if w.r.u() < rate:
                c = w.clip(w.b + 0.1 * A * w.r.zs(D))
            else:
                c = w.clip(w.X[i] + V[i])
            f = w.eval(c)
            if f <= w.F[i] and w.r.u() > A:
                w.X[i], w.F[i] = c, f
            w.better(c, f)


# ---------------------------------------------------------------- wolves, sine and cosine, flowers, fireflies, cuckoos
def wolves(w, s):
    o = np.argsort(w.F)
    lead = [[w.X[o[k]].copy(), w.F[o[k]]] for k in range(3)]
    for _ in w.turns():
        a = 2 - 2.0 * len(w.xs) / w.E
        for i in range(len(w.X)):
            tot = np.zeros(w.D)
            for x, _f in lead:
                A = 2 * a * w.r.us(w.D) - a
                C = 2 * w.r.us(w.D)
                tot += x - A * np.abs(C * x - w.X[i])
            w.X[i] = w.clip(tot / 3)
            w.F[i] = w.eval(w.X[i])
        for x, f in zip(w.X, w.F):
            for k in range(3):
                if f < lead[k][1] and (k == 0 or f > lead[k - 1][1]):
                    lead[k] = [x.copy(), f]
                    break


def sine(w, s):
    for t in w.turns():
        r1 = s['a'] * (1 - (t + 1) / w.T)
        r2, r3, r4 = 2 * math.pi * w.r.u(), s['r_min'] + w.r.u() * (s['r_max'] - s['r_min']), w.r.u()
        g = math.sin(r2) if r4 < 0.5 else math.cos(r2)
        for i in range(len(w.X)):
            w.X[i] = w.clip(w.X[i] + r1 * g * np.abs(r3 * w.b - w.X[i]))
        for i in range(len(w.X)):
            w.F[i] = w.eval(w.X[i])
        for i in range(len(w.X)):
            w.better(w.X[i], w.F[i])


def flowers(w, s):
    n = len(w.X)
    S = w.X.copy()
    for _ in w.turns():
        for i in range(n):
            if w.r.u() > s['p']:
                S[i] = w.X[i] + levy(w, n=w.D) * (w.X[i] - w.b)
            else:
                j, k = w.r.order(n)[:2]
                S[i] = S[i] + w.r.u() * (w.X[j] - w.X[k])
            S[i] = w.clip(S[i])
            f = w.eval(S[i])
            if f <= w.F[i]:
                w.X[i], w.F[i] = S[i].copy(), f
            w.better(S[i], f)


def fireflies(w, s):
    n, alpha = len(w.X), s['alpha']
    for _ in w.turns():
        alpha *= s['theta']
        for i in range(n):
            for j in range(n):
                if w.F[i] >= w.F[j]:
                    r2 = float(np.sum((w.X[i] - w.X[j]) ** 2))
                    w.X[i] = w.clip(w.X[i] + s['beta0'] * math.exp(-s['gamma'] * r2) * (w.X[j] - w.X[i]) + alpha * (w.r.us(w.D) - 0.5) * (w.hi - w.lo))
                    w.F[i] = w.eval(w.X[i])


def cuckoos(w, s):
    n, D = len(w.X), w.D

    def settle(N):
        fs = [w.eval(x) for x in N]
        for i in range(n):
            if fs[i] < w.F[i]:
                w.X[i], w.F[i] = N[i], fs[i]
        for i in range(n):
            w.better(w.X[i], w.F[i])
    for _ in w.turns():
        L = levy(w, n=n * D).reshape(n, D)
        Z = w.r.zs(n * D).reshape(n, D)
        settle([w.clip(w.X[i] + L[i] * (w.X[i] - w.b) * Z[i]) for i in range(n)])
        K = w.r.us(n * D).reshape(n, D) > s['pa']
        p, q = w.r.order(n), w.r.order(n)
        st = w.r.u()
        settle([w.clip(w.X[i] + st * (w.X[p[i]] - w.X[q[i]]) * K[i]) for i in range(n)])


# ---------------------------------------------------------------- masses and glowworms
def masses(w, s):
    n, D = len(w.X), w.D
    V = np.zeros((n, D))
    for t in w.turns():
        worst, best = max(w.F), min(w.F)
        q = (worst - w.F) / (worst - best) if worst > best else np.ones(n)
        M = q / np.sum(q)
        G = s['g0'] / (t + 1)
        R = w.r.us(n * D).reshape(n, D)
        Q = w.r.us(n * D).reshape(n, D)
        N = []
        for i in range(n):
            force = np.zeros(D)
            for j in range(n):
                d = math.sqrt(float(np.sum((w.X[j] - w.X[i]) ** 2)))
                force += R[j] * G * M[i] * M[j] / (d + s['epsilon']) * (w.X[j] - w.X[i])
            V[i] = Q[i] * V[i] + force / (M[i] + s['epsilon'])
            N.append(w.clip(w.X[i] + V[i]))
        w.X = np.array(N)
        w.F = np.array([w.eval(x) for x in N])


def glowworms(w, s, variant=0):
    n = len(w.X)
    full = math.sqrt(float(np.sum((w.hi - w.lo) ** 2)))
    L, R = np.full(n, float(s['l0'])), np.full(n, full)
    for _ in w.turns():
        L = (1 - s['rho']) * L + s['gamma'] * w.F
        if variant == 1:
            L = np.maximum(L, 0)
        near, to = [], []
        for i in range(n):
            near.append([j for j in range(n) if j != i and math.sqrt(float(np.sum((w.X[i] - w.X[j]) ** 2))) <= R[i] and L[j] <= L[i]])
        for i in range(n):
            tot = sum(L[j] - L[i] for j in near[i]) + np.finfo(float).eps
            u, acc, go = w.r.u(), 0.0, None
            for j in range(n):
                p = (L[j] - L[i]) / tot if j in near[i] else 0.0
                if acc < u < acc + p and go is None:
                    go = j
                acc += p
            to.append(w.r.index(n) if go is None else go)
        N = []
        for i in range(n):
            d = w.X[to[i]] - w.X[i]
            N.append(w.clip(w.X[i] + s['s'] * d / (math.sqrt(float(np.sum(d ** 2))) + 1e-31)))
            k = len(near[i])
            r = R[i] + s['beta'] * (s['nt'] - k)
            if variant == 1:
                r = full / (1 + s['beta'] * k / (math.pi * full ** 2))
            if variant == 2:
                r = s['alpha'] + (full - s['alpha']) / (1 + s['beta'] * k)
            R[i] = max(0.0, min(full, r))
        w.X = np.array(N)
        w.F = np.array([w.eval(x) for x in N])


# ---------------------------------------------------------------- bees and monkeys
def bees(w, s):
    n, D = len(w.X) // 2, w.D
    tr = [0] * n

    def visit(i, other):
        d = int(w.r.u() * D)
        k = int(n * w.r.u())
        while other and k == i and n > 1:
            k = int(n * w.r.u())
        c = w.X[i].copy()
        c[d] += (2 * w.r.u() - 1) * (w.X[i][d] - w.X[k][d])
        c = w.clip(c)
        f = w.eval(c)
        if f < w.F[i]:
            w.X[i], w.F[i], tr[i] = c, f, 0
        else:
            tr[i] += 1
            if tr[i] >= s['limit']:
                w.X[i], tr[i] = w.lo + w.r.us(D) * (w.hi - w.lo), 0
                w.F[i] = w.eval(w.X[i])
    for _ in w.turns():
        for i in range(n):
            visit(i, False)
        p = 1 / (w.F[:n] + 0.01)
        p = p / np.sum(p)
        t = i = 0
        while t < n:
            if w.r.u() < p[i]:
                t += 1
                visit(i, True)
            i = (i + 1) % n


def monkeys(w, s, variant=1):
    n, D = len(w.X), w.D
    P, PF = w.X.copy(), w.F.copy()
    m = int(s['population_rate'] * n)
    king = set(w.r.order(n)[:m])
    for _ in w.turns():
        for i in range(n):
            if i in king:
                king.discard(i)
                if variant == 1:
                    C = [w.clip(w.X[i] + s['fc'] * w.r.us(D) * w.X[i]) for _k in range(int(s['c'] * D))]
                    fs = [w.eval(c) for c in C]
                    k = int(np.argmin(fs))
                    w.X[i], w.F[i] = C[k], fs[k]
                else:
                    x, bx, bf = w.X[i].copy(), w.X[i].copy(), w.F[i]
                    for _k in range(int(s['c'] * n)):
                        a, b = w.r.order(n)[:2]
                        c = w.clip(x - s['fc'] * (w.X[a] - w.X[b]))
                        f = w.eval(c)
                        if f < bf:
                            bx, bf = c, f
                    w.X[i], w.F[i] = bx, bf
            else:
                w.X[i] = w.clip(P[i] + s['fluctuation_coeff'] * w.r.us(D) * (w.b - w.X[i]))
                w.F[i] = w.eval(w.X[i])
            if w.F[i] < PF[i]:
                P[i], PF[i] = w.X[i].copy(), w.F[i]
        king |= set(w.r.order(n)[:m])
        for i in range(n):
            w.better(w.X[i], w.F[i])


# ---------------------------------------------------------------- single solutions and simplices
def simplex(w, s):
    for _ in w.turns():
        o = np.argsort(w.F)
        X, F = w.X[o], w.F[o]
        c = np.mean(X[:-1], axis=0)

        def point(k):
            x = w.clip(c + k * (c - X[-1]))
            return x, w.eval(x)
        r, fr = point(s['alpha'])
        if fr < F[0]:
            e, fe = point(s['gamma'])
            X[-1], F[-1] = (e, fe) if fe < fr else (r, fr)
        elif fr < F[-2]:
            X[-1], F[-1] = r, fr
        else:
            k, fk = point(s['rho'])
            if fk < F[-1]:
                X[-1], F[-1] = k, fk
            else:
                N = [w.clip(X[0] + s['sigma'] * (x - X[0])) for x in X[1:]]
                for i, x in enumerate(N):
                    X[i + 1], F[i + 1] = x, w.eval(x)
        w.X, w.F = X, F


def annealing(w, s):
    x, f, T = w.X[0], w.F[0], s['starting_temperature']
    for _ in w.turns():
        c = w.clip(x - s['delta'] / 2 + s['delta'] * w.r.us(w.D))
        fc = w.eval(c)
        u = w.r.u()
        if fc < f or (T > 0 and u < math.exp(-(fc - f) / T)):
            x, f = c, fc
        T -= s['starting_temperature'] / w.E if s.get('linear') else s['delta_temperature']


def climbing(w, s):
    x = w.X[0]
    for _ in w.turns():
        n = w.lo + (w.hi - w.lo) * w.r.us(w.D)
        fn = w.eval(n)
        while True:
            y = w.clip(x + s['delta'] * w.r.zs(w.D))
            fy = w.eval(y)
            if not fy < fn:
                break
            n, fn = y, fy
        x = n


def sparks(w, s):
    x, f, A = w.X[0], w.F[0], w.hi - w.lo
    for _ in w.turns():
        C = [w.clip(x - A + 2 * A * w.r.us(w.D)) for _k in range(s['num_sparks'])]
        fs = [w.eval(c) for c in C]
        k = int(np.argmin(fs))
        if fs[k] < f:
            x, f, A = C[k], fs[k], A * s['amplification_coefficient']
        else:
            A = A * s['reduction_coefficient']


# ---------------------------------------------------------------- adaptive bats
def adaptive_bat(w, s, selfadapt=False):
    n, D = len(w.X), w.D
    V, A, R = np.zeros((n, D)), np.full(n, float(s['starting_loudness'])), np.full(n, float(s['pulse_rate']))
    for _ in w.turns():
        for i in range(n):
            if selfadapt:
                if w.r.u() < s['tao_1']:
                    A[i] = s['min_loudness'] + w.r.u() * (s['max_loudness'] - s['min_loudness'])
                if w.r.u() < s['tao_2']:
                    R[i] = s['min_pulse_rate'] + w.r.u() * (s['max_pulse_rate'] - s['min_pulse_rate'])
            V[i] += (w.X[i] - w.b) * (s['min_frequency'] + (s['max_frequency'] - s['min_frequency']) * w.r.u())
            if w.r.u() > R[i]:
                c = w.clip(w.b + s['epsilon'] * A[i] * w.r.zs(D))
            else:
                c = w.clip(w.X[i] + V[i])
            f = w.eval(c)
            if f <= w.F[i] and w.r.u() < ((s['min_loudness'] - A[i]) / s['starting_loudness'] if selfadapt else A[i]):
                w.X[i], w.F[i] = c, f
            if f <= w.fb:
                w.better(c, f)
                if not selfadapt:
                    A[i] = A[i] * s['alpha'] if A[i] * s['alpha'] > 1e-13 else s['starting_loudness']


def plain_bat(w, s):
    n, D = len(w.X), w.D
    V = np.zeros((n, D))
    for _ in w.turns():
        for i in range(n):
            V[i] += (w.X[i] - w.b) * (w.hi[0] - w.lo[0]) / n * w.r.z()
            if w.r.u() > 0.1:
                c = w.clip(w.b + 0.001 * w.r.zs(D))
            else:
                c = w.clip(w.X[i] + V[i])
            f = w.eval(c)
            if f <= w.F[i] and w.r.u() < 0.9:
                w.X[i], w.F[i] = c, f
            w.better(c, f)


# ---------------------------------------------------------------- harmonies and evolution strategies
def harmonies(w, s):
    for _ in w.turns():
        h = np.zeros(w.D)
        for d in range(w.D):
            u, k = w.r.u(), w.r.index(len(w.X))
            if u > s['r_accept']:
                h[d] = w.X[k][d]
            elif u > s['r_pa']:
                h[d] = w.X[k][d] + (2 * w.r.u() - 1) * s['b_range']
            else:
                h[d] = w.lo[d] + w.r.u() * (w.hi[d] - w.lo[d])
        h = w.clip(h)
        f = w.eval(h)
        k = int(np.argmax(w.F))
        if f <= w.F[k]:
            w.X[k], w.F[k] = h, f


def one_parent(w, s):
    x, f, rho, good = w.X[0], w.F[0], 1.0, 0
    for t in w.turns(1):
        if t % s['k'] == 0:
            if good / s['k'] != 0.2:
                rho = (rho * (s['c_r'] if good / s['k'] < 0.2 else s['c_a'])) if rho > s['epsilon'] else 1.0
            good = 0
        C = [w.clip(x + rho * w.r.zs(w.D)) for _k in range(s['mu'])]
        fs = [w.eval(c) for c in C]
        k = int(np.argmin(fs))
        if fs[k] < f:
            x, f, good = C[k], fs[k], good + 1


def parents(w, s, plus=True):
    P = [(x, f, 1.0) for x, f in zip(w.X, w.F)]
    new = 0
    for t in w.turns(1):
        if plus and t % s['k'] == 0:
            if new / s['k'] != 0.2:
                P = [(x, f, r * (s['c_r'] if new / s['k'] < 0.2 else s['c_a'])) for x, f, r in P]
            new = 0
        C = []
        for _k in range(s['lam']):
            x, _f, r = P[w.r.index(len(P))]
            c = w.clip(x + r * w.r.zs(w.D))
            C.append((c, w.eval(c), 1.0))
        old = {x.tobytes() for x, _f, _r in P}
        P = sorted(C + P if plus else C, key=lambda e: e[1])[:s['mu']]
        new += sum(1 for x, _f, _r in P if x.tobytes() not in old)


# ---------------------------------------------------------------- camels
def camels(w, s):
    n = len(w.X)
    E, S, K = [float(s['endurance_init'])] * n, [float(s['supply_init'])] * n, [0] * n
    Ep, Sp = list(E), list(S)
    Xp, Fp = [x.copy() for x in w.X], list(w.F)
    for _ in w.turns():
        for i in range(n):
            temp = s['min_temperature'] + w.r.u() * (s['max_temperature'] - s['min_temperature'])
            S[i] = Sp[i] * (1 - s['burden_factor'] * K[i] / w.T)
            E[i] = Ep[i] * (1 - temp / s['max_temperature']) * (1 - K[i] / w.T)
            d = 2 * w.r.u() - 1
            x = Xp[i] + d * (1 - E[i] / s['endurance_init']) * math.exp(1 - S[i] / s['supply_init']) * (w.b - Xp[i])
            if np.all(x >= w.lo) and np.all(x <= w.hi):
                w.X[i], w.F[i] = x, w.eval(x)
            else:
                w.X[i], w.F[i] = Xp[i].copy(), Fp[i]
        for i in range(n):
            if w.r.u() > 1 - s['visibility'] and w.F[i] < Fp[i]:
                S[i], E[i] = float(s['supply_init']), float(s['endurance_init'])
        for i in range(n):
            w.better(w.X[i], w.F[i])
        for i in range(n):
            if Fp[i] < s['death_rate'] * w.F[i]:
                w.X[i] = w.lo + w.r.us(w.D) * (w.hi - w.lo)
                w.F[i] = w.eval(w.X[i])
                E[i], S[i], K[i] = float(s['endurance_init']), float(s['supply_init']), 0
            else:
                K[i] += 1
            Xp[i], Fp[i], Ep[i], Sp[i] = w.X[i].copy(), w.F[i], E[i], S[i]
        for i in range(n):
            w.better(w.X[i], w.F[i])


# ---------------------------------------------------------------- differential evolution
# strategy: (base, number of drawn vectors); the least population for which the target is left out
DE = {'rand1': 3, 'best1': 2, 'rand2': 5, 'best2': 4, 'curr2rand1': 4, 'curr2best1': 3}


def trial(w, X, i, how, f, cr):
    """A trial vector of one of the six strategies."""
    n, D, k = len(X), w.D, DE[how]
    j = w.r.index(D)
    r = w.r.order(n, out=(i,) if n > k else ())
    a = [X[r[m % len(r)]] for m in range(k)]
    x, b = X[i], w.b
    m = {'rand1': lambda: a[0] + f * (a[1] - a[2]), 'best1': lambda: b + f * (a[0] - a[1]),
         'rand2': lambda: a[0] + f * (a[1] - a[2]) + f * (a[3] - a[4]), 'best2': lambda: b + f * (a[0] - a[1]) + f * (a[2] - a[3]),
         'curr2rand1': lambda: x + f * (a[0] - a[1]) + f * (a[2] - a[3]), 'curr2best1': lambda: x + f * (b - a[0]) + f * (a[1] - a[2])}[how]()
    return w.clip(np.array([m[d] if w.r.u() < cr or d == j else x[d] for d in range(D)]))


def evolution(w, s, hows, dynamic=False):
    X, F = [x for x in w.X], list(w.F)
    for t in w.turns(1):
        new = []
        for i in range(len(X)):
            best = None
            for how in hows(s):
                x = trial(w, X, i, how, s['differential_weight'], s['crossover_probability'])
                f = w.eval(x)
                if best is None or f < best[1]:
                    best = (x, f)
            new.append(best)
        for i, (x, f) in enumerate(new):
            if f < F[i]:
                X[i], F[i] = x, f
        for x, f in zip(X, F):
            w.better(x, f, True)
        if dynamic and len(X) > 3 and t == w.E // (s['p_max'] * len(X)) + s['rp']:
            h = len(X) // 2
            keep = [i if F[i] < F[i + h] else i + h for i in range(h)]
            X, F = [X[i] for i in keep], [F[i] for i in keep]


def ageing(w, s):
    P = [[x, f, 0] for x, f in zip(w.X, w.F)]
    n, lo, hi = len(P), s['min_lifetime'], s['max_lifetime']
    mu = abs(hi - lo) / 2

    def fresh():
        x = w.lo + w.r.us(w.D) * (w.hi - w.lo)
        return [x, w.eval(x), 0]

    def part(a, b):
        return a / b if b else 1.0

    def life(f, fs):
        avg, gb, gw = sum(fs) / len(fs), min(fs), max(fs)
        if s['age'] == 'proportional':
            return min(lo + mu * (avg / f if f else math.inf), hi)
        if s['age'] == 'linear':
            return lo + 2 * mu * part(f - gw, gb - gw)
        return lo + mu * part(f - gw, gb - gw) if avg < f else (lo + hi) / 2 + mu * part(f - avg, gb - avg)

    for t in w.turns(1):
        X = [p[0] for p in P]
        new = []
        for i in range(len(P)):
            x = trial(w, X, i, 'rand1', s['differential_weight'], s['crossover_probability'])
            new.append([x, w.eval(x), 0])
        P = [c if c[1] < p[1] else p for p, c in zip(P, new)]
        P += [fresh() for _ in range(int(round(max(1, n * s['delta_np'] * abs(math.sin(t))))))]
        for x, f, _a in P:
            w.better(x, f, True)
        fs = [p[1] for p in P]
        P = [[x, f, a + 1] for x, f, a in P]
        P = [p for p in P if p[2] <= round(life(p[1], fs))]
        if not P:
            P = [fresh() for _ in range(n)]
            for x, f, _a in P:
                w.better(x, f, True)
        if len(P) > n:
            k = int(round(max(1, n * s['delta_np'] * abs(math.cos(t)))))
            if len(P) > k:
                gone = set(w.r.order(len(P))[:k])
                P = [p for i, p in enumerate(P) if i not in gone or w.r.u() >= s['omega']]


def success_history(w, s, shrink=False, improved=False):
    n0, H = len(w.X), s['hist_mem_size']
    P = [(x, f) for x, f in zip(w.X, w.F)]
    mf, mc, k = [0.5] * H, [0.8 if improved else 0.5] * H, 0
    A, rate = [], s['extern_arc_rate']
    pb = s['pbest_start'] if improved else s['pbest_factor']

    def parameters():
        m = w.r.index(H)
        c, f = (0.9, 0.9) if improved and m == H - 1 else (mc[m], mf[m])
        cr = 0.0 if (c < 0 if improved else c == -1) else min(max(c + 0.1 * w.r.z(), 0.0), 1.0)
        v = 0.0
        while v <= 0:
            v = f + 0.1 * math.tan(math.pi * (w.r.u() - 0.5))
        v = min(v, 1.0)
        if improved:
            spent = len(w.xs) / w.E
            cr = max(cr, 0.5 if spent < 0.25 else 0.25 if spent < 0.5 else 0.0)
            v = min(v, 0.7 if spent < 0.25 else 0.8 if spent < 0.5 else 0.9 if spent < 0.75 else 1.0)
        return v, cr

    for _ in w.turns():
        P = sorted(P, key=lambda e: e[1])
        n = len(P)
        params = [parameters() for _i in range(n)]
        top = max(2, round(n * pb))
        new = []
        for i, (f, cr) in enumerate(params):
            x, best = P[i][0], P[w.r.index(top)][0]
            r1 = w.r.order(n, out=(i,))[0]
            r2 = w.r.order(n + len(A), out=(i, r1))[0]
            other = P[r2][0] if r2 < n else A[r2 - n]
            j = w.r.index(w.D)
            v = np.array([x[d] + f * (best[d] - x[d]) + f * (P[r1][0][d] - other[d]) if w.r.u() < cr or d == j else x[d] for d in range(w.D)])
            v = np.where(v < w.lo, (w.lo + x) / 2, np.where(v > w.hi, (w.hi + x) / 2, v))
            new.append(v)
        new = [(v, w.eval(v)) for v in new]
        wins, size = [], round(n * rate)
        Q = list(P)
        for i, (v, f) in enumerate(new):
            if f <= P[i][1]:
                Q[i] = (v, f)
            if f < P[i][1]:
                if size > 1:
                    if len(A) < size:
                        A.append(P[i][0])
                    else:
                        A[w.r.index(size)] = P[i][0]
                wins.append((P[i][1] - f,) + params[i])
        P = Q
        if wins:
            sf, sc = sum(d * f for d, f, _c in wins), sum(d * c for d, _f, c in wins)
            lf = sum(d * f * f for d, f, _c in wins) / sf
            lc = -1 if sc == 0 or mc[k] == -1 else sum(d * c * c for d, _f, c in wins) / sc
            mf[k], mc[k] = ((lf + mf[k]) / 2, (lc + mc[k]) / 2) if improved else (lf, lc)
            k = (k + 1) % H
        if shrink:
            m = max(4, round((4.0 - n0) / w.E * len(w.xs) + n0))
            if m < n:
                while len(P) > m:
                    worst = max(range(len(P)), key=lambda i: P[i][1])
                    P = P[:worst] + P[worst + 1:]
                A = A[:int(m * rate)]
                if improved:
                    pb = (s['pbest_end'] - s['pbest_start']) / w.E * len(w.xs) + s['pbest_start']


# ---------------------------------------------------------------- hybrid bats
def hybrid_bat(w, s, adaptive=False):
    n, D = len(w.X), w.D
    V = np.zeros((n, D))
    A = np.full(n, float(s['starting_loudness'])) if adaptive else s['loudness']
    R = np.full(n, float(s['pulse_rate']))
    for t in w.turns():
        if not adaptive:
            A *= s['alpha']
            R[:] = s['pulse_rate'] * (1 - math.exp(-s['gamma'] * t))
        for i in range(n):
            if adaptive:
                if w.r.u() < s['tao_1']:
                    A[i] = s['min_loudness'] + w.r.u() * (s['max_loudness'] - s['min_loudness'])
                if w.r.u() < s['tao_2']:
                    R[i] = s['min_pulse_rate'] + w.r.u() * (s['max_pulse_rate'] - s['min_pulse_rate'])
            V[i] += (w.X[i] - w.b) * (s['min_frequency'] + (s['max_frequency'] - s['min_frequency']) * w.r.u())
            u = w.r.u()
            if u > R[i] if adaptive else u < R[i]:
                c = trial(w, w.X, i, s['strategy'], s['differential_weight'], s['crossover_probability'])
            else:
                c = w.clip(w.X[i] + V[i])
            f = w.eval(c)
            if f <= w.F[i]:
                u = w.r.u()
                if u < (s['min_loudness'] - A[i]) / s['starting_loudness'] if adaptive else u > A:
                    w.X[i], w.F[i] = c, f
            w.better(c, f)


# ---------------------------------------------------------------- butterflies, bees with dances, antibodies, cats, mantises
def butterflies(w, s):
    n, D = len(w.X), w.D
    a = math.ceil(s['partition'] * n)
    o = np.argsort(w.F, kind='stable')
    X = w.X[o]
    lead = X[0].copy()
    for t in w.turns():
        elite, Y = X[:2].copy(), X.copy()
        for i in range(a):
            for d in range(D):
                Y[i, d] = X[w.r.index(a), d] if w.r.u() * s['period'] <= s['partition'] else X[a + w.r.index(n - a), d]
        Z = np.array([w.clip(y) for y in Y])
        for i in range(a, n):
            dx = [sum(math.tan(math.pi * w.r.u()) for _k in range(10)) for _d in range(D)]
            for d in range(D):
                if w.r.u() >= s['partition']:
                    Y[i, d] = lead[d]
                else:
                    Y[i, d] = Z[a + w.r.index(n - a), d]
                    if w.r.u() > s['partition']:
                        Y[i, d] += (dx[d] - 0.5) / (t + 1) ** 2
        X = np.array([w.clip(y) for y in Y])
        X = X[np.argsort([w.eval(x) for x in X], kind='stable')]
        lead = X[0].copy()
        X[-2:] = elite
        X = X[np.argsort([w.eval(x) for x in X], kind='stable')]


def dances(w, s):
    P = sorted(zip(w.F, range(len(w.X)), w.X), key=lambda e: e[0])
    P = [(f, x) for f, _i, x in P]
    r = s['ngh']
    for _ in w.turns():
        for i in range(s['m']):
            found = []
            for _k in range(s['nep'] if i < s['e'] else s['nsp']):
                y = P[i][1].copy()
                y[w.r.index(w.D)] += r * (2 * w.r.u() - 1)
                y = w.clip(y)
                found.append((w.eval(y), y))
            best = min(found, key=lambda e: e[0])
            if best[0] < P[i][0]:
                P[i] = best
        for i in range(s['m'], len(P)):
            x = w.lo + w.r.us(w.D) * (w.hi - w.lo)
            P[i] = (w.eval(x), x)
        P.sort(key=lambda e: e[0])
        r *= 0.95


def antibodies(w, s):
    n, D, b = len(w.X), w.D, s['bits_per_param']
    top = 2 ** b - 1

    def value(bits):
        return w.lo + (w.hi - w.lo) * np.array([int(''.join(map(str, row)), 2) for row in bits]) / top

    def cell(bits):
        x = value(bits)
        return (w.eval(x), bits)

    def best(cells):
        return sorted(cells, key=lambda e: e[0])[:n]

    P = []
    for f, x in zip(w.F, w.X):
        P.append((f, [[int(c) for c in format(int(round(v)), '0%db' % b)] for v in (x - w.lo) / (w.hi - w.lo) * top]))
    for _ in w.turns():
        C = []
        for f, bits in P:
            for _k in range(int(n * s['clone_factor'])):
                keep = math.exp(min(700.0, -s['mutation_factor'] * f))
                C.append([[1 - v if w.r.u() > keep else v for v in row] for row in bits])
        P = best(P + [cell(c) for c in C])
        new = [[[int(w.r.u() > 0.5) for _b in range(b)] for _d in range(D)] for _k in range(s['num_rand'])]
        P = best(P + [cell(c) for c in new])


def cats(w, s):
    n, D = len(w.X), w.D
    V = np.array([s['max_velocity'] * (2 * w.r.us(D) - 1) for _i in range(n)])
    for _ in w.turns():
        tracing = set(w.r.order(n)[:int(n * s['mixture_ratio'])])
        for k in range(n):
            if k in tracing:
                V[k] = np.clip(V[k] + w.r.us(D) * s['c1'] * (w.b - w.X[k]), -s['max_velocity'], s['max_velocity'])
                w.X[k] = w.clip(w.X[k] + V[k])
                w.F[k] = w.eval(w.X[k])
                w.better(w.X[k], w.F[k], True)
                continue
            C = []
            for _j in range(s['smp'] - bool(s['spc'])):
                c = w.X[k].copy()
                dims = w.r.order(D)[:int(D * s['cdc'])]
                g = 1 + s['srd'] if w.r.index(2) == 1 else 1 - s['srd']
                c[dims] = c[dims] * g
                c = w.clip(c)
                C.append((w.eval(c), c))
            if s['spc']:
                C.append((w.F[k], w.X[k].copy()))
            fs = [f for f, _c in C]
            p = [abs(f - max(fs)) / (max(fs) - min(fs)) if max(fs) > min(fs) else 1.0 for f in fs]
            b = min(C, key=lambda e: e[0])
            if b[0] < w.fb:
                i = w.r.index(n)
                w.X[i], w.F[i] = b[1], b[0]
            u, acc = w.r.u() * sum(p), 0.0
            pick = len(p) - 1
            for i, v in enumerate(p):
                acc += v
                if acc >= u:
                    pick = i
                    break
            w.F[k], w.X[k] = C[pick]
            w.better(b[1], b[0], True)


def mantises(w, s):
    n, D = len(w.X), w.D
    role = [int(np.round(1 + 2 * w.r.u())) for _i in range(n)]
    lo, hi = (np.full(D, -1.0), np.full(D, 1.0)) if s['normalize_space'] else (w.lo, w.hi)

    def inner(x):
        return 2 * (x - w.lo) / (w.hi - w.lo) - 1 if s['normalize_space'] else x

    def outer(x):
        return w.clip(w.lo + (x + 1) / 2 * (w.hi - w.lo)) if s['normalize_space'] else x

    def nearest(a, eighths):
        return min(abs(a - e * math.pi / 8) for e in eighths)

    def polarised(a):
        e = a / (math.pi / 8)
        kind = 1 if 3 <= e <= 5 else 2 if e <= 1 or e >= 7 else 3
        return kind, nearest(a, {1: (4,), 2: (0, 8), 3: (2, 6)}[kind])

    def reflect(x):
        x = x.copy()
        for _i in range(10):
            if np.all(x >= lo) and np.all(x <= hi):
                break
            x = np.where(x < lo, 2 * lo - x, x)
            x = np.where(x > hi, 2 * hi - x, x)
        return np.minimum(np.maximum(x, lo), hi)

    for _ in w.turns():
        X, b = [inner(x) for x in w.X], inner(w.b)
        Y = []
        for i in range(n):
            if role[i] == 1:
                r = w.r.index(n)
                r = (r + 1) % n if r == i and n > 1 else r
                y = b - (X[i] - b) + (2 * w.r.u() - 1) * (X[r] - X[i])
            elif role[i] == 2:
                y = b * math.cos(math.pi * (1 + w.r.u()))
            else:
                y = b * (1 + s['k_value']) if w.r.u() < 0.5 else b * (1 - s['k_value'])
            Y.append(reflect(y) if s['use_reflection'] else np.minimum(np.maximum(y, lo), hi))
        w.X = np.array([outer(y) for y in Y])
        w.F = np.array([w.eval(x) for x in w.X])
        k = int(np.argmin(w.F))
        w.better(w.X[k], w.F[k], True)
        for i in range(n):
            m = np.linalg.norm(X[i]) * np.linalg.norm(Y[i])
            left = polarised(math.acos(min(1.0, max(-1.0, float(np.dot(X[i], Y[i])) / m))) if m else 0.0)
            right = polarised(w.r.u() * math.pi)
            role[i] = left[0] if left[1] < right[1] else right[0]


# ---------------------------------------------------------------- fireworks
def fireworks(w, s, enhanced=False):
    n, D, eps = len(w.X), w.D, np.finfo(float).eps

    def back(x):
        for d in range(D):
            if x[d] < w.lo[d] or x[d] > w.hi[d]:
                x[d] = w.lo[d] + w.r.u() * (w.hi[d] - w.lo[d]) if enhanced else min(w.hi[d], w.lo[d] + x[d] % (w.hi[d] - w.lo[d]))
        return x

    def some():
        k = w.r.index(D + 1)
        return w.r.order(D)[:k]

    for _ in w.turns():
        F = np.array(w.F)
        counts, share = [], s['num_sparks'] * (max(F) - F + eps) / (np.sum(max(F) - F) + eps)
        for v in share:
            if v < s['a'] * s['num_sparks']:
                counts.append(round(s['a'] * s['num_sparks']))
            elif v > s['b'] * s['num_sparks'] and s['a'] < s['b'] < 1:
                counts.append(round(s['b'] * s['num_sparks']))
            else:
                counts.append(round(v))
        amp = s['max_amplitude'] * (F - min(F) + eps) / (np.sum(F - min(F)) + eps)
        if enhanced:
            e = len(w.xs)
            amp = np.maximum(amp, s['amplitude_init'] - math.sqrt(e * (2 * w.E - e)) * (s['amplitude_init'] - s['amplitude_final']) / w.E)
        S = [x.copy() for x in w.X]
        for i in range(n):
            for _k in range(counts[i]):
                x, z = w.X[i].copy(), some()
                if enhanced:
                    for d in z:
                        x[d] += amp[i] * (2 * w.r.u() - 1)
                else:
                    x[z] = x[z] + amp[i] * (2 * w.r.u() - 1)
                S.append(back(x))
        for i in w.r.order(len(S))[:s['num_gaussian']]:
            x, z = S[i].copy(), some()
            g = w.r.z()
            x[z] = x[z] + (w.b[z] - x[z]) * g if enhanced else x[z] * (1 + g)
            S.append(back(x))
        fs = [w.eval(x) for x in S]
        b = int(np.argmin(fs))
        if enhanced:
            X, G = w.X.copy(), list(w.F)
            if fs[b] < G[0]:
                X[0], G[0] = S[b], fs[b]
            for i in range(1, n):
                r = w.r.index(len(S))
                if fs[r] < G[i]:
                    X[i], G[i] = S[r], fs[r]
        else:
            rest = [i for i in range(len(S)) if i != b]
            dist = [sum(np.linalg.norm(S[i] - S[j]) for j in rest) for i in rest]
            out = [i for i, v in enumerate(dist) if v == 0] if sum(v != 0 for v in dist) >= n - 1 else []
            pick = [rest[i] for i in w.r.order(len(rest), out=out, weights=dist if sum(v != 0 for v in dist) >= n - 1 else None)[:n - 1]]
            X, G = np.array([S[b]] + [S[i] for i in pick]), [fs[b]] + [fs[i] for i in pick]
        w.X, w.F = X, np.array(G)
        w.better(S[b], fs[b], True)


# ---------------------------------------------------------------- self-adaptive differential evolution
def jde(w, s):
    P = [(x, f, 2, 0.5) for x, f in zip(w.X, w.F)]
    for _ in w.turns():
        par = []
        for _x, _f, f, cr in P:
            if w.r.u() < s['tao1']:
                f = s['f_lower'] + w.r.u() * (s['f_upper'] - s['f_lower'])
            if w.r.u() < s['tao2']:
                cr = w.r.u()
            par.append((f, cr))
        X = [p[0] for p in P]
        new = [trial(w, X, i, s['strategy'], f, cr) for i, (f, cr) in enumerate(par)]
        new = [(x, w.eval(x)) + q for x, q in zip(new, par)]
        P = [c if c[1] < p[1] else p for p, c in zip(P, new)]
        for p in P:
            w.better(p[0], p[1], True)
