"""A small reference model of what a preference model must hold, driven by the
delivered operations only; and the comparison with the real model."""
import numpy as np
from sim.core import Violation


class Ledger:
    """points: list of coordinate tuples, in delivery order.
    prefs: list of (winner, loser); ratings: (point, value); labels: (point, label)
    - all referring to positions in `points`."""

    def __init__(self, pareto=False, linear=False):
        self.pareto = pareto
        self.points, self.prefs, self.ratings, self.labels = [], [], [], []
        self.priors = set()              # positions delivered as prior points

    def copy(self):
        l = Ledger(self.pareto)
        l.points, l.prefs, l.ratings, l.labels = list(self.points), list(self.prefs), list(self.ratings), list(self.labels)
        l.priors = set(self.priors)
        return l

    def reset(self):
        self.points, self.prefs, self.ratings, self.labels = [], [], [], []
        self.priors = set()

    @staticmethod
    def key(row):
        return tuple(np.atleast_1d(np.asarray(row, dtype=float)).tolist())

    def add(self, X, kind, y, order=None):
        """order: which of the new points each value is for."""
        base = len(self.points)
        order = range(len(y)) if order is None else order
        self.points += [self.key(r) for r in X]
        if kind == 'pref':
            for d, u, v in y:
                # get_dk: -1 means u is preferred
                w, l = (u, v) if d < 0 else (v, u)
                self.prefs.append((base + w, base + l))
        elif kind == 'abs':
            for i, v in zip(order, y):
                self.ratings.append((base + i, min(max(float(v), 0.001), 0.999)))
        elif kind == 'ord':
            for i, v in zip(order, y):
                self.labels.append((base + i, int(v)))

    def referenced(self):
        s = set()
        for a, b in self.prefs:
            s.update((a, b))
        s.update(p for p, _ in self.ratings)
        s.update(p for p, _ in self.labels)
        if self.pareto:
            for a, b in dominance(self.points):
                s.update((a, b))
        return s

    def prune(self):
        """What adding prior points may drop: points nothing refers to."""
        keep = self.referenced()
        self.drop([i for i in range(len(self.points)) if i not in keep])

    def drop(self, idxs):
        idxs = set(idxs)
        m, k = {}, 0
        for i in range(len(self.points)):
            if i not in idxs:
                m[i] = k
                k += 1
        self.points = [p for i, p in enumerate(self.points) if i not in idxs]
        self.prefs = [(m[a], m[b]) for a, b in self.prefs]
        self.ratings = [(m[p], v) for p, v in self.ratings]
        self.labels = [(m[p], v) for p, v in self.labels]
        self.priors = {m[p] for p in self.priors if p in m}


def dominance(points):
    """(better, worse) positions: strictly larger in every coordinate."""
    out = []
    if len(points) < 2:
        return out
    P = np.array(points)
    for i in range(len(P)):
        w = np.all(P[i] > P, axis=1)
        out += [(i, int(j)) for j in np.nonzero(w)[0]]
    return out


def held(model):
    """(points, prefs, ratings, labels) as the real model holds them."""
    X = model.X_train
    pts = [] if X is None else [Ledger.key(r) for r in X]
    n = len(pts)
    y = model.y_train
    prefs, ratings, labels = [], [], []

    def ix(i):
        k = int(i)
        if k != i or not 0 <= k < n:
            raise Violation('an observation refers to point %r of %d held points' % (i, n), 'dangling-reference')
        return k

    yp = y[model.probit_idxs['relative_discrete']]
    if yp is not None:
        for d, u, v in np.asarray(yp):
            u, v = ix(u), ix(v)
            prefs.append((u, v) if d < 0 else (v, u))
    ya = y[model.probit_idxs['abs']]
    if ya is not None:
        if len(ya[0]) != len(ya[1]):
            raise Violation('ratings and their references differ in number', 'dangling-reference')
        ratings = [(ix(i), float(v)) for v, i in zip(np.asarray(ya[0]), np.asarray(ya[1]))]
    yo = y[model.probit_idxs['ordinal']]
    if yo is not None:
        if len(yo[0]) != len(yo[1]):
            raise Violation('labels and their references differ in number', 'dangling-reference')
        labels = [(ix(i), int(v)) for v, i in zip(np.asarray(yo[0]), np.asarray(yo[1]))]
    return pts, prefs, ratings, labels


def compare(model, led, where):
    pts, prefs, ratings, labels = held(model)
    if pts != led.points:
        raise Violation('%s: held points are not the delivered points in delivery order (%d held, %d expected)'
                        % (where, len(pts), len(led.points)), 'points')
    want = list(led.prefs)
    if led.pareto:
        want += dominance(led.points)
    if sorted(prefs) != sorted(want):
        miss = [p for p in want if want.count(p) > prefs.count(p)]
        extra = [p for p in prefs if prefs.count(p) > want.count(p)]
        raise Violation('%s: held preferences differ from the delivered ones: missing %s, unexpected %s'
                        % (where, miss[:4], extra[:4]), 'preferences')
    if ratings != led.ratings:
        raise Violation('%s: held ratings %s differ from the delivered ones %s' % (where, ratings[:6], led.ratings[:6]), 'ratings')
    if labels != led.labels:
        raise Violation('%s: held labels %s differ from the delivered ones %s' % (where, labels[:6], led.labels[:6]), 'labels')
