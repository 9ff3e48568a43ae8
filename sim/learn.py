"""Learners from JSON specifications, and the selections made with them."""
import copy
import numpy as np
from sim import lopsys as L, seams

SIMPLE = ('best', 'worst', 'ucb', 'gvucb', 'random', 'mutual', 'bayes', 'acq')
MIXED = ('ratechoose', 'mixedcomp', 'setfixed', 'alternating', 'equal', 'align',
         'strategy', 'peak', 'peak2', 'peak3', 'revpeak', 'decision', 'decision2')
# learners which answer a selection of one kind by a rating query of one point
HAS_PAIR = ('bayes', 'acq')
ALIGN_F = ('rho', 'loglikelihood', 'epic', 'spearman')


def gen_learner(rng, kinds=SIMPLE + ('absacq',) + MIXED, sub=None, small=True, M=None):
    k = rng.choice(list(kinds))
    s = dict(l=k, par=rng.random() < 0.15, best=rng.random() < 0.3)
    M = M or rng.choice([3, 5, 12, 20] if small else [30, 60])
    if k in ('ucb', 'gvucb'):
        s['alpha'] = rng.choice([0.5, 1, 1, 2.0, 0])
    elif k == 'bayes':
        s['m'] = rng.choice(['probit', '999', '99'])
    elif k in ('acq', 'absacq'):
        s['M'], s['f'] = M, rng.choice(ALIGN_F)
        s['rep'] = dict(num_pts=rng.choice([4, 8, 30]), num_Q=rng.choice([3, 10, 50]))
    elif k in MIXED:
        par, best = s['par'], s['best']
        f = rng.choice(ALIGN_F) if k != 'align' else rng.choice(['epic', 'spearman'])
        rep = dict(num_pts=rng.choice([4, 8]), num_Q=10)
        acq = dict(l='acq', par=par, best=best, M=M, f=f, rep=rep)
        # sampled outputs are shared: both learners represent queries by as many points
        # a rating learner that always takes the best has no metric to compare
        absq = dict(l='absacq', par=par, best=False, M=M, f=rng.choice(ALIGN_F), rep=rep)
        simple = sub or ('best', 'ucb', 'random', 'gvucb', 'acq', 'bayes')
        s['pair'], s['abs'] = acq, absq
        if k in ('mixedcomp', 'equal', 'decision', 'decision2'):
            s['comp'] = absq
            s['abs'] = gen_learner(rng, ('best', 'ucb', 'random', 'absacq'), small=small, M=M)
        elif k in ('setfixed', 'alternating', 'strategy', 'peak', 'peak2', 'peak3', 'revpeak'):
            s['pair'] = gen_learner(rng, simple, small=small, M=M)
            s['abs'] = gen_learner(rng, ('best', 'ucb', 'random', 'absacq'), small=small, M=M)
        elif k == 'align':
            s['abs'] = gen_learner(rng, ('best', 'ucb', 'random'), small=small, M=M)
            s['n'] = rng.choice([0, 1, 2, 3, 4])
        if k == 'mixedcomp':
            s['alpha'] = rng.choice([0.5, 0.5, 0.3, 0.7])
        if k == 'equal':
            s['eta'] = rng.choice([0.06, 0.3, 0.0])
        if k == 'strategy':
            s['p'] = rng.choice([0.0, 0.3, 0.5, 0.8, 1.0])
        if k in ('peak', 'peak2'):
            s['p'] = 0
        if k in ('peak3', 'revpeak', 'decision', 'decision2'):
            s['p'] = rng.choice([0.1, 0.3, 0.5])
    return s


class CappedM:
    """mixin: AlignmentDecision asks its comparison learner for 8000 samples."""
    CAP = 60

    def get_samples_from_model(self, *a, **k):
        if self.M > self.CAP:
            self.M = self.CAP
        return super().get_samples_from_model(*a, **k)


_CAPPED = None


def capped():
    global _CAPPED
    if _CAPPED is None:
        from lop.active_learning import AcquisitionSelection
        class CappedAcquisition(CappedM, AcquisitionSelection):
            pass
        _CAPPED = CappedAcquisition
    return _CAPPED


def build_learner(s, stub=None):
    """stub: callable(spec) -> learner or None, to replace sub-learners."""
    from lop import active_learning as A
    if s is None:
        return None
    if stub is not None:
        r = stub(s)
        if r is not None:
            return r
    k = s['l']
    kw = dict(default_to_pareto=s.get('par', False), always_select_best=s.get('best', False))
    b = lambda n: build_learner(s[n], stub)
    if k == 'best':
        return A.BestLearner(**kw)
    if k == 'worst':
        return A.WorstLearner(**kw)
    if k == 'ucb':
        return A.UCBLearner(s['alpha'], **kw)
    if k == 'gvucb':
        return A.GV_UCBLearner(s['alpha'], **kw)
    if k == 'random':
        return A.RandomLearner(**kw)
    if k == 'mutual':
        return A.MutualInfoLearner(**kw)
    if k == 'prob':
        return A.ProbabilityLearner(**kw)
    if k == 'bayes':
        return A.BayesInfoGain(p_q_B_method=s['m'], **kw)
    if k == 'acq' and s.get('plain'):
        return capped()(M=s['M'])
    if k == 'absacq' and s.get('plain'):
        return A.AbsAcquisition(M=s['M'])
    if k == 'acq':
        return capped()(M=s['M'], rep_Q_data=dict(s['rep']), alignment_f=s['f'], **kw)
    if k == 'absacq':
        return A.AbsAcquisition(M=s['M'], rep_Q_data=dict(s['rep']), alignment_f=s['f'], **kw)
    if k == 'ratechoose':
        return A.RateChooseLearner(b('pair'), b('abs'), **kw)
    if k == 'mixedcomp':
        return A.MixedComparision(b('pair'), b('abs'), b('comp'), alpha=s['alpha'], **kw)
    if k == 'setfixed':
        return A.MixedComparisionSetFixed(b('pair'), b('abs'), **kw)
    if k == 'alternating':
        return A.MixedAlternating(b('pair'), b('abs'), **kw)
    if k == 'equal':
        return A.MixedComparisionEqualChecking(b('pair'), b('abs'), b('comp'), eta_2_limit=s['eta'], **kw)
    if k == 'align':
        return A.AlignmentDecision(b('pair'), b('abs'), s['n'], **kw)
    if k == 'strategy':
        return A.MixedStrategy(b('pair'), b('abs'), s['p'], **kw)
    if k == 'peak':
        return A.MixedStrategyPeak(b('pair'), b('abs'), s['p'], **kw)
    if k == 'peak2':
        return A.MixedStrategyPeak2(b('pair'), b('abs'), s['p'], **kw)
    if k == 'peak3':
        return A.MixedStrategyPeak3(b('pair'), b('abs'), s['p'], **kw)
    if k == 'revpeak':
        return A.MixedStrategyRevPeak(b('pair'), b('abs'), s['p'], **kw)
    if k == 'decision':
        return A.MixedDecision(b('pair'), b('abs'), b('comp'), s['p'], **kw)
    if k == 'decision2':
        return A.MixedDecision2(b('pair'), b('abs'), b('comp'), s['p'], **kw)
    raise ValueError(k)


def plain(s):
    """The specification with constructor defaults."""
    s = copy.deepcopy(s)
    for x in subs(s):
        if x['l'] not in MIXED or 'p' not in x:
            x.update(par=False, best=False)
        x['plain'] = True
    return s


def subs(s):
    """The specification and all its sub-specifications."""
    out = [s]
    for n in ('pair', 'abs', 'comp'):
        if n in s:
            out += subs(s[n])
    return out


def uses(s, *kinds):
    return any(x['l'] in kinds for x in subs(s))


# ------------------------------------------------------------------ selections
def gen_query(rng, spec, n, mixed=None):
    """Arguments of one selection from n candidates."""
    mixed = spec['l'] in MIXED if mixed is None else mixed
    k = rng.choice([1, 2, 2, 2, 3, 4]) if not mixed else 2
    if spec['l'] == 'absacq':
        k = rng.choice([1, 1, 2, 4])             # answers with one rating query whatever is asked
    prev = []
    if not mixed and rng.random() < 0.4:
        prev = sorted(rng.sample(range(n), rng.randint(1, max(1, n // 3))))
    pref = rng.choice([None, None, None, 0, 'pareto', 'num', 'list', 'set'])
    if pref == 'num':
        pref = rng.randint(1, n)
    elif pref in ('list', 'set'):
        pref = [pref, sorted(rng.sample(range(n), rng.randint(1, n)))]
    return dict(n=n, k=k, prev=prev, pref=pref, ns=False if mixed else rng.random() < 0.4, pair=rng.random() < 0.85,
                prevt=rng.choice(['list', 'set', 'set', 'tuple']), call=rng.choice(['full', 'short']))


def prev_arg(q):
    return dict(list=list, set=set, tuple=tuple)[q.get('prevt', 'list')](q['prev'])


def prefer_arg(p):
    if isinstance(p, list):
        return set(p[1]) if p[0] == 'set' else list(p[1])
    return p


def call(l, cand, q, prev=None, pref=None):
    """The call itself: all arguments, or only those which are not the defaults."""
    prev = prev_arg(q) if prev is None else prev
    pref = prefer_arg(q['pref']) if pref is None else pref
    if q.get('call', 'full') == 'full':
        return l.select(cand, q['k'], prev, pref, q['ns'], q.get('pair', True))
    kw = {}
    if q['prev']:
        kw['prev_selection'] = prev
    if pref is not None:
        kw['prefer_pts'] = pref
    if q['ns']:
        kw['return_not_selected'] = True
    if not q.get('pair', True):
        kw['select_pair_first'] = False
    return l.select(cand, q['k'], **kw)


def select(model, cand, q, learner=None):
    """Performs the selection; -> (selected, not_selected or None)"""
    l = learner if learner is not None else model.active_learner
    r = call(l, cand, q)
    return unpack(r, q['ns'])


def unpack(r, ns):
    if ns:
        return [int(i) for i in r[0]], [int(i) for i in r[1]]
    return [int(i) for i in r], None


def simpler(q):
    for k, v in (('ns', False), ('prev', []), ('pref', None), ('pair', True)):
        if q.get(k) != v:
            yield dict(q, **{k: v})
    if q['k'] > 2:
        yield dict(q, k=2)


def warm():
    """Compiles what is compiled lazily, before worker processes are forked."""
    import lop
    from lop.active_learning import AcquisitionSelection as m
    m = __import__('sys').modules['lop.active_learning.AcquisitionSelection']
    f = np.zeros((2, 2))
    m.quick_calculation_sum_align_q(f, np.zeros((2, 3, 3)))
    m = __import__('sys').modules['lop.active_learning.AbsAcquisition']
    m.fast_sum_Q(np.ones((2, 3)), np.ones(3), f, 2)
