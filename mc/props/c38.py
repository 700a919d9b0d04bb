"""C38: copies of a model are equal to it and independent of it."""

import copy
import pickle

import numpy as np

from mc import models

PROP = 'C38'
BOUNDS = {
    'quick': '50 configurations of all nine models x every history of up to '
             '2 calls (of up to 1 call for the FEM-BV models and the '
             'configurations with up to 90 samples), including none x '
             'copies by deepcopy, pickle protocols 2 and 5 and a chain of '
             'both x both orders of use x every next call, on copy and '
             'original, compared with a never copied model of the same '
             'history',
    'thorough': 'as quick with histories of up to 3 (2) calls',
}
CASE_LIMIT = 240
CHUNK = 2


def through_pickle(protocol):
    return lambda m: pickle.loads(pickle.dumps(m, protocol))


COPIES = (('deepcopy', copy.deepcopy), ('pickle 2', through_pickle(2)),
          ('pickle 5', through_pickle(5)),
          ('copy of a copy', lambda m: copy.deepcopy(
              through_pickle(4)(m))))


def slow(spec):
    return isinstance(spec, models.FEMBVSpec) or spec.shapes is models.BIG


def reduced(spec):
    """Calls used in the histories and afterwards."""
    fits, spec.fits = spec.fits, spec.fits[1:2]
    try:
        return spec.ops(sets=(0, 2) if not slow(spec) else (0,),
                        horizons=(2,))
    finally:
        spec.fits = fits


def paths(spec, depth):
    ops = reduced(spec)

    def extend(prefix, fitted):
        yield prefix, fitted
        if len(prefix) == depth:
            return
        for op in ops:
            if spec.allowed(op, fitted):
                yield from extend(prefix + (op,), op[1]
                                  if op[0] in spec.fits else fitted)
    return list(extend((), None))


def cases(tier):
    for i, spec in enumerate(models.ALL):
        depth = (1 if slow(spec) else 2) + (tier == 'thorough')
        hs = paths(spec, depth)
        step = 3 if slow(spec) else 10
        for a in range(0, len(hs), step):
            yield (i, tuple(hs[a:a + step]))


def make(spec, h):
    inst = spec.build(np.random.RandomState(8) if spec.random else 8)
    fitted = None
    for op in h:
        spec.call(inst, op, fitted)
        fitted = op[1] if op[0] in spec.fits else fitted
    return inst


def use(spec, inst, op, fitted):
    out = models.snapshot(spec.call(inst, op, fitted))
    return [out, spec.results(inst)]


def run(case, r):
    index, hs = case
    spec = models.ALL[index]
    for h, fitted in hs:
        h = tuple(h)
        ops = [op for op in reduced(spec) if spec.allowed(op, fitted)]
        want = {}
        for op in ops:
            alone = make(spec, h)
            want[op] = use(spec, alone, op, fitted)
            r.step()
        before = spec.results(make(spec, h))
        for which, duplicate in COPIES:
            for op in ops:
                for order in (0, 1):
                    model = make(spec, h)
                    other = duplicate(model)
                    ctx = dict(model=spec.name, history=h, copy=which,
                               then=op)
                    if h:  # there are no results before the first fit
                        same(r, spec, spec.results(other), before,
                             'copy differs from the model', ctx)
                    pair = [('copy', other), ('original', model)]
                    for name, inst in pair if order else pair[::-1]:
                        got = use(spec, inst, op, fitted)
                        r.step()
                        same(r, spec, got, want[op], name + ' used %s does '
                             'not behave like the model' % (
                                 'first' if (name == 'copy') == order
                                 else 'second'), ctx)
                    # the first one again, as the second was used meanwhile
                    same(r, spec, spec.results(model), want[op][1],
                         'model changed by the use of its copy', ctx)
                    same(r, spec, spec.results(other), want[op][1],
                         'copy changed by the use of the model', ctx)
                    # slow ones: both orders with one kind of copy only
                    if slow(spec) and which != 'deepcopy':
                        break
                r.state(spec.name, h, which, op)
        r.trace()


def same(r, spec, got, want, message, ctx):
    if models.differs(got, want) is None:
        return
    for a, b in zip(got, want) if isinstance(want, list) else [(got, want)]:
        if not models.close(a, b, spec.tolerance):
            r.fail(message, got=got, want=want, **ctx)
