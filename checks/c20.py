"""C20: merging of result stores (spec/StoreMerge.tla)."""
import collections
import copy
import os
import pickle
import sys
import types

from checks.common import quiet


def run(ctx):
    from kerncraft import picklemerge
    from kerncraft.prefixedunit import PrefixedUnit
    rng = ctx.rng
    keysets = [{'x': 'x', 'y': 'y'},
               {'x': (('cores', 1), ('define', (('N', 100),))), 'y': (('cores', 2), ('define', (('N', 100),)))},
               {'x': 1, 'y': ()}]
    leafsets = [{1: 1, 2: 2, 3: 3}, {1: [1, 2], 2: [], 3: 'x'}, {1: None, 2: float('inf'), 3: ('a',)},
                {1: PrefixedUnit(3, 'G', 'B'), 2: 'text', 3: {1, 2}}]

    def build(t, keys, leaves, cls):
        if 'leaf' in t:
            return copy.deepcopy(leaves[t['leaf']])
        kids = t['kids'] or {}
        d = cls() if cls is not dict and rng.random() < .5 else {}
        for k in sorted(kids, reverse=rng.random() < .5):
            d[keys[k]] = build(kids[k], keys, leaves, cls)
        return d

    def plain(x):
        if isinstance(x, collections.abc.Mapping):
            return {k: plain(v) for k, v in x.items()}
        return x

    def replay(p):
        keys, leaves = rng.choice(keysets), rng.choice(leafsets)
        cls = rng.choice([dict, collections.OrderedDict])
        stores = [build(t, keys, leaves, cls) for t in p['used']]
        want = plain(build(p['result'], keys, leaves, dict))
        names = []
        pool = rng.sample(['s%d.pickle' % n for n in range(6)] + ['A.pickle', 'z', '.s'], len(stores))
        for n, s in enumerate(stores):
            names.append(pool[n])
            with open(names[-1], 'wb') as f:
                pickle.dump(s, f)
        raw = [open(n, 'rb').read() for n in names]
        text = ' + '.join(repr(plain(s)) for s in stores)
        ctx.case(('merge', text))
        ctx.traces += 1
        argv, sys.argv = sys.argv, ['picklemerge'] + names
        try:
            ok, _ = ctx.guarded('merge', picklemerge.main, _seconds=20)
        except SystemExit as e:
            ok = False
            ctx.violation('merge-exits %s' % text, repr(e))
        finally:
            sys.argv = argv
        if not ok:
            return
        with open(names[0], 'rb') as f:
            try:
                got = pickle.load(f)
            except Exception as e:
                ctx.violation('merge-unreadable %s' % text, repr(e))
                return
        if plain(got) != want:
            ctx.violation('merge-result %s' % text, 'specified %r, file holds %r' % (want, got))
        for n, r in zip(names[1:], raw[1:]):
            with open(n, 'rb') as f:
                if f.read() != r:
                    ctx.violation('merge-changes-input %s' % text, n)
        # the function itself: sources stay, and stay independent of the result
        d, sources = copy.deepcopy(stores[0]), copy.deepcopy(stores[1:])
        for s in sources:
            ok, r = ctx.guarded('update', picklemerge.update, d, s)
            if not ok:
                return
            d = r
        if plain(d) != want:
            ctx.violation('update-result %s' % text, 'specified %r, result %r' % (want, d))
        if sources != stores[1:]:
            ctx.violation('update-changes-source %s' % text, '%r became %r' % (stores[1:], sources))

    r = ctx.model('StoreMerge', 'StoreMerge.cfg', timeout=600)
    cases = sorted(r.prints, key=repr)
    if not ctx.thorough:
        cases = rng.sample(cases, 4000)
    for p in cases:
        replay(p)
    ctx.sample(cases[7])
    # longer merges of deeper stores
    sim = ctx.tlc('StoreMerge', 'StoreMerge.cfg', count=False, timeout=400,
                  consts={'MaxSources': 3, 'Leaves': '{1, 2, 3}'},
                  args=['-simulate', 'num=%d' % ctx.pick(200, 3000), '-depth', '5', '-seed', str(ctx.seed)])
    for p in sim.prints:
        replay(p)
    sim = ctx.tlc('StoreMerge', 'StoreMerge.cfg', count=False, timeout=600,
                  consts={'MaxSources': 2, 'Leaves': '{1}', 'Depth': 3},
                  args=['-simulate', 'num=%d' % ctx.pick(10, 100), '-depth', '4', '-seed', str(ctx.seed)])
    for p in sim.prints:
        replay(p)
    ctx.assume('where one store holds a result and the other a group of results, the later one counts')
