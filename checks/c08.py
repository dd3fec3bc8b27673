"""C08: source cleaning (spec/Cleaner.tla, spec/CleanerTrace.tla)."""


def run(ctx):
    from kerncraft.pycparser_utils import clean_code

    def call(text, c, m, p):
        return ctx.guarded('clean %r comments=%d macros=%d pragmas=%d' % (text, c, m, p),
                           lambda: clean_code(text, comments=c, macros=m, pragmas=p), _seconds=10)

    confs = [('Cleaner.cfg', ctx.pick(7, 9)), ('CleanerAll.cfg', ctx.pick(4, 5))]
    for cfg, maxlen in confs:
        r = ctx.model('MCCleaner', cfg, timeout=700, heap='8g', consts={'MaxLen': maxlen})
        seen = set()
        for case in r.prints:
            f = case['f']
            text = ''.join(case['t'])
            k = (text, f['comments'], f['macros'], f['pragmas'])
            if k in seen:
                continue
            seen.add(k)
            ok, got = call(*k)
            ctx.traces += 1
            ctx.case(k)
            if ok and got != ''.join(case['o']):
                ctx.violation('clean %r comments=%d macros=%d pragmas=%d' % k,
                              'returned %r, must be %r' % (got, ''.join(case['o'])), case)
            if len(ctx.violations) > 20:
                return
        ctx.sample(r.prints[len(r.prints) // 2])
    # defaults: comments only
    if clean_code('#pragma x\n#define y // z\n') != '#pragma x\n#define y \n':
        ctx.violation('defaults', 'default call must strip comments only')

    # long texts, split into the same symbols
    def toks(s):
        out, i = [], 0
        while i < len(s):
            if s.startswith('#pragma', i):
                out.append('#pragma')
                i += 7
            else:
                out.append(s[i])
                i += 1
        return out

    rng = ctx.rng
    words = ['a', 'b[i] = 3;', ' ', '  ', '\n', '\n', '/', '*', '//', '/*', '*/', '// x', '/* y\nz */',
             '/**/', '/***/', '/*/', '#define N 3', '#pragma omp for', '\\\n', '#', '\n#include',
             '\n  #pragma', '"s"', "'c'", '/* a */ /* b */', '// /* c', '*/*']
    events = []
    for i in range(ctx.pick(300, 3000)):
        s = ''.join(rng.choice(words) for _ in range(rng.randint(3, 40)))
        c, m, p = rng.random() < .85, rng.random() < .3, rng.random() < .3
        ok, got = call(s, c, m, p)
        if ok:
            events.append(dict(t=toks(s), c=int(c), m=int(m), p=int(p), o=toks(got)))
            ctx.traces += 1
            ctx.case((s, c, m, p))
    ctx.sample(events[0])
    ctx.validate('CleanerTrace', events, describe=lambda v, ev: (
        'clean %r c=%d m=%d p=%d' % (''.join(ev['t']), ev['c'], ev['m'], ev['p']),
        'returned %r, must be %r' % (''.join(ev['o']), ''.join(v['want']))))
    ctx.assume('comment-like text inside string literals counts as a comment (documented)')
    ctx.extra['exhaustive'] = True
    ctx.extra['rule'] = 'all symbol strings up to the bound, and seeded long texts'
