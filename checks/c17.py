"""C17: counter and register notation (spec/Notation.tla)."""


def run(ctx):
    from kerncraft.models import benchmark as b
    from kerncraft.machinemodel import MachineModel
    rng = ctx.rng

    # ---- registers denoted by every notation up to a bound (reading automaton) ---------------
    r = ctx.model('MCNotation', 'Notation.cfg', timeout=500,
                  consts={'MaxLen': ctx.pick(5, 7), 'MaxDone': ctx.pick(1, 2)})
    seen = {p['text']: sorted(p['regs']) for p in r.prints}
    big = ctx.tlc('MCNotation', 'Notation.cfg', count=False, timeout=300,
                  consts={'MaxLen': 12, 'MaxDone': 3, 'Chars': '{"0", "1", "7", "C", "b", "B", "X"}',
                          'Words': '{"PMC", "MBOX", "CBOX1", "_"}'},
                  args=['-simulate', 'num=%d' % ctx.pick(2000, 20000), '-depth', '40', '-seed', str(ctx.seed)])
    seen.update((p['text'], sorted(p['regs'])) for p in big.prints)
    for text, regs in sorted(seen.items()):
        ok, got = ctx.guarded('registers %s' % text, lambda: sorted(set(b.register_options(text))), _seconds=20)
        ctx.case(('reg', text))
        ctx.traces += 1
        if ok and got != regs:
            ctx.violation('registers %s' % text, '%r denotes %r, code answers %r' % (text, regs, got), text)
    ctx.sample({'notation': text, 'registers': regs})
    # characters of a group on their own
    for text, regs in sorted(seen.items()):
        if text.startswith('[') and text.count('[') == 1 and text.endswith(']'):
            ok, got = ctx.guarded('group %s' % text, lambda: sorted(set(b.group_iterator(text[1:-1]))))
            if ok and got != regs:
                ctx.violation('group %s' % text, 'wanted %r got %r' % (regs, got))

    # ---- event notation ---------------------------------------------------------------------
    r = ctx.tlc('MCNotation', 'NotationEvents.cfg', timeout=300, consts={'MaxParams': ctx.pick(2, 4)})
    for p in r.prints:
        params = list(p['params'])
        ok, got = ctx.guarded('event %s' % p['text'], MachineModel.parse_perfctr_event, p['text'])
        ctx.case(('event', p['text']))
        ctx.traces += 1
        if not ok:
            continue
        if len(got) != 3 or (got[0], got[1], list(got[2])) != (p['event'], p['reg'], params):
            ctx.violation('event %s' % p['text'], 'read as %r' % (got,))
            continue
        forms = {
            'tuple': lambda: b.eventstr(got),
            'keywords': lambda: b.eventstr(event=p['event'], register=p['reg'], parameters=tuple(params)),
            'keyword list': lambda: b.eventstr(event=p['event'], register=p['reg'], parameters=list(params)),
        }
        if not params:
            forms.update({
                'pair': lambda: b.eventstr((p['event'], p['reg'])),
                'none': lambda: b.eventstr((p['event'], p['reg'], None)),
                'two keywords': lambda: b.eventstr(event=p['event'], register=p['reg'])})
        before = repr(got)
        for name, f in sorted(forms.items()):
            for _ in range(2):
                ok, s = ctx.guarded('eventstr-%s' % name, f)
                if ok and s != p['text']:
                    ctx.violation('eventstr-%s %s' % (name, p['text']), 'written as %r' % s)
        if repr(got) != before:
            ctx.violation('eventstr-changes-event', '%s became %r' % (before, got))
    ctx.sample({'event': p['text'], 'parts': [p['event'], p['reg'], params]})

    # ---- notations without a register are no counters -----------------------------------------
    for text in ('L1D_REPLACEMENT', 'A', '', 'PMC0', 'A=B'):
        try:
            got = MachineModel.parse_perfctr_event(text)
        except Exception:
            got = None
        ctx.case(('malformed', text))
        if got is not None:
            ctx.violation('malformed-accepted %r' % text, 'read as %r' % (got,))
    for text in ('PMC0|', '|PMC0', '', 'PMC[0-3]||PMC4'):
        try:
            with ctx.limit(20, 'register_options %r' % text):
                got = list(b.register_options(text))
        except Exception:
            got = None
        if got is not None and any(not g for g in got):
            ctx.violation('malformed-accepted %r' % text, 'denotes %r' % (got,))
    ctx.assume('brackets are balanced, do not contain "|", and ranges stay within lower case, upper case or digits')
