"""C21: marking assembly and pointer increments (spec/Assembly.tla, spec/AssemblyTrace.tla)."""
import hashlib
import os
import re
import tempfile
import traceback

from checks.common import quiet
from checks.simproc import parallel
from lib.core import MachineryError

R64 = dict(zip(['r%d' % i for i in range(8)], ['rax', 'rdi', 'rcx', 'r8', 'rdx', 'r15', 'rsi', 'r10']))
R32 = dict(zip(['r%d' % i for i in range(8)], ['eax', 'edi', 'ecx', 'r8d', 'edx', 'r15d', 'esi', 'r10d']))
X = dict(zip(['r%d' % i for i in range(8)], ['x0', 'x10', 'x2', 'x13', 'x4', 'x21', 'x6', 'x7']))
REGS = sorted(R64)


def ins(op, d='', a='', b='', sh=0, sg=1, imm=0, wb='', wbi=0):
    return dict(op=op, d=d, a=a, b=b, sh=sh, sg=sg, imm=imm, wb=wb, wbi=wbi)


# -- text of blocks -----------------------------------------------------------------------------
def x86_text(i, rng):
    """Line of x86 (AT&T) for an instruction; None if there is none."""
    reg, suf = R64, 'q'
    if i['op'] == 'nop':
        return rng.choice(['vaddpd %ymm1, %ymm2, %ymm3', 'cmpq %r9, %r11', '# comment', 'vmulsd %xmm1, %xmm2, %xmm2'])
    if i['wb']:
        return None
    narrow = rng.random() < .15
    if i['op'] in ('set', 'mul', 'odd') and narrow:
        reg, suf = R32, 'l'
    d, a, b = ['%' + reg[i[k]] if i[k] else '' for k in 'dab']
    imm = i['imm']
    if i['op'] == 'odd':
        return rng.choice(['xor%s %s, %s' % (suf, '%r12' if suf == 'q' else '%r12d', d), 'cvttsd2si %%xmm0, %s' % d,
                           'and%s $63, %s' % (suf, d)])
    if i['op'] == 'mul':
        return 'imul%s $%d, %s, %s' % (suf, imm, a, d)
    if i['op'] == 'set':
        if i['sg'] < 0:
            return 'sub%s %s, %s' % (suf, b, d) if d == a and not i['sh'] and not imm else None
        options = []
        if not b and a == d:
            options += ['add%s $%d, %s' % (suf, imm, d), 'sub%s $%d, %s' % (suf, -imm, d)]
            if abs(imm) == 1:
                options += [('inc' if imm > 0 else 'dec') + suf + ' ' + d] * 2
        if not b and not imm and a and a != d:
            options += ['mov%s %s, %s' % (suf, a, d)]
        if not b and not a:
            return 'mov%s $%d, %s' % (suf, imm, d)
        if b and a == d and not i['sh'] and not imm:
            options += ['add%s %s, %s' % (suf, b, d)] * 2
        if b and b == d and not a and not imm and i['sh']:
            options += ['sal%s $%d, %s' % (suf, i['sh'], d)]
        if reg is R64 and i['sh'] <= 3:
            options += ['leaq %s, %s' % (x86_mem(i), d)]
        return rng.choice(options) if options else None
    mem = x86_mem(i)
    if i['op'] == 'ld':
        if i['d']:
            return 'movq %s, %%%s' % (mem, R64[i['d']])
        return rng.choice(['movsd %s, %%xmm0', 'vmovupd %s, %%ymm1', 'addsd %s, %%xmm0', 'vaddpd %s, %%ymm1, %%ymm2']) % mem
    if i['op'] == 'st':
        return rng.choice(['movsd %%xmm0, %s', 'vmovupd %%ymm1, %s', 'vmovntpd %%ymm1, %s', 'movaps %%xmm1, %s']) % mem
    if i['op'] == 'rw':
        return rng.choice(['addq $1, %s', 'addl $4, %s', 'subq $3, %s']) % mem


def x86_mem(i):
    a, b = ['%' + R64[i[k]] if i[k] else '' for k in 'ab']
    if not a and not b:
        return '.LC%d(%%rip)' % i['imm']
    text = '%d' % i['imm'] if i['imm'] else ''
    if not b:
        return '%s(%s)' % (text, a)
    if i['sh'] == 0 and a:
        return '%s(%s,%s)' % (text, a, b)
    return '%s(%s,%s,%d)' % (text, a, b, 2 ** i['sh'])


def a64_text(i, rng):
    d, a, b = [X[i[k]] if i[k] else '' for k in 'dab']
    imm = i['imm']
    if i['op'] == 'nop':
        return rng.choice(['fadd v0.2d, v1.2d, v2.2d', 'cmp x25, x26', '// comment', 'fmul d1, d2, d3'])
    if i['op'] == 'odd':
        return rng.choice(['eor %s, %s, #3' % (d, d), 'and %s, %s, #63' % (d, d), 'fcvtzs %s, d0' % d])
    if i['op'] == 'mul':
        return None
    if i['op'] == 'set':
        s = rng.choice(['', '', '', 's'])
        if b and not a:
            if imm or i['sg'] < 0:
                return None
            return 'lsl %s, %s, #%d' % (d, b, i['sh']) if i['sh'] else 'mov %s, %s' % (d, b)
        if b:
            if imm:
                return None
            return '%s %s, %s, %s%s' % (('add' if i['sg'] > 0 else 'sub') + (s if not i['sh'] else ''), d, a, b,
                                        ', lsl #%d' % i['sh'] if i['sh'] else '')
        if not a:
            return 'mov %s, #%d' % (d, imm) if imm >= 0 else None
        if imm == 0 and a != d:
            return 'mov %s, %s' % (d, a)
        return '%s %s, %s, %s%d' % (('add' if imm >= 0 else 'sub') + s, d, a, rng.choice(['#', '']), abs(imm))
    if not a or (b and (imm or i['wb'])) or i['op'] == 'rw' or i['sh'] > 4:
        return None
    if b:
        shift = i['sh']
        mem = '[%s, %s%s]' % (a, b, ', lsl #%d' % shift if shift else '')
        if shift not in (0, 3, 4):
            return None
    elif i['wb'] == 'post':
        if imm:
            return None
        mem = '[%s], #%d' % (a, i['wbi'])
    elif i['wb'] == 'pre':
        if imm:
            return None
        mem = '[%s, #%d]!' % (a, i['wbi'])
    else:
        mem = '[%s, #%d]' % (a, imm) if imm else '[%s]' % a
    size = {3: 'd', 4: 'q'}.get(i['sh'] if b and i['sh'] else rng.choice([3, 4]))
    if i['op'] == 'ld':
        if i['d']:
            if i['d'] == i['a'] and i['wb']:
                return None
            return 'ldr %s, %s' % (X[i['d']], mem)
        if not b and rng.random() < .3:
            return 'ldp q0, q1, %s' % mem
        return 'ldr %s0, %s' % (size, mem)
    if not b and rng.random() < .3:
        return 'stp q0, q1, %s' % mem
    return 'str %s0, %s' % (size, mem)


def text_of(block, isa, rng, label='.L3'):
    """Text of a block and the block itself, without the instructions the architecture does not have."""
    lines, kept = [label + ':'], []
    for i in block:
        line = (x86_text if isa == 'x86' else a64_text)(i, rng)
        if line is None:
            continue
        lines.append('\t' + line)
        kept.append(i)
    if isa == 'x86':
        lines += ['\tcmpq\t%r9, %r11', '\tjne\t' + label]
    else:
        lines += ['\tcmp x25, x26', '\tb.ne %s' % label]
    return lines, kept


# -- blocks -------------------------------------------------------------------------------------
def bump(rng, r):
    return ins('set', r, r, imm=rng.choice([8, 8, 16, 32, 1, 4, -8, -1, 64, 128, 2]))


def random_block(rng):
    """A block as a compiler might write it, sometimes with something unusual in it."""
    block = []
    style = rng.choice(['index', 'pointer', 'mixed', 'any', 'derived', 'writeback'])
    idx, ptrs = 'r0', ['r1', 'r2', 'r3']
    sh = rng.choice([3, 3, 3, 0, 2])
    if style == 'index':
        for p in rng.sample(ptrs, rng.randint(1, 3)):
            block.append(ins(rng.choice(['ld', 'st', 'ld']), a=p, b=idx, sh=sh, imm=rng.choice([0, 0, 8, -8])))
        block.append(bump(rng, idx))
    elif style == 'pointer':
        step = bump(rng, 'r0')['imm']
        for p in rng.sample(ptrs, rng.randint(1, 3)):
            block.append(ins(rng.choice(['ld', 'st', 'ld']), a=p, imm=rng.choice([0, 0, 8, -8])))
            block.append(ins('set', p, p, imm=step if rng.random() < .8 else 24))
    elif style == 'derived':
        t, p = 'r5', rng.choice(ptrs)
        block.append(rng.choice([ins('set', t, p, idx, sh=rng.choice([0, 3])), ins('set', t, idx, p),
                                 ins('set', t, '', idx, sh=3), ins('set', t, idx)]))
        if rng.random() < .3:
            block.append(ins('set', 'r6', p, t))
            t = 'r6'
        block.append(ins(rng.choice(['st', 'ld']), a=rng.choice([t, t, p]), b=rng.choice(['', '', t]), sh=rng.choice([0, 3])))
        block.append(bump(rng, idx))
    elif style == 'writeback':
        for p in rng.sample(ptrs, rng.randint(1, 3)):
            block.append(ins(rng.choice(['st', 'ld']), a=p, wb=rng.choice(['pre', 'post', 'post', '']),
                             wbi=rng.choice([8, 16, 16, 32, -8])))
            if not block[-1]['wb']:
                block[-1]['wbi'] = 0
        if rng.random() < .3:
            block.append(bump(rng, rng.choice(ptrs)))
    if style in ('mixed', 'any') or rng.random() < .35:
        for _ in range(rng.randint(1, 4)):
            regs = REGS[:4]
            r = lambda: rng.choice(regs)
            block.insert(rng.randint(0, len(block)), rng.choice([
                bump(rng, r()), bump(rng, r()), ins('set', r(), r(), r()), ins('set', r(), r()),
                ins('set', r(), r(), imm=rng.choice([8, 16])), ins('set', imm=0, d=r()), ins('odd', r()),
                ins('set', r(), '', r(), sh=rng.choice([1, 3])), ins('set', *[r()] * 2, r(), sg=-1),
                ins('set', r(), r(), r(), sh=3), ins('mul', *[r()] * 2, imm=3),
                ins('set', *[r()] * 2, r()),
                ins('ld', d=r(), a=r()), ins('st', a=r()), ins('ld', a=r(), b=r(), sh=rng.choice([0, 2, 3])),
                ins('st', a=r(), b=r(), sh=rng.choice([0, 2, 3])), ins('rw', a=r()),
                ins('ld', a=r(), wb='post', wbi=8), ins('st', a=r(), wb='pre', wbi=16),
                ins('nop'), ins('ld', imm=3), ins('st', imm=4)]))
    if rng.random() < .2:
        rng.shuffle(block)
    if not any(i['op'] in ('ld', 'st', 'rw') for i in block):
        block.append(ins(rng.choice(['ld', 'st']), a='r1', b='r0', sh=3))
    return block


# -- real code ----------------------------------------------------------------------------------
def prepare():
    """Models of processors are loaded once (they take seconds and only matter for the analysis)."""
    from osaca.semantics import hw_model
    real, cached = hw_model.MachineModel._get_cached, {}

    def _get_cached(self, path):
        if not cached.get(str(path)):
            cached[str(path)] = real(self, path)
        return cached[str(path)]
    hw_model.MachineModel._get_cached = _get_cached
    for name, f in vars(hw_model.MachineModel).items():
        if hasattr(f, 'cache_clear'):    # would keep every instance
            setattr(hw_model.MachineModel, name, f.__wrapped__)


def instrument(job):
    """What came of marking an assembly: inc(rement), out(put), or the exception."""
    from kerncraft import incore_model
    with tempfile.TemporaryDirectory(dir=job['dir']) as home:
        os.environ['HOME'] = home
        src, out = os.path.join(home, 'i.s'), os.path.join(home, 'o.s')
        with open(src, 'w') as f:
            f.write(job['text'])
        answers, asked = iter(job.get('answers', ())), []

        def answer(prompt=''):
            if 'increment' in prompt:
                asked.append(24)
                return '24'
            return next(answers)
        incore_model.input = answer

        def once(increment):
            with open(src) as i, open(out, 'w') as o:
                block, inc = quiet(incore_model.asm_instrumentation, i, o, block_selection=job.get('block', 'auto'),
                                   pointer_increment=increment, isa=job['isa'])
            with open(out) as f:
                return {'inc': inc, 'out': f.read(), 'block': [l.line for l in block], 'asked': asked}
        try:
            r = once(job.get('increment', 'auto'))
            if asked and job['increment'] == 'auto_with_manual_fallback':
                answers = iter(job['answers'])
                r['again'] = once('auto')['inc']
            return r
        except RuntimeError as e:
            if 'pointer_increment could not be detected' in str(e):
                return {'inc': None, 'left': os.path.exists(out)}
            return failure(e)
        except ValueError as e:
            if re.match(r'No suitable blocks|block -?\d+ does not exist', str(e)):
                return {'refused': str(e)}
            return failure(e)
        except Exception as e:
            return failure(e)


def failure(e):
    return {'exc': type(e).__name__, 'text': str(e)[:200], 'traceback': traceback.format_exc()}


# -- marking ------------------------------------------------------------------------------------
TEXT = {
    'x86': dict(vector=['\tvmulpd\t%ymm1, %ymm2, %ymm3', '\tvaddpd\t%ymm1, %ymm0, %ymm0', '\tvmovupd\t(%rsi,%rax,8), %ymm1'],
                instr=['\tmovl\t$1, %ecx', '\taddq\t$8, %rax', '\tvxorps\t%xmm0, %xmm0, %xmm0', '\tcall\tdummy', '\tret',
                       '\tmovsd\t%xmm0, (%rdi)', '\tmovl\t$111, %ebx', '\tcmpq\t%rax, %rdx'],
                jump=['\tjne\t%s', '\tjmp\t%s', '\tjb\t%s', '\tjne\t%s'], quiet=['\t.p2align 4,,10', '# a comment', '\t.cfi_endproc', '\t.loc 1 4 3']),
    'aarch64': dict(vector=['\tfmul v0.2d, v1.2d, v2.2d', '\tfadd v3.2d, v1.2d, v0.2d'],
                    instr=['\tmov x1, #1', '\tadd x0, x0, #8', '\tret', '\tbl dummy', '\tstr d0, [x2]', '\tcmp x3, x4'],
                    jump=['\tb.ne %s', '\tb %s', '\tbgt %s', '\tb.ne %s'], quiet=['\t.p2align 2', '// a comment', '\t.cfi_endproc'])}


def listing(rng, isa):
    """(tokens, lines) of a random listing."""
    out, labels, new = [], [], iter(range(1000))

    def some(n, kinds=('instr', 'instr', 'vector', 'quiet')):
        for _ in range(rng.randint(0, n)):
            out.append((rng.choice(kinds), ''))

    def label(kind='.L%d', entered=0):
        name = kind % (rng.choice([2, 3, 1]) * 100 + next(new))
        labels.append(name)
        if rng.random() < entered:           # jumped to from in front
            out.append(('jump', name))
            some(2)
        out.append(('label', name))
        return name

    def loop(depth):
        if rng.random() < .3:
            label()            # an alias
        name = label(rng.choice(['.L%d', '.LBB0_%d', 'loop%d']), entered=.25)
        some(3)
        inner = False
        for _ in range(rng.choice([0, 0, 1, 2]) if depth else 0):
            loop(depth - 1)
            some(2)
            inner = True
        r = rng.random()
        if r < .1:
            out.append(('jump', rng.choice(labels)))
        elif r < .2:
            out.append(('jump', '.Lelsewhere'))
        elif r < .25:
            skip = '.L9%d' % next(new)
            out.append(('jump', skip))
            some(2)
            labels.append(skip)
            out.append(('label', skip))
        some(2, ('instr', 'vector'))
        if rng.random() < .95:
            out.append(('jump', name))
        if rng.random() < .2:
            some(1)
            out.append(('jump', name))       # entered or closed again
    out.append(('instr', ''))            # tells the syntax
    some(3, ('quiet', 'instr'))
    for _ in range(rng.randint(0, 4)):
        if rng.random() < .3 and labels:
            out.append(('jump', rng.choice(labels)))
        if rng.random() < .2:
            label('func%d')
        loop(2)
        some(3)
        if rng.random() < .2:
            label('.LC%d')
            some(2, ('quiet',))
    tokens, lines = [], []
    for kind, name in out:
        tokens.append(dict(kind=kind, name=name))
        if kind == 'label':
            lines.append(name + ':')
        else:
            text = rng.choice(TEXT[isa][kind]) if lines else TEXT[isa][kind][0]
            lines.append(text % name if kind == 'jump' else text)
    return tokens, lines


def shape(lines, result):
    """The marked listing as line numbers, 0 and -1, and the increment told by the marker."""
    out, told, n, state = [], None, 0, 'copy'
    for l in result['out'].split('\n'):
        if not l.strip():
            continue
        m = re.match(r'[#/]+ pointer_increment=(-?\w+) ', l)
        if 'OSACA START MARKER' in l:
            if not out or out[-1] != 0:
                out.append(0)
        elif 'OSACA END MARKER' in l:
            if not out or out[-1] != -1:
                out.append(-1)
        elif m and told is None:
            told = int(m.group(1)) if m.group(1) != 'None' else None
        elif n < len(lines) and l.strip() == lines[n].strip():
            n += 1
            out.append(n)
        else:
            candidates = [k + 1 for k, t in enumerate(lines) if t.strip() == l.strip()]
            out.append(candidates[0] if candidates else 10000)
    return out, told


def marking_jobs(rng, count, work):
    jobs = []
    for _ in range(count):
        isa = rng.choice(['x86', 'x86', 'aarch64'])
        tokens, lines = listing(rng, isa)
        text = list(lines)
        for _ in range(rng.choice([0, 0, 1, 3])):      # empty lines
            text.insert(rng.randint(0, len(text)), '')
        how = rng.choice(['auto', 'number', 'name', 'number'])
        number, block, answers = 0, 'auto', []
        if how == 'number':
            block = number = rng.choice([0, 0, 1, 1, 2, 3])
        elif how == 'name':
            names = [t['name'] for t in tokens if t['kind'] == 'label']
            if not names:
                continue
            block = 'manual'
            # only labels of loops are accepted, another is asked for until there is one
            answers = rng.sample(names, len(names))
        inc = rng.choice([8, 16, -8, 'auto', 'auto_with_manual_fallback', 'manual'])
        given = [inc] if isinstance(inc, int) else []
        jobs.append(dict(isa=isa, text='\n'.join(text) + '\n', lines=lines, tokens=tokens, how=how, number=number,
                         block=block, answers=answers, increment=inc, given=given, dir=work, what='mark'))
    return jobs


def run(ctx):
    os.environ['HOME'] = ctx.scratch
    prepare()
    rng = ctx.rng
    work = os.path.join(ctx.scratch, 'asm')
    os.makedirs(work)
    r = ctx.model('MCAssembly', workers=6, consts={'MaxLen': ctx.pick(2, 3)}, timeout=600)
    blocks = [p['block'] for p in r.prints]

    if sum(bool(p['inc']) for p in r.prints) < 30:
        raise MachineryError('specification gives no increments')
    if ctx.thorough:
        blocks = rng.sample(blocks, min(len(blocks), 4000))
    blocks = [(b, isa) for b in blocks for isa in ('x86', 'aarch64')]
    for _ in range(ctx.pick(1200, 12000)):
        blocks.append((random_block(rng), rng.choice(['x86', 'x86', 'aarch64'])))
    jobs = []
    seen = set()
    for b, isa in blocks:
        lines, kept = text_of(b, isa, rng)
        text = '\n'.join(lines) + '\n'
        if (text, isa) in seen or not kept:
            continue
        seen.add((text, isa))
        jobs.append(dict(isa=isa, text=text, kept=kept, dir=work))
    # warm the parsers up before forking
    for isa in ('x86', 'aarch64'):
        instrument(dict(jobs[0], isa=isa, text=next(j['text'] for j in jobs if j['isa'] == isa)))
    out = parallel(jobs, instrument)
    events, reported = [], {'x86': 0, 'aarch64': 0}
    for j, r in zip(jobs, out):
        r = sane(ctx, j, r)
        if not r:
            continue
        if 'refused' in r:
            ctx.violation('refused', 'block is refused (%s):\n%s' % (r['refused'], j['text']), j)
            continue
        reported[j['isa']] += r['inc'] is not None
        events.append(dict(what='increment', isa=j['isa'], block=j['kept'], reported=int(r['inc'] is not None),
                           inc=r['inc'] or 0, text=j['text']))
    ctx.extra['increments reported'] = reported
    ctx.require(min(reported.values()) >= 50, 'hardly any increments are reported: %r' % reported)

    jobs = marking_jobs(rng, ctx.pick(700, 6000), work)
    marked = refused = 0
    for j, r in zip(jobs, parallel(jobs, instrument)):
        r = sane(ctx, j, r)
        if not r or ('inc' in r and r['inc'] is None):
            continue
        shaped, told = [], 0
        if 'refused' in r:
            refused += 1
        else:
            marked += 1
            shaped, told = shape(j['lines'], r)
        events.append(dict(what='mark', isa=j['isa'], listing=j['tokens'], how=j['how'], number=j['number'],
                           answers=j['answers'], out=shaped, told=0 if told is None else told, inc=r.get('inc', 0),
                           given=j['given'] or r.get('asked', [])[:1], again=[r['again']] if 'again' in r else [],
                           text=j['text']))
    ctx.extra['listings marked'] = marked
    ctx.extra['listings refused'] = refused
    ctx.require(marked >= ctx.pick(200, 2000) and refused, 'hardly any listing is marked: %d' % marked)
    ctx.traces += len(events)
    ctx.validate('AssemblyTrace', events, chunk=1000, describe=describe)


def sane(ctx, j, r):
    if r is None or 'x' in r:
        raise MachineryError('worker failed: %s' % (r and r['x']))
    r = r['r']
    ctx.case(j['isa'] + repr((j['text'], j.get('block'), j.get('increment'))))
    if 'exc' in r:
        ctx.violation('raises %s' % r['exc'], '%s on %s block:\n%s' % (r['exc'] + ': ' + r['text'], j['isa'], j['text']),
                      dict(r, block=j['text']))
        return None
    if r.get('left'):
        ctx.violation('left behind', 'output is left behind although no increment was found', j)
    return r


def describe(v, ev):
    if ev['what'] == 'increment':
        return ('%s: %s' % (ev['isa'], ' / '.join(l.strip() for l in ev['text'].split('\n')[1:-3])),
                'increment %d reported for %s block, is %s:\n%s' % (ev['inc'], ev['isa'], v['want'], ev['text']))
    return ('%s: marking %s %s' % (ev['isa'], v['clause'], hashlib.sha1(ev['text'].encode()).hexdigest()[:12]),
            '%s: chosen by %s (%s, %s), lines %s instead of %s, increment %s/%s:\n%s' % (
                v['clause'], ev['how'], ev['number'], ev['answers'], ev['out'], v['want'], ev['told'], ev['inc'], ev['text']))
