"""C18: gplc runs exactly the stages asked for, stops at the first that fails, says so and leaves nothing behind"""
import os, re
from core import Viol, q, unq, BIN
ID = 'C18'
QUICK = 12000
THOROUGH = 200000
TWICE = 40
SHRINK = ('files', 'opts', 'says', 'faults')
RULE = 'a run in which a stage failed or could not be started'
REAL = ['pl2wam, wam2ma, ma2asm and fd2c run alone', 'gplc (top_comp.c, os_spawn.c, os_path.c, its file handling and that of the C library up to the system calls), built from the tree']
STUB = ['the kernel (processes, pipes, files, the clock) is sim/libsim.c', 'the compilers, assembler, linker and strip that gplc runs are scripted tools of the simulator: each reads its inputs, writes NAME(contents) to its output and ends as planned']
ORACLE = 'a model, written from the manual, of the commands a command line stands for and of the files they leave'
PROBES = ['ok', 'stage_failed', 'late', 'part', 'signal', 'noexec', 'nofork', 'disk', 'stack_file', 'keep', 'link', 'said', 'unused', 'usage', 'nofile', 'nolib', 'stop', 'percent', 'strip', 'fd', 'notemp', 'status126', 'pl2wam', 'wam2ma', 'ma2asm', 'fd2c', 'stage_error', 'stage_disk', 'stage_retry']

LIB = ['all_pl_bips.o', 'all_fd_bips.o', 'top_level_main.o', 'top_level.o', 'debugger.o', 'libbips_fd.a', 'libengine_fd.a', 'libbips_pl.a', 'libengine_pl.a', 'liblinedit.a']
TYPE = {'.pl': 0, '.pro': 0, '.prolog': 0, '.PL': 0, '.wam': 1, '.ma': 2, '.s': 3, '.o': 4, '.fd': 5, '.c': 6, '.cc': 6, '.cpp': 6, '.C': 6, '.CC': 6, '.cxx': 6, '.S': 6, '.a': 7, '.obj': 7}
STOP = {'-W': 0, '-w': 0, '-M': 1, '-S': 2, '-c': 3, '-F': 5, '--object': 3, '--assembly': 2, '--wam-for-byte-code': 0, '--fd-to-c': 5}
SUF = ['.pl', '.wam', '.ma', '.s', '.o', '.fd', '.c']
TOOL = ['pl2wam', 'wam2ma', 'ma2asm', 'as']

def split(name):
    d, f = name.rsplit('/', 1) if '/' in name else ('', name)
    d = d + '/' if d else ''
    i = f.rfind('.')
    p, s = (f, '') if i < 0 else (f[:i], f[i:])
    return d, f, p, s

STAGE = {'pl2wam': ('samp.pl', ['--no-inline', '--fast-math', '--wam-for-byte-code', '--statistics', '--compile-msg', '--no-reorder', '--no-reg-opt']), 'wam2ma': ('samp.wam', ['--comment']), 'ma2asm': ('samp.ma', ['--comment', '--pic']), 'fd2c': ('samp.fd', [])}
def gen_stage(r):
    t = r.choice(list(STAGE)); fl = []; x = r.random(); out = '/w/out'; inp = '/w/' + STAGE[t][0]; nth = r.choice((1, 1, 2, 3, 5, 9))
    if x < .35: fl = [['write', out, nth, r.choice((1, 1, -1)), r.choice(('ENOSPC', 'EIO', 'EINTR', 'EDQUOT'))]]
    elif x < .45: fl = [['close', out, 1, 1, r.choice(('EIO', 'ENOSPC'))]]
    elif x < .5: fl = [['open', r.choice((out, inp)), 1, 1, r.choice(('EACCES', 'EMFILE', 'EIO', 'EINTR'))]]
    elif x < .7: fl = [['read', inp, nth, r.choice((1, -1)), r.choice(('EIO', 'EINTR', 'EIO'))]]
    for f in fl:
        if f[4] == 'EINTR' and f[3] < 0: f[3] = 3        # a call that is interrupted for ever never ends
    size = {'pl2wam': 9000, 'wam2ma': 20000, 'ma2asm': 60000, 'fd2c': 12000}[t]
    return {'seed': r.randrange(1 << 30), 'stage': t, 'faults': fl, 'disk': r.randrange(0, size + 30000) if .7 <= x < .95 else None, 'nolf': r.random() < .25, 'chunk': r.choice((0, 0, 1, 13, 512, 4000)),
            'opts': [[o] for o in STAGE[t][1] if r.random() < .15], 'files': [], 'says': []}
SAMP = {}
def samp(n):
    if n not in SAMP: SAMP[n] = open(os.path.join(BIN, n), 'rb').read()
    return SAMP[n]
def plan_stage(case, clean):
    t = case['stage']; n = STAGE[t][0]; text = samp(n)
    if case['nolf'] and not clean: text = text.rstrip(b'\n')
    L = ['seed %d' % case['seed'], 'bg 0', 'dir /w 777', 'cwd /w', 'maxsteps 400000', 'file /w/%s 644 %s' % (n, q(text))]
    if not clean:
        if case['chunk']: L.append('chunk * %d' % case['chunk'])
        for f in case['faults']: L.append('fault ' + ' '.join(str(x) for x in f))
        if case['disk'] is not None: L.append('disk %d' % (len(text) + case['disk']))
    L += ['std 0 null', 'std 1 file /w/stdout', 'std 2 file /w/stderr']
    return (t, [t] + [o[0] for o in case['opts']] + ['-o', 'out', n], '\n'.join(L) + '\n', {'env': {'PL_PATH': '/pl'}})
def judge_stage(case, r, ref, probes):
    def hit(k): probes[k] = probes.get(k, 0) + 1
    t = case['stage']; fl = [l for l in r.lines if l.startswith('F ')]; fs = r.files(); want = ref.files().get('/w/out', b'')
    if ref.status != 0 or not want: raise Viol('reference', '%s fails on a correct input: status %d %r' % (t, ref.status, ref.files().get('/w/stderr')))
    if r.status < 0: raise Viol('crash', '%s died by signal %d (%s)' % (t, -r.status, fl))
    if r.status in (97, 98): raise Viol('hang', '%s does not end (%s)' % (t, fl))
    hit(t)
    if r.status == 0:
        got = fs.get('/w/out')
        if got != want: raise Viol('truncated', '%s exits with 0, but its output is not complete: %s of %d bytes (%s)' % (t, 'none' if got is None else len(got), len(want), fl))
        if fl: hit('stage_retry')
    else:
        if not fl: raise Viol('status', '%s exits with %d: %r' % (t, r.status, fs.get('/w/stderr')))
        if not fs.get('/w/stderr') and not fs.get('/w/stdout') and case['disk'] is None: raise Viol('silent', '%s exits with %d without a message (%s)' % (t, r.status, fl))
        hit('stage_error')
        if any('disk' in l for l in fl): hit('stage_disk')
def gen(r, i):
    if r.random() < .2: return gen_stage(r)
    n = r.choice((1, 1, 1, 2, 2, 3, 4)); files = []; used = set()
    for k in range(n):
        s = r.choice(('.pl',) * 6 + tuple(TYPE)); nm = r.choice(('', '', 'sub/', '/w/sub/', './')) + r.choice('abcde') + r.choice(('', '1', '.x', '_y')) + s
        key = os.path.normpath(os.path.join('/w', nm))[:-len(s)]
        if key in used: continue
        used.add(key); files.append(nm)
    opts = []
    if r.random() < .45: opts.append([r.choice(list(STOP))])
    stop = next((STOP[o[0]] for o in opts if o[0] in STOP), 7)
    if r.random() < .35: opts.append([r.choice(('-o', '--output')), r.choice(('out', 'sub/out.x', '%p.out', '%P.q', 'sub/%F.z', '%d%P_o%s', 'o%c', '/w/nodir/x', '%f.%c', 'x%%y%F'))])
    if r.random() < .3: opts.append(['--temp-dir', r.choice(('/w/tmp', '/w/tmp/', '/w/none', 'tmp'))])
    if r.random() < .15: opts.append(['--no-del-temp-files'])
    if r.random() < .2: opts.append([r.choice(('-v', '--verbose'))])
    if r.random() < .35:
        for _ in range(r.randrange(1, 4)):
            opts.append(r.choice((['--local-size', str(r.randrange(9999))], ['--global-size', str(r.randrange(99999))], ['--trail-size', '77'], ['--cstr-size', '88'], ['--max-atom', '999'], ['--fixed-sizes'])))
    for _ in range(r.choice((0, 0, 0, 1, 2))):
        opts.append(r.choice((['--no-inline'], ['--fast-math'], ['--no-susp-warn'], ['-i', 'inc.pl'], ['--comment'], ['--pic'], ['-C', '-O1'], ['-Wc,-DX=1'], ['-A', '-g'], ['-Wa,--gdwarf'], ['-L', '-lfoo'], ['-Wl,-lbar'], ['--no-top-level'],
            ['--no-debugger'], ['--new-top-level'], ['--min-pl-bips'], ['--min-fd-bips'], ['--min-bips'], ['--min-size'], ['--no-fd-lib'], ['-s'], ['--strip'], ['--no-demangling'], ['--c-compiler', 'mycc'], ['--linker', 'myld'], ['--wam-comment', 'hello'])))
    if r.random() < .02: opts.append(r.choice((['--bogus'], ['-i', 'noinc.pl'], ['--local-size', 'x1'], ['--max-atom', '-3'], ['--temp-dir'], ['-o'])))
    keys = ['f:' + f for f in files] + list(range(len(opts))); r.shuffle(keys)
    last = [k for k in keys if isinstance(k, int) and opts[k] in (['-o'], ['--temp-dir'])]; keys = [k for k in keys if k not in last] + last[:1]
    order = keys
    ends = {}; faults = []; says = []; x = r.random(); gone = []
    if x < .42:
        k = r.choice((0, 0, 1, 1, 2, 3, 4, 5, 6, 8, 10)); ends[str(k)] = r.choice((['early', r.choice((1, 2, 126, 127, 255))], ['late', r.choice((1, 3, 126))], ['part', r.choice((1, 4))], ['sig', r.choice((9, 11, 6))]))
    elif x < .56: faults.append(r.choice((['exec', r.choice(('pl2wam', 'wam2ma', 'ma2asm', 'as', 'gcc', 'strip', 'fd2c')), r.choice((1, 1, 2)), 1, r.choice(('ENOENT', 'ENOENT', 'EACCES', 'ENOMEM'))], ['fork', '*', r.choice((1, 1, 2, 3, 4, 5, 6)), 1, r.choice(('EAGAIN', 'ENOMEM'))], ['pipe', '*', 1, 1, 'EMFILE'], ['fdopen', '*', 1, 1, 'ENOMEM'])))
    elif x < .60: faults.append(r.choice((['stat', '/tmp', r.choice((1, 2)), -1, 'EACCES'], ['open', r.choice(('/tmp/gplc*', '/w/tmp/gplc*')), 1, 1, r.choice(('EACCES', 'ENOSPC'))], ['close', r.choice(('/tmp/gplc*', '/w/tmp/gplc*')), 1, 1, 'EIO'], ['write', r.choice(('/tmp/gplc*', '/w/tmp/gplc*')), 1, 1, r.choice(('ENOSPC', 'EIO'))], ['waitpid', '*', r.choice((1, 2, 3)), r.choice((1, 2)), 'EINTR'], ['read', 'pipe*', r.choice((1, 2)), 1, 'EIO'])))
    elif x < .64: gone = [r.choice(LIB)]
    disk = r.randrange(1, 900) if .64 <= x < .72 else None
    if r.random() < .3:
        for _ in range(r.choice((1, 1, 2))):
            t = r.choice(('warning: one\n', 'line one\nline two\n', 'no newline at the end', 'a\n\n\nb', '\n', 'y' * r.choice((10, 4095, 4096, 12288, 12289, 12290, 20000)) + r.choice(('', '\n')), 'e: undefined reference to `foo\'\n' * 40, 'tab\there X0Y\n'))
            says.append([r.choice((0, 1, 2, 3, 4, 5, 6)), t])
    return {'seed': r.randrange(1 << 30), 'files': files, 'opts': opts, 'order': order, 'ends': ends, 'faults': faults, 'says': says, 'disk': disk, 'gone': gone,
            'tmpdir': r.choice((None, None, None, '/w/tmp', '/w/none')), 'devel': r.random() < .15, 'chunk': r.choice((0, 0, 1, 7, 100)), 'missing': r.choice(files) if r.random() < .02 else None}

def args(case):
    out = []
    for k in case['order']:
        if isinstance(k, str):
            if k[2:] in case['files']: out.append(k[2:])
        elif k < len(case['opts']): out += case['opts'][k]
    return out
def normalise(case):
    if 'stage' in case: return case
    case = dict(case); case['order'] = [k for k in case['order'] if (k[2:] in case['files'] if isinstance(k, str) else k < len(case['opts']))]
    return case
def lib(case, n):
    if not case['devel']: return '/pl/lib/' + n
    return '/pl/' + {'all_pl': 'BipsPl', 'all_fd': 'BipsFD', 'top_le': 'BipsPl', 'debugg': 'BipsPl', 'libbip': 'BipsPl' if '_pl' in n else 'BipsFD', 'libeng': 'EnginePl' if '_pl' in n else 'EngineFD', 'liblin': 'Linedit'}[n[:6]] + '/' + n
def runs(case):
    if 'stage' in case: return [plan_stage(case, False), plan_stage(case, True)]
    return [plan(case)]
def plan(case):
    L = ['seed %d' % case['seed'], 'bg 30', 'dir /w 777', 'dir /w/sub 777', 'dir /w/tmp 777', 'dir /pl 755', 'maxsteps 400000']
    for d in ('lib', 'bin') if not case['devel'] else ('TopComp', 'EnginePl', 'BipsPl', 'EngineFD', 'BipsFD', 'Linedit'): L.append('dir /pl/%s 755' % d)
    if not case['devel']: L.append('file /pl/bin/gplc 755 x')
    for l in LIB:
        if l not in case['gone']: L.append('file %s 644 %s' % (lib(case, l), q('[' + l + ']')))
    L.append('file /w/inc.pl 644 inc')
    for f in case['files']:
        if f != case['missing']: L.append('file %s 644 %s' % (q(os.path.normpath(os.path.join('/w', f))), q('<' + f + '>')))
    L.append('cwd /w')
    if case['chunk']: L.append('chunk * %d' % case['chunk'])
    for f in case['faults']: L.append('fault ' + ' '.join(str(x) for x in f))
    for k, e in case['ends'].items(): L.append('tool %s %s %d' % (k, e[0], e[1]))
    for k, t in case['says']: L.append('tool %d say %s' % (k, q(t)))
    for t in TOOL + ['gcc', 'strip', 'fd2c', 'mycc', 'myld']: L += ['prog ' + t, 'do tool']
    L += ['std 0 null', 'std 1 file /w/stdout', 'std 2 file /w/stderr']
    if case['disk'] is not None: L.append('disk %d' % case['disk'])
    env = {'PL_PATH': '/pl', 'TMPDIR': case['tmpdir'] or ''}
    return ('gplc', ['gplc'] + args(case), '\n'.join(L) + '\n', {'env': env})

class Model:
    """the commands of a command line: [tool, inputs, output, options]; T(n): the n-th temporary file"""
    def __init__(self, case):
        self.case = case; a = args(case); self.err = None; self.cmds = []; self.outs = {}; self.temps = []; self.unused = []
        files = []; stop = 7; bc = False; out = None; sizes = {}; keep = strip = demangle_off = False; pl = []; ma = []; wm = []; cc = []; asm = []
        tempdir = None; self.verbose = False; ntl = mpl = mfd = ndb = nfd = nwt = False; ccn = 'gcc'; ldn = 'gcc'; i = 0
        for i_, w in enumerate(a):
            if i_ < i: continue
            i = i_ + 1
            def arg():
                nonlocal i
                if i >= len(a): self.err = self.err or 'argument'; return ''
                i += 1; return a[i - 1]
            if self.err: break
            if not w.startswith('-'):
                if w == case['missing'] and TYPE.get(split(w)[3], 7) != 7 and TYPE.get(split(w)[3], 7) != 4: self.err = 'nofile'
                if w == case['missing'] and TYPE.get(split(w)[3], 7) == 4: self.err = 'nofile'
                files.append(w); continue
            if w in ('-o', '--output'): out = arg()
            elif w in STOP: stop = STOP[w]; bc = w in ('-w', '--wam-for-byte-code')
            elif w == '--temp-dir': tempdir = arg()
            elif w == '--no-del-temp-files': keep = True
            elif w in ('-v', '--verbose'): self.verbose = True
            elif w in ('--local-size', '--global-size', '--trail-size', '--cstr-size', '--max-atom'):
                v = arg()
                if not re.match(r'\d+$', v): self.err = self.err or 'number'
                sizes['pl_def_' + w[2:].replace('-', '_')] = v
            elif w == '--fixed-sizes': sizes['pl_fixed_sizes'] = '1'
            elif w in ('--no-inline', '--fast-math', '--no-susp-warn'): pl.append(w)
            elif w == '-i':
                v = arg(); pl += ['--include' if 0 else '-i', v]
                if v != 'inc.pl': self.err = self.err or 'include'
            elif w == '--wam-comment': pl += [w, arg()]
            elif w == '--comment': wm.append(w); ma.append(w)
            elif w == '--pic': ma.append(w)
            elif w == '-C': cc.append(arg())
            elif w.startswith('-Wc,'): cc.append(w[4:])
            elif w == '-A': asm.append(arg())
            elif w.startswith('-Wa,'): asm.append(w[4:])
            elif w == '-L': files.append(('opt', arg()))
            elif w.startswith('-Wl,'): files.append(('opt', w[4:]))
            elif w == '--no-top-level': ntl = ndb = True; nwt = False
            elif w == '--no-debugger': ndb = True
            elif w == '--new-top-level': nwt = True; ntl = ndb = False
            elif w == '--min-pl-bips': mpl = True
            elif w == '--min-fd-bips': mfd = True
            elif w in ('--min-bips', '--min-size'): ntl = ndb = mpl = mfd = True; nwt = False; strip = strip or w == '--min-size'
            elif w == '--no-fd-lib': nfd = mfd = True
            elif w in ('-s', '--strip'): strip = True
            elif w == '--no-demangling': demangle_off = True
            elif w == '--c-compiler':
                v = arg()
                if ldn == 'gcc': ldn = v
                ccn = v
            elif w == '--linker': ldn = arg()
            else: self.err = 'option'
        if ntl: nwt = False
        if not [f for f in files]: self.err = self.err or 'nothing'
        self.keep = keep; self.stop = stop; self.demangle = not demangle_off
        dirs = {'/w/tmp', '/w/tmp/', 'tmp'}
        self.tempdir = '/w/tmp' if case['tmpdir'] == '/w/tmp' else tempdir if tempdir in dirs else '/tmp'
        self.tempdir = os.path.normpath(os.path.join('/w', self.tempdir))
        real = [f for f in files if isinstance(f, str)]
        if self.err: return
        self.bad = not real
        if len(real) > 1 and stop < 7 and out and '%' not in out: out = None
        cnt = [0]
        def expand(name):
            d, f, p, s = split(name); r = ''; k = 0
            while k < len(out):
                if out[k] != '%': r += out[k]; k += 1; continue
                c = out[k + 1:k + 2]; k += 2
                if c == 'c': cnt[0] += 1; r += str(cnt[0])
                else: r += {'d': d, 'f': name, 'F': f, 'p': d + p, 'P': p, 's': s}.get(c, '%' + c)
            return r
        def target(name, stage, last):        # stage: index of the suffix of the result
            sfx = '.wbc' if bc and stage == 1 else SUF[stage]
            if not last: self.temps.append(sfx); return ('T', len(self.temps) - 1)
            if out: o = expand(name)
            else: d, f, p, s = split(name); o = d + p + sfx
            self.outs[os.path.normpath(os.path.join('/w', o))] = None; return o
        objs = []; opts = [pl, wm, ma, asm]
        if sizes and stop == 7: self.temps.append('.ma'); self.stack = ('T', 0)
        else: self.stack = None
        for f in files:
            if not isinstance(f, str): objs.append(f); continue
            t = TYPE.get(split(f)[3], 7); cur = f
            if t == 5 and stop >= 3:
                o = target(f, 6, stop == 5); self.cmds.append(['fd2c', [cur], o, []]); cur = o
                if stop != 5: o = target(f, 4, stop == 3); self.cmds.append([ccn, [cur], o, ['-c'] + cc]); cur = o
            elif t == 6 and stop >= 3 and stop != 5:
                o = target(f, 4, stop == 3); self.cmds.append([ccn, [cur], o, ['-c'] + cc]); cur = o
            elif t in (5, 6) or stop == 5 or t > stop: self.unused.append(f)
            else:
                for st in range(t, min(stop, 3) + 1):
                    o = target(f, st + 1, st == stop); op = list(opts[st])
                    if st == 0 and bc: op.append('--wam-for-byte-code')
                    self.cmds.append([TOOL[st], [cur], o, op]); cur = o
            objs.append(cur)
        if self.stack:
            o = target('', 3, False); self.cmds.append(['ma2asm', [self.stack], o, ma]); o2 = target('', 4, False); self.cmds.append(['as', [o], o2, asm]); objs.append(o2)
        self.stackc = sorted('long global %s = %s' % x for x in sizes.items())
        self.lib = []; self.link = None
        if stop == 7:
            l = ([] if mpl else ['all_pl_bips.o']) + ([] if mfd else ['all_fd_bips.o']) + (['top_level_main.o'] if nwt else []) + ([] if ntl else ['top_level.o']) + ([] if ndb else ['debugger.o']) + ([] if nfd else ['libbips_fd.a', 'libengine_fd.a']) + ['libbips_pl.a', 'libengine_pl.a', 'liblinedit.a']
            self.lib = l
            if not out: out = '%p'
            o = expand(real[0]) if real else '?'
            self.outs[os.path.normpath(os.path.join('/w', o))] = None; self.link = len(self.cmds)
            self.cmds.append([ldn, objs + [lib(case, x) for x in l], o, ['-lm']])
            if strip: self.cmds.append(['strip', [o], o, []])
def skip(m, case):
    """outputs that fall on inputs or on each other: not judged"""
    if m.err: return False
    if m.bad: return True
    fin = [os.path.normpath(os.path.join('/w', c[2])) for c in m.cmds if isinstance(c[2], str) and c[0] != 'strip']
    src = {os.path.normpath(os.path.join('/w', f)) for f in case['files']}
    return len(set(fin)) < len(fin) or bool(set(fin) & (src | {'/w/inc.pl', '/w', '/w/sub', '/w/tmp', '/w/stdout', '/w/stderr'}))

def unstack(s): return re.sub(r'((?:long global [^\n]*\n)+)', lambda k: '\n'.join(sorted(k.group(1).split('\n'))), s)
def judge(case, rs, probes):
    if 'stage' in case: return judge_stage(case, rs[0], rs[1], probes)
    r = rs[0]
    def hit(k): probes[k] = probes.get(k, 0) + 1
    m = Model(case)
    if skip(m, case): return
    fs = r.files(); err = fs.get('/w/stderr', b'').decode('latin-1'); absn = lambda p: os.path.normpath(os.path.join('/w', p))
    if r.status < 0: raise Viol('crash', 'gplc died by signal %d' % -r.status)
    if r.status in (97, 98): raise Viol('hang', 'gplc does not end (%s)' % r.end())
    src = {absn(f): ('<' + f + '>') for f in case['files'] if f != case['missing']}; src['/w/inc.pl'] = 'inc'
    for p, c in src.items():
        if fs.get(p, b'?').decode('latin-1') != c: raise Viol('source', 'the source %s is changed: %r' % (p, fs.get(p)))
    base = set(src) | {'/w/stdout', '/w/stderr', '/pl/bin/gplc'} | {lib(case, x) for x in LIB}
    extra = {p: v.decode('latin-1') for p, v in fs.items() if p not in base}
    ex = []; ends = []; pend = {}; gfault = []; cur = None
    for l in r.lines:
        if l.startswith('P ') and ' s exec ' in l or l.startswith('s exec '):
            w = l[l.index('s exec ') + 7:].split(' '); k = w.index('='); ex.append([unq(w[0]).decode('latin-1'), [unq(x).decode('latin-1') for x in w[1:k]], w[k + 1], None])
        elif re.match(r'A \d+ end ', l):
            if ex and ex[-1][3] is None and ex[-1][2] == '0': ex[-1][3] = int(l.split(' ')[3])
        elif l.startswith('F '): gfault.append(l)
    ffault = [l for l in gfault if not l.startswith('F TOOL') and ' exec ' not in l]
    said = [t for k, t in case['says']]
    if m.err:
        hit('usage' if m.err != 'nofile' else 'nofile')
        if m.err == 'nothing' and m.verbose and r.status == 0 and not ex and not extra: return
        if ex: raise Viol('usage', 'bad command line (%s), but %s is run' % (m.err, ex[0][1]))
        if r.status == 0: raise Viol('usage', 'bad command line (%s), but exit status 0' % m.err)
        if extra: raise Viol('usage', 'bad command line, but files are made: %s' % sorted(extra))
        if not err and case['disk'] is None: raise Viol('silent', 'bad command line, no message')
        return
    # what was run
    T = {}; content = {absn(f): '<%s>' % f for f in case['files']}; content.update({lib(case, x): '[%s]' % x for x in LIB}); failed = None
    if len(ex) > len(m.cmds): raise Viol('commands', '%d commands, but %d are asked for: %s' % (len(ex), len(m.cmds), ex[-1][1]))
    for n, (file, argv, res, st) in enumerate(ex):
        tool, ins, out, ops = m.cmds[n]
        if failed: raise Viol('goes_on', '%s fails, but then %s is run' % (failed, argv))
        if file.split('/')[-1] != tool: raise Viol('commands', 'command %d is %s, should be %s' % (n, argv, tool))
        av = argv[1:]; o = None
        if '-o' in av: k = av.index('-o'); o = av[k + 1]; del av[k:k + 2]
        for x in ops:
            if x not in av: raise Viol('options', 'option %s is not passed on: %s' % (x, argv))
            av.remove(x)
        pos = [x for x in av if not x.startswith('-')]
        def name(x):
            if isinstance(x, tuple) and x[0] == 'T':
                if x not in T: return None
                return T[x]
            return x
        want = [x for x in ins if not (isinstance(x, tuple) and x[0] == 'opt')]
        if m.stack and tool == 'ma2asm' and ins == [m.stack] and m.stack not in T and len(pos) == 1: T[m.stack] = pos[0]; check_temp(m, T, m.stack, pos[0], absn)
        if pos != [name(x) for x in want]: raise Viol('inputs', 'command %d is %s, its inputs should be %s' % (n, argv, [name(x) for x in want]))
        if n == m.link:
            allw = [x[1] if isinstance(x, tuple) and x[0] == 'opt' else name(x) for x in ins]
            it = iter(argv[1:])
            if not all(x in it for x in allw): raise Viol('order', 'the linker gets %s, should be in the order %s' % (argv, allw))
        if tool != 'strip':
            if o is None: raise Viol('output', 'no output in %s' % argv)
            if isinstance(out, tuple): T[out] = o; check_temp(m, T, out, o, absn)
            elif o != out: raise Viol('output', 'the output of %s should be %s' % (argv, out))
        if res != '0' or st != 0: failed = '%s (%s)' % (argv, res if res != '0' else 'status %s' % st)
    ran = len(ex)
    if failed:
        e = ex[-1]
        if e[2] != '0': hit('noexec')
        elif e[3] & 127: hit('signal')
        else:
            hit('status126' if e[3] >> 8 in (126, 127) else 'stage_failed')
            if any(l.startswith('F TOOL late') for l in gfault): hit('late')
            if any(l.startswith('F TOOL part') for l in gfault): hit('part')
        if any('disk' in l for l in gfault): hit('disk')
        if r.status == 0: raise Viol('status', '%s fails, but the exit status is 0' % failed)
    elif ran < len(m.cmds):
        why = None
        if m.link == ran and any(g in m.lib for g in case['gone']): why = 'nolib'
        elif ffault: why = 'nofork' if any(' fork ' in l for l in ffault) else 'notemp' if any(' stat ' in l for l in ffault) else 'disk' if any('disk' in l for l in ffault) else 'other'
        if not why: raise Viol('stops', 'no stage failed, but %s is not run (exit status %d): %s' % (m.cmds[ran][0], r.status, err[-200:]))
        hit(why)
        if r.status == 0: raise Viol('status', '%s is not run, but the exit status is 0 (%s)' % (m.cmds[ran][0], ffault))
        failed = why
    elif r.status != 0:
        if not [l for l in ffault if ' waitpid ' not in l]: raise Viol('status', 'every stage succeeds, but the exit status is %d: %s' % (r.status, err[-200:]))
        failed = 'reported'
    if failed and not err and case['disk'] is None: raise Viol('silent', '%s: no message' % failed)
    # what was left
    tn = {absn(t) for t in T.values()}; outs = set(m.outs)
    if m.keep: left = [p for p in extra if p not in outs and p not in tn and not (m.stack and p.startswith(m.tempdir + '/gplc'))]
    else: left = [p for p in extra if p not in outs]
    if left: raise Viol('left', 'files left behind: %s (%s)' % (sorted(left), failed or 'success'))
    if not failed:
        hit('ok')
        if not m.cmds: hit('unused')
        for n, (tool, ins, out, ops) in enumerate(m.cmds):
            if tool == 'strip': content[absn(out)] = 'strip(%s)' % content[absn(out)]; hit('strip'); continue
            cs = []
            for x in ins:
                if isinstance(x, tuple) and x[0] == 'opt': continue
                if m.stack and x == m.stack: cs.append('\n'.join(m.stackc) + '\n'); continue
                cs.append(content[x] if isinstance(x, tuple) else content[absn(x)])
            content[out if isinstance(out, tuple) else absn(out)] = '%s(%s)' % (tool, ','.join(cs))
        for p in m.outs:
            if p not in extra: raise Viol('output', 'success, but %s is missing' % p)
            if unstack(extra[p]) != unstack(content[p]): raise Viol('output', '%s holds %s, should be %s' % (p, extra[p], content[p]))
        if m.keep:
            hit('keep')
            gone = [t for t in tn if t not in extra]
            if gone: raise Viol('kept', 'temporary files are to be kept, but %s are gone' % gone)
        for f in m.unused:
            if f not in err and case['disk'] is None: raise Viol('unused', '%s is not used, but nothing says so' % f)
        if m.link is not None: hit('link')
        else: hit('stop')
        if m.stack: hit('stack_file')
        if any('%' in a for a in args(case)): hit('percent')
        if any(c[0] == 'fd2c' for c in m.cmds): hit('fd')
        if m.link is None and m.outs and case['devel']: hit('devel')
    for n in range(ran):
        t = ''.join(t for k, t in case['says'] if k == n and ex[n][2] == '0'); lastsay = [t for k, t in case['says'] if k == n]
        if lastsay and case['disk'] is None and ex[n][2] == '0' and not any(' read pipe' in l for l in ffault):
            t = lastsay[-1]
            if t not in err: raise Viol('messages', 'what %s says (%r) is not shown: %r' % (ex[n][1][0], t[-60:], err[-200:]))
            hit('said')
def check_temp(m, T, key, path, absn):
    p = absn(path); s = m.temps[key[1]]
    if not p.startswith(m.tempdir + '/gplc') or not p.endswith(s): raise Viol('temp', 'the temporary file %s should be in %s and end in %s' % (path, m.tempdir, s))
    if list(T.values()).count(path) > 1: raise Viol('temp', 'the temporary file %s is used twice' % path)
def nontrivial(case, rs): return any(l.startswith('F ') for l in rs[0].lines)
