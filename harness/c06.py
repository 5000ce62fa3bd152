"""C06: select/5: exactly the ready elements, in order, at the right time"""
import core, re
from core import A, S, V, G, enc, dec, q, unq, Viol
from c07 import C, safe, text, nap, INST, ty
ID = 'C06'
QUICK = 20000
THOROUGH = 400000
TWICE = 40
SHRINK = ('ops', 'faults', 'res')
RULE = 'a run in which select/5 waited, or had to tell ready elements from others'
REAL = ['select/5 (os_interf_c.c) and the stream layer it inspects (push-back, descriptors, aliases), with the pipes, sockets and files it is used on, built from the tree']
STUB = ['the kernel (pipes, sockets, select, the clock) is sim/libsim.c', 'children and other hosts are scripts of the plan']
PROBES = ['none', 'some', 'all', 'timeout', 'waited', 'forever', 'never', 'write', 'write_full', 'read', 'eof', 'listening', 'pushback', 'pushback_first', 'interrupted', 'failed', 'integer', 'alias', 'twice', 'ready_pattern', 'bad_element', 'bad_timeout', 'tiny', 'huge', 'stdin', 'popen', 'socket', 'file', 'pipe', 'took', 'gave', 'accepted']
ORACLE = 'the readiness of every descriptor and the time at the very moment select/5 returns, asked from the simulated kernel, with a model of what peek and unget left in each stream'
SLACK = 5000                             # us: how late an answer may be

# ---------------------------------------------------------------- the plan
def plan(case):
    L = ['seed %d' % case['seed'], 'bg %d' % case['bg'], 'pipecap %d' % case['cap'], 'dir /w 777', 'file /w/f 644 some%20text', 'maxsteps 200000']
    if case['delay']: L.append('fault netdelay * 1 1 val %d' % case['delay'])
    for f in case['faults']: L.append('fault ' + ' '.join(str(x) for x in f))
    L += ['std 0 ' + ('pipe' if any(r['k'] == 'stdin' for r in case['res']) else 'null'), 'std 1 file /w/stdout', 'std 2 file /w/stderr']
    for r in case['res']:
        if r['k'] == 'popen': L.append('prog ' + q(r['cmd'])); L += ['do ' + x for x in r['steps']]
        for n, a, st in r.get('actors', ()):
            L.append('actor ' + n); L += (['attach ' + a] if a else []) + ['do ' + x for x in st]
    L += ['prog *', 'do exit 0']
    for o in seq(case): L.append('op ' + enc(term(o)))
    return ('driver', ['driver'], '\n'.join(L) + '\n', {'env': {}})
def seq(case):
    out = [{'k': 'flag', 'f': case['flag']}] if case['flag'] != 'error' else []
    for r in case['res']: out += r['make']
    return out + case['ops']
SKIP = A('$skipped')
def elem(e):
    return e[1] if e[0] == 'int' else A(e[1]) if e[0] == 'atom' else G(e[1]) if e[0] == 'slot' else dec(e[1])
def ready(x):
    """a pattern for the ready elements"""
    return V(20) if x is None else [V(20 + i) for i in range(x)]
def term(o):
    k = o['k']; v = V(0)
    if k == 'select':
        l = lambda x: dec(x) if isinstance(x, str) else [elem(e) for e in x]
        n = [S('nonvar', G(e[1])) for x in (o['r'], o['w']) if not isinstance(x, str) for e in x if e[0] == 'slot']
        rr = V(1) if o.get('pr') is None else [V(20 + i) for i in range(o['pr'])]; ww = V(2) if o.get('pw') is None else [V(40 + i) for i in range(o['pw'])]
        g = C(S('g_assign', A('ready'), 0), S('g_assign', A('readyw'), 0), S('select', l(o['r']), rr, l(o['w']), ww, dec(o['t'])), S('sim_truth', V(3)), S('=', v, S('sel', rr, ww)), S('g_assign', A('ready'), rr), S('g_assign', A('readyw'), ww))
        if o.get('truth_first'): pass
        return S(';', S('->', C(*n), g), S('=', v, SKIP)) if n else g
    if k in ('take', 'peek', 'give'):
        # the N-th ready stream
        x = V(1); cond = C(S('g_read', A('readyw' if k == 'give' else 'ready'), V(2)), S('=', V(2), S('.', V(3), V(4))), S('nth', o['n'], V(2), x), S('\\+', S('integer', x)))
        g = S('get_code', x, v) if k == 'take' else S('peek_code', x, v) if k == 'peek' else C(S('put_code', x, o['c']), S('flush_output', x), S('=', v, o['c']))
        return S(';', S('->', cond, g), S('=', v, SKIP))
    if k == 'accept':
        x = V(1); cond = C(S('g_read', A('ready'), V(2)), S('=', V(2), S('.', V(3), V(4))), S('memberchk', G(o['s']), V(2)))
        return S(';', S('->', cond, C(S('socket_accept', G(o['s']), G(o['in']), G(o['out'])), S('set_stream_buffering', G(o['in']), A('none')), S('=', v, G(o['in'])), S('=', x, G(o['out'])))), S('=', v, SKIP))
    if k == 'unget': return S(';', S('->', S('nonvar', G(o['s'])), C(S('unget_code', G(o['s']), o['c']), S('=', v, G(o['s'])))), S('=', v, SKIP))
    if k == 'put': return S(';', S('->', S('nonvar', G(o['s'])), C(S('write', G(o['s']), A(o['t'])), S('flush_output', G(o['s'])))), S('=', v, SKIP))
    if k == 'close': return S(';', S('->', S('nonvar', G(o['s'])), C(S('=', v, G(o['s'])), S('close', G(o['s']), [S('force', A('true'))]))), S('=', v, SKIP))
    if k == 'sleep': return S('sleep', o['t'])
    if k == 'flag': return S('set_prolog_flag', A('os_error'), A(o['f']))
    if k == 'make': return C(dec(o['t']), S('=', v, S('m', *[G(s) for s in o['slots']]) if o['slots'] else A('m')))
    raise ValueError(k)

# ---------------------------------------------------------------- judging
class Str:
    def __init__(self, n, fd=None, dirs='rw'): self.n = n; self.pb = []; self.open = True; self.fd = fd; self.dirs = dirs
def judge(case, r, probes):
    def hit(k): probes[k] = probes.get(k, 0) + 1
    ops = seq(case); per = r.per_op()
    stop = (r.end() or '').startswith('DEADLOCK')
    if r.status == 98: raise Viol('endless', 'no end in operation %s' % (ops[len(per) - 1] if len(per) <= len(ops) else '?'))
    if not stop and (r.status != 0 or len(per) != len(ops)): raise Viol('crash', 'the process ended with %s (%s) in operation %s: %s' % (r.status, r.end(), ops[len(per) - 1] if len(per) <= len(ops) else '?', r.stray[-300:]))
    slots = {}; strs = {}; alias = {'user_input': ('in', 0)}; fdof = {}
    strs[0] = Str(0, 0, 'r'); fresh = set(); lastrdy = ([], [])
    alias = {'user_input': 0, 'user_output': 1}; strs[1] = Str(1, 1, 'w')
    def fd_of(t):
        """the descriptor of an element"""
        if isinstance(t, int): return t
        if isinstance(t, S): return strs[t.args[0]].fd if t.args[0] in strs else None
        return strs[alias[str(t)]].fd if str(t) in alias else None
    def str_of(t):
        if isinstance(t, S): return strs.get(t.args[0])
        if isinstance(t, int): return None
        return strs.get(alias.get(str(t), -1))
    newfds = []
    for i, (_, head, logs, lines) in enumerate(per):
        o = ops[i]; k = o['k']; t0 = int(re.search(r' t (\d+)', lines_head(r, i)).group(1)) // 1000
        if i == len(ops) - 1 and logs and logs[-1] == A('end'): logs = logs[:-1]
        last = stop and i == len(per) - 1
        if last:
            if k in ('take', 'peek', 'give', 'accept'):
                d = 'w' if k == 'give' else 'r'; l = lastrdy['rw'.index(d)]; x = slots.get(o['s']) if k == 'accept' else l[o['n'] - 1] if len(l) >= o['n'] else None
                if (d, fd_of(x)) in fresh: raise Viol('blocked', '%s: waits for ever on %s, reported ready' % (o, x))
            if k != 'select': return
            tt = num(o['t'])
            if tt is None or 0 < tt < 1e12: raise Viol('timeout', '%s: waits for ever' % o)
            truth = {(int(l.split(' ')[2]), l.split(' ')[3]) for l in r.lines if l.startswith('D ready ')}
            for nm, lst in (('r', o['r']), ('w', o['w'])):
                for e in lst:
                    t = slots[e[1]] if e[0] == 'slot' else e[1] if e[0] == 'int' else A(e[1]); s = str_of(t)
                    if (fd_of(t), nm) in truth: raise Viol('missed', '%s: waits for ever although %s is ready' % (o, t))
                    if nm == 'r' and s is not None and s.pb: raise Viol('missed', '%s: waits for ever although %s has characters (pushed back)' % (o, t))
            hit('never'); return
        if len(logs) != 1: raise Viol('log', 'operation %s ended %d times: %s' % (o, len(logs), logs[:3]))
        ans = logs[0]; ok = isinstance(ans, S) and ans.name == 'ok'; bad = not ok
        vals = ans.args[0] if ok and isinstance(ans.args[0], list) else []
        val = vals[0] if vals else None
        faults = [l.split(' ')[2] for l in lines if l.startswith('F ') and l.split(' ')[1] not in ('SHORT', 'RST')]
        if ok and isinstance(val, A) and val == SKIP: continue
        def need(cond, key, msg):
            if not cond: raise Viol(key, '%s: %s (answer %s)' % (o, msg, ans))
        end = next_t(r, i, len(per)) // 1000
        if k == 'make':
            if bad: need(faults, 'setup', 'failed'); continue
            if o.get('alias') and o['slots'][0] not in slots: continue
            if not isinstance(val, S): continue
            fds = mkfds(lines)
            for s, t, which in zip(o['slots'], val.args, o['fd']):
                slots[s] = t
                if isinstance(t, S) and which: strs[t.args[0]] = Str(t.args[0], fds.get(which), 'r' if s in o['ins'] else 'w')
            if o.get('alias'): alias[o['alias']] = slots[o['slots'][0]].args[0]
        elif k == 'select':
            judge_select(case, o, ans, ok, vals, lines, faults, t0, slots, fd_of, str_of, need, hit)
            sel = [v for v in vals if isinstance(v, S) and v.name == 'sel']; lastrdy = sel[0].args if sel else ([], []); fresh = {(d, fd_of(x)) for d, l in zip('rw', sel[0].args) for x in l if fd_of(x) is not None} if sel else set()
        elif k in ('take', 'peek'):
            x = vals[1] if ok else None; s = str_of(x); f = ('r', fd_of(x)); was = f in fresh
            if k == 'take': fresh.discard(f)
            if bad and not any(l.startswith('s read ') for l in lines): continue      # closed since
            if bad: need(any(re.match(r's read .*= E', l) for l in lines), 'read', 'failed'); continue
            need(not was or end - t0 <= SLACK, 'blocked', 'reading a ready stream took %d us' % (end - t0)); hit('took')
            if s.pb: need(val == s.pb[-1], 'data', 'read %s, pushed back was %s' % (val, s.pb[-1])); s.pb = s.pb[:-1] if k == 'take' else s.pb
            else:
                got = [l.split(' ')[-1] for l in lines if l.startswith('s read ')]
                if val == -1: hit('eof')
                else: need(got and unq(got[-1])[:1] == bytes([val]), 'data', 'read %s, the descriptor gave %s' % (val, got))
                if k == 'peek': s.pb.append(val)
        elif k == 'give':
            if bad and not any(l.startswith('s write ') for l in lines): continue
            if bad: need(any(re.match(r's write .*= E', l) for l in lines), 'write', 'failed'); continue
            f = ('w', fd_of(vals[1])); was = f in fresh; fresh.discard(f)
            need(not was or end - t0 <= SLACK, 'blocked', 'writing to a ready stream took %d us' % (end - t0)); hit('gave')
        elif k == 'accept':
            f = ('r', fd_of(slots[o['s']])); was = f in fresh; fresh.discard(f); need(ok, 'accept', 'failed'); need(not was or end - t0 <= SLACK, 'blocked', 'accepting on a ready socket took %d us' % (end - t0)); hit('accepted')
            fds = mkfds(lines); slots[o['in']] = val; slots[o['out']] = vals[1]
            strs[val.args[0]] = Str(val.args[0], fds['accept'], 'r'); strs[vals[1].args[0]] = Str(vals[1].args[0], fds['dup'], 'w')
        elif k == 'put': fresh = {f for f in fresh if f[0] == 'r'}
        elif k == 'unget':
            if ok: str_of(val).pb.append(o['c'])
        elif k == 'close':
            t = val if ok else slots.get(o['s'])
            if isinstance(t, S) and t.args[0] in strs: strs[t.args[0]].open = False; strs[t.args[0]].pb = []; alias = {a: n for a, n in alias.items() if n != t.args[0]}
def lines_head(r, i):
    return [l for l in r.lines if l.startswith('O ')][i]
def next_t(r, i, n):
    hs = [l for l in r.lines if l.startswith('O ')]
    if i + 1 < len(hs): return int(re.search(r' t (\d+)', hs[i + 1]).group(1))
    d = [l for l in r.lines if l.startswith('D now ')]
    return int(re.search(r'elapsed (\d+)', d[-1]).group(1)) if d else 0
def mkfds(lines):
    m = {}
    for l in lines:
        w = l.split(' ')
        if w[0] != 's': continue
        if w[1] == 'pipe' and w[3].isdigit(): m['pipe0'] = int(w[3]); m['pipe1'] = int(w[4])
        elif w[1] == 'socket' and w[4].isdigit(): m['socket'] = int(w[4])
        elif w[1] == 'accept' and w[4].isdigit(): m['accept'] = int(w[4])
        elif w[1] == 'dup' and w[-1].isdigit(): m['dup'] = int(w[-1])
        elif w[1] == 'connect' and w[-2] == '0': m['connect'] = int(w[2])
        elif w[1] == 'open' and w[-1].isdigit(): m['open'] = int(w[-1])
    return m
def num(t):
    t = dec(t)
    if isinstance(t, (int, float)): return float(t)
    if isinstance(t, S) and t.name == '/' : return t.args[0] / t.args[1]
    return None
def judge_select(case, o, ans, ok, vals, lines, faults, t0, slots, fd_of, str_of, need, hit):
    if o.get('e'):
        if any(e[0] == 'slot' for l in (o['r'], o['w']) if not isinstance(l, str) for e in l) : o = dict(o, r=[], w=[])
        e = ans.args[0] if isinstance(ans, S) and ans.name == 'ex' else None; want = [dec(x) for x in o['e']]
        need(isinstance(e, S) and e.name == 'error' and any(e.args[0] == w or repr(e.args[0]) == repr(w) for w in want), 'error', 'expected the error %s' % want); hit(o['p'])
        return
    els = lambda l: [slots[e[1]] if e[0] == 'slot' else e[1] if e[0] == 'int' else A(e[1]) for e in l]
    if any(e[0] == 'slot' and e[1] not in slots for l in (o['r'], o['w']) for e in l): return
    R, W = els(o['r']), els(o['w'])
    closed = [t for k, l in (('r', R), ('w', W)) for t in l if fd_of(t) is None or str_of(t) is not None and not (str_of(t).open and k in str_of(t).dirs)]
    if closed:
        need(not ok, 'closed', 'accepted %s' % closed); return
    if not ok:
        if [f for f in faults if f == 'select'] and any(re.search(r's select = E(?!INTR)', l) for l in lines): hit('failed'); return
        if any(e[0] == 'int' and not any(s.fd == e[1] for s in ()) for e in o['r'] + o['w']) and any('EBADF' in l for l in lines): return
    t = num(o['t'])
    if o.get('pr') is not None or o.get('pw') is not None:
        hit('ready_pattern')
        if not ok: return                 # nothing is known about the moment
    need(ok, 'refused', 'failed')
    sel = next(v for v in vals if isinstance(v, S) and v.name == 'sel'); truth = next(v for v in vals if isinstance(v, list) and v and isinstance(v[0], S) and v[0].name == 'now')
    now = truth[0].args[0]; rdy = {(x.name, x.args[0]): x.args[1] for x in truth[1:]}
    kinds = {(r['b'] - 1) // 6: r['k'] for r in case['res']}
    def is_ready(kind, x):
        s = str_of(x)
        if kind == 'r' and s is not None and s.pb: return True
        return (kind, fd_of(x)) in rdy
    for kind, L, got in (('r', R, sel.args[0]), ('w', W, sel.args[1])):
        want = [x for x in L if is_ready(kind, x)]
        need(repr(list(got)) == repr(want), 'ready', '%s: ready are %s, reported were %s' % ('reads' if kind == 'r' else 'writes', want, got))
        for x in want:
            hit('read' if kind == 'r' else 'write')
            for e, y in zip(o[kind], L):
                if repr(y) == repr(x) and e[0] == 'slot': hit({'client': 'socket', 'listen': 'listening' if kind == 'r' and isinstance(x, int) else 'socket'}.get(kinds.get((e[1] - 1) // 6), kinds.get((e[1] - 1) // 6)))
                elif e[0] == 'atom' and e[1] == 'user_input': hit('stdin')
            if isinstance(x, int): hit('integer')
            elif not isinstance(x, S): hit('alias')
            s = str_of(x)
            if kind == 'r' and s is not None and s.pb: hit('pushback')
        if kind == 'w' and len(want) < len(L): hit('write_full')
    if t is not None and 0 < t < 0.01: hit('tiny')
    some = list(sel.args[0]) + list(sel.args[1]); el = now - t0
    if not some: hit('none')
    elif len(some) == len(R) + len(W): hit('all')
    else: hit('some')
    if len(set(map(repr, R))) < len(R): hit('twice')
    if any('EINTR' in l for l in lines): hit('interrupted')
    if t is not None and t > 1e12: hit('huge'); need(some, 'early', 'returned without anything ready')
    elif t is not None and t > 0:
        need(el <= t * 1000 + SLACK, 'late', 'returned after %d us' % el)
        if not some: hit('timeout'); need(el >= t * 1000 - 2, 'early', 'nothing is ready and it returned after %d us' % el)
    else:
        hit('forever'); need(some, 'early', 'returned without anything ready')
    if el > SLACK: hit('waited')
    # not later than the first of them became ready
    for kind, L in (('r', R), ('w', W)):
        for x in L:
            if is_ready(kind, x):
                s = str_of(x); since = 0 if kind == 'r' and s is not None and s.pb else rdy.get((kind, fd_of(x)), 0)
                if kind == 'r' and s is not None and s.pb: since = t0; hit('pushback_first') if len(some) == 1 else None
                elif since == 0: continue
                need(now - max(since, t0) <= SLACK, 'late', '%s was ready %d us before the return' % (x, now - max(since, t0)))

def nontrivial(case, rs):
    return any(l.startswith('s select') for l in rs[0].lines)

# ---------------------------------------------------------------- generation
def talk(rng, fd, cap, out=True, inp=True):
    """what the other side does over time"""
    st = []
    for _ in range(rng.randint(0, 6)):
        x = rng.random()
        if x < .5: st.append('sleep %d' % rng.choice([1000, 10**6, 9 * 10**6, 10**7, 3 * 10**8, 10**9, 2 * 10**9]))
        elif x < .8 and out: st.append('w %d %s' % (fd, q(text(rng, rng.choice([1, 1, 2, 5, 20])))))
        elif inp: st.append('r %d %d' % (fd, rng.choice([1, 2, cap, 2 * cap])) if rng.random() < .6 else 'sleep 5000000')
    return st
def mk(t, slots=(), fd=(), ins=(), **k): return dict({'k': 'make', 't': enc(t), 'slots': list(slots), 'fd': list(fd), 'ins': list(ins)}, **k)
NONE = lambda s: S('set_stream_buffering', G(s), A('none'))
def res(rng, j, cap, have):
    b = 6 * j + 1; x = rng.choice(['pipe', 'pipe', 'popen', 'popenw', 'client', 'client', 'listen', 'file', 'stdin'])
    if x == 'stdin' and have: x = 'pipe'
    r = {'k': x, 'r': [], 'w': [], 'b': b}; port = 2000 + j
    if x == 'pipe':
        r['make'] = [mk(C(S('create_pipe', G(b), G(b + 1)), NONE(b)), [b, b + 1], ['pipe0', 'pipe1'], [b])]; r['r'] = [['slot', b]]; r['w'] = [['slot', b + 1]]
    elif x in ('popen', 'popenw'):
        rd = x == 'popen'; r['k'] = 'popen'; r['cmd'] = 'p%d' % j; r['steps'] = talk(rng, 1 if rd else 0, cap, rd, not rd) + (['R 0'] if not rd and rng.random() < .7 else []) + (['sleep 4000000000'] if rng.random() < .3 else []) + ['exit 0']
        r['make'] = [mk(C(S('popen', A(r['cmd']), A('read' if rd else 'write'), G(b)), *([NONE(b)] if rd else [])), [b], ['pipe0' if rd else 'pipe1'], [b] * rd)]; r['r' if rd else 'w'] = [['slot', b]]
    elif x == 'client':
        un = rng.random() < .3; ad = S('AF_UNIX', A('/w/s%d' % j)) if un else S('AF_INET', A('10.0.1.%d' % j), port); la = 'unix:/w/s%d' % j if un else 'inet:10.0.1.%d:%d' % (j, port)
        e = rng.choice([['close 4'], ['shutw 4', 'sleep 2000000000', 'R 4'], ['rst 4'], ['sleep 9000000000', 'close 4']])
        r['actors'] = [['srv%d' % j, '', ['listen 3 ' + la, 'accept 3 4'] + talk(rng, 4, cap) + e]]
        r['make'] = [{'k': 'sleep', 't': 0.01}, mk(C(S('socket', A('AF_UNIX' if un else 'AF_INET'), G(b + 2)), S('socket_connect', G(b + 2), ad, G(b), G(b + 1)), NONE(b)), [b, b + 1], ['connect', 'dup'], [b])]; r['r'] = [['slot', b]]; r['w'] = [['slot', b + 1]]
    elif x == 'listen':
        r['make'] = [mk(C(S('socket', A('AF_INET'), G(b)), S('socket_bind', G(b), S('AF_INET', A('localhost'), port)), S('socket_listen', G(b), 5)), [b], ['socket'])]; r['r'] = [['slot', b]]
        r['actors'] = [['cli%d' % j, '', [s for s in talk(rng, 9, cap) if s.startswith('sleep')] + ['connect 3 inet:10.0.0.1:%d' % port] + talk(rng, 3, cap) + ['sleep 3000000000', 'close 3']]]
        r['late'] = [['slot', b + 1], ['slot', b + 2]]
    elif x == 'file':
        rd = rng.random() < .5; r['make'] = [mk(S('open', A('/w/f' if rd else '/w/o%d' % j), A('read' if rd else 'write'), G(b), [S('buffering', A('none'))]), [b], ['open'], [b] * rd)]; r['r' if rd else 'w'] = [['slot', b]]
    else:
        r['make'] = [mk(S('set_stream_buffering', A('user_input'), A('none')))]; r['r'] = [['atom', 'user_input']]
        r['actors'] = [['typist', '7 stdin', talk(rng, 7, cap, True, False) + ['sleep %d' % rng.choice([1, 10**9, 10**10]), 'close 7']]]
    if x in ('pipe', 'popen', 'client', 'file') and r['r'] and rng.random() < .3:
        r['make'].append(mk(S('add_stream_alias', G(b), A('a%d' % j)), [b], [None], alias='a%d' % j, keep=1)); r['alias'] = 'a%d' % j
    return r
BAD = lambda s: [(V(0), [], INST, 'bad_element'), ([['any', enc(V(0))]], [], INST, 'bad_element'), (A('x'), [], ty('list', A('x')), 'bad_element'), ([['int', -1]], [], [enc(S('domain_error', A('not_less_than_zero'), -1)), enc(S('type_error', A('integer'), -1))], 'bad_element'),
    ([['any', enc(S('f', 1))]], [], [enc(S('domain_error', A('stream_or_alias'), S('f', 1)))], 'bad_element'), ([['any', enc(1.5)]], [], [enc(S('domain_error', A('stream_or_alias'), 1.5))], 'bad_element'), ([['atom', 'nosuch']], [], [enc(S('existence_error', A('stream'), A('nosuch')))], 'bad_element'),
    ([['atom', 'user_output']], [], [enc(S('permission_error', A('input'), A('stream'), A('user_output')))], 'bad_element'), ([], [['atom', 'user_input']], [enc(S('permission_error', A('output'), A('stream'), A('user_input')))], 'bad_element')]
def gen(rng, i):
    cap = rng.choice([16, 64, 4096]); n = rng.choice([1, 2, 2, 3, 4, 5]); case = {'seed': rng.randrange(1 << 30), 'bg': rng.choice([0, 20, 50, 80]), 'cap': cap, 'delay': rng.choice([0, 0, 10**6, 10**9]), 'flag': rng.choice(['error'] * 6 + ['fail'])}
    rs = []
    for j in range(n): rs.append(res(rng, j, cap, any(r['k'] == 'stdin' for r in rs)))
    case['res'] = rs; ops = []
    sure = [r for r in rs if r['k'] == 'file' or r['k'] == 'pipe']
    for _ in range(rng.randint(2, 14)):
        x = rng.random(); r = rng.choice(rs); b = r['b']
        if x < .5:
            R = [e for z in rs for e in z['r'] + ([['atom', z['alias']]] if 'alias' in z else []) if rng.random() < .6]; W = [e for z in rs for e in z['w'] if rng.random() < .35]
            for z in rs:
                if z['k'] == 'listen' and z.get('accepted') and rng.random() < .6: R.append(['slot', z['b'] + 1]); W += [['slot', z['b'] + 2]] * (rng.random() < .3)
            rng.shuffle(R); rng.shuffle(W)
            if R and rng.random() < .1: R.append(rng.choice(R))
            if rng.random() < .1 and not any(z['k'] == 'stdin' for z in rs): R.insert(rng.randint(0, len(R)), ['int', 0])
            t = rng.choice([0.5, 0.9, 1, 1, 2.75, 5, 10, 10, 10, 99.5, 500, 1000, 1000, 1001, 1999.25, 3000, 3000, 10000, 60000])
            y = rng.random()
            if y < .12: t = rng.choice([0, -1, 0.0, -2.5])
            elif y < .16: t = rng.choice([0.0001, 0.001, 1e-300])
            elif y < .19 and R: t = rng.choice([1e13, 1e18, 1e19, 1e30, 1e300])
            o = {'k': 'select', 'r': R, 'w': W, 't': enc(t)}
            z = rng.random()
            if z < .04: o['pr'] = rng.randint(0, 2)
            elif z < .06: o['pw'] = rng.randint(0, 1)
            elif z < .12:
                br, bw, e, p = rng.choice(BAD(0)); o['r'] = enc(br) if not isinstance(br, list) else br; o['w'] = bw; o['e'] = e; o['p'] = p; o['t'] = enc(1)
            elif z < .14: v, e = rng.choice([(V(9), INST), (A('x'), ty('number', A('x')) + ty('evaluable', S('/', A('x'), 0))), (S('f', 1), ty('evaluable', S('/', A('f'), 1)) + ty('number', S('f', 1)))]); o['t'] = enc(v); o['r'] = []; o['w'] = []; o['e'] = e; o['p'] = 'bad_timeout'
            if not R and not W and not o.get('e') and num(o['t']) is not None and num(o['t']) <= 0: o['t'] = enc(10)
            ops.append(o)
            for z in range(rng.randint(0, 3)): ops.append({'k': rng.choice(['take', 'take', 'peek', 'give']), 'n': rng.choice([1, 1, 2, 3]), 'c': 98})
            for z in rs:
                if z['k'] == 'listen' and not z.get('accepted') and rng.random() < .6: ops.append({'k': 'accept', 's': z['b'], 'in': z['b'] + 1, 'out': z['b'] + 2}); z['accepted'] = 1
        elif x < .62 and r['k'] == 'pipe' and not r.get('closed'):
            m = cap - r.get('put', 0)
            if m > 0: k = min(m, rng.choice([1, 2, 10, 5000, 5000, 5000])); r['put'] = r.get('put', 0) + k; ops.append({'k': 'put', 's': b + 1, 't': text(rng, k)})
        elif x < .7 and r['r'] and r['k'] in ('pipe', 'popen', 'client', 'file') and not r.get('ung'): r['ung'] = 1; ops.append({'k': 'unget', 's': b, 'c': 117})
        elif x < .76 and r['k'] in ('pipe', 'client', 'popen', 'file') and not r.get('closed'): r['closed'] = 1; ops.append({'k': 'close', 's': r['w'][0][1] if r['w'] else b})
        elif x < .9: ops.append({'k': 'sleep', 't': rng.choice([0.001, 0.01, 0.3, 1.0, 2.5])})
        elif x < .95 and r['k'] in ('popenw', 'client') and r['w'] and r['k'] == 'client' and cap == 16 and rng.random() < 0: pass
    faults = []
    if rng.random() < .35:
        for _ in range(rng.choice([1, 1, 2])): faults.append(['select', '*', rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 5]), rng.choice(['EINTR'] * 6 + ['ENOMEM', 'EBADF'])])
    for z in rs: z.pop('accepted', None); z.pop('put', None); z.pop('ung', None); z.pop('closed', None)
    case.update({'ops': ops, 'faults': faults}); return case

def reduce(case):
    for k, v in (('bg', 0), ('flag', 'error'), ('delay', 0)):
        if case[k] != v: c = dict(case); c[k] = v; yield c
    for oi, o in enumerate(case['ops']):
        if o['k'] == 'select' and not o.get('e'):
            for f in ('r', 'w'):
                for x in range(len(o[f])): c = dict(case); c['ops'] = list(case['ops']); c['ops'][oi] = dict(o, **{f: o[f][:x] + o[f][x + 1:]}); yield c
