"""C07: child processes: command, connections, data and status are exact; failures leave nothing behind"""
import core, re
from core import A, S, V, G, enc, dec, q, unq, Viol
ID = 'C07'
QUICK = 20000
THOROUGH = 400000
TWICE = 40
SHRINK = ('sessions', 'faults', 'chunks')
RULE = 'a run in which a child exchanged data with the program, ended by itself, or could not be made'
REAL = ['shell, system, spawn, popen, exec, create_pipe, fork_prolog, wait and send_signal, the stream layer and the process layer (os_spawn.c) under them, built from the tree; children of fork run the real code up to exec']
STUB = ['the kernel (processes, pipes, descriptors, signals) is sim/libsim.c', 'the programs that children run are scripts of the plan', "popen(3) and system(3) of the C library: their part after fork is sim/libsim.c"]
PROBES = ['system', 'shell', 'spawn', 'popen_read', 'popen_write', 'exec5', 'exec4', 'merged', 'null', 'existing', 'crossed', 'create_pipe', 'pipe_child', 'fork', 'wait_exit', 'wait_signal', 'status126', 'epipe', 'eof', 'refused', 'exec_failed', 'shell_env', 'long_args', 'two_children', 'bad_argument', 'file_order', 'blocked_write', 'leak_free']
ORACLE = 'the record, kept by the simulated kernel, of every program started, every byte put into and taken from a pipe, and every exit status'
NS = 24                                   # stream slots; process slots are 100 + session

# ---------------------------------------------------------------- the plan
def plan(case):
    L = ['seed %d' % case['seed'], 'bg %d' % case['bg'], 'pipecap %d' % case['cap'], 'dir /w 755', 'maxfd %d' % case['maxfd']]
    for c in case['chunks']: L.append('chunk %s %d' % (q(c[0]), c[1]))
    for s in case['sessions']:
        for p in s.get('files', []): L.append('file %s 644 %s' % (q(p[0]), q(p[1])))
    for f in case['faults']: L.append('fault ' + ' '.join(str(x) for x in f))
    for s in case['sessions']:
        for name, steps in s.get('progs', []):
            L.append('prog ' + q(name)); L += ['do ' + x for x in steps]
    L += ['prog *', 'do exit 127']
    L += ['std 0 null', 'std 1 file /w/stdout', 'std 2 file /w/stderr']
    for s, o in seq(case): L.append('op ' + enc(term(o)))
    env = {}
    if case.get('shell') is not None: env['SHELL'] = case['shell']
    return ('driver', ['driver'], '\n'.join(L) + '\n', {'env': env})

def seq(case):
    """the operations of the sessions in their interleaving, then the closing ones"""
    it = {s['id']: list(s['ops']) for s in case['sessions']}; ss = {s['id']: s for s in case['sessions']}; out = []
    if case.get('flag') != 'error': out.append((None, {'k': 'flag', 'f': case['flag']}))
    for j in case['order']:
        if it.get(j):
            out.append((ss[j], it[j].pop(0)))
            if out[-1][1]['k'] == 'fork':      # the forked process holds every descriptor: nothing else runs until it has ended
                out += [(ss[j], o) for o in it[j]]; it[j] = []
    for s in case['sessions']:
        for o in it[s['id']]: out.append((s, o))
    for s in case['sessions']:
        for o in s['end']: out.append((s, o))
    out.append((None, {'k': 'streams'}))
    return out
def C(*a):
    t = a[-1]
    for x in reversed(a[:-1]): t = S(',', x, t)
    return t
def safe(t, n=0): return S('catch', t, V(10 + n), A('true'))
def spec(x):
    if x[0] == 'var': return G(x[1])
    if x[0] == 'null': return A('null')
    if x[0] == 'alias': return A(x[1])
    return G(x[1])                        # an open stream
def term(o):
    k = o['k']; v = V(0)
    if k == 'sync':
        a = [A(o['cmd'])] + ([[A(x) for x in o['args']]] if o['how'] == 'spawn' else [])
        return S(o['how'], *(a + ([] if o.get('nostat') else [o['want'] if 'want' in o else v])))
    if k == 'popen': return C(S('popen', A(o['cmd']), A(o['mode']), G(o['s'])), S('=', v, G(o['s'])))
    if k == 'exec':
        a = [A(o['cmd'])] + [spec(x) for x in o['io']]; g = [S('nonvar', G(x[1])) for x in o['io'] if x[0] == 'open']
        b = [S('=', V(1 + f), spec(x)) for f, x in enumerate(o['io'])]
        return C(*g, S('exec', *a), S('=', v, 0), *b) if o.get('n') == 4 else C(*g, S('exec', *a, G(o['pid'])), S('=', v, G(o['pid'])), *b)
    if k == 'pipe': return C(S('create_pipe', G(o['r']), G(o['w'])), S('=', v, G(o['r'])), S('=', V(1), G(o['w'])))
    if k == 'put': return S('write', G(o['s']), A(o['t']))
    if k == 'out': return S('write', A('user_output'), A(o['t']))
    if k == 'flush': return S('flush_output', G(o['s']))
    if k == 'get': return S('sim_bulk', G(o['s']), o['n'], A('code'), v)
    if k == 'close': return S('close', G(o['s']), [S('force', A('true'))]) if o.get('force') else S('close', G(o['s']))
    if k == 'openf': return C(S('open', A(o['p']), A(o['m']), G(o['s'])), S('=', v, G(o['s'])))
    if k == 'wait': return S('wait', G(o['pid']), v)
    if k == 'kill': return S('send_signal', G(o['pid']), A(o['sig']) if isinstance(o['sig'], str) else o['sig'])
    if k == 'fork':
        fl = [safe(S('flush_output', G(i)), i) for i in range(NS)] + [S('flush_output', A('user_output'))]
        body = []
        for b in o['body']:
            if b[0] == 'put': body.append(S('write', G(b[1]), A(b[2])))
            elif b[0] == 'close': body.append(S('close', G(b[1])))
            elif b[0] == 'copy': body += [S('sim_bulk', G(b[1]), 70000, A('code'), V(1)), S(';', S('->', S('append', V(3), [-1], V(1)), A('true')), S('=', V(3), V(1))), S('atom_codes', V(2), V(3)), S('write', G(b[2]), V(2))]
        return C(*fl, S('fork_prolog', G(o['pid'])), S(';', S('->', S('==', G(o['pid']), 0), C(S('catch', C(*(body + [A('true')])), V(8), S('halt', 99)), S('halt', o['code']))), S('=', v, G(o['pid']))))
    if k == 'bad': return dec(o['t'])
    if k == 'flag': return S('set_prolog_flag', A('os_error'), A(o['f']))
    if k == 'streams': return S('findall', V(1), S('current_stream', V(1)), v)
    if k == 'endclose': return C(S('=', v, G(o['s'])), safe(S('close', G(o['s']), [S('force', A('true'))])))
    if k == 'endwait': return safe(S('wait', G(o['pid']), v))
    raise ValueError(k)

# ---------------------------------------------------------------- judging
def code(st): return (st >> 8 & 255) if st & 127 == 0 else st & 127
class Pipe:
    __slots__ = ('name', 'put', 'got', 'read', 'dead')
    def __init__(self, name): self.name = name; self.put = bytearray(); self.got = bytearray(); self.read = bytearray(); self.dead = False
class Str:
    """what is known of an open stream of the program"""
    def __init__(self, kind, pipe=None, path=None): self.kind = kind; self.pipe = pipe; self.path = path; self.text = bytearray(); self.popen = None; self.broken = False; self.open = True; self.gotten = bytearray(); self.shared = False; self.kidtext = bytearray(); self.copyof = None; self.ended = False

class Kid:
    """what is known of a process made by the program"""
    def __init__(self): self.op = None; self.exec = None; self.has = {}; self.end = None; self.endop = None; self.faults = []; self.pre = []

def judge(case, r, probes):
    def hit(k): probes[k] = probes.get(k, 0) + 1
    ops = seq(case); per = r.per_op()
    def where(i): return ops[i][1] if i < len(ops) else '?'
    if r.status == 97 or (r.end() or '').startswith('DEADLOCK'): raise Viol('deadlock', 'program and children wait for each other for ever, in operation %s (descriptors: %s)' % (where(len(per) - 1), [l for l in r.lines if ' has ' in l][-12:]))
    if r.status == 98: raise Viol('endless', 'no end in operation %s' % where(len(per) - 1))
    if r.status != 0 or len(per) != len(ops): raise Viol('crash', 'the process ended with %s (%s) in operation %s: %s' % (r.status, r.end(), where(len(per) - 1), r.stray[-300:]))
    pipes = {}; kids = {}; waited = set()
    def kid(n): return kids.setdefault(n, Kid())
    for i, (_, _, _, lines) in enumerate(per):
        for l in lines:
            w = l.split(' ')
            if w[0] == 'A':
                if w[2] == 'has': kid(int(w[1])).has[int(w[3])] = unq(w[4]).decode('latin-1')
                elif w[2] == 'end': kid(int(w[1])).end = int(w[3]); kid(int(w[1])).endop = i
            elif w[0] == 'P':
                k = kid(int(w[1]))
                if w[2] == 'fault': k.faults.append(w[3])
                elif w[3] == 'exec': k.exec = (i, w[-1], [unq(x).decode('latin-1') for x in w[5:-2]], unq(w[4]).decode('latin-1'))
                else: k.pre.append(' '.join(w[2:]))
    slots = {}; byn = {}; pids = {}; shared = bytearray()   # what the file behind standard output must contain, in order
    def bind(slot, t, st):
        slots[slot] = st
        if isinstance(t, S): byn[t.args[0]] = st
        else: raise Viol('stream', 'slot %s became %s' % (slot, t))
    for i, (_, _, logs, lines) in enumerate(per):
        ss, o = ops[i]; k = o['k']
        if i == len(ops) - 1 and logs and logs[-1] == A('end'): logs = logs[:-1]
        if len(logs) != 1: raise Viol('log', 'operation %s ended %d times: %s' % (o, len(logs), logs[:3]))
        ans = logs[0]; ok = isinstance(ans, S) and ans.name == 'ok'; bad = not ok
        vals = ans.args[0] if ok and isinstance(ans.args[0], list) else []
        val = vals[0] if vals else None
        faults = [l.split(' ')[2] for n, l in enumerate(lines) if l.startswith('F ') and l.split(' ')[1] != 'SHORT' and not (n + 1 < len(lines) and re.match(r'P \d+ fault', lines[n + 1]))]
        faults += [l.split(' ')[1] for l in lines if re.match(r's (pipe|open|opendir|dup) .*= (EMFILE|ENFILE)$', l)]
        newp = [l.split(' ')[-1] for l in lines if re.match(r's pipe = \d+ \d+ pipe:', l)]
        forks = [int(l.split(' ')[3]) for l in lines if re.match(r's fork = \d+$', l)]
        for p in newp: pipes[p] = Pipe(p)
        for l in lines:                     # the bytes that moved
            w = l.split(' ')
            if w[0] == 'P': w = w[2:]
            if w[0] == 'A' and w[2] in ('put', 'got'):
                n = unq(w[3]).decode('latin-1')
                if n in pipes: (pipes[n].put if w[2] == 'put' else pipes[n].got).extend(unq(w[4]))
            elif w[0] == 's' and w[1] == 'write' and w[3] in pipes:
                if w[-1] == 'EPIPE': pipes[w[3]].dead = True; hit('epipe')
                elif not re.match(r'E[A-Z]+$', w[-1]) or w[-2] != '=': pipes[w[3]].put.extend(unq(w[-1]))
        def need(cond, key, msg):
            if not cond: raise Viol(key, '%s: %s (answer %s)' % (o, msg, ans))
        def stray(pid):
            x = {f: n for f, n in kids[pid].has.items() if f > 2 and n.startswith('pipe:')}
            need(not x, 'inherited', 'child %d also holds %s, ends of pipes it was not given' % (pid, x))
        def program(want):
            """the command of the one child that was made -> its number, or None when it could not be run"""
            need(len(forks) <= 1, 'command', '%d processes were made' % len(forks))
            if not forks: return None
            x = kids.get(forks[0]); need(x is not None and x.end is not None, 'command', 'the new process did nothing')
            if x.exec is None:
                need(x.faults or any(re.search(r'= E[A-Z0-9]+$', l) for l in x.pre), 'command', 'no program was started by the new process')
                need(x.end & 127 or x.end >> 8 in (126, 127), 'half-made', 'the child that could not be prepared went on and ended with %d' % x.end)
                return None
            need(x.exec[2] == want and x.exec[3] == want[0], 'command', 'the program was started with %s instead of %s' % (x.exec[2:], want))
            if x.exec[1] != '0':
                need(x.end & 127 or x.end >> 8 in (126, 127), 'half-made', 'the child that could not run the command went on and ended with %d' % x.end)
                return None
            stray(forks[0]); return forks[0]
        def cprogram(how, want, mode=None):
            got = [l.split(' ') for l in lines if l.startswith('s %s ' % how) and l.split(' ')[-1].isdigit()]
            if not got: return None
            w = got[0]; need(len(got) == 1 and unq(w[2]).decode('latin-1') == want, 'command', 'the shell was given %s' % got)
            need(mode is None or w[3][0] == mode[0], 'command', 'started with mode %s' % w[3])
            stray(int(w[-1])); return int(w[-1])
        shell = case.get('shell') if case.get('shell') is not None else '/bin/sh'
        # ---- by kind
        if k == 'flag': need(ok, 'flag', 'failed')
        elif k == 'streams':
            got = [x for x in val if isinstance(x, S)]; base = sorted(x.args[0] for x in got)
            need(base == list(range(len(base))) and len(base) <= 5, 'stream left', 'streams left open: %s' % base)
        elif k == 'sync':
            hit(o['how'])
            if o['how'] == 'system': pid = cprogram('system', o['cmd'])
            elif o['how'] == 'shell':
                pid = program([shell, '-c', o['cmd']] if o['cmd'] else [shell])
                if case.get('shell') is not None: hit('shell_env')
            else:
                pid = program([o['cmd']] + o['args'])
                if len(o['args']) > 1000: hit('long_args')
            if pid is None:
                hit('exec_failed'); hit('refused')
                need(faults or forks, 'refused', 'no program was started, although nothing failed')
                need(bad or o.get('nostat') is None and isinstance(val, int) and (val < 0 or val in (126, 127)), 'unreported', 'the program could not be started and nothing was reported')
                for c in forks: waited.add(c)
            else:
                x = kids[pid]; h = x.has; st = x.end; need(st is not None, 'status', 'the child has not ended'); need(x.endop == i, 'too early', 'the child ended after the call returned')
                for f, n in ((0, '/dev/null'), (1, '/w/stdout'), (2, '/w/stderr')): need(h.get(f) == n, 'connection', 'descriptor %d of the child is %s instead of %s' % (f, h.get(f), n))
                waited.add(pid)
                x = st if o['how'] == 'system' else code(st)
                if o['how'] != 'system' and x in (126, 127) and st & 127 == 0:
                    hit('status126'); need(bad or o.get('nostat') or val == x or isinstance(val, int) and val < 0, 'status', 'exit status %d' % x)
                elif o.get('nostat') or 'want' in o: need(ok == (o.get('want', 0) == x), 'status', 'the status was %d' % x)
                else: need(ok and val == x, 'status', 'the status was %d' % x)
                for l in lines:
                    w = l.split(' ')
                    if w[0] == 'A' and w[1] == str(pid) and w[2] == 'put' and unq(w[3]) == b'/w/stdout': shared.extend(unq(w[4])); hit('file_order')
        elif k == 'out': need(ok, 'write', 'failed'); shared.extend(o['t'].encode('latin-1'))
        elif k == 'popen':
            hit('popen_' + o['mode'])
            pid = cprogram('popen', o['cmd'], o['mode'])
            if bad: need(faults, 'refused', 'refused although nothing failed'); hit('refused')
            else:
                need(pid is not None and len(newp) == 1, 'command', 'no program was started')
                h = kids[pid].has; p = pipes[newp[0]]; rd = o['mode'] == 'read'
                for f, n in ((0, '/dev/null' if rd else p.name), (1, p.name if rd else '/w/stdout'), (2, '/w/stderr')): need(h.get(f) == n, 'connection', 'descriptor %d of the child is %s instead of %s' % (f, h.get(f), n))
                s = Str('r' if rd else 'w', p); s.popen = pid; bind(o['s'], val, s)
                if sum(1 for x in slots.values() if x.open and x.kind in 'rw') > 1: hit('two_children')
        elif k == 'exec':
            n4 = o.get('n') == 4; hit('exec4' if n4 else 'exec5')
            io = o['io']; missing = [x for x in io if x[0] == 'open' and (x[1] not in slots or not slots[x[1]].open)]
            if missing:
                if any(x[1] not in slots for x in missing): need(bad, 'closed', 'accepted a stream that was never opened')
                continue
            if bad:
                need(faults, 'refused', 'refused although nothing failed'); hit('refused')
                for c in forks: waited.add(c)
                continue
            hard = [f for f in faults if f in ('pipe', 'fork', 'fdopen', 'open')]
            need(not hard, 'unreported', '%s failed and nothing was reported' % hard)
            merged = io[2][0] == 'var' and io[1] == io[2]
            run = program([shell, '-c', o['cmd']]); need(len(forks) == 1, 'command', 'no process was made'); pid = forks[0]
            if not n4: need(val == pid, 'pid', 'the process is %d' % pid); pids[o['pid']] = pid
            else: waited.add(pid); need(kids[pid].endop == i, 'too early', 'the child had not ended')
            nv = sum(x[0] == 'var' for x in io) - merged
            need(len(newp) == nv, 'connection', '%d pipes for %d streams' % (len(newp), nv))
            std = kids[run].has if run else None
            if not run: hit('exec_failed')
            fresh = list(newp)
            for f, x in enumerate(io):
                if f == 2 and merged:
                    hit('merged'); need(not std or std.get(2) == std.get(1), 'connection', 'error is not merged with output: %s' % std); continue
                if x[0] == 'var':
                    if std:
                        need(std.get(f) in fresh, 'connection', 'descriptor %d of the child is %s' % (f, std.get(f))); p = pipes[std[f]]; fresh.remove(p.name)
                    else: p = Pipe('none')
                    s = Str('w' if f == 0 else 'r', p); s.broken = not std
                    bind(x[1], vals[1 + f], s)
                    continue
                if x[0] == 'null': want = '/dev/null'; hit('null')
                elif x[0] == 'alias': want = {'user_input': '/dev/null', 'user_output': '/w/stdout', 'user_error': '/w/stderr'}[x[1]]; hit('existing')
                else:
                    t = slots[x[1]]; want = t.path or t.pipe.name; hit('existing')
                    if t.pipe: hit('pipe_child'); t.shared = True
                need(not std or std.get(f) == want, 'connection', 'descriptor %d of the child is %s instead of %s' % (f, (std or {}).get(f), want))
            if io[1][0] == 'alias' and io[1][1] == 'user_error' and io[2][0] == 'alias' and io[2][1] == 'user_output': hit('crossed')
        elif k == 'pipe':
            hit('create_pipe')
            if bad: need(faults, 'refused', 'refused although nothing failed'); hit('refused')
            else:
                need(not [f for f in faults if f in ('pipe', 'fdopen')], 'unreported', 'a failure was not reported')
                need(len(newp) == 1, 'connection', '%d pipes' % len(newp)); p = pipes[newp[0]]
                bind(o['r'], vals[0], Str('r', p)); bind(o['w'], vals[1], Str('w', p))
        elif k == 'openf':
            if ok: bind(o['s'], val, Str('f', None, o['p']))
            else: need(faults, 'refused', 'refused although nothing failed')
        elif k == 'fork':
            if bad: need('fork' in faults, 'refused', 'refused although nothing failed'); hit('refused')
            else:
                hit('fork'); need('fork' not in faults and len(forks) == 1 and val == forks[0], 'pid', 'processes made: %s' % forks)
                pids[o['pid']] = val
                for b in o['body']:
                    if b[0] == 'put' and b[1] in slots: slots[b[1]].shared = True; slots[b[1]].kidtext.extend(b[2].encode('latin-1'))
                    if b[0] == 'copy' and b[2] in slots: slots[b[2]].shared = True; slots[b[2]].copyof = slots.get(b[1])
        elif k in ('put', 'flush', 'get', 'close'):
            s = slots.get(o['s'])
            if s is None or not s.open:
                if s is None: need(bad, 'closed', 'accepted a stream that was never opened')
                elif ok and k == 'close': hit('reused')
                continue
            p = s.pipe
            if k == 'put':
                if ok or s.kind != 'w' or not p.dead: need(ok or s.broken or p is not None and p.dead, 'write', 'failed'); s.text.extend(o['t'].encode('latin-1'))
                else: s.broken = True
            elif k == 'get':
                if s.ended: continue
                need(ok, 'read', 'failed')
                g = list(val); end = bool(g) and g[-1] == -1; g = bytes(g[:-1] if end else g); s.gotten.extend(g)
                if not s.broken: need(bytes(p.put).startswith(bytes(s.gotten)), 'data', 'read %r, the pipe carried %r' % (bytes(s.gotten[-60:]), bytes(p.put[max(0, len(s.gotten) - 60):len(s.gotten) + 20])))
                else: need(not g, 'data', 'data from nowhere: %r' % g)
                if end or len(g) < o['n']:
                    hit('eof'); s.ended = True; need(s.broken or bytes(s.gotten) == bytes(p.put), 'data', 'end of file after %d of %d bytes' % (len(s.gotten), len(p.put)))
                    w = [x for x in slots.values() if x.pipe is p and x.kind == 'w']
                    if w and (w[0].kidtext or w[0].copyof):
                        t = bytes(w[0].kidtext) if w[0].copyof is None else b''.join(bytes(x.text) for x in slots.values() if x.kind == 'w' and x.pipe is w[0].copyof.pipe)
                        need(bytes(s.gotten) == t, 'data', 'the forked process wrote %r, read were %r' % (t[-80:], bytes(s.gotten[-80:])))
            if s.kind == 'w' and p.name != 'none':
                if k in ('flush', 'close') and ok and not p.dead and not s.broken and not o.get('force'):
                    need(bytes(p.put) == bytes(s.text) or s.shared and bytes(p.put).startswith(bytes(s.text)), 'data', 'the child was sent %r instead of %r' % (bytes(p.put[-60:]), bytes(s.text[-60:])))
                if not ok and k == 'flush': need(p.dead, 'write', 'failed')
            if k == 'close':
                if ok or any(re.match(r's (close|wait) ', l) for l in lines): s.open = False
                if s.popen is not None and not s.open:
                    st = kids[s.popen].end; waited.add(s.popen)
                    need(any(l.startswith('s wait %d = ' % s.popen) for l in lines), 'status', 'the child was not waited for')
                    if not ok: need(st != 0 or p.dead, 'close', 'failed although the command succeeded')
                elif not ok: need(p is not None and (p.dead or s.broken), 'close', 'failed')
        elif k == 'endclose':
            s = byn.get(val.args[0]) if ok and isinstance(val, S) else None
            if s is not None and s.open:
                s.open = False
                if s.popen is not None: need(any(l.startswith('s wait %d = ' % s.popen) for l in lines), 'status', 'the child was not waited for'); waited.add(s.popen)
        elif k in ('wait', 'endwait'):
            pid = pids.get(o['pid'])
            if k == 'endwait':
                if pid: waited.add(pid)
                continue
            if pid is None or pid in waited: need(bad, 'status', 'no such child'); continue
            waited.add(pid); st = kids[pid].end; need(st is not None and kids[pid].endop <= i, 'status', 'the child has not ended'); x = code(st)
            if kids[pid].exec is None: hit('wait_exit')
            if st & 127 == 0 and x in (126, 127): hit('status126'); need(bad or val == x or isinstance(val, int) and val < 0, 'status', 'exit status %d' % x)
            else: need(ok and val == x, 'status', 'the status was %d' % x); hit('wait_signal' if st & 127 else 'wait_exit')
            f = [x for x in (ss or {}).get('ops', []) if x['k'] == 'fork' and x['pid'] == o['pid']]
            if f and not [p for p in pipes.values() if p.dead] and all(z in slots for y in f[0]['body'] for z in y[1:] if isinstance(z, int)): need(x == f[0]['code'], 'status', 'the forked process ended with %d' % x)
        elif k == 'kill':
            pid = pids.get(o['pid'])
            if pid is None or pid in waited: need(bad, 'signal', 'no such process')
            else:
                need(ok, 'signal', 'failed')
                num = {'SIGTERM': 15, 'SIGKILL': 9, 'SIGUSR1': 10, 'SIGHUP': 1}.get(o['sig'], o['sig'])
                need('s kill %d %d' % (pid, num) in lines, 'signal', 'another signal was sent: %s' % [l for l in lines if l.startswith('s kill')])
        elif k == 'bad':
            hit('bad_argument')
            e = ans.args[0] if isinstance(ans, S) and ans.name == 'ex' else None
            want = [dec(x) for x in o['e']]
            need(isinstance(e, S) and e.name == 'error' and any(e.args[0] == w or repr(e.args[0]) == repr(w) for w in want), 'error', 'expected the error %s' % want)
            need(not newp and not forks, 'error', 'something was started')
        for s in slots.values():            # what has arrived is always a prefix of what was written
            if s.kind == 'w' and not s.shared and s.pipe.name != 'none' and not bytes(s.text).startswith(bytes(s.pipe.put)): need(False, 'data', 'the child was sent %r, written was %r' % (bytes(s.pipe.put[-60:]), bytes(s.text[-60:])))
            if s.pipe is not None and len(s.pipe.put) > case['cap']: hit('blocked_write')
    # ---- at the end
    fds = {f: n for f, n in r.fds().items() if f > 2}
    nul = [f for f, n in fds.items() if n == '/dev/null']
    if len(nul) > 2 or len(nul) != len(fds): raise Viol('descriptor left', 'descriptors left open: %s' % fds)
    if r.procs(): raise Viol('child left', 'children left behind: %s' % r.procs())
    hit('leak_free')
    f = r.files().get('/w/stdout', b'')
    others = any(x[0] == 'alias' and x[1] == 'user_output' for s in case['sessions'] for o in s['ops'] if o['k'] == 'exec' for x in o['io'])
    mism = not insub(bytes(shared), f) if others else f != bytes(shared)
    if mism: raise Viol('order', 'standard output contains %r instead of %r' % (f[-200:], bytes(shared[-200:])))
    for s in case['sessions']:
        for p, want in s.get('want', []):
            opened = any(x is s and o['k'] == 'openf' and o['p'] == p and isinstance(per[n][2][0], S) and per[n][2][0].name == 'ok' for n, (x, o) in enumerate(ops))
            if not opened: continue
            txt = b''
            for n, (x, o) in enumerate(ops):
                if x is not s: continue
                if o['k'] == 'put' and isinstance(per[n][2][0], S) and per[n][2][0].name == 'ok' and o['s'] == want: txt += o['t'].encode('latin-1')
                for l in per[n][3]: pass
            # children of this session wrote into the file: parts must be complete and in order
            kids = b''.join(unq(l.split(' ')[4]) for l in r.lines if l.startswith('A ') and ' put ' + q(p) + ' ' in l)
            got = r.files().get(p, b'')
            if sorted(got) != sorted(txt + kids) or not insub(txt, got) or not insub(kids, got): raise Viol('order', '%s contains %r; written were %r and, by children, %r' % (p, got[-200:], txt, kids))
            w = expected_file(s, p, want, per, ops)
            if w is not None and got != w: raise Viol('order', '%s contains %r instead of %r' % (p, got[-200:], w[-200:]))

def insub(a, b):
    it = iter(b)
    return all(x in it for x in a)
def expected_file(s, p, slot, per, ops):
    """the program's writes before the child was started come first"""
    out = b''
    for n, (x, o) in enumerate(ops):
        if x is not s: continue
        ok = isinstance(per[n][2][0], S) and per[n][2][0].name == 'ok'
        if o['k'] == 'put' and o['s'] == slot and ok: out += o['t'].encode('latin-1')
        if o['k'] == 'exec' and ok:
            pid = None
            for l in per[n][3]:
                if re.match(r's fork = \d+$', l): pid = l.split(' ')[3]
            # the generator lets the program wait for the child before it writes again
            for m in range(len(per)):
                for l in per[m][3]:
                    if l.startswith('A %s put ' % pid) and unq(l.split(' ')[3]).decode('latin-1') == p: out += unq(l.split(' ')[4])
    return out

def nontrivial(case, rs):
    r = rs[0]
    return any(l[:2] == 'A ' and (' put ' in l or ' got ' in l or ' end ' in l) for l in r.lines) or bool(r.faults())

# ---------------------------------------------------------------- generation
def text(rng, n):
    b = ''.join(rng.choice('abcdefgh XYZ019.,\n') for _ in range(min(n, 37)))
    return (b * (n // max(1, len(b)) + 1))[:n]
def wsteps(fd, t):
    return ['w %d %s' % (fd, q(t))] if t else []
EXITS = [0, 0, 0, 1, 2, 3, 77, 125, 126, 127, 128, 130, 200, 255]
def ending(rng): return ['exit %d' % rng.choice(EXITS)] if rng.random() < .75 else ['kill %d' % rng.choice([1, 2, 6, 9, 11, 13, 15])] if rng.random() < .7 else []
def nap(rng): return ['sleep %d' % rng.choice([1, 1000, 1000000, 10**9, 3 * 10**9])] if rng.random() < .3 else []
def size(rng, cap): return rng.choice([0, 1, 5, 30, cap - 1, cap, cap + 1, 2 * cap + 3, 5 * cap]) if cap <= 512 else rng.choice([0, 1, 5, 30, 200, 1023, 1024, 1025, 4095, 4096, 4097, 5000])
def upto(rng, cap): return min(cap, rng.choice([0, 1, 5, 30, rng.randint(0, min(cap, 4000)), min(cap, 4000)]))
def emit(rng, total, fd=1):
    """a program's output in pieces"""
    out = []
    while total > 0:
        n = total if rng.random() < .4 else rng.randint(1, total); out += nap(rng) + wsteps(fd, text(rng, n)); total -= n
    return out
def name(rng, j): return rng.choice(['p%d', 'prog%d -x', "p%d 'a b' | sort", '/bin/p%d', 'p%d > f &', 'p%d "%%s" $HOME', 'p%d ' + 'z' * rng.choice([3, 60, 200, 1100, 3000])]) % j
def gets(rng, slot, total):
    ops = []
    while total > 0 and rng.random() < .6:
        n = rng.randint(1, total); ops.append({'k': 'get', 's': slot, 'n': n}); total -= n
    return ops + [{'k': 'get', 's': slot, 'n': 100000}]
def puts(rng, slot, total):
    ops = []
    while total > 0:
        n = total if rng.random() < .4 else rng.randint(1, total); ops.append({'k': 'put', 's': slot, 't': text(rng, n)}); total -= n
        if rng.random() < .3: ops.append({'k': 'flush', 's': slot})
    return ops

def s_sync(rng, j, cap):
    how = rng.choice(['system', 'shell', 'spawn']); c = name(rng, j); steps = []; ops = []
    for _ in range(rng.randint(0, 2)): ops.append({'k': 'out', 't': text(rng, rng.choice([1, 5, 30]))})
    o = {'k': 'sync', 'how': how, 'cmd': c}
    if how == 'spawn':
        o['cmd'] = rng.choice(['p%d' % j, '/usr/bin/p%d' % j, './a b']); o['args'] = [rng.choice(['', 'a', '-x', 'a b', "it's", '$HOME', '*', 'x' * 300, '"q"', '\\n', '--']) for _ in range(rng.choice([0, 0, 1, 2, 3, 8, 30]))]
        if rng.random() < .08: o['args'] = ['a%d' % i for i in range(rng.choice([1021, 1022, 1023, 1024, 1100, 2000]))]
        if rng.random() < .1: o['cmd'] = 'p%d' % j + 'n' * rng.choice([40, 64, 100, 1000])
        c = ' '.join([o['cmd']] + o['args']) if len(o['args']) < 5 and sum(map(len, o['args'])) < 150 and len(o['cmd']) < 100 else o['cmd']
    if how == 'shell' and rng.random() < .05: o['cmd'] = ''; c = 'sh'
    if rng.random() < .2: o['nostat'] = 1
    elif rng.random() < .1: o['want'] = rng.choice([0, 1, 256])
    steps = nap(rng) + emit(rng, rng.choice([0, 0, 1, 10, 200])) + (wsteps(2, 'err\n') if rng.random() < .3 else []) + nap(rng) + ending(rng)
    ops.append(o)
    if rng.random() < .5: ops.append({'k': 'out', 't': text(rng, 7)})
    return {'progs': [[c, steps]] if rng.random() < .93 else [], 'ops': ops, 'end': []}

def s_popen(rng, j, cap):
    sl = 4 * j; c = name(rng, j); rd = rng.random() < .5; ops = [{'k': 'popen', 'cmd': c, 'mode': 'read' if rd else 'write', 's': sl}]
    if rd:
        n = size(rng, cap); steps = emit(rng, n) + nap(rng)
        if rng.random() < .2: steps.insert(0, 'close 0')
        steps += ending(rng)
        if rng.random() < .8: ops += gets(rng, sl, n)
        elif n: ops.append({'k': 'get', 's': sl, 'n': rng.randint(1, n)})
    else:
        n = size(rng, cap); steps = nap(rng) + rng.choice([['R 0'], ['R 0'], ['cat 0 1'][:0] + ['R 0'], ['r 0 %d' % rng.randint(1, n + 1)], []]) + nap(rng) + ending(rng)
        ops += puts(rng, sl, n)
    ops.append({'k': 'close', 's': sl})
    if rng.random() < .15: ops[-1]['force'] = 1
    return {'progs': [[c, steps]] if rng.random() < .93 else [], 'ops': ops, 'end': [{'k': 'endclose', 's': sl}]}

def s_exec(rng, j, cap):
    b = 4 * j; c = name(rng, j); pid = 100 + j; n4 = rng.random() < .2; files = []; ops = []; want = []
    small = min(cap, 4000)
    # standard input
    x = rng.random()
    if x < .5 and not n4 or x < .2: si = ['var', b]
    elif x < .65: si = ['null']
    elif x < .75: si = ['alias', 'user_input']
    else:
        f = '/w/in%d' % j; files.append([f, text(rng, rng.choice([0, 10, 300]))]); ops.append({'k': 'openf', 's': b, 'p': f, 'm': 'read'}); si = ['open', b]
    x = rng.random()
    if x < .55: so = ['var', b + 1]
    elif x < .65: so = ['null']
    elif x < .8: so = ['alias', rng.choice(['user_output', 'user_error', 'user_error'])]
    else:
        f = '/w/out%d' % j; ops.append({'k': 'openf', 's': b + 1, 'p': f, 'm': 'write'}); ops += [{'k': 'put', 's': b + 1, 't': text(rng, rng.choice([1, 5, 40]))} for _ in range(rng.randint(0, 1))]; so = ['open', b + 1]; want.append([f, b + 1])
    x = rng.random()
    if x < .3: se = ['var', b + 2]
    elif x < .5: se = list(so)
    elif x < .65: se = ['null']
    else: se = ['alias', rng.choice(['user_error', 'user_output'])]
    merged = se == so
    o = {'k': 'exec', 'cmd': c, 'io': [si, so, se]}
    if n4: o['n'] = 4
    else: o['pid'] = pid
    ops.append(o)
    reads = rng.random() < .6 and not (n4 and si[0] == 'var')
    inw = si[0] == 'var' and not n4
    steps = nap(rng); outn = 0; errn = 0; inn = 0
    if reads and rng.random() < .6 and (so[0] != 'alias' or so[1] != 'user_output') and not (n4 and so[0] == 'var'):        # a filter
        if inw: inn = upto(rng, small)
        steps += ['cat 0 1']
        outn = inn or 300
        if rng.random() < .4:
            n = rng.randint(0, max(0, small - inn)); 
            if so[0] == 'var' and n and inn + n <= small: steps += emit(rng, n); outn += n
    else:
        if inw: inn = size(rng, cap) if reads else upto(rng, small)
        outn = upto(rng, small) if inw or n4 else size(rng, cap)
        if se[0] == 'var' and not merged: errn = rng.randint(0, small); outn = min(outn, small)
        elif rng.random() < .3:
            errn = rng.choice([1, 16])
            if merged and (inw or n4): outn = min(outn, small - errn)
        body = emit(rng, max(0, outn)) ; e = emit(rng, errn, 2) if errn else []
        if inw and reads: steps += ['R 0'] + body + e if rng.random() < .5 else body + e + ['R 0']
        else:
            k = rng.randint(0, len(body)); steps += body[:k] + e + body[k:]
    if outn < 0: outn = 0
    steps += nap(rng) + ending(rng)
    after = []
    if inw:
        after += puts(rng, b, inn) + [{'k': 'close', 's': b}]
    if not n4 and rng.random() < .1: after.insert(rng.randint(0, len(after)), {'k': 'kill', 'pid': pid, 'sig': rng.choice([0, 9, 15, 'SIGTERM', 'SIGKILL', 'SIGUSR1', 'SIGHUP'])})
    rest = []
    if so[0] == 'var': rest += gets(rng, b + 1, outn) if rng.random() < .85 or se[0] == 'var' and not merged else []
    if se[0] == 'var' and not merged: rest += gets(rng, b + 2, errn) if rng.random() < .85 else []
    closes = [{'k': 'close', 's': x[1]} for x in ([so] if so[0] == 'var' else []) + ([se] if se[0] == 'var' and not merged else [])]
    after += rest + closes
    if not n4: after.append({'k': 'wait', 'pid': pid})
    if not n4 and rng.random() < .05: after.append({'k': 'wait', 'pid': pid})
    if so[0] == 'open' and not n4 or so[0] == 'open':
        if rng.random() < .4: after.append({'k': 'put', 's': b + 1, 't': text(rng, 9)})
        after.append({'k': 'close', 's': b + 1})
    if si[0] == 'open': after.append({'k': 'close', 's': b})
    return {'progs': [[c, steps]] if rng.random() < .93 else [], 'files': files, 'want': want, 'ops': ops + after, 'end': [{'k': 'endclose', 's': b + i} for i in range(3)] + [{'k': 'endwait', 'pid': pid}]}

def s_pipe(rng, j, cap):
    b = 4 * j; pid = 100 + j; kind = rng.choice(['alone', 'exec', 'fork', 'fork', 'forkback']); small = min(cap, 4000); ops = [{'k': 'pipe', 'r': b, 'w': b + 1}]; progs = []; end = [{'k': 'endclose', 's': b + 1}, {'k': 'endclose', 's': b + 3}, {'k': 'endclose', 's': b}, {'k': 'endclose', 's': b + 2}, {'k': 'endwait', 'pid': pid}]
    if kind == 'alone':
        left = small
        for _ in range(rng.randint(1, 4)):
            n = rng.randint(0, left); left -= n
            if n: ops.append({'k': 'put', 's': b + 1, 't': text(rng, n)}); ops.append({'k': 'flush', 's': b + 1})
            if n and rng.random() < .5: m = rng.randint(1, n); ops.append({'k': 'get', 's': b, 'n': m}); left += 0
        ops += [{'k': 'close', 's': b + 1}, {'k': 'get', 's': b, 'n': 100000}, {'k': 'close', 's': b}]
        if rng.random() < .15: ops = [ops[0], {'k': 'close', 's': b}, {'k': 'put', 's': b + 1, 't': 'x\n'}, {'k': 'close', 's': b + 1, 'force': 1}]
        fix_gets(ops, b, b + 1)
    elif kind == 'exec':
        c = name(rng, j)
        if rng.random() < .5:            # the child writes into the pipe
            n = size(rng, cap); progs = [[c, emit(rng, n) + ending(rng)]]
            ops += [{'k': 'exec', 'cmd': c, 'io': [['null'], ['open', b + 1], ['null']], 'pid': pid}, {'k': 'close', 's': b + 1}] + gets(rng, b, n) + [{'k': 'wait', 'pid': pid}, {'k': 'close', 's': b}]
        else:
            n = size(rng, cap); progs = [[c, nap(rng) + ['R 0'] + ending(rng)]]
            ops += [{'k': 'exec', 'cmd': c, 'io': [['open', b], ['null'], ['alias', 'user_error']], 'pid': pid}, {'k': 'close', 's': b}] + puts(rng, b + 1, n) + [{'k': 'close', 's': b + 1}, {'k': 'wait', 'pid': pid}]
    elif kind == 'fork':
        n = size(rng, cap); body = [['close', b]]; left = n
        while left > 0: m = rng.randint(1, left); body.append(['put', b + 1, text(rng, m)]); left -= m
        if rng.random() < .5: body.append(['close', b + 1])
        ops += [{'k': 'fork', 'pid': pid, 'body': body, 'code': rng.choice([0, 1, 5, 255])}, {'k': 'close', 's': b + 1}] + gets(rng, b, n) + [{'k': 'wait', 'pid': pid}, {'k': 'close', 's': b}]
    else:
        n = upto(rng, small); body = [['close', b + 1], ['close', b + 2], ['copy', b, b + 3]]
        ops += [{'k': 'pipe', 'r': b + 2, 'w': b + 3}, {'k': 'fork', 'pid': pid, 'body': body, 'code': rng.choice([0, 3])}, {'k': 'close', 's': b}, {'k': 'close', 's': b + 3}] + puts(rng, b + 1, n) + [{'k': 'close', 's': b + 1}] + gets(rng, b + 2, n) + [{'k': 'close', 's': b + 2}, {'k': 'wait', 'pid': pid}]
    return {'progs': progs, 'ops': ops, 'end': end, 'fork': kind.startswith('fork')}
def fix_gets(ops, r, w):
    """nothing is asked from a pipe that was not put there: it would wait for ever"""
    have = 0
    for o in ops:
        if o['k'] == 'put' and o['s'] == w: have += len(o['t'])
        if o['k'] == 'get' and o['s'] == r and o['n'] < 100000: o['n'] = min(o['n'], have); have -= o['n']
    ops[:] = [o for o in ops if not (o['k'] == 'get' and o['n'] <= 0)]

INST = [enc(A('instantiation_error'))]
def ty(k, x): return [enc(S('type_error', A(k), x))]
def s_bad(rng, j, cap):
    v = V(0); w = V(1); a = A('p%d' % j); f = S('f', 1)
    tbl = [(S('system', v), INST), (S('system', 1, w), ty('atom', 1)), (S('system', a, A('x')), ty('integer', A('x'))), (S('shell', v, w), INST), (S('shell', f, w), ty('atom', f)), (S('shell', a, 1.5), ty('integer', 1.5)),
           (S('spawn', v, [], w), INST), (S('spawn', a, v, w), INST), (S('spawn', a, core.T([A('b')], v), w), INST), (S('spawn', a, A('b'), w), ty('list', A('b'))), (S('spawn', a, [1], w), ty('atom', 1)), (S('spawn', a, [v], w), INST), (S('spawn', a, core.T([A('x')], A('y')), w), ty('list', core.T([A('x')], A('y')))), (S('spawn', a, [], A('z')), ty('integer', A('z'))),
           (S('popen', v, A('read'), w), INST), (S('popen', 1, A('read'), w), ty('atom', 1)), (S('popen', a, v, w), INST), (S('popen', a, 1, w), ty('atom', 1)), (S('popen', a, A('foo'), w), [enc(S('domain_error', A('io_mode'), A('foo')))]), (S('popen', a, A('read'), A('s')), [enc(S('uninstantiation_error', A('s')))]),
           (S('exec', v, A('null'), A('null'), A('null'), w), INST), (S('exec', 7, A('null'), A('null'), A('null'), w), ty('atom', 7)), (S('exec', a, 3, A('null'), A('null'), w), [enc(S('domain_error', A('stream_or_alias'), 3))]), (S('exec', a, A('nostream'), A('null'), A('null')), [enc(S('existence_error', A('stream'), A('nostream')))]), (S('exec', a, A('user_output'), A('null'), A('null'), w), [enc(S('permission_error', A('input'), A('stream'), A('user_output')))]), (S('exec', a, A('null'), A('user_input'), A('null'), w), [enc(S('permission_error', A('output'), A('stream'), A('user_input')))]), (S('exec', a, A('null'), A('null'), A('null'), 5), [enc(S('uninstantiation_error', 5))]),
           (S('create_pipe', A('x'), w), [enc(S('uninstantiation_error', A('x')))]), (S('create_pipe', v, 2), [enc(S('uninstantiation_error', 2))]), (S('fork_prolog', 1), [enc(S('uninstantiation_error', 1))]), (S('wait', v, w), INST), (S('wait', a, w), ty('integer', a)), (S('wait', 3, a), ty('integer', a)), (S('send_signal', v, 1), INST), (S('send_signal', 1, v), INST), (S('send_signal', a, 1), ty('integer', a)), (S('send_signal', 1, f), ty('integer', f))]
    ops = []
    for _ in range(rng.randint(1, 4)):
        t, e = rng.choice(tbl); ops.append({'k': 'bad', 't': enc(t), 'e': e})
    return {'progs': [], 'ops': ops, 'end': []}

FAULTS = [('pipe', '*', ['EMFILE', 'ENFILE']), ('fork', '*', ['EAGAIN', 'ENOMEM']), ('exec', '*', ['ENOENT', 'EACCES', 'ENOMEM', 'E2BIG', 'ENOTDIR', 'ENOEXEC']), ('dup2', '*', ['EBADF', 'EMFILE', 'EBUSY']), ('fdopen', '*', ['ENOMEM']), ('waitpid', '*', ['EINTR']), ('open', '/dev/null', ['EMFILE', 'ENFILE']), ('dup', '*', ['EMFILE'])]
def gen(rng, i):
    cap = rng.choice([16, 64, 512, 4096, 65536]); n = rng.choice([1, 1, 2, 2, 3, 4, 5]); ss = []
    for j in range(n):
        f = rng.choice([s_sync, s_popen, s_popen, s_exec, s_exec, s_exec, s_pipe, s_pipe, s_bad])
        s = f(rng, j, cap); s['id'] = j; ss.append(s)
    order = [s['id'] for s in ss for _ in s['ops']]
    if rng.random() < .8: rng.shuffle(order)
    faults = []
    if rng.random() < .45:
        for _ in range(rng.choice([1, 1, 2, 3])):
            c, m, es = rng.choice(FAULTS); faults.append([c, m, rng.choice([1, 1, 1, 2, 2, 3, 4]), 1 if c != 'waitpid' else rng.choice([1, 1, 2]), rng.choice(es)])
    chunks = [['pipe', rng.choice([1, 2, 7, 100])]] if rng.random() < .3 else []
    c = {'seed': rng.randrange(1 << 30), 'bg': rng.choice([0, 20, 50, 80, 95]), 'cap': cap, 'maxfd': rng.choice([64, 64, 64, 64, 64, 64, 8, 10, 12]), 'chunks': chunks, 'sessions': ss, 'order': order, 'faults': faults, 'flag': rng.choice(['error', 'error', 'error', 'error', 'error', 'fail']), 'shell': rng.choice([None, None, None, '/bin/bash', 'zsh', '/odd dir/sh'])}
    return c

def reduce(case):
    for si, s in enumerate(case['sessions']):
        for oi, o in enumerate(s['ops']):
            if o['k'] in ('put', 'out', 'flush', 'kill', 'bad') or o['k'] == 'get' and o['n'] < 100000:
                c = dict(case); c['sessions'] = [dict(x) for x in case['sessions']]; c['sessions'][si]['ops'] = s['ops'][:oi] + s['ops'][oi + 1:]; yield c
        for pi, (nm, st) in enumerate(s.get('progs', [])):
            for k in range(len(st)):
                if st[k].split(' ')[0] in ('sleep', 'w'):
                    c = dict(case); c['sessions'] = [dict(x) for x in case['sessions']]; c['sessions'][si]['progs'] = [[nm, st[:k] + st[k + 1:]]]; yield c
    for k, v in (('bg', 0), ('flag', 'error'), ('shell', None), ('maxfd', 64)):
        if case[k] != v: c = dict(case); c[k] = v; yield c
    if sorted(case['order']) != case['order']: c = dict(case); c['order'] = sorted(case['order']); yield c
