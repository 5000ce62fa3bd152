"""C05: sockets: connected peers exchange exactly the bytes written, errors surface, nothing is left behind"""
import core, re
from core import A, S, V, G, enc, dec, q, unq, Viol
from c07 import C, safe, text, nap, INST, ty
ID = 'C05'
QUICK = 16000
THOROUGH = 300000
TWICE = 40
SHRINK = ('sessions', 'faults', 'chunks')
RULE = 'a run in which a connection was made, refused or broken'
REAL = ['the socket predicates (sockets_c.c, sockets.pl), the stream layer over their descriptors, path expansion, built from the tree']
STUB = ['the kernel (sockets, network with delay and segmentation, descriptors, resolver) is sim/libsim.c', 'the other hosts are scripts of the plan']
PROBES = ['connected', 'accepted', 'refused', 'unknown_host', 'unix', 'self', 'several_clients', 'eof', 'reset', 'write_error', 'half_close', 'peer_gone', 'drained', 'unbuffered', 'child_beside', 'bad_address', 'bound_port', 'retry', 'stream_failure', 'hostname', 'too_long', 'blocked_write']
ORACLE = 'the record, kept by the simulated network, of every connection made and of every byte that entered and left each end of it'

# ---------------------------------------------------------------- the plan
def plan(case):
    L = ['seed %d' % case['seed'], 'bg %d' % case['bg'], 'pipecap %d' % case['cap'], 'dir /w 777', 'maxfd %d' % case['maxfd']]
    for h in case['hosts']: L.append('host %s %s' % (q(h[0]), h[1]))
    if case['delay']: L.append('fault netdelay * 1 1 val %d' % case['delay'])
    for c in case['chunks']: L.append('chunk %s %d' % (q(c[0]), c[1]))
    for f in case['faults']: L.append('fault ' + ' '.join(str(x) for x in f))
    for s in case['sessions']:
        for name, steps in s.get('actors', []):
            L.append('actor ' + q(name)); L += ['do ' + x for x in steps]
    L += ['prog *', 'do exit 0', 'std 0 null', 'std 1 file /w/stdout', 'std 2 file /w/stderr']
    for s, o in seq(case): L.append('op ' + enc(term(o)))
    return ('driver', ['driver'], '\n'.join(L) + '\n', {'env': {}})

def seq(case):
    it = {s['id']: list(s['ops']) for s in case['sessions']}; ss = {s['id']: s for s in case['sessions']}; out = []
    if case['flag'] != 'error': out.append((None, {'k': 'flag', 'f': case['flag']}))
    for j in case['order']:
        if it.get(j): out.append((ss[j], it[j].pop(0)))
    for s in case['sessions']:
        for o in it[s['id']]: out.append((s, o))
    for s in case['sessions']:
        for o in s['end']: out.append((s, o))
    out.append((None, {'k': 'sleep', 't': 1000.0})); out.append((None, {'k': 'streams'}))
    return out
def adr(a):
    if a[0] == 'unix': return S('AF_UNIX', A(a[1]))
    h = A(a[1]) if isinstance(a[1], str) else V(5) if a[1] is None else a[1]
    p = a[2] if isinstance(a[2], int) else V(6) if a[2] is None else G(a[2][0])
    return S('AF_INET', h, p)
SKIP = A('$skipped')
def when(need, goal):
    """goal, only where the steps before it went well"""
    c = need[0]
    for x in need[1:]: c = S(',', c, x)
    return S(';', S('->', c, goal), S('=', V(0), SKIP))
def broken(o): return A('broken%d' % (o['s'] // 10 * 10 + 0 if o.get('self') else (o['s'] % 10) // 2))
def marks(o, goal):
    """nothing is read any more from a connection once something failed on it: nobody knows what the peer waits for"""
    m = S('g_assign', broken(o), 1)
    return S('catch', S(';', S('->', goal, A('true')), S(',', m, A('fail'))), V(8), S(',', m, S('throw', V(8))))
def term(o):
    t = term1(o); n = [S('nonvar', G(x)) for x in o.get('need', ())]
    if o['k'] in ('put', 'flush', 'get', 'peek'): t = marks(o, t)
    if o['k'] in ('put', 'flush', 'get', 'peek'): n.append(S('g_read', broken(o), 0))
    if o['k'] == 'bind' and 'done' in o: t = C(t, S('=', G(o['done']), 1))
    if o['k'] == 'listen' and 'done' in o: t = C(t, S('=', G(o['done']), 1))
    return when(n, t) if n else t
def term1(o):
    k = o['k']; v = V(0)
    if k == 'socket': return C(S('socket', A(o['d']), G(o['s'])), S('=', v, G(o['s'])))
    if k == 'bind':
        if o.get('port') is not None: return C(S('socket_bind', G(o['s']), S('AF_INET', V(5), G(o['port']))), S('=', v, G(o['port'])), S('=', V(1), V(5)))
        return C(S('socket_bind', G(o['s']), adr(o['a'])), S('=', v, V(6)), S('=', V(1), V(5)))
    if k == 'listen': return S('socket_listen', G(o['s']), o['n'])
    if k == 'connect':
        c = S('socket_connect', G(o['s']), adr(o['a']), G(o['in']), G(o['out']))
        if o.get('unless'): c = S(';', S('->', S('nonvar', G(o['in'])), A('true')), c)
        return C(c, S('=', v, G(o['in'])), S('=', V(1), G(o['out'])))
    if k == 'accept':
        a = [G(o['s'])] + ([V(2)] if not o.get('three') else []) + [G(o['in']), G(o['out'])]
        return C(S('socket_accept', *a), S('=', v, G(o['in'])), S('=', V(1), G(o['out'])))
    if k == 'sclose': return C(S('g_assign', A('closed%d' % o['s']), 1), S('socket_close', G(o['s'])))
    if k == 'buf': return S('set_stream_buffering', G(o['s']), A(o['m']))
    if k == 'put': return S('write', G(o['s']), A(o['t']))
    if k == 'flush': return S('flush_output', G(o['s']))
    if k == 'peek': return S('peek_code', G(o['s']), v)
    if k == 'get': return S('sim_bulk', G(o['s']), o['n'], A('code'), v)
    if k == 'close': return S('close', G(o['s']), [S('force', A('true'))]) if o.get('force') else S('close', G(o['s']))
    if k == 'sleep': return S('sleep', o['t'])
    if k == 'sys': return S('system', A('ck'))
    if k == 'host': return S('hostname_address', v if o['n'] is None else A(o['n']), V(1) if o['a'] is None else A(o['a']))
    if k == 'bad': return dec(o['t'])
    if k == 'flag': return S('set_prolog_flag', A('os_error'), A(o['f']))
    if k == 'streams': return S('findall', V(1), S('current_stream', V(1)), v)
    if k == 'endclose': return C(S('=', v, G(o['s'])), safe(S('close', G(o['s']), [S('force', A('true'))])))
    if k == 'endsock': return S(';', S('->', S(',', S('g_read', A('closed%d' % o['s']), 0), S(',', S('nonvar', G(o['s'])), S('var', G(o['in'])))), safe(S('socket_close', G(o['s'])))), A('true'))
    raise ValueError(k)

# ---------------------------------------------------------------- judging
class End:
    """one end of a connection"""
    def __init__(self, name, peer): self.name = name; self.peer = peer; self.sent = bytearray(); self.rcvd = bytearray(); self.rst = False
class Str:
    def __init__(self, kind, end): self.kind = kind; self.end = end; self.text = bytearray(); self.gotten = bytearray(); self.open = True; self.err = False; self.broken = False; self.ended = False; self.buf = 'block'

def ip_of(case, h):
    for n, ip in case['hosts']:
        if n == h: return ip
    if h in ('localhost', 'simhost', 'simhost.sim'): return '127.0.0.1'
    if re.match(r'\d+\.\d+\.\d+\.\d+$', h): return h
    return None
def judge(case, r, probes):
    def hit(k): probes[k] = probes.get(k, 0) + 1
    ops = seq(case); per = r.per_op()
    def where(i): return ops[i][1] if i < len(ops) else '?'
    if r.status == 97 or (r.end() or '').startswith('DEADLOCK'): raise Viol('deadlock', 'waits for ever in operation %s' % where(len(per) - 1))
    if r.status == 98: raise Viol('endless', 'no end in operation %s' % where(len(per) - 1))
    if r.status != 0 or len(per) != len(ops): raise Viol('crash', 'the process ended with %s (%s) in operation %s: %s' % (r.status, r.end(), where(len(per) - 1), r.stray[-300:]))
    ends = {}; slots = {}; byn = {}; socks = {}
    def end(n, peer=None):
        if n not in ends: ends[n] = End(n, peer)
        if peer and not ends[n].peer: ends[n].peer = peer
        return ends[n]
    for i, (_, _, logs, lines) in enumerate(per):
        ss, o = ops[i]; k = o['k']
        if i == len(ops) - 1 and logs and logs[-1] == A('end'): logs = logs[:-1]
        if len(logs) != 1: raise Viol('log', 'operation %s ended %d times: %s' % (o, len(logs), logs[:3]))
        ans = logs[0]; ok = isinstance(ans, S) and ans.name == 'ok'; bad = not ok
        vals = ans.args[0] if ok and isinstance(ans.args[0], list) else []
        val = vals[0] if vals else None
        if ok and any(isinstance(x, A) and x == SKIP for x in vals): continue
        def need(cond, key, msg):
            if not cond: raise Viol(key, '%s: %s (answer %s)' % (o, msg, ans))
        faults = [l.split(' ')[2] for l in lines if l.startswith('F ') and l.split(' ')[1] not in ('SHORT', 'RST')]
        sys = {}
        for l in lines:
            w = l.split(' ')
            if w[0] == 'A' and w[2] in ('put', 'got'):
                n = unq(w[3]).decode('latin-1'); e = end(n); (e.sent if w[2] == 'put' else e.rcvd).extend(unq(w[4]))
            elif w[0] == 'A' and w[2] == 'accept': n = unq(w[3]).decode('latin-1'); end(n, n[5:]); end(n[5:], n)
            elif w[0] == 'A' and w[2] == 'connect': n = unq(w[4]).decode('latin-1'); end(n, 'peer:' + n[5:]); end('peer:' + n[5:], n)
            elif w[0] == 's' and w[1] in ('socket', 'bind', 'listen', 'connect', 'accept', 'close', 'dup'): sys.setdefault(w[1], []).append(w)
            elif w[0] == 's' and w[1] in ('read', 'write') and re.match(r'(sock|peer):', w[3]):
                e = end(w[3]); x = w[-1]
                if re.match(r'E[A-Z]+$', x) or x == 'SIGPIPE':
                    for s in byn.values():
                        if s.end.name == w[3] and s.open and (s.kind == 'r') == (w[1] == 'read'): s.err = x
                elif w[1] == 'write': e.sent.extend(unq(x))
                elif x != '-': e.rcvd.extend(unq(x))
        if sys.get('connect') and sys['connect'][-1][-2] == '0': n = sys['connect'][-1][-1]; end(n, 'peer:' + n); end('peer:' + n, n)
        emfile = any(l.endswith('= EMFILE') for l in lines)
        if emfile: faults.append('emfile')
        def bind(slot, t, st):
            if not (isinstance(t, S) and t.name == '$stream'): raise Viol('stream', '%s: not a stream: %s' % (o, t))
            slots[slot] = st; byn[t.args[0]] = st
        def sock(): return socks.get(o['s'])
        if k == 'flag': need(ok, 'flag', 'failed')
        elif k == 'sleep': need(ok, 'sleep', 'failed')
        elif k == 'streams':
            base = sorted(x.args[0] for x in val if isinstance(x, S))
            need(base == list(range(len(base))) and len(base) <= 5, 'stream left', 'streams left open: %s' % base)
        elif k == 'socket':
            c = sys.get('socket', [])
            if bad: need(faults, 'refused', 'refused although nothing failed')
            else:
                need(not faults, 'unreported', 'a failure was not reported'); need(len(c) == 1, 'socket', 'sockets made: %s' % c)
                need(c[0][2] == ('1' if o['d'] == 'AF_UNIX' else '2'), 'socket', 'another domain'); need(val == int(c[0][4]), 'socket', 'descriptor %s' % c[0][4])
                socks[o['s']] = [val, o['d'], 'new', None]
        elif k in ('bind', 'listen', 'connect', 'accept', 'sclose'):
            x = sock()
            if x is None: need(bad, 'closed', 'accepted a socket that was never made'); continue
            if x[2] == 'closed' or x[2] == 'streams':           # the number may belong to something else now: never generated on purpose
                continue
            c = sys.get(k, [])
            if o.get('unless') and o['in'] in slots: need(ok and not c, 'connected', 'failed'); continue
            if k == 'bind':
                a = o.get('a') or ['inet', None, None]
                if bad:
                    if a[0] == 'unix' and len(a[1]) > 107: hit('too_long')
                    elif a[0] == 'inet' and isinstance(a[2], int) and not 0 <= a[2] <= 65535: hit('bad_address'); need(not c, 'address', 'bound to %s' % c)
                    else: need(faults or c and c[0][-1].startswith('E') or x[2] != 'new' or x[1] != ('AF_UNIX' if a[0] == 'unix' else 'AF_INET') or a[0] == 'unix' and not a[1].startswith('/w/'), 'refused', 'refused although nothing failed')
                    continue
                need(len(c) == 1 and c[0][-1] == '0', 'address', 'bind: %s' % c); got = unq(c[0][3]).decode('latin-1')
                if a[0] == 'unix': need(got == 'unix:' + a[1], 'address', 'bound to %s' % got)
                else:
                    m = re.match(r'inet:0\.0\.0\.0:(\d+)$', got); need(m, 'address', 'bound to %s' % got); pn = int(m.group(1))
                    need('getsockname' not in faults, 'unreported', 'a failure was not reported')
                    if isinstance(a[2], int): need(pn == a[2], 'address', 'bound to port %d' % pn)
                    else: hit('bound_port'); need(val == pn, 'address', 'bound to port %d' % pn)
                    if a[1] is None: need(str(vals[1]) == 'simhost' or ip_of(case, str(vals[1])) == '127.0.0.1', 'address', 'host name %s' % vals[1])
                    x[3] = pn
                x[2] = 'bound'
            elif k == 'listen':
                if bad: need(faults or x[2] == 'new' and x[1] == 'AF_UNIX' or x[2] == 'connected', 'refused', 'refused although nothing failed')
                else: need(x[2] == 'listen' or len(c) == 1 and c[0][-1] == '0' and int(c[0][-3]) == o['n'], 'listen', 'listen: %s' % c); x[2] = 'listen'
            elif k == 'sclose':
                if bad: need(faults, 'refused', 'refused although nothing failed')
                need(any(w[2] == str(x[0]) for w in sys.get('close', [])), 'close', 'the socket was not closed'); x[2] = 'closed'
            elif k == 'connect':
                a = o['a']; done = c and c[-1][-2] == '0'
                if a[0] == 'inet':
                    h = str(a[1]); pn = a[2] if isinstance(a[2], int) else next((y[3] for y in socks.values() if y is socks.get(a[2][1])), None); ip = ip_of(case, h)
                else: pn = 0; ip = ''
                if bad:
                    if done:
                        hit('stream_failure'); need([f for f in faults if f in ('dup', 'fdopen', 'emfile')], 'refused', 'refused although the connection was made'); x[2] = 'connected'
                    elif c: hit('refused'); need(c[-1][-1].startswith('E') or x[2] in ('connected', 'listen'), 'refused', 'refused although nothing failed')
                    elif a[0] == 'unix': hit('too_long'); need(len(a[1]) > 107 or not a[1].startswith('/w/') or x[1] != 'AF_UNIX' or x[2] in ('connected', 'listen'), 'refused', 'refused although nothing failed')
                    elif pn is not None and not 0 <= pn <= 65535: hit('bad_address')
                    else: hit('unknown_host'); need(ip is None or faults or pn is None or x[1] != 'AF_INET' or x[2] in ('connected', 'listen'), 'refused', 'refused although nothing failed')
                    if sum(1 for q_ in ss['ops'] if q_['k'] == 'connect') > 1: hit('retry')
                    continue
                need(done, 'connected', 'there is no connection: %s' % c); need(not [f for f in faults if f in ('dup', 'fdopen', 'connect', 'emfile')], 'unreported', 'a failure was not reported')
                want = 'unix:' + a[1] if a[0] == 'unix' else 'inet:%s:%d' % (ip, pn)
                need(unq(c[-1][3]).decode('latin-1') == want, 'address', 'connected to %s instead of %s' % (c[-1][3], want))
                hit('connected'); hit('unix') if a[0] == 'unix' else None
                e = end(c[-1][-1]); bind(o['in'], val, Str('r', e)); bind(o['out'], vals[1], Str('w', e)); x[2] = 'streams'
            elif k == 'accept':
                done = c and len(c[-1]) > 5
                if bad:
                    if done:
                        hit('stream_failure'); need([f for f in faults if f in ('dup', 'fdopen', 'emfile')], 'refused', 'refused although there is a connection')
                        need(any(w[2] == c[-1][4] for w in sys.get('close', [])), 'descriptor left', 'the connection was not closed')
                    else: need(faults or x[2] != 'listen', 'refused', 'refused although nothing failed')
                    continue
                need(done, 'connected', 'there is no connection: %s' % c); need(not [f for f in faults if f in ('dup', 'fdopen', 'accept', 'emfile')], 'unreported', 'a failure was not reported')
                hit('accepted'); n = c[-1][5]; e = end(n, n[5:] if n.startswith('peer:') else 'peer:' + n[5:]); end(e.peer, n)
                need(val != vals[1], 'stream', 'the same stream twice')
                if not o.get('three'):
                    if x[1] == 'AF_INET': need(str(vals[2]) == unq(c[-1][6]).decode().split(':')[1], 'client', 'the client is %s' % c[-1][6])
                    else: need(not isinstance(vals[2], (S, int, list)), 'client', 'the client of a local connection')
                bind(o['in'], val, Str('r', e)); bind(o['out'], vals[1], Str('w', e))
        elif k in ('put', 'flush', 'get', 'peek', 'close', 'buf'):
            s = slots.get(o['s'])
            if s is None or not s.open:
                if s is None: need(bad, 'closed', 'accepted a stream that was never made')
                continue
            e = s.end; peer = end(e.peer) if e.peer else End('?', None)
            if k == 'buf': need(ok or s.err, 'buffering', 'failed'); s.buf = o['m'] if ok else s.buf
            elif k == 'put':
                if ok or not s.err: need(ok, 'write', 'failed'); s.text.extend(o['t'].encode('latin-1'))
                else: s.broken = True
            elif k in ('get', 'peek'):
                if s.broken: continue
                if bad: need(s.err, 'read', 'failed'); hit('reset'); s.broken = True; continue
                need(not s.err or s.ended or case['flag'] != 'error' or k == 'get' and len(val) == o['n'] and val[-1] != -1 or k == 'peek' and val != -1, 'unreported', 'the connection failed with %s and the program sees an end of file' % s.err)
                g = list(val) if k == 'get' else []; eof = bool(g) and g[-1] == -1 or k == 'peek' and val == -1
                if eof: g = g[:-1]
                if k == 'peek' and not eof: need(bytes(peer.sent[len(s.gotten):len(s.gotten) + 1]) == bytes([val]), 'data', 'peeked at %r' % val)
                g = bytes(g); s.gotten.extend(g)
                need(bytes(peer.sent).startswith(bytes(s.gotten)), 'data', 'read %r, the peer sent %r' % (bytes(s.gotten[-60:]), bytes(peer.sent[max(0, len(s.gotten) - 60):len(s.gotten) + 20])))
                if eof: hit('eof'); s.ended = True; need(bytes(s.gotten) == bytes(peer.sent) or s.err, 'data', 'end of file after %d of %d bytes' % (len(s.gotten), len(peer.sent)))
            if s.kind == 'w' and not s.broken:
                if s.err:
                    hit('write_error')
                    if k in ('flush', 'close'): need(bad or o.get('force') or case['flag'] != 'error', 'unreported', 'the write failed with %s and nothing was reported' % s.err); s.broken = True
                elif k in ('flush', 'close') or k == 'put' and s.buf == 'none':
                    if k == 'close' and 'close' in faults: need(bad or o.get('force'), 'unreported', 'the close failed and nothing was reported')
                    else: need(ok, 'write', 'failed')
                    need(bytes(e.sent) == bytes(s.text), 'data', 'sent were %r, written %r' % (bytes(e.sent[-60:]), bytes(s.text[-60:])))
                    if s.buf == 'none': hit('unbuffered')
                elif k == 'put' and s.buf == 'line':
                    n = bytes(s.text).rfind(b'\n') + 1; need(len(e.sent) >= n, 'data', 'line buffered: sent were %d of %d bytes' % (len(e.sent), n))
            if k == 'close':
                if ok or sys.get('close'):
                    s.open = False; need(any(unq(w[3]).decode('latin-1') == e.name for w in sys.get('close', [])), 'close', 'the connection was not closed')
                need(ok or s.err or faults, 'close', 'failed')
        elif k == 'endclose':
            s = byn.get(val.args[0]) if ok and isinstance(val, S) else None
            if s is not None: s.open = False
        elif k == 'sys':
            h = [(int(l.split(' ')[3]), l.split(' ')[4]) for l in lines if l.startswith('A ') and l.split(' ')[2] == 'has']
            if h: hit('child_beside')
            need(not [x for x in h if x[0] > 2], 'inherited', 'a child also holds %s' % h)
        elif k == 'host':
            if o['n'] is not None:
                ip = ip_of(case, o['n'])
                if 'gethostbyname' in faults: ip = None
                if o['a'] is None: need(ok and str(vals[1]) == ip if ip else bad, 'host', 'the address is %s' % ip)
                else: need(ok == (ip == o['a']), 'host', 'the address is %s' % ip)
            else:
                n = [x[0] for x in case['hosts'] if x[1] == o['a']] or (['localhost', 'simhost', 'simhost.sim'] if o['a'] == '127.0.0.1' else [])
                if 'gethostbyname' not in faults: need(ok and str(val) in n if n else bad, 'host', 'the names are %s' % n)
            hit('hostname')
        elif k == 'bad':
            e = ans.args[0] if isinstance(ans, S) and ans.name == 'ex' else None; want = [dec(x) for x in o['e']]
            need(isinstance(e, S) and e.name == 'error' and any(e.args[0] == w or repr(e.args[0]) == repr(w) for w in want), 'error', 'expected the error %s' % want)
            need(not sys, 'error', 'something was done: %s' % sys)
        for s in slots.values():
            if s.kind == 'w' and not bytes(s.text).startswith(bytes(s.end.sent)) and not s.broken and not s.err: need(False, 'data', 'sent were %r, written %r' % (bytes(s.end.sent[-60:]), bytes(s.text[-60:])))
            if len(s.end.sent) > case['cap']: hit('blocked_write')
    # ---- at the end
    for s in slots.values():
        if s.kind == 'w' and not s.broken and not s.err and s.end.peer and not any(f[0] == 'close' for f in case['faults']):
            p = end(s.end.peer)
            if not bytes(s.end.sent).startswith(bytes(p.rcvd)): raise Viol('data', 'the peer received %r, sent were %r' % (bytes(p.rcvd[-80:]), bytes(s.end.sent[-80:])))
            if s.end.name in drains(case, r) and not s.open:
                hit('drained')
                if bytes(p.rcvd) != bytes(s.end.sent): raise Viol('data', 'the peer received %d of %d bytes' % (len(p.rcvd), len(s.end.sent)))
    fds = {f: n for f, n in r.fds().items() if f > 2}
    nul = [f for f, n in fds.items() if n == '/dev/null']
    if len(nul) > 2 or len(nul) != len(fds): raise Viol('descriptor left', 'descriptors left open: %s' % fds)
    for l in r.lines:
        if l.startswith('A ') and (' rst' in l): hit('peer_gone'); break
    for s in case['sessions']:
        for k in s.get('probes', []): hit(k)

def drains(case, r):
    """connections whose peer reads until the end: the end was seen by it (a blocked peer would be seen as a process that never ended)"""
    names = set(); who = {}
    for l in r.lines:
        w = l.split(' ')
        if w[0] != 'A': continue
        if w[2] == 'accept': who[w[1]] = unq(w[3]).decode('latin-1')[5:]
        if w[2] == 'connect': who[w[1]] = unq(w[4]).decode('latin-1')
        if w[2] == 'eof' and w[1] in who: names.add(who[w[1]])
    return names

def nontrivial(case, rs):
    return any(re.match(r's (connect|accept) ', l) for l in rs[0].lines)

# ---------------------------------------------------------------- generation
def dialog(rng, cap, j, c, fd, phases, cut):
    """the peer's side of the phases; c makes its data its own"""
    out = []; k = 0
    for p in phases:
        out += nap(rng) if rng.random() < .5 else []
        if p[0] == 'out': out.append('r %d %d' % (fd, len(p[1])))
        elif p[0] == 'in':
            t = intext(p, j, c); left = t
            while left:
                n = len(left) if rng.random() < .5 else rng.randint(1, len(left)); out.append('w %d %s' % (fd, q(left[:n]))); left = left[n:]
                if rng.random() < .3: out += nap(rng)
        k += 1
        if cut is not None and k >= cut: break
    return out
def intext(p, j, c):
    t = '%d.%d:' % (j, c) + p[2]
    return t[:p[1]]
def phases(rng, cap):
    ph = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        n = rng.choice([1, 2, 7, 30, 100, cap - 1, cap, cap + 1, 3 * cap]) if cap <= 600 else rng.choice([1, 5, 100, 1023, 1024, 1025, 4095, 4096, 4097, 9000])
        if rng.random() < .5: ph.append(['out', text(rng, n)])
        else: ph.append(['in', n, text(rng, n)])
    return ph
def side(rng, ph, si, so, case):
    """the program's side"""
    ops = []
    if rng.random() < .25: ops.append({'k': 'buf', 's': so, 'm': rng.choice(['none', 'line', 'block'])})
    mode = ops[0]['m'] if ops else 'block'
    if rng.random() < .1: ops.append({'k': 'buf', 's': si, 'm': rng.choice(['none', 'line', 'block'])})
    for p in ph:
        if p[0] == 'out':
            t = p[1]
            while t:
                n = len(t) if rng.random() < .5 else rng.randint(1, len(t)); ops.append({'k': 'put', 's': so, 't': t[:n]}); t = t[n:]
                if rng.random() < .2: ops.append({'k': 'flush', 's': so})
            if mode != 'none' or rng.random() < .3 or any(f[0] == 'write' for f in case['faults']): ops.append({'k': 'flush', 's': so})
        else:
            n = p[1]
            while n > 0:
                m = n if rng.random() < .5 else rng.randint(1, n)
                if rng.random() < .15: ops.append({'k': 'peek', 's': si})
                ops.append({'k': 'get', 's': si, 'n': m}); n -= m
    return ops
def finish(rng, si, so, force=.1):
    a = [{'k': 'close', 's': so}, {'k': 'close', 's': si}]
    if rng.random() < .4: a.reverse()
    for x in a:
        if rng.random() < force: x['force'] = 1
    return a
def ending(rng, fd, ph, cut):
    """how the peer ends: reads all, closes, half-closes, resets -> steps, (the program may read to the end of file)"""
    x = rng.random() if cut is None else rng.uniform(.6, 1)
    if x < .45: return ['R %d' % fd, 'close %d' % fd], False
    if x < .6: return ['shutw %d' % fd, 'R %d' % fd], True
    if x < .8: return ['close %d' % fd], True
    if x < .92: return ['rst %d' % fd], True
    return [], True
def names(rng, j, case):
    x = rng.random()
    if x < .35: return '10.1.%d.%d' % (j, rng.randint(1, 250))
    if x < .5: return 'localhost'
    if case['hosts'] and rng.random() < .5: return rng.choice(case['hosts'])[0]
    h = 'h%d' % j + rng.choice(['', '.example.org', '-a.b', 'x' * 60, 'y' * 200, 'z' * 250]); case['hosts'].append([h, '10.2.%d.%d' % (j, rng.randint(1, 250))]); return h
def upath(rng, j): return '/w/' + rng.choice(['s%d', 'sock %d', 'S%d' + 'u' * 40, 'u' * 90 + '%d']) % j
def lookup(rng, case): return {'k': 'host', 'n': rng.choice(['localhost', 'nohost', '10.3.2.1'] + [h[0] for h in case['hosts']]), 'a': None} if rng.random() < .7 else {'k': 'host', 'n': None, 'a': rng.choice(['127.0.0.1', '10.77.0.1'] + [h[1] for h in case['hosts']])}
def s_client(rng, j, cap, case):
    b = 10 * j; unix = rng.random() < .25; port = 2000 + j; pr = []
    if unix: a = ['unix', upath(rng, j)]; la = 'unix:' + a[1]
    else: h = names(rng, j, case); a = ['inet', h, port]; la = 'inet:%s:%d' % (ip_of(case, h), port)
    ph = phases(rng, cap); cut = rng.randint(0, len(ph)) if rng.random() < .25 else None
    e, reof = ending(rng, 4, ph, cut); late = rng.random() < .15
    st = (['sleep %d' % (5 * 10**9)] if late else []) + ['listen 3 ' + q(la), 'accept 3 4'] + dialog(rng, cap, j, 0, 4, ph, cut) + e
    ops = [{'k': 'socket', 's': b, 'd': 'AF_UNIX' if unix else 'AF_INET'}]
    if rng.random() < .05 and not unix: ops.append({'k': 'bind', 's': b, 'a': ['inet', None, 3000 + j]})
    co = {'k': 'connect', 's': b, 'a': a, 'in': b + 2, 'out': b + 3}
    ops.append({'k': 'sleep', 't': 0.5})
    if rng.random() < .3: ops.append(lookup(rng, case))
    if late: ops += [dict(co), {'k': 'sleep', 't': 6.0}]
    ops.append(co)
    if rng.random() < .2: ops.append({'k': 'sys'})
    body = side(rng, ph, b + 2, b + 3, case)
    if rng.random() < .1: body = body[:rng.randint(0, len(body))]; reof = False
    ops += body
    if reof and rng.random() < .7: ops.append({'k': 'get', 's': b + 2, 'n': 100000}); pr = ['half_close'] if e and e[0].startswith('shutw') else []
    if reof and rng.random() < .3: ops += [{'k': 'put', 's': b + 3, 't': text(rng, 9)}, {'k': 'flush', 's': b + 3}, {'k': 'put', 's': b + 3, 't': 'x'}, {'k': 'flush', 's': b + 3}]
    ops += finish(rng, b + 2, b + 3)
    if late: mark(ops)
    return {'actors': [['srv%d' % j, st]], 'ops': ops, 'end': tail(b, 1), 'probes': pr}
def mark(ops):
    """a second connect is only tried when the first failed"""
    c = [o for o in ops if o['k'] == 'connect']; c[1]['unless'] = 1
def tail(b, n): return [{'k': 'endclose', 's': b + 2 + x} for x in range(2 * n)] + [{'k': 'endsock', 's': b, 'in': b + 2 if n == 1 else 199}, {'k': 'endsock', 's': b + 1, 'in': b + 2}]
def s_server(rng, j, cap, case):
    b = 10 * j; unix = rng.random() < .25; port = 2000 + j; n = rng.choice([1, 1, 2, 3]); pr = ['several_clients'] if n > 1 else []
    a = ['unix', upath(rng, j)] if unix else ['inet', rng.choice([None, 'simhost', 'localhost']), port]
    la = 'unix:' + a[1] if unix else 'inet:%s:%d' % (rng.choice(['10.0.0.1', '127.0.0.1']), port)
    ph = phases(rng, cap); acts = []; any_eof = True
    for c in range(n):
        cut = rng.randint(0, len(ph)) if rng.random() < .2 else None
        e, reof = ending(rng, 3, ph, cut); any_eof = any_eof and reof
        acts.append(['cli%d.%d' % (j, c), nap(rng) + ['connect 3 ' + q(la)] + dialog(rng, cap, j, c, 3, ph, cut) + e])
    ops = [{'k': 'socket', 's': b, 'd': 'AF_UNIX' if unix else 'AF_INET'}, {'k': 'bind', 's': b, 'a': a, 'done': b + 8}, {'k': 'listen', 's': b, 'n': rng.choice([0, 1, 5, 128]), 'need': [b + 8], 'done': b + 9}]
    conns = []
    for c in range(n):
        si, so = b + 2 + 2 * c, b + 3 + 2 * c
        o = [{'k': 'accept', 's': b, 'in': si, 'out': so, 'need': [b + 9]}] + side(rng, ph, si, so, case) + ([{'k': 'get', 's': si, 'n': 100000}] if any_eof and rng.random() < .6 else []) + finish(rng, si, so)
        if rng.random() < .4: o[0]['three'] = 1
        if rng.random() < .1: o.insert(1, {'k': 'sys'})
        conns.append(o)
    if rng.random() < .3:
        for o in conns: ops += o
    else:
        while any(conns):
            k = rng.choice([x for x in range(n) if conns[x]]); ops.append(conns[k].pop(0))
    ops.append({'k': 'sclose', 's': b})
    return {'actors': acts, 'ops': ops, 'end': tail(b, 3), 'probes': pr}
def s_self(rng, j, cap, case):
    b = 10 * j; unix = rng.random() < .4; small = min(cap, 4000)
    ops = [{'k': 'socket', 's': b, 'd': 'AF_UNIX' if unix else 'AF_INET'}]
    if unix: a = ['unix', upath(rng, j)]; ops.append({'k': 'bind', 's': b, 'a': a, 'done': b + 9})
    elif rng.random() < .6: ops.append({'k': 'bind', 's': b, 'port': b + 8, 'done': b + 9}); a = ['inet', rng.choice(['localhost', '127.0.0.1', 'simhost']), [b + 8, b]]
    else: a = ['inet', 'localhost', 2000 + j]; ops.append({'k': 'bind', 's': b, 'a': ['inet', 'localhost', 2000 + j], 'done': b + 9})
    ops += [{'k': 'listen', 's': b, 'n': 3, 'need': [b + 9], 'done': b + 7}, {'k': 'socket', 's': b + 1, 'd': 'AF_UNIX' if unix else 'AF_INET'}, {'k': 'connect', 's': b + 1, 'a': a, 'in': b + 2, 'out': b + 3, 'need': [b + 7]}, {'k': 'accept', 's': b, 'in': b + 4, 'out': b + 5, 'need': [b + 2]}]
    for _ in range(rng.randint(0, 4)):
        n = rng.randint(1, small); x = rng.random() < .5; so, si = (b + 3, b + 4) if x else (b + 5, b + 2)
        ops += [{'k': 'put', 's': so, 't': text(rng, n)}, {'k': 'flush', 's': so}, {'k': 'get', 's': si, 'n': n}]
    if rng.random() < .5: ops += finish(rng, b + 2, b + 3, 0) + [{'k': 'get', 's': b + 4, 'n': 1000}] + finish(rng, b + 4, b + 5)
    else: ops += finish(rng, b + 4, b + 5, 0) + [{'k': 'get', 's': b + 2, 'n': 1000}] + finish(rng, b + 2, b + 3)
    ops.append({'k': 'sclose', 's': b})
    for o in ops:
        o['self'] = 1
        if o['k'] in ('put', 'get'): o['need'] = [b + 4]
    return {'actors': [], 'ops': ops, 'end': tail(b, 3) , 'probes': ['self'], 'whole': 1}
def s_odd(rng, j, cap, case):
    b = 10 * j; un = ['unix', '/w/' + 'p' * rng.choice([104, 105, 106, 107, 150, 300, 1000, 3000])]
    ops = [{'k': 'socket', 's': b, 'd': rng.choice(['AF_INET', 'AF_INET', 'AF_UNIX'])}]; u = ops[0]['d'] == 'AF_UNIX'
    for _ in range(rng.randint(1, 4)):
        x = rng.random()
        if x < .2: ops.append({'k': 'bind', 's': b, 'a': un if u else ['inet', None, rng.choice([None, 4000 + j, 65535, 65536, 70000, -1])]})
        elif x < .3: ops.append({'k': 'listen', 's': b, 'n': rng.choice([0, 3])})
        elif x < .4: ops.append({'k': 'accept', 's': b, 'in': b + 4, 'out': b + 5}) if not any(o['k'] == 'listen' for o in ops) else None
        elif x < .7: ops.append({'k': 'connect', 's': b, 'a': rng.choice([un, ['unix', '/w/none'], ['unix', '/nodir/x']]) if u else ['inet', rng.choice(['nohost', '10.9.9.9', 'q' * rng.choice([10, 300, 2000])]), rng.choice([7, 80, 65536 + 80, -5, 10**6])], 'in': b + 2, 'out': b + 3})
        elif x < .8: ops.append({'k': 'host', 'n': rng.choice(['localhost', 'nohost', '10.3.2.1'] + [h[0] for h in case['hosts']]), 'a': rng.choice([None, '127.0.0.1', '10.3.2.1'])})
        elif x < .9: ops.append({'k': 'host', 'n': None, 'a': rng.choice(['127.0.0.1', '10.77.0.1'] + [h[1] for h in case['hosts']])})
        else:
            v = V(0); w = V(1); a = S('AF_INET', A('localhost'), 80); st = lambda *x: S('socket_connect', *x)
            t, e = rng.choice([(S('socket', v, w), INST), (S('socket', 1, w), ty('atom', 1)), (S('socket', A('AF_X'), w), [enc(S('domain_error', A('socket_domain'), A('AF_X')))]), (S('socket', A('AF_INET'), 3), [enc(S('uninstantiation_error', 3))]), (S('socket_bind', v, a), INST), (S('socket_bind', A('s'), a), ty('integer', A('s'))), (S('socket_bind', 77, v), INST), (S('socket_bind', 77, A('x')), [enc(S('domain_error', A('socket_address'), A('x')))]), (S('socket_bind', 77, S('AF_UNIX', v)), INST), (S('socket_bind', 77, S('AF_UNIX', 1)), ty('atom', 1)), (S('socket_bind', 77, S('AF_INET', A('h'), A('p'))), ty('integer', A('p'))), (S('socket_bind', 77, S('AF_INET', 1, 1)), ty('atom', 1)), (st(v, a, w, V(2)), INST), (st(77, v, w, V(2)), INST), (st(77, S('foo', 1), w, V(2)), [enc(S('domain_error', A('socket_address'), S('foo', 1)))]), (st(77, a, A('i'), V(2)), [enc(S('uninstantiation_error', A('i')))]), (st(77, S('AF_INET', v, 1), w, V(2)), INST), (st(77, S('AF_INET', A('h'), v), w, V(2)), INST), (st(77, S('AF_INET', A('h'), A('z')), w, V(2)), ty('integer', A('z'))), (S('socket_listen', v, 1), INST), (S('socket_listen', 1, v), INST), (S('socket_listen', 1, A('a')), ty('integer', A('a'))), (S('socket_accept', v, w, V(2)), INST), (S('socket_accept', 1, A('c'), w, V(2)), [enc(S('uninstantiation_error', A('c')))]), (S('socket_accept', A('s'), w, V(2)), ty('integer', A('s'))), (S('socket_close', v), INST), (S('socket_close', A('x')), ty('integer', A('x'))), (S('hostname_address', v, w), INST), (S('hostname_address', 1, w), ty('atom', 1)), (S('hostname_address', A('localhost'), 1), ty('atom', 1))])
            ops.append({'k': 'bad', 't': enc(t), 'e': e})
    ops = [o for o in ops if o]
    if rng.random() < .7: ops.append({'k': 'sclose', 's': b}); end = []
    else: end = [{'k': 'endsock', 's': b, 'in': b + 2}]
    return {'actors': [], 'ops': ops, 'end': end}

FAULTS = [('socket', '*', ['EMFILE', 'ENOBUFS']), ('setsockopt', '*', ['ENOPROTOOPT', 'ENOBUFS']), ('bind', '*', ['EACCES', 'EADDRINUSE']), ('getsockname', '*', ['ENOBUFS']), ('listen', '*', ['EADDRINUSE']), ('accept', '*', ['ECONNABORTED', 'EMFILE', 'ENOBUFS']), ('connect', '*', ['ECONNREFUSED', 'ETIMEDOUT', 'ENETUNREACH']), ('dup', '*', ['EMFILE']), ('fdopen', '*', ['ENOMEM']), ('gethostbyname', '*', ['EAGAIN']), ('read', 'sock:*', ['ECONNRESET', 'ETIMEDOUT', 'EIO']), ('write', 'sock:*', ['EPIPE', 'ECONNRESET', 'ENOBUFS']), ('close', 'sock:*', ['EIO'])]
def gen(rng, i):
    cap = rng.choice([16, 64, 512, 4096, 65536]); n = rng.choice([1, 1, 2, 2, 3, 4]); ss = []; case = {'hosts': []}
    faults = []
    if rng.random() < .4:
        for _ in range(rng.choice([1, 1, 2, 3])):
            c, m, es = rng.choice(FAULTS); faults.append([c, m, rng.choice([1, 1, 1, 2, 2, 3, 4]), 1, rng.choice(es)])
    flag = rng.choice(['error', 'error', 'error', 'error', 'error', 'fail'])
    if flag == 'fail': faults = [f for f in faults if f[0] not in ('read', 'write')]      # the program would not notice and wait for what was lost
    case['faults'] = faults
    for j in range(n):
        s = rng.choice([s_client, s_client, s_server, s_server, s_self, s_odd])(rng, j, cap, case); s['id'] = j; ss.append(s)
    order = [s['id'] for s in ss for _ in s['ops']]
    if rng.random() < .8: rng.shuffle(order)
    chunks = [[rng.choice(['sock:*', 'peer:*', '*']), rng.choice([1, 2, 7, 100])]] if rng.random() < .4 else []
    case.update({'seed': rng.randrange(1 << 30), 'bg': rng.choice([0, 20, 50, 80, 95]), 'cap': cap, 'delay': rng.choice([0, 0, 1000, 10**6, 10**9]), 'maxfd': rng.choice([64] * 8 + [9, 11, 13]), 'chunks': chunks, 'sessions': ss, 'order': order, 'faults': faults, 'flag': flag})
    return case

def reduce(case):
    for si, s in enumerate(case['sessions']):
        for oi, o in enumerate(s['ops']):
            if o['k'] in ('peek', 'sys', 'host', 'bad', 'sleep'):
                c = dict(case); c['sessions'] = [dict(x) for x in case['sessions']]; c['sessions'][si]['ops'] = s['ops'][:oi] + s['ops'][oi + 1:]; yield c
    for k, v in (('bg', 0), ('flag', 'error'), ('delay', 0), ('maxfd', 64)):
        if case[k] != v: c = dict(case); c[k] = v; yield c
    if sorted(case['order']) != case['order']: c = dict(case); c['order'] = sorted(case['order']); yield c
