"""C09: clock and date predicates, sleep/1"""
import core, os, re, time
from core import A, S, V, enc, dec, q, Viol
ID = 'C09'
QUICK = 40000
THOROUGH = 300000
TWICE = 50
SHRINK = ('ops', 'faults', 'actors', 'files')
RULE = 'a run in which a clock was set, a sleep was interrupted, or a clock was read again after time had passed'
REAL = ['the GNU Prolog clock, date and statistics predicates and sleep/1, built from the tree', "the C library's calendar (localtime)"]
STUB = ['kernel clocks, processor-time accounting, timers and file times: sim/libsim.c; time passes, and clocks are set, as the plan says']
PROBES = ['real_time', 'user_time', 'system_time', 'cpu_time', 'statistics', 'statistics0', 'date_time', 'file_date', 'sleep', 'sleep_interrupted', 'sleep_long', 'jumped', 'date_error', 'no_date', 'neg_sleep', 'last_after_last']
ORACLE = 'the clock values the simulator held when the operation began and ended'
MS = 1000000; SEC = 1000 * MS
ZONES = ['UTC', 'UTC', 'EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'IST-5:30', 'XXX3:30', '<+1245>-12:45', 'AEST-10AEDT,M10.1.0,M4.1.0/3']
CLOCKS = ('real_time', 'user_time', 'system_time', 'cpu_time')
BEYOND = (1 << 63) - 1

def plan(case):
    L = ['seed %d' % case['seed'], 'bg %d' % case.get('bg', 0), 't0 %d' % case['t0'], 'tick %d' % case['tick'], 'ut %d' % case['ut'], 'st %d' % case['st'], 'dir /w 755']
    for p, m, a, c in case['files']: L += ['file %s 644 x' % q(p), 'utime %s %d %d %d' % (q(p), m, a, c)]
    for f in case['faults']: L.append('fault ' + ' '.join(str(x) if i != 1 else q(x) for i, x in enumerate(f)))
    for i, a in enumerate(case['actors']):
        L.append('actor a%d' % i); L += ['do ' + s for s in a]
    L += ['std 0 null', 'std 1 file /w/out', 'std 2 null']
    for o in case['ops']: L.append('op ' + o)
    L.append('op ' + enc(A('true')))
    return ('driver', ['driver'], '\n'.join(L) + '\n', {'env': {'TZ': case['tz']}})

def fdiv(x): return x // SEC
class St:
    __slots__ = ('t', 'off', 'ut', 'st')
def states(r):
    """per operation: state of the clocks before it, calendar offsets seen during it, logs, lines"""
    out = []; off = 0; offs = [0]
    for l in r.lines:
        if l.startswith('F JUMP '):
            w = l.split(' '); off += int(w[-1])
            (out[-1][1] if out else offs).append(off)
        elif l.startswith('O '):
            w = l.split(' '); s = St(); s.t, s.off, s.ut, s.st = int(w[3]), int(w[5]), int(w[7]), int(w[9])
            if s.off != off: raise core.SimError('offsets')
            out.append((s, [off], [], []))
        elif out:
            if l.startswith('L '): out[-1][2].append(dec(l[2:]))
            out[-1][3].append(l)
    return offs, out

def dates(tz, t0, lo, hi, offs):
    os.environ['TZ'] = tz; time.tzset(); r = set()
    for o in offs:
        a, b = fdiv(t0 + lo + o), fdiv(t0 + hi + o)
        if b - a > 60: return None
        for s in range(a, b + 1): r.add(ymd(s))
    return r
def ymd(s): x = time.localtime(s); return (x.tm_year, x.tm_mon, x.tm_mday, x.tm_hour, x.tm_min, x.tm_sec)

def judge(case, r, probes):
    def hit(k): probes[k] = probes.get(k, 0) + 1
    offs, ops = states(r); t0 = case['t0']
    if r.status != 0 or len(ops) != len(case['ops']) + 1: raise Viol('crash', 'the process ended with %s (%s) at operation %s: %s' % (r.status, r.end(), case['ops'][len(ops) - 1] if ops else 'none', r.stray[-200:]))
    if len(offs) > 1: hit('jumped')
    first = ops[0][0]
    # what the clocks may have shown when the process started
    start = {'real_time': (t0 + min(offs), t0 + first.t + max(offs)), 'user_time': (case['ut'], first.ut), 'system_time': (case['st'], first.st)}
    start['cpu_time'] = (case['ut'] + case['st'], first.ut + first.st)
    last = dict.fromkeys(CLOCKS, (0,))
    wrote = {}
    def within(k, x, a, b, offs, op):
        if k == 'real_time': lo, hi = t0 + a.t + min(offs), t0 + b.t + max(offs)
        elif k == 'user_time': lo, hi = a.ut, b.ut
        elif k == 'system_time': lo, hi = a.st, b.st
        else: lo, hi = a.ut + a.st, b.ut + b.st
        slack = 2 if k == 'cpu_time' else 1
        if not (lo - start[k][1]) / MS - slack <= x <= (hi - start[k][0]) / MS + slack:
            raise Viol(k, '%s: %s since the start is %d ms, the clock says %.3f to %.3f' % (op, k, x, (lo - start[k][1]) / MS, (hi - start[k][0]) / MS))
    for i, o in enumerate(case['ops']):
        a, of, logs, lines = ops[i]; b = ops[i + 1][0]; op = dec(o)
        if len(of) > 1: hit('jumped')
        ans = logs[0] if logs else None
        nm = op.name if isinstance(op, S) else str(op)
        ok = isinstance(ans, S) and ans.name == 'ok'
        ex = isinstance(ans, S) and ans.name == 'ex'
        if nm == 'sim_adv': continue
        if nm in CLOCKS or nm == 'statistics':
            if nm == 'statistics': k, want = str(op.args[0]), op.args[1]; k = 'user_time' if k == 'runtime' else k; want1 = want[0]
            else: k, want1 = nm, op.args[0]
            if isinstance(want1, V):
                if not ok: raise Viol(nm, '%s answers %s' % (op, ans))
                x = ans.args[0][0]
                within(k, x, a, b, of, op); hit(nm)
                if nm == 'statistics':
                    if x - ans.args[0][1] not in last[k]: raise Viol('since_last', '%s says %d ms since the start and %d ms since the last call, which said %s' % (op, x, ans.args[0][1], last[k]))
                    if last[k] != (0,): hit('last_after_last')
                    last[k] = (x,)
            elif isinstance(want1, int):
                if ex: raise Viol(nm, '%s raises %s' % (op, ans))
                if ok: within(k, want1, a, b, of, op)
                elif a.t + case['tick'] * 50 < want1 * MS and False: pass
            elif not (ex and isinstance(ans.args[0], S) and ans.args[0].args[0] == S('type_error', A('integer'), want1)): raise Viol(nm, '%s answers %s' % (op, ans))
        elif op == STAT0:
            if not ok: raise Viol('statistics0', '%s answers %s' % (op, ans))
            out = b''.join(core.unq(l.split(' ')[-1]) for l in lines if l.startswith('s write 1 ')).decode('latin-1')
            m = {k: (x, y) for k, x, y in re.findall(r'(user|system|cpu|real)\s+time\s+(-?[\d.]+)\s*sec\s+(-?[\d.]+)\s*sec', out)}
            if len(m) != 4: raise Viol('statistics0', 'the times shown are not all there: %r' % out[-500:])
            hit('statistics0')
            for k in CLOCKS:
                x, y = (round(float(z) * 1000) for z in m[k[:-5]])
                within(k, x, a, b, of, 'statistics/0')
                if x - y not in last[k]: raise Viol('since_last', 'statistics/0 says %s %d ms since the start and %d ms since the last call, which said %s' % (k, x, y, last[k]))
                last[k] = (x,)
        elif nm == 'date_time' or nm == 'file_property':
            if nm == 'date_time': d = op.args[0]; ds = dates(case['tz'], t0, a.t, b.t, of)
            else:
                f = str(op.args[0]); which = op.args[1].name; d = op.args[1].args[0]
                if f in wrote: lo, hi, wo = wrote[f][0 if which == 'last_access' else -1]; ds = dates(case['tz'], t0, lo, hi, wo)
                else:
                    w = [x for x in case['files'] if x[0] == f]
                    if not w: continue
                    v = w[0][{'last_modification': 1, 'last_access': 2, 'creation': 3}[which]]
                    os.environ['TZ'] = case['tz']; time.tzset()
                    ds = {ymd(fdiv(v))} if v != BEYOND else 'none'
            if ds == 'none':
                if not ex and ans != A('fail'): raise Viol('file_date', '%s, a time without a date: %s' % (op, ans))
                hit('no_date'); continue
            if isinstance(d, S) and d.name == 'dt' and len(d.args) == 6 and all(isinstance(x, (int, V)) for x in d.args):
                if ex: raise Viol('date', '%s raises %s' % (op, ans))
                if ds is None: continue
                def value(x, vs): return vs[x.n] if isinstance(x, V) else x
                vs = ans.args[0] if ok else None
                if ok and tuple(value(x, vs) for x in d.args) not in ds: raise Viol('date', '%s answers %s, the clock says %s' % (op, vs, sorted(ds)[:3]))
                if not ok and any(all(isinstance(x, V) or x == y for x, y in zip(d.args, z)) for z in ds) and len(ds) == 1: raise Viol('date', '%s fails, the clock says %s' % (op, ds))
                hit('date_time' if nm == 'date_time' else 'file_date')
            elif isinstance(d, V):
                if ds is None: continue
                g = ans.args[0][d.n] if ok else None
                if not (isinstance(g, S) and g.name == 'dt' and tuple(g.args) in ds): raise Viol('date', '%s answers %s, the clock says %s' % (op, ans, sorted(ds)[:3]))
                hit('date_time' if nm == 'date_time' else 'file_date')
            else:
                if not ex: raise Viol('date', '%s answers %s' % (op, ans))
                hit('date_error')
        elif nm == 'sleep':
            s = op.args[0]; dt = b.t - a.t
            if not isinstance(s, (int, float)):
                if not ex: raise Viol('sleep', '%s answers %s' % (op, ans))
                continue
            if s < 0:
                hit('neg_sleep')
                if not (ex and ans.args[0].args[0] == S('domain_error', A('not_less_than_zero'), s)): raise Viol('sleep', '%s answers %s' % (op, ans))
                continue
            cut = sum(' interrupted' in l or l.startswith('F EINTR sleep') for l in lines)
            need = min(s * SEC, 2147483647 * SEC, 4 * 10**18 - a.t)
            if ok:
                if dt < need * (1 - 1e-12) - 1000: raise Viol('early', '%s returns after %.9f s (interrupted %d times)' % (op, dt / SEC, cut))
                if dt > need * (1 + 1e-12) + 2 * MS + 200 * case['tick']: raise Viol('late', '%s returns after %.9f s' % (op, dt / SEC))
                hit('sleep')
                if cut: hit('sleep_interrupted')
                if s > 4294: hit('sleep_long')
            elif not ex: raise Viol('sleep', '%s answers %s' % (op, ans))
        elif nm == ',':                 # a file is written
            f = str(op.args[0].args[0])
            if not ok: raise Viol('write', '%s answers %s' % (op, ans))
            wrote.setdefault(f, []).append((a.t, b.t, list(of)))
        elif nm == 'true': pass
        else: raise core.SimError(o)
STAT0 = S(',', A('statistics'), S('flush_output', A('user_output')))

def gen(r, i):
    ch = lambda *a: r.choice(a); p = lambda x: r.random() < x
    base = ch(1700000000, 1700000000, 0, 1, 86399, 951782399, 1711846790, 1711846799, 1729990799, 1730613599, 2147483640, 4102444799, 6000000000, -1, -86401, -2208988800, 1704067199)
    t0 = base * SEC + r.randrange(SEC)
    case = {'seed': r.randrange(1 << 30), 't0': t0, 'tick': ch(1000, 1000, 1000, 200, 50000, 700000, 3 * MS), 'tz': ch(*ZONES), 'bg': ch(0, 20),
            'ut': ch(0, 0, 5 * SEC + 900 * MS, 999 * MS, 7 * 10**15), 'st': ch(0, 0, 999999999, 3 * SEC, 10**14), 'files': [], 'faults': [], 'actors': [], 'ops': []}
    for n in range(r.randrange(3)):
        case['files'].append(['/w/f%d' % n] + [ch(r.randrange(4 * 10**18), r.randrange(-2 * 10**18, 0), t0, 1711846799 * SEC + r.randrange(2 * SEC), 1729990800 * SEC + r.randrange(SEC), BEYOND if p(.1) else 0, -1) for _ in range(3)])
    steps = lambda: ch(r.randrange(1, 3000), r.randrange(1, 2000000), r.randrange(1, 100) * 1000000, 999, 1000, 3600000000, 86400000000, 10**12)
    if p(.35):
        for _ in range(r.randrange(1, 4)): case['faults'].append(['clock', 'realtime', r.randrange(1, 12), ch(1, 1, 2, 3), 'jump', ch(-1, 1) * steps() * 1000])
    if p(.5): case['faults'].append(['sleep', '*', r.randrange(1, 5), ch(1, 1, 2, 5, 40), 'EINTR'])
    if p(.2): case['actors'].append(['sleep %d' % (steps() * 1000), 'jump %d' % (ch(-1, 1) * steps() * 1000), 'sleep %d' % (steps() * 1000), 'jump %d' % (ch(-1, 1) * steps() * 1000), 'exit 0'])
    def date():
        x = r.random()
        if x < .35: return V(0)
        if x < .6: return S('dt', *[V(k) for k in range(6)])
        if x < .75:
            os.environ['TZ'] = case['tz']; time.tzset(); d = ymd(fdiv(t0))
            return S('dt', *[d[k] if k < ch(0, 2, 3, 5) else V(k) for k in range(6)])
        if x < .85: return S('dt', *[ch(V(k), 1, 2, 30, 2023) for k in range(6)])
        if x < .9: return S('dt', *[ch(V(k), A('a')) for k in range(5)], 1.5)
        return ch(A('dt'), 3, S('dt', V(0)), S('dx', *[V(k) for k in range(6)]), [A('a')], 2.5)
    def secs():
        return ch(0, 1, 2, 0.5, 0.000001, 0.0000001, 0.0000019, 1.9999995, r.randrange(100), r.random(), r.random() * 1000, r.randrange(3000, 6000), 4294, 4295, 4294.967295, 4294.967296, 4294.9673, 4300 + r.random() * 20000, 86400, 10**6, r.random() * 10**7, 3.0, 1e3, 0.0, r.randrange(5 * 10**7))
    for _ in range(ch(3, 6, 10, 16)):
        x = r.random()
        if x < .22: o = S('sim_adv', steps() if p(.9) else 0, ch(0, steps()), ch(0, steps()), ch(-1, 1) * steps() if p(.15) else 0)
        elif x < .36: o = S(ch(*CLOCKS), V(0) if p(.9) else ch(0, 5, A('a'), 1.0))
        elif x < .56: o = S('statistics', A(ch('runtime', *CLOCKS)), [V(0), V(1)])
        elif x < .62: o = STAT0
        elif x < .78: o = S('sleep', secs() if p(.9) else ch(-1, -0.5, -3.0, -1e-9, A('a'), V(0), 10**11, 1e30))
        elif x < .88: o = S('date_time', date())
        elif x < .91: o = S(',', S('open', A('/w/n%d' % r.randrange(2)), A('write'), V(0)), S('close', V(0)))
        else: o = S('file_property', A(ch('/w/f0', '/w/f1', '/w/n0', '/w/n1')), S(ch('creation', 'last_access', 'last_modification'), date()))
        case['ops'].append(enc(o))
        if 'I100000000000' in case['ops'][-1] or 'F1e+30' in case['ops'][-1]: break       # the end of simulated time is near
    return case
def nontrivial(case, rs): return any(o.startswith(('Ssleep', 'Ssim_adv')) for o in case['ops'])
