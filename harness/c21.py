"""C21: a set seed repeats the random sequence, whatever happens around it; values stay in range"""
import core, re
from core import A, S, V, G, enc, dec, q, Viol
from c07 import C, INST, ty
ID = 'C21'
QUICK = 20000
THOROUGH = 200000
TWICE = 40
SHRINK = ('ops', 'noise0', 'noise1', 'faults')
RULE = 'a case in which the same seed was followed by the same draws at least twice'
REAL = ['the random predicates (random.pl, random_c.c, machine.c), fd_labeling with its random methods, and everything that runs between the draws, built from the tree']
STUB = ['the clock, the process number and the kernel are sim/libsim.c']
PROBES = ['repeated', 'across', 'reseed', 'get_seed', 'randomize', 'differ', 'float', 'int', 'mixed', 'wide', 'tight', 'empty', 'error', 'all_reached', 'spread', 'labeling', 'noise', 'jump', 'faulty', 'backtracked', 'thrown']
ORACLE = 'the state of the generator is a function of the seed and the draws since: a table, over both runs of a case (other clock, other process number, other work in between), of what each history gave'
NOISE = [lambda r: S('sleep', r.choice([0.001, 0.5, 3.0])), lambda r: C(S('findall', V(0), S('between', 1, 200, V(0)), V(1)), S('msort', V(1), V(2))), lambda r: C(S('assertz', S('d1', 7)), S('retractall', S('d1', V(3)))),
    lambda r: S('atom_codes', V(0), [97 + r.randrange(26) for _ in range(r.randrange(1, 9))]), lambda r: C(S('open', A('/w/n%d' % r.randrange(3)), A('write'), V(0)), S('write', V(0), S('f', V(1))), S('close', V(0))), lambda r: S('catch', S('throw', A('x')), V(0), A('true')),
    lambda r: S('temporary_name', A('tmp'), V(0)), lambda r: S('temporary_name', A('fooXXXXXX'), V(0)), lambda r: S('temporary_file', A('/w'), A('t'), V(0)), lambda r: S('date_time', V(0)), lambda r: S('real_time', V(0)), lambda r: S('sim_adv', r.randrange(10**7), r.randrange(10**6), 0, r.choice([0, 0, 10**9, -10**9])),
    lambda r: C(S('fd_domain', V(0), 1, r.choice([5, 300])), S('fd_labeling', V(0))), lambda r: S('sort', [r.randrange(99) for _ in range(5)], V(0)), lambda r: S('term_hash', S('f', A('b'), 1), V(0)), lambda r: S('new_atom', V(0)), lambda r: S('read_term_from_atom', A('f(X)'), V(0), []),
    lambda r: S('statistics', A('cpu_time'), V(0)), lambda r: S('shell', A('x'), V(0)), lambda r: S('number_codes', V(0), [49]), lambda r: S('host_name', V(0)), lambda r: S('is', V(0), S('sqrt', 2)), lambda r: C(S('g_assign', A('k'), 3), S('g_read', A('k'), V(0))), lambda r: S('garbage_collect') if False else S('length', V(0), r.randrange(500))]
def plan_of(case, v):
    x = case['var'][v]; L = ['seed %d' % x['seed'], 'bg %d' % x['bg'], 't0 %d' % x['t0'], 'pid %d' % x['pid'], 'tick %d' % x['tick'], 'dir /w 777', 'file /w/f 644 a', 'maxsteps 400000']
    if v: 
        for f in case['faults']: L.append('fault ' + ' '.join(str(y) for y in f))
    L += ['prog *', 'do exit 0', 'std 0 null', 'std 1 file /w/stdout', 'std 2 file /w/stderr']
    for o in seq(case, v): L.append('op ' + enc(term(o)))
    return ('driver', ['driver'], '\n'.join(L) + '\n', {'env': x['env']})
def runs(case): return [plan_of(case, v) for v in (0, 1)]
def seq(case, v):
    nz = sorted(case['noise%d' % v], key=lambda n: n[0]); out = []; j = 0
    for i, o in enumerate(case['ops']):
        while j < len(nz) and nz[j][0] <= i: out.append({'k': 'noise', 't': nz[j][1]}); j += 1
        out.append(o)
    return out
def draw(o, v):
    k = o['k']
    if k == 'rnd': return S('random', v)
    if k == 'rnd3': return S('random', dec(o['l']), dec(o['u']), v)
    if k == 'label':
        xs = [V(50 + i) for i in range(o['n'])]
        return C(S('fd_domain', xs, o['lo'], o['hi']), S('once', S('fd_labeling', xs, [S('variable_method', A(o['vm'])), S('value_method', A(o['wm']))])), S('=', v, xs))
def term(o):
    k = o['k']; v = V(0)
    if k == 'noise': return S(';', S('->', S('catch', dec(o['t']), V(60), A('true')), S('=', v, A('n'))), S('=', v, A('n')))
    if k == 'set': return S('set_seed', o['s'])
    if k == 'get': return S('get_seed', v)
    if k == 'randomize': return C(A('randomize'), S('get_seed', v), S('g_assign', A('seed'), v))
    if k == 'reset': return C(S('g_read', A('seed'), v), S('set_seed', v))
    if k == 'many': return S('findall', V(1), C(S('between', 1, o['n'], V(2)), draw(o['o'], V(1))), v)
    if k == 'back': return C(S('\\+', C(draw(o['o'], V(1)), S('g_assign', A('b'), V(1)), A('fail'))), S('g_read', A('b'), v))
    if k == 'thrown': return S('catch', C(draw(o['o'], V(1)), S('throw', S('b', V(1)))), S('b', v), A('true'))
    if k == 'bad': return dec(o['t'])
    return draw(o, v)

def judge(case, rs, probes):
    def hit(k): probes[k] = probes.get(k, 0) + 1
    memo = {}; firsts = []
    for v, r in enumerate(rs):
        ops = seq(case, v); per = r.per_op()
        if r.status != 0 or len(per) != len(ops): raise Viol('crash', 'the process ended with %s (%s) in operation %s: %s' % (r.status, r.end(), ops[len(per) - 1] if len(per) <= len(ops) else '?', r.stray[-300:]))
        seed = None; hist = (); saved = 1; rz = []; heads = [l for l in r.lines if l.startswith('O ')]
        for i, (_, head, logs, lines) in enumerate(per):
            o = ops[i]; k = o['k']
            if i == len(ops) - 1 and logs and logs[-1] == A('end'): logs = logs[:-1]
            if len(logs) != 1: raise Viol('log', 'operation %s ended %d times: %s' % (o, len(logs), logs[:3]))
            ans = logs[0]; ok = isinstance(ans, S) and ans.name == 'ok'; val = ans.args[0][0] if ok and isinstance(ans.args[0], list) and ans.args[0] else None
            def need(cond, key, msg):
                if not cond: raise Viol(key, 'run %d, %s: %s (answer %s)' % (v, o, msg, ans))
            if k == 'noise': hit('noise'); hit('jump') if 'sim_adv' in o['t'] else None; hit('faulty') if any(l.startswith('F ') for l in lines) else None; continue
            if k == 'bad':
                e = ans.args[0] if isinstance(ans, S) and ans.name == 'ex' else None
                need(isinstance(e, S) and e.name == 'error' and repr(e.args[0]) in [repr(dec(x)) for x in o['e']], 'error', 'expected the error %s' % [dec(x) for x in o['e']]); hit('error'); hist += ('bad' + o['t'],); continue
            if k == 'set': need(ok, 'set', 'failed'); seed = o['s']; hist = ()
            elif k == 'get':
                need(ok, 'get', 'failed'); need(isinstance(val, int) and val >= 0, 'get', 'no seed')
                if seed is not None: need(val == seed, 'get', 'the seed is %s' % seed); hit('get_seed')
            elif k == 'reset': need(ok, 'reset', 'a seed given by get_seed is refused'); seed = val; hist = (); hit('reseed')
            elif k == 'randomize':
                need(ok and isinstance(val, int) and val >= 0, 'randomize', 'failed'); seed = val; hist = ()
                t = [int(l.split()[-1]) // 10**6 for l in lines if l.startswith('s gettimeofday = ') or l.startswith('s clock_gettime realtime')]
                if rz: need(rz[-1][0] != val, 'randomize', 'sets the same seed as before')
                rz.append((val, t[0] if len(t) == 1 else None)); hit('randomize')
            else:
                key = (seed, hist, enc_op(o))
                if k in ('many', 'back', 'thrown'): d = o['o']
                else: d = o
                empty = d['k'] == 'rnd3' and dec(d['l']) >= dec(d['u'])
                if empty:
                    if k == 'many': need(ok and val == [], 'empty', 'an empty range has a value')
                    elif k == 'back': pass
                    else: need(not ok and ans == A('fail'), 'empty', 'an empty range has a value')
                    hit('empty')
                else:
                    need(ok, 'failed', 'failed'); vals = val if k == 'many' else [val]
                    if k == 'many': need(len(vals) == o['n'], 'failed', 'gave %d values of %d' % (len(vals), o['n']))
                    for x in vals: check(d, x, need, hit)
                    if k == 'many' and o['n'] >= 300: spread(d, vals, need, hit)
                    if k == 'back': hit('backtracked')
                    if k == 'thrown': hit('thrown')
                if seed is not None:
                    s = repr(ans)
                    if key in memo:
                        w = memo[key]
                        if w[0] != s: raise Viol('sequence', 'after set_seed(%s) and %s, %s gave %s in run %d and %s in run %d' % (seed, list(hist)[-6:], o, w[0][:200], w[1], s[:200], v))
                        hit('repeated'); hit('across') if w[1] != v else None
                    else: memo[key] = (s, v)
                hist += (enc_op(o),)
        firsts.append(rz)
    a, b = firsts
    for x, y in zip(a[:1], b[:1]):
        dp = case['var'][0]['pid'] != case['var'][1]['pid']; dt = x[1] != y[1]
        if dp != dt and x[1] and y[1]:                     # both may cancel out
            if x[0] == y[0]: raise Viol('randomize', 'gives the seed %s both at %d as process %d and at %d as process %d' % (x[0], x[1], case['var'][0]['pid'], y[1], case['var'][1]['pid']))
            hit('differ')
def enc_op(o): return repr(sorted((k, repr(v)) for k, v in o.items()))
def check(d, x, need, hit):
    if d['k'] == 'rnd': need(isinstance(x, float) and 0.0 <= x < 1.0, 'range', '%r is not in [0, 1)' % x)
    elif d['k'] == 'rnd3':
        l, u = dec(d['l']), dec(d['u']); it = isinstance(l, int) and isinstance(u, int)
        need(isinstance(x, int if it else float), 'type', '%r for the bounds %r and %r' % (x, l, u))
        need(l <= x < u, 'range', '%r is not in [%r, %r)' % (x, l, u))
        hit('int' if it else 'mixed' if isinstance(l, int) or isinstance(u, int) else 'float')
        if u - l > 1 << 40: hit('wide')
        if not it and u - l < 1e-10: hit('tight')
    else:
        need(isinstance(x, list) and len(x) == d['n'] and all(isinstance(y, int) and d['lo'] <= y <= d['hi'] for y in x), 'range', '%s is not in the domains' % x); hit('labeling')
def spread(d, vals, need, hit):
    if d['k'] == 'rnd': need(all(any(j / 4 <= x < (j + 1) / 4 for x in vals) for j in range(4)) and len(set(vals)) > len(vals) // 2, 'spread', 'the values of %d draws are not spread over the range' % len(vals)); hit('spread')
    elif d['k'] == 'rnd3':
        l, u = dec(d['l']), dec(d['u'])
        if isinstance(l, int) and isinstance(u, int):
            if u - l <= 8: need(set(vals) == set(range(l, u)), 'reach', 'not reached in %d draws: %s' % (len(vals), set(range(l, u)) - set(vals))); hit('all_reached')
            else: need(all(any(l + (u - l) * j // 4 <= x < l + (u - l) * (j + 1) // 4 for x in vals) for j in range(4)), 'spread', 'the values of %d draws leave a quarter of the range' % len(vals)); hit('spread')
        elif 1e-3 < u - l < 1e300 and u - l > 1e-6 * max(abs(l), abs(u)): need(all(any(l + (u - l) * j / 4 <= x <= l + (u - l) * (j + 1) / 4 for x in vals) for j in range(4)), 'spread', 'the values of %d draws leave a quarter of the range' % len(vals)); hit('spread')
    elif d['k'] == 'label' and d['wm'] == 'random' and d['hi'] - d['lo'] < 8: need({x[0] for x in vals} == set(range(d['lo'], d['hi'] + 1)), 'reach', 'labeling never tried %s first' % (set(range(d['lo'], d['hi'] + 1)) - {x[0] for x in vals})); hit('all_reached')
def nontrivial(case, rs):
    s = [o['s'] for o in case['ops'] if o['k'] == 'set']; return len(s) > len(set(s)) or any(o['k'] == 'reset' for o in case['ops']) or bool(s)

# ---------------------------------------------------------------- generation
B = 1 << 60
def bounds(rng):
    x = rng.random(); f = lambda: rng.choice([0.0, 1.0, -1.0, 0.5, 2.5, 1e10, -3.25, 1e-5])
    if x < .4: l = rng.choice([0, 0, 1, -5, 100, -B, 1 << 53, B - 9, (1 << 59) + 1]); u = l + rng.choice([1, 1, 2, 3, 5, 8, 10, 100, 1000, 10**6, 1 << 31, (1 << 31) + 7, 1 << 45]); return l, min(u, B - 1)
    if x < .45: return rng.choice([(-B, B - 1), (0, B - 1), (-B, 0), (-1, B - 1)])
    if x < .53: l = rng.choice([0, 3, -7, B - 1]); return l, l - rng.choice([0, 0, 1, 5])
    if x < .7: a, b = f(), f(); return min(a, b), max(a, b) + rng.choice([0, 0, 1.0])
    if x < .8: l = f(); return rng.choice([(l, int(l) + 3), (int(l), l + 2.5), (int(l), float(int(l) + 4)), (float(int(l)), int(l) + 4)])
    if x < .9:
        l = rng.choice([1.0, -1.0, 0.0, 1e10, 1e300, 0.1]); import math
        u = l
        for _ in range(rng.choice([1, 1, 2, 3, 5])): u = math.nextafter(u, math.inf)
        return l, u
    return rng.choice([(-1e308, 1e308), (-1.7e308, 1.7e308), (0.0, 1.7e308), (-1e200, 1e300), (1.0, 1.0), (2.0, 1.0), (1, 1.0), (0.0, 9e18), (-9e18, 9e18), (0, 2e18), (-2.0**60, 2.0**60)])
def one(rng):
    x = rng.random()
    if x < .3: return {'k': 'rnd'}
    if x < .85: l, u = bounds(rng); return {'k': 'rnd3', 'l': enc(l), 'u': enc(u)}
    lo = rng.choice([0, 1, 5]); return {'k': 'label', 'n': rng.choice([1, 2, 3, 5]), 'lo': lo, 'hi': lo + rng.choice([0, 1, 3, 7, 100]), 'vm': rng.choice(['random', 'random', 'standard', 'first_fail']), 'wm': rng.choice(['random', 'random', 'random', 'min'])}
def some(rng):
    x = rng.random(); o = one(rng)
    if x < .6: return o
    if x < .85: return {'k': 'many', 'n': rng.choice([1, 2, 10, 50, 400, 400]), 'o': o}
    if o['k'] == 'rnd3' and dec(o['l']) >= dec(o['u']): return o
    return {'k': 'back' if x < .93 else 'thrown', 'o': o}
BAD = [(S('random', 3), [enc(S('uninstantiation_error', 3))]), (S('random', 0.5), [enc(S('uninstantiation_error', 0.5))]), (S('random', V(1), 3, V(2)), INST), (S('random', 3, V(1), V(2)), INST), (S('random', A('a'), 3, V(2)), ty('number', A('a')) + ty('evaluable', S('/', A('a'), 0))), (S('random', 0, 3, 1), [enc(S('uninstantiation_error', 1))]),
    (S('set_seed', V(1)), INST), (S('set_seed', A('a')), ty('integer', A('a'))), (S('set_seed', 1.5), ty('integer', 1.5)), (S('set_seed', -1), [enc(S('domain_error', A('not_less_than_zero'), -1))]), (S('get_seed', A('a')), ty('integer', A('a'))), (S('get_seed', -1), [enc(S('domain_error', A('not_less_than_zero'), -1))])]
def gen(rng, i):
    case = {'var': []}; ops = []
    t0 = rng.choice([0, 1700000000, 1700000000, 4102444800, 4294967296 - 5]) * 10**9 + rng.randrange(10**12); pid = rng.choice([2, 4242, 4194303, rng.randrange(300, 4 * 10**6)]); same = rng.random()
    for v in (0, 1):
        case['var'].append({'seed': rng.randrange(1 << 30), 'bg': rng.choice([0, 20, 80]), 't0': t0 if v == 0 or same < .3 else t0 + rng.choice([1, 60, 86400, 365 * 86400]) * 10**9 + rng.randrange(10**9), 'pid': pid if v == 0 or .3 <= same < .7 else pid + rng.choice([1, 2, 16, 1000]), 'tick': rng.choice([1, 1000, 10**6]), 'env': {} if v == 0 else {'SEED': '5', 'HOME': '/w'}})
    seeds = [rng.choice([0, 1, 2, 7, 42, 12345, (1 << 31) - 1, rng.randrange(1 << 31)]) for _ in range(rng.choice([1, 2, 2, 3]))]
    tape = [some(rng) for _ in range(rng.randint(2, 8))]           # replayed after each seeding
    if rng.random() < .2: t, e = rng.choice(BAD); tape.insert(rng.randrange(len(tape)), {'k': 'bad', 't': enc(t), 'e': e})
    for _ in range(rng.choice([1, 2, 3, 4])):
        x = rng.random()
        if x < .6: ops.append({'k': 'set', 's': rng.choice(seeds)})
        elif x < .8: ops.append({'k': 'randomize'})
        else: ops += [{'k': 'randomize'}] * rng.choice([1, 1, 2, 5]) + tape[:rng.randint(1, len(tape))] + [{'k': 'reset'}]
        for o in tape[:rng.randint(1, len(tape))]:
            if rng.random() < .15: ops.append({'k': 'get'})
            ops.append(o)
        if rng.random() < .2: ops.append(some(rng))
    if rng.random() < .3: ops.insert(0, some(rng))
    case['ops'] = ops
    for v in (0, 1): case['noise%d' % v] = [[rng.randrange(len(ops)), enc(rng.choice(NOISE)(rng))] for _ in range(rng.choice([0, 1, 4, 10]) if v else rng.choice([0, 0, 2]))]
    case['faults'] = [rng.choice([['open', '*', 1, 2, 'EMFILE'], ['write', '*', 1, 1, 'ENOSPC'], ['fork', '*', 1, 1, 'EAGAIN'], ['sleep', '*', 1, 1, 'EINTR'], ['clock', '*', rng.randint(1, 20), 1, 'jump', rng.choice([10**9, -10**9, 86400 * 10**9])]])] if rng.random() < .3 else []
    return case
def reduce(case):
    for v in (0, 1):
        for k, x in (('bg', 0), ('tick', 1000), ('env', {})):
            if case['var'][v][k] != x: c = dict(case); c['var'] = [dict(y) for y in case['var']]; c['var'][v][k] = x; yield c
