"""C08: file-system predicates do exactly what they say, or fail without damage"""
import os, re, errno, time
import core
from core import A, S, V, G, C, T, enc, dec, q, unq, Viol
ID = 'C08'
QUICK = 28000
THOROUGH = 300000
TWICE = 50
SHRINK = ('ops', 'faults', 'tree')
RULE = 'a history in which the file system was changed, or a system call failed, and later operations depended on it'
REAL = ['the GNU Prolog file-system, path-name and file-property predicates and the engine under them, built from the tree']
STUB = ['the kernel (directories, links, permissions, devices, disk space, clock) is sim/libsim.c', 'glibc stdio is real, over simulated descriptors']
PROBES = ['ok', 'fail', 'system_error', 'domain_error', 'type_error', 'inst_error', 'copied', 'copy_failed', 'renamed', 'listed', 'moved', 'tmp', 'collision', 'cut_short', 'flag', 'props', 'disk_full']
ORACLE = 'a model of a POSIX file tree and of path-name expansion written from the manual'
PM = 4096

# ---------------------------------------------------------------- the model
class Sys(Exception):
    def __init__(self, *errs): self.errs = errs
class Node:
    __slots__ = ('t', 'mode', 'data', 'ent', 'up', 'mt', 'loose', 'dev', 'vsize')
    def __init__(self, t, mode=0o755, data=b''): self.t = t; self.mode = mode; self.data = data; self.ent = {}; self.up = None; self.mt = None; self.loose = None; self.dev = 0; self.vsize = 0
    def may(self, b): return (self.mode >> 6) & b == b
E = errno
class FS:
    def __init__(self, case):
        self.root = Node('d'); cwd = case.get('cwd', '/w')
        for p in ('/tmp', '/home/user', '/dev', '/w'): self.mk(p, Node('d', 0o777 if p == '/tmp' else 0o755))
        for n, d in (('null', 1), ('full', 2), ('zero', 4)): x = Node('c', 0o666); x.dev = d; self.mk('/dev/' + n, x)
        self.mk(cwd, Node('d'))
        for x in case.get('tree', []):
            if x[0] == 'dir': self.mk(x[1], Node('d', x[2]))
            elif x[0] == 'file':
                n = Node('f', x[2], x[3].encode('latin-1') * x[4]); n.mt = x[5]; n.vsize = x[6]; self.mk(x[1], n)
            elif x[0] == 'lnk': self.mk(x[1], Node('l', 0o777, x[2].encode('latin-1')))
        d = self.root
        for x in cwd.strip('/').split('/'):
            if x: d = d.ent[x]
        self.cw = d
    def mk(self, path, n):
        c = path.strip('/').split('/'); d = self.root
        if c == ['']: return d
        for x in c[:-1]: d = self.add(d, x, Node('d')) if x not in d.ent else d.ent[x]
        old = d.ent.get(c[-1])
        if old is not None: old.mode = n.mode; return old
        return self.add(d, c[-1], n)
    def add(self, d, name, n): d.ent[name] = n; n.up = d; return n
    def path_of(self, d):
        r = []
        while d.up is not None: r.append(next((k for k, v in d.up.ent.items() if v is d), None)); d = d.up
        if None in r: raise Sys(E.ENOENT)
        return '/' + '/'.join(reversed(r))
    def walk(self, path, follow=True, start=None, depth=0):
        """-> (directory, last component, node or None); raises Sys"""
        if not path: raise Sys(E.ENOENT)
        if len(path) >= PM: raise Sys(E.ENAMETOOLONG)
        d = self.root if path[0] == '/' else start or self.cwdnode()
        comps = [x for x in path.split('/') if x]
        if not comps: return d, '', d
        for i, c in enumerate(comps):
            final = i == len(comps) - 1; trail = final and path.endswith('/')
            if len(c) > 255: raise Sys(E.ENAMETOOLONG)
            if d.t != 'd': raise Sys(E.ENOTDIR)
            if not d.may(1): raise Sys(E.EACCES)
            n = d if c == '.' else d.up or d if c == '..' else d.ent.get(c)
            if n is not None and n.t == 'l' and (not final or trail or follow):
                if depth > 8: raise Sys(E.ELOOP)
                t = n.data.decode('latin-1')
                if final and not trail: return self.walk(t, follow, d, depth + 1)
                n = self.walk(t, True, d, depth + 1)[2]
                if n is None: raise Sys(E.ENOENT)
            if final:
                if trail and n is not None and n.t != 'd': raise Sys(E.ENOTDIR)
                return d, c, n
            if n is None: raise Sys(E.ENOENT)
            d = n
    def cwdnode(self):
        self.path_of(self.cw); return self.cw
    def get(self, path, follow=True):
        n = self.walk(path, follow)[2]
        if n is None: raise Sys(E.ENOENT)
        return n

class Bad(Exception):
    """an error term is expected"""
    def __init__(self, *t): self.t = t
class Either(Exception):
    """any of these outcomes"""
inst = lambda: Bad(A('instantiation_error'))
typ = lambda k, c: Bad(S('type_error', A(k), c))
dom = lambda k, c: Bad(S('domain_error', A(k), c))

class Model:
    def __init__(self, case): self.case = case; self.fs = FS(case); self.env = dict(case.get('env') or {}); self.env.setdefault('HOME', '/home/user'); self.env.setdefault('USER', 'user'); self.flag = 'error'; self.probes = {}; self.disk = case.get('disk', -1)
    def hit(self, p): self.probes[p] = 1
    def wd(self):
        if any(c == 'getcwd' for _, c in self.win): return '.'
        try: return self.fs.path_of(self.fs.cw)
        except Sys: return '.'
    def expand(self, s):
        """-> (name, keep the trailing slash, was an intermediate text too long); None when invalid"""
        env = self.env; big = len(s) >= PM - 8
        s = re.sub(r'\$([A-Za-z0-9_]*)', lambda m: env.get(m.group(1), m.group(0)), s)
        if len(s) >= PM - 8: big = True
        if s.startswith('~'):
            m = re.match(r'~([^/]*)(.*)', s, re.S); u, rest = m.group(1), m.group(2)
            if u == '':
                if 'HOME' not in env or env['HOME'] is None: return None
                s = env['HOME'] + '/' + rest
            elif u == 'user': s = '/home/user/' + rest
            else: return ('?', False, True) if big else None
        if s == 'user': return s, False, big
        if s == '': return None
        slash = len(s) > 1 and s.endswith('/') or len(s) > 2 and s.endswith('/.') or len(s) > 3 and s.endswith('/..')
        if s[0] != '/': s = self.wd() + '/' + s
        if len(s) >= PM - 8: big = True
        out = []; ab = s[0] == '/'
        if not ab: out.append('.'); s = s[1:]            # no current directory: names stay relative to it
        for c in s.split('/'):
            if c in ('', '.'): continue
            if c == '..':
                if not out or out == ['.'] and not ab: return ('?', False, True) if big else None
                out.pop()
            else: out.append(c)
        r = ('/' if ab else '') + '/'.join(out)
        return r or '/', slash, big
    def path(self, t, slash=False):
        if isinstance(t, V): raise inst()
        s = '[]' if t == [] else str(t) if isinstance(t, A) else None
        if s is None: raise typ('atom', t)
        e = self.expand(s)
        if e is None: raise dom('os_path', t)
        p, sl, big = e
        self.big = self.big or big
        if len(p) >= PM: raise dom('os_path', t)
        if sl and slash and p != '/': p += '/'
        return p
    # ---- operations: return the list of expected answers (a term for the goal's variable, True, False)
    def op(self, g):
        return getattr(self, 'x_' + g.name)(*g.args)
    def flt(self, *calls):
        """a fault hit one of these calls"""
        e = [e for e, c in self.win if c in calls]
        if e: raise Sys(*e)
    def x_make_directory(self, p):
        p = self.path(p); self.flt('mkdir')
        d, c, n = self.fs.walk(p, False)
        if n is not None: raise Sys(E.EEXIST)
        if not d.may(2): raise Sys(E.EACCES)
        self.fs.add(d, c, Node('d')); return True
    def x_delete_directory(self, p):
        p = self.path(p); self.flt('rmdir')
        d, c, n = self.fs.walk(p, False)
        if n is None: raise Sys(E.ENOENT)
        if n.t != 'd': raise Sys(E.ENOTDIR)
        if n is self.fs.root: raise Sys(E.EBUSY)
        if c in ('.', '..'): raise Sys(E.EINVAL, E.ENOTEMPTY)
        if n.ent: raise Sys(E.ENOTEMPTY)
        if not d.may(2): raise Sys(E.EACCES)
        del d.ent[c]; return True
    def x_change_directory(self, p):
        p = self.path(p); self.flt('chdir')
        n = self.fs.get(p)
        if n.t != 'd': raise Sys(E.ENOTDIR)
        if not n.may(1): raise Sys(E.EACCES)
        c = self.fs.path_of(n)
        if len(c) >= 1024: raise Sys(E.ENAMETOOLONG)
        self.fs.cw = n; self.hit('moved'); return True
    def unify_atom(self, t, val):
        if isinstance(t, V): return ('=', A(val))
        if t == []: return val == '[]'
        if not isinstance(t, A): raise typ('atom', t)
        return str(t) == val
    def x_working_directory(self, t):
        try: return self.unify_atom(t, self.wd())
        except Bad as b: return ['any', b, ('flaky',)] if any(c == 'getcwd' for _, c in self.win) else b
    def x_directory_files(self, p, l):
        if not isinstance(l, (V, T, list)): raise typ('list', l)
        if isinstance(l, T) and not isinstance(l.tail, V): raise typ('list', l)
        p = self.path(p); self.flt('opendir')
        n = self.fs.get(p)
        if n.t != 'd': raise Sys(E.ENOTDIR)
        if not n.may(4): raise Sys(E.EACCES)
        names = sorted(['.', '..'] + list(n.ent))
        self.hit('listed')
        k = len(l) if isinstance(l, list) else len(l.items) if isinstance(l, T) else 0
        its = l if isinstance(l, list) else l.items if isinstance(l, T) else []
        re_ = any(c == 'dir' for _, c in self.win)
        if its and not all(isinstance(x, V) for x in its): return ('any',) if re_ else ('listfix', names, l)
        if isinstance(l, list) and k != len(names) or k > len(names):
            return ('sysor', [e for e, c in self.win if c == 'dir'], False) if re_ else False
        if re_: self.flt('readdir')
        return ('list', names)
    def x_rename_file(self, a, b):
        if any(c == 'getcwd' for _, c in self.win): raise Stop2(0)
        a = self.path(a); b = self.path(b); self.flt('rename')
        fs = self.fs; d1, c1, n1 = fs.walk(a, False)
        if n1 is None: raise Sys(E.ENOENT)
        d2, c2, n2 = fs.walk(b, False)
        if n1 is fs.root or n2 is fs.root or c1 in ('.', '..') or c2 in ('.', '..'): raise Sys(E.EBUSY, E.EINVAL, E.ENOTEMPTY, E.EISDIR, E.ENOTDIR, E.EACCES)
        if not d1.may(2) or not d2.may(2): raise Sys(E.EACCES)
        if n1 is n2: return True
        if n1.t == 'd':
            x = d2
            while x is not None:
                if x is n1: raise Sys(E.EINVAL)
                x = x.up
        if n2 is not None:
            if n2.t == 'd' and n1.t != 'd': raise Sys(E.EISDIR)
            if n2.t != 'd' and n1.t == 'd': raise Sys(E.ENOTDIR)
            if n2.t == 'd' and n2.ent: raise Sys(E.ENOTEMPTY)
        del d1.ent[c1]; fs.add(d2, c2, n1); self.hit('renamed'); return True
    def used(self):
        t = 0; todo = [self.fs.root]
        while todo:
            n = todo.pop(); todo.extend(n.ent.values()); t += len(n.data) if n.t in 'fl' else 0
        return t
    def x_copy_file(self, a, b):
        if any(c == 'getcwd' for _, c in self.win): raise Stop2(0)
        a = self.path(a); b = self.path(b, True); fs = self.fs
        bad = [e for e, c in self.win if c in ('open', 'read', 'write', 'stat', 'fstat', 'close', 'lseek') and not (c == 'read' and e is None)]
        src = dst = None; why = None
        try:
            src = fs.get(a)
            if src.t == 'd': raise Sys(E.EISDIR, E.EACCES)
            if not src.may(4): raise Sys(E.EACCES)
            isdir = b.endswith('/') and b != '/'
            try: n = fs.get(b); isdir = n.t == 'd'
            except Sys as x:
                if not set(x.errs) & {E.ENOENT, E.ENOTDIR}: raise
            if isdir: b = b.rstrip('/') + '/' + a.rsplit('/', 1)[-1]
            if len(b) >= PM: raise Sys(E.ENAMETOOLONG)
            d, c, dst = fs.walk(b)
            if dst is None:
                if b.endswith('/'): raise Sys(E.EISDIR, E.ENOENT)
                if not d.may(2): raise Sys(E.EACCES)
            else:
                if dst is src: return ('same', src, [E.EINVAL, E.EEXIST] + bad)
                if dst.t == 'd': raise Sys(E.EISDIR)
                if not dst.may(2): raise Sys(E.EACCES)
        except Sys as x: why = x
        if why is not None:
            raise Sys(*(list(why.errs) + bad))
        data = b'' if src.t == 'c' else src.data
        # which calls got through
        opened = any(l.startswith('s open ') and l.split(' ')[-1].isdigit() and int(l.split(' ')[3], 16) & 0x200 for l in self.lines)
        def put(data):
            nonlocal dst
            if dst is None: dst = fs.add(d, c, Node('f', 0o644))
            if dst.t == 'f': dst.data = data; dst.mt = ('win', self.t); dst.vsize = 0; dst.loose = src.loose
        full = dst is not None and dst.t == 'c' and dst.dev == 2 and data or any(e == 'disk' for e, _ in self.win)
        room = None
        if self.disk >= 0 and (dst is None or dst.t == 'f'):
            room = self.disk - self.used() + (len(dst.data) if dst is not None else 0)
            if data and len(data) > room: full = True; self.hit('disk_full')
        if src.loose or room is not None and self.loosefs: return ('copyloose', put, opened, bad + [E.ENOSPC])
        if bad and not full and all(c == 'close' and p == a for e, c, p in self.winp if e): put(data); self.hit('copied'); return ['any', True, ('sysok', bad)]     # the source was read completely
        if bad or full:
            self.hit('copy_failed')
            allerr = bad + ([E.ENOSPC] if full else [])
            maybe = not full and (all(e in (E.EINTR, E.EAGAIN) for e in bad) or all(c in ('stat', 'fstat', 'getcwd') for _, c in self.win))
            onlyclose = not full and all(c == 'close' for e, c in self.win if e)
            def partial():
                if not opened: return
                put(data)
                if dst.t == 'f': dst.loose = data; self.loosefs = True
            return ('copyfail', allerr, partial, put, data, maybe, onlyclose)
        put(data); self.hit('copied'); return True
    loosefs = False
    def x_delete_file(self, p):
        p = self.path(p); self.flt('unlink')
        d, c, n = self.fs.walk(p, False)
        if n is None: raise Sys(E.ENOENT)
        if n.t == 'd': raise Sys(E.EISDIR, E.EPERM)
        if not d.may(2): raise Sys(E.EACCES)
        del d.ent[c]; return True
    def x_unlink(self, p):
        try: self.x_delete_file(p)
        except Sys: pass
        return True
    def x_file_exists(self, p):
        p = self.path(p); self.flt2('access', 'stat')
        try: self.fs.get(p)
        except Sys as x:
            if set(x.errs) & {E.ENOENT, E.ENOTDIR}: return False
            raise
        return True
    def flt2(self, *calls):
        e = [e for e, c in self.win if c in calls]
        if e and e[0] in (E.ENOENT, E.ENOTDIR): raise Fail()
        if e: raise Sys(*e)
    def perm(self, t):
        """-> list of permissions"""
        if isinstance(t, A) and str(t) != '[]': l, tail = [t], []
        elif isinstance(t, T): l, tail = t.items, t.tail
        elif t == []: l, tail = [], []
        elif isinstance(t, list): l, tail = t, []
        else: l, tail = [], t
        for x in l:
            if isinstance(x, V): raise inst()
            if not isinstance(x, A): raise typ('atom', x if x != [] else A('[]'))
            if str(x) not in ('read', 'write', 'execute', 'search'): raise dom('os_file_permission', x)
        if isinstance(tail, V): raise inst()
        if tail != []: raise typ('list', t)
        return [str(x) for x in l]
    def has(self, n, k):
        b = {'read': 4, 'write': 2, 'execute': 1, 'search': 1}[k]
        if k == 'execute' and n.t == 'd' or k == 'search' and n.t != 'd': return False
        return n.may(b)
    def x_file_permission(self, p, t):
        p = self.path(p); n = None; er = None
        e = [e for e, c in self.win if c in ('stat', 'access')]
        try:
            if e: raise Sys(*e)
            n = self.fs.get(p)
        except Sys as x:
            if not set(x.errs) & {E.ENOENT, E.ENOTDIR}: er = x
        try: l = self.perm(t)
        except Bad as b:
            if er is not None: return ['any', b, er]
            raise
        if er is not None: raise er
        return n is not None and all(self.has(n, k) for k in l)
    def props(self, p):
        n = self.fs.get(p)
        r = [S('absolute_file_name', A(p)), S('type', A({'f': 'regular', 'd': 'directory', 'c': 'character_device'}[n.t]))]
        r.append(S('real_file_name', A(self.real(p))))
        if n.t == 'f' and not n.loose: r.append(S('size', n.vsize or len(n.data)))
        if n.t == 'c': r.append(S('size', 0))
        for k in ('read', 'write', 'execute', 'search'):
            if self.has(n, k): r.append(S('permission', A(k)))
        if isinstance(n.mt, int): r.append(S('last_modification', self.dt(n.mt)))
        return n, r
    def real(self, p, depth=0):
        if depth > 8: raise Sys(E.ELOOP)
        d, c, n = self.fs.walk(p)
        if n.t == 'd': return self.fs.path_of(n)
        # the name under which it lies: follow the links by hand
        d, c, x = self.fs.walk(p, False)
        if x.t == 'l':
            t = x.data.decode('latin-1')
            return self.real(t if t[0] == '/' else self.fs.path_of(d) + '/' + t, depth + 1)
        return self.fs.path_of(d).rstrip('/') + '/' + c
    def dt(self, ns):
        t = time.gmtime(ns // 10**9 + self.case.get('tz', 0) * 60); return S('dt', t[0], t[1], t[2], t[3], t[4], t[5])
    def x_file_property(self, p, t):
        if not isinstance(t, V) and not (isinstance(t, S) and len(t.args) == 1 and t.name in ('absolute_file_name', 'real_file_name', 'type', 'size', 'permission', 'creation', 'last_access', 'last_modification')):
            raise dom('os_file_property', t)
        a = t.args[0]; k = t.name
        p = self.path(p)
        e = [x for x, c in self.win if c in ('stat', 'access', 'realpath')]
        def badarg():
            if k in ('absolute_file_name', 'real_file_name', 'type'):
                if not isinstance(a, (V, A)) and a != []: return typ('atom', a)
            elif k == 'size':
                if not isinstance(a, (V, int)): return typ('integer', a)
            elif k == 'permission':
                if not isinstance(a, V):
                    if a == []: return dom('os_file_permission', a)
                    if not isinstance(a, A): return typ('atom', a)
                    if str(a) not in ('read', 'write', 'execute', 'search'): return dom('os_file_permission', a)
            elif not isinstance(a, V):
                if not isinstance(a, (S, T, list)) or a == []: return typ('compound', a)
                if not (isinstance(a, S) and a.name == 'dt' and len(a.args) == 6): return dom('date_time', a)
            return None
        b = badarg()
        try:
            if e: raise Sys(*e)
            n, pr = self.props(p)
        except Sys as x:
            if b is not None: return ['any', b, x]
            if e and self.flag != 'error': return ('any',)
            raise
        if b is not None: raise b
        if k in ('creation', 'last_access') or k == 'last_modification' and not isinstance(n.mt, int):
            if isinstance(a, V): return ('dt', n.mt if k == 'last_modification' else None)
            return ('any',)
        if k == 'size' and (n.t == 'd' or n.loose): return ('any',)
        vals = [x.args[0] for x in pr if x.name == k]
        self.hit('props')
        if isinstance(a, V): return ('=', vals[0]) if vals else False
        if isinstance(a, S) and k == 'last_modification':
            if any(not isinstance(x, (int, V)) for x in a.args): return ['any', *[typ('integer', x) for x in a.args if not isinstance(x, (int, V))], ('failor',)]
            d = vals[0]; return all(isinstance(x, V) or x == y for x, y in zip(a.args, d.args))
        return a in vals
    def x_findall(self, x, g, l):
        p = self.path(g.args[0])
        e = [x for x, c in self.win if c in ('stat', 'access', 'realpath')]
        if e and self.flag != 'error' or any(c == 'getcwd' for _, c in self.win): return ('any',)
        if e: raise Sys(*e)
        try: n, pr = self.props(p); self.hit('props')
        except Sys:
            if self.flag == 'error': raise
            return ('props', [], None)
        return ('props', pr, n)
    def x_temporary_name(self, t, x):
        p = self.path(t)
        if not p.endswith('XXXXXX'): raise Sys(E.EINVAL)
        self.flt('stat')
        try: d, c, n = self.fs.walk(p[:-6] + 'aaaaaa', False)
        except Sys as y:
            if E.ENOENT not in y.errs: raise
        self.hit('tmp')
        return ('tmp', p[:-6], x)
    def x_temporary_file(self, d, pfx, x):
        if isinstance(d, V): raise inst()
        if not isinstance(d, A) and d != []: raise typ('atom', d)
        dirs = []
        if d == [] or str(d) != '': dirs.append(self.path(d))
        if isinstance(pfx, V): raise inst()
        if not isinstance(pfx, A): raise typ('atom', pfx) if pfx != [] else Skip()
        if 'TMPDIR' in self.env: dirs.insert(0, self.env['TMPDIR'])
        e = [e for e, c in self.win if c == 'stat']
        if e: return ['any', Sys(E.ENOENT, *e), ('tmpany', x)]
        base = None
        for y in dirs:
            try:
                if self.fs.get(y).t == 'd': base = y; break
            except Sys: pass
        if base is None: base = '/tmp'
        n = self.fs.get(base)
        if not n.may(1): raise Sys(E.EACCES)
        self.hit('tmp')
        return ('tmp', (base if base == '/' else base.rstrip('/')) + '/' + (str(pfx)[:5] or 'file'), x)
    def x_absolute_file_name(self, p, x):
        b = None
        try: r = self.path(p)
        except Bad as y: r = y
        if isinstance(r, Bad): raise r
        if not isinstance(x, V) and not isinstance(x, A) and x != []: raise typ('atom', x)
        return self.unify_atom(x, r)
    def x_is_absolute_file_name(self, p):
        if isinstance(p, V): raise inst()
        if not isinstance(p, A) and p != []: raise typ('atom', p)
        return p != [] and str(p).startswith('/')
    def x_is_relative_file_name(self, p): return not self.x_is_absolute_file_name(p)
    def x_decompose_file_name(self, p, d, b, s):
        if isinstance(p, V): raise inst()
        if not isinstance(p, A) and p != []: raise typ('atom', p)
        p = '[]' if p == [] else str(p)
        for x in (d, b, s):
            if not isinstance(x, (V, A)) and x != []: raise typ('atom', x)
        i = p.rfind('/') + 1; dd, bb = p[:i], p[i:]; j = bb.rfind('.')
        bb, ss = (bb[:j], bb[j:]) if j >= 0 else (bb, '')
        if len(p) >= PM: self.big = True
        return ('3', (d, dd), (b, bb), (s, ss))
    def x_prolog_file_name(self, p, x):
        r = self.path(p)
        if not isinstance(x, V) and not isinstance(x, A) and x != []: raise typ('atom', x)
        p = '[]' if p == [] else str(p)
        if r == 'user' or '.' in r.rsplit('/', 1)[-1]: return self.unify_atom(x, p)
        ok = []
        e = [e for e, c in self.win if c in ('stat', 'access')]
        for s in ('.pl', '.pro', '.prolog'):
            try: self.fs.get(r + s); ok.append(p + s); break
            except Sys: pass
        else: ok.append(p + '.pl')
        if e: return ('any',)
        return self.unify_atom(x, ok[0])
    def x_set_prolog_flag(self, f, v): self.flag = str(v); self.hit('flag'); return True
class Skip(Exception): pass
class Fail(Exception): pass

ERRNO = {n: getattr(errno, n) for n in dir(errno) if n.startswith('E')}

def judge(case, r, probes):
    if r.status != 0: raise Viol('crash', 'exit status %s: %s; last: %s %s' % (r.status, r.end(), r.lines[-2:], r.stray[-200:]))
    m = Model(case); ops = r.per_op(); t_end = r.counters().get('elapsed', 0)
    t0 = case.get('t0', 1700000000 * 10**9)
    for i, o in enumerate(case['ops']):
        g = dec(o)
        if i >= len(ops): raise Viol('crash', 'the run ended before operation %d (%s)' % (i, o))
        _, t, logs, lines = ops[i]
        if not logs: raise Viol('crash', 'no answer to operation %d (%s)' % (i, o))
        out = logs[0]
        m.lines = lines; m.big = False; m.win = []; m.winp = []; m.t = t
        for l in lines:
            if l.startswith('F '):
                w = l.split(' ')
                if w[1] in ERRNO: m.winp.append((w[1], w[2], unq(w[3]).decode('latin-1'))); m.win.append((ERRNO[w[1]], w[2])) if w[3] != 'disk' else m.win.append(('disk', 'write'))
        kind = out.name if isinstance(out, S) else str(out)
        if kind == 'ex':
            b = out.args[0]
            if not (isinstance(b, S) and b.name == 'error'): raise Viol('wrong-error', 'operation %d (%s): ball %r' % (i, o, b))
            err = b.args[0]
        else: err = None
        def bad(want): raise Viol('differs', 'operation %d (%s): expected %s, observed %r; calls: %s' % (i, o, want, out, [l for l in lines if l[0] in 'sF'][:12]))
        sysatoms = lambda errs: [A(os.strerror(e)) for e in errs if e != 'disk']
        def is_sys(errs):
            if m.flag == 'error': return kind == 'ex' and isinstance(err, S) and err.name == 'system_error' and err.args[0] in sysatoms(errs)
            return kind == 'fail'
        def is_bad(ts): return kind == 'ex' and any(same_err(err, t) for t in ts)
        try: want = m.op(g)
        except Sys as x: want = x
        except Bad as x: want = x
        except Fail: want = False
        except Skip: continue
        if m.big and (is_bad([S('domain_error', A('os_path'), x) for x in list(g.args) + [y for a in g.args if isinstance(a, S) for y in a.args] if isinstance(x, A)]) or is_sys([E.ENAMETOOLONG, E.ENOENT])):
            m.hit('toolong'); m_undo(m, case, g, want, ops, i); continue
        def match(want):
            if isinstance(want, list) and want and want[0] == 'any': return any(match(w) for w in want[1:])
            if isinstance(want, Sys): return is_sys(want.errs)
            if isinstance(want, Bad): return is_bad(want.t)
            if want is True: return kind == 'ok'
            if want is False: return kind == 'fail'
            k = want[0]
            if k in ('any', 'flaky'): return True
            if k == 'sysok': return is_sys(want[1])
            if k == 'failor': return kind == 'fail'
            if k == '=': return kind == 'ok' and out.args[0] == [want[1]]
            if k == 'sysor': return kind == 'fail' or is_sys(want[1])
            if k == 'list':
                if kind != 'ok': return False
                a = g.args[1]; vs = out.args[0]
                if isinstance(a, V): got = vs[0]
                else:
                    its = a if isinstance(a, list) else a.items; got = [vs[v.n] for v in its]
                    if isinstance(a, T):
                        tl = vs[a.tail.n]
                        if not isinstance(tl, list): return False
                        got = got + tl
                return isinstance(got, list) and sorted('[]' if x == [] else str(x) for x in got) == want[1]
            if k == 'listfix':
                its = want[2] if isinstance(want[2], list) else want[2].items
                ok = all(isinstance(x, V) or x in [A(n) for n in want[1]] for x in its)
                return kind == 'fail' or ok and kind == 'ok'
            if k == 'dt':
                if kind != 'ok': return False
                d = out.args[0][0]
                if not (isinstance(d, S) and d.name == 'dt' and len(d.args) == 6 and all(isinstance(x, int) for x in d.args)): return False
                if isinstance(want[1], tuple):
                    lo, hi = t0 + want[1][1], t0 + t_end + 10**9
                    return m.dt(lo) <= d <= m.dt(hi)
                return True
            if k == 'tmp':
                if kind != 'ok' and not isinstance(want[2], V):
                    if isinstance(want[2], A) or want[2] == []: return kind == 'fail'
                    return is_bad([S('type_error', A('atom'), want[2])])
                if kind != 'ok': return False
                if not isinstance(want[2], V): return False
                x = out.args[0][0]
                if not isinstance(x, A) or not re.fullmatch(re.escape(want[1]) + '[A-Za-z0-9]{6}', x): return False
                if len([l for l in lines if l.startswith('s stat') and l.endswith('= 0')]) > 1: m.hit('collision')
                try: m.fs.get(x, False); return False
                except Sys: return True
            if k == 'tmpany':
                if not isinstance(want[1], V): return True
                if kind != 'ok': return False
                try: m.fs.get(out.args[0][0], False); return False
                except Sys: return True
            if k == '3':
                vs = []
                for pat, val in want[1:]:
                    if isinstance(pat, V): vs.append((pat.n, val))
                    elif str(pat) != val and not (pat == [] and val == '[]'): return kind == 'fail'
                d = {}
                for n, val in vs:
                    if d.setdefault(n, val) != val: return kind == 'fail'
                if kind != 'ok': return False
                return all((out.args[0][n] == A(v) if v != '[]' else out.args[0][n] == []) for n, v in vs)
            if k == 'props':
                if kind != 'ok': return False
                got = out.args[0][1] if len(out.args[0]) > 1 else None
                if not isinstance(got, list): return False
                gs = sorted(repr(x) for x in got if not (isinstance(x, S) and (x.name in ('creation', 'last_access') or x.name == 'last_modification' and not isinstance(want[2].mt, int) or x.name == 'size' and (want[2].t == 'd' or want[2].loose))))
                return gs == sorted(repr(x) for x in want[1])
            if k == 'same': return kind == 'ok' or is_sys(want[2])
            if k == 'copyloose':
                if kind == 'ok': want[1](b''); 
                elif not is_sys(want[3]) : return False
                if want[2] or kind == 'ok':
                    want[1](b''); n2 = m.fs
                m.loosefs = True
                raise Stop()
            if k == 'copyfail':
                if kind == 'ok':
                    if want[5] or want[6] and False: want[3](want[4]); return True
                    return False
                if not is_sys(want[1]): return False
                want[2](); return True
            raise AssertionError(want)
        try:
            if not match(want): bad(describe(want))
        except Stop: probes['loose'] = 1; break
        if isinstance(want, Sys): m.hit('system_error')
        elif isinstance(want, Bad): m.hit({'domain_error': 'domain_error', 'type_error': 'type_error'}.get(want.t[0].name if isinstance(want.t[0], S) else '', 'inst_error'))
        m.hit(kind)
    else:
        final(case, m, r)
    if len(r.lines) and any(l.startswith('D fd ') for l in r.lines):
        extra = {f: n for f, n in r.fds().items() if f > 2}
        if extra: raise Viol('leak', 'descriptors left open at the end: %s' % extra)
    for k, v in m.probes.items(): probes[k] = probes.get(k, 0) + v
class Stop(Exception): pass
def m_undo(m, case, g, want, ops, i):
    """an over-long name was refused: what the operation would have done must not be assumed"""
    fs = Model(dict(case, ops=[])); raise Stop2(i)
class Stop2(Exception):
    pass
def same_err(a, b):
    return a == b or isinstance(a, S) and isinstance(b, S) and a.name == b.name and len(a.args) == len(b.args) and a.args[0] == b.args[0] and (isinstance(b.args[-1], (V, S, T, list)) and (not isinstance(b.args[-1], list) or b.args[-1] != []) and type(a.args[-1]) == type(b.args[-1]) or b.args[-1] == [] and a.args[-1] in ([], A('[]')) or b.args[-1] == A('[]') and a.args[-1] == [])
def describe(w):
    if isinstance(w, Sys): return 'system_error of %s' % [errno.errorcode.get(e, e) for e in w.errs]
    if isinstance(w, Bad): return 'error %s' % (w.t,)
    if isinstance(w, list) and w and w[0] == 'any': return ' or '.join(str(describe(x)) for x in w[1:])
    if w is True: return 'success'
    if w is False: return 'failure'
    if w[0] == 'copyfail': return 'system_error of %s' % [errno.errorcode.get(e, e) for e in w[1]]
    if w[0] == 'props': return 'the properties %s' % (w[1],)
    return str(w)
def final(case, m, r):
    """the file system at the end, against the model"""
    want = {}
    def go(n, p):
        for k, v in n.ent.items():
            x = p + '/' + k
            if v.t == 'd': want[x] = ('dir', v.mode); go(v, x)
            elif v.t == 'f': want[x] = ('file', v)
            elif v.t == 'l': want[x] = ('other',)
    go(m.fs.root, '')
    got = {}
    for l in r.lines:
        if l.startswith('D dir ') or l.startswith('D file ') or l.startswith('D other '):
            w = l.split(' '); got[unq(w[2]).decode('latin-1')] = w
    want = {k: v for k, v in want.items() if len(k) < 900}
    got = {k: v for k, v in got.items() if len(k) < 900}
    for k in sorted(set(want) | set(got)):
        if k not in got: raise Viol('fs-differs', 'at the end %s is missing' % k)
        if k not in want: raise Viol('fs-differs', 'at the end there is an unexpected %s %s' % (got[k][1], k))
        w, g = want[k], got[k]
        if w[0] != g[1]: raise Viol('fs-differs', 'at the end %s is %s, expected %s' % (k, g[1], w[0]))
        if w[0] == 'dir' and int(g[3], 8) != w[1]: raise Viol('fs-differs', 'at the end %s has mode %s, expected %o' % (k, g[3], w[1]))
        if w[0] == 'file':
            d = unq(g[4])
            if w[1].loose is not None and w[1].loose is not False:
                if not w[1].loose.startswith(d): raise Viol('fs-differs', 'the partial copy %s is no prefix of what was copied: %r' % (k, d[:60]))
            elif d != w[1].data: raise Viol('fs-differs', 'at the end %s holds %d bytes %r, expected %d bytes %r' % (k, len(d), d[:60], len(w[1].data), w[1].data[:60]))
_judge = judge
def judge(case, r, probes):
    try: _judge(case, r, probes)
    except Stop2: probes['cut_short'] = 1

# ---------------------------------------------------------------- plan and generator
def plan(case):
    L = ['seed %d' % case['seed'], 'bg 0', 't0 %d' % case.get('t0', 1700000000 * 10**9), 'cwd %s' % q(case.get('cwd', '/w')), 'dir /w 755']
    for x in case.get('tree', []):
        if x[0] == 'dir': L.append('dir %s %o' % (q(x[1]), x[2]))
        elif x[0] == 'file':
            L.append('file %s %o %s' % (q(x[1]), x[2], q(x[3] * x[4])))
            if x[5] is not None: L.append('utime %s %d %d %d' % (q(x[1]), x[5], x[5], x[5]))
            if x[6]: L.append('size %s %d' % (q(x[1]), x[6]))
        elif x[0] == 'lnk': L.append('lnk %s %s' % (q(x[1]), q(x[2])))
    for f in case.get('faults', []): L.append('fault ' + ' '.join(str(x) if i != 1 else q(x) for i, x in enumerate(f)))
    if case.get('disk', -1) >= 0: L.append('disk %d' % case['disk'])
    L += ['std 0 null', 'std 1 pipe', 'std 2 pipe']
    for o in case['ops']: L.append('op ' + o)
    env = dict(case.get('env') or {})
    tz = case.get('tz', 0)
    env['TZ'] = 'UTC' if not tz else 'ABC%s%d:%02d' % ('-' if tz > 0 else '', abs(tz) // 60, abs(tz) % 60)
    return ('driver', ['driver'], '\n'.join(L) + '\n', {'env': env})

NAMES = ['a', 'b', 'c', 'd', 'f', 'g', 'x.pl', 'y.pro', 'z.tar.gz', '.h', 'sp ace', 'q\'', 'user', '[]', 'e.', '\xe9t\xe9', 'z']
def candidate(v):
    L = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'; r = ''
    for _ in range(6): r += L[v % 62]; v //= 62
    return r
class Gen:
    def __init__(self, r): self.r = r
    def ch(self, *a): return self.r.choice(a)
    def p(self, x): return self.r.random() < x
    def comp(self):
        x = self.r.random()
        if x < .80: return self.r.choice(self.pool)
        if x < .86: return self.r.choice(NAMES)
        if x < .91: return '..'
        if x < .94: return '.'
        if x < .96: return ''
        if x < .97 and self.long: return 'n' * self.ch(254, 255, 256, 300)
        return self.ch('$E', '$NOPE', '$D', '$', 'p$E', '$E.pl', '$LONG')
    def name(self):
        x = self.r.random()
        if not self.long and (x >= .95 or .86 < x < .87): x = self.r.random() * .94
        if x < .30 and self.known: return self.known_path()
        if x < .62: s = '/w/' + '/'.join(self.comp() for _ in range(self.ch(1, 1, 1, 2, 2, 3)))
        elif x < .87: s = '/'.join(self.comp() for _ in range(self.ch(1, 1, 1, 2, 2, 3)))
        elif x < .90: s = self.ch('~', '~/a', '~user', '~user/a', '~nobody', '~nobody/x', '~/../..', '~/')
        elif x < .93: s = self.ch('$D/a', '$D', '$D/../b', '${D}', '$E/$E', '$HOME/a', '$LONG', 'a/$LONG/../b', '/w/$V')
        elif x < .95: s = self.ch('/', '//', '/.', '/..', '.', '..', '../..', '../../../..', '', './', '/w', '/w/.', '/tmp', '/dev/null', '/dev/full', 'user', 'user/')
        elif x < .97: s = '/w/' + 'a/../' * self.ch(10, 500, 815, 816, 817, 818, 819, 820, 2000) + self.comp()
        elif x < .985: s = '/' + ('m' * self.ch(100, 250) + '/') * self.ch(10, 16, 17, 40) + 'k' * self.ch(1, 40, 60, 80, 90, 95, 100)
        else: s = self.ch('/', '') + 'L' * self.ch(4080, 4085, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4100, 5000, 9000, 20000)
        if self.p(.06): s += self.ch('/', '//', '/.', '/..')
        return s
    def known_path(self):
        p = self.r.choice(self.known); return p if self.p(.8) else self.ch(p + '/', p.replace('/', '//', 1), p.replace('/w/', '', 1), p + '/.', p + '/' + self.comp())
    def f(self):
        x = self.r.random()
        if x < .98: return A(self.name())
        return self.ch(V(0), V(0), 5, S('f', A('a')), 1.5, [A('a')], [])
    def f2(self):
        x = self.f(); return V(2) if isinstance(x, V) else x
    def out(self, *alts):
        x = self.r.random()
        if x < .88: return V(0)
        if x < .95: return A(self.name())
        return self.ch(7, S('f', A('a')), [], A('a'), *alts)
    def perm(self):
        k = lambda: self.ch(A('read'), A('write'), A('execute'), A('search'))
        x = self.r.random()
        if x < .45: return k()
        if x < .85: return [k() for _ in range(self.r.randrange(0, 4))]
        return self.ch(A('foo'), V(1), [k(), V(1)], [k(), 3], T([k()], V(1)), T([k()], A('b')), [A('read'), A('foo')], 5, S('f', 1), A('[]'))
    def goal(self):
        x = self.r.random(); g = lambda n, *a: S(n, *a)
        if x < .10: return g('make_directory', self.f())
        if x < .15: return g('delete_directory', self.f())
        if x < .20: return g('change_directory', self.f())
        if x < .23: return g('working_directory', self.out())
        if x < .31: return g('directory_files', self.f(), self.ch(V(0), V(0), V(0), V(0), V(0), T([V(0)], V(1)), T([V(0), V(1), V(2)], V(3)), [V(0), V(1)], [], [V(0), V(1), V(2)], T([A('a')], V(0)), A('z'), 4, T([V(0)], A('z'))))
        if x < .41: a = A(self.ch(*self.known)) if self.p(.4) else self.f(); return g('rename_file', A('/dev/null') if isinstance(a, A) and '/full' in a else a, self.f())
        if x < .53: a = A(self.ch(*self.files)) if self.files and self.p(.6) else self.f(); return g('copy_file', A('/dev/null') if isinstance(a, A) and '/full' in a else a, A(self.ch(*self.known)) if self.p(.2) else A('/w/' + self.comp()) if self.p(.5) else self.f())
        if x < .60: return g('delete_file', self.f())
        if x < .64: return g('unlink', self.f())
        if x < .69: return g('file_exists', self.f())
        if x < .75: return g('file_permission', self.f(), self.perm())
        if x < .83:
            k = self.ch('absolute_file_name', 'real_file_name', 'type', 'size', 'size', 'permission', 'last_modification', 'creation', 'last_access')
            a = V(0) if self.p(.7) else self.ch(A('regular'), A('directory'), A('read'), A('execute'), A('search'), A('foo'), 0, 3, S('dt', *[V(i) for i in range(6)]), S('dt', 2023, V(0), V(1), V(2), V(3), A('x')), S('f', 1), [], 1.5)
            return g('file_property', self.f(), S(k, a) if self.p(.97) else self.ch(A('foo'), S('foo', V(0)), 5, S('size', 1, 2)))
        if x < .87: return g('findall', V(0), S('file_property', self.f2(), V(0)), V(1))
        if x < .905:
            t = self.name() if self.p(.1) else self.name()[:3000] + self.ch('XXXXXX', 'XXXXXX', 'XXXXXX', 'XXXXXXX', 'XXXXX', 'XXXXXXa')
            return g('temporary_name', A(t) if self.p(.95) else self.f(), self.out())
        if x < .93: return g('temporary_file', self.ch(A(''), A(''), self.f(), self.f()), self.ch(A(''), A('p'), A('prefix'), A('abcde'), A('abcdef'), A('longer_prefix'), V(0), 3), self.out())
        if x < .95: return g('absolute_file_name', self.f(), self.out())
        if x < .96: return g(self.ch('is_absolute_file_name', 'is_relative_file_name'), self.f())
        if x < .975: return g('decompose_file_name', self.f(), self.ch(V(0), V(0), self.out()), self.ch(V(1), V(1), A('a'), 5), self.ch(V(2), V(2), A('.pl'), V(1), 5))
        if x < .99: return g('prolog_file_name', self.f(), self.out())
        return g('set_prolog_flag', A('os_error'), A(self.ch('error', 'fail', 'warning', 'error')))
    def case(self):
        r = self.r; c = {'seed': r.randrange(1 << 30)}
        self.long = r.random() < .15; self.files = []
        self.pool = r.sample(NAMES[:12], r.choice((2, 3, 4)))
        if r.random() < .15: self.pool.append('user')
        tree = []; self.known = []; dirs = ['/w']
        for _ in range(r.randrange(2, 9)):
            p = r.choice(dirs) + '/' + r.choice(self.pool)
            if any(x[1] == p for x in tree) or any(x[0] == 'lnk' and p.startswith(x[1] + '/') for x in tree): continue
            x = r.random()
            if x < .40: tree.append(['dir', p, r.choice((0o755, 0o755, 0o755, 0o755, 0o555, 0o333, 0o666, 0o700))]); dirs.append(p)
            elif x < .88:
                size = r.choice((0, 1, 5, 100, 100, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000, 70000))
                unit = r.choice(('z', 'hello\n', '\x00\xff', 'abcdefghij'))
                n = -(-size // len(unit))
                vs = r.choice((2**31, 2**31 - 1, 2**32 + 5, 5 * 10**9, 2**40)) if r.random() < .05 else 0
                tree.append(['file', p, r.choice((0o644, 0o644, 0o644, 0o755, 0o444, 0o200, 0o000)), unit, n, r.choice((None, 0, 86399 * 10**9, 951782400 * 10**9, 1709251199 * 10**9, 2147483648 * 10**9, 4102444800 * 10**9, 1700000000 * 10**9)), vs])
                if vs: tree[-1][4] = min(n, 10)
            else: tree.append(['lnk', p, r.choice((r.choice(dirs), r.choice(self.pool), '/w/' + r.choice(self.pool), '../' + r.choice(self.pool), '/dev/null', '.', p))])
            self.known.append(p)
        # no file below a link or a file (set-up order)
        files = {x[1] for x in tree if x[0] != 'dir'}
        tree = [x for x in tree if not any(x[1].startswith(f + '/') for f in files)]
        self.files = [x[1] for x in tree if x[0] == 'file']
        c['tree'] = tree; self.known = [x[1] for x in tree] + ['/w', '/w/' + self.pool[0]]
        if r.random() < .3: c['cwd'] = r.choice(['/w/deep/er', '/', '/home/user'] + [x[1] for x in tree if x[0] == 'dir' and x[2] & 0o100])
        c['env'] = {'D': '/w/' + r.choice(self.pool), 'E': r.choice(self.pool), 'V': '$E'}
        if r.random() < .3: c['env']['LONG'] = 'v' * r.choice((200, 4000, 4095, 4096, 6000))
        if r.random() < .1: c['env']['HOME'] = r.choice(('/w', '/', 'h' * 4096, 'rel'))
        if r.random() < .1: c['env']['TMPDIR'] = r.choice(('/w', '/w/' + self.pool[0], '/nowhere', '/tmp/'))
        c['tz'] = r.choice((0, 0, 60, -300, 330, 765, -720))
        c['ops'] = [enc(self.goal()) for _ in range(r.choice((4, 8, 12, 20)))]
        fl = []
        if r.random() < .6:
            for _ in range(r.choice((1, 1, 2, 3))):
                call = r.choice(('stat', 'access', 'mkdir', 'rmdir', 'unlink', 'rename', 'chdir', 'getcwd', 'realpath', 'opendir', 'dir', 'open', 'read', 'write', 'write', 'read', 'close', 'fstat'))
                e = {'read': ('EIO', 'EIO', 'EINTR'), 'write': ('ENOSPC', 'EIO', 'EINTR', 'EDQUOT'), 'close': ('EIO', 'ENOSPC', 'EDQUOT'), 'open': ('EMFILE', 'ENFILE', 'EACCES', 'EROFS', 'ENOSPC', 'EINTR'), 'getcwd': ('ENOENT', 'EACCES'), 'dir': ('EIO', 'EBADF'),
                     'mkdir': ('ENOSPC', 'EROFS', 'EIO'), 'rename': ('EXDEV', 'EROFS', 'EBUSY', 'ENOSPC', 'EIO')}.get(call, ('EIO', 'EACCES', 'ELOOP', 'ENOMEM', 'EROFS'))
                m = '*' if call in ('dir', 'getcwd', 'fstat') or r.random() < .6 else r.choice(self.known)
                fl.append([call, m, r.choice((1, 1, 1, 2, 3, 4)), r.choice((1, 1, 1, 2, -1)), r.choice(e)])
                if call in ('read', 'write') and r.random() < .3: fl[-1][4:] = ['short', r.choice((1, 100, 1000))]
        c['faults'] = fl
        if r.random() < .03:
            # the first names temporary_* will try already exist (their choice depends only on the clock and the process number)
            t0 = 1700000000; k = r.choice((1, 2, 3, 60)); base = r.choice(('/tmp/p', '/tmp/file', '/w/q'))
            for us in range(0, 60):
                v = ((us << 16) ^ t0 ^ 4242) ^ 0x9e3779b1
                for j in range(k if us in range(8, 24) or k < 4 else 1):
                    p = base + candidate(v + 7777 * j)
                    tree.append(['file', p, 0o644, 'x', 1, None, 0] if r.random() < .8 else ['lnk', p, '/nowhere'])
            c['ops'].insert(0, enc(S('temporary_name', A(base + 'XXXXXX'), V(0)) if base == '/w/q' or r.random() < .5 else S('temporary_file', A(''), A('p' if base == '/tmp/p' else ''), V(0))))
            c['ops'].insert(1, c['ops'][0]); c['env'].pop('TMPDIR', 0)
        if r.random() < .12: c['disk'] = r.choice((100, 5000, 20000, 100000))
        return c

def gen(rng, i): return Gen(rng).case()
def nontrivial(case, rs): return bool(rs[0].faults()) or any(l.startswith(('s mkdir', 's rename', 's unlink', 's rmdir', 's chdir')) and l.endswith('= 0') for l in rs[0].lines)
