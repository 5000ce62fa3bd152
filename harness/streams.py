"""An executable reference model of the stream system (what the manual and the ISO standard promise),
a generator of histories of stream operations, and the judge that compares a simulated run with the model.
Used by C01 (input), C02 (output), C03 (registry) and C04 (positions)."""
import re
from core import A, S, V, G, C, H, T, NIL, enc, q, unq, Viol

EOF = -1
ERRS = ('error', 'eof_code', 'reset')

# ---------------------------------------------------------------- what the kernel saw
class Kernel:
    """replays the system calls of the trace: contents of files and pipes, open descriptors"""
    def __init__(self, files):
        self.files = {p: bytearray(d.encode('latin-1')) for p, d in files}
        self.fd = {0: ['std0', 0, False], 1: ['std1', 0, False], 2: ['std2', 0, False]}
        self.sink = {'std1': bytearray(), 'std2': bytearray()}
        self.failed = {}                       # fd -> errors of writes
        self.rfail = {}                        # name -> errors of reads in this window
        self.errs = []                         # other failing calls in this window
        self.win_opened = None
        self.got = {}
    def line(self, l):
        w = l.split(' ')
        if l.startswith('s open '):
            nm = unq(w[2]).decode('latin-1')
            if w[-1].isdigit():
                fl = int(w[3], 16)
                if nm not in self.files and not nm.startswith('/dev/'): self.files[nm] = bytearray()
                if fl & 0x200 and nm in self.files: self.files[nm][:] = b''
                self.fd[int(w[-1])] = [nm, 0, bool(fl & 0x400)]; self.failed.pop(int(w[-1]), None); self.win_opened = int(w[-1])
            else: self.errs.append(('open', w[-1]))
        elif l.startswith('s write '):
            fd = int(w[2]); e = self.fd.get(fd)
            if w[-2] != '=' or e is None: return
            if re.fullmatch(r'E[A-Z]+', w[-1]) and len(w) == 6: self.failed.setdefault(fd, []).append(w[-1]); return
            d = unq(w[-1])
            if e[0] in self.files:
                f = self.files[e[0]]; o = len(f) if e[2] else e[1]
                if len(f) < o: f.extend(b'\0' * (o - len(f)))
                f[o:o + len(d)] = d; e[1] = o + len(d)
            else: self.sink.setdefault(e[0], bytearray()).extend(d)
        elif l.startswith('s read '):
            fd = int(w[2]); e = self.fd.get(fd)
            if e is None: return
            if len(w) == 6 and re.fullmatch(r'E[A-Z0-9]+', w[-1]): self.rfail.setdefault(e[0], []).append(w[-1])
            else: self.got[e[0]] = self.got.get(e[0], 0) + len(unq(w[-1])); e[1] += len(unq(w[-1]))
        elif l.startswith('s lseek '):
            fd = int(w[2]); e = self.fd.get(fd)
            if w[-1].startswith('E'): self.errs.append(('lseek', w[-1]))
            elif e is not None: e[1] = int(w[-1])
        elif l.startswith('s close '):
            self.fd.pop(int(w[2]), None)
            if w[-1] != '0': self.errs.append(('close', w[-1]))

# ---------------------------------------------------------------- the model
class Err(Exception):
    def __init__(self, t): self.t = t
def e_type(k, c): return Err(S('type_error', A(k), c))
def e_dom(k, c): return Err(S('domain_error', A(k), c))
def e_ex(k, c): return Err(S('existence_error', A(k), c))
def e_perm(a, b, c): return Err(S('permission_error', A(a), A(b), c))
def e_inst(): return Err(A('instantiation_error'))
SYS = 'system_error'
class Drop(Exception):
    """the rest of the run cannot be predicted (a failure inside an operation left its extent open)"""

class St:
    def __init__(self, n, name, mode, text=True, repos=False, eof='eof_code', buf='block'):
        self.n, self.name, self.mode = n, name, mode
        self.inp = mode == 'read'; self.out = not self.inp
        self.text, self.repos, self.eof, self.buf = text, repos, eof, buf
        self.src = self.sink = None            # key of the source / sink
        self.pos = 0                           # next byte of the source / sink
        self.append = mode == 'append'
        self.pb = []; self.eof_reached = False
        self.cc = self.lc = self.lp = 0; self.nls = []
        self.mirrors = []                      # most recent first
        self.fd = None; self.term = None       # term stream: kind
        self.loose = False                     # after a reported failure, contents and counters are not predicted any more
        self.sys_dirty = self.sticky = self.busy = self.late = False
    def count(self, c):
        if c == EOF: return
        self.cc += 1
        if c == 10: self.lc += 1; self.lp = 0
        else: self.lp += 1

SPECIAL_IN = ('user_input', 'current_input', 'top_level_input', 'debugger_input')
SPECIAL_OUT = ('user_output', 'current_output', 'top_level_output', 'debugger_output')

class Model:
    def __init__(self, case):
        self.case = case
        self.img = {p: bytearray(d.encode('latin-1')) for p, d in case.get('files', [])}   # every byte written, as if at once
        self.k = Kernel(case.get('files', []))
        self.st = {}
        self.stdin = case.get('stdin', '').encode('latin-1')
        for n, nm, mode in ((0, 'user_input', 'read'), (1, 'user_output', 'append'), (2, 'user_error', 'append')):
            mode = 'read' if n == 0 else 'write'
            s = St(n, nm, mode, repos=(n == 0 and not case.get('stdpipe')), eof='reset', buf='line')
            if s.repos: s.buf = 'block'
            s.fd = n; s.src = ('std0',) if n == 0 else None; s.sink = ('std%d' % n) if n else None
            if n: s.append = False
            self.st[n] = s
        self.term_src = {}; self.pipe_img = {'std1': bytearray(), 'std2': bytearray()}
        self.alias = {a: 0 for a in SPECIAL_IN}; self.alias.update({a: 1 for a in SPECIAL_OUT}); self.alias['user_error'] = 2
        self.slot = {}
        self.saved = []                        # positions obtained: (stream object, term)
        self.dec10 = []; self.lost = set()
        self.probes = {}
    def probe(self, p): self.probes[p] = 1
    cin = property(lambda s: s.alias['current_input'])
    cout = property(lambda s: s.alias['current_output'])

    # -- references
    def ref_term(self, ref):
        k = ref[0]
        if k == 'g': return S('$stream', self.slot[ref[1]]) if ref[1] in self.slot else None
        if k == 'a': return A(ref[1])
        if k == 'n': return S('$stream', ref[1])
        if k == 'bad': return S('foo', 1)
    def resolve(self, ref, need=None):
        """need: None | 'input' | 'output'"""
        if ref[0] == 'c':
            return self.st[self.cin if need == 'input' else self.cout], A('current_%s_stream' % need)
        t = self.ref_term(ref)
        if t is None: raise e_inst()
        if ref[0] == 'bad': raise e_dom('stream_or_alias', t)
        n = self.alias.get(ref[1]) if ref[0] == 'a' else t.args[0]
        if n is None or n not in self.st: raise e_ex('stream', t)
        s = self.st[n]
        if need == 'input' and not s.inp: raise e_perm('input', 'stream', t)
        if need == 'output' and not s.out: raise e_perm('output', 'stream', t)
        return s, t
    def chk_type(self, s, t, text, inp):
        if s.text != text: raise e_perm('input' if inp else 'output', 'text_stream' if not text else 'binary_stream', t)

    # -- input
    def raw(self, s):
        """the next byte of the source"""
        if s.src is None or s.sticky: c = EOF
        elif s.src[0] == 'file':
            b = self.img.get(s.src[1], b'')
            if bytes(self.k.files.get(s.src[1], b'')) != bytes(b): raise Drop()      # a writer of this file has not flushed yet
            c = b[s.pos] if s.pos < len(b) else EOF
        elif s.src[0] == 'std0':
            b = self.stdin; c = b[s.pos] if s.pos < len(b) else EOF
        else: b = self.term_src[s.n]; c = b[s.pos] if s.pos < len(b) else EOF
        if c != EOF:
            s.pos += 1
            for m in s.mirrors: self.put1(self.st[m], c); self.probe('mirrored')
        elif s.src and s.src[0] == 'file': s.sticky = True     # C99: an end of file stays until it is cleared
        return c
    def before(self, s, t):
        if s.eof_reached:
            if s.eof == 'error': raise e_perm('input', 'past_end_of_stream', t)
            if s.eof == 'eof_code': return False
            s.eof_reached = s.sticky = False; self.probe('eof_reset')
            if s.repos: self.setpos(s, 0, 0, 0, 0)
        return True
    def getc(self, s, t):
        if not self.before(s, t): return EOF
        c = s.pb.pop() if s.pb else self.raw(s)
        if c == EOF: s.eof_reached = True; self.probe('eof')
        if c == 10: s.nls.append(s.lp); del s.nls[:-8]
        s.count(c)
        return c
    def peekc(self, s, t):
        if not self.before(s, t): return EOF
        if s.pb: return s.pb[-1]
        c = self.raw(s); s.pb.append(c); return c
    def unget(self, s, c):
        s.pb.append(c); del s.pb[:-8]; s.eof_reached = False
        if s.cc: s.cc -= 1
        if c == 10:
            if s.lc: s.lc -= 1
            s.lp = s.nls.pop() if s.nls else 0
        elif s.lp: s.lp -= 1
        self.probe('unget')
    # -- output
    def put1(self, s, c):
        if s.term:
            if c == 0: raise Drop()            # the text of a term stream cannot hold a NUL
            self.term_src[s.n].append(c)
        elif s.sink in self.pipe_img: self.pipe_img[s.sink].append(c)
        elif s.sink is not None:
            b = self.img[s.sink]
            if s.append: s.pos = len(b)
            if len(b) < s.pos: b.extend(b'\0' * (s.pos - len(b)))
            b[s.pos:s.pos + 1] = bytes([c])
        s.pos += 1
        s.busy = True
        for m in s.mirrors:
            if self.st[m].busy: self.probe('mirror_cycle'); continue
            self.put1(self.st[m], c); self.probe('mirrored')
        s.busy = False
        s.count(c)
    # -- position
    def offset(self, s):
        if not s.repos: return 0
        return max(0, s.pos - sum(1 for c in s.pb if c != EOF))
    def position(self, s):
        return S('$stream_position', self.offset(s), s.cc, s.lc if s.text else 0, s.lp if s.text else 0)
    def setpos(self, s, off, cc, lc, lp):
        s.pos = off; s.cc = cc
        if s.text: s.lc, s.lp = lc, lp
        s.eof_reached = s.sticky = False; s.pb = []; s.nls = []
    # -- registry
    def delete(self, s, keep):
        for a in list(self.alias):
            if self.alias[a] == s.n:
                if a in SPECIAL_IN: self.alias[a] = 0
                elif a in SPECIAL_OUT: self.alias[a] = 1
                elif a == 'user_error': self.alias[a] = 2
                else: del self.alias[a]
        if keep: return
        for x in self.st.values():
            if s.n in x.mirrors: x.mirrors.remove(s.n)
        del self.st[s.n]; self.term_src.pop(s.n, None)

    # -- what must be visible in the kernel now
    def check_sink(self, s, what):
        if s.loose or s.sink is None or s.sink in self.lost: return
        for x in self.st.values():             # several writers of one file: the order of their flushes decides
            if x is not s and x.sink == s.sink: return
        kb = self.k.sink.get(s.sink, b'') if s.sink in self.pipe_img else self.k.files.get(s.sink, b'')
        mb = self.pipe_img[s.sink] if s.sink in self.pipe_img else self.img[s.sink]
        if bytes(kb) != bytes(mb):
            raise Viol('lost-output', '%s: %s holds %r, the program wrote %r' % (what, s.sink, bytes(kb)[-80:], bytes(mb)[-80:]))
        self.probe('sink_checked')

# ---------------------------------------------------------------- operations: term and expected effect
def rt(ref):
    k = ref[0]
    return G(ref[1]) if k == 'g' else A(ref[1]) if k == 'a' else S('$stream', ref[1]) if k == 'n' else S('foo', 1)
def call(name, ref, *args):
    return S(name, *(() if ref[0] == 'c' else (rt(ref),)), *args) if (ref[0] != 'c' or args) else A(name)

def optterm(o):
    if o[0] == 'mirror': return S('mirror', rt(o[1]))
    return S(o[0], A(o[1]))
def conj(*gs):
    g = gs[-1]
    for x in reversed(gs[:-1]): g = S(',', x, g)
    return g

IN_CHAR = {'get_char': 0, 'get_code': 0, 'get_byte': 0, 'peek_char': 1, 'peek_code': 1, 'peek_byte': 1}

def op_term(op):
    n = op[0]
    if n == 'open':
        _, slot, path, mode, opts = op
        return conj(S('open', A(path), A(mode), G(slot), [optterm(o) for o in opts]), S('=', V(0), G(slot)))
    if n == 'oterm':                           # open_input_{atom,chars,codes}_stream
        _, kind, slot, data = op
        t = A(data) if kind == 'atom' else H(data) if kind == 'chars' else C(data)
        return conj(S('open_input_%s_stream' % kind, t, G(slot)), S('=', V(0), G(slot)))
    if n == 'oout': return conj(S('open_output_%s_stream' % op[1], G(op[2])), S('=', V(0), G(op[2])))
    if n == 'cterm': return S('close_input_%s_stream' % op[1], rt(op[2]))
    if n == 'cout': return S('close_output_%s_stream' % op[1], rt(op[2]), V(0))
    if n in IN_CHAR:
        a = V(0) if len(op) < 3 or op[2] is None else (A(chr(op[2])) if n.endswith('char') else op[2])
        return call(n, op[1], a)
    if n in ('unget_char', 'put_char'): return call(n, op[1], A(chr(op[2])))
    if n in ('unget_code', 'unget_byte', 'put_code', 'put_byte'): return call(n, op[1], op[2])
    if n == 'write': return call('write', op[1], A(op[2]))
    if n == 'nl': return call('nl', op[1])
    if n == 'tab': return S('tab', op[2])
    if n == 'puts':                            # a run of single puts
        g = A('true')
        return S('format', *(() if op[1][0] == 'c' else (rt(op[1]),)), A('~a~d'), [A(op[2]), op[3]])
    if n == 'flush': return call('flush_output', op[1])
    if n == 'close': return S('close', rt(op[1])) if len(op) < 3 else S('close', rt(op[1]), [S('force', A(op[2]))])
    if n == 'at_eof': return call('at_end_of_stream', op[1])
    if n == 'read': return call('read', op[1], V(0))
    if n in ('get0', 'get', 'skip'): return S(n, V(0) if n != 'skip' else op[2])
    if n == 'bulk':                            # reads k characters (or to the end) one by one
        return S('sim_bulk', rt(op[1]), op[2], A(op[3]), V(0))
    if n in ('set_input', 'set_output'): return S(n, rt(op[1]))
    if n == 'cur': return conj(S('current_input', S('$stream', V(0))), S('current_output', S('$stream', V(1))))
    if n in ('add_stream_alias', 'set_stream_alias'): return S(n, rt(op[1]), A(op[2]))
    if n in ('add_stream_mirror', 'remove_stream_mirror'): return S(n, rt(op[1]), rt(op[2]))
    if n in ('set_stream_type', 'set_stream_eof_action', 'set_stream_buffering'): return S(n, rt(op[1]), A(op[2]))
    if n == 'pos': return S('stream_position', rt(op[1]), V(0))
    if n == 'savepos': return conj(S('stream_position', rt(op[1]), G(op[2])), S('=', V(0), G(op[2])))
    if n == 'setpos': return S('set_stream_position', rt(op[1]), G(op[2]))
    if n == 'setposx': return S('set_stream_position', rt(op[1]), S('$stream_position', *op[2]))
    if n == 'seek': return S('seek', rt(op[1]), A(op[2]), op[3], V(0))
    if n == 'setlc': return S('set_stream_line_column', rt(op[1]), op[2], op[3])
    if n == 'lc': return S('stream_line_column', rt(op[1]), V(0), V(1))
    if n == 'counts': return conj(S('character_count', rt(op[1]), V(0)), S('line_count', rt(op[1]), V(1)), S('line_position', rt(op[1]), V(2)))
    if n == 'streams': return S('findall', V(1), S('current_stream', V(1)), V(0))
    if n == 'aliases': return S('findall', S('-', V(1), V(2)), S('current_alias', V(1), V(2)), V(0))
    if n == 'alias1': return S('findall', V(1), S('current_alias', V(1), A(op[1])), V(0))
    if n == 'mirrors': return S('findall', S('-', V(1), V(2)), S('current_mirror', V(1), V(2)), V(0))
    if n == 'props': return S('findall', S('-', V(1), V(2)), conj(S('member', V(2), [S(p, V(10 + i)) for i, p in enumerate(PROPS)] + [A('input'), A('output')]), S('stream_property', V(1), V(2))), V(0))
    if n == 'eosprop': return conj(S('=', rt(op[1]), V(1)), S('stream_property', V(1), S('end_of_stream', V(0))))
    if n == 'iter_close':                      # enumerate the aliases of a stream and close it at the first solution
        return conj(S('=', rt(op[1]), V(1)), S('findall', V(2), conj(S('stream_property', V(1), S('alias', V(2))), S('catch', S('close', V(1)), V(3), A('true'))), V(0)))
    if n == 'iter_mclose':                     # enumerate the mirrors of a stream and remove each
        return conj(S('=', rt(op[1]), V(1)), S('findall', V(2), conj(S('current_mirror', V(1), V(2)), S('remove_stream_mirror', V(1), V(2))), V(0)))
    if n == 'iter_all':                        # close every stream of ours while enumerating the streams
        return S('findall', V(1), conj(S('current_stream', V(1)), S('\\==', V(1), S('$stream', 0)), S('\\==', V(1), S('$stream', 1)), S('\\==', V(1), S('$stream', 2)),
                                        S('catch', S('close', V(1)), V(2), A('true'))), V(0))
    if n in ('see', 'tell', 'append'): return S(n, rt(op[1]) if isinstance(op[1], list) else A(op[1]))
    if n in ('seen', 'told'): return A(n)
    if n in ('seeing', 'telling'): return S(n, V(0))
    raise ValueError(op)
PROPS = ('file_name', 'mode', 'alias', 'mirror', 'type', 'file_no', 'reposition', 'eof_action', 'buffering')

def chk_chars(n, b):
    return b if n != 'char' else A('end_of_file') if b == EOF else A(chr(b))

READS = ('bulk', 'read', 'at_eof', 'eosprop', 'get0', 'get', 'skip') + tuple(IN_CHAR)
NULCHAR = Err(S('representation_error', A('character')))     # a NUL byte is not a character (get_char/2, get_code/2)

class Judge:
    def __init__(self, case, probes):
        self.m = Model(case); self.case = case; self.probes = probes
    def bad(self, key, op, exp, act): raise Viol(key, 'op %d %s: expected %s, got %s' % (self.i, enc(op_term(op))[:200], exp, act))

    def run(self, r):
        ops = self.case['ops']; per = r.per_op(); m = self.m
        end = r.end(); self.i = -1
        for l in r.lines:
            if l.startswith('O '): break
            m.k.line(l)
        alldone = 'L Aend' in r.lines
        for idx, t, logs, lines in per:
            if idx >= len(ops): break
            self.i = idx; op = ops[idx]
            m.k.rfail = {}; m.k.errs = []; m.k.win_opened = None
            self.fails = []
            pre = {fd: len(x) for fd, x in m.k.failed.items()}
            for l in lines:
                m.k.line(l)
                if l == 'L Aend': break
            self.wfail = [fd for fd, x in m.k.failed.items() if len(x) > pre.get(fd, 0)]
            for s in m.st.values():
                if s.out and s.fd is not None and s.fd in self.wfail: s.sys_dirty = True; s.loose = True; m.lost.add(s.sink); m.probe('write_error')
            if not logs or logs[0] == A('end'):
                raise Viol('no-answer', 'op %d %s: the operation did not complete (%s)' % (idx, enc(op_term(op))[:200], end))
            try: self.op(op, logs[0], lines)
            except Drop: self.finish(r, False); return
        if not alldone or r.status != 0:
            raise Viol('crash' if r.status < 0 or (end or '').startswith('exit') else 'no-answer', 'the run ended early: %s, status %d' % (end, r.status))
        self.finish(r, True)

    def finish(self, r, full):
        m = self.m
        for k, v in m.probes.items(): self.probes[k] = 1
        if not full: return
        # everything the program wrote must be there at the end (a normal exit flushes)
        lines = r.lines; i = max(j for j, l in enumerate(lines) if l == 'L Aend')
        for l in lines[i:]: m.k.line(l)
        n = len(r.per_op())
        for s in m.st.values():
            if s.out and not s.term:
                if m.k.failed.get(s.fd): s.loose = True
        for s in m.st.values():
            if s.out and not s.term: m.check_sink(s, 'after a normal exit')
        open_fds = set(r.fds()); want = {0, 1, 2} | {s.fd for s in m.st.values() if s.fd is not None}
        if open_fds - want: raise Viol('fd-leak', 'descriptors left open although no stream uses them: %s' % {f: r.fds()[f] for f in open_fds - want})

    # one operation
    def op(self, op, act, lines):
        m = self.m; n = op[0]
        if n in READS and any(c == 'lseek' for c, e in m.k.errs): raise Drop()       # the rewind of eof_action(reset) was refused
        kind = 'ok' if isinstance(act, S) and act.name == 'ok' else 'fail' if act == A('fail') else 'ex'
        vals = act.args[0] if kind == 'ok' else None
        err = None
        if kind == 'ex':
            e = act.args[0]; err = e.args[0] if isinstance(e, S) and e.name == 'error' else e
        is_sys = isinstance(err, S) and err.name == SYS
        try:
            res = getattr(self, 'x_' + n if hasattr(self, 'x_' + n) else 'x_generic')(op, kind, vals, err, is_sys, lines)
        except Err as e:
            if kind != 'ex' or err != e.t: self.bad('wrong-result', op, 'exception %r' % (e.t,), act)
            m.probe('exception')
            return
        if res is None: return
        if res == 'fail':
            if kind != 'fail': self.bad('wrong-result', op, 'failure', act)
            return
        if kind != 'ok': self.bad('wrong-result', op, 'success %r' % (res,), act)
        for i, x in enumerate(res):
            if x is None: continue
            if vals[i] != x: self.bad('wrong-data', op, '%r' % (x,), '%r' % (vals[i],))

    def src_failed(self, s):
        """did the system refuse a read of the stream's source during this operation?"""
        nm = s.src[1] if s.src and s.src[0] == 'file' else 'std0' if s.src and s.src[0] == 'std0' else None
        e = m_err(self.m.k.rfail.get(nm))
        if e and e != 'EINTR' and nm == 'std0': raise Drop()   # an unreadable standard input counts as its end
        return e
    # ---- input of one character
    def x_generic(self, op, kind, vals, err, is_sys, lines): raise ValueError(op)
    def _in(self, op, kind, vals, err, is_sys, lines):
        m = self.m; n, ref = op[0], op[1]; what = n.split('_')[1]
        s, t = m.resolve(ref, 'input'); m.chk_type(s, t, what != 'byte', True)
        given = op[2] if len(op) > 2 else None
        if given is not None and what != 'char' and not (-1 <= given <= 255):
            raise Err(S('representation_error', A('in_character_code'))) if what == 'code' else e_type('in_byte', given)
        f = self.src_failed(s)
        if f and kind == 'ex' and is_sys:      # nothing consumed
            m.probe('read_error_raised')
            if s.eof_reached: m.before(s, t)
            return None
        if f and f != 'EINTR': self.bad('read-error-hidden', op, 'a system_error exception (read failed with %s)' % f, [kind, vals])
        c = m.peekc(s, t) if n[0] == 'p' else m.getc(s, t)
        if c == 0 and what != 'byte': raise NULCHAR
        x = chk_chars(what, c)
        if given is not None:
            g = A(chr(given)) if what == 'char' else given
            return [] if g == x else 'fail'
        return [x]
    x_get_char = x_get_code = x_get_byte = x_peek_char = x_peek_code = x_peek_byte = _in
    def _unget(self, op, *_):
        m = self.m; n, ref, c = op; what = n.split('_')[1]
        s, t = m.resolve(ref, 'input'); m.chk_type(s, t, what != 'byte', True)
        if what == 'char' and c == EOF: raise e_type('character', A('end_of_file'))
        m.unget(s, c); return []
    x_unget_char = x_unget_code = x_unget_byte = _unget
    def x_at_eof(self, op, kind, vals, err, is_sys, lines):
        m = self.m; s, t = m.resolve(op[1], 'input')
        if s.eof == 'reset': return 'fail'
        if s.eof_reached: return []
        f = self.src_failed(s)
        if f and kind == 'ex' and is_sys: return None
        if f and f != 'EINTR': self.bad('read-error-hidden', op, 'a system_error exception (read failed with %s)' % f, kind)
        c = m.peekc(s, t)
        return [] if c == EOF else 'fail'
    def x_eosprop(self, op, kind, vals, err, is_sys, lines):
        m = self.m
        if m.ref_term(op[1]) is None: raise Drop()
        n = m.ref_term(op[1]).args[0]
        if n not in m.st: return 'fail'
        s, t = m.resolve(op[1])
        if s.eof == 'reset' or s.out: return [A('not')]
        if s.eof_reached: return [A('past')]
        f = self.src_failed(s)
        if f and kind == 'ex' and is_sys: return None
        if f and f != 'EINTR': self.bad('read-error-hidden', op, 'a system_error exception (read failed with %s)' % f, kind)
        return [A('at' if m.peekc(s, t) == EOF else 'not')]
    def _dec_get(self, op, kind, vals, err, is_sys, lines):
        m = self.m; n = op[0]; s, t = m.resolve(['c'], 'input')
        m.chk_type(s, t, True, True)
        while 1:
            c = m.getc(s, t)
            if self.src_failed(s): raise Drop()
            if c == 0: raise NULCHAR
            if n == 'get0' or c == EOF: break
            if n == 'get' and c > 32: break
            if n == 'skip' and c == op[2]: break
        return [c] if n != 'skip' else []
    x_get0 = x_get = x_skip = _dec_get
    def x_bulk(self, op, kind, vals, err, is_sys, lines):
        m = self.m; s, t = m.resolve(op[1], 'input')
        out = []
        f = self.src_failed(s)
        for _ in range(op[2]):
            m.chk_type(s, t, op[3] == 'code', True)
            if f and kind == 'ex' and is_sys:
                # stops at the failing read: everything delivered before was consumed by the loop, the rest stays
                raise Drop()
            c = m.getc(s, t); out.append(c)
            if c == 0 and op[3] == 'code': raise NULCHAR
            if c == EOF: break
        if f and f != 'EINTR': self.bad('read-error-hidden', op, 'a system_error exception (read failed with %s)' % f, kind)
        return [out]
    # ---- read/1,2: only applied to sources made of known clauses; the model takes the text apart itself
    def x_read(self, op, kind, vals, err, is_sys, lines):
        m = self.m; s, t = m.resolve(op[1], 'input'); m.chk_type(s, t, True, True)
        if self.src_failed(s): raise Drop()
        buf = bytearray(); self.eofseen = False
        if s.eof_reached and s.eof == 'error': m.before(s, t)
        while 1:                               # layout before the term
            c = m.peekc(s, t)
            if c == EOF: break
            if c in b' \n\t': m.getc(s, t)
            else: break
        if c == EOF: m.getc(s, t); return [A('end_of_file')]
        while 1:
            c = m.getc(s, t)
            if c == EOF: raise Drop()
            if c == 46 and m.peekc(s, t) in (10, 32, EOF): break
            buf.append(c)
        w = bytes(buf).decode('latin-1'); k = re.fullmatch(r't\((\d+)\)', w)
        if not k: raise Drop()
        m.probe('read_term')
        return [S('t', int(k.group(1)))]
    # ---- output
    def _outdone(self, op, s, kind, err, is_sys):
        """after an output: mirrors included, failures may be raised now or later"""
        m = self.m
        for x in self.reach(s):
            if x.fd is not None and x.fd in self.wfail: x.sys_dirty = True; x.loose = True; m.probe('write_error')
        if kind == 'ex':
            if is_sys and (self.wfail or any(x.sys_dirty for x in self.reach(s))):
                for x in self.reach(s): x.loose = True
                s.sys_dirty = False; return None
        self.visible(s)
        return []
    def reach(self, s):
        seen = []; todo = [s]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.append(x); todo += [self.m.st[n] for n in x.mirrors]
        return seen
    def visible(self, s):
        m = self.m
        for x in self.reach(s):
            if x.term or x.loose or x.sink is None: continue
            if x.buf == 'none': m.check_sink(x, 'op %d: after output on an unbuffered stream' % self.i)
            elif x.buf == 'line' and x.lp == 0 and x.lc and x.text and not x.late: m.check_sink(x, 'op %d: after a newline on a line-buffered stream' % self.i)
    def _put(self, op, kind, vals, err, is_sys, lines):
        m = self.m; n, ref = op[0], op[1]
        s, t = m.resolve(ref, 'output'); m.chk_type(s, t, n != 'put_byte', False)
        if n in ('put_char', 'put_code', 'put_byte'): d = bytes([op[2]])
        elif n == 'nl': d = b'\n'
        elif n == 'tab': d = b' ' * op[2]
        elif n == 'puts': d = (op[2] + '%d' % op[3]).encode('latin-1')
        else: d = op[2].encode('latin-1')
        for c in d: m.put1(s, c)
        return self._outdone(op, s, kind, err, is_sys)
    x_put_char = x_put_code = x_put_byte = x_nl = x_tab = x_write = x_puts = _put
    def x_flush(self, op, kind, vals, err, is_sys, lines):
        m = self.m; s, t = m.resolve(op[1], 'output')
        if s.fd is not None and s.fd in self.wfail: s.sys_dirty = True; s.loose = True; m.probe('write_error')
        if s.sys_dirty:
            if kind == 'ex' and is_sys: s.sys_dirty = False; m.probe('write_error_raised'); return None
            self.bad('write-error-hidden', op, 'a system_error exception (a write failed with %s)' % m.k.failed.get(s.fd), kind)
        m.check_sink(s, 'op %d: flush_output succeeded' % self.i) if kind == 'ok' else None
        return []
    def x_close(self, op, kind, vals, err, is_sys, lines):
        m = self.m; s, t = m.resolve(op[1]); force = len(op) > 2 and op[2] == 'true'
        if s.term:
            if kind == 'ex' and is_sys: return None
            self.bad('wrong-result', op, 'system_error (needs its own close predicate)', kind)
        if s.out and s.fd in self.wfail: s.sys_dirty = True; s.loose = True; m.probe('write_error')
        cerr = [e for c, e in m.k.errs if c == 'close']
        if cerr and s.out: m.probe('close_error')
        if (s.sys_dirty or (cerr and s.out)) and not force:
            if not (kind == 'ex' and is_sys): self.bad('write-error-hidden', op, 'a system_error exception (%s)' % (m.k.failed.get(s.fd) or cerr), kind)
            s.sys_dirty = False; m.probe('write_error_raised')
            if s.n > 2 and s.fd not in m.k.fd: m.delete(s, False)      # the descriptor is gone, so must the stream be
            return None
        if cerr and kind == 'ex' and is_sys and not force:
            if s.n > 2 and s.fd not in m.k.fd: m.delete(s, False)
            return None
        if s.out and kind == 'ok' and not s.sys_dirty: m.check_sink(s, 'op %d: close succeeded' % self.i)
        if s.n > 2 and s.fd in m.k.fd and kind == 'ok': self.bad('fd-leak', op, 'descriptor %d closed' % s.fd, 'still open')
        m.delete(s, s.n <= 2)
        return []
    # ---- opening
    def x_open(self, op, kind, vals, err, is_sys, lines):
        m = self.m; _, slot, path, mode, opts = op
        o = {}; als = []; mirs = []
        for x in opts:
            if x[0] == 'alias':
                if x[1] in m.alias: raise e_perm('open', 'source_sink', S('alias', A(x[1])))
                als.append(x[1])
            elif x[0] == 'mirror':
                s, t = m.resolve(x[1], 'output'); mirs.append(s.n)
            elif x[0] == 'type' and x[1] not in ('text', 'binary') or x[0] == 'buffering' and x[1] not in ('none', 'line', 'block') or x[0] == 'eof_action' and x[1] not in ERRS or x[0] == 'reposition' and x[1] not in ('true', 'false'):
                raise e_dom('stream_option', S(x[0], A(x[1])))
            else: o[x[0]] = x[1]
        if mode not in ('read', 'write', 'append'): raise e_dom('io_mode', A(mode))
        oe = [e for c, e in m.k.errs if c == 'open']
        if oe: raise e_ex('source_sink', A(path)) if oe[0] in ('ENOENT', 'ENOTDIR') else e_perm('open', 'source_sink', A(path))
        fd = m.k.win_opened
        if kind == 'ex' and is_sys and not fd: return None
        tty = path.startswith('/dev/tty'); lerr = [e for c, e in m.k.errs if c == 'lseek']
        can = not tty and not lerr
        if lerr and (mode == 'append' or any(x.sink == path for x in m.st.values())): raise Drop()
        if o.get('reposition') == 'true' and not can:
            if mode != 'read' and path in m.img and mode == 'write': m.img[path][:] = b''
            m.probe('open_refused_late')
            raise e_perm('open', 'source_sink', S('reposition', A('true')))
        if kind != 'ok': self.bad('wrong-result', op, 'success', err if kind == 'ex' else kind)
        if fd is None or fd not in m.k.fd: self.bad('wrong-result', op, 'an open descriptor', 'none')
        h = vals[0]
        if not (isinstance(h, S) and h.name == '$stream' and isinstance(h.args[0], int)) or h.args[0] in m.st: self.bad('wrong-result', op, 'a new stream', h)
        s = St(h.args[0], path, mode, text=o.get('type', 'text') == 'text', repos=can if 'reposition' not in o else o['reposition'] == 'true',
               eof=o.get('eof_action', 'reset' if tty else 'eof_code'), buf=o.get('buffering', 'block' if can else 'line'))
        s.fd = fd; m.slot[slot] = s.n; m.st[s.n] = s
        if tty: s.src = None; s.sink = None; s.loose = True
        elif s.inp: s.src = ('file', path)
        else:
            s.sink = path
            if path not in m.img or mode == 'write': m.img[path] = bytearray()
            s.pos = len(m.img[path]) if mode == 'append' else 0
            if mode == 'write' and not any(x.sink == path and x is not s for x in m.st.values()): m.lost.discard(path)
            if path in m.lost: s.loose = True
            for x in m.st.values():
                if x is not s and x.sink == path: x.loose = s.loose = True; m.lost.add(path)
        for a in als: m.alias.setdefault(a, s.n)
        for x in mirs:
            if x != s.n and x not in s.mirrors: s.mirrors.insert(0, x)
        return []
    def x_oterm(self, op, kind, vals, err, is_sys, lines):
        m = self.m; _, k, slot, data = op
        if kind != 'ok': self.bad('wrong-result', op, 'success', err)
        h = vals[0]
        if h.args[0] in m.st: self.bad('wrong-result', op, 'a new stream', h)
        s = St(h.args[0], 'constant term stream', 'read', buf='none'); s.term = k; s.src = ('term',); m.term_src[s.n] = bytearray(data.encode('latin-1'))
        m.st[s.n] = s; m.slot[slot] = s.n; m.probe('term_stream'); return []
    def x_oout(self, op, kind, vals, err, is_sys, lines):
        m = self.m; _, k, slot = op
        if kind != 'ok': self.bad('wrong-result', op, 'success', err)
        h = vals[0]
        if h.args[0] in m.st: self.bad('wrong-result', op, 'a new stream', h)
        s = St(h.args[0], 'constant term stream', 'write', buf='none'); s.term = k; m.term_src[s.n] = bytearray()
        m.st[s.n] = s; m.slot[slot] = s.n; m.probe('term_stream'); return []
    def x_cterm(self, op, *_):
        m = self.m; s, t = m.resolve(op[2])
        if not s.term: raise e_dom('term_stream_or_alias', t)
        if s.out: raise e_perm('close', 'stream', t)
        m.delete(s, False); return []
    def x_cout(self, op, *_):
        m = self.m; s, t = m.resolve(op[2])
        if not s.term: raise e_dom('term_stream_or_alias', t)
        if s.inp: raise e_perm('close', 'stream', t)
        d = m.term_src[s.n]; k = op[1]
        x = A(d.decode('latin-1')) if k == 'atom' and d else A('') if k == 'atom' else [A(chr(c)) for c in d] if k == 'chars' else list(d)
        m.delete(s, False); return [x]
    # ---- registry
    def x_set_input(self, op, *_):
        m = self.m; s, t = m.resolve(op[1], 'input'); m.alias['current_input'] = s.n; return []
    def x_set_output(self, op, *_):
        m = self.m; s, t = m.resolve(op[1], 'output'); m.alias['current_output'] = s.n; return []
    def x_cur(self, op, *_): return [self.m.cin, self.m.cout]
    def x_add_stream_alias(self, op, *_):
        m = self.m; s, t = m.resolve(op[1]); a = op[2]
        if a in m.alias and m.alias[a] != s.n: raise e_perm('add_alias', 'source_sink', S('alias', A(a)))
        m.alias[a] = s.n; return []
    def x_set_stream_alias(self, op, *_):
        m = self.m; s, t = m.resolve(op[1]); m.alias[op[2]] = s.n; return []
    def x_add_stream_mirror(self, op, *_):
        m = self.m; s, t = m.resolve(op[1]); x, t2 = m.resolve(op[2], 'output')
        if x.n != s.n and x.n not in s.mirrors: s.mirrors.insert(0, x.n)
        return []
    def x_remove_stream_mirror(self, op, *_):
        m = self.m; s, t = m.resolve(op[1]); x, t2 = m.resolve(op[2])
        if x.n not in s.mirrors: return 'fail'
        s.mirrors.remove(x.n); return []
    def x_set_stream_type(self, op, *_):
        m = self.m; s, t = m.resolve(op[1]) if op[2] in ('text', 'binary') else (None, None)
        if s is None: raise e_dom('stream_type', A(op[2]))
        if s.text == (op[2] == 'text'): return []
        if s.cc: raise e_perm('modify', 'stream', t)
        s.text = op[2] == 'text'; return []
    def x_set_stream_eof_action(self, op, *_):
        m = self.m
        if op[2] not in ERRS: raise e_dom('eof_action', A(op[2]))
        s, t = m.resolve(op[1])
        if s.out: raise e_perm('modify', 'stream', t)
        s.eof = op[2]; return []
    def x_set_stream_buffering(self, op, kind, vals, err, is_sys, lines):
        m = self.m
        if op[2] not in ('none', 'line', 'block'): raise e_dom('buffering_mode', A(op[2]))
        s, t = m.resolve(op[1])
        if s.out and s.fd is not None and s.fd in self.wfail: s.sys_dirty = True; s.loose = True
        if s.inp:
            if any(c == 'lseek' for c, e in m.k.errs): raise Drop()
            s.sticky = False                   # the buffer is synchronised with the file, which forgets its end
        if s.out and s.cc: s.late = True       # the C library may apply it from the next flush on
        s.buf = 'none' if s.term else op[2]; return []
    def x_streams(self, op, kind, vals, err, is_sys, lines):
        if kind != 'ok': self.bad('registry', op, 'success', err)
        got = sorted(x.args[0] for x in vals[0]); want = sorted(self.m.st)
        if got != want: self.bad('registry', op, 'streams %s' % want, got)
    def x_aliases(self, op, kind, vals, err, is_sys, lines):
        if kind != 'ok': self.bad('registry', op, 'success', err)
        got = sorted((x.args[1], x.args[0].args[0]) for x in vals[0]); want = sorted((A(a), n) for a, n in self.m.alias.items())
        if got != want: self.bad('registry', op, 'aliases %s' % want, got)
    def x_alias1(self, op, kind, vals, err, is_sys, lines):
        if kind != 'ok': self.bad('registry', op, 'success', err)
        got = [x.args[0] for x in vals[0]]; want = [self.m.alias[op[1]]] if op[1] in self.m.alias else []
        if got != want: self.bad('registry', op, 'alias %s of %s' % (op[1], want), got)
    def x_mirrors(self, op, kind, vals, err, is_sys, lines):
        if kind != 'ok': self.bad('registry', op, 'success', err)
        got = sorted((x.args[0].args[0], x.args[1].args[0]) for x in vals[0]); want = sorted((s.n, x) for s in self.m.st.values() for x in s.mirrors)
        if got != want: self.bad('registry', op, 'mirrors %s' % want, got)
    def x_props(self, op, kind, vals, err, is_sys, lines):
        if kind != 'ok': self.bad('registry', op, 'success', err)
        m = self.m; want = set()
        for s in m.st.values():
            def w(p, *a): want.add((s.n, S(p, *a) if a else A(p)))
            w('file_name', A(s.name)); w('mode', A(s.mode)); w('type', A('text' if s.text else 'binary')); w('reposition', A('true' if s.repos else 'false'))
            w('eof_action', A(s.eof)) if s.inp else None; w('buffering', A(s.buf)); w('input' if s.inp else 'output')
            if s.fd is not None: w('file_no', s.fd)
            for a, n in m.alias.items(): w('alias', A(a)) if n == s.n else None
            for x in s.mirrors: w('mirror', S('$stream', x))
        got = [(x.args[0].args[0], x.args[1]) for x in vals[0]]
        gs = {g for g in got if not (g[1].__class__ is S and g[1].name in ('eof_action', 'mode') and (g[1].name == 'mode' and g[0] in (1, 2) or g[1].name == 'eof_action' and m.st.get(g[0]) and m.st[g[0]].out))}
        want = {g for g in want if not (g[1].__class__ is S and g[1].name == 'mode' and g[0] in (1, 2))}
        if gs != want or len(got) != len(set(got)):
            self.bad('registry', op, 'properties %s' % sorted(map(str, want - gs)), 'properties %s' % sorted(map(str, gs - want)))
    def x_iter_close(self, op, kind, vals, err, is_sys, lines):
        m = self.m
        if m.ref_term(op[1]) is None: raise Drop()
        n = m.ref_term(op[1]).args[0]
        if n not in m.st: return [None, None, None] if kind == 'ok' and vals[0] == [] else self.bad('registry', op, 'no alias', [kind, vals])
        s = m.st[n]
        if kind != 'ok': self.bad('registry', op, 'success', err)
        al = {A(a) for a, n in m.alias.items() if n == s.n}; got = vals[0]
        if not set(got) <= al or len(got) != len(set(got)) or (al and not got): self.bad('registry', op, 'some of the aliases %s' % al, got)
        if self.wfail or s.sys_dirty or [e for c, e in m.k.errs if c == 'close']: raise Drop()      # the error was swallowed by the catch
        if al and not s.term:
            self.x_close(['close', op[1]], 'ok' if s.n <= 2 or s.fd not in m.k.fd else 'ok', [], None, False, lines)
        m.probe('iterated_while_closing')
    def x_iter_mclose(self, op, kind, vals, err, is_sys, lines):
        m = self.m
        if m.ref_term(op[1]) is None: raise Drop()
        n = m.ref_term(op[1]).args[0]
        if n not in m.st: return [None, None, None] if kind == 'ok' and vals[0] == [] else self.bad('registry', op, 'no mirror', [kind, vals])
        s = m.st[n]
        if kind != 'ok': self.bad('registry', op, 'success', err)
        got = [x.args[0] for x in vals[0]]
        if len(got) != len(set(got)) or not set(got) <= set(s.mirrors) or (s.mirrors and not got): self.bad('registry', op, 'some of the mirrors %s' % s.mirrors, got)
        for g in got: s.mirrors.remove(g)
        m.probe('iterated_while_closing')
    def x_iter_all(self, op, kind, vals, err, is_sys, lines):
        m = self.m
        if kind != 'ok': self.bad('registry', op, 'success', err)
        got = [x.args[0] for x in vals[0]]; want = sorted(n for n in m.st if n > 2)
        if sorted(got) != want: self.bad('registry', op, 'streams %s' % want, got)
        if self.wfail or [e for c, e in m.k.errs if c == 'close'] or any(s.sys_dirty for s in m.st.values()): raise Drop()
        for n in want:
            if not m.st[n].term: m.delete(m.st[n], False)
        m.probe('iterated_while_closing')
    # ---- positions
    def x_pos(self, op, kind, vals, err, is_sys, lines):
        m = self.m; s, t = m.resolve(op[1])
        if s.loose or s.fd in self.wfail: s.loose = True; s.sys_dirty = s.sys_dirty or s.fd in self.wfail; return None
        if m.k.errs: raise Drop()
        if s.repos and s.append and False: return None
        return [m.position(s)]
    def x_savepos(self, op, kind, vals, err, is_sys, lines):
        r = self.x_pos(op, kind, vals, err, is_sys, lines)
        s, t = self.m.resolve(op[1])
        if kind == 'ok': self.m.saved.append((op[2], s, vals[0]))
        return r
    def _repos(self, op, kind, is_sys, s):
        """a repositioning the system refused: fails or raises, nothing moved"""
        m = self.m
        if s.out and s.fd in self.wfail: s.sys_dirty = True; s.loose = True
        if s.loose: raise Drop()
        if s.inp and self.src_failed(s): raise Drop()
        le = [e for c, e in m.k.errs if c == 'lseek']
        if le or self.wfail:
            if kind == 'ok' and not self.wfail: return False   # the C library tried again and succeeded
            if kind == 'ok': raise Drop()
            m.probe('seek_refused')
            if kind == 'ex' and not is_sys: self.bad('wrong-result', op, 'failure or a system_error', kind)
            raise Drop()                       # where the C library left the file is not specified
        return False
    def _setpos(self, op, p, kind, is_sys):
        m = self.m; s, t = m.resolve(op[1])
        if not s.repos: raise e_perm('reposition', 'stream', t)
        if p is None: raise e_inst()
        if p[0] < 0: return 'fail'
        if self._repos(op, kind, is_sys, s): return None
        if s.pb: m.probe('reposition_with_pushback')
        if s.eof_reached: m.probe('reposition_at_eof')
        m.setpos(s, *p); m.probe('reposition'); return []
    def x_setpos(self, op, kind, vals, err, is_sys, lines):
        p = [x for x in self.m.saved if x[0] == op[2]]
        return self._setpos(op, p[-1][2].args if p else None, kind, is_sys)
    def x_setposx(self, op, kind, vals, err, is_sys, lines): return self._setpos(op, op[2], kind, is_sys)
    def x_seek(self, op, kind, vals, err, is_sys, lines):
        m = self.m; s, t = m.resolve(op[1]); _, _, wh, off = op
        if not s.repos: raise e_perm('reposition', 'stream', t)
        if s.text: raise e_perm('reposition', 'text_stream', t)
        if wh not in ('bof', 'current', 'eof'): raise e_dom('stream_seek_method', A(wh))
        if self._repos(op, kind, is_sys, s): return None
        if any(c == 'lseek' for c, e in m.k.errs): raise Drop()
        if s.src and bytes(m.k.files[s.src[1]]) != bytes(m.img[s.src[1]]): raise Drop()
        size = len(m.img[s.src[1] if s.src else s.sink])
        n = off if wh == 'bof' else self.m.offset(s) + off if wh == 'current' else size + off
        if n < 0: m.probe('seek_refused'); return 'fail'
        if s.pb: m.probe('reposition_with_pushback')
        if s.eof_reached: m.probe('reposition_at_eof')
        m.setpos(s, n, n, 0, 0); m.probe('seek'); return [n]
    def x_setlc(self, op, kind, vals, err, is_sys, lines):
        m = self.m; s, t = m.resolve(op[1]); _, _, line, col = op
        if not s.repos: raise e_perm('reposition', 'stream', t)
        if not s.text: raise e_perm('reposition', 'binary_stream', t)
        if s.out: raise Drop()
        if line < 1 or col < 1: return 'fail'
        if any(c == 'lseek' for c, e in m.k.errs): raise Drop()
        if self._repos(op, kind, is_sys, s): return None
        b = bytes(m.img[s.src[1]])
        if b != bytes(m.k.files[s.src[1]]): raise Drop()
        ls = b.split(b'\n')
        # a line number is reachable when its first character position exists
        if line > len(ls): return 'fail'
        if col - 1 > len(ls[line - 1]): return 'fail'
        o = sum(len(x) + 1 for x in ls[:line - 1]) + col - 1
        m.setpos(s, o, o, line - 1, col - 1); m.probe('set_line_column'); return []
    def x_lc(self, op, *_):
        m = self.m; s, t = m.resolve(op[1])
        if not s.text: raise e_perm('access', 'binary_stream', t)
        return [s.lc + 1, s.lp + 1] if not s.loose else None
    def x_counts(self, op, *_):
        m = self.m; s, t = m.resolve(op[1])
        if not s.text: raise e_perm('access', 'binary_stream', t)
        return [s.cc, s.lc, s.lp] if not s.loose else None
    # ---- dec10
    def _find10(self, f, mode):
        m = self.m
        if f in ('user', 'user_input') and mode == 'input': return 0
        if f in ('user', 'user_output') and mode == 'output': return 1
        for x in list(m.dec10):
            if x[0] == f and x[2] == mode:
                s = m.st.get(x[1])
                if s and s.name == f and s.inp == (mode == 'input'): return s.n
                m.dec10.remove(x); return None
        return None
    def _see(self, op, kind, vals, err, is_sys, lines):
        m = self.m; n, f = op[0], op[1]; mode = 'input' if n == 'see' else 'output'
        if isinstance(f, list):
            s, t = m.resolve(f, mode)
        else:
            k = self._find10(f, mode)
            if k is None:
                h = None
                if kind == 'ok':               # the new stream is the one that appeared
                    fd = m.k.win_opened
                    if fd is None: self.bad('wrong-result', op, 'the file to be opened', 'no open')
                if any(c == 'lseek' for c, e in m.k.errs): raise Drop()
                oe = [e for c, e in m.k.errs if c == 'open']
                if oe: raise e_ex('source_sink', A(f)) if oe[0] in ('ENOENT', 'ENOTDIR') else e_perm('open', 'source_sink', A(f))
                if kind != 'ok': self.bad('wrong-result', op, 'success', err)
                k = 0
                while k in m.st: k += 1
                s = St(k, f, {'see': 'read', 'tell': 'write', 'append': 'append'}[n], repos=True); s.fd = fd; m.st[k] = s
                if n == 'see': s.src = ('file', f)
                else:
                    s.sink = f
                    if n == 'tell' or f not in m.img: m.img[f] = bytearray()
                    s.pos = len(m.img[f])
                    if f in m.lost: s.loose = True
                    for x in m.st.values():
                        if x is not s and x.sink == f: x.loose = s.loose = True; m.lost.add(f)
                m.dec10.append((f, k, mode)); m.probe('dec10')
            s = m.st[k]
        m.alias['current_input' if mode == 'input' else 'current_output'] = s.n
        return []
    x_see = x_tell = x_append = _see
    def _forget10(self, n):
        self.m.dec10 = [x for x in self.m.dec10 if x[1] != n]
    def x_seen(self, op, *a):
        n = self.m.cin; r = self.x_close(['close', ['n', n]], *a)
        if n not in self.m.st: self._forget10(n)
        return r
    def x_told(self, op, *a):
        n = self.m.cout; r = self.x_close(['close', ['n', n]], *a)
        if n not in self.m.st: self._forget10(n)
        return r
def m_err(x): return next((e for e in x if e != 'EINTR'), x[0]) if x else None

# ---------------------------------------------------------------- plan
def plan_text(case):
    L = ['seed %d' % case['seed'], 'bg %d' % case.get('bg', 0), 'dir /w 755', 'chr /dev/tty 3']
    for p, d in case.get('files', []): L.append('file %s 644 %s' % (q(p), q(d)))
    for c in case.get('chunks', []): L.append('chunk %s %d' % (q(c[0]), c[1]))
    for f in case.get('faults', []): L.append('fault ' + ' '.join(str(x) if i != 1 else q(x) for i, x in enumerate(f)))
    if 'disk' in case: L.append('disk %d' % case['disk'])
    if 'maxfd' in case: L.append('maxfd %d' % case['maxfd'])
    if case.get('stdpipe'):
        L.append('std 0 pipe')
    L.append('std 1 pipe'); L.append('std 2 pipe')
    if case.get('stdpipe'):
        L += ['actor feeder', 'attach 0 stdin']
        for a in case.get('actors', []): L.append('do ' + ' '.join(str(x) if i != 2 else q(x) for i, x in enumerate(a)))
        L.append('do close 0')
    for o in case['ops']: L.append('op ' + enc(op_term(o)))
    return '\n'.join(L) + '\n'
def make_plan(case): return ('driver', ['driver'], plan_text(case))
def normalise(case):
    if case.get('stdpipe'): case['stdin'] = ''.join(a[2] for a in case.get('actors', []) if a[0] == 'w')
    return case
def reduce(case):
    for i, o in enumerate(case['ops']):
        if o[0] == 'open' and o[4]:
            for j in range(len(o[4])):
                c = dict(case); c['ops'] = list(case['ops']); c['ops'][i] = o[:4] + [o[4][:j] + o[4][j + 1:]]; yield c
    for i, f in enumerate(case.get('files', [])):
        if len(f[1]) > 1:
            for d in (f[1][:len(f[1]) // 2], f[1][1:]):
                c = dict(case); c['files'] = list(case['files']); c['files'][i] = [f[0], d]; yield c
    for k in ('chunks',):
        if case.get(k): c = dict(case); c[k] = []; yield c
    if case.get('bg'): c = dict(case); c['bg'] = 0; yield c
def judge(case, r, probes): Judge(case, probes).run(r)

# ---------------------------------------------------------------- histories
def text(rng, n, lines=True):
    al = 'abcdefgh XYZ01.,' + ('\n\n\n' if lines else '')
    r = ''.join(rng.choice(al) for _ in range(n))
    if rng.random() < .3: r = ''.join(chr(rng.randrange(160, 256)) if rng.random() < .1 else c for c in r)
    return r
def binary(rng, n): return ''.join(chr(rng.choice((0, 10, 255, 26, 13, 4, rng.randrange(256)))) for _ in range(n))
def clauses(rng, n): return ''.join('%st(%d).%s' % (rng.choice(('', ' ', '\n', '  ')), rng.randrange(1000), rng.choice('\n ')) for _ in range(n))
def size(rng):
    x = rng.random()
    return 0 if x < .08 else rng.randrange(1, 12) if x < .45 else rng.randrange(10, 90) if x < .9 else rng.choice((4095, 4096, 4097, 8191, 8192, 8193, 9000, 12290))

class Gen:
    def __init__(self, rng, prof):
        self.r = rng; self.p = prof; self.ops = []; self.slots = []; self.nslot = 0; self.aliases = []; self.files = []; self.ng = 100
    def ch(self, *a): return self.r.choice(a)
    def case(self):
        r, p = self.r, self.p
        c = {'seed': r.randrange(1 << 30), 'bg': r.choice((0, 0, 10, 40, 90)), 'files': self.files, 'ops': self.ops, 'faults': [], 'chunks': []}
        nf = r.randrange(1, 4)
        self.kind = {}
        for i in range(nf):
            k = r.choice(('t', 't', 'b', 'c')) if p != 'pos' else r.choice(('t', 'b'))
            n = size(r); d = text(r, n) if k == 't' else binary(r, n) if k == 'b' else clauses(r, n // 6)
            path = '/w/f%d' % i; self.files.append([path, d]); self.kind[path] = k
        if p in ('in', 'reg') and r.random() < .6 or r.random() < .2:
            c['stdpipe'] = 1; k = r.choice('tc'); d = text(r, size(r) % 200) if k == 't' else clauses(r, r.randrange(6)); self.kind['std0'] = k
            st = []; i = 0
            while i < len(d):
                n = r.choice((1, 2, 3, 10, 60)); st.append(['w', 0, d[i:i + n]]); i += n
                if r.random() < .4: st.append(['sleep', r.choice((1000, 1000000, 2000000000))])
            c['actors'] = st; c['stdin'] = d
        if r.random() < .7:
            for f in self.files: c['chunks'].append([f[0], r.choice((1, 2, 3, 7, 100))]) if r.random() < .6 else None
            for f in ('std0', 'std1', '/w/o0', '/w/o1'): c['chunks'].append([f, r.choice((1, 2, 5, 64))]) if r.random() < .4 else None
        self.std = bool(c.get('stdpipe'))
        n = r.choice((6, 12, 25, 25, 40, 60))
        for _ in range(r.randrange(1, 3)): self.open()
        while len(self.ops) < n: self.step()
        self.faults(c)
        return c
    def faults(self, c):
        r, p = self.r, self.p; F = c['faults']
        if p == 'in' and r.random() < .4:
            for _ in range(r.randrange(1, 3)):
                F.append(['read', r.choice([f[0] for f in self.files] + ['std0']), r.randrange(1, 5), 1, r.choice(('EIO', 'EIO', 'EINTR', 'EISDIR'))])
        if p == 'out' and r.random() < .6:
            x = r.random()
            if x < .15: c['disk'] = r.choice((0, 3, 30, 5000))
            else:
                for _ in range(r.randrange(1, 3)):
                    F.append([r.choice(('write', 'write', 'write', 'close')), r.choice(('/w/o0', '/w/o1', 'std1', '/w/o2')), r.randrange(1, 4), r.choice((1, 1, 2)), r.choice(('ENOSPC', 'EIO', 'EPIPE', 'EDQUOT'))])
        if p == 'reg' and r.random() < .6:
            for _ in range(r.randrange(1, 4)):
                k = r.choice(('open', 'open', 'close', 'lseek', 'write'))
                F.append([k, r.choice([f[0] for f in self.files] + ['/w/o0', '/w/o1']), r.randrange(1, 4), 1, r.choice({'open': ('EMFILE', 'EACCES', 'ENOENT', 'ENFILE', 'EISDIR', 'EIO'), 'close': ('EIO', 'ENOSPC'), 'lseek': ('EIO', 'ESPIPE'), 'write': ('ENOSPC', 'EIO')}[k])])
            if r.random() < .3: c['maxfd'] = r.randrange(4, 8)
        if p == 'pos' and r.random() < .4:
            for _ in range(r.randrange(1, 3)):
                F.append(['lseek', r.choice([f[0] for f in self.files] + ['/w/o0', '/w/o1']), r.randrange(1, 8), r.choice((1, 1, 3)), r.choice(('EIO', 'EINVAL', 'ESPIPE'))])
    # -- choices
    def ins(self): return [s for s in self.slots if s['in']]
    def outs(self): return [s for s in self.slots if not s['in']]
    def ref(self, s):
        r = self.r
        if s.get('alias') and r.random() < .3: return ['a', s['alias']]
        return ['g', s['slot']]
    def anyref(self, want=None):
        r = self.r; x = r.random()
        if self.p == 'reg' and x < .12: return r.choice((['n', r.randrange(0, 9)], ['a', r.choice(('nope', 'a0', 'a1', 'user_input', 'user_output', 'current_input', 'current_output', 'user_error'))], ['bad'], ['g', r.randrange(0, self.nslot + 1)]))
        if x < .02: return r.choice((['n', 7], ['a', 'nope'], ['g', r.randrange(0, self.nslot + 1)]))
        l = self.ins() if want == 'in' else self.outs() if want == 'out' else self.slots
        if not l: return ['n', 3]
        return self.ref(r.choice(l))
    def open(self, mode=None):
        r, p = self.r, self.p
        if len(self.slots) > 9: return
        m = mode or r.choice({'in': ('read',) * 5 + ('write',), 'out': ('write', 'write', 'append', 'read'), 'reg': ('read', 'write', 'append'), 'pos': ('read', 'read', 'read', 'write')}[p])
        opts = []; x = {}
        if p == 'reg' and r.random() < .04: path = r.choice(('/w/none/x', '/nope', '/w', '/w/f0/x'))
        elif p == 'reg' and r.random() < .06: path = '/dev/tty'; m = m if m != 'read' else 'write'
        else: path = r.choice([f[0] for f in self.files]) if m == 'read' or (m == 'append' and r.random() < .4) else '/w/o%d' % r.randrange(3 if p == 'reg' else 6)
        k = self.kind.get(path, r.choice('tb'))
        if k == 'b' and r.random() < .9: opts.append(['type', 'binary'])
        if r.random() < .5: opts.append(['buffering', r.choice(('none', 'line', 'block'))])
        if m == 'read' and r.random() < .7: opts.append(['eof_action', r.choice(ERRS)])
        if r.random() < .25: opts.append(['reposition', r.choice(('true', 'false'))])
        al = None
        if r.random() < .35: al = 'a%d' % r.randrange(4); opts.append(['alias', al])
        if r.random() < (.25 if p in ('out', 'reg') else .05) and self.outs(): opts.append(['mirror', self.ref(r.choice(self.outs()))])
        if p == 'reg' and r.random() < .03: opts.append([r.choice(('type', 'buffering', 'eof_action', 'reposition')), 'wrong'])
        r.shuffle(opts)
        self.ops.append(['open', self.nslot, path, m, opts])
        self.slots.append({'slot': self.nslot, 'in': m == 'read', 'path': path, 'bin': ['type', 'binary'] in opts, 'alias': al, 'k': k, 'repos': ['reposition', 'false'] not in opts, 'mode': m})
        self.nslot += 1
    def oterm(self):
        r = self.r; k = r.choice(('atom', 'chars', 'codes'))
        if r.random() < .6:
            d = text(r, size(r) % 300) if r.random() < .7 else clauses(r, 3); self.ops.append(['oterm', k, self.nslot, d])
            self.slots.append({'slot': self.nslot, 'in': True, 'bin': False, 'alias': None, 'k': 't', 'term': k, 'repos': False, 'path': None, 'mode': 'read'})
        else:
            self.ops.append(['oout', k, self.nslot]); self.slots.append({'slot': self.nslot, 'in': False, 'bin': False, 'alias': None, 'k': 't', 'term': k, 'repos': False, 'path': None, 'mode': 'write'})
        self.nslot += 1
    def close(self, s=None):
        r = self.r
        if not self.slots: return
        s = s or r.choice(self.slots)
        if s.get('term'):
            self.ops.append(['cterm' if s['in'] else 'cout', s['term'] if r.random() < .8 else r.choice(('atom', 'chars', 'codes')), self.ref(s)])
        else: self.ops.append(['close', self.ref(s)] + ([r.choice(('true', 'false'))] if r.random() < .25 else []))
        if r.random() < .9: self.slots.remove(s)
    def input(self):
        r = self.r
        if self.std and r.random() < .35: s = {'bin': False, 'k': self.kind['std0']}; ref = r.choice((['a', 'user_input'], ['c'], ['n', 0]))
        else:
            l = self.ins()
            if not l: return self.open('read')
            s = r.choice(l); ref = self.anyref('in') if r.random() < .05 else self.ref(s)
        if r.random() < .03 and ref != ['c']: self.ops.append(['set_input', ref]); return
        b = s['bin']; x = r.random()
        kind = 'byte' if b else r.choice(('char', 'code'))
        if r.random() < .02: kind = r.choice(('char', 'code', 'byte'))
        if ref == ['c'] and (x > .7 or r.random() < .15):
            if r.random() < .4: self.ops.append(r.choice((['get0', ref], ['get', ref], ['skip', ref, r.choice((97, 10, 98, 255, 46))]))); return
            x = r.random() * .7
        if x < .35: self.ops.append(['get_' + kind, ref] + ([r.randrange(97, 104) if kind == 'char' else r.choice((97, 98, -1, 300, 10))] if r.random() < .06 else []))
        elif x < .55: self.ops.append(['peek_' + kind, ref])
        elif x < .70: self.ops.append(['unget_' + kind, ref, r.choice((97, 10, 10, 98, 200, 255 if kind != 'char' else 255))])
        elif x < .76: self.ops.append(['at_eof', ref])
        elif x < .80: self.ops.append(['eosprop', ['g', s['slot']] if 'slot' in s else ['n', 0]])
        elif x < .88: self.ops.append(['bulk', ref, r.choice((3, 10, 50, 5000, 14000)), 'byte' if b else 'code'])
        elif x < .93 and s['k'] == 'c': self.ops.append(['read', ref])
        elif x < .96: self.ops.append(['counts', ref])
        elif x < .98: self.ops.append(['set_stream_eof_action', ref, r.choice(ERRS)])
        else: self.ops.append(['set_stream_buffering', ref, r.choice(('none', 'line', 'block'))])
    def output(self):
        r = self.r
        if r.random() < .12: s = {'bin': False}; ref = r.choice((['a', 'user_output'], ['c'], ['n', 1], ['n', 2]))
        else:
            l = self.outs()
            if not l: return self.open('write')
            s = r.choice(l); ref = self.anyref('out') if r.random() < .05 else self.ref(s)
        b = s['bin']; x = r.random()
        if r.random() < .02: b = not b
        if b:
            if x < .7: self.ops.append(['put_byte', ref, r.choice((0, 10, 255, r.randrange(256)))])
            else: self.ops.append(['flush', ref])
            return
        if x < .2: self.ops.append(['put_char', ref, r.choice((97, 10, 233))])
        elif x < .35: self.ops.append(['put_code', ref, r.choice((98, 10, 255))])
        elif x < .5: self.ops.append(['write', ref, text(r, r.choice((1, 5, 40, 40, 3000, 9000)), r.random() < .7)])
        elif x < .6: self.ops.append(['nl', ref])
        elif x < .65: self.ops.append(['tab', ['c'], r.choice((1, 2, 7))])
        elif x < .75: self.ops.append(['puts', ref, text(r, r.randrange(8)), r.randrange(10000)])
        elif x < .9: self.ops.append(['flush', ref])
        elif ref != ['c']: self.ops.append(['counts', ref])
    def grow(self):
        """another stream appends to a file that is being read (made visible at once by a flush)"""
        l = [s for s in self.ins() if s['path'] and s['path'].startswith('/w/f')]
        if not l: return
        p = self.r.choice(l)['path']
        w = [s for s in self.outs() if s['path'] == p and s['mode'] == 'append' and not s['bin']]
        if not w:
            self.ops.append(['open', self.nslot, p, 'append', []])
            self.slots.append({'slot': self.nslot, 'in': False, 'path': p, 'bin': False, 'alias': None, 'k': 't', 'repos': True, 'mode': 'append'}); self.nslot += 1; w = [self.slots[-1]]
        self.ops.append(['write', ['g', w[0]['slot']], text(self.r, self.r.randrange(1, 9))]); self.ops.append(['flush', ['g', w[0]['slot']]])
    def position(self):
        r = self.r; l = [s for s in self.slots if not s.get('term')]
        if not l: return self.open()
        s = r.choice(l); ref = self.ref(s); x = r.random()
        if x < .15: self.ops.append(['pos', ref])
        elif x < .30: self.ops.append(['savepos', ref, self.ng]); s.setdefault('saved', []).append(self.ng); self.ng = self.ng + 1 if self.ng < 190 else 190
        elif x < .55 and s.get('saved') and s['mode'] != 'append': self.ops.append(['setpos', ref, r.choice(s['saved'])])
        elif x < .75 and s['mode'] != 'append':
            if s['bin'] or r.random() < .1: self.ops.append(['seek', ref, r.choice(('bof', 'bof', 'current', 'current', 'eof')), r.choice((0, 0, 1, 2, 5, -1, -2, -3, 30, -30))])
            elif s['in']: self.ops.append(['setlc', ref, r.choice((1, 1, 2, 3, 5, 40)), r.choice((1, 1, 2, 4, 9, 60))])
        elif x < .82 and s['mode'] != 'append': self.ops.append(['setposx', ref, [r.choice((0, 0, 1, 3)), 0, 0, 0]])
        elif not s['bin']: self.ops.append(r.choice((['counts', ref], ['lc', ref])))
        else: self.ops.append(['pos', ref])
    def registry(self):
        r = self.r; x = r.random(); any_ = self.anyref
        if x < .18: self.ops.append([r.choice(('streams', 'aliases', 'mirrors', 'props', 'cur', 'cur'))])
        elif x < .30: self.ops.append([r.choice(('add_stream_alias', 'set_stream_alias')), any_(), r.choice(('a0', 'a1', 'a2', 'a3', 'b0', 'user_input' if self.ins() and r.random() < .3 else 'b1'))])
        elif x < .42: self.mirror()
        elif x < .48: self.ops.append(['remove_stream_mirror', any_(), any_('out')])
        elif x < .55: self.ops.append(['set_input', any_('in')])
        elif x < .60: self.ops.append(['set_output', any_('out')])
        elif x < .65: self.ops.append(['set_stream_type', any_(), r.choice(('text', 'binary', 'text', 'binary', 'bad'))])
        elif x < .69: self.ops.append(['set_stream_eof_action', any_(), r.choice(ERRS + ('bad',))])
        elif x < .74: self.ops.append(['set_stream_buffering', any_(), r.choice(('none', 'line', 'block', 'bad'))])
        elif x < .78: self.ops.append(['alias1', r.choice(('a0', 'a1', 'a2', 'current_input', 'user_output'))])
        elif x < .82: self.ops.append([r.choice(('iter_close', 'iter_mclose')), ['g', r.choice(self.slots)['slot']] if self.slots else ['n', 1]] if r.random() < .85 else ['iter_all'])
        elif x < .90:
            n = r.choice(('see', 'tell', 'append', 'seen', 'told'))
            if n in ('seen', 'told'): self.ops.append([n])
            elif n == 'see': self.ops.append([n, r.choice([f[0] for f in self.files])])
            else: self.ops.append([n, '/w/d%d' % r.randrange(2)])
        elif x < .95: self.open()
        else: self.close()
    def mirror(self):
        """a mirror always has a larger slot than the stream it mirrors or is a standard stream: no cycles"""
        r = self.r; o = sorted(self.outs(), key=lambda s: s['slot'])
        if not o: return self.open('write')
        m = r.choice(o); l = [s for s in self.slots if s['in'] or s['slot'] > m['slot']]
        if l and r.random() < .9: self.ops.append(['add_stream_mirror', ['g', r.choice(l)['slot']], ['g', m['slot']]])
        elif r.random() < .7: self.ops.append(['add_stream_mirror', r.choice((['n', 1], ['a', 'user_output'])), ['g', m['slot']]])
    W = {'in': (('input', 80), ('open', 5), ('oterm', 4), ('close', 3), ('grow', 3), ('mirror', 2), ('output', 3)),
         'out': (('output', 75), ('open', 6), ('oterm', 3), ('close', 6), ('mirror', 6), ('input', 4), ('position', 3)),
         'reg': (('registry', 50), ('open', 14), ('oterm', 4), ('close', 12), ('input', 8), ('output', 12)),
         'pos': (('position', 40), ('input', 35), ('output', 15), ('open', 4), ('close', 2), ('oterm', 1))}
    def step(self):
        w = self.W[self.p]; x = self.r.randrange(sum(b for _, b in w))
        for n, b in w:
            if x < b: return getattr(self, n)()
            x -= b
def gen(rng, prof): return Gen(rng, prof).case()
