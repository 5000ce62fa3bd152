/* C side of the drivers: terms come in and go out in a small prefix syntax of our own, so that
 * neither the reader nor the writer of the system under test takes part in the observation. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <gprolog.h>

extern const char *sim_next_op(void) __attribute__((weak));
extern void sim_log(const char *, long) __attribute__((weak));
extern long long sim_now(void) __attribute__((weak));
extern void sim_clocks(long long, long long, long long, long long) __attribute__((weak));
extern void sim_request_int(void) __attribute__((weak));
extern long long sim_elapsed(void) __attribute__((weak));
extern int sim_ready(int, int, long long *) __attribute__((weak));

extern void sim_junk(void);
static char tmp[1 << 20];
/* the driver's own memory: the failing allocations of a plan are those of the system under test */
static char arena[1 << 26]; static long used;
static void *grab(long n) { void *r = arena + used; used += (n + 15) & ~15L; if (used > (long)sizeof arena) { fprintf(stderr, "driver: arena\n"); exit(96); } return r; }
static int hexv(int c) { return c <= '9' ? c - '0' : c <= 'F' ? c - 'A' + 10 : c - 'a' + 10; }
static const char *p;
static char *word(void)                 /* next token, decoded, in tmp */
{
  char *d = tmp;
  while (*p && *p != ' ') { if (*p == '%') { *d++ = hexv(p[1]) * 16 + hexv(p[2]); p += 3; } else *d++ = *p++; }
  *d = 0; if (*p == ' ') p++;
  return tmp;
}
#define NV 256
static PlTerm vars[NV]; static char seen[NV]; static int nvars;
static PlTerm *env;
static PlTerm parse(void)
{
  char k = *p++;
  switch (k) {
  case 'I': return Pl_Mk_Integer(strtoll(word(), NULL, 10));
  case 'F': return Pl_Mk_Float(strtod(word(), NULL));
  case 'A': return Pl_Mk_Atom(Pl_Create_Allocate_Atom(word()));
  case 'V': { int n = atoi(word()); if (!seen[n]) { seen[n] = 1; vars[n] = Pl_Mk_Variable(); if (n >= nvars) nvars = n + 1; } return vars[n]; }
  case 'G': { int n = atoi(word()); return env[n]; }
  case 'C': { char *w = word(); return Pl_Mk_Codes(w); }
  case 'H': { char *w = word(); return Pl_Mk_Chars(w); }
  case 'S': { PlTerm *a; int ar, i, f; char *s; PlTerm t; word(); s = strrchr(tmp, '/'); *s = 0; ar = atoi(s + 1); f = Pl_Create_Allocate_Atom(tmp);
      a = grab(sizeof(PlTerm) * ar); for (i = 0; i < ar; i++) a[i] = parse(); t = Pl_Mk_Compound(f, ar, a); return t; }
  case 'L': case 'T': { int n = atoi(word()), i; PlTerm *a = grab(sizeof(PlTerm) * (n + 1)), t, c[2];
      for (i = 0; i < n; i++) a[i] = parse(); t = k == 'T' ? parse() : Pl_Mk_Atom(Pl_Create_Atom("[]"));
      while (--n >= 0) { c[0] = a[n]; c[1] = t; t = Pl_Mk_List(c); } return t; }
  }
  fprintf(stderr, "driver: bad plan term at %.40s\n", p - 1); exit(96);
}
/* sim_next(Env, Op, Vars): fails at the end */
PlBool sim_next(PlTerm e, PlTerm op, PlTerm vs)
{
  const char *s = sim_next_op ? sim_next_op() : NULL; int f, ar, i; PlTerm t, v;
  if (!s) return PL_FALSE;
  sim_junk();
  env = Pl_Rd_Compound(e, &f, &ar);
  p = s; nvars = 0; used = 0; memset(seen, 0, sizeof seen);
  t = parse();
  for (i = 0; i < nvars; i++) if (!seen[i]) vars[i] = Pl_Mk_Variable();
  v = Pl_Mk_Proper_List(nvars, vars);
  return Pl_Un_Term(t, op) && Pl_Un_Term(v, vs);
}

static char ob[1 << 26]; static long on;
static void o(const char *s, long n) { if (on + n > (long)sizeof ob) { fprintf(stderr, "driver: output\n"); exit(96); } memcpy(ob + on, s, n); on += n; }
static void oq(const char *s)
{
  static const char hx[] = "0123456789ABCDEF"; char b[3];
  for (; *s; s++) { unsigned char c = *s; if (c > 32 && c < 127 && c != '%') o((char *)&c, 1); else { b[0] = '%'; b[1] = hx[c >> 4]; b[2] = hx[c & 15]; o(b, 3); } }
}
static PlTerm vt[512]; static int nvt;
static int is_cons(PlTerm t) { int f, ar; if (!Pl_Builtin_Compound(t)) return 0; Pl_Rd_Compound(t, &f, &ar); return ar == 2 && f == Pl_Create_Atom("."); }
static void ser(PlTerm t)
{
  char b[64]; int f, ar, i; PlTerm *a;
  if (Pl_Builtin_Integer(t)) o(b, sprintf(b, "I%lld", (long long)Pl_Rd_Integer(t)));
  else if (Pl_Builtin_Atom(t)) { o("A", 1); oq(Pl_Atom_Name(Pl_Rd_Atom(t))); }
  else if (Pl_Builtin_Float(t)) o(b, sprintf(b, "F%.17g", Pl_Rd_Float(t)));
  else if (is_cons(t)) {
    long n = 0; PlTerm x = t;
    while (is_cons(x)) { n++; x = Pl_Rd_Compound(x, &f, &ar)[1]; }
    { int nil = Pl_Builtin_Atom(x) && Pl_Rd_Atom(x) == Pl_Create_Atom("[]");
      o(b, sprintf(b, "%c%ld", nil ? 'L' : 'T', n));
      x = t; while (is_cons(x)) { a = Pl_Rd_Compound(x, &f, &ar); o(" ", 1); ser(a[0]); x = a[1]; }
      if (!nil) { o(" ", 1); ser(x); } }
  }
  else if (Pl_Builtin_Compound(t)) {
    a = Pl_Rd_Compound(t, &f, &ar); o("S", 1); oq(Pl_Atom_Name(f)); o(b, sprintf(b, "/%d", ar));
    for (i = 0; i < ar; i++) { o(" ", 1); ser(a[i]); }
  }
  else {
    for (i = 0; i < nvt; i++) if (Pl_Builtin_Term_Eq(vt[i], t)) break;
    if (i == nvt && nvt < 512) vt[nvt++] = t;
    o(b, sprintf(b, "V%d", i));
  }
}
PlBool sim_logt(PlTerm t)
{
  on = 0; nvt = 0; sim_junk(); ser(t); if (sim_log) sim_log(ob, on); else { fwrite(ob, 1, on, stdout); putchar('\n'); }
  return PL_TRUE;
}
PlBool sim_int(PlTerm t)  { if (sim_request_int) sim_request_int(); return PL_TRUE; }
/* time goes by: elapsed, user and system time and a setting of the calendar clock, in microseconds */
PlBool sim_adv(PlLong t, PlLong ut, PlLong st, PlLong off) { if (sim_clocks) sim_clocks(t * 1000LL, ut * 1000LL, st * 1000LL, off * 1000LL); return PL_TRUE; }
PlBool sim_nowms(PlTerm t) { return Pl_Un_Integer(sim_now ? sim_now() / 1000000 : 0, t); }
/* sim_truth(List): now(Microseconds) and, for each descriptor that could be read or written without waiting, r(Fd, Since), w(Fd, Since) */
PlBool sim_truth(PlTerm t)
{
  PlTerm e[600], a[2]; int n = 0, fd, k; long long since;
  a[0] = Pl_Mk_Integer(sim_elapsed ? sim_elapsed() / 1000 : 0); e[n++] = Pl_Mk_Compound(Pl_Create_Atom("now"), 1, a);
  for (fd = 0; fd < 256 && sim_ready; fd++)
    for (k = 0; k < 2; k++)
      if (sim_ready(fd, k ? 'w' : 'r', &since)) { a[0] = Pl_Mk_Integer(fd); a[1] = Pl_Mk_Integer(since / 1000); e[n++] = Pl_Mk_Compound(Pl_Create_Atom(k ? "w" : "r"), 2, a); }
  return Pl_Un_Proper_List(n, e, t);
}

/* ---- Prolog called from C: the plan holds a script of what the C function does with its queries ----
 * q(Start, R, G, Ok, Bad)  opens a query of G (R: recoverable; Start: 1 = Pl_Query_Start), logs the result, goes on with Ok after a success, else with Bad
 * next(Ok, Bad)   the next solution of the open query       loop(N, L)   while it succeeds, at most N times: L, then the next solution
 * hx  keeps the last exception   end(rec|cut|keep)   w  logs the watched term     hold(T)  makes a term that C keeps       chk  logs those it keeps
 * unif(A, B)  fails if they do not unify    ret(0|1)  prop (throws the ball of the last query or fails if it failed)  throw(B)  err(T) (T shall be an integer)  exec(G) */
typedef struct { int res, nq, nh, rec[40], mark[40], qres[40]; PlTerm ball, held[64], watch; } Fr;
static int isa(PlTerm t, const char *s) { return Pl_Builtin_Atom(t) && !strcmp(Pl_Atom_Name(Pl_Rd_Atom(t)), s); }
static void slog(const char *what, int res, PlTerm *w)
{
  char b[80]; on = 0; nvt = 0;
  sim_junk();
  o(b, sprintf(b, "S%s/%d I%d", what, w ? 2 : 1, res));
  if (w) { o(" ", 1); ser(*w); }
  if (sim_log) sim_log(ob, on); else { fwrite(ob, 1, on, stdout); putchar('\n'); }
}
static void got(Fr *f, int res)
{
  f->res = f->qres[f->nq - 1] = res;
  if (res == PL_EXCEPTION) { f->ball = Pl_Get_Exception(); slog("qx", res, &f->ball); }
  else slog("qr", res, res == PL_SUCCESS ? &f->watch : NULL);
}
static void close_q(Fr *f, int op)
{
  Pl_Query_End(op); f->nq--;
  if (op == PL_RECOVER) f->nh = f->mark[f->nq];
}
static void close_all(Fr *f) { while (f->nq > 0) close_q(f, f->rec[f->nq - 1] ? PL_RECOVER : PL_CUT); }
static int script(Fr *f, PlTerm l)           /* -1: goes on; otherwise what the C function returns */
{
  int fn, ar, r, n; PlTerm *c, *a;
  for (; Pl_Builtin_Compound(l); l = c[1]) {
    PlTerm cmd; const char *k;
    c = Pl_Rd_Compound(l, &fn, &ar); cmd = c[0];
    if (Pl_Builtin_Atom(cmd)) { k = Pl_Atom_Name(Pl_Rd_Atom(cmd)); a = NULL; }
    else { a = Pl_Rd_Compound(cmd, &fn, &ar); k = Pl_Atom_Name(fn); }
    if (f->nq == 0 && (!strcmp(k, "next") || !strcmp(k, "loop") || !strcmp(k, "ok") || !strcmp(k, "end"))) continue;
    if (!strcmp(k, "q")) {
      int rec = Pl_Rd_Integer(a[1]); PlTerm *ga = Pl_Rd_Callable_Check(a[2], &fn, &ar);
      f->rec[f->nq] = rec; f->mark[f->nq] = f->nh;
      if (Pl_Rd_Integer(a[0])) { f->nq++; n = Pl_Query_Start(fn, ar, ga, rec); }
      else {                                        /* the memory taken in between is the query's */
        PlTerm x[3]; int i; Pl_Query_Begin(rec); f->nq++;
        for (i = 0; i < ar && i < 3; i++) x[i] = Pl_Mk_Variable();
        if (ar <= 3) for (i = 0; i < ar; i++) { Pl_Unif(x[i], ga[i]); }
        n = Pl_Query_Call(fn, ar, ar <= 3 ? x : ga);
      }
      got(f, n);
      r = script(f, f->res == PL_SUCCESS ? a[3] : a[4]);
      if (r >= 0) return r;
    } else if (!strcmp(k, "next")) {
      if (f->qres[f->nq - 1] != PL_SUCCESS) continue;
      f->nh = f->mark[f->nq - 1]; got(f, Pl_Query_Next_Solution());
      r = script(f, f->res == PL_SUCCESS ? a[0] : a[1]);
      if (r >= 0) return r;
    } else if (!strcmp(k, "loop")) {
      n = Pl_Rd_Integer(a[0]);
      while (n-- > 0 && f->qres[f->nq - 1] == PL_SUCCESS) {
        if ((r = script(f, a[1])) >= 0) return r;
        f->nh = f->mark[f->nq - 1]; got(f, Pl_Query_Next_Solution());
      }
    } else if (!strcmp(k, "ok")) {
      if ((r = script(f, f->qres[f->nq - 1] == PL_SUCCESS ? a[0] : a[1])) >= 0) return r;
    } else if (!strcmp(k, "end")) close_q(f, isa(a[0], "rec") && f->rec[f->nq - 1] ? PL_RECOVER : isa(a[0], "keep") && f->nq == 1 ? PL_KEEP_FOR_PROLOG : PL_CUT);
    else if (!strcmp(k, "w")) slog("w", f->nq, &f->watch);
    else if (!strcmp(k, "hold")) { PlTerm x[2]; x[0] = a[0]; x[1] = Pl_Mk_Variable(); if (f->nh < 64) f->held[f->nh++] = Pl_Mk_Compound(Pl_Create_Atom("h"), 2, x); }
    else if (!strcmp(k, "hx")) { PlTerm x[2]; x[0] = Pl_Mk_Integer(0); x[1] = f->ball; if (f->res == PL_EXCEPTION && f->nh < 64) f->held[f->nh++] = Pl_Mk_Compound(Pl_Create_Atom("h"), 2, x); }
    else if (!strcmp(k, "chk")) { PlTerm t = Pl_Mk_Proper_List(f->nh, f->held); slog("held", f->nq, &t); }
    else if (!strcmp(k, "unif")) { if (!Pl_Unif(a[0], a[1])) { close_all(f); return 0; } }
    else if (!strcmp(k, "ret")) { close_all(f); return Pl_Rd_Integer(a[0]); }
    else if (!strcmp(k, "prop")) {
      if (f->res == PL_FAILURE) { close_all(f); return 0; }
      if (f->res == PL_EXCEPTION) Pl_Throw(f->ball);
    } else if (!strcmp(k, "throw")) Pl_Throw(a[0]);
    else if (!strcmp(k, "err")) Pl_Rd_Integer_Check(a[0]);
    else if (!strcmp(k, "exec")) { PlTerm *ga; close_all(f); ga = Pl_Rd_Callable_Check(a[0], &fn, &ar); Pl_Exec_Continuation(fn, ar, ga); }
    else { fprintf(stderr, "driver: bad script command %s\n", k); exit(96); }
  }
  return -1;
}
static int run_script(PlTerm l, PlTerm w)
{
  Fr f; int r;
  f.nq = f.nh = 0; f.res = PL_SUCCESS; f.watch = w;
  r = script(&f, l);
  if (r < 0) { close_all(&f); r = 1; }
  return r;
}
PlBool sim_q(PlTerm l, PlTerm w) { return run_script(l, w); }
/* sim_nd(Scripts, Watch, X): one solution per script; the choice buffer holds a sum that must survive */
PlBool sim_nd(PlTerm l, PlTerm w, PlLong *x)
{
  struct { PlLong n, sum, magic; } *s = Pl_Get_Choice_Buffer(void *), *s1;
  int fn, ar, i, k = Pl_Get_Choice_Counter(); PlTerm *c;
  PlTerm rest;
  if (k == 0) { s->n = 0; s->sum = 5; s->magic = 0x5eed; }
  for (i = 0; i < k; i++) { c = Pl_Rd_Compound(l, &fn, &ar); l = c[1]; }
  if (!Pl_Builtin_Compound(l)) { Pl_No_More_Choice(); return PL_FALSE; }
  c = Pl_Rd_Compound(l, &fn, &ar); rest = c[1];
  s->n++; s->sum += 10 * s->n;
  if (Pl_Builtin_Atom(rest)) Pl_No_More_Choice();
  { PlLong n = s->n, sum = s->sum, magic = s->magic; PlTerm t, e[4];
    if (!run_script(c[0], w)) return PL_FALSE;
    s1 = Pl_Get_Choice_Buffer(void *);
    e[0] = Pl_Mk_Integer(Pl_Get_Choice_Counter()); e[1] = Pl_Mk_Integer(s1->n); e[2] = Pl_Mk_Integer(s1->sum); e[3] = Pl_Mk_Integer(s1->magic);
    if (!Pl_Builtin_Atom(rest)) { t = Pl_Mk_Proper_List(4, e); slog("nd", k, &t); }        /* (without its choice point the buffer is gone) */
    else { t = Pl_Mk_Proper_List(1, e); slog("nd", k, &t); }
    *x = n * 1000 + sum + (magic - 0x5eed); }
  return PL_TRUE;
}
/* sim_io(?X, Script, +N, -Y, ?T, +F, -Z, Watch): arguments read and given back around the queries */
PlBool sim_io(PlFIOArg *x, PlTerm l, PlLong n, PlLong *y, PlFIOArg *t, double d, double *z, PlTerm w)
{
  PlLong x0 = x->is_var ? -1 : x->value.l; int tv = t->is_var; PlTerm a[2];
  *y = n + 1; *z = d * 2;
  if (!run_script(l, w)) return PL_FALSE;
  a[0] = Pl_Mk_Integer(x0); a[1] = Pl_Mk_Integer(n);
  if (x->is_var) { x->value.l = n + 2; x->unify = PL_TRUE; } else if (x->value.l != x0) *y = -999;
  if (tv != t->is_var) *y = -998;
  if (t->is_var) { t->value.l = Pl_Mk_Compound(Pl_Create_Atom("io"), 2, a); t->unify = PL_TRUE; }
  return PL_TRUE;
}
