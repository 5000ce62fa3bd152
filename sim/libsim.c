/*
 * libsim: a simulated operating system in one process (LD_PRELOAD).
 *
 * Every call by which GNU Prolog meets the operating system -- files, pipes,
 * terminals, sockets, child processes, clocks, signals, memory allocation --
 * is answered here from an in-memory model.  The plan (one text file) holds the
 * initial world, the scripts of the other parties (children, network peers, the
 * user at the terminal), the faults to inject and the seed of the scheduler.
 * Every call, fault and event goes to the trace.  Neither the trace nor the
 * model reads a real clock, the real file system, or any real randomness.
 */
#define _GNU_SOURCE
#undef _FORTIFY_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <malloc.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <dlfcn.h>
#include <signal.h>
#include <termios.h>
#include <pwd.h>
#include <netdb.h>
#include <poll.h>
#include <time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <sys/utsname.h>
#include <sys/prctl.h>
#include <linux/futex.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <limits.h>
#include <ctype.h>
#include <setjmp.h>
#include <ucontext.h>
#include <spawn.h>

#define EXPORT __attribute__((visibility("default")))
typedef unsigned char u8; typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;

/* ------------------------------------------------------------------ state */
#define MAXFD 256
#define MAXPROC 96
#define MAXNODE 4096
#define MAXFAULT 128
#define MAXCHUNK 64
#define MAXPROG 128
#define MAXOP 100000
#define MAXLISTEN 32

typedef struct Chan {
  u8 *buf; long head, tail, cap;       /* bytes [head,tail) */
  struct { long len; i64 at; } *seg; long shead, stail, scap;
  long limit;                          /* capacity for writers */
  int readers, writers;                /* open ends */
  int msg;                             /* terminal: a read stops at a segment; empty segment = EOF */
  int rst;                             /* connection reset */
  i64 eof_at;                          /* when the close of the writer arrives */
  i64 delay_max;                       /* random delay per segment */
  i64 rdat;                            /* when something was last read */
  char name[64];
  u64 rng;
  struct Chan *next;
} Chan;

enum { N_FILE = 1, N_DIR, N_LNK, N_SOCK, N_CHR };
typedef struct Node {
  int type, mode, nlink, ino;
  u8 *data; long size, cap;
  i64 atime, mtime, ctime;
  struct { char *name; struct Node *node; } *ent; int nent, centcap;
  struct Node *parent;
  int dev;                             /* N_CHR: 1 null 2 full 3 tty 4 zero */
  long vsize;                          /* the size stat reports (0: the real one) */
} Node;

enum { O_NONE, O_FILE, O_PIPER, O_PIPEW, O_SOCK, O_TTY, O_NULL, O_FULL, O_DIRF, O_ZERO };
typedef struct Ofd {
  int type, ref, flags;
  Node *node; long off;
  Chan *in, *out;
  int lis;                             /* listener index + 1 */
  int sstate;                          /* socket: 0 new 1 bound 2 listening 3 connected */
  int domain; char addr[128]; char peer[128];
  char name[256];
  u64 rng;
  int chunk;                           /* max bytes for a read/write, 0 = no limit */
  int shut;
} Ofd;

typedef struct Step { int op; int fd, fd2; long n; char *s, *s2; long slen; } Step;
typedef struct Script { char name[256]; Step *st; int n, cap; } Script;
enum { S_WRITE, S_READ, S_READALL, S_EXPECT, S_SLEEP, S_CLOSE, S_EXIT, S_KILL, S_FILE, S_APPEND,
  S_CAT, S_CONNECT, S_LISTEN, S_ACCEPT, S_RST, S_UNLINK, S_SIGINT, S_SHUTW, S_EOFMARK, S_CLOCKJUMP,
  S_MKDIR, S_RENAME, S_READLINE, S_COPYFILE, S_JMP, S_MARK, S_DROP, S_HOLD, S_STOPWAIT, S_TOOL };

enum { P_FREE, P_REAL, P_ACTOR, P_ZOMBIE };
typedef struct Proc {
  int state, pid, ppid, real;
  Ofd *fd[MAXFD]; int cloexec[MAXFD];
  char cwd[1024]; struct Node *cwdn;
  Script *script; int pc; long prog;   /* progress inside the step */
  i64 wake; int sleeping;
  int status;
  int nowait;                          /* peer, not a child */
  int parked;                          /* real process: waiting inside fork */
  long blockver; int blocked;
  char argv0[256]; char *args; long argsl; int toolno, toolst;
  u8 *got; long gotlen, gotcap;        /* bytes an actor has read and not consumed */
  long mark;
} Proc;

typedef struct Fault { char call[24], match[256]; long nth, count, seen, fired; int act; long arg; } Fault;
enum { FA_ERR = 1, FA_SHORT, FA_SIGINT, FA_JUMP };

typedef struct Listener { int used; char addr[128]; Ofd *owner; Ofd *pend[32]; int npend; int backlog; } Listener;

typedef struct Kern {
  char *arena; size_t apos, asize;
  void *freel[40];
  char *trace; size_t tpos, tcap; int tover;
  i64 now; i64 off, off0; i64 t0; i64 ut, st; i64 tick;     /* off: what the calendar clock has been set forward by */
  u64 rng;
  int bgp;                             /* percent: run an actor step at a call */
  Node *root; int nino;
  Proc p[MAXPROC]; int np; int nextpid;
  volatile int token;
  Fault f[MAXFAULT]; int nf;
  struct { char match[256]; int max; int wmax; } ch[MAXCHUNK]; int nch;
  Script prog[MAXPROG]; int nprog;
  Script act[MAXPROC]; int nact;
  Listener lis[MAXLISTEN];
  struct { char name[320]; char ip[32]; } host[16]; int nhost;
  char *op[MAXOP]; int nop, iop;
  Chan *chans; int npipe, nsock;
  long disk_limit, disk_used; long maxfd;
  long ncall; long sig_at[32]; int nsig;   /* SIGINT at call number */
  long nmalloc; long mfail_at; long mfail_n; long mfired;
  long ver;
  long steps; long maxsteps;
  int pipecap;
  int ttyecho;
  Chan *tty_in, *tty_out; int tty_cols, tty_rows; struct termios tio;
  int dead; int faults; int ended;
  int nextport;
  int rdorder;
  long sinceprogress;
  long stepsig; 
  struct { char kind; long n; char *say; long sayl; } tool[64]; int ntool;  struct { char name[120]; int n; } runs[32]; int nruns;   /* how the N-th run of a tool ends */
  long actsteps, nconn, nexec, ntimer;
  u64 hist;                            /* hash of the schedule */
  int memcount;
  long real_jump_count;
} Kern;

static Kern *K;
#define RT (K->now + K->off)        /* the calendar clock */
static i64 fdiv(i64 x) { return x >= 0 ? x / 1000000000 : -((999999999 - x) / 1000000000); }
static i64 fsec(i64 t) { return t == 0x7fffffffffffffffLL ? 1LL << 60 : fdiv(t); }   /* seconds of a file time; the largest stands for one no calendar reaches */
static i64 fnsec(i64 t) { return t - fdiv(t) * 1000000000; }
static int me;                         /* index of this real process */
static int on;                         /* simulation active */
static int insim;                      /* inside libsim */
static Proc *ME;

static uintptr_t exe_lo, exe_hi;

/* ------------------------------------------------------------------ real functions */
static void *(*r_malloc)(size_t); static void (*r_free)(void *); static void *(*r_calloc)(size_t, size_t); static void *(*r_realloc)(void *, size_t);
static int (*r_sigaction)(int, const struct sigaction *, struct sigaction *);
static pid_t (*r_fork)(void);
static int (*r_fclose)(FILE *);
static FILE *(*r_fopen)(const char *, const char *);
static void *(*r_mmap)(void *, size_t, int, int, int, off_t);

/* ------------------------------------------------------------------ allocation in the shared arena */
static void die_raw(const char *m);
static void *ka(size_t n)
{
  int c = 4; void *r;
  while (((size_t)1 << c) < n) c++;
  if (K->freel[c]) { r = K->freel[c]; K->freel[c] = *(void **)r; memset(r, 0, (size_t)1 << c); return r; }
  size_t sz = (size_t)1 << c;
  if (K->apos + sz > K->asize) die_raw("arena full");
  r = K->arena + K->apos; K->apos += sz;
  return r;
}
static void kf(void *p, size_t n)
{
  int c = 4; if (!p) return;
  while (((size_t)1 << c) < n) c++;
  *(void **)p = K->freel[c]; K->freel[c] = p;
}
static char *kdup(const char *s) { size_t n = strlen(s) + 1; char *r = ka(n); memcpy(r, s, n); return r; }

/* ------------------------------------------------------------------ trace */
static void traw(const char *s, size_t n)
{
  if (K->tpos + n + 64 > K->tcap) { K->tover = 1; return; }
  memcpy(K->trace + 16 + K->tpos, s, n); K->tpos += n;
  *(volatile u64 *)K->trace = K->tpos;
}
/* a line of a process made by fork carries its number */
static void who(const char *fmt)
{
  char b[32];
  if (me && ME && fmt[0] == 's' && fmt[1] == ' ') traw(b, snprintf(b, sizeof b, "P %d ", ME->pid));
}
static void T(const char *fmt, ...)
{
  char b[4096]; va_list ap; int n;
  va_start(ap, fmt); n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n'; who(fmt); traw(b, n);
}
static void tnl(void) { traw("\n", 1); }
static void thex(const void *p, long n)
{
  static const char hx[] = "0123456789ABCDEF"; const u8 *s = p; char b[3072]; int k = 0; long i;
  if (n == 0) { traw("-", 1); return; }
  for (i = 0; i < n; i++) {
    if (s[i] > 32 && s[i] < 127 && s[i] != '%' && !(n == 1 && s[i] == '-')) b[k++] = s[i];
    else { b[k++] = '%'; b[k++] = hx[s[i] >> 4]; b[k++] = hx[s[i] & 15]; }
    if (k > 3000) { traw(b, k); k = 0; }
  }
  traw(b, k);
}
static void tf(const char *fmt, ...)    /* without newline */
{
  char b[2048]; va_list ap; int n;
  va_start(ap, fmt); n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  who(fmt); traw(b, n);
}
static const char *q(const char *s)     /* quoted string in a rotating buffer */
{
  static char bb[4][1400]; static int ib; char *b = bb[ib++ & 3]; int k = 0; static const char hx[] = "0123456789ABCDEF";
  if (!s) return "(null)";
  for (; *s && k < 1390; s++) {
    u8 c = *s;
    if (c > 32 && c < 127 && c != '%') b[k++] = c;
    else { b[k++] = '%'; b[k++] = hx[c >> 4]; b[k++] = hx[c & 15]; }
  }
  b[k] = 0; return b;
}
static void dump_end(const char *why, int status);
static void raw_exit(int c) { for (;;) syscall(SYS_exit_group, c); }
static void die_raw(const char *m)
{
  if (K && K->trace) T("SIMERROR %s", m);
  syscall(SYS_write, 2, m, strlen(m)); syscall(SYS_write, 2, "\n", 1);
  raw_exit(96);
}
static void kill_real_children(void)
{
  int i;
  for (i = 0; i < K->np; i++)
    if (i != me && K->p[i].real && K->p[i].state == P_REAL) syscall(SYS_kill, K->p[i].real, SIGKILL);
  if (me != 0) { /* the root process is blocked on the token */
    syscall(SYS_kill, K->p[0].real, SIGKILL);
  }
}
static void sim_stop(const char *why, int code)   /* ends the whole simulated world */
{
  T("STOP %s", why);
  dump_end(why, code);
  kill_real_children();
  raw_exit(code);
}

/* ------------------------------------------------------------------ randomness */
static u64 rnd_of(u64 *s) { u64 z = (*s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static u64 rnd(void) { return rnd_of(&K->rng); }
static long rndn(long n) { return n <= 1 ? 0 : (long)(rnd() % (u64)n); }
static u64 hstr(const char *s) { u64 h = 1469598103934665603ULL; while (*s) { h ^= (u8)*s++; h *= 1099511628211ULL; } return h; }
static void mixh(u64 v) { K->hist = (K->hist ^ v) * 1099511628211ULL; }

/* ------------------------------------------------------------------ channels */
static Chan *new_chan(const char *name, long limit)
{
  Chan *c = ka(sizeof *c); snprintf(c->name, sizeof c->name, "%s", name);
  c->limit = limit; c->rng = K->rng ^ hstr(name); c->eof_at = -1; c->next = K->chans; K->chans = c; return c;
}
static void chan_put(Chan *c, const void *p, long n)
{
  i64 at = K->now; long k;
  K->ver++;
  if (c->delay_max) at += (i64)(rnd_of(&c->rng) % (u64)c->delay_max);
  if (c->stail > c->shead && c->seg[c->stail - 1].at > at) at = c->seg[c->stail - 1].at;
  if (c->tail + n > c->cap) {
    long live = c->tail - c->head, nc = c->cap ? c->cap : 256; u8 *nb;
    while (nc < live + n) nc *= 2;
    nb = ka(nc); memcpy(nb, c->buf + c->head, live); kf(c->buf, c->cap); c->buf = nb; c->cap = nc; c->head = 0; c->tail = live;
  }
  memcpy(c->buf + c->tail, p, n); c->tail += n;
  k = c->stail - c->shead;
  if (c->stail == c->scap) {
    long nc = c->scap ? c->scap : 16; void *nb; while (nc < k + 1) nc *= 2;
    if (nc < 2 * k) nc *= 2;
    nb = ka(nc * sizeof *c->seg); memcpy(nb, c->seg + c->shead, k * sizeof *c->seg); kf(c->seg, c->scap * sizeof *c->seg);
    c->seg = nb; c->scap = nc; c->shead = 0; c->stail = k;
  }
  if (!c->msg && k > 0 && n > 0 && c->seg[c->stail - 1].at == at) c->seg[c->stail - 1].len += n;
  else { c->seg[c->stail].len = n; c->seg[c->stail].at = at; c->stail++; }
}
static long chan_avail(Chan *c)          /* bytes that have arrived */
{
  long i, n = 0;
  for (i = c->shead; i < c->stail && c->seg[i].at <= K->now; i++) n += c->seg[i].len;
  return n;
}
static int chan_eof(Chan *c) { return c->writers == 0 && c->tail == c->head && c->shead == c->stail && c->eof_at <= K->now; }
static int chan_rready(Chan *c) { return c->rst || (c->shead < c->stail && c->seg[c->shead].at <= K->now) || chan_eof(c); }
static i64 chan_next(Chan *c)            /* next instant at which something arrives, or -1 */
{
  if (c->shead < c->stail) return c->seg[c->shead].at > K->now ? c->seg[c->shead].at : -1;
  if (c->writers == 0 && c->eof_at > K->now) return c->eof_at;
  return -1;
}
static long chan_get(Chan *c, void *p, long n)   /* caller checked readiness */
{
  long got = 0;
  K->ver++; c->rdat = K->now;
  while (c->shead < c->stail && c->seg[c->shead].at <= K->now) {
    long l = c->seg[c->shead].len, m = l < n - got ? l : n - got;
    memcpy((u8 *)p + got, c->buf + c->head, m); c->head += m; got += m; c->seg[c->shead].len -= m;
    if (c->seg[c->shead].len == 0) { c->shead++; if (c->msg) break; }
    else break;
    if (c->msg || got == n) break;
  }
  return got;
}
static int chan_wready(Chan *c) { return c->rst || c->readers == 0 || c->tail - c->head < c->limit; }

/* ------------------------------------------------------------------ files */
static Node *new_node(int type, int mode)
{
  Node *n = ka(sizeof *n); n->type = type; n->mode = mode; n->ino = ++K->nino; n->nlink = 0;
  n->atime = n->mtime = n->ctime = RT; return n;
}
static Node *dir_find(Node *d, const char *name)
{
  int i; for (i = 0; i < d->nent; i++) if (!strcmp(d->ent[i].name, name)) return d->ent[i].node; return NULL;
}
static void dir_add(Node *d, const char *name, Node *n)
{
  if (d->nent == d->centcap) {
    int nc = d->centcap ? 2 * d->centcap : 8; void *nb = ka(nc * sizeof *d->ent);
    memcpy(nb, d->ent, d->nent * sizeof *d->ent); kf(d->ent, d->centcap * sizeof *d->ent); d->ent = nb; d->centcap = nc;
  }
  d->ent[d->nent].name = kdup(name); d->ent[d->nent].node = n; d->nent++;
  n->nlink++; if (n->type == N_DIR) n->parent = d;
  d->mtime = d->ctime = RT; K->ver++;
}
static void dir_del(Node *d, const char *name)
{
  int i;
  for (i = 0; i < d->nent; i++) if (!strcmp(d->ent[i].name, name)) {
    d->ent[i].node->nlink--; memmove(d->ent + i, d->ent + i + 1, (d->nent - i - 1) * sizeof *d->ent); d->nent--; break; }
  d->mtime = d->ctime = RT; K->ver++;
}
static int may(Node *n, int bits) { return ((n->mode >> 6) & bits) == bits; }

/* walks PATH; the last component goes to LAST (may be ""), its directory is returned; *perr on failure */
static Node *walk_depth(Node *start, const char *path, char *last, int follow, Node **res, int *perr, int depth)
{
  Node *d = start; char comp[NAME_MAX + 2]; const char *p = path;
  *res = NULL; *perr = 0; if (last) last[0] = 0;
  if (!*p) { *perr = ENOENT; return NULL; }
  if (strlen(path) >= PATH_MAX) { *perr = ENAMETOOLONG; return NULL; }
  if (*p == '/') d = K->root;
  while (*p == '/') p++;
  if (!*p) { *res = d; return d->parent ? d->parent : d; }
  for (;;) {
    int k = 0, trail; Node *n;
    while (*p && *p != '/') { if (k > NAME_MAX - 1) { *perr = ENAMETOOLONG; return NULL; } comp[k++] = *p++; }
    comp[k] = 0; trail = *p == '/';
    while (*p == '/') p++;
    if (d->type != N_DIR) { *perr = ENOTDIR; return NULL; }
    if (!may(d, 1)) { *perr = EACCES; return NULL; }
    if (!strcmp(comp, ".")) n = d;
    else if (!strcmp(comp, "..")) n = d->parent ? d->parent : d;
    else n = dir_find(d, comp);
    if (n && n->type == N_LNK && (*p || trail || follow)) {
      char tgt[PATH_MAX]; long l = n->size < PATH_MAX - 1 ? n->size : PATH_MAX - 1; Node *r; int e;
      memcpy(tgt, n->data, l); tgt[l] = 0;
      if (depth > 8) { *perr = ELOOP; return NULL; }
      if (!*p && !trail) return walk_depth(d, tgt, last, follow, res, perr, depth + 1);
      walk_depth(d, tgt, NULL, 1, &r, &e, depth + 1);
      if (!r) { *perr = e ? e : ENOENT; return NULL; }
      n = r;
    }
    if (!*p) {
      if (last) strcpy(last, comp);
      *res = n;
      if (!n) { *perr = ENOENT; if (trail && last) { /* mkdir a/ is fine */ } return d; }
      if (trail && n->type != N_DIR) { *perr = ENOTDIR; *res = NULL; return NULL; }
      return d;
    }
    if (!n) { *perr = ENOENT; return NULL; }
    d = n;
  }
}
static int node_path(Node *n, char *out, size_t cap);
static Node *cwd_node(void)            /* the directory itself: it may have been renamed (the name follows) or removed */
{
  char out[PATH_MAX]; int e; Node *r;
  if (!ME->cwdn) { walk_depth(K->root, ME->cwd, NULL, 1, &r, &e, 0); ME->cwdn = r; }
  if (!ME->cwdn || node_path(ME->cwdn, out, sizeof out)) return NULL;
  if (strlen(out) < sizeof ME->cwd) strcpy(ME->cwd, out);
  return ME->cwdn;
}
static Node *walk(const char *path, char *last, int follow, Node **res, int *perr)
{
  Node *s = K->root;
  if (path && *path != '/') { s = cwd_node(); if (!s) { *res = NULL; *perr = ENOENT; return NULL; } }
  return walk_depth(s, path, last, follow, res, perr, 0);
}
static void abs_path(const char *path, char *out)     /* textual, for names */
{
  char t[2 * PATH_MAX]; char *c, *sv; int k = 0;
  if (path[0] == '/') snprintf(t, sizeof t, "%s", path); else cwd_node(), snprintf(t, sizeof t, "%s/%s", ME->cwd, path);
  out[0] = 0;
  for (c = strtok_r(t, "/", &sv); c; c = strtok_r(NULL, "/", &sv)) {
    if (!strcmp(c, ".")) continue;
    if (!strcmp(c, "..")) { char *s = strrchr(out, '/'); if (s) *s = 0; k = strlen(out); continue; }
    k += snprintf(out + k, PATH_MAX - k > 0 ? PATH_MAX - k : 0, "/%s", c); if (k >= PATH_MAX) { k = PATH_MAX - 1; }
  }
  if (!out[0]) strcpy(out, "/");
}
static int node_path(Node *n, char *out, size_t cap)   /* the canonical name of a directory */
{
  Node *stk[256]; int k = 0, i, j; size_t l = 0; out[0] = 0;
  for (; n->parent && k < 256; n = n->parent) stk[k++] = n;
  for (j = k - 1; j >= 0; j--) {
    Node *pa = stk[j]->parent; const char *nm = NULL;
    for (i = 0; i < pa->nent; i++) if (pa->ent[i].node == stk[j]) nm = pa->ent[i].name;
    if (!nm || l + strlen(nm) + 2 > cap) return -1;
    l += sprintf(out + l, "/%s", nm);
  }
  if (!out[0]) strcpy(out, "/");
  return 0;
}
static void node_trunc(Node *n, long size)
{
  n->vsize = 0;
  if (size < n->size) K->disk_used -= n->size - size;
  if (size > n->size) return;
  n->size = size; n->mtime = n->ctime = RT; K->ver++;
}
static long node_write(Node *n, long off, const void *p, long len)
{
  long end = off + len, grow = end > n->size ? end - n->size : 0;
  if (K->disk_limit >= 0 && grow && K->disk_used + grow > K->disk_limit) {
    long room = K->disk_limit - K->disk_used; if (room < 0) room = 0;
    if (room == 0) { if (off >= n->size) { K->faults++; T("F ENOSPC write disk"); return -ENOSPC; } len = n->size - off; }
    else { len = n->size + room - off; }
    if (len <= 0) { K->faults++; T("F ENOSPC write disk"); return -ENOSPC; }
    K->faults++; T("F SHORT write disk %ld", len);
    end = off + len; grow = end > n->size ? end - n->size : 0;
  }
  if (end > n->cap) { long nc = n->cap ? n->cap : 256; u8 *nb; while (nc < end) nc *= 2; nb = ka(nc); memcpy(nb, n->data, n->size); kf(n->data, n->cap); n->data = nb; n->cap = nc; }
  if (off > n->size) memset(n->data + n->size, 0, off - n->size);
  memcpy(n->data + off, p, len);
  if (end > n->size) n->size = end;
  K->disk_used += grow; n->mtime = n->ctime = RT; K->ver++;
  return len;
}
static Node *mkpath(const char *path, int type, int mode)     /* set-up: creates parents */
{
  char t[PATH_MAX]; char *c, *sv; Node *d = K->root, *n; snprintf(t, sizeof t, "%s", path);
  c = strtok_r(t, "/", &sv);
  while (c) {
    char *nx = strtok_r(NULL, "/", &sv);
    n = dir_find(d, c);
    if (!n) { n = new_node(nx ? N_DIR : type, nx ? 0755 : mode); dir_add(d, c, n); }
    else if (!nx) n->mode = mode;
    d = n; c = nx;
  }
  return d;
}

/* ------------------------------------------------------------------ faults */
static const struct { const char *n; int e; } errs[] = {
  {"EPERM",EPERM},{"ENOENT",ENOENT},{"EINTR",EINTR},{"EIO",EIO},{"EAGAIN",EAGAIN},{"ENOMEM",ENOMEM},{"EACCES",EACCES},{"EBUSY",EBUSY},
  {"EEXIST",EEXIST},{"EXDEV",EXDEV},{"ENOTDIR",ENOTDIR},{"EISDIR",EISDIR},{"EINVAL",EINVAL},{"ENFILE",ENFILE},{"EMFILE",EMFILE},{"ENOTEMPTY",ENOTEMPTY},
  {"ENOSPC",ENOSPC},{"ESPIPE",ESPIPE},{"EROFS",EROFS},{"EPIPE",EPIPE},{"ENAMETOOLONG",ENAMETOOLONG},{"ELOOP",ELOOP},{"EFBIG",EFBIG},{"ETXTBSY",ETXTBSY},
  {"ECONNREFUSED",ECONNREFUSED},{"ECONNRESET",ECONNRESET},{"ETIMEDOUT",ETIMEDOUT},{"EHOSTUNREACH",EHOSTUNREACH},{"ENETUNREACH",ENETUNREACH},
  {"EADDRINUSE",EADDRINUSE},{"ECONNABORTED",ECONNABORTED},{"ENOBUFS",ENOBUFS},{"EPROTO",EPROTO},{"EDQUOT",EDQUOT},{"E2BIG",E2BIG},{"ENOTCONN",ENOTCONN},{"EADDRNOTAVAIL",EADDRNOTAVAIL},{"EDOM",EDOM},{"ECHILD",ECHILD},{"EBADF",EBADF},{"ENOPROTOOPT",ENOPROTOOPT},{NULL,0} };
static int err_of(const char *s) { int i; for (i = 0; errs[i].n; i++) if (!strcmp(errs[i].n, s)) return errs[i].e; return atoi(s); }
static const char *err_name(int e) { int i; static char b[16]; for (i = 0; errs[i].n; i++) if (errs[i].e == e) return errs[i].n; sprintf(b, "%d", e); return b; }

static Fault *fault(const char *call, const char *name)
{
  int i;
  for (i = 0; i < K->nf; i++) {
    Fault *f = &K->f[i];
    if (strcmp(f->call, call)) continue;
    if (f->match[0] != '*' && strcmp(f->match, name ? name : "")) {
      size_t l = strlen(f->match);
      if (!(l && f->match[l - 1] == '*' && name && !strncmp(f->match, name, l - 1))) continue;
    }
    f->seen++;
    if (f->seen >= f->nth && (f->count < 0 || f->fired < f->count)) {
      f->fired++; K->faults++; mixh(hstr(call) + f->seen);
      T("F %s %s %s %ld", f->act == FA_ERR ? err_name(f->arg) : f->act == FA_SHORT ? "SHORT" : f->act == FA_JUMP ? "JUMP" : "SIGINT", call, q(name ? name : "-"), f->arg);
      if (me) T("P %d fault %s", ME->pid, call);
      return f;
    }
  }
  return NULL;
}
static int fault_err(const char *call, const char *name)   /* 0 or errno */
{
  Fault *f = fault(call, name);
  if (!f) return 0;
  if (f->act == FA_JUMP) { K->off += f->arg; K->real_jump_count++; return 0; }
  return f->act == FA_ERR ? (int)f->arg : 0;
}

/* ------------------------------------------------------------------ processes, scheduling */
static int run_actor_step(int i);
static int actor_runnable(int i);
static void deliver_sigint(void);
static struct sigaction sa_int; static int sa_int_set;
static volatile int pending_int;

static void futex_wait_token(int idx)
{
  int v;
  while ((v = K->token) != idx) syscall(SYS_futex, &K->token, FUTEX_WAIT, v, NULL, NULL, 0);
}
static void pass_token(int idx)
{
  K->token = idx; syscall(SYS_futex, &K->token, FUTEX_WAKE, 64, NULL, NULL, 0);
}
static void switch_to(int idx) { mixh(1000 + idx); pass_token(idx); futex_wait_token(me); }

static i64 next_timer(void)
{
  i64 t = -1; int i; Chan *c;
#define TM(x) do { i64 y_ = (x); if (y_ >= 0 && (t < 0 || y_ < t)) t = y_; } while (0)
  for (i = 0; i < K->np; i++) {
    Proc *p = &K->p[i];
    if (p->state == P_ACTOR && p->sleeping) TM(p->wake);
    if (p->state == P_REAL && i != me && p->blocked && p->wake > K->now) TM(p->wake);
  }
  for (c = K->chans; c; c = c->next) if (c->readers > 0 || c->writers > 0) TM(chan_next(c));
  return t;
#undef TM
}
/* lets somebody else run; 1 if the world changed.  dl: a deadline of the caller (-1: none) */
static int progress(i64 dl, const char *what)
{
  int cand[MAXPROC], nc = 0, i;
  for (i = 0; i < K->np; i++) {
    Proc *p = &K->p[i];
    if (p->state == P_ACTOR && actor_runnable(i)) cand[nc++] = i;
    else if (p->state == P_REAL && i != me && (p->parked || !p->blocked || p->blockver != K->ver || (p->wake > 0 && p->wake <= K->now))) cand[nc++] = i;
  }
  if (++K->steps > K->maxsteps) sim_stop("STEPS", 98);
  if (nc) {
    i = cand[rndn(nc)];
    if (K->p[i].state == P_ACTOR) { run_actor_step(i); }
    else switch_to(i);
    return 1;
  }
  {
    i64 t = next_timer();
    if (dl >= 0 && (t < 0 || dl < t)) t = dl;
    if (t >= 0) { if (t > K->now) { K->now = t; K->ntimer++; } K->ver++; return 1; }
  }
  T("DEADLOCK in %s", what);
  sim_stop("DEADLOCK", 97);
  return 0;
}
#define WAIT(cond, dl, what) do { while (!(cond)) { \
    ME->blocked = 1; ME->blockver = K->ver; ME->wake = (dl); \
    progress((dl), (what)); ME->blocked = 0; if (pending_int) break; } } while (0)

static long sinth;   /* single-step: deliver SIGINT after that many instructions (0: off) */
static void bg(const char *call)        /* at the start of every call: clock, background activity, signals */
{
  int i;
  K->ncall++; K->now += K->tick; K->st += K->tick / 2;
  for (i = 0; i < K->nsig; i++) if (K->sig_at[i] == K->ncall) { T("F SIGINT at-call %ld %s", K->ncall, call); K->faults++; pending_int = 1; }
  if (K->bgp && K->np > 1 && rndn(100) < K->bgp) {
    int cand[MAXPROC], nc = 0;
    for (i = 0; i < K->np; i++) {
      if (K->p[i].state == P_ACTOR && actor_runnable(i)) cand[nc++] = i;
      else if (K->p[i].state == P_REAL && i != me && (K->p[i].parked || !K->p[i].blocked || K->p[i].blockver != K->ver)) cand[nc++] = i;
    }
    if (nc) { i = cand[rndn(nc)]; if (K->p[i].state == P_ACTOR) run_actor_step(i); else switch_to(i); }
  }
  if (pending_int) deliver_sigint();
}
#define ENTER(name) int sv_ = insim; (void)sv_; insim = 1; if (!sv_) bg(name)
#define LEAVE(r) do { insim = sv_; return (r); } while (0)
#define FAIL(e) do { int e_ = (e); insim = sv_; errno = e_; return -1; } while (0)

static void deliver_sigint(void)
{
  pending_int = 0;
  if (!sa_int_set || sa_int.sa_handler == SIG_DFL) { T("KILLED by SIGINT"); sim_stop("SIGINT", 96 + 34); }
  if (sa_int.sa_handler == SIG_IGN) return;
  {
    int s = insim, e = errno;
    T("SIG handler");
    insim = 0;
    if (sa_int.sa_flags & SA_SIGINFO) sa_int.sa_sigaction(SIGINT, NULL, NULL); else sa_int.sa_handler(SIGINT);
    insim = s; errno = e;
    T("SIG return");
  }
}

/* ------------------------------------------------------------------ descriptors */
static Ofd *new_ofd(int type, const char *name)
{
  Ofd *o = ka(sizeof *o); int i;
  o->type = type; o->ref = 0; snprintf(o->name, sizeof o->name, "%s", name);
  o->rng = K->rng ^ hstr(name) ^ 0x5bd1e995;
  for (i = 0; i < K->nch; i++) {
    size_t l = strlen(K->ch[i].match);
    if (!strcmp(K->ch[i].match, "*") || !strcmp(K->ch[i].match, name) || (l && K->ch[i].match[l-1] == '*' && !strncmp(K->ch[i].match, name, l-1))) { o->chunk = K->ch[i].max; break; }
  }
  return o;
}
static void ofd_free(Ofd *o)
{
  K->ver++;
  if (o->in) { o->in->readers--; }
  if (o->out) { o->out->writers--; if (o->out->writers == 0 && o->out->eof_at < 0) {
      o->out->eof_at = K->now; if (o->out->delay_max) o->out->eof_at += (i64)(rnd_of(&o->out->rng) % (u64)o->out->delay_max);
      if (o->out->stail > o->out->shead && o->out->seg[o->out->stail-1].at > o->out->eof_at) o->out->eof_at = o->out->seg[o->out->stail-1].at; } }
  if (o->type == O_SOCK && o->sstate == 2 && o->lis) {
    Listener *l = &K->lis[o->lis - 1]; int i;
    for (i = 0; i < l->npend; i++) { Ofd *p = l->pend[i]; if (p->out) p->out->rst = 1; if (p->in) p->in->rst = 1; ofd_free(p); }
    l->used = 0;
  }
  kf(o, sizeof *o);
}
static void ofd_unref(Ofd *o) { if (--o->ref == 0) ofd_free(o); }
static int fd_alloc(Proc *p, Ofd *o, int min)
{
  int i;
  for (i = min; i < K->maxfd && i < MAXFD; i++) if (!p->fd[i]) { p->fd[i] = o; p->cloexec[i] = 0; o->ref++; return i; }
  return -EMFILE;
}
static Ofd *fd_get(int fd) { return fd >= 0 && fd < MAXFD ? ME->fd[fd] : NULL; }
static void fd_drop(Proc *p, int fd) { Ofd *o = p->fd[fd]; if (o) { p->fd[fd] = NULL; ofd_unref(o); } }

/* open in the simulated file system; returns an Ofd or sets *perr */
static void tty_init(void)
{
  if (K->tty_in) return;
  K->tty_in = new_chan("tty_in", 1 << 20); K->tty_in->msg = 1; K->tty_out = new_chan("tty_out", 1 << 24);
  K->tty_in->writers = 1; K->tty_out->readers = 1; K->tty_out->writers = 0;
}
static Ofd *sim_openf(const char *path, int flags, int mode, int *perr)
{
  Node *d, *n; char last[NAME_MAX + 2]; char ap[PATH_MAX + 8]; Ofd *o; int acc = flags & O_ACCMODE;
  abs_path(path, ap);
  if ((*perr = fault_err("open", ap))) return NULL;
  d = walk(path, last, 1, &n, perr);
  if (!n) {
    if (!d || *perr != ENOENT || !(flags & O_CREAT)) { if (!*perr) *perr = ENOENT; return NULL; }
    if (strlen(path) && path[strlen(path) - 1] == '/') { *perr = EISDIR; return NULL; }
    if (!may(d, 2)) { *perr = EACCES; return NULL; }
    n = new_node(N_FILE, mode & 07777 & ~022); dir_add(d, last, n);
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) { *perr = EEXIST; return NULL; }
    if (n->type == N_DIR && acc != O_RDONLY) { *perr = EISDIR; return NULL; }
    if ((acc != O_WRONLY && !may(n, 4)) || (acc != O_RDONLY && !may(n, 2))) { *perr = EACCES; return NULL; }
    if (n->type == N_SOCK) { *perr = ENXIO; return NULL; }
    if ((flags & O_TRUNC) && n->type == N_FILE) node_trunc(n, 0);
  }
  if (n->type == N_CHR) {
    o = new_ofd(n->dev == 1 ? O_NULL : n->dev == 2 ? O_FULL : n->dev == 4 ? O_ZERO : O_TTY, ap);
    if (n->dev == 3) { tty_init(); o->in = K->tty_in; o->out = K->tty_out; o->in->readers++; o->out->writers++; }
  } else {
    o = new_ofd(n->type == N_DIR ? O_DIRF : O_FILE, ap); o->node = n; n->nlink++;   /* nlink counts opens too */
    n->nlink--;
  }
  o->flags = flags;
  *perr = 0; return o;
}

static long sim_read(int fd, void *buf, long n)
{
  Ofd *o = fd_get(fd); Fault *f; long r, lim = n;
  if (!o) { errno = EBADF; return -1; }
  if ((o->flags & O_ACCMODE) == O_WRONLY && o->type != O_SOCK && o->type != O_TTY) { errno = EBADF; return -1; }
  if (o->type == O_DIRF) { T("s read %d %s = EISDIR", fd, q(o->name)); errno = EISDIR; return -1; }
  if ((f = fault("read", o->name))) {
    if (f->act == FA_ERR) { T("s read %d %s = %s", fd, q(o->name), err_name(f->arg)); errno = f->arg; return -1; }
    if (f->act == FA_SHORT && f->arg > 0 && f->arg < lim) lim = f->arg;
    if (f->act == FA_SIGINT) { pending_int = 1; deliver_sigint(); if (!(sa_int.sa_flags & SA_RESTART)) { errno = EINTR; return -1; } }
    if (f->act == FA_JUMP) K->now += f->arg;
  }
  if (o->chunk > 0) { long m = 1 + (long)(rnd_of(&o->rng) % (u64)o->chunk); if (m < lim) lim = m; }
  switch (o->type) {
  case O_FILE:
    r = o->node->size - o->off; if (r < 0) r = 0; if (r > lim) r = lim;
    memcpy(buf, o->node->data + o->off, r); o->off += r; o->node->atime = RT; break;
  case O_NULL: r = 0; break;
  case O_ZERO: case O_FULL: memset(buf, 0, lim); r = lim; break;
  case O_PIPER: case O_TTY: case O_SOCK:
    if (o->type == O_SOCK && o->sstate != 3) { errno = ENOTCONN; return -1; }
    if (o->shut & 1) { r = 0; break; }
    if ((o->flags & O_NONBLOCK) && !chan_rready(o->in)) { errno = EAGAIN; return -1; }
    for (;;) {
      WAIT(chan_rready(o->in), -1, "read");
      if (pending_int) { deliver_sigint(); if (!(sa_int.sa_flags & SA_RESTART)) { errno = EINTR; return -1; } continue; }
      break;
    }
    if (o->in->rst) { T("s read %d %s = ECONNRESET", fd, q(o->name)); if (o->in->rst == 2) { r = 0; break; } o->in->rst = 2; errno = ECONNRESET; return -1; }
    r = chan_get(o->in, buf, lim); break;
  default: errno = EINVAL; return -1;
  }
  tf("s read %d %s %ld = ", fd, q(o->name), n); thex(buf, r); tnl();
  return r;
}
/* a write nobody can read: the signal, unless the program handles or ignores it */
static sighandler_t sigpipe_h = SIG_DFL;
static void proc_end(int i, int status);
static void sigpipe(int fd, const char *name)
{
  if (sigpipe_h == SIG_IGN) return;
  T("s write %d %s = SIGPIPE", fd, q(name));
  if (sigpipe_h != SIG_DFL) { sigpipe_h(SIGPIPE); return; }
  if (me == 0) sim_stop("KILLED", 128 + SIGPIPE);
  { int i, pi = 0; proc_end(me, SIGPIPE); for (i = 0; i < K->np; i++) if (K->p[i].pid == ME->ppid) pi = i; pass_token(pi); raw_exit(0); }
}
static long sim_write(int fd, const void *buf, long n)
{
  Ofd *o = fd_get(fd); Fault *f; long r, lim = n;
  if (!o) { errno = EBADF; return -1; }
  if ((o->flags & O_ACCMODE) == O_RDONLY && o->type != O_SOCK && o->type != O_TTY) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  if ((f = fault("write", o->name))) {
    if (f->act == FA_ERR) { T("s write %d %s = %s", fd, q(o->name), err_name(f->arg)); errno = f->arg; return -1; }
    if (f->act == FA_SHORT && f->arg > 0 && f->arg < lim) lim = f->arg;
    if (f->act == FA_SIGINT) { pending_int = 1; deliver_sigint(); }
    if (f->act == FA_JUMP) K->now += f->arg;
  }
  if (o->chunk > 0) { long m = 1 + (long)(rnd_of(&o->rng) % (u64)o->chunk); if (m < lim) lim = m; }
  switch (o->type) {
  case O_FILE:
    if (o->flags & O_APPEND) o->off = o->node->size;
    r = node_write(o->node, o->off, buf, lim);
    if (r < 0) { T("s write %d %s = %s", fd, q(o->name), err_name(-r)); errno = -r; return -1; }
    o->off += r; break;
  case O_NULL: case O_ZERO: r = lim; break;
  case O_FULL: errno = ENOSPC; K->faults++; T("F ENOSPC write /dev/full"); return -1;
  case O_PIPEW: case O_SOCK: case O_TTY:
    if (o->type == O_SOCK && o->sstate != 3) { errno = ENOTCONN; return -1; }
    if (o->shut & 2) { sigpipe(fd, o->name); errno = EPIPE; return -1; }
    if ((o->flags & O_NONBLOCK) && !chan_wready(o->out)) { errno = EAGAIN; return -1; }
    for (;;) {
      WAIT(chan_wready(o->out), -1, "write");
      if (pending_int) { deliver_sigint(); if (!(sa_int.sa_flags & SA_RESTART)) { errno = EINTR; return -1; } continue; }
      break;
    }
    if (o->out->rst || o->out->readers == 0) {
      int e = o->out->rst == 1 ? ECONNRESET : EPIPE; if (o->out->rst) o->out->rst = 2;
      if (e == EPIPE) sigpipe(fd, o->name);
      T("s write %d %s = %s", fd, q(o->name), err_name(e)); errno = e; return -1; }
    r = o->out->limit - (o->out->tail - o->out->head); if (r > lim) r = lim;
    chan_put(o->out, buf, r); break;
  default: errno = EINVAL; return -1;
  }
  tf("s write %d %s %ld = ", fd, q(o->name), n); thex(buf, r); tnl();
  return r;
}

/* ------------------------------------------------------------------ other parties */
static Script *find_prog(const char *name)
{
  int i; for (i = 0; i < K->nprog; i++) if (!strcmp(K->prog[i].name, name)) return &K->prog[i]; return NULL;
}
static int new_proc(int state)
{
  int i;
  for (i = 1; i < MAXPROC; i++) if (i >= K->np || K->p[i].state == P_FREE) {
    Proc *p = &K->p[i]; u8 *g = p->got; long gc = p->gotcap;
    memset(p, 0, sizeof *p); p->got = g; p->gotcap = gc; p->state = state; p->pid = K->nextpid; K->nextpid += 1 + (int)rndn(3); p->ppid = ME ? ME->pid : 1;
    if (i >= K->np) K->np = i + 1;
    return i; }
  die_raw("too many processes"); return -1;
}
static void proc_end(int i, int status)
{
  Proc *p = &K->p[i]; int k;
  for (k = 0; k < MAXFD; k++) if (p->fd[k]) fd_drop(p, k);
  p->status = status; p->state = p->nowait ? P_FREE : P_ZOMBIE; K->ver++;
  T("A %d end %d", p->pid, status);
}
static Ofd *sock_pair(Ofd *a, const char *nm)     /* connects A to a new peer Ofd */
{
  char b[64]; Ofd *o = new_ofd(O_SOCK, nm); Chan *c1, *c2; i64 dm = 0; int i;
  K->nconn++;
  snprintf(b, sizeof b, "c%ld>", K->nconn); c1 = new_chan(b, K->pipecap);
  snprintf(b, sizeof b, "c%ld<", K->nconn); c2 = new_chan(b, K->pipecap);
  for (i = 0; i < K->nf; i++) if (!strcmp(K->f[i].call, "netdelay")) dm = K->f[i].arg;
  c1->delay_max = c2->delay_max = dm;
  a->out = c1; o->in = c1; c1->readers = c1->writers = 1;
  a->in = c2; o->out = c2; c2->readers = c2->writers = 1;
  a->sstate = o->sstate = 3; o->flags = a->flags = O_RDWR; o->domain = a->domain;
  return o;
}
static Listener *find_listener(const char *addr)
{
  int i; const char *pt = strrchr(addr, ':'); 
  for (i = 0; i < MAXLISTEN; i++) if (K->lis[i].used) {
    if (!strcmp(K->lis[i].addr, addr)) return &K->lis[i];
    if (!strncmp(addr, "inet:", 5) && !strncmp(K->lis[i].addr, "inet:0.0.0.0:", 13) && !strcmp(K->lis[i].addr + 12, pt)) return &K->lis[i];
  }
  return NULL;
}
static void got_add(Proc *p, const u8 *b, long n)
{
  if (p->gotlen + n > p->gotcap) { long nc = p->gotcap ? p->gotcap : 256; u8 *nb; while (nc < p->gotlen + n) nc *= 2; nb = ka(nc); memcpy(nb, p->got, p->gotlen); kf(p->got, p->gotcap); p->got = nb; p->gotcap = nc; }
  memcpy(p->got + p->gotlen, b, n); p->gotlen += n;
}
static int actor_runnable(int i)
{
  Proc *p = &K->p[i]; Step *s; Ofd *o;
  if (p->sleeping) return p->wake <= K->now;
  if (p->pc >= p->script->n) return 1;
  s = &p->script->st[p->pc];
  o = s->fd >= 0 && s->fd < MAXFD ? p->fd[s->fd] : NULL;
  switch (s->op) {
  case S_TOOL:
  case S_WRITE: return !o || !o->out || (o->shut & 2) || chan_wready(o->out);
  case S_READ: return !o || !o->in || chan_rready(o->in) || p->gotlen >= s->n;
  case S_READLINE: return !o || !o->in || chan_rready(o->in) || (p->gotlen && memchr(p->got, '\n', p->gotlen));
  case S_EXPECT: return !o || !o->in || chan_rready(o->in) || (p->gotlen && memmem(p->got, p->gotlen, s->s, s->slen));
  case S_READALL: return !o || !o->in || chan_rready(o->in);
  case S_CAT: { Ofd *o2 = p->fd[s->fd2]; if (p->gotlen) return !o2 || !o2->out || chan_wready(o2->out); return !o || !o->in || chan_rready(o->in); }
  case S_ACCEPT: { if (!o || !o->lis) return 1; return K->lis[o->lis - 1].npend > 0; }
  case S_CONNECT: return s->n ? 1 : find_listener(s->s) != NULL;
  case S_STOPWAIT: return 0;
  }
  return 1;
}
static void actor_read(Proc *p, Ofd *o, int *eof)
{
  u8 b[4096]; long n; *eof = 0;
  if (o && o->type == O_FILE && (o->flags & O_ACCMODE) != O_WRONLY) {
    n = o->node->size - o->off; if (n > (long)sizeof b) n = sizeof b;
    if (n <= 0) { T("A %d eof", p->pid); *eof = 1; return; }
    memcpy(b, o->node->data + o->off, n); o->off += n;
    tf("A %d got %s ", p->pid, q(o->name)); thex(b, n); tnl(); got_add(p, b, n); return;
  }
  if (!o || !o->in) { *eof = 1; return; }
  if (o->in->rst) { T("A %d rst", p->pid); *eof = 1; return; }
  if (chan_eof(o->in)) { T("A %d eof", p->pid); *eof = 1; return; }
  n = chan_get(o->in, b, sizeof b);
  tf("A %d got %s ", p->pid, q(o->name)); thex(b, n); tnl();
  got_add(p, b, n);
}
static void got_drop(Proc *p, long n) { memmove(p->got, p->got + n, p->gotlen - n); p->gotlen -= n; }
/* a translator: reads the files named by its arguments and writes NAME(content,...) to the one after -o */
static void tool_cat(u8 **b, long *n, const void *s, long l) { u8 *x = ka(*n + l + 1); if (*n) memcpy(x, *b, *n); memcpy(x + *n, s, l); if (*b) kf(*b, *n + 1); *b = x; *n += l; }
static void run_tool(int i, Ofd *o)
{
  Proc *p = &K->p[i]; char *a, *e = p->args + p->argsl, *out = NULL, *first = NULL, last[NAME_MAX + 2]; u8 *b = NULL; long n = 0, r, w; int t, k, er, nin = 0; Node *d, *f;
  const char *nm = strrchr(p->argv0, '/'); nm = nm ? nm + 1 : p->argv0;
  if (!p->toolst) { p->toolst = 1; p->toolno = K->ntool++; p->prog = 0; T("A %d tool %d %s", p->pid, p->toolno, nm); }
  t = p->toolno; if (t > 63) t = 63;
  if (K->tool[t].say && p->prog < K->tool[t].sayl && o && (o->out || o->type == O_FILE)) {
    long left = K->tool[t].sayl - p->prog, m = left;
    if (o->type == O_FILE) { if (o->flags & O_APPEND) o->off = o->node->size; r = node_write(o->node, o->off, K->tool[t].say, left); if (r > 0) o->off += r; p->prog = K->tool[t].sayl; return; }
    if (o->out->readers == 0 || o->out->rst) { p->prog = K->tool[t].sayl; proc_end(i, SIGPIPE); return; }
    if (o->chunk > 0) { long c = 1 + (long)(rnd_of(&o->rng) % (u64)o->chunk); if (c < m) m = c; }
    r = o->out->limit - (o->out->tail - o->out->head); if (m > r) m = r;
    chan_put(o->out, K->tool[t].say + p->prog, m); tf("A %d put %s ", p->pid, q(o->name)); thex(K->tool[t].say + p->prog, m); tnl();
    p->prog += m; return;
  }
  if (K->tool[t].kind == 'e') { K->faults++; T("F TOOL early %ld", K->tool[t].n); proc_end(i, (K->tool[t].n & 255) << 8); return; }
  tool_cat(&b, &n, nm, strlen(nm)); tool_cat(&b, &n, "(", 1);
  for (a = p->args + strlen(p->args) + 1; a < e; a += strlen(a) + 1) {
    if (!strcmp(a, "-o")) { a += strlen(a) + 1; if (a < e) out = a; continue; }
    if (!strcmp(a, "-i") || !strcmp(a, "--include") || !strcmp(a, "--wam-comment")) { a += strlen(a) + 1; continue; }
    if (a[0] == '-') continue;
    walk(a, NULL, 1, &f, &er);
    if (!f || f->type != N_FILE) { T("A %d tool-missing %s", p->pid, q(a)); kf(b, n + 1); proc_end(i, 1 << 8); return; }
    if (nin++) tool_cat(&b, &n, ",", 1); else first = a;
    tool_cat(&b, &n, f->data, f->size);
  }
  tool_cat(&b, &n, ")", 1);
  if (!out && !strcmp(nm, "strip")) out = first;
  if (!out || !nin) { T("A %d tool-usage", p->pid); kf(b, n + 1); proc_end(i, 2 << 8); return; }
  d = walk(out, last, 1, &f, &er);
  if (!f && d) { f = new_node(N_FILE, 0644); dir_add(d, last, f); }
  if (!f || f->type != N_FILE) { T("A %d tool-output %s", p->pid, q(out)); kf(b, n + 1); proc_end(i, 1 << 8); return; }
  node_trunc(f, 0); w = n; k = K->tool[t].kind; if (k == 'p' || k == 's') { w = n / 2; K->faults++; T("F TOOL part %ld", w); }
  for (r = 0; r < w; ) { long x = node_write(f, r, b + r, w - r); if (x <= 0) break; r += x; }
  T("A %d tool-made %s %ld", p->pid, q(out), r); kf(b, n + 1);
  if (r < w) { proc_end(i, 1 << 8); return; }
  if (k == 's') { proc_end(i, K->tool[t].n & 127); return; }
  if (k == 'p' || k == 'l') { if (k == 'l') { K->faults++; T("F TOOL late %ld", K->tool[t].n); } proc_end(i, (K->tool[t].n & 255) << 8); return; }
  proc_end(i, 0);
}
static int run_actor_step(int i)
{
  Proc *p = &K->p[i], *sv = ME; Step *s; Ofd *o; int eof = 0;
  K->actsteps++; mixh(7 * i + p->pc); K->ver++;
  if (p->sleeping) { p->sleeping = 0; p->pc++; return 1; }
  if (p->pc >= p->script->n) { proc_end(i, 0); return 1; }
  s = &p->script->st[p->pc];
  o = s->fd >= 0 && s->fd < MAXFD ? p->fd[s->fd] : NULL;
  ME = p;   /* path names relative to the actor */
  switch (s->op) {
  case S_WRITE: {
    long left = s->slen - p->prog, m = left;
    if (o && o->type == O_NULL) { p->pc++; break; }
    if (!o || ((o->type != O_FILE) && (!o->out || o->out->readers == 0 || o->out->rst || (o->shut & 2)))) { T("A %d epipe", p->pid); p->prog = 0; p->pc++; break; }
    if (o->type == O_FILE) { if (o->flags & O_APPEND) o->off = o->node->size; long r = node_write(o->node, o->off, s->s, s->slen); if (r > 0) { o->off += r; tf("A %d put %s ", p->pid, q(o->name)); thex(s->s, r); tnl(); } p->pc++; break; }
    if (o->chunk > 0) { long k = 1 + (long)(rnd_of(&o->rng) % (u64)o->chunk); if (k < m) m = k; }
    if (!o->out->msg) { long room = o->out->limit - (o->out->tail - o->out->head); if (m > room) m = room; }
    chan_put(o->out, s->s + p->prog, m); tf("A %d put %s ", p->pid, q(o->name)); thex(s->s + p->prog, m); tnl();
    p->prog += m; if (p->prog >= s->slen) { p->prog = 0; p->pc++; }
    break; }
  case S_EOFMARK: if (o && o->out) { chan_put(o->out, "", 0); T("A %d eofmark", p->pid); } p->pc++; break;
  case S_READ: if (p->gotlen < s->n) actor_read(p, o, &eof); if (eof || p->gotlen >= s->n) { got_drop(p, p->gotlen < s->n ? p->gotlen : s->n); p->pc++; } break;
  case S_READLINE: if (!p->gotlen || !memchr(p->got, '\n', p->gotlen)) actor_read(p, o, &eof);
    { u8 *e = p->gotlen ? memchr(p->got, '\n', p->gotlen) : NULL; if (e) got_drop(p, e - p->got + 1); if (e || eof) p->pc++; } break;
  case S_EXPECT: { u8 *e = p->gotlen ? memmem(p->got, p->gotlen, s->s, s->slen) : NULL; if (!e) { actor_read(p, o, &eof); e = p->gotlen ? memmem(p->got, p->gotlen, s->s, s->slen) : NULL; }
      if (e) { got_drop(p, e - p->got + s->slen); p->pc++; } else if (eof) p->pc++; break; }
  case S_READALL: actor_read(p, o, &eof); p->gotlen = 0; if (eof) p->pc++; break;
  case S_CAT: { Ofd *o2 = p->fd[s->fd2];
      if (p->gotlen) {
        if (o2 && o2->type == O_NULL) p->gotlen = 0;
        else if (o2 && o2->type == O_FILE) { if (o2->flags & O_APPEND) o2->off = o2->node->size; long r = node_write(o2->node, o2->off, p->got, p->gotlen); if (r > 0) { o2->off += r; tf("A %d put %s ", p->pid, q(o2->name)); thex(p->got, r); tnl(); } p->gotlen = 0; }
        else if (!o2 || !o2->out || o2->out->readers == 0 || o2->out->rst) { T("A %d epipe", p->pid); p->gotlen = 0; p->pc++; }
        else { long room = o2->out->limit - (o2->out->tail - o2->out->head), m = p->gotlen < room ? p->gotlen : room; chan_put(o2->out, p->got, m); tf("A %d put %s ", p->pid, q(o2->name)); thex(p->got, m); tnl(); got_drop(p, m); }
      } else { actor_read(p, o, &eof); if (eof) p->pc++; }
      break; }
  case S_SLEEP: p->sleeping = 1; p->wake = K->now + s->n; break;
  case S_CLOSE: if (o) { T("A %d close %d", p->pid, s->fd); fd_drop(p, s->fd); } p->pc++; break;
  case S_SHUTW: if (o && o->out) { o->shut |= 2; o->out->writers--; o->out->eof_at = K->now; o->out = NULL; T("A %d shutw", p->pid); } p->pc++; break;
  case S_RST: if (o) { T("A %d rst %d", p->pid, s->fd); if (o->in) o->in->rst = 1; if (o->out) { o->out->rst = 1; } K->faults++; T("F RST conn -"); fd_drop(p, s->fd); } p->pc++; break;
  case S_EXIT: proc_end(i, (s->n & 255) << 8); break;
  case S_KILL: proc_end(i, s->n & 127); break;
  case S_FILE: { int e; Ofd *f = NULL; Node *d, *n; char last[NAME_MAX + 2];
      char *a = s->s2, *z = p->args + p->argsl;
      if (!strcmp(a, "-o")) { for (a = p->args; a < z && strcmp(a, "-o"); a += strlen(a) + 1); if (a < z) a += 3; if (a >= z) a = "/"; }   /* the file after -o */
      d = walk(a, last, 1, &n, &e); (void)f;
      if (!n && d) { n = new_node(N_FILE, 0644); dir_add(d, last, n); }
      if (n && n->type == N_FILE) { node_trunc(n, 0); long w = node_write(n, 0, s->s, s->slen); T("A %d file %s %ld", p->pid, q(a), w); if (a != s->s2 && w < s->slen) { proc_end(i, 1 << 8); break; } }
      p->pc++; break; }
  case S_APPEND: { int e; Node *n; walk(s->s2, NULL, 1, &n, &e); if (n && n->type == N_FILE) { node_write(n, n->size, s->s, s->slen); tf("A %d append %s ", p->pid, q(s->s2)); thex(s->s, s->slen); tnl(); } p->pc++; break; }
  case S_UNLINK: { int e; Node *n, *d; char last[NAME_MAX + 2]; d = walk(s->s2, last, 0, &n, &e); if (n && d && n != d) { dir_del(d, last); T("A %d unlink %s", p->pid, q(s->s2)); } p->pc++; break; }
  case S_MKDIR: { int e; Node *n, *d; char last[NAME_MAX + 2]; d = walk(s->s2, last, 0, &n, &e); if (!n && d) { dir_add(d, last, new_node(N_DIR, 0755)); T("A %d mkdir %s", p->pid, q(s->s2)); } p->pc++; break; }
  case S_CONNECT: { Listener *l = find_listener(s->s); Ofd *a, *b;
      if (!l || l->npend >= 16) { T("A %d refused", p->pid); p->pc++; break; }
      a = new_ofd(O_SOCK, "actor"); a->domain = !strncmp(s->s, "unix", 4) ? AF_UNIX : AF_INET; snprintf(a->addr, sizeof a->addr, "inet:10.0.0.%d:%d", 2 + i % 200, 40000 + i);
      b = sock_pair(a, "conn"); snprintf(b->name, sizeof b->name, "sock:%d", ++K->nsock); snprintf(a->name, sizeof a->name, "peer:%d", K->nsock);
      { Ofd *t = new_ofd(O_SOCK, b->name); b->chunk = t->chunk; b->rng = t->rng; kf(t, sizeof *t); t = new_ofd(O_SOCK, a->name); a->chunk = t->chunk; a->rng = t->rng; kf(t, sizeof *t); }
      snprintf(b->peer, sizeof b->peer, "%s", a->addr); snprintf(b->addr, sizeof b->addr, "%s", l->addr);
      l->pend[l->npend++] = b; a->ref++; if (p->fd[s->fd]) fd_drop(p, s->fd); p->fd[s->fd] = a;
      T("A %d connect %s %s", p->pid, q(s->s), q(b->name)); p->pc++; break; }
  case S_LISTEN: { int k; for (k = 0; k < MAXLISTEN; k++) if (!K->lis[k].used) break;
      if (k < MAXLISTEN) { Listener *l = &K->lis[k]; memset(l, 0, sizeof *l); l->used = 1; snprintf(l->addr, sizeof l->addr, "%s", s->s); l->backlog = 16;
        o = new_ofd(O_SOCK, "lis"); o->lis = k + 1; o->sstate = 2; o->ref++; p->fd[s->fd] = o; l->owner = o; T("A %d listen %s", p->pid, q(s->s)); }
      p->pc++; break; }
  case S_ACCEPT: if (o && o->lis) { Listener *l = &K->lis[o->lis - 1]; Ofd *b = l->pend[0]; memmove(l->pend, l->pend + 1, sizeof l->pend - sizeof l->pend[0]); l->npend--;
        b->ref++; if (p->fd[s->fd2]) fd_drop(p, s->fd2); p->fd[s->fd2] = b; T("A %d accept %s", p->pid, q(b->name)); } p->pc++; break;
  case S_SIGINT: T("F SIGINT actor %d", p->pid); K->faults++; pending_int = 1; p->pc++; break;
  case S_CLOCKJUMP: T("F JUMP actor %ld", s->n); K->faults++; K->off += s->n; p->pc++; break;
  case S_JMP: p->pc = s->n; break;
  case S_COPYFILE: { int e; Node *n, *n2, *d; char last[NAME_MAX + 2]; walk(s->s, NULL, 1, &n, &e); d = walk(s->s2, last, 1, &n2, &e);
      if (n && d) { if (!n2) { n2 = new_node(N_FILE, 0644); dir_add(d, last, n2); } node_trunc(n2, 0); node_write(n2, 0, n->data, n->size); } p->pc++; break; }
  case S_TOOL: run_tool(i, o); break;
  default: p->pc++;
  }
  ME = sv;
  return 1;
}

/* a child running program PROG (script) with the given standard descriptors */
static int spawn_actor(Script *sc, const char *argv0, Ofd *fds[], int nfds)
{
  int i = new_proc(P_ACTOR), k; Proc *p = &K->p[i];
  p->script = sc; snprintf(p->argv0, sizeof p->argv0, "%s", argv0); strcpy(p->cwd, ME->cwd); p->cwdn = ME->cwdn;
  for (k = 0; k < nfds; k++) if (fds[k]) { p->fd[k] = fds[k]; fds[k]->ref++; }
  for (k = nfds; k < MAXFD; k++) if (ME->fd[k] && !ME->cloexec[k]) { p->fd[k] = ME->fd[k]; p->fd[k]->ref++; }
  K->nexec++; K->ver++;
  return i;
}
static int do_wait(int pid, int *status, int opt)
{
  int i, found, z;
  for (;;) {
    found = 0; z = -1;
    for (i = 0; i < K->np; i++) if (K->p[i].ppid == ME->pid && !K->p[i].nowait && K->p[i].state != P_FREE && i != me && (pid == -1 || K->p[i].pid == pid)) {
      found = 1; if (K->p[i].state == P_ZOMBIE) z = i; }
    if (!found) { errno = ECHILD; return -1; }
    if (z >= 0) { int r = K->p[z].pid; if (status) *status = K->p[z].status; K->p[z].state = P_FREE; T("s wait %d = %d %d", pid, r, K->p[z].status); return r; }
    if (opt & WNOHANG) return 0;
    ME->blocked = 1; ME->blockver = K->ver; ME->wake = -1;
    progress(-1, "wait"); ME->blocked = 0;
    if (pending_int) { deliver_sigint(); if (!(sa_int.sa_flags & SA_RESTART)) { errno = EINTR; return -1; } }
  }
}

/* ------------------------------------------------------------------ stdio on simulated descriptors */
typedef struct Ck { int fd; FILE *f; struct Ck *next; int popen_pid; } Ck;
static Ck *cks;
static void has(int i) { int k; for (k = 0; k < MAXFD; k++) if (K->p[i].fd[k]) T("A %d has %d %s", K->p[i].pid, k, q(K->p[i].fd[k]->name)); }
static Ck *ck_of(FILE *f) { Ck *c; for (c = cks; c; c = c->next) if (c->f == f) return c; return NULL; }
static ssize_t ck_read(void *c, char *b, size_t n) { ENTER("read"); ssize_t r = sim_read(((Ck *)c)->fd, b, n); int e = errno; insim = sv_; errno = e; return r; }
static ssize_t ck_write(void *c, const char *b, size_t n)
{
  /* like _IO_new_file_write: goes on after a short write, stops at an error */
  size_t done = 0; ENTER("write");
  while (done < n) { ssize_t r = sim_write(((Ck *)c)->fd, b + done, n - done); if (r < 0) break; done += r; }
  { int e = errno; insim = sv_; errno = e; }
  return done;
}
static off_t sim_lseek(int fd, off_t off, int wh);
static int ck_seek(void *c, off64_t *off, int wh) { ENTER("lseek"); off_t r = sim_lseek(((Ck *)c)->fd, *off, wh); int e = errno; insim = sv_; errno = e; if (r < 0) return -1; *off = r; return 0; }
static int sim_close(int fd);
static int ck_close(void *cv)
{
  Ck *c = cv, **pp; int r; ENTER("close");
  for (pp = &cks; *pp; pp = &(*pp)->next) if (*pp == c) { *pp = c->next; break; }
  r = sim_close(c->fd); { int e = errno; insim = sv_; errno = e; }
  if (r < 0) return -1;
  return 0;
}
static u8 ckmem[256 * sizeof(Ck)]; static int ckn; static Ck *ckfree;
static FILE *mkfile(int fd, const char *mode)
{
  Ck *c = ckfree; cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
  if (c) ckfree = c->next; else { if (ckn >= 256) die_raw("too many FILEs"); c = (Ck *)(ckmem + sizeof(Ck) * ckn++); }
  c->fd = fd; c->popen_pid = 0;
  c->f = fopencookie(c, mode, io);
  if (!c->f) return NULL;
  c->next = cks; cks = c; return c->f;
}

static off_t sim_lseek(int fd, off_t off, int wh)
{
  Ofd *o = fd_get(fd); off_t n; int e;
  if (!o) { errno = EBADF; return -1; }
  if (o->type == O_NULL || o->type == O_FULL || o->type == O_ZERO) return 0;
  if (o->type != O_FILE && o->type != O_DIRF) { errno = ESPIPE; return -1; }
  if ((e = fault_err("lseek", o->name))) { T("s lseek %d = %s", fd, err_name(e)); errno = e; return -1; }
  n = wh == SEEK_SET ? off : wh == SEEK_CUR ? o->off + off : o->node->size + off;
  if (n < 0) { errno = EINVAL; return -1; }
  o->off = n; T("s lseek %d %s %ld %d = %ld", fd, q(o->name), (long)off, wh, (long)n); return n;
}
static int sim_close(int fd)
{
  Ofd *o = fd_get(fd); int e;
  if (!o) { errno = EBADF; T("s close %d = EBADF", fd); return -1; }
  e = fault_err("close", o->name);
  T("s close %d %s = %s", fd, q(o->name), e ? err_name(e) : "0");
  fd_drop(ME, fd);                       /* Linux: the descriptor is released even on error */
  if (e) { errno = e; return -1; }
  return 0;
}

/* ------------------------------------------------------------------ the plan */
static char *planp, *plane;
static char *tok(void)
{
  char *s; while (planp < plane && *planp == ' ') planp++;
  if (planp >= plane || *planp == '\n') return NULL;
  s = planp; while (planp < plane && *planp != ' ' && *planp != '\n') planp++;
  if (planp < plane && *planp == ' ') *planp++ = 0;
  return s;
}
static long unq(char *s)                 /* in place; returns the length */
{
  char *d = s, *b = s;
  if (!s) return 0;
  if (s[0] == '-' && !s[1]) { s[0] = 0; return 0; }
  for (; *s; s++) { if (*s == '%' && s[1] && s[2]) { char h[3] = { s[1], s[2], 0 }; *d++ = (char)strtol(h, NULL, 16); s += 2; } else *d++ = *s; }
  *d = 0; return d - b;
}
static Step *add_step(Script *s)
{
  if (s->n == s->cap) { int nc = s->cap ? 2 * s->cap : 8; Step *nb = ka(nc * sizeof *nb); memcpy(nb, s->st, s->n * sizeof *nb); kf(s->st, s->cap * sizeof *nb); s->st = nb; s->cap = nc; }
  memset(&s->st[s->n], 0, sizeof(Step)); return &s->st[s->n++];
}
static char *kcopy(char *s, long n) { char *r = ka(n + 1); memcpy(r, s, n); return r; }
static void parse_step(Script *sc)
{
  char *op = tok(), *a, *b; Step *s = add_step(sc);
#define IS(x) (!strcmp(op, x))
  if (IS("w")) { s->op = S_WRITE; s->fd = atoi(tok()); a = tok(); s->slen = unq(a); s->s = kcopy(a, s->slen); }
  else if (IS("r")) { s->op = S_READ; s->fd = atoi(tok()); s->n = atol(tok()); }
  else if (IS("line")) { s->op = S_READLINE; s->fd = atoi(tok()); }
  else if (IS("R")) { s->op = S_READALL; s->fd = atoi(tok()); }
  else if (IS("expect")) { s->op = S_EXPECT; s->fd = atoi(tok()); a = tok(); s->slen = unq(a); s->s = kcopy(a, s->slen); }
  else if (IS("sleep")) { s->op = S_SLEEP; s->n = atol(tok()); s->fd = -1; }
  else if (IS("close")) { s->op = S_CLOSE; s->fd = atoi(tok()); }
  else if (IS("shutw")) { s->op = S_SHUTW; s->fd = atoi(tok()); }
  else if (IS("rst")) { s->op = S_RST; s->fd = atoi(tok()); }
  else if (IS("eof")) { s->op = S_EOFMARK; s->fd = atoi(tok()); }
  else if (IS("exit")) { s->op = S_EXIT; s->n = atol(tok()); s->fd = -1; }
  else if (IS("kill")) { s->op = S_KILL; s->n = atol(tok()); s->fd = -1; }
  else if (IS("file") || IS("append")) { s->op = IS("file") ? S_FILE : S_APPEND; s->fd = -1; a = tok(); unq(a); s->s2 = kdup(a); b = tok(); s->slen = unq(b); s->s = kcopy(b, s->slen); }
  else if (IS("unlink") || IS("mkdir")) { s->op = IS("unlink") ? S_UNLINK : S_MKDIR; s->fd = -1; a = tok(); unq(a); s->s2 = kdup(a); }
  else if (IS("cat")) { s->op = S_CAT; s->fd = atoi(tok()); s->fd2 = atoi(tok()); }
  else if (IS("connect") || IS("tryconnect")) { s->op = S_CONNECT; s->n = IS("tryconnect"); s->fd = atoi(tok()); a = tok(); unq(a); s->s = kdup(a); }
  else if (IS("listen")) { s->op = S_LISTEN; s->fd = atoi(tok()); a = tok(); unq(a); s->s = kdup(a); }
  else if (IS("accept")) { s->op = S_ACCEPT; s->fd = atoi(tok()); s->fd2 = atoi(tok()); }
  else if (IS("sigint")) { s->op = S_SIGINT; s->fd = -1; }
  else if (IS("jump")) { s->op = S_CLOCKJUMP; s->fd = -1; s->n = atol(tok()); }
  else if (IS("goto")) { s->op = S_JMP; s->fd = -1; s->n = atol(tok()); }
  else if (IS("tool")) { s->op = S_TOOL; s->fd = 2; }
  else if (IS("copy")) { s->op = S_COPYFILE; s->fd = -1; a = tok(); unq(a); s->s = kdup(a); a = tok(); unq(a); s->s2 = kdup(a); }
  else if (IS("hang")) { s->op = S_STOPWAIT; s->fd = -1; }
  else die_raw("bad actor step");
#undef IS
}
static Ofd *std_ofd[3];
static void load_plan(char *p, long n)
{
  Script *cur = NULL; int curact = -1;
  planp = p; plane = p + n;
  while (planp < plane) {
    char *nl = memchr(planp, '\n', plane - planp), *k; if (!nl) nl = plane;
    *nl = 0; { char *e = plane; plane = nl; k = tok();
      if (!k || k[0] == '#') ;
#define IS(x) (!strcmp(k, x))
      else if (IS("seed")) K->rng = strtoull(tok(), NULL, 10);
      else if (IS("t0")) { K->t0 = K->now = strtoll(tok(), NULL, 10); if (K->t0 < 0) { K->off0 = K->off = K->t0 - 1000000000000000000LL; K->t0 = K->now = 1000000000000000000LL; } }
      else if (IS("ut")) K->ut = strtoll(tok(), NULL, 10);
      else if (IS("st")) K->st = strtoll(tok(), NULL, 10);
      else if (IS("tick")) K->tick = atol(tok());
      else if (IS("bg")) K->bgp = atoi(tok());
      else if (IS("pid")) { K->p[0].pid = atoi(tok()); K->nextpid = K->p[0].pid + 1; }
      else if (IS("maxfd")) K->maxfd = atol(tok());
      else if (IS("maxsteps")) K->maxsteps = atol(tok());
      else if (IS("pipecap")) K->pipecap = atoi(tok());
      else if (IS("disk")) K->disk_limit = atol(tok());
      else if (IS("cwd")) { char *a = tok(); unq(a); snprintf(K->p[0].cwd, sizeof K->p[0].cwd, "%s", a); K->p[0].cwdn = mkpath(a, N_DIR, 0755); }
      else if (IS("dir")) { char *a = tok(); int m = strtol(tok(), NULL, 8); unq(a); mkpath(a, N_DIR, m); }
      else if (IS("file")) { char *a = tok(), *b; int m = strtol(tok(), NULL, 8); Node *nd; long l; unq(a); b = tok(); l = unq(b); nd = mkpath(a, N_FILE, m); node_write(nd, 0, b, l); }
      else if (IS("lnk")) { char *a = tok(), *b; Node *nd; unq(a); b = tok(); unq(b); nd = mkpath(a, N_LNK, 0777); node_write(nd, 0, b, strlen(b)); }
      else if (IS("chr")) { char *a = tok(); Node *nd = mkpath(a, N_CHR, 0666); nd->dev = atoi(tok()); }
      else if (IS("size")) { char *a = tok(); Node *nd; int er; unq(a); walk(a, NULL, 1, &nd, &er); if (nd) nd->vsize = strtol(tok(), NULL, 10); }
      else if (IS("utime")) { char *a = tok(); Node *nd; int er; unq(a); walk(a, NULL, 1, &nd, &er); if (nd) { nd->mtime = strtoll(tok(), NULL, 10); nd->atime = strtoll(tok(), NULL, 10); nd->ctime = strtoll(tok(), NULL, 10); } }
      else if (IS("host")) { char *a = tok(), *b = tok(); snprintf(K->host[K->nhost].name, 320, "%s", a); snprintf(K->host[K->nhost].ip, 32, "%s", b); K->nhost++; }
      else if (IS("cols")) K->tty_cols = atoi(tok());
      else if (IS("rdorder")) K->rdorder = atoi(tok());
      else if (IS("chunk")) { char *a = tok(); unq(a); snprintf(K->ch[K->nch].match, 256, "%s", a); K->ch[K->nch].max = atoi(tok()); K->nch++; }
      else if (IS("fault")) { Fault *f = &K->f[K->nf]; char *a;
        if (K->nf >= MAXFAULT) die_raw("too many faults");
        snprintf(f->call, sizeof f->call, "%s", tok()); a = tok(); unq(a); snprintf(f->match, sizeof f->match, "%s", a);
        f->nth = atol(tok()); f->count = atol(tok()); a = tok();
        if (!strcmp(a, "short")) { f->act = FA_SHORT; f->arg = atol(tok()); }
        else if (!strcmp(a, "sigint")) f->act = FA_SIGINT;
        else if (!strcmp(a, "jump")) { f->act = FA_JUMP; f->arg = atol(tok()); }
        else if (!strcmp(a, "val")) { f->act = 9; f->arg = atol(tok()); }
        else { f->act = FA_ERR; f->arg = err_of(a); }
        K->nf++; }
      else if (IS("sigat")) { if (K->nsig < 32) K->sig_at[K->nsig++] = atol(tok()); }
      else if (IS("tool")) { int n = atoi(tok()); char *a = tok(); if (n < 0 || n > 63) die_raw("tool"); if (!strcmp(a, "say")) { a = tok(); K->tool[n].sayl = unq(a); K->tool[n].say = ka(K->tool[n].sayl + 1); memcpy(K->tool[n].say, a, K->tool[n].sayl); } else { K->tool[n].kind = a[0]; K->tool[n].n = atol(tok()); } }
      else if (IS("mfail")) { K->mfail_at = atol(tok()); K->mfail_n = atol(tok()); }
      else if (IS("memcount")) K->memcount = 1;
      else if (IS("prog")) { char *a = tok(); unq(a); if (K->nprog >= MAXPROG) die_raw("progs"); cur = &K->prog[K->nprog++]; snprintf(cur->name, sizeof cur->name, "%s", a); curact = -1; }
      else if (IS("actor")) { char *a = tok(); int i = new_proc(P_ACTOR); cur = &K->act[K->nact++]; snprintf(cur->name, sizeof cur->name, "%s", a); K->p[i].script = cur; K->p[i].nowait = 1; strcpy(K->p[i].cwd, "/"); curact = i; T("A %d is %s", K->p[i].pid, a); }
      else if (IS("do")) parse_step(cur);
      else if (IS("std")) { int f = atoi(tok()); char *t = tok(); Ofd *o = NULL;
        if (!strcmp(t, "tty")) { tty_init(); o = new_ofd(O_TTY, "tty"); o->in = K->tty_in; o->out = K->tty_out; o->in->readers++; o->out->writers++; o->flags = O_RDWR; }
        else if (!strcmp(t, "null")) { o = new_ofd(O_NULL, "/dev/null"); o->flags = O_RDWR; }
        else if (!strcmp(t, "full")) { o = new_ofd(O_FULL, "/dev/full"); o->flags = O_RDWR; }
        else if (!strcmp(t, "pipe")) { char nm[16]; Chan *c; snprintf(nm, sizeof nm, "std%d", f); c = new_chan(nm, 1 << 20); o = new_ofd(f == 0 ? O_PIPER : O_PIPEW, nm); if (f == 0) { o->in = c; c->readers = 1; } else { o->out = c; c->writers = 1; c->readers = 1; } o->flags = f == 0 ? O_RDONLY : O_WRONLY; }
        else if (!strcmp(t, "file")) { char *a = tok(); Node *nd; unq(a); nd = mkpath(a, N_FILE, 0644); o = new_ofd(O_FILE, a); o->node = nd; o->flags = f == 0 ? O_RDONLY : O_WRONLY | O_APPEND; }
        else if (!strcmp(t, "same")) { o = std_ofd[atoi(tok())]; }
        std_ofd[f] = o; if (ME->fd[f]) fd_drop(ME, f); ME->fd[f] = o; o->ref++; }
      else if (IS("attach")) { int f = atoi(tok()); char *t = tok(); Ofd *o = new_ofd(O_SOCK, t); o->sstate = 3; o->flags = O_RDWR;   /* to the current actor */
        if (!strcmp(t, "tty")) { o->out = K->tty_in; o->in = K->tty_out; snprintf(o->name, sizeof o->name, "user"); }
        else if (!strcmp(t, "stdin")) { o->out = std_ofd[0]->in; o->out->writers++; }
        else if (!strcmp(t, "stdout")) { o->in = std_ofd[1]->out; }
        o->ref++; K->p[curact].fd[f] = o; }
      else if (IS("op")) { while (planp < plane && *planp == ' ') planp++; if (K->nop >= MAXOP) die_raw("ops"); K->op[K->nop++] = kdup(planp); }
      else die_raw(k);
      plane = e; planp = nl + 1; }
  }
#undef IS
}

/* ------------------------------------------------------------------ start and end */
static void init_real(void)
{
  r_malloc = dlsym(RTLD_NEXT, "malloc"); r_calloc = dlsym(RTLD_NEXT, "calloc"); r_realloc = dlsym(RTLD_NEXT, "realloc");
  r_sigaction = dlsym(RTLD_NEXT, "sigaction"); r_fork = dlsym(RTLD_NEXT, "fork"); r_fclose = dlsym(RTLD_NEXT, "fclose");
  r_fopen = dlsym(RTLD_NEXT, "fopen"); r_mmap = dlsym(RTLD_NEXT, "mmap");
}
static void dump_end(const char *why, int status)
{
  int i; long nfd = 0;
  if (K->ended) return; K->ended = 1;
  for (i = 0; i < MAXFD; i++) if (ME->fd[i]) { nfd++; T("D fd %d %s", i, q(ME->fd[i]->name)); { long long w; if (sim_ready(i, 'r', &w)) T("D ready %d r %lld", i, w); if (sim_ready(i, 'w', &w)) T("D ready %d w %lld", i, w); } }
  for (i = 0; i < K->np; i++) if (i != me && K->p[i].state != P_FREE && !K->p[i].nowait) T("D proc %d %s %d", K->p[i].pid, K->p[i].state == P_ZOMBIE ? "zombie" : "alive", K->p[i].status);
  for (i = 0; i < K->np; i++) if (K->p[i].nowait && K->p[i].state == P_ACTOR) T("D actor %d pc %d of %d", K->p[i].pid, K->p[i].pc, K->p[i].script->n);
  T("D fired %d", K->faults);
  T("D now %lld elapsed %lld calls %ld steps %ld actsteps %ld malloc %ld mfired %ld hist %016llx", (long long)K->now, (long long)(K->now - K->t0), K->ncall, K->steps, K->actsteps, K->nmalloc, K->mfired, (unsigned long long)K->hist);
  T("END %s %d", why, status);
}
static void dump_fs(Node *d, char *path)
{
  int i; size_t l = strlen(path);
  for (i = 0; i < d->nent; i++) {
    Node *n = d->ent[i].node; if (l + strlen(d->ent[i].name) + 2 > 1000) continue;
    sprintf(path + l, "/%s", d->ent[i].name);
    if (n->type == N_DIR) { T("D dir %s %o", q(path), n->mode); dump_fs(n, path); }
    else if (n->type == N_FILE) { tf("D file %s %o ", q(path), n->mode); thex(n->data, n->size); tnl(); }
    else if (n->type != N_CHR) T("D other %s", q(path));
    path[l] = 0;
  }
}
static int exit_status;
static void at_end(int status, void *arg)
{
  if (!on) return;
  fflush(NULL);                          /* what _IO_cleanup does next anyway */
  insim = 1;
  if (me == 0) { char p[1100] = ""; dump_fs(K->root, p); dump_end("exit", status & 255); on = 0; kill_real_children(); }
  else {                                 /* a forked copy ends: back to the one that is waiting */
    int i, pi = 0; T("s _exit %d", status & 255);
    proc_end(me, (status & 255) << 8);
    for (i = 0; i < K->np; i++) if (K->p[i].pid == ME->ppid) pi = i;
    pass_token(pi); raw_exit(0);
  }
}
static void crash_handler_note(void) {}
static int dlcb(void) { return 0; }

extern char __executable_start[] __attribute__((weak));
static void find_exe(void)
{
  /* the address range of the main program, from the auxiliary vector and its program headers */
  char buf[8192]; int fd = syscall(SYS_openat, AT_FDCWD, "/proc/self/maps", O_RDONLY, 0); long n, k = 0; char exe[512]; char *l, *sv;
  long en = syscall(SYS_readlinkat, AT_FDCWD, "/proc/self/exe", exe, sizeof exe - 1); if (en > 0) exe[en] = 0; else exe[0] = 0;
  if (fd < 0) return;
  while ((n = syscall(SYS_read, fd, buf + k, sizeof buf - 1 - k)) > 0) k += n;
  buf[k] = 0; syscall(SYS_close, fd);
  for (l = strtok_r(buf, "\n", &sv); l; l = strtok_r(NULL, "\n", &sv)) if (exe[0] && strstr(l, exe)) {
    uintptr_t a, b; if (sscanf(l, "%lx-%lx", &a, &b) == 2) { if (!exe_lo || a < exe_lo) exe_lo = a; if (b > exe_hi) exe_hi = b; } }
}

__attribute__((constructor)) static void sim_init(void)
{
  char *pf = getenv("SIM_PLAN"), *tfd = getenv("SIM_TRACE"); int fd; struct stat st; char *plan; size_t as = 192UL << 20;
  init_real();
  if (!pf || !tfd) return;
  find_exe();
  K = (Kern *)syscall(SYS_mmap, (void *)0x300000000000UL, sizeof(Kern), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
  if (K == MAP_FAILED) raw_exit(96);
  K->arena = (char *)syscall(SYS_mmap, (void *)0x310000000000UL, as, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0); K->asize = as;
  fd = atoi(tfd); syscall(SYS_fstat, fd, &st); K->tcap = st.st_size - 16;
  K->trace = (char *)syscall(SYS_mmap, (void *)0x320000000000UL, st.st_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
  fd = atoi(pf); syscall(SYS_fstat, fd, &st);
  plan = (char *)syscall(SYS_mmap, NULL, st.st_size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  { long n = 0, r; while (n < st.st_size && (r = syscall(SYS_pread64, fd, plan + n, st.st_size - n, n)) > 0) n += r; }
  insim = 1; on = 1;
  ME = &K->p[0]; me = 0; K->np = 1; ME->state = P_REAL; ME->pid = 4242; ME->ppid = 1; ME->real = syscall(SYS_getpid); strcpy(ME->cwd, "/home/user"); K->nextpid = 4243;
  K->token = 0; K->now = K->t0 = 1700000000LL * 1000000000LL; K->tick = 1000; K->rng = 1; K->maxfd = 64; K->disk_limit = -1; K->maxsteps = 2000000; K->pipecap = 65536; K->nextport = 41000;
  K->tty_cols = 80; K->tty_rows = 25; K->bgp = 20;
  K->tio.c_lflag = ICANON | ECHO | ISIG; K->tio.c_iflag = ICRNL; K->tio.c_cc[VMIN] = 1; K->tio.c_cc[VINTR] = 3; K->tio.c_cc[VEOF] = 4; K->tio.c_cc[VERASE] = 127; K->tio.c_cc[VSUSP] = 26; K->tio.c_cc[VKILL] = 21;
  K->root = new_node(N_DIR, 0755); mkpath("/tmp", N_DIR, 0777); mkpath("/home/user", N_DIR, 0755);
  { Node *d; d = mkpath("/dev/null", N_CHR, 0666); d->dev = 1; d = mkpath("/dev/full", N_CHR, 0666); d->dev = 2; d = mkpath("/dev/zero", N_CHR, 0666); d->dev = 4; }
  load_plan(plan, st.st_size);
  { int i; for (i = 0; i < 3; i++) if (!ME->fd[i]) { Ofd *o = NULL;
      if (i == 0) { o = new_ofd(O_NULL, "/dev/null"); o->flags = O_RDWR; }
      else { char nm[16]; Chan *c; snprintf(nm, sizeof nm, "std%d", i); c = new_chan(nm, 1 << 26); o = new_ofd(O_PIPEW, nm); o->out = c; c->writers = 1; c->readers = 1; o->flags = O_WRONLY; }
      std_ofd[i] = o; ME->fd[i] = o; o->ref++; } }
  stdin = mkfile(0, "r"); stdout = mkfile(1, "w"); stderr = mkfile(2, "w");
  setvbuf(stderr, NULL, _IONBF, 0);
  on_exit(at_end, NULL);
  if (getenv("SIM_BUFLINE") || ME->fd[1]->type == O_TTY) setvbuf(stdout, NULL, _IOLBF, BUFSIZ);
  insim = 0;
  (void)crash_handler_note; (void)dlcb; (void)exit_status; (void)sinth;
}

/* ------------------------------------------------------------------ for the driver */
EXPORT const char *sim_next_op(void) { if (!on || K->iop >= K->nop) return NULL; T("O %d t %lld off %lld ut %lld st %lld", K->iop, (long long)(K->now - K->t0), (long long)(K->off - K->off0), (long long)K->ut, (long long)K->st); return K->op[K->iop++]; }
EXPORT void sim_log(const char *s, long n) { if (!on) return; traw("L ", 2); traw(s, n); tnl(); }
EXPORT long long sim_now(void) { return on ? K->now : 0; }
EXPORT long long sim_elapsed(void) { return on ? K->now - K->t0 : 0; }
EXPORT void sim_advance(long long ns, long long utns) { if (on) { K->now += ns; K->ut += utns; } }
EXPORT void sim_clocks(long long ns, long long utns, long long stns, long long off) { if (on) { K->now += ns; K->ut += utns; K->st += stns; K->off += off; if (off) { T("F JUMP program %lld", off); K->faults++; } } }
static int rd_ready(Ofd *o); static int wr_ready(Ofd *o);
/* the truth about a descriptor now: 0 not ready, 1 ready, and since when (0: not known); what: 'r' or 'w' */
EXPORT int sim_ready(int fd, int what, long long *since)
{
  Ofd *o = on && fd >= 0 && fd < MAXFD ? ME->fd[fd] : NULL; *since = 0;
  if (!o || !(what == 'r' ? rd_ready(o) : wr_ready(o))) return 0;
  if (what == 'r') {
    if (o->type == O_SOCK && o->sstate == 2) *since = 0;
    else if (o->in && (o->type == O_PIPER || o->type == O_TTY || o->type == O_SOCK)) *since = o->in->rst ? 0 : o->in->shead < o->in->stail ? o->in->seg[o->in->shead].at : o->in->eof_at;
  } else if (o->out && !o->out->rst && (o->type == O_PIPEW || o->type == O_SOCK)) *since = o->out->readers ? o->out->rdat : 0;
  if (*since) *since -= K->t0;
  return 1;
}
EXPORT int sim_active(void) { return on; }
EXPORT void sim_request_int(void) { if (on) { pending_int = 1; insim = 1; deliver_sigint(); insim = 0; } }

/* ------------------------------------------------------------------ interposed: files */
#define PASS(name, ...) ({ static __typeof__(&name) f_; if (!f_) f_ = dlsym(RTLD_NEXT, #name); f_(__VA_ARGS__); })

static int do_open(const char *path, int flags, int mode)
{
  int e, fd; Ofd *o; ENTER("open");
  o = sim_openf(path, flags, mode, &e);
  if (!o) { T("s open %s %x = %s", q(path), flags, err_name(e)); FAIL(e); }
  fd = fd_alloc(ME, o, 0);
  if (fd < 0) { ofd_free(o); T("s open %s = EMFILE", q(path)); FAIL(EMFILE); }
  if (flags & O_CLOEXEC) ME->cloexec[fd] = 1;
  T("s open %s %x = %d", q(path), flags, fd);
  LEAVE(fd);
}
EXPORT int open(const char *p, int fl, ...) { va_list ap; int m = 0; if (fl & O_CREAT) { va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } if (!on) return PASS(open, p, fl, m); return do_open(p, fl, m); }
EXPORT int open64(const char *p, int fl, ...) { va_list ap; int m = 0; if (fl & O_CREAT) { va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } if (!on) return PASS(open64, p, fl, m); return do_open(p, fl, m); }
EXPORT int __open_2(const char *p, int fl) { if (!on) return PASS(open, p, fl); return do_open(p, fl, 0); }
EXPORT int creat(const char *p, mode_t m) { if (!on) return PASS(creat, p, m); return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT ssize_t read(int fd, void *b, size_t n) { if (!on) return PASS(read, fd, b, n); ENTER("read"); ssize_t r = sim_read(fd, b, n); LEAVE(r); }
EXPORT ssize_t __read_chk(int fd, void *b, size_t n, size_t bl) { return read(fd, b, n); }
EXPORT ssize_t write(int fd, const void *b, size_t n) { if (!on) return PASS(write, fd, b, n); ENTER("write"); ssize_t r = sim_write(fd, b, n); LEAVE(r); }
EXPORT int close(int fd) { if (!on) return PASS(close, fd); ENTER("close"); int r = sim_close(fd); LEAVE(r); }
EXPORT off_t lseek(int fd, off_t o, int w) { if (!on) return PASS(lseek, fd, o, w); ENTER("lseek"); off_t r = sim_lseek(fd, o, w); LEAVE(r); }
EXPORT off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
EXPORT int dup(int fd)
{
  if (!on) return PASS(dup, fd);
  ENTER("dup"); Ofd *o = fd_get(fd); int r, e; if (!o) FAIL(EBADF);
  if ((e = fault_err("dup", o->name))) { T("s dup %d = %s", fd, err_name(e)); FAIL(e); }
  r = fd_alloc(ME, o, 0); if (r < 0) { T("s dup %d = EMFILE", fd); FAIL(EMFILE); } T("s dup %d = %d", fd, r); LEAVE(r);
}
EXPORT int dup2(int a, int b)
{
  if (!on) return PASS(dup2, a, b);
  ENTER("dup2"); Ofd *o = fd_get(a); int e; if (!o || b < 0 || b >= MAXFD) FAIL(EBADF);
  if (a == b) LEAVE(b);
  if ((e = fault_err("dup2", o->name))) { T("s dup2 %d %d = %s", a, b, err_name(e)); FAIL(e); }
  o->ref++; if (ME->fd[b]) fd_drop(ME, b);
  ME->fd[b] = o; ME->cloexec[b] = 0; T("s dup2 %d %d", a, b); LEAVE(b);
}
EXPORT int fcntl(int fd, int cmd, ...)
{
  va_list ap; long arg; va_start(ap, cmd); arg = va_arg(ap, long); va_end(ap);
  if (!on) return PASS(fcntl, fd, cmd, arg);
  ENTER("fcntl"); Ofd *o = fd_get(fd); int r, e; if (!o) FAIL(EBADF);
  switch (cmd) {
  case F_DUPFD: case F_DUPFD_CLOEXEC: r = fd_alloc(ME, o, (int)arg); if ((e = fault_err("dup", o->name))) { if (r >= 0) fd_drop(ME, r); T("s dup %d = %s", fd, err_name(e)); FAIL(e); } if (r < 0) { T("s dup %d = EMFILE", fd); FAIL(EMFILE); } ME->cloexec[r] = cmd == F_DUPFD_CLOEXEC; T("s dup %d = %d", fd, r); LEAVE(r);
  case F_GETFD: LEAVE(ME->cloexec[fd]); case F_SETFD: ME->cloexec[fd] = arg & 1; LEAVE(0);
  case F_GETFL: LEAVE(o->flags); case F_SETFL: o->flags = (o->flags & ~(O_NONBLOCK | O_APPEND)) | (arg & (O_NONBLOCK | O_APPEND)); LEAVE(0);
  }
  LEAVE(0);
}
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; long arg; va_start(ap, cmd); arg = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, arg); }
EXPORT int pipe(int p[2])
{
  if (!on) return PASS(pipe, p);
  ENTER("pipe"); int e = fault_err("pipe", "pipe"), a, b; Ofd *r, *w; Chan *c; char nm[32];
  if (e) { T("s pipe = %s", err_name(e)); FAIL(e); }
  K->npipe++; snprintf(nm, sizeof nm, "pipe:%d", K->npipe); c = new_chan(nm, K->pipecap);
  r = new_ofd(O_PIPER, nm); r->in = c; c->readers = 1; r->flags = O_RDONLY;
  w = new_ofd(O_PIPEW, nm); w->out = c; c->writers = 1; w->flags = O_WRONLY;
  a = fd_alloc(ME, r, 0); b = a < 0 ? -1 : fd_alloc(ME, w, 0);
  if (a < 0 || b < 0) { if (a >= 0) fd_drop(ME, a); else ofd_free(r); ofd_free(w); T("s pipe = EMFILE"); FAIL(EMFILE); }
  p[0] = a; p[1] = b; T("s pipe = %d %d %s", a, b, nm); LEAVE(0);
}
EXPORT int pipe2(int p[2], int fl)
{
  if (!on) return PASS(pipe2, p, fl);
  int r = pipe(p);
  if (!r) { if (fl & O_CLOEXEC) ME->cloexec[p[0]] = ME->cloexec[p[1]] = 1; if (fl & O_NONBLOCK) { ME->fd[p[0]]->flags |= O_NONBLOCK; ME->fd[p[1]]->flags |= O_NONBLOCK; } }
  return r;
}
EXPORT int dup3(int a, int b, int fl) { if (!on) return PASS(dup3, a, b, fl); if (a == b) { errno = EINVAL; return -1; } int r = dup2(a, b); if (r >= 0) ME->cloexec[b] = (fl & O_CLOEXEC) != 0; return r; }
EXPORT int isatty(int fd) { if (!on) return PASS(isatty, fd); Ofd *o = fd_get(fd); if (!o) { errno = EBADF; return 0; } if (o->type == O_TTY) return 1; errno = ENOTTY; return 0; }
EXPORT char *ttyname(int fd) { if (!on) return PASS(ttyname, fd); return isatty(fd) ? (char *)"/dev/tty" : NULL; }
EXPORT int tcgetattr(int fd, struct termios *t) { if (!on) return PASS(tcgetattr, fd, t); if (!isatty(fd)) return -1; *t = K->tio; return 0; }
EXPORT int tcsetattr(int fd, int w, const struct termios *t) { if (!on) return PASS(tcsetattr, fd, w, t); if (!isatty(fd)) return -1; K->tio = *t; return 0; }
EXPORT int ioctl(int fd, unsigned long req, ...)
{
  va_list ap; void *a; va_start(ap, req); a = va_arg(ap, void *); va_end(ap);
  if (!on) return PASS(ioctl, fd, req, a);
  Ofd *o = fd_get(fd); if (!o) { errno = EBADF; return -1; }
  if (req == TIOCGWINSZ) { struct winsize *w = a; if (o->type != O_TTY) { errno = ENOTTY; return -1; } memset(w, 0, sizeof *w); w->ws_col = K->tty_cols; w->ws_row = K->tty_rows; return 0; }
  if (req == TCGETS && o->type == O_TTY) { *(struct termios *)a = K->tio; return 0; }
  if (req == FIONREAD) { *(int *)a = o->in ? (int)chan_avail(o->in) : o->node ? (int)(o->node->size - o->off) : 0; return 0; }
  errno = ENOTTY; return -1;
}
static void fill_stat(Node *n, struct stat *st)
{
  memset(st, 0, sizeof *st); st->st_ino = n->ino; st->st_nlink = n->type == N_DIR ? 2 : n->nlink; st->st_size = n->type == N_DIR ? 4096 : n->vsize ? n->vsize : n->size; st->st_uid = st->st_gid = 1000; st->st_dev = 7; st->st_blksize = 4096;
  st->st_mode = n->mode | (n->type == N_FILE ? S_IFREG : n->type == N_DIR ? S_IFDIR : n->type == N_LNK ? S_IFLNK : n->type == N_SOCK ? S_IFSOCK : S_IFCHR);
  st->st_atim.tv_sec = fsec(n->atime); st->st_atim.tv_nsec = fnsec(n->atime);
  st->st_mtim.tv_sec = fsec(n->mtime); st->st_mtim.tv_nsec = fnsec(n->mtime);
  st->st_ctim.tv_sec = fsec(n->ctime); st->st_ctim.tv_nsec = fnsec(n->ctime);
}
static int do_stat(const char *path, struct stat *st, int follow)
{
  ENTER("stat"); Node *n; int e; char ap[PATH_MAX + 8]; abs_path(path, ap);
  if ((e = fault_err("stat", ap))) { T("s stat %s = %s", q(path), err_name(e)); FAIL(e); }
  walk(path, NULL, follow, &n, &e); if (!n) { T("s stat %s = %s", q(path), err_name(e)); FAIL(e ? e : ENOENT); }
  fill_stat(n, st); T("s stat %s = 0", q(path)); LEAVE(0);
}
EXPORT int stat(const char *p, struct stat *st) { if (!on) return PASS(stat, p, st); return do_stat(p, st, 1); }
EXPORT int lstat(const char *p, struct stat *st) { if (!on) return PASS(lstat, p, st); return do_stat(p, st, 0); }
EXPORT int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
EXPORT int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
EXPORT int fstat(int fd, struct stat *st)
{
  if (!on) return PASS(fstat, fd, st);
  ENTER("fstat"); Ofd *o = fd_get(fd); int e; if (!o) FAIL(EBADF);
  if ((e = fault_err("fstat", o->name))) FAIL(e);
  if (o->node) fill_stat(o->node, st);
  else { memset(st, 0, sizeof *st); st->st_mode = 0600 | (o->type == O_SOCK ? S_IFSOCK : o->type == O_TTY || o->type == O_NULL || o->type == O_FULL || o->type == O_ZERO ? S_IFCHR : S_IFIFO); }
  T("s fstat %d = 0", fd); LEAVE(0);
}
EXPORT int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
EXPORT int access(const char *p, int m)
{
  if (!on) return PASS(access, p, m);
  ENTER("access"); Node *n; int e; char ap[PATH_MAX + 8]; abs_path(p, ap);
  if ((e = fault_err("access", ap))) { T("s access %s = %s", q(p), err_name(e)); FAIL(e); }
  walk(p, NULL, 1, &n, &e); if (!n) { T("s access %s %d = %s", q(p), m, err_name(e)); FAIL(e ? e : ENOENT); }
  if (((m & R_OK) && !may(n, 4)) || ((m & W_OK) && !may(n, 2)) || ((m & X_OK) && !may(n, 1))) { T("s access %s %d = EACCES", q(p), m); FAIL(EACCES); }
  T("s access %s %d = 0", q(p), m); LEAVE(0);
}
EXPORT int mkdir(const char *p, mode_t m)
{
  if (!on) return PASS(mkdir, p, m);
  ENTER("mkdir"); Node *d, *n; int e; char last[NAME_MAX + 2]; char ap[PATH_MAX + 8]; abs_path(p, ap);
  if ((e = fault_err("mkdir", ap))) { T("s mkdir %s = %s", q(p), err_name(e)); FAIL(e); }
  d = walk(p, last, 0, &n, &e);
  if (n) e = EEXIST; else if (!d) ; else if (!may(d, 2)) e = EACCES; else e = 0;
  if (e) { T("s mkdir %s = %s", q(p), err_name(e)); FAIL(e); }
  dir_add(d, last, new_node(N_DIR, m & 0755)); T("s mkdir %s %o = 0", q(p), m); LEAVE(0);
}
EXPORT int rmdir(const char *p)
{
  if (!on) return PASS(rmdir, p);
  ENTER("rmdir"); Node *d, *n; int e; char last[NAME_MAX + 2]; char ap[PATH_MAX + 8]; abs_path(p, ap);
  if ((e = fault_err("rmdir", ap))) { T("s rmdir %s = %s", q(p), err_name(e)); FAIL(e); }
  d = walk(p, last, 0, &n, &e);
  if (!n) e = e ? e : ENOENT; else if (n->type != N_DIR) e = ENOTDIR; else if (n == K->root) e = EBUSY; else if (!strcmp(last, ".")) e = EINVAL; else if (!strcmp(last, "..")) e = ENOTEMPTY; else if (n->nent) e = ENOTEMPTY; else if (!may(d, 2)) e = EACCES; else e = 0;
  if (e) { T("s rmdir %s = %s", q(p), err_name(e)); FAIL(e); }
  dir_del(d, last); T("s rmdir %s = 0", q(p)); LEAVE(0);
}
EXPORT int unlink(const char *p)
{
  if (!on) return PASS(unlink, p);
  ENTER("unlink"); Node *d, *n; int e; char last[NAME_MAX + 2]; char ap[PATH_MAX + 8]; abs_path(p, ap);
  if ((e = fault_err("unlink", ap))) { T("s unlink %s = %s", q(p), err_name(e)); FAIL(e); }
  d = walk(p, last, 0, &n, &e);
  if (!n) e = e ? e : ENOENT; else if (n->type == N_DIR) e = EISDIR; else if (!may(d, 2)) e = EACCES; else e = 0;
  if (e) { T("s unlink %s = %s", q(p), err_name(e)); FAIL(e); }
  dir_del(d, last); if (n->nlink == 0) K->disk_used -= n->size; T("s unlink %s = 0", q(p)); LEAVE(0);
}
EXPORT int remove(const char *p) { struct stat st; if (!on) return PASS(remove, p); if (lstat(p, &st)) return -1; return S_ISDIR(st.st_mode) ? rmdir(p) : unlink(p); }
EXPORT int rename(const char *a, const char *b)
{
  if (!on) return PASS(rename, a, b);
  ENTER("rename"); Node *d1, *n1, *d2, *n2, *x; int e; char l1[NAME_MAX + 2], l2[NAME_MAX + 2]; char ap[PATH_MAX + 8]; abs_path(a, ap);
  if ((e = fault_err("rename", ap))) { T("s rename %s %s = %s", q(a), q(b), err_name(e)); FAIL(e); }
  d1 = walk(a, l1, 0, &n1, &e);
  if (!n1) { e = e ? e : ENOENT; goto bad; }
  d2 = walk(b, l2, 0, &n2, &e);
  if (!d2) goto bad;
  e = 0;
  if (n1 == K->root || !strcmp(l1, ".") || !strcmp(l1, "..") || !strcmp(l2, ".") || !strcmp(l2, "..")) { e = EBUSY; goto bad; }
  if (!may(d1, 2) || !may(d2, 2)) { e = EACCES; goto bad; }
  if (n1 == n2) { T("s rename %s %s = 0", q(a), q(b)); LEAVE(0); }
  if (n1->type == N_DIR) for (x = d2; x; x = x->parent) if (x == n1) { e = EINVAL; goto bad; }
  if (n2) {
    if (n2->type == N_DIR && n1->type != N_DIR) { e = EISDIR; goto bad; }
    if (n2->type != N_DIR && n1->type == N_DIR) { e = ENOTDIR; goto bad; }
    if (n2->type == N_DIR && n2->nent) { e = ENOTEMPTY; goto bad; }
    dir_del(d2, l2);
  } else if (n1->type != N_DIR && b[0] && b[strlen(b)-1] == '/') { e = ENOTDIR; goto bad; }
  n1->nlink++; dir_del(d1, l1); dir_add(d2, l2, n1); n1->nlink--;
  T("s rename %s %s = 0", q(a), q(b)); LEAVE(0);
bad:
  T("s rename %s %s = %s", q(a), q(b), err_name(e)); FAIL(e);
}
EXPORT int chmod(const char *p, mode_t m) { if (!on) return PASS(chmod, p, m); ENTER("chmod"); Node *n; int e; walk(p, NULL, 1, &n, &e); if (!n) FAIL(e ? e : ENOENT); n->mode = m & 07777; LEAVE(0); }
EXPORT int truncate(const char *p, off_t l) { if (!on) return PASS(truncate, p, l); ENTER("truncate"); Node *n; int e; walk(p, NULL, 1, &n, &e); if (!n) FAIL(e ? e : ENOENT); node_trunc(n, l); LEAVE(0); }
EXPORT int fsync(int fd) { if (!on) return PASS(fsync, fd); return 0; }
EXPORT ssize_t readlink(const char *p, char *b, size_t n) { if (!on) return PASS(readlink, p, b, n); ENTER("readlink"); Node *d; int e; walk(p, NULL, 0, &d, &e); if (!d) FAIL(e ? e : ENOENT); if (d->type != N_LNK) FAIL(EINVAL); size_t l = (size_t)d->size < n ? (size_t)d->size : n; memcpy(b, d->data, l); LEAVE((ssize_t)l); }
EXPORT int chdir(const char *p)
{
  if (!on) return PASS(chdir, p);
  ENTER("chdir"); Node *n; int e; char ap[PATH_MAX + 8]; abs_path(p, ap);
  if ((e = fault_err("chdir", ap))) { T("s chdir %s = %s", q(p), err_name(e)); FAIL(e); }
  walk(p, NULL, 1, &n, &e); if (!n) e = e ? e : ENOENT; else if (n->type != N_DIR) e = ENOTDIR; else if (!may(n, 1)) e = EACCES; else e = 0;
  if (!e) { char out[PATH_MAX]; if (node_path(n, out, sizeof out) || strlen(out) >= sizeof ME->cwd) e = ENAMETOOLONG; else { strcpy(ME->cwd, out); ME->cwdn = n; } }
  if (e) { T("s chdir %s = %s", q(p), err_name(e)); FAIL(e); }
  T("s chdir %s = 0", q(p)); LEAVE(0);
}
EXPORT char *getcwd(char *b, size_t n)
{
  if (!on) return PASS(getcwd, b, n);
  ENTER("getcwd"); int e = fault_err("getcwd", ME->cwd); if (!e && !cwd_node()) e = ENOENT; if (!e && strlen(ME->cwd) + 1 > n) e = ERANGE;
  insim = sv_; if (e) { T("s getcwd = %s", err_name(e)); errno = e; return NULL; }
  T("s getcwd = %s", q(ME->cwd)); if (!b) return strdup(ME->cwd); strcpy(b, ME->cwd); return b;
}
EXPORT char *__getcwd_chk(char *b, size_t n, size_t bl) { return getcwd(b, n); }
EXPORT char *realpath(const char *p, char *r)
{
  if (!on) return PASS(realpath, p, r);
  ENTER("realpath"); Node *n; int e; char ap[PATH_MAX + 8], *res = NULL;
  abs_path(p, ap);
  if (!(e = fault_err("realpath", ap))) {
    char last[NAME_MAX + 2], out[PATH_MAX]; Node *d = walk(p, last, 1, &n, &e);
    if (!n) { if (!e) e = ENOENT; }
    else {
      if (n->type == N_DIR) { if (node_path(n, out, sizeof out)) e = ENAMETOOLONG; }
      else if (node_path(d, out, sizeof out) || strlen(out) + strlen(last) + 2 > sizeof out) e = ENAMETOOLONG;
      else { if (strcmp(out, "/")) strcat(out, "/"); strcat(out, last); }
      if (!e) { res = r ? r : malloc(PATH_MAX); strcpy(res, out); }
    } }
  T("s realpath %s = %s", q(p), res ? q(res) : err_name(e)); insim = sv_; if (!res) errno = e; return res;
}
EXPORT char *__realpath_chk(const char *p, char *r, size_t n) { return realpath(p, r); }
typedef struct SDir { Node *n; int pos, cnt; struct dirent de; char **names; int fd; } SDir;
EXPORT DIR *opendir(const char *p)
{
  if (!on) return PASS(opendir, p);
  ENTER("opendir"); Node *n; int e, i; char ap[PATH_MAX + 8]; SDir *d; Ofd *o; int fd; abs_path(p, ap);
  if (!(e = fault_err("opendir", ap))) { walk(p, NULL, 1, &n, &e); if (n) { e = n->type != N_DIR ? ENOTDIR : !may(n, 4) ? EACCES : 0; } else if (!e) e = ENOENT; }
  if (e) { T("s opendir %s = %s", q(p), err_name(e)); insim = sv_; errno = e; return NULL; }
  o = new_ofd(O_DIRF, ap); o->node = n; fd = fd_alloc(ME, o, 0);
  if (fd < 0) { ofd_free(o); T("s opendir %s = EMFILE", q(p)); insim = sv_; errno = EMFILE; return NULL; }
  ME->cloexec[fd] = 1; d = ka(sizeof *d); d->n = n; d->fd = fd; d->cnt = n->nent + 2; d->names = ka(d->cnt * sizeof(char *));
  d->names[0] = "."; d->names[1] = ".."; for (i = 0; i < n->nent; i++) d->names[i + 2] = n->ent[i].name;
  { u64 s = K->rng ^ hstr(ap); for (i = d->cnt - 1; i > 0; i--) { int j = (int)(rnd_of(&s) % (u64)(i + 1)); char *t = d->names[i]; d->names[i] = d->names[j]; d->names[j] = t; } }
  T("s opendir %s = %d", q(p), fd); insim = sv_; return (DIR *)d;
}
EXPORT struct dirent *readdir(DIR *dp)
{
  if (!on) return PASS(readdir, dp);
  ENTER("readdir"); SDir *d = (SDir *)dp; int e = fault_err("readdir", "dir");
  if (e) { insim = sv_; errno = e; return NULL; }
  insim = sv_;
  if (d->pos >= d->cnt) return NULL;
  memset(&d->de, 0, sizeof d->de); snprintf(d->de.d_name, sizeof d->de.d_name, "%s", d->names[d->pos++]); d->de.d_ino = 1; d->de.d_type = DT_UNKNOWN; return &d->de;
}
EXPORT struct dirent64 *readdir64(DIR *dp) { return (struct dirent64 *)readdir(dp); }
EXPORT int closedir(DIR *dp) { if (!on) return PASS(closedir, dp); ENTER("closedir"); SDir *d = (SDir *)dp; T("s closedir %d", d->fd); fd_drop(ME, d->fd); kf(d->names, d->cnt * sizeof(char *)); kf(d, sizeof *d); LEAVE(0); }

/* ------------------------------------------------------------------ interposed: stdio */
static FILE *do_fopen(const char *path, const char *mode)
{
  int fl = 0, plus = strchr(mode, '+') != NULL, fd; FILE *f;
  switch (mode[0]) { case 'r': fl = plus ? O_RDWR : O_RDONLY; break; case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break; case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break; default: errno = EINVAL; return NULL; }
  if (strchr(mode, 'e')) fl |= O_CLOEXEC;
  fd = do_open(path, fl, 0666); if (fd < 0) return NULL;
  { char m[4] = { mode[0], plus ? '+' : 0, 0 }; f = mkfile(fd, m); }
  if (!f) { int e = errno; close(fd); errno = e; return f; }
  if (mode[0] == 'a' && fseek(f, 0, SEEK_END) && errno != ESPIPE) { int e = errno; fclose(f); errno = e; return NULL; } /* as glibc */
  return f;
}
EXPORT FILE *fopen(const char *p, const char *m) { if (!on) return PASS(fopen, p, m); return do_fopen(p, m); }
EXPORT FILE *fopen64(const char *p, const char *m) { if (!on) return PASS(fopen64, p, m); return do_fopen(p, m); }
EXPORT FILE *fdopen(int fd, const char *m)
{
  if (!on) return PASS(fdopen, fd, m);
  ENTER("fdopen"); Ofd *o = fd_get(fd); int e; FILE *f; char mm[4] = { m[0], strchr(m, '+') ? '+' : 0, 0 };
  if (!o) { insim = sv_; errno = EBADF; return NULL; }
  if ((e = fault_err("fdopen", o->name))) { T("s fdopen %d = %s", fd, err_name(e)); insim = sv_; errno = e; return NULL; }
  insim = sv_; f = mkfile(fd, mm); T("s fdopen %d", fd); return f;
}
EXPORT int fileno(FILE *f) { Ck *c; if (!on) return PASS(fileno, f); c = ck_of(f); if (!c) { errno = EBADF; return -1; } return c->fd; }
EXPORT int fileno_unlocked(FILE *f) { return fileno(f); }
static void ck_recycle(void) {}
EXPORT int fclose(FILE *f)
{
  if (!on) return PASS(fclose, f);
  Ck *c = ck_of(f); int r = r_fclose(f); (void)ck_recycle;
  if (c) { int e = errno; c->next = ckfree; ckfree = c; errno = e; }
  return r;
}
EXPORT FILE *popen(const char *cmd, const char *mode)
{
  if (!on) return PASS(popen, cmd, mode);
  int p[2], e, i; Ofd *fds[3]; Script *sc; FILE *f; static Script none;
  { ENTER("popen"); e = fault_err("popen", cmd); if (e) { T("s popen %s = %s", q(cmd), err_name(e)); insim = sv_; errno = e; return NULL; } insim = sv_; }
  if (pipe(p)) return NULL;
  { ENTER("popen2"); e = fault_err("fork", cmd); insim = sv_; if (e) { close(p[0]); close(p[1]); errno = e; return NULL; } }
  insim = 1;
  for (i = 0; i < 3; i++) fds[i] = ME->fd[i];
  if (mode[0] == 'r') fds[1] = ME->fd[p[1]]; else fds[0] = ME->fd[p[0]];
  sc = find_prog(cmd); if (!sc) sc = find_prog("*");
  if (!sc) { if (!none.n) { Step *s = add_step(&none); s->op = S_EXIT; s->n = 127; s->fd = -1; } sc = &none; }
  i = spawn_actor(sc, cmd, fds, 3);
  tf("s popen "); thex(cmd, strlen(cmd)); tf(" %s = %d", mode, K->p[i].pid); tnl();
  if (p[0] > 2) fd_drop(&K->p[i], p[0]); if (p[1] > 2) fd_drop(&K->p[i], p[1]);    /* as glibc: not the new pipe, nor those of earlier popen calls */
  { Ck *c; for (c = cks; c; c = c->next) if (c->popen_pid && c->fd > 2) fd_drop(&K->p[i], c->fd); }
  has(i);
  fd_drop(ME, mode[0] == 'r' ? p[1] : p[0]);
  insim = 0;
  f = mkfile(mode[0] == 'r' ? p[0] : p[1], mode[0] == 'r' ? "r" : "w");
  ck_of(f)->popen_pid = K->p[i].pid; return f;
}
EXPORT int pclose(FILE *f)
{
  if (!on) return PASS(pclose, f);
  Ck *c = ck_of(f); int st = 0, pid, r; if (!c || !c->popen_pid) { errno = EINVAL; return -1; }
  pid = c->popen_pid; r = fclose(f);
  { ENTER("pclose"); int w = do_wait(pid, &st, 0); insim = sv_; if (w < 0) return -1; }
  if (r) return -1;        /* glibc: the result of _IO_new_proc_close, -1 when the flush failed */
  return st;
}
EXPORT int system(const char *cmd)
{
  if (!on) return PASS(system, cmd);
  ENTER("system"); int e, i, st = 0; Ofd *fds[3]; Script *sc; static Script none;
  if (!cmd) LEAVE(1);
  if ((e = fault_err("fork", cmd))) { T("s system %s = %s", q(cmd), err_name(e)); FAIL(e); }
  for (i = 0; i < 3; i++) fds[i] = ME->fd[i];
  sc = find_prog(cmd); if (!sc) sc = find_prog("*");
  if (!sc) { if (!none.n) { Step *s = add_step(&none); s->op = S_EXIT; s->n = 127; s->fd = -1; } sc = &none; }
  i = spawn_actor(sc, cmd, fds, 3); tf("s system "); thex(cmd, strlen(cmd)); tf(" = %d", K->p[i].pid); tnl(); has(i);
  if (do_wait(K->p[i].pid, &st, 0) < 0) { insim = sv_; return -1; }
  LEAVE(st);
}

/* ------------------------------------------------------------------ interposed: processes */
EXPORT pid_t fork(void)
{
  if (!on) return r_fork();
  ENTER("fork"); int e = fault_err("fork", "fork"), ci, k, r; Proc *p;
  if (e) { T("s fork = %s", err_name(e)); FAIL(e); }
  ci = new_proc(P_REAL); p = &K->p[ci]; strcpy(p->cwd, ME->cwd); p->cwdn = ME->cwdn;
  for (k = 0; k < MAXFD; k++) if (ME->fd[k]) { p->fd[k] = ME->fd[k]; p->cloexec[k] = ME->cloexec[k]; p->fd[k]->ref++; }
  T("s fork = %d", p->pid);
  ME->parked = 1; K->token = ci;
  r = (int)r_fork();
  if (r == 0) { me = ci; ME = &K->p[ci]; ME->real = syscall(SYS_getpid); syscall(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL); insim = sv_; return 0; }
  if (r < 0) die_raw("fork failed");
  p->real = r;
  { int pid = p->pid; futex_wait_token(me); ME->parked = 0; insim = sv_; return pid; }
}
EXPORT pid_t vfork(void) { return fork(); }
static int do_exec(const char *file, char *const argv[])
{
  ENTER("exec"); int e = fault_err("exec", file), i, k; Script *sc;
  tf("s exec %s", q(file)); for (i = 0; argv[i]; i++) { tf(" "); thex(argv[i], strlen(argv[i])); } 
  sc = NULL;
  if (!e) { char cl[256]; size_t l = 0; cl[0] = 0;
    /* a program is found by its full command line, then by its name */
    for (i = 0; argv[i] && l < sizeof cl; i++) l += snprintf(cl + l, sizeof cl - l, i ? " %s" : "%s", argv[i]);
    sc = find_prog(cl); if (!sc && argv[0] && argv[1] && argv[2] && !strcmp(argv[1], "-c")) { sc = find_prog(argv[2]); if (!sc) sc = find_prog("*"); }
    if (!sc && argv[0] && argv[1] && argv[2]) {   /* NAME:ARG2#K: the K-th time NAME is started with this second argument */
      const char *b = strrchr(file, '/'); int x; b = b ? b + 1 : file;
      snprintf(cl, sizeof cl - 12, "%s:%s", b, argv[2]);
      for (x = 0; x < K->nruns; x++) if (!strcmp(K->runs[x].name, cl)) break;
      if (x == K->nruns && x < 32 && strlen(cl) < sizeof K->runs[0].name) { strcpy(K->runs[x].name, cl); K->nruns++; }
      if (x < K->nruns) { snprintf(cl + strlen(cl), 12, "#%d", K->runs[x].n++); sc = find_prog(cl); if (!sc) K->runs[x].n--; }
    }
    if (!sc) sc = find_prog(file); if (!sc) { const char *b = strrchr(file, '/'); if (b) sc = find_prog(b + 1); }
    if (!sc) e = ENOENT; }
  tf(" = %s", e ? err_name(e) : "0"); tnl();
  if (e) FAIL(e);
  for (k = 0; k < MAXFD; k++) if (ME->fd[k] && ME->cloexec[k]) fd_drop(ME, k);
  has(me);
  ME->script = sc; ME->pc = 0; ME->state = P_ACTOR; snprintf(ME->argv0, sizeof ME->argv0, "%s", file); K->nexec++; K->ver++;
  { long l = 0; for (i = 0; argv[i]; i++) l += strlen(argv[i]) + 1; if (ME->args) kf(ME->args, ME->argsl); ME->args = ka(l ? l : 1); ME->argsl = l; ME->toolst = 0; for (l = i = 0; argv[i]; i++) { strcpy(ME->args + l, argv[i]); l += strlen(argv[i]) + 1; } }
  if (me == 0) { sim_stop("EXEC", 0); }
  { int pi = 0; for (i = 0; i < K->np; i++) if (K->p[i].pid == ME->ppid) pi = i; pass_token(pi); raw_exit(0); }
  return -1;
}
EXPORT int execvp(const char *f, char *const a[]) { if (!on) return PASS(execvp, f, a); return do_exec(f, a); }
EXPORT int execv(const char *f, char *const a[]) { if (!on) return PASS(execv, f, a); return do_exec(f, a); }
EXPORT int execve(const char *f, char *const a[], char *const en[]) { if (!on) return PASS(execve, f, a, en); return do_exec(f, a); }
EXPORT void _exit(int c) { if (on && me != 0) { int i, pi = 0; insim = 1; T("s _exit %d", c & 255); proc_end(me, (c & 255) << 8); for (i = 0; i < K->np; i++) if (K->p[i].pid == ME->ppid) pi = i; pass_token(pi); } else if (on) { insim = 1; dump_end("_exit", c & 255); } raw_exit(c); for (;;); }
EXPORT void _Exit(int c) { _exit(c); }
EXPORT pid_t waitpid(pid_t pid, int *st, int opt) { if (!on) return PASS(waitpid, pid, st, opt); ENTER("waitpid"); int e = fault_err("waitpid", "waitpid"); if (e) FAIL(e); int r = do_wait(pid, st, opt); LEAVE(r); }
EXPORT pid_t wait(int *st) { return waitpid(-1, st, 0); }
EXPORT pid_t getpid(void) { if (!on) return syscall(SYS_getpid); return ME->pid; }
EXPORT pid_t getppid(void) { if (!on) return syscall(SYS_getppid); return ME->ppid; }
EXPORT uid_t getuid(void) { if (!on) return syscall(SYS_getuid); return 1000; }
EXPORT uid_t geteuid(void) { if (!on) return syscall(SYS_geteuid); return 1000; }
EXPORT pid_t setsid(void) { if (!on) return PASS(setsid); return ME->pid; }
EXPORT int kill(pid_t pid, int sig)
{
  if (!on) return PASS(kill, pid, sig);
  ENTER("kill"); int i;
  T("s kill %d %d", pid, sig);
  if (sig < 0 || sig > 64) FAIL(EINVAL);
  if (pid == ME->pid) { if (sig == SIGINT) { pending_int = 1; deliver_sigint(); LEAVE(0); } if (sig == 0) LEAVE(0); T("KILLED self %d", sig); sim_stop("KILLED", 128 + sig); }
  for (i = 0; i < K->np; i++) if (K->p[i].pid == pid && K->p[i].state != P_FREE) { if (sig && K->p[i].state == P_ACTOR) proc_end(i, sig & 127); LEAVE(0); }
  FAIL(ESRCH);
}
EXPORT int sigaction(int sig, const struct sigaction *a, struct sigaction *o)
{
  if (!r_sigaction) init_real();
  if (on && sig == SIGINT) { if (o) *o = sa_int; if (a) { sa_int = *a; sa_int_set = 1; } return 0; }
  if (on && sig == SIGPIPE) { if (o) { memset(o, 0, sizeof *o); o->sa_handler = sigpipe_h; } if (a) sigpipe_h = a->sa_handler; return 0; }
  return r_sigaction(sig, a, o);
}
EXPORT sighandler_t signal(int sig, sighandler_t h)
{
  if (on && sig == SIGPIPE) { sighandler_t o = sigpipe_h; sigpipe_h = h; return o; }
  if (on && (sig == SIGINT)) { sighandler_t o = sa_int_set ? sa_int.sa_handler : SIG_DFL; memset(&sa_int, 0, sizeof sa_int); sa_int.sa_handler = h; sa_int.sa_flags = SA_RESTART; sa_int_set = 1; return o; }
  return PASS(signal, sig, h);
}
EXPORT sighandler_t __sysv_signal(int sig, sighandler_t h) { return signal(sig, h); }
EXPORT struct passwd *getpwnam(const char *n)
{
  static struct passwd p; if (!on) return PASS(getpwnam, n);
  if (strcmp(n, "user")) return NULL; memset(&p, 0, sizeof p); p.pw_name = "user"; p.pw_dir = "/home/user"; p.pw_uid = p.pw_gid = 1000; p.pw_shell = "/bin/sh"; p.pw_passwd = "x"; p.pw_gecos = ""; return &p;
}
EXPORT int uname(struct utsname *u) { if (!on) return PASS(uname, u); memset(u, 0, sizeof *u); strcpy(u->sysname, "Linux"); strcpy(u->nodename, "simhost"); strcpy(u->machine, "x86_64"); strcpy(u->release, "6"); return 0; }
EXPORT int gethostname(char *b, size_t n) { if (!on) return PASS(gethostname, b, n); int e = fault_err("gethostname", "h"); if (e) { errno = e; return -1; } snprintf(b, n, "simhost"); return 0; }

/* ------------------------------------------------------------------ interposed: clocks */
EXPORT int gettimeofday(struct timeval *tv, void *tz) { if (!on) return PASS(gettimeofday, tv, tz); ENTER("gettimeofday"); fault_err("clock", "realtime"); tv->tv_sec = fdiv(RT); tv->tv_usec = (RT - fdiv(RT) * 1000000000) / 1000; T("s gettimeofday = %lld", (long long)RT); LEAVE(0); }
EXPORT time_t time(time_t *t) { if (!on) return PASS(time, t); ENTER("time"); time_t r; fault_err("clock", "realtime"); r = fdiv(RT); if (t) *t = r; T("s time = %lld", (long long)r); LEAVE(r); }
EXPORT int clock_gettime(clockid_t c, struct timespec *ts)
{
  if (!on) return PASS(clock_gettime, c, ts);
  ENTER("clock_gettime"); i64 v = c == CLOCK_REALTIME ? RT : c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID ? K->ut + K->st : K->now - K->t0 + 1000000000;
  ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; LEAVE(0);
}
EXPORT int getrusage(__rusage_who_t w, struct rusage *r) { if (!on) return PASS(getrusage, w, r); ENTER("getrusage"); memset(r, 0, sizeof *r); if (w == RUSAGE_CHILDREN) { r->ru_utime.tv_sec = 77777; r->ru_stime.tv_sec = 55555; LEAVE(0); } r->ru_utime.tv_sec = K->ut / 1000000000; r->ru_utime.tv_usec = K->ut % 1000000000 / 1000; r->ru_stime.tv_sec = K->st / 1000000000; r->ru_stime.tv_usec = K->st % 1000000000 / 1000; T("s getrusage ut %lld st %lld", (long long)K->ut, (long long)K->st); LEAVE(0); }
EXPORT clock_t times(struct tms *t) { if (!on) return PASS(times, t); ENTER("times"); memset(t, 0, sizeof *t); t->tms_utime = K->ut / 10000000; t->tms_stime = K->st / 10000000; LEAVE((clock_t)(K->now / 10000000)); }
EXPORT clock_t clock(void) { if (!on) return PASS(clock); return (K->ut + K->st) / 1000; }
static int do_sleep(i64 ns, i64 *left)
{
  Fault *f = fault("sleep", "sleep"); i64 dl;
  if (f && f->act == FA_ERR) { i64 part = ns > 3 ? (i64)(rnd() % (u64)ns) : 0; K->now += part; if (left) *left = ns - part; T("s sleep %lld interrupted after %lld", (long long)ns, (long long)part); errno = f->arg; return -1; }
  dl = ns > 4000000000000000000LL - K->now + K->t0 ? K->t0 + 4000000000000000000LL : K->now + ns; T("s sleep %lld", (long long)ns);
  while (K->now < dl) {
    ME->blocked = 1; ME->blockver = K->ver; ME->wake = dl; progress(dl, "sleep"); ME->blocked = 0;
    if (pending_int) { deliver_sigint(); if (left) *left = dl > K->now ? dl - K->now : 0; errno = EINTR; return -1; }
  }
  return 0;
}
EXPORT int usleep(useconds_t us) { if (!on) return PASS(usleep, us); ENTER("usleep"); int r = do_sleep((i64)us * 1000, NULL); LEAVE(r); }
EXPORT unsigned sleep(unsigned s) { if (!on) return PASS(sleep, s); ENTER("sleep"); i64 l = 0; do_sleep((i64)s * 1000000000, &l); LEAVE((unsigned)((l + 999999999) / 1000000000)); }
EXPORT int nanosleep(const struct timespec *a, struct timespec *b)
{
  if (!on) return PASS(nanosleep, a, b);
  ENTER("nanosleep"); i64 l = 0; int r;
  if (a->tv_nsec < 0 || a->tv_nsec > 999999999 || a->tv_sec < 0) FAIL(EINVAL);
  r = do_sleep(a->tv_sec > 4000000000LL ? 4000000000000000000LL : (i64)a->tv_sec * 1000000000 + a->tv_nsec, &l); if (r && b) { b->tv_sec = l / 1000000000; b->tv_nsec = l % 1000000000; } LEAVE(r);
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) { if (!on) return PASS(clock_nanosleep, c, fl, a, b); if (fl) { struct timespec t; ENTER("clock_nanosleep"); i64 tgt = (i64)a->tv_sec * 1000000000 + a->tv_nsec, cur = c == CLOCK_REALTIME ? RT : K->now - K->t0 + 1000000000; int r = tgt > cur ? do_sleep(tgt - cur, NULL) : 0; (void)t; insim = sv_; return r ? errno : 0; } return nanosleep(a, b) ? errno : 0; }

/* ------------------------------------------------------------------ interposed: readiness */
static int rd_ready(Ofd *o) { switch (o->type) { case O_PIPER: case O_TTY: return chan_rready(o->in); case O_SOCK: if (o->sstate == 2) return K->lis[o->lis - 1].npend > 0; return !o->in || chan_rready(o->in); } return 1; }
static int wr_ready(Ofd *o) { switch (o->type) { case O_PIPEW: case O_TTY: return chan_wready(o->out); case O_SOCK: return o->sstate == 2 ? 0 : !o->out || chan_wready(o->out); } return 1; }
EXPORT int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
  if (!on) return PASS(select, n, r, w, x, tv);
  ENTER("select"); int i, c = 0, e; fd_set r0, w0; i64 dl = -1;
  FD_ZERO(&r0); FD_ZERO(&w0); if (r) r0 = *r; if (w) w0 = *w; if (n > MAXFD) n = MAXFD;
  tf("s select"); for (i = 0; i < n; i++) { if (FD_ISSET(i, &r0)) tf(" r%d", i); if (FD_ISSET(i, &w0)) tf(" w%d", i); } tf(" t %lld", tv ? (long long)tv->tv_sec * 1000000 + tv->tv_usec : -1LL); tnl();
  for (i = 0; i < n; i++) if ((FD_ISSET(i, &r0) || FD_ISSET(i, &w0)) && !ME->fd[i]) FAIL(EBADF);
  if (tv && (tv->tv_sec < 0 || tv->tv_usec < 0)) FAIL(EINVAL);
  e = fault_err("select", "select"); if (e && e != EINTR) { T("s select = %s", err_name(e)); FAIL(e); }
  if (e) {                              /* interrupted half way, unless something is ready before */
    int lim = tv && tv->tv_sec < 4000000000L; i64 full = lim ? K->now + (i64)tv->tv_sec * 1000000000 + (i64)tv->tv_usec * 1000 : -1; dl = lim ? K->now + (full - K->now) / 2 : K->now + 5000000; c = 0;
    for (;;) {
      for (i = 0; i < n; i++) if ((FD_ISSET(i, &r0) && rd_ready(ME->fd[i])) || (FD_ISSET(i, &w0) && wr_ready(ME->fd[i]))) c++;
      if (c || K->now >= dl) break;
      ME->blocked = 1; ME->blockver = K->ver; ME->wake = dl; progress(dl, "select"); ME->blocked = 0;
    }
    if (!c) { if (lim) { i64 l = full > K->now ? full - K->now : 0; tv->tv_sec = l / 1000000000; tv->tv_usec = l % 1000000000 / 1000; } T("s select = EINTR at %lld", (long long)(K->now - K->t0)); FAIL(EINTR); }
    dl = -1;
  }
  if (tv && tv->tv_sec < 4000000000L) dl = K->now + (i64)tv->tv_sec * 1000000000 + (i64)tv->tv_usec * 1000;
  for (;;) {
    if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (x) FD_ZERO(x); c = 0;
    for (i = 0; i < n; i++) { if (FD_ISSET(i, &r0) && rd_ready(ME->fd[i])) { FD_SET(i, r); c++; } if (FD_ISSET(i, &w0) && wr_ready(ME->fd[i])) { FD_SET(i, w); c++; } }
    if (c || (dl >= 0 && K->now >= dl)) break;
    ME->blocked = 1; ME->blockver = K->ver; ME->wake = dl; progress(dl, "select"); ME->blocked = 0;
    if (pending_int) { deliver_sigint(); if (r) *r = r0; if (w) *w = w0; FAIL(EINTR); }
  }
  tf("s select ="); for (i = 0; i < n; i++) { if (r && FD_ISSET(i, r)) tf(" r%d", i); if (w && FD_ISSET(i, w)) tf(" w%d", i); } tf(" at %lld", (long long)(K->now - K->t0)); tnl();
  if (tv && dl >= 0) { i64 l = dl > K->now ? dl - K->now : 0; tv->tv_sec = l / 1000000000; tv->tv_usec = l % 1000000000 / 1000; }
  LEAVE(c);
}
EXPORT int poll(struct pollfd *p, nfds_t n, int ms)
{
  if (!on) return PASS(poll, p, n, ms);
  ENTER("poll"); nfds_t i; int c, e; i64 dl = ms >= 0 ? K->now + (i64)ms * 1000000 : -1;
  if ((e = fault_err("select", "poll"))) FAIL(e);
  for (;;) {
    c = 0; for (i = 0; i < n; i++) { Ofd *o = fd_get(p[i].fd); p[i].revents = 0; if (p[i].fd < 0) continue; if (!o) { p[i].revents = POLLNVAL; c++; continue; } if ((p[i].events & POLLIN) && rd_ready(o)) p[i].revents |= POLLIN; if ((p[i].events & POLLOUT) && wr_ready(o)) p[i].revents |= POLLOUT; if (p[i].revents) c++; }
    if (c || (dl >= 0 && K->now >= dl)) break;
    ME->blocked = 1; ME->blockver = K->ver; ME->wake = dl; progress(dl, "poll"); ME->blocked = 0;
    if (pending_int) { deliver_sigint(); FAIL(EINTR); }
  }
  LEAVE(c);
}

/* ------------------------------------------------------------------ interposed: sockets */
static void addr_str(const struct sockaddr *a, socklen_t l, char *out, size_t n)
{
  if (a->sa_family == AF_UNIX) { struct sockaddr_un *u = (void *)a; char ap[PATH_MAX + 8]; char t[120]; snprintf(t, sizeof t, "%.108s", u->sun_path); abs_path(t, ap); snprintf(out, n, "unix:%.110s", ap); }
  else { struct sockaddr_in *s = (void *)a; char ip[32]; u32 x = ntohl(s->sin_addr.s_addr); snprintf(ip, sizeof ip, "%u.%u.%u.%u", x >> 24, (x >> 16) & 255, (x >> 8) & 255, x & 255); snprintf(out, n, "inet:%s:%d", ip, ntohs(s->sin_port)); }
}
EXPORT int socket(int d, int t, int pr)
{
  if (!on) return PASS(socket, d, t, pr);
  ENTER("socket"); int e = fault_err("socket", "socket"), fd; Ofd *o; char nm[32]; if (e) { T("s socket = %s", err_name(e)); FAIL(e); }
  snprintf(nm, sizeof nm, "sock:%d", ++K->nsock); o = new_ofd(O_SOCK, nm); o->domain = d; o->flags = O_RDWR; fd = fd_alloc(ME, o, 0); if (fd < 0) { ofd_free(o); T("s socket %d = EMFILE", d); FAIL(EMFILE); }
  T("s socket %d = %d %s", d, fd, nm); LEAVE(fd);
}
EXPORT int bind(int fd, const struct sockaddr *a, socklen_t l)
{
  if (!on) return PASS(bind, fd, a, l);
  ENTER("bind"); Ofd *o = fd_get(fd); int e; char ad[128]; if (!o) FAIL(EBADF); if (o->type != O_SOCK) FAIL(ENOTSOCK);
  if ((e = fault_err("bind", o->name))) { T("s bind %d = %s", fd, err_name(e)); FAIL(e); }
  addr_str(a, l, ad, sizeof ad);
  if (o->sstate != 0) FAIL(EINVAL);
  if (a->sa_family == AF_INET && ((struct sockaddr_in *)a)->sin_port == 0) { char *p = strrchr(ad, ':'); sprintf(p, ":%d", K->nextport++); }
  if (find_listener(ad)) { T("s bind %d %s = EADDRINUSE", fd, q(ad)); FAIL(EADDRINUSE); }
  if (a->sa_family == AF_UNIX) { Node *d, *n; char last[NAME_MAX + 2]; d = walk(((struct sockaddr_un *)a)->sun_path, last, 1, &n, &e); if (n) FAIL(EADDRINUSE); if (!d) FAIL(e); if (!may(d, 2)) FAIL(EACCES); dir_add(d, last, new_node(N_SOCK, 0755)); }
  strcpy(o->addr, ad); o->sstate = 1; T("s bind %d %s = 0", fd, q(ad)); LEAVE(0);
}
EXPORT int listen(int fd, int b)
{
  if (!on) return PASS(listen, fd, b);
  ENTER("listen"); Ofd *o = fd_get(fd); int e, k; if (!o) FAIL(EBADF); if (o->type != O_SOCK) FAIL(ENOTSOCK);
  if ((e = fault_err("listen", o->name))) { T("s listen %d = %s", fd, err_name(e)); FAIL(e); }
  if (o->sstate == 3) FAIL(EINVAL);
  if (o->sstate == 2) { LEAVE(0); }
  if (o->sstate == 0) { if (o->domain == AF_UNIX) FAIL(EINVAL); snprintf(o->addr, sizeof o->addr, "inet:0.0.0.0:%d", K->nextport++); }
  for (k = 0; k < MAXLISTEN; k++) if (!K->lis[k].used) break; if (k == MAXLISTEN) FAIL(ENOBUFS);
  memset(&K->lis[k], 0, sizeof K->lis[k]); K->lis[k].used = 1; strcpy(K->lis[k].addr, o->addr); K->lis[k].owner = o; K->lis[k].backlog = b; o->lis = k + 1; o->sstate = 2; K->ver++;
  T("s listen %d %s %d = 0", fd, q(o->addr), b); LEAVE(0);
}
EXPORT int accept(int fd, struct sockaddr *a, socklen_t *l)
{
  if (!on) return PASS(accept, fd, a, l);
  ENTER("accept"); Ofd *o = fd_get(fd), *b; int e, r; Listener *ls; if (!o) FAIL(EBADF); if (o->type != O_SOCK) FAIL(ENOTSOCK);
  if (o->sstate != 2) FAIL(EINVAL);
  if ((e = fault_err("accept", o->name))) { T("s accept %d = %s", fd, err_name(e)); FAIL(e); }
  ls = &K->lis[o->lis - 1];
  for (;;) { WAIT(ls->npend > 0, -1, "accept"); if (pending_int) { deliver_sigint(); if (!(sa_int.sa_flags & SA_RESTART)) FAIL(EINTR); continue; } break; }
  b = ls->pend[0];
  r = fd_alloc(ME, b, 0); if (r < 0) { T("s accept = EMFILE"); FAIL(EMFILE); }
  memmove(ls->pend, ls->pend + 1, sizeof ls->pend - sizeof ls->pend[0]); ls->npend--; K->ver++;
  if (a && l) {
    if (o->domain == AF_UNIX) { struct sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; memcpy(a, &u, *l < 2 ? *l : 2); *l = 2; }
    else { struct sockaddr_in s; unsigned p1, p2, p3, p4, po; memset(&s, 0, sizeof s); s.sin_family = AF_INET; if (sscanf(b->peer, "inet:%u.%u.%u.%u:%u", &p1, &p2, &p3, &p4, &po) == 5) { s.sin_addr.s_addr = htonl(p1 << 24 | p2 << 16 | p3 << 8 | p4); s.sin_port = htons(po); } memcpy(a, &s, *l < sizeof s ? *l : sizeof s); *l = sizeof s; }
  }
  T("s accept %d = %d %s %s", fd, r, q(b->name), q(b->peer)); LEAVE(r);
}
EXPORT int connect(int fd, const struct sockaddr *a, socklen_t l)
{
  if (!on) return PASS(connect, fd, a, l);
  ENTER("connect"); Ofd *o = fd_get(fd), *b; int e; char ad[128]; Listener *ls; char nm[300]; if (!o) FAIL(EBADF); if (o->type != O_SOCK) FAIL(ENOTSOCK);
  addr_str(a, l, ad, sizeof ad);
  if ((e = fault_err("connect", o->name))) { T("s connect %d %s = %s", fd, q(ad), err_name(e)); if (e == ETIMEDOUT) K->now += 130LL * 1000000000; FAIL(e); }
  if (o->sstate == 3) FAIL(EISCONN);
  if (o->sstate == 2) FAIL(EINVAL);
  ls = find_listener(ad);
  if (!ls || ls->npend >= 16) { e = (o->domain == AF_UNIX) ? ENOENT : ECONNREFUSED; T("s connect %d %s = %s", fd, q(ad), err_name(e)); FAIL(e); }
  snprintf(nm, sizeof nm, "peer:%s", o->name); b = sock_pair(o, nm); snprintf(b->peer, sizeof b->peer, "%s", o->addr[0] ? o->addr : "inet:127.0.0.1:39999"); snprintf(o->peer, sizeof o->peer, "%s", ad);
  ls->pend[ls->npend++] = b; K->ver++; T("s connect %d %s = 0 %s", fd, q(ad), q(o->name)); LEAVE(0);
}
EXPORT int getsockname(int fd, struct sockaddr *a, socklen_t *l)
{
  if (!on) return PASS(getsockname, fd, a, l);
  Ofd *o = fd_get(fd); struct sockaddr_in s; unsigned p1 = 0, p2 = 0, p3 = 0, p4 = 0, po = 0; int e; if (!o) { errno = EBADF; return -1; }
  if ((e = fault_err("getsockname", o->name))) { errno = e; return -1; }
  memset(&s, 0, sizeof s); s.sin_family = AF_INET; sscanf(o->addr, "inet:%u.%u.%u.%u:%u", &p1, &p2, &p3, &p4, &po); s.sin_addr.s_addr = htonl(p1 << 24 | p2 << 16 | p3 << 8 | p4); s.sin_port = htons(po);
  memcpy(a, &s, *l < sizeof s ? *l : sizeof s); *l = sizeof s; return 0;
}
EXPORT int getpeername(int fd, struct sockaddr *a, socklen_t *l) { if (!on) return PASS(getpeername, fd, a, l); errno = ENOTCONN; return -1; }
EXPORT int setsockopt(int fd, int lv, int nm, const void *v, socklen_t l) { if (!on) return PASS(setsockopt, fd, lv, nm, v, l); Ofd *o = fd_get(fd); int e; if (!o) { errno = EBADF; return -1; } if ((e = fault_err("setsockopt", o->name))) { errno = e; return -1; } return 0; }
EXPORT int getsockopt(int fd, int lv, int nm, void *v, socklen_t *l) { if (!on) return PASS(getsockopt, fd, lv, nm, v, l); if (v && l && *l >= 4) *(int *)v = 0; return 0; }
EXPORT int shutdown(int fd, int how) { if (!on) return PASS(shutdown, fd, how); ENTER("shutdown"); Ofd *o = fd_get(fd); if (!o) FAIL(EBADF); if (o->sstate != 3) FAIL(ENOTCONN); if (how != SHUT_RD && o->out && !(o->shut & 2)) { o->out->writers--; o->out->eof_at = K->now; o->shut |= 2; K->ver++; o->out->writers += 0; } if (how != SHUT_WR) o->shut |= 1; T("s shutdown %d %d", fd, how); LEAVE(0); }
EXPORT ssize_t send(int fd, const void *b, size_t n, int fl) { if (!on) return PASS(send, fd, b, n, fl); return write(fd, b, n); }
EXPORT ssize_t recv(int fd, void *b, size_t n, int fl) { if (!on) return PASS(recv, fd, b, n, fl); return read(fd, b, n); }
EXPORT struct hostent *gethostbyname(const char *name)
{
  static struct hostent h; static char *al[2]; static char *ads[2]; static struct in_addr ia; static char nm[1024]; int i; if (!on) return PASS(gethostbyname, name);
  ENTER("gethostbyname"); const char *ip = NULL; insim = sv_;
  if (fault_err("gethostbyname", name)) return NULL;
  if (!strcmp(name, "localhost") || !strcmp(name, "simhost") || !strcmp(name, "simhost.sim")) ip = "127.0.0.1";
  for (i = 0; i < K->nhost; i++) if (!strcmp(K->host[i].name, name)) ip = K->host[i].ip;
  { unsigned a, b, c, d; if (sscanf(name, "%u.%u.%u.%u", &a, &b, &c, &d) == 4) ip = name; }
  T("s gethostbyname %s = %s", q(name), ip ? ip : "NULL"); if (!ip) return NULL;
  { unsigned a, b, c, d; sscanf(ip, "%u.%u.%u.%u", &a, &b, &c, &d); ia.s_addr = htonl(a << 24 | b << 16 | c << 8 | d); }
  snprintf(nm, sizeof nm, "%s", name); h.h_name = nm; al[0] = NULL; h.h_aliases = al; h.h_addrtype = AF_INET; h.h_length = 4; ads[0] = (char *)&ia; ads[1] = NULL; h.h_addr_list = ads; return &h;
}
EXPORT struct hostent *gethostbyaddr(const void *a, socklen_t l, int t)
{
  int i; if (!on) return PASS(gethostbyaddr, a, l, t); u32 x = ntohl(*(u32 *)a); char ip[32]; snprintf(ip, sizeof ip, "%u.%u.%u.%u", x >> 24, (x >> 16) & 255, (x >> 8) & 255, x & 255);
  for (i = 0; i < K->nhost; i++) if (!strcmp(K->host[i].ip, ip)) return gethostbyname(K->host[i].name);
  if (x == 0x7f000001) return gethostbyname("localhost"); return NULL;
}

/* ------------------------------------------------------------------ interposed: memory */
static char boot[4096]; static int bootpos;
static int mem_fail(void *ra)
{
  if (!on || insim) return 0;
  if ((uintptr_t)ra < exe_lo || (uintptr_t)ra >= exe_hi) return 0;
  K->nmalloc++;
  if (K->mfail_at && K->nmalloc >= K->mfail_at && K->nmalloc < K->mfail_at + K->mfail_n) { K->mfired++; K->faults++; T("F ENOMEM malloc %ld", K->nmalloc); errno = ENOMEM; return 1; }
  return 0;
}
/* what the allocator may do: new memory has any contents, released memory changes, a reallocated block always moves */
#define JUNK 512
static void junk(void *p, size_t n, int c) { if (p) memset(p, c, n < JUNK ? n : JUNK); }
static int app(void *ra) { return on && !insim && (uintptr_t)ra >= exe_lo && (uintptr_t)ra < exe_hi; }
EXPORT void *malloc(size_t n)
{
  if (!r_malloc) r_malloc = dlsym(RTLD_NEXT, "malloc");
  void *ra = __builtin_return_address(0); if (mem_fail(ra)) return NULL;
  void *p = r_malloc(n); if (app(ra)) junk(p, n, 0xa5); return p;
}
EXPORT void free(void *p)
{
  if (!r_free) r_free = dlsym(RTLD_NEXT, "free");
  if (!p || ((char *)p >= boot && (char *)p < boot + sizeof boot)) return;
  if (app(__builtin_return_address(0))) junk(p, malloc_usable_size(p), 0xdb);
  r_free(p);
}
EXPORT void *realloc(void *p, size_t n)
{
  if (!r_realloc) r_realloc = dlsym(RTLD_NEXT, "realloc");
  void *ra = __builtin_return_address(0); if (mem_fail(ra)) return NULL;
  if (!app(ra) || !p || !n) return r_realloc(p, n);
  size_t o = malloc_usable_size(p); void *q = r_malloc(n); if (!q) return NULL;
  memcpy(q, p, o < n ? o : n); if (n > o) junk((char *)q + o, n - o, 0xa5);
  junk(p, o, 0xdb); if (!r_free) r_free = dlsym(RTLD_NEXT, "free");
  r_free(p); return q;
}
EXPORT void *calloc(size_t a, size_t b)
{
  if (!r_calloc) { static int rec; if (rec) { void *r = boot + bootpos; bootpos += (a * b + 15) & ~15; return r; } rec = 1; r_calloc = dlsym(RTLD_NEXT, "calloc"); rec = 0; }
  if (mem_fail(__builtin_return_address(0))) return NULL; return r_calloc(a, b);
}
EXPORT void *mmap(void *a, size_t l, int p, int f, int fd, off_t o)
{
  if (!r_mmap) r_mmap = dlsym(RTLD_NEXT, "mmap");
  if (on && !insim && (uintptr_t)__builtin_return_address(0) >= exe_lo && (uintptr_t)__builtin_return_address(0) < exe_hi) { int e = fault_err("mmap", "mmap"); if (e) { errno = e; return MAP_FAILED; } }
  return r_mmap(a, l, p, f, fd, o);
}
