/* Native runtime of the harnesses. The symbolic executor replaces every
   symir_* function by its own definition; these bodies only run when a
   counterexample (or a concrete self-test input) is replayed natively. */
#define _GNU_SOURCE
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <ucontext.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static FILE *in;
static int panic_mode; /* 0 never, 1 iff, 2 if */
static int panic_cond;
static uint64_t faults;
static struct { uint64_t s, n; } clockq[4096];
static int clock_n, clock_p;
static FILE *rec; /* random mode: record of the inputs chosen */
static uint64_t rng;

static void die(int code, const char *what, const char *m, size_t l) {
  fprintf(stderr, "%s: %.*s\n", what, (int)l, m);
  fflush(stderr);
  _exit(code);
}
static int is_random(void) { return getenv("SYMIR_RANDOM") != 0; }
static uint64_t rnd(void) {
  if (!rng) rng = strtoull(getenv("SYMIR_RANDOM"), 0, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  return rng;
}
static FILE *recf(void) {
  if (!rec && getenv("SYMIR_RECORD")) rec = fopen(getenv("SYMIR_RECORD"), "w");
  return rec;
}
static char *next(char kind, const char *name, size_t l) {
  static char *buf; static size_t cap;
  if (!in) {
    const char *p = getenv("SYMIR_INPUT");
    if (!p || !(in = fopen(p, "r"))) die(77, "INPUT", "cannot open SYMIR_INPUT", 24);
  }
  for (;;) {
    ssize_t n = getline(&buf, &cap, in);
    if (n <= 0) die(77, "INPUT", "out of recorded inputs", 22);
    while (n && (buf[n-1] == '\n' || buf[n-1] == '\r')) buf[--n] = 0;
    if (buf[0] == '#' || buf[0] == 0 || buf[0] == 't') continue;
    if (buf[0] != kind || strncmp(buf + 2, name, l) || (buf[2+l] != ' ' && buf[2+l] != 0)) {
      fprintf(stderr, "wanted %c %.*s, have %s\n", kind, (int)l, name, buf);
      die(77, "INPUT", "recorded input does not match", 29);
    }
    return buf[2+l] ? buf + 3 + l : buf + 2 + l;
  }
}
uint64_t symir_u64(const char *name, size_t l, uint64_t lo, uint64_t hi) {
  if (is_random()) {
    uint64_t v, span = hi - lo + 1;
    switch (rnd() % 4) { case 0: v = lo + rnd() % 4; break; case 1: v = hi - rnd() % 4; break; default: v = span ? lo + rnd() % span : rnd(); }
    if (v < lo || v > hi) v = lo;
    if (recf()) { fprintf(rec, "u %.*s %llu\n", (int)l, name, (unsigned long long)v); fflush(rec); }
    return v;
  }
  uint64_t v = strtoull(next('u', name, l), 0, 10);
  if (v < lo || v > hi) die(77, "INPUT", "recorded value out of range", 27);
  return v;
}
void symir_bytes(const char *name, size_t l, unsigned char *p, size_t n) {
  if (is_random()) {
    for (size_t i = 0; i < n; i++) p[i] = rnd() % 3 ? 32 + rnd() % 95 : rnd();
    if (recf()) { fprintf(rec, "b %.*s ", (int)l, name); for (size_t i = 0; i < n; i++) fprintf(rec, "%02x", p[i]); fprintf(rec, "\n"); fflush(rec); }
    return;
  }
  char *s = next('b', name, l);
  for (size_t i = 0; i < n; i++) {
    char h[3] = {s[2*i], s[2*i+1], 0};
    p[i] = strtoul(h, 0, 16);
  }
}
uint64_t symir_choice(const char *name, size_t l, uint64_t n) {
  if (is_random()) {
    uint64_t v = rnd() % n;
    if (recf()) { fprintf(rec, "c %.*s %llu\n", (int)l, name, (unsigned long long)v); fflush(rec); }
    return v;
  }
  return strtoull(next('c', name, l), 0, 10);
}
void symir_assume(unsigned char c) { if (!c) die(77, "ASSUME", "assumption not met", 18); }
void symir_check(unsigned char c, const char *m, size_t l) { if (!c) die(101, "VIOLATED", m, l); }
void symir_reach(const char *m, size_t l) { (void)m; (void)l; }
uint64_t symir_concrete(uint64_t v) { return v; }
void symir_panic_iff(unsigned char c) { panic_mode = 1; panic_cond = c; }
void symir_panic_if(unsigned char c) { panic_mode = 2; panic_cond = c; }
void symir_no_panic(void) {
  if (panic_mode == 1 && panic_cond) die(101, "VIOLATED", "completed although it has to be refused", 39);
  panic_mode = 0;
}
/* called from the panic hook */
void symir_panicked(const char *m, size_t l) {
  if (panic_mode && panic_cond) die(is_random() ? 3 : 0, "PANIC (expected)", m, l);
  die(101, "VIOLATED (panic)", m, l);
}
unsigned char *symir_source(const char *name, size_t l, uint64_t n) {
  unsigned char *p = malloc(n + 1);
  if (!p) die(77, "INPUT", "source too large", 16);
  for (uint64_t i = 0; i < n; i++) p[i] = (unsigned char)(i * 131 + 17);
  if (is_random()) {
    if (recf()) { fprintf(rec, "s %.*s %llu\n", (int)l, name, (unsigned long long)n); fflush(rec); }
    return p;
  }
  char *s = next('s', name, l);
  uint64_t rn = strtoull(s, &s, 10);
  if (rn != n) die(77, "INPUT", "source length differs", 21);
  while (*s == ' ') {
    uint64_t i = strtoull(s + 1, &s, 10);
    if (*s != '=') break;
    p[i] = strtoul(s + 1, &s, 10);
  }
  return p;
}
void symir_logmode(unsigned char on) { (void)on; }
void symir_trace(uint64_t v) { printf("T %llu\n", (unsigned long long)v); fflush(stdout); }
unsigned char symir_engine(void) { return 0; }
unsigned char symir_deep(void) { return getenv("SYMIR_DEEP") != 0; }
extern void (*__init_array_start[])(int, char **, char **) __attribute__((visibility("hidden")));
extern void (*__init_array_end[])(int, char **, char **) __attribute__((visibility("hidden")));
void symir_args(uint64_t argc, char **argv) {
  /* std reads the arguments in one of the initialisers; the others do nothing the second time */
  char **v = calloc(argc + 1, sizeof *v);
  char **none = calloc(1, sizeof *none);
  memcpy(v, argv, argc * sizeof *v);
  for (size_t k = 0; k < (size_t)(__init_array_end - __init_array_start); k++) __init_array_start[k]((int)argc, v, none);
}
void symir_note(const char *name, size_t l, uint64_t v) { fprintf(stderr, "note %.*s = %llu\n", (int)l, name, (unsigned long long)v); }

struct start { uint64_t (*f)(uint64_t); uint64_t a; };
static void *tramp(void *p) { struct start s = *(struct start *)p; free(p); return (void *)(uintptr_t)s.f(s.a); }
static pthread_t th[64]; static int nth;
uint64_t symir_spawn(uint64_t (*f)(uint64_t), uint64_t a) {
  struct start *s = malloc(sizeof *s); s->f = f; s->a = a;
  pthread_create(&th[nth], 0, tramp, s);
  return nth++;
}
uint64_t symir_join(uint64_t h) { void *r = 0; pthread_join(th[h], &r); return (uint64_t)(uintptr_t)r; }
void symir_sched(unsigned char on) { (void)on; }
/* Between repetitions of a harness. */
void symir_rewind(void) { if (in) rewind(in); nth = 0; clock_n = clock_p = 0; faults = 0; }
void symir_clock(uint64_t s, uint64_t n) { if (s == UINT64_MAX) clock_n = clock_p = 0; else if (clock_n < 4096) { clockq[clock_n].s = s; clockq[clock_n].n = n; clock_n++; } }
static uint64_t wall_s = 1600000000, wall_n = 5;
void symir_wall(uint64_t s, uint64_t n) { wall_s = s; wall_n = n; }
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (id == CLOCK_REALTIME) { ts->tv_sec = wall_s; ts->tv_nsec = wall_n; return 0; }
  if (clock_p < clock_n) { ts->tv_sec = clockq[clock_p].s; ts->tv_nsec = clockq[clock_p].n; clock_p++; }
  else if (clock_n) { ts->tv_sec = clockq[clock_n - 1].s; ts->tv_nsec = clockq[clock_n - 1].n; }
  else { ts->tv_sec = 1000; ts->tv_nsec = 0; }
  return 0;
}
void symir_faults(uint64_t n) { faults = n; }
ssize_t write(int fd, const void *buf, size_t n) {
  if (nth && fd > 2) { /* give the other threads a chance */
    static unsigned x; x = x * 1103515245 + 12345;
    if (x >> 16 & 1) sched_yield(); else if ((x >> 16 & 15) == 2) usleep(20);
  }
  if (faults && fd > 2) {
    uint64_t i = symir_choice("write", 5, n > 1 ? 3 : 2);
    if (i) faults--;
    if (i == 1) { errno = EINTR; return -1; }
    if (i == 2) n = symir_u64("short", 5, 1, n - 1);
  }
  return syscall(SYS_write, fd, buf, n);
}
void symir_stdout(const char *p, size_t l) {
  char b[512]; memcpy(b, p, l); b[l] = 0;
  fflush(stdout);
  int fd = open(b, O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0644);
  if (fd < 0 || dup2(fd, 1) < 0) die(77, "INPUT", "cannot redirect stdout", 22);
  close(fd);
}

/* Hardware counters: check.py replaces `rdpmc` and `cpuid` in the counters of a
   copy of the program by undefined instructions, which are answered here. */
static struct { uint64_t i, v; } pmc[16];
static struct { uint64_t leaf, r[4]; } leaves[16];
static int npmc, nleaves;
static void illegal(int sig, siginfo_t *info, void *p) {
  (void)sig; (void)info;
  greg_t *g = ((ucontext_t *)p)->uc_mcontext.gregs;
  const unsigned char *pc = (const unsigned char *)g[REG_RIP];
  if (pc[0] == 0x0f && pc[1] == 0x0b) { /* rdpmc */
    for (int k = 0; k < npmc; k++)
      if (pmc[k].i == (uint32_t)g[REG_RCX]) {
        g[REG_RAX] = (uint32_t)pmc[k].v; g[REG_RDX] = pmc[k].v >> 32;
        g[REG_RIP] += 2;
        return;
      }
    die(101, "VIOLATED", "a counter register is read but not assigned", 43);
  }
  if (pc[0] == 0x0f && pc[1] == 0xff) { /* cpuid */
    uint64_t r[4] = {0, 0, 0, 0};
    for (int k = 0; k < nleaves; k++)
      if (leaves[k].leaf == (uint32_t)g[REG_RAX]) memcpy(r, leaves[k].r, sizeof r);
    g[REG_RAX] = r[0]; g[REG_RBX] = r[1]; g[REG_RCX] = r[2]; g[REG_RDX] = r[3];
    g[REG_RIP] += 2;
    return;
  }
  signal(SIGILL, SIG_DFL);
}
static void hw_on(void) {
  struct sigaction a;
  memset(&a, 0, sizeof a);
  a.sa_sigaction = illegal; a.sa_flags = SA_SIGINFO;
  sigaction(SIGILL, &a, 0);
}
void symir_rdpmc(uint64_t i, uint64_t v) {
  hw_on();
  for (int k = 0; k < npmc; k++) if (pmc[k].i == i) { pmc[k].v = v; return; }
  pmc[npmc].i = i; pmc[npmc++].v = v;
}
void symir_cpuid(uint64_t leaf, uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
  hw_on();
  int k = 0;
  while (k < nleaves && leaves[k].leaf != leaf) k++;
  if (k == nleaves) nleaves++;
  leaves[k].leaf = leaf; leaves[k].r[0] = a; leaves[k].r[1] = b; leaves[k].r[2] = c; leaves[k].r[3] = d;
}
static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
long syscall(long n, ...) {
  va_list l; va_start(l, n);
  long a[6];
  for (int k = 0; k < 6; k++) a[k] = va_arg(l, long);
  va_end(l);
  if (n == SYS_perf_event_open) {
    /* the request goes to "attr-TYPE-CONFIG", the page is "perf-TYPE-CONFIG" */
    char b[64];
    unsigned char w[144] = {0};
    uint32_t type, size; uint64_t config;
    memcpy(&type, (char *)a[0], 4); memcpy(&size, (char *)a[0] + 4, 4); memcpy(&config, (char *)a[0] + 8, 8);
    memcpy(w, (char *)a[0], size < 128 ? size : 128);
    for (int k = 0; k < 4; k++) memcpy(w + 128 + 4 * k, &a[1 + k], 4);
    sprintf(b, "attr-%u-%lx", type, (unsigned long)config);
    int fd = open(b, O_CREAT | O_TRUNC | O_RDWR, 0644);
    if (fd >= 0) { raw(SYS_write, fd, (long)w, 144, 0, 0, 0); close(fd); }
    sprintf(b, "perf-%u-%lx", type, (unsigned long)config);
    fd = open(b, O_RDONLY | O_CLOEXEC);
    if (fd < 0) {
      uint32_t e = 2;
      int f = open("errno", O_RDONLY);
      if (f >= 0) { if (raw(SYS_read, f, (long)&e, 4, 0, 0, 0) != 4) e = 2; close(f); }
      errno = e;
    }
    return fd;
  }
  return raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
