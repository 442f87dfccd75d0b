// Native side of the harness hooks: replays a counterexample (or a sampled path) of the
// engine against the real file system, with the same operation counting, fault injection,
// directory order, clock and random numbers as the engine's model.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <sys/mman.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define REAL(ret, name, ...) static ret (*r_##name)(__VA_ARGS__); 
#define LOADF(name) if (!r_##name) r_##name = dlsym(RTLD_NEXT, #name)

static int active, quiet_on, exit_code;
static char scratch[PATH_MAX];
static size_t scratchlen;

// ---------- variables ----------
struct var { char tag[96]; unsigned w; uint64_t v; };
static struct var *vars; static size_t nvars, vpos;
static void die(int code, const char *m, const char *a) { fprintf(stdout, "%s %s\n", m, a); fflush(stdout); _exit(code); }
static uint64_t take(const char *tag, size_t len) {
    char t[96]; if (len > 95) len = 95; memcpy(t, tag, len); t[len] = 0;
    if (vpos >= nvars) die(91, "REPLAY-END", t);
    if (strcmp(vars[vpos].tag, t)) { char b[256]; snprintf(b, sizeof b, "wanted %s, have %s (variable %zu)", t, vars[vpos].tag, vpos); die(90, "REPLAY-DIVERGED", b); }
    return vars[vpos++].v;
}
uint64_t vp_sym(uint32_t bytes, const char *tag, size_t len) { uint64_t v = take(tag, len); return bytes >= 8 ? v : v & ((1ull << (8 * bytes)) - 1); }
void vp_sym_buf(unsigned char *p, size_t n, const char *tag, size_t len) { for (size_t i = 0; i < n; i++) p[i] = take(tag, len); }
uint64_t vp_concretize(uint64_t v) { return v; }
void vp_assume(uint32_t c) { if (!c) die(92, "ASSUMPTION-FAILED", ""); }
void vp_check(uint32_t c, const char *msg, size_t len) { if (!c) { printf("CHECK-FAILED %.*s\n", (int)len, msg); fflush(stdout); exit_code = 10; } }
void vp_reach(const char *msg, size_t len) { }
static int trace_on;
void vp_note(const char *l, size_t ln, const unsigned char *p, size_t n) { printf("NOTE %.*s: %.*s\n", (int)ln, l, (int)n, p); fflush(stdout); }
void vp_known(uint32_t c, const char *id, size_t len) { if (c) { printf("KNOWN %.*s\n", (int)len, id); fflush(stdout); } else printf("KNOWN -\n"); }
uint32_t vp_model(void) { return 0; }
void vp_quiet(uint32_t n) { quiet_on = n; }

// ---------- processes ----------
static __thread jmp_buf *cur_run; static __thread int tid;
static __thread int run_code;
struct fault { uint32_t kind; uint64_t at, base; int fired, what; };
static struct fault fault; static uint64_t opcount;
static unsigned char tracked[4096];
static void end_run(int code) __attribute__((noreturn));
static void end_run(int code) { run_code = code; longjmp(*cur_run, 1); }
uint32_t vp_run(void (*f)(void *), void *arg) {
    jmp_buf jb, *prev = cur_run; unsigned char before[4096]; memcpy(before, tracked, sizeof before);
    cur_run = &jb;
    if (setjmp(jb) == 0) { f(arg); cur_run = prev; return 0; }
    cur_run = prev;
    for (int i = 3; i < 4096; i++) if (tracked[i] && !before[i]) { syscall(SYS_close, i); tracked[i] = 0; }
    fault.kind = 0;
    return run_code;
}
void abort(void) { if (active && cur_run) end_run(2); printf("ABORTED\n"); fflush(stdout); _exit(86); }
// std lets a thread exit only once; here, several processes live in it
static void *exit_guard; static size_t exit_guard_size; static void (**args_init)(int, const char **, char **); static void (**args_init)(int, const char **, char **);
static int first_base(struct dl_phdr_info *i, size_t n, void *p) { *(ElfW(Addr) *)p = i->dlpi_addr; return 1; }
static void find_exit_guard(void) {
    int fd = syscall(SYS_openat, AT_FDCWD, "/proc/self/exe", O_RDONLY, 0); struct stat sb;
    if (fd < 0 || syscall(SYS_fstat, fd, &sb)) return;
    char *m = mmap(0, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0); syscall(SYS_close, fd);
    if (m == MAP_FAILED) return;
    ElfW(Addr) base = 0; dl_iterate_phdr(first_base, &base);
    Elf64_Ehdr *h = (void *)m; Elf64_Shdr *sh = (void *)(m + h->e_shoff);
    for (int i = 0; i < h->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) {
        Elf64_Sym *y = (void *)(m + sh[i].sh_offset); char *names = m + sh[sh[i].sh_link].sh_offset;
        for (size_t k = 0; k < sh[i].sh_size / sizeof *y; k++) {
            if (strstr(names + y[k].st_name, "EXITING_THREAD_ID")) { exit_guard = (void *)(base + y[k].st_value); exit_guard_size = y[k].st_size; }
            if ((y[k].st_info & 15) == STT_OBJECT && strstr(names + y[k].st_name, "ARGV_INIT_ARRAY")) args_init = (void *)(base + y[k].st_value);
        }
    }
    munmap(m, sb.st_size);
}
void exit(int c) { if (active && cur_run) { if (exit_guard) memset(exit_guard, 0, exit_guard_size); end_run(3 + (c & 255)); } fflush(stdout); fflush(stderr); _exit(c); }

void vp_args(uint32_t n, const char **argv) { extern char **environ; if (!args_init) die(4, "NO-ARGS", ""); (*args_init)(n, argv, environ); }
void vp_fault(uint32_t kind, uint64_t at) { fault.kind = kind; fault.at = at; fault.base = opcount; fault.fired = 0; }
// 1: an operation that only reads, 2: one that removes something, 3: any other
uint32_t vp_fault_fired(void) { return fault.fired ? fault.what : 0; }
uint64_t vp_ops(void) { return opcount; }
size_t vp_scratch(char *b) { memcpy(b, scratch, scratchlen); return scratchlen; }

enum { H_NO, H_ERR, H_CRASH, H_MID, H_SHORT };
static int op(int mutating, int write, const char *what, const char *desc) {
    if (quiet_on) return H_NO;
    int hit = H_NO;
    int lasting = fault.kind == 5 ? mutating && (!strcmp(what, "write") || !strcmp(what, "copy") || !strcmp(what, "create") || !strcmp(what, "mkdir") || !strcmp(what, "symlink") || !strcmp(what, "link")) : fault.kind == 6 && mutating;
    if (fault.fired && lasting) hit = fault.kind;
    if (fault.kind && !fault.fired && opcount >= fault.base && opcount - fault.base == fault.at) {
        int ok = fault.kind == 1 || (fault.kind == 2 && mutating) || ((fault.kind == 3 || fault.kind == 4) && write) || lasting;
        if (ok) { hit = fault.kind; fault.fired = 1; fault.what = !strcmp(what, "unlink") || !strcmp(what, "rmdir") ? 2 : mutating ? 3 : 1; }
    }
    opcount++;
    int lasted = hit > 4; if (lasted) hit = H_ERR;
    if (trace_on) { printf("OP %s %s%s\n", what, desc ? desc : "", hit == H_ERR ? " !err" : hit == H_CRASH ? " !crash" : hit == H_MID ? " !mid" : hit == H_SHORT ? " !short" : ""); fflush(stdout); }
    if (hit == H_CRASH) end_run(1);
    if (hit == H_ERR) errno = lasted && fault.kind == 6 ? EROFS : mutating ? ENOSPC : EIO;
    return hit;
}

// two processes, switched at file-system operations
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int par_on, par_cur, par_done[2], par_preempt; static uint32_t par_left;
static void wait_turn(void) { pthread_mutex_lock(&mx); while (par_cur != tid - 1) pthread_cond_wait(&cv, &mx); pthread_mutex_unlock(&mx); }
static void give(int other) { pthread_mutex_lock(&mx); par_cur = other; par_preempt = 1; if (trace_on) printf("OP -- process %d\n", other); pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mx); }
static void sched(void) {
    if (!active || !par_on || quiet_on || tid == 0) return;
    int me = tid - 1, other = 1 - me;
    if (par_preempt || par_left == 0 || par_done[other]) { par_preempt = 0; return; }
    if (take("sched", 5) == 0) return;
    par_left--;
    give(other); wait_turn();
    par_preempt = 0;
}
struct parg { void (*f)(void *); void *a; int id; uint32_t rc; };
static void *par_main(void *p) {
    struct parg *g = p; tid = 1 + g->id;
    wait_turn();
    g->rc = vp_run(g->f, g->a);
    par_done[g->id] = 1;
    if (!par_done[1 - g->id]) give(1 - g->id);
    return 0;
}
uint32_t vp_par(void (*f)(void *), void *a, void (*g)(void *), void *b, uint32_t switches) {
    struct parg x = { f, a, 0, 0 }, y = { g, b, 1, 0 };
    par_cur = take("first", 5); par_left = switches; par_done[0] = par_done[1] = 0; par_preempt = 0; par_on = 1;
    pthread_t p, q; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64 << 20);
    pthread_create(&p, &at, par_main, &x); pthread_create(&q, &at, par_main, &y);
    pthread_join(p, 0); pthread_join(q, 0);
    par_on = 0;
    return x.rc | (y.rc << 8);
}

// ---------- containment ----------
static char allow[8][PATH_MAX]; static int nallow, contain_on; static uint32_t escapes;
static int under(const char *p, const char *root) { size_t n = strlen(root); return !strncmp(p, root, n) && (p[n] == 0 || p[n] == '/'); }
void vp_contain(const char *p, size_t n) {
    if (n == 0) { contain_on = 1; return; }
    char b[PATH_MAX], r[PATH_MAX]; memcpy(b, p, n); b[n] = 0;
    char *(*rp)(const char *, char *) = dlsym(RTLD_NEXT, "realpath");
    if (!rp(b, r)) die(93, "CONTAIN", b);
    strcpy(allow[nallow++], r);
}
uint32_t vp_contain_off(void) { contain_on = 0; nallow = 0; uint32_t e = escapes; escapes = 0; return e; }
// may the entry `path` be created, changed or removed?  `follow`: the file a link points at
static int guard(int dfd, const char *path, int follow) {
    if (!active) return 1;
    char *(*rp)(const char *, char *) = dlsym(RTLD_NEXT, "realpath");
    char full[2 * PATH_MAX], r[PATH_MAX], par[PATH_MAX];
    if (path[0] != '/' && dfd != AT_FDCWD) snprintf(full, sizeof full, "/proc/self/fd/%d/%s", dfd, path); else snprintf(full, sizeof full, "%s", path);
    if (follow && rp(full, r)) { char *s = strrchr(r, '/'); if (s == r) s[1] = 0; else *s = 0; strcpy(par, r); }
    else {
        size_t n = strlen(full); while (n > 1 && full[n - 1] == '/') full[--n] = 0;
        char *s = strrchr(full, '/');
        if (!s) { if (!rp(".", par)) return 1; }
        else { if (s == full) strcpy(par, "/"); else { *s = 0; if (!rp(full, par)) return 1; } }
    }
    int ok = under(par, scratch);
    if (contain_on) { int in = 0; for (int i = 0; i < nallow; i++) in |= under(par, allow[i]); if (!in) { escapes++; ok = 0; printf("ESCAPE %s\n", path); fflush(stdout); } }
    if (!ok) errno = EACCES;
    return ok;
}

// ---------- clock, randomness, ids ----------
static uint64_t clk = 1600000000000000000ull, rnd = 0x9E3779B97F4A7C15ull; static int frozen; static uint64_t seedx; static int have_seedx;
void vp_freeze_clock(uint32_t n) { frozen = n; }
void vp_advance_clock(uint64_t n) { clk += n; }
void vp_seed(uint64_t n) { if (have_seedx) n = seedx; rnd = (n * 0x9E3779B97F4A7C15ull) ^ 0x1234567; }
int clock_gettime(clockid_t id, struct timespec *t) {
    if (!active) return syscall(SYS_clock_gettime, id, t);
    if (!frozen) clk += 1000;
    uint64_t base = id == 0 ? 0 : 1599999000000000000ull;
    t->tv_sec = (clk - base) / 1000000000; t->tv_nsec = clk % 1000000000;
    return 0;
}
ssize_t getrandom(void *p, size_t n, unsigned fl) {
    if (!active) return syscall(SYS_getrandom, p, n, fl);
    for (size_t i = 0; i < n; i++) { rnd = rnd * 6364136223846793005ull + 1442695040888963407ull; ((unsigned char *)p)[i] = rnd >> 33; }
    return n;
}
pid_t getpid(void) { return active ? 4242 + tid : syscall(SYS_getpid); }

// ---------- metadata ----------
static int meta_on; struct mi { ino_t ino; uint64_t mt, u, g; }; static struct mi metas[256]; static int nmeta;
void vp_meta(uint32_t n) { meta_on = n; }
static struct mi *meta_of(ino_t i) { for (int k = nmeta - 1; k >= 0; k--) if (metas[k].ino == i) return &metas[k]; return 0; }
static void patch64(struct stat *s) { struct mi *m = meta_of(s->st_ino); if (m) { s->st_mtim.tv_sec = s->st_atim.tv_sec = s->st_ctim.tv_sec = m->mt; s->st_mtim.tv_nsec = 0; s->st_uid = m->u; s->st_gid = m->g; } }
static void patchx(struct statx *s) { struct mi *m = meta_of(s->stx_ino); if (m) { s->stx_mtime.tv_sec = s->stx_atime.tv_sec = s->stx_ctime.tv_sec = s->stx_btime.tv_sec = m->mt; s->stx_mtime.tv_nsec = 0; s->stx_uid = m->u; s->stx_gid = m->g; } }

// ---------- files ----------
// Each entry of the scratch directory is a file system of its own.
static int device(const char *path, char *out) {
    char *(*rp)(const char *, char *) = dlsym(RTLD_NEXT, "realpath");
    char full[PATH_MAX]; snprintf(full, sizeof full, "%s", path);
    size_t n = strlen(full); while (n > 1 && full[n - 1] == '/') full[--n] = 0;
    char *s = strrchr(full, '/');
    if (!s) { if (!rp(".", out)) return 0; } else { if (s == full) s[1] = 0; else *s = 0; if (!rp(full, out)) return 0; }
    if (under(out, scratch)) { char *e = out[scratchlen] ? strchr(out + scratchlen + 1, '/') : 0; if (e) *e = 0; } else strcpy(out, "/");
    return 1;
}
static int do_openat(int dfd, const char *path, int fl, mode_t m) {
    if (!active) return syscall(SYS_openat, dfd, path, fl, m);
    sched();
    int mut = (fl & (O_CREAT | O_TRUNC)) != 0;
    if (op(mut, 0, mut ? "create" : "open", path) == H_ERR) return -1;
    if ((fl & O_TMPFILE) == O_TMPFILE) { errno = EOPNOTSUPP; return -1; }
    if ((mut || (fl & O_ACCMODE)) && !guard(dfd, path, 1)) return -1;
    struct stat sb; int fresh = meta_on && (fl & O_CREAT) && syscall(SYS_newfstatat, dfd, path, &sb, 0) != 0;
    int fd = syscall(SYS_openat, dfd, path, fl, m);
    if (fd >= 0 && fd < 4096) tracked[fd] = 1;
    if (fd >= 0 && fresh && syscall(SYS_fstat, fd, &sb) == 0) { struct mi x; x.ino = sb.st_ino; x.mt = take("meta.mtime", 10); x.u = take("meta.uid", 8); x.g = take("meta.gid", 8); metas[nmeta++ & 255] = x; }
    return fd;
}
#define MODEARG mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
int open64(const char *p, int fl, ...) { MODEARG return do_openat(AT_FDCWD, p, fl, m); }
int open(const char *p, int fl, ...) { MODEARG return do_openat(AT_FDCWD, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODEARG return do_openat(d, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODEARG return do_openat(d, p, fl, m); }
int close(int fd) { if (fd >= 0 && fd < 4096) tracked[fd] = 0; return syscall(SYS_close, fd); }
static int tr(int fd) { return fd > 2 && fd < 4096 && tracked[fd]; }
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); int r = syscall(SYS_fcntl, fd, cmd, a); if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && r < 4096 && tr(fd)) tracked[r] = 1; return r; }
int dup(int fd) { int r = syscall(SYS_dup, fd); if (r >= 0 && r < 4096 && tr(fd)) tracked[r] = 1; return r; }
ssize_t read(int fd, void *b, size_t n) { if (active) { sched(); if (tr(fd) && op(0, 0, "read", 0) == H_ERR) return -1; } return syscall(SYS_read, fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { if (active) { sched(); if (tr(fd) && op(0, 0, "read", 0) == H_ERR) return -1; } return syscall(SYS_pread64, fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) { if (active) { sched(); if (tr(fd) && op(0, 0, "readv", 0) == H_ERR) return -1; } return syscall(SYS_readv, fd, v, c); }
ssize_t write(int fd, const void *b, size_t n) {
    if (active) { sched(); if (tr(fd)) { int h = op(1, 1, "write", 0);
        if (h == H_ERR) return -1;
        if (h == H_MID) { syscall(SYS_write, fd, b, (n + 1) / 2); end_run(1); }
        if (h == H_SHORT) n = (n + 1) / 2; } }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (active && tr(fd)) {
        size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
        char *b = malloc(n + 1); n = 0; for (int i = 0; i < c; i++) { memcpy(b + n, v[i].iov_base, v[i].iov_len); n += v[i].iov_len; }
        ssize_t r = write(fd, b, n); free(b); return r;
    }
    if (active) sched();
    return syscall(SYS_writev, fd, v, c);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    if (active) { sched(); if (tr(fd)) { int h = op(1, 1, "write", 0);
        if (h == H_ERR) return -1;
        if (h == H_MID) { syscall(SYS_pwrite64, fd, b, (n + 1) / 2, o); end_run(1); }
        if (h == H_SHORT) n = (n + 1) / 2; } }
    return syscall(SYS_pwrite64, fd, b, n, o);
}
static ssize_t do_copy(int in, int out, size_t n) {
    struct stat sb; off_t pos = lseek(in, 0, SEEK_CUR); size_t k = 0;
    if (syscall(SYS_fstat, in, &sb) == 0 && sb.st_size > pos) k = sb.st_size - pos;
    if (k > n) k = n;
    int h = op(k > 0, k > 0, "copy", 0); size_t m = k;
    if (h == H_ERR) return -1;
    if (h == H_MID || h == H_SHORT) m = (k + 1) / 2;
    char *b = malloc(m + 1); ssize_t g = syscall(SYS_read, in, b, m); if (g > 0) g = syscall(SYS_write, out, b, g);
    free(b);
    if (h == H_MID) end_run(1);
    return g;
}
ssize_t copy_file_range(int in, off_t *oi, int out, off_t *oo, size_t n, unsigned fl) { if (active) { sched(); if (tr(in) && tr(out) && !oi && !oo) return do_copy(in, out, n); } return syscall(SYS_copy_file_range, in, oi, out, oo, n, fl); }
ssize_t sendfile64(int out, int in, off_t *o, size_t n) { if (active) { sched(); if (tr(in) && tr(out) && !o) return do_copy(in, out, n); } return syscall(SYS_sendfile, out, in, o, n); }
ssize_t splice(int a, off_t *x, int b, off_t *y, size_t n, unsigned f) { if (active) sched(); errno = EINVAL; return -1; }
int fsync(int fd) { if (active) { sched(); if (tr(fd) && op(0, 0, "fsync", 0) == H_ERR) return -1; } return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (active) { sched(); if (tr(fd) && op(0, 0, "fsync", 0) == H_ERR) return -1; } return syscall(SYS_fdatasync, fd); }
int ftruncate64(int fd, off_t n) { if (active) { sched(); if (tr(fd) && op(1, 0, "ftruncate", 0) == H_ERR) return -1; } return syscall(SYS_ftruncate, fd, n); }
int fchmod(int fd, mode_t m) { if (active) { sched(); if (tr(fd) && op(1, 0, "fchmod", 0) == H_ERR) return -1; } return syscall(SYS_fchmod, fd, m); }
int chmod(const char *p, mode_t m) { if (active) { sched(); if (op(1, 0, "chmod", p) == H_ERR || !guard(AT_FDCWD, p, 1)) return -1; } return syscall(SYS_chmod, p, m); }
int unlinkat(int d, const char *p, int fl) { if (active) { sched(); if (op(1, 0, fl & AT_REMOVEDIR ? "rmdir" : "unlink", p) == H_ERR || !guard(d, p, 0)) return -1; } return syscall(SYS_unlinkat, d, p, fl); }
int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int rmdir(const char *p) { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
int rename(const char *a, const char *b) { if (active) { sched(); if (op(1, 0, "rename", b) == H_ERR || !guard(AT_FDCWD, a, 0) || !guard(AT_FDCWD, b, 0)) return -1; char x[PATH_MAX], y[PATH_MAX]; if (device(a, x) && device(b, y) && strcmp(x, y)) { errno = EXDEV; return -1; } } return syscall(SYS_rename, a, b); }
int symlink(const char *t, const char *p) { if (active) { sched(); if (op(1, 0, "symlink", p) == H_ERR || !guard(AT_FDCWD, p, 0)) return -1; } return syscall(SYS_symlink, t, p); }
int linkat(int d, const char *t, int e, const char *p, int fl) { if (active) { sched(); if (op(1, 0, "link", p) == H_ERR || !guard(e, p, 0)) return -1; } return syscall(SYS_linkat, d, t, e, p, fl); }
int link(const char *t, const char *p) { return linkat(AT_FDCWD, t, AT_FDCWD, p, 0); }
int mkdir(const char *p, mode_t m) { if (active) { sched(); if (op(1, 0, "mkdir", p) == H_ERR || !guard(AT_FDCWD, p, 0)) return -1; } return syscall(SYS_mkdir, p, m); }
static int do_stat(int d, const char *p, struct stat *s, int fl) {
    if (active) { sched(); if (op(0, 0, fl & AT_SYMLINK_NOFOLLOW ? "lstat" : "stat", p) == H_ERR) return -1; }
    int r = syscall(SYS_newfstatat, d, p, s, fl); if (!r && active) patch64(s); return r;
}
int stat64(const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, (void *)s, 0); }
int stat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, s, 0); }
int lstat64(const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, (void *)s, AT_SYMLINK_NOFOLLOW); }
int lstat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int fstatat64(int d, const char *p, struct stat64 *s, int fl) { return do_stat(d, p, (void *)s, fl); }
static int do_fstat(int fd, struct stat *s) { if (active) { sched(); if (tr(fd) && op(0, 0, "fstat", 0) == H_ERR) return -1; } int r = syscall(SYS_fstat, fd, s); if (!r && active) patch64(s); return r; }
int fstat64(int fd, struct stat64 *s) { return do_fstat(fd, (void *)s); }
int fstat(int fd, struct stat *s) { return do_fstat(fd, s); }
int statx(int d, const char *p, int fl, unsigned mask, struct statx *s) {
    if (active) {
        sched();
        if (!p) { errno = EFAULT; return -1; }
        if ((fl & AT_EMPTY_PATH) && !*p) { if (!tr(d)) { errno = EBADF; return -1; } if (op(0, 0, "fstat", 0) == H_ERR) return -1; }
        else if (op(0, 0, fl & AT_SYMLINK_NOFOLLOW ? "lstat" : "stat", p) == H_ERR) return -1;
    }
    int r = syscall(SYS_statx, d, p, fl, mask, s); if (!r && active) patchx(s); return r;
}
ssize_t readlink(const char *p, char *b, size_t n) { if (active) { sched(); if (op(0, 0, "readlink", p) == H_ERR) return -1; } return syscall(SYS_readlink, p, b, n); }
char *realpath(const char *p, char *b) { static char *(*rp)(const char *, char *); if (!rp) rp = dlsym(RTLD_NEXT, "realpath"); if (active) { sched(); if (op(0, 0, "realpath", p) == H_ERR) return 0; } int q = quiet_on; quiet_on = 1; char *r = rp(p, b); quiet_on = q; return r; }

// ---------- directories ----------
struct mydir { uint64_t magic; int fd; size_t n, pos; struct dirent64 *e; };
static uint32_t dirperm; void vp_dirperm(uint32_t n) { dirperm = n; }
static int cmpent(const void *a, const void *b) { return strcmp(((struct dirent64 *)a)->d_name, ((struct dirent64 *)b)->d_name); }
static struct mydir *scan(int fd) {
    struct mydir *d = calloc(1, sizeof *d); d->fd = fd; struct dirent64 *v = calloc(1024, sizeof *v); size_t n = 0; char buf[32768]; long k;
    struct dirent64 dots[2]; memset(dots, 0, sizeof dots); strcpy(dots[0].d_name, "."); strcpy(dots[1].d_name, ".."); dots[0].d_type = dots[1].d_type = DT_DIR;
    while ((k = syscall(SYS_getdents64, fd, buf, sizeof buf)) > 0)
        for (long o = 0; o < k;) { struct dirent64 *e = (void *)(buf + o); if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && n < 1020) { memcpy(&v[n], e, e->d_reclen < sizeof *v ? e->d_reclen : sizeof *v); n++; } o += e->d_reclen; }
    qsort(v, n, sizeof *v, cmpent);
    if (dirperm && n > 1 && !quiet_on) {
        uint64_t c = take("dirorder", 8); struct dirent64 *w = calloc(n, sizeof *w);
        if (n <= dirperm) {
            size_t left = n; for (size_t i = n, o = 0; i >= 1; i--, o++) { uint64_t f = 1; for (size_t x = 1; x < i; x++) f *= x; size_t j = c / f; c %= f; w[o] = v[j]; memmove(v + j, v + j + 1, (left - j - 1) * sizeof *v); left--; }
        } else { size_t r = c % n; for (size_t i = 0; i < n; i++) w[i] = v[(i + r) % n]; if (c >= n) for (size_t i = 0; i < n / 2; i++) { struct dirent64 t = w[i]; w[i] = w[n - 1 - i]; w[n - 1 - i] = t; } }
        memcpy(v, w, n * sizeof *v); free(w);
    }
    d->e = calloc(n + 2, sizeof *v); d->e[0] = dots[0]; d->e[1] = dots[1]; memcpy(d->e + 2, v, n * sizeof *v); d->n = n + 2; free(v);
    return d;
}
DIR *opendir(const char *p) {
    if (active) { sched(); if (op(0, 0, "opendir", p) == H_ERR) return 0; }
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
    if (fd < 0) return 0;
    return (DIR *)scan(fd);
}
DIR *fdopendir(int fd) { if (active) sched(); return (DIR *)scan(fd); }
struct dirent64 *readdir64(DIR *h) { struct mydir *d = (void *)h; if (active && d->pos >= 2 && op(0, 0, "readdir", 0) == H_ERR) return 0; return d->pos < d->n ? &d->e[d->pos++] : 0; }
struct dirent *readdir(DIR *h) { return (struct dirent *)readdir64(h); }
int closedir(DIR *h) { struct mydir *d = (void *)h; if (d->fd < 4096) tracked[d->fd] = 0; syscall(SYS_close, d->fd); free(d->e); free(d); return 0; }
int dirfd(DIR *h) { return ((struct mydir *)h)->fd; }

// ---------- start ----------
int vp_native_begin(void) {
    const char *r = getenv("VP_REPLAY"), *s = getenv("VP_SCRATCH");
    if (!s || !*s) { fprintf(stderr, "VP_SCRATCH is not set\n"); return 2; }
    char *(*rp)(const char *, char *) = dlsym(RTLD_NEXT, "realpath");
    if (!rp(s, scratch)) { perror(s); return 2; }
    scratchlen = strlen(scratch);
    trace_on = getenv("VP_TRACE") != 0;
    const char *sx = getenv("VP_SEEDX"); if (sx) { have_seedx = 1; seedx = strtoull(sx, 0, 0); }
    if (r && *r) {
        int fd = syscall(SYS_openat, AT_FDCWD, r, O_RDONLY, 0); if (fd < 0) { perror(r); return 2; }
        size_t cap = 1 << 22; char *b = malloc(cap + 1); ssize_t n = 0, k; while ((k = syscall(SYS_read, fd, b + n, cap - n)) > 0) n += k; b[n] = 0; syscall(SYS_close, fd);
        vars = calloc(200000, sizeof *vars);
        for (char *l = strtok(b, "\n"); l; l = strtok(0, "\n")) { struct var *v = &vars[nvars]; char *t = strchr(l, '\t'); if (!t) continue; *t = 0; snprintf(v->tag, sizeof v->tag, "%.95s", l); v->w = strtoul(t + 1, &t, 10); v->v = strtoull(t + 1, 0, 10); nvars++; }
    }
    char tmp[PATH_MAX + 8]; snprintf(tmp, sizeof tmp, "%s/tmp", scratch); mkdir(tmp, 0755);
    setenv("TMPDIR", tmp, 1); unsetenv("ARTEFACTA_COMPRESSION_LEVEL"); unsetenv("RUST_BACKTRACE"); unsetenv("RUST_LOG");
    if (chdir(scratch)) { perror("chdir"); return 2; }
    umask(022);
    find_exit_guard();
    active = 1;
    return 0;
}
int vp_native_end(void) { active = 0; printf("DONE vars=%zu/%zu ops=%llu\n", vpos, nvars, (unsigned long long)opcount); fflush(stdout); return exit_code; }
