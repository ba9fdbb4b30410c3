#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simrt.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <linux/futex.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/statvfs.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <iostream>
#include <ext/stdio_sync_filebuf.h>

namespace vsim {

const char* const op_names[OP_MAX] = { "none", "open", "read", "write", "close", "seek", "stat", "opendir", "readdir",
    "rename", "unlink", "mkdir", "sync", "trunc", "realpath", "malloc", "crash" };

Machine* mc = nullptr;
Shared* procs = nullptr;
Shared* sh = nullptr;
int g_active = 0;
int g_harness = 0;

static uint8_t* g_data = nullptr;
static const uint64_t DATA_SIZE = 1ull << 29;
static uint8_t* const HEAP_BASE = (uint8_t*)0x200000000000ull;
static const uint64_t HEAP_SIZE = 1ull << 30;
static uint8_t* const STACK_BASE = (uint8_t*)0x210000000000ull;
static const uint64_t STACK_SIZE = 8ull << 20;

uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t mix(uint64_t a, uint64_t b) { uint64_t s = a * 0x9E3779B97F4A7C15ull + b + 0x1234567; return splitmix(s); }

uint8_t* data_at(uint64_t off) { return g_data + off; }

static void ev(uint64_t a, uint64_t b = 0, uint64_t c = 0) {
    uint64_t h = sh->evhash;
    h = (h ^ a) * 0x100000001b3ull; h ^= h >> 29;
    h = (h ^ b) * 0x100000001b3ull; h ^= h >> 31;
    h = (h ^ c) * 0x100000001b3ull; h ^= h >> 27;
    sh->evhash = h;
}
static uint64_t strhash(const char* s) { uint64_t h = 1469598103934665603ull; while (*s) { h ^= (uint8_t)*s++; h *= 1099511628211ull; } return h; }

// ------------------------------------------------------------------ file system
static int new_node(int parent, const char* name, int type) {
    int i = -1;
    for (int j = 0; j < mc->nnodes; j++) if (!mc->nodes[j].used) { i = j; break; }
    if (i < 0) { if (mc->nnodes >= MAXNODES) return -1; i = mc->nnodes++; }
    Node& n = mc->nodes[i];
    memset(&n, 0, sizeof n);
    n.used = 1; n.type = (uint8_t)type; n.parent = parent; n.order = mc->order++;
    snprintf(n.name, sizeof n.name, "%s", name);
    return i;
}

void rt_reset_fs() {
    for (int i = 0; i < mc->nnodes; i++) mc->nodes[i].used = 0;
    mc->nnodes = 0; mc->bump = 4096; mc->bump_end = DATA_SIZE; mc->order = 0;
    int r = new_node(0, "/", 2);
    mc->nodes[r].parent = r;
    for (int i = 0; i < MAXPROC; i++) { procs[i].cwd = r; procs[i].id = i; memset(procs[i].refs, 0, sizeof procs[i].refs); }
}

static int child(int dir, const char* name, size_t len) {
    for (int i = 0; i < mc->nnodes; i++) {
        const Node& n = mc->nodes[i];
        if (n.used && n.parent == dir && i != dir && strncmp(n.name, name, len) == 0 && n.name[len] == 0) return i;
    }
    return -1;
}

// Resolves path; returns the node or -1 with errno. If only the last component is missing, errno is ENOENT,
// *parent is the directory and last holds the name.
static int walk(int from, const char* path, int* parent, char* last) {
    if (parent) *parent = -1;
    if (!path) { errno = EFAULT; return -1; }
    if (!*path) { errno = ENOENT; return -1; }
    if (strlen(path) >= PATH_MAX) { errno = ENAMETOOLONG; return -1; }
    int cur = *path == '/' ? 0 : from;
    int par = mc->nodes[cur].parent;
    const char* p = path;
    if (last) last[0] = 0;
    bool trailing = false;
    while (*p) {
        while (*p == '/') p++;
        if (!*p) break;
        const char* e = p; while (*e && *e != '/') e++;
        size_t len = (size_t)(e - p);
        trailing = *e == '/';
        if (len > NAMEMAX) { errno = ENAMETOOLONG; return -1; }
        if (mc->nodes[cur].type != 2) { errno = ENOTDIR; return -1; }
        if (len == 1 && p[0] == '.') { p = e; continue; }
        if (len == 2 && p[0] == '.' && p[1] == '.') { cur = mc->nodes[cur].parent; par = mc->nodes[cur].parent; p = e; continue; }
        int c = child(cur, p, len);
        if (c < 0) {
            const char* q = e; while (*q == '/') q++;
            if (!*q && parent) { *parent = cur; if (last) { memcpy(last, p, len); last[len] = 0; } if (trailing) *parent = -1; }
            errno = ENOENT; return -1;
        }
        par = cur; cur = c;
        if (last) { memcpy(last, p, len); last[len] = 0; }
        p = e;
    }
    if (trailing && mc->nodes[cur].type != 2) { errno = ENOTDIR; return -1; }
    if (parent) *parent = par;
    return cur;
}

int fs_lookup(const char* path, int* parent, char* last) { return walk(sh->cwd, path, parent, last); }

void fs_path(int node, char* out, size_t n) {
    if (node < 0) { snprintf(out, n, "?"); return; }
    if (node == 0) { snprintf(out, n, "/"); return; }
    if (mc->nodes[node].parent < 0) { snprintf(out, n, "(deleted)%s", mc->nodes[node].name); return; }
    char tmp[2][8192]; int t = 0; tmp[0][0] = 0;
    int cur = node;
    while (cur != 0) {
        snprintf(tmp[!t], sizeof tmp[0], "/%s%s", mc->nodes[cur].name, tmp[t]);
        t = !t; cur = mc->nodes[cur].parent;
        if (cur < 0) break;
        if (strlen(tmp[t]) > 4000) break;
    }
    snprintf(out, n, "%s", tmp[t]);
}

static bool reserve(Node& n, uint64_t want) {
    if (want <= n.cap) return true;
    uint64_t cap = n.cap ? n.cap * 2 : 256;
    while (cap < want) cap *= 2;
    if (mc->bump + cap > mc->bump_end) return false;
    uint64_t o = mc->bump; mc->bump += (cap + 15) & ~15ull;
    if (n.size) memcpy(g_data + o, g_data + n.off, n.size);
    n.off = o; n.cap = cap;
    return true;
}

int fs_mkdir_p(const char* path) {
    char buf[PATH_MAX]; snprintf(buf, sizeof buf, "%s", path);
    int cur = 0;
    char* save = nullptr;
    for (char* t = strtok_r(buf, "/", &save); t; t = strtok_r(nullptr, "/", &save)) {
        int c = child(cur, t, strlen(t));
        if (c < 0) c = new_node(cur, t, 2);
        cur = c;
    }
    return cur;
}

int fs_put(const char* path, const void* data, size_t n) {
    char buf[PATH_MAX]; snprintf(buf, sizeof buf, "%s", path);
    char* s = strrchr(buf, '/');
    int dir = 0; const char* name = buf;
    if (s) { *s = 0; dir = fs_mkdir_p(buf); name = s + 1; }
    int c = child(dir, name, strlen(name));
    if (c < 0) c = new_node(dir, name, 1);
    Node& nd = mc->nodes[c];
    nd.size = 0;
    reserve(nd, n);
    if (n) memcpy(g_data + nd.off, data, n);
    nd.size = n;
    return c;
}

// ------------------------------------------------------------------ faults, accounting
static void touch(const char* path) {
    if (strncmp(path, "/dev/", 5) == 0) return;
    for (int i = 0; i < sh->ntouched; i++) if (strcmp(sh->touched[i], path) == 0) return;
    if (sh->ntouched < 64) snprintf(sh->touched[sh->ntouched++], sizeof sh->touched[0], "%s", path);
}
[[noreturn]] static void die(int code) { g_active = 0; _exit(code); }
[[noreturn]] void hang() { sh->hang = 1; die(97); }

static bool rule_path(const Rule& r, const char* path, bool console) {
    if (strcmp(r.path, "*") == 0) return !console;
    return strcmp(r.path, path) == 0;
}

static Rule* fault(int op, const char* path, bool console, int mode = 0) {
    Rule* f = nullptr;
    for (int i = 0; i < sh->nrules; i++) {
        Rule& r = sh->rules[i];
        if (r.op != op) continue;
        if (!rule_path(r, path, console)) continue;
        if (op == OP_OPEN && r.arg == 1 && mode != 1) continue;
        if (op == OP_OPEN && r.arg == 2 && mode != 2) continue;
        r.hits++;
        bool hit = r.hits >= r.nth && ((r.count < 0 && r.err != EINTR) || r.hits < r.nth + (r.count < 0 ? 4 : r.count));
        if (r.pending) { hit = true; }
        if (hit && !f) f = &r;
    }
    if (f) { f->fired++; sh->fired[op]++; if (sh->fault_ntouched < 0) sh->fault_ntouched = sh->ntouched; ev(0xF000 + (uint64_t)op, (uint64_t)f->err, (uint64_t)f->hits); }
    return f;
}

static void drop_node_if_dead(int node);
static int g_crash_after = 0;
static void set_crash(const char* what, const char* path) { snprintf(sh->crash_at, sizeof sh->crash_at, "%s %.200s", what, path); }

// ------------------------------------------------------------------ several processes
static void futex_wait(volatile int* p, int v) { struct timespec t = { 1, 0 }; syscall(SYS_futex, p, FUTEX_WAIT, v, &t, nullptr, 0); }
static void set_turn(int to) { mc->turn = to; __sync_synchronize(); syscall(SYS_futex, &mc->turn, FUTEX_WAKE, 1000, nullptr, nullptr, 0); }
static void wait_turn() {
    for (;;) { int t = mc->turn; if (t == sh->id) break; futex_wait(&mc->turn, t); }
    __sync_synchronize();
    if (mc->halted) { sh->crashed = 1; set_crash("halt", ""); die(98); }
}
static void hand_over(int to) {
    mc->switches++; mc->ilhash = mix(mc->ilhash ^ mc->point, (uint64_t)to);
    set_turn(to); wait_turn();
}
// the start of a system call: before anything about the shared machine is looked at
static void yield_point() {
    if (mc->nproc < 2) return;
    mc->point++;
    while (mc->sw < mc->nsw && mc->sws[mc->sw].at < mc->point) mc->sw++;
    if (mc->sw >= mc->nsw || mc->sws[mc->sw].at != mc->point) return;
    uint32_t to = mc->sws[mc->sw].to;
    if (to == SW_HALT) { mc->halted = 1; sh->crashed = 1; set_crash("halt", ""); die(98); }
    if (to >= (uint32_t)mc->nproc || (int)to == sh->id || !mc->alive[to]) return;
    hand_over((int)to);
}
static bool wait_for_others() {     // blocked: somebody else has to go on first
    for (int k = 1; k < mc->nproc; k++) { int to = (sh->id + k) % mc->nproc; if (mc->alive[to]) { hand_over(to); return true; } }
    return false;
}
void pass_turn(int from) { for (int k = 1; k < mc->nproc; k++) { int to = (from + k) % mc->nproc; if (mc->alive[to]) { set_turn(to); return; } } }
void proc_dead(int id) {
    mc->alive[id] = 0; memset(procs[id].refs, 0, sizeof procs[id].refs);
    for (int i = 0; i < mc->nnodes; i++) { if (mc->nodes[i].lock == id + 1) mc->nodes[i].lock = 0; if (mc->nodes[i].used && mc->nodes[i].parent < 0) drop_node_if_dead(i); }
}

// every simulated system call starts here; returns the percentage for a cut write or -1
static int enter(int op, const char* path, uint64_t a = 0) {
    sh->calls++;
    sh->simtime_ns += 1000;
    ev((uint64_t)op, path ? strhash(path) : 0, a);
    if (sh->call_budget && sh->calls > sh->call_budget) hang();
    int cut = -1;
    for (int i = 0; i < sh->nrules; i++) {
        Rule& r = sh->rules[i];
        if (r.op != OP_CRASH) continue;
        if (strcmp(r.path, "*") != 0 && (!path || strcmp(r.path, path) != 0)) continue;
        r.hits++;
        if (r.hits == r.nth) {
            r.fired++; sh->fired[OP_CRASH]++;
            sh->crashed = 1; set_crash(op_names[op], path ? path : "");
            if (r.arg == 0) die(98);
            if (r.arg >= 2 && op == OP_WRITE) cut = r.arg - 2;
            g_crash_after = 1;
        }
    }
    return cut;
}
static void leave() { if (g_crash_after) die(98); }

struct Guard { Guard() { g_harness++; } ~Guard() { g_harness--; } };

// ------------------------------------------------------------------ descriptors
enum { FD_BASE = 0x4000, MAXOFD = 2048 };
struct Ofd { bool used; bool console; bool null; int node; uint64_t pos; int flags; FILE* fp; int fpclosed; char path[256]; };
static Ofd g_ofd[MAXOFD];
static int g_nopen = 0;
// descriptors 0, 1 and 2: which open file each one is, -1 when the program was started with it closed. As in a
// real process the lowest free number is handed out first, so a file may become "standard output".
static int g_std[3] = { -1, -1, -1 };

static int alloc_ofd() {
    uint32_t lim = sh->k.nofile ? sh->k.nofile : 1024;
    if ((uint32_t)g_nopen + 3 >= lim) { sh->emfile++; errno = EMFILE; return -1; }
    for (int i = 0; i < MAXOFD; i++) if (!g_ofd[i].used) return i;
    errno = EMFILE; return -1;
}
static Ofd* get(int fd) {
    if (fd >= 0 && fd <= 2) fd = g_std[fd]; else fd -= FD_BASE;
    if (fd < 0 || fd >= MAXOFD || !g_ofd[fd].used) { errno = EBADF; return nullptr; }
    return &g_ofd[fd];
}

static void freed_bytes(int64_t n) { if (mc->quota >= 0) mc->quota += n; }

static void drop_node_if_dead(int node) {
    if (node >= 0 && mc->nodes[node].parent < 0) {
        for (int i = 0; i < mc->nproc; i++) if (procs[i].refs[node]) return;
        freed_bytes((int64_t)mc->nodes[node].size);
        mc->nodes[node].used = 0;
    }
}

static int do_open_at(int from, const char* path, int flags) {
    Guard g; yield_point();
    char abs[PATH_MAX + 64]; int parent; char last[NAMEMAX + 1];
    int node = walk(from, path, &parent, last);
    int werr = errno;
    if (node >= 0) fs_path(node, abs, sizeof abs);
    else if (parent >= 0) { fs_path(parent, abs, sizeof abs); size_t l = strlen(abs); snprintf(abs + l, sizeof abs - l, "%s%s", l > 1 ? "/" : "", last); }
    else snprintf(abs, sizeof abs, "%s", path ? path : "");
    bool isnull = strcmp(abs, "/dev/null") == 0;
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    enter(OP_OPEN, abs, (uint64_t)flags);
    sh->opens++;
    int i = -1;
    if (Rule* r = fault(OP_OPEN, abs, false, wr ? 1 : 2)) { errno = r->err; }
    else if (node < 0 && (!(flags & O_CREAT) || parent < 0)) errno = werr;
    else if (node >= 0 && (flags & O_CREAT) && (flags & O_EXCL)) errno = EEXIST;
    else if (node >= 0 && mc->nodes[node].type == 2 && (wr || (flags & O_CREAT))) errno = EISDIR;
    else if (node >= 0 && (flags & O_DIRECTORY) && mc->nodes[node].type != 2) errno = ENOTDIR;
    else if (node >= 0 && !wr && (mc->nodes[node].noperm & 1)) errno = EACCES;
    else if (node >= 0 && wr && (mc->nodes[node].noperm & 2)) errno = EACCES;
    else if (node < 0 && (mc->nodes[parent].noperm & 2)) errno = EACCES;
    else if ((i = alloc_ofd()) >= 0) {
        if (node < 0) {
            if (mc->quota == 0) { sh->enospc++; }      // an empty file still fits
            node = new_node(parent, last, 1);
            if (node >= 0) { mc->nodes[node].written = 1; touch(abs); }
        } else if ((flags & O_TRUNC) && wr) {
            Node& n = mc->nodes[node];
            if (!isnull) freed_bytes((int64_t)n.size); n.size = 0; n.written = 1; n.synced = 0; touch(abs);
        }
        if (node < 0) { errno = ENOSPC; i = -1; }
        else {
            Ofd& o = g_ofd[i];
            memset(&o, 0, sizeof o);
            o.used = true; o.node = node; o.flags = flags; o.null = isnull; sh->refs[node]++;
            snprintf(o.path, sizeof o.path, "%s", abs);
            g_nopen++;
            if (g_nopen > sh->maxopen) sh->maxopen = g_nopen;
        }
    }
    ev(0x11, (uint64_t)(i < 0 ? errno : 0), (uint64_t)i);
    leave();
    if (i < 0) return -1;
    for (int s = 0; s < 3; s++) if (g_std[s] < 0) { g_std[s] = i; return s; }
    return FD_BASE + i;
}
static int do_open(const char* path, int flags) { return do_open_at(sh->cwd, path, flags); }

static uint32_t chunk(uint32_t lim, uint32_t rnd, uint64_t salt) {
    if (!lim) return 0;
    if (!rnd) return lim;
    return 1 + (uint32_t)(mix(sh->k.seed, salt * 77 + sh->calls) % lim);
}

static ssize_t do_pread(Ofd* o, void* buf, size_t n, uint64_t pos, bool advance) {
    yield_point();
    enter(OP_READ, o->path, n);
    sh->reads++;
    ssize_t res = -1;
    Rule* r;
    if ((o->flags & O_ACCMODE) == O_WRONLY) errno = EBADF;
    else if (mc->nodes[o->node].type == 2) errno = EISDIR;
    else if ((r = fault(OP_READ, o->path, o->console)) && r->err) errno = r->err;
    else {
        Node& nd = mc->nodes[o->node];
        uint64_t av = pos < nd.size ? nd.size - pos : 0;
        uint64_t take = n < av ? n : av;
        uint32_t c = chunk(sh->k.read_chunk, sh->k.read_rand, 1);
        if (r && r->arg > 0) c = (uint32_t)r->arg;
        if (c && take > c) { take = c; sh->short_reads++; }
        if (take) memcpy(buf, g_data + nd.off + pos, take);
        if (advance) o->pos = pos + take;
        res = (ssize_t)take;
    }
    ev(0x12, (uint64_t)res, res < 0 ? (uint64_t)errno : 0);
    leave();
    return res;
}

static ssize_t do_pwrite(Ofd* o, const void* buf, size_t n, int64_t at) {
    yield_point();
    int cut = enter(OP_WRITE, o->path, n);
    sh->writes++;
    ssize_t res = -1;
    if ((o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; leave(); return -1; }
    if (o->null) { leave(); return (ssize_t)n; }
    Node& nd = mc->nodes[o->node];
    uint64_t pos = at >= 0 ? (uint64_t)at : (o->flags & O_APPEND) ? nd.size : o->pos;
    uint64_t take = n;
    int err = 0;
    Rule* r = fault(OP_WRITE, o->path, o->console);
    if (r) {
        if (r->pending) { r->pending = false; err = r->err; take = 0; }
        else if (r->arg > 0 && (uint64_t)r->arg < take) { take = (uint64_t)r->arg; r->pending = true; }
        else { err = r->err; take = 0; }
    } else {
        uint32_t c = chunk(sh->k.write_chunk, sh->k.write_rand, 2);
        if (c && take > c) { take = c; sh->short_writes++; }
    }
    if (take && !o->console && mc->quota >= 0) {
        uint64_t grow = pos + take > nd.size ? pos + take - nd.size : 0;
        if (grow > (uint64_t)mc->quota) {
            uint64_t less = grow - (uint64_t)mc->quota;
            sh->enospc++; sh->fired[OP_NONE]++; if (sh->fault_ntouched < 0) sh->fault_ntouched = sh->ntouched;
            if (less >= take) { take = 0; err = ENOSPC; } else take -= less;
        }
    }
    if (cut >= 0) take = take * (uint64_t)cut / 100;
    if (take) {
        if (pos + take > (o->console ? (8u << 20) : (64u << 20))) {
            if (o->console) { o->pos = pos + take; ev(0x13, take, 1); leave(); return (ssize_t)take; }
            take = 0; err = EFBIG;
        } else if (!reserve(nd, pos + take)) { take = 0; err = ENOSPC; }
    }
    if (take) {
        if (pos > nd.size) memset(g_data + nd.off + nd.size, 0, pos - nd.size);
        memcpy(g_data + nd.off + pos, buf, take);
        if (pos + take > nd.size) {
            if (mc->quota >= 0 && !o->console) mc->quota -= (int64_t)(pos + take - nd.size);
            nd.size = pos + take;
        }
        nd.written = 1; nd.synced = 0; touch(o->path);
        if (at < 0) o->pos = pos + take;
        res = (ssize_t)take;
    } else if (err) errno = err;
    else res = 0;
    ev(0x13, (uint64_t)res, res < 0 ? (uint64_t)errno : 0);
    leave();
    return res;
}

static int do_close(int fd) {
    Guard g;
    Ofd* o = get(fd);
    if (!o) return -1;
    if (o->console) return 0;
    yield_point();
    enter(OP_CLOSE, o->path);
    sh->closes++;
    int res = 0, e = 0;
    if (Rule* r = fault(OP_CLOSE, o->path, false)) {
        res = -1; e = r->err;
        if (r->arg >= 0 && (o->flags & O_ACCMODE) != O_RDONLY) {
            Node& n = mc->nodes[o->node];
            if (n.size > (uint64_t)r->arg) n.size = (uint64_t)r->arg;
        }
    }
    int node = o->node;
    o->used = false; g_nopen--; if (sh->refs[node]) sh->refs[node]--;
    if (mc->nodes[node].lock == sh->id + 1) mc->nodes[node].lock = 0;
    for (int s = 0; s < 3; s++) if (g_std[s] == (int)(o - g_ofd)) g_std[s] = -1;
    drop_node_if_dead(node);
    ev(0x14, (uint64_t)res, (uint64_t)e);
    leave();
    if (res) errno = e;
    return res;
}

static int64_t do_seek(Ofd* o, int64_t off, int whence) {
    yield_point();
    enter(OP_SEEK, o->path, (uint64_t)off * 4 + (uint64_t)whence);
    int64_t res = -1;
    if (Rule* r = fault(OP_SEEK, o->path, o->console)) errno = r->err;
    else if (o->console) errno = ESPIPE;
    else {
        int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)o->pos : (int64_t)mc->nodes[o->node].size;
        if (base + off < 0) errno = EINVAL;
        else { o->pos = (uint64_t)(base + off); res = (int64_t)o->pos; }
    }
    ev(0x15, (uint64_t)res);
    leave();
    return res;
}

static void fill_stat(int node, struct stat* st) {
    memset(st, 0, sizeof *st);
    const Node& n = mc->nodes[node];
    st->st_dev = 1; st->st_ino = (ino_t)(node + 10); st->st_nlink = 1;
    st->st_mode = n.type == 2 ? (S_IFDIR | 0755) : (S_IFREG | 0644);
    st->st_size = (off_t)n.size; st->st_blksize = 4096; st->st_blocks = (blkcnt_t)((n.size + 511) / 512);
    st->st_mtime = (time_t)(sh->k.epoch + (int64_t)n.order);
}
static int do_stat(int from, const char* path, struct stat* st) {
    Guard g; yield_point();
    char abs[PATH_MAX + 64]; int node = walk(from, path, nullptr, nullptr); int we = errno;
    if (node >= 0) fs_path(node, abs, sizeof abs); else snprintf(abs, sizeof abs, "%s", path ? path : "");
    enter(OP_STAT, abs);
    int res = -1;
    if (Rule* r = fault(OP_STAT, abs, false)) errno = r->err;
    else if (node < 0) errno = we;
    else { fill_stat(node, st); res = 0; }
    leave();
    return res;
}

// ------------------------------------------------------------------ FILE* streams
static ssize_t ck_read(void* c, char* buf, size_t n) {
    Guard g; Ofd* o = (Ofd*)c;
    return do_pread(o, buf, n, o->pos, true);
}
static ssize_t ck_write(void* c, const char* buf, size_t n) {
    Guard g; Ofd* o = (Ofd*)c;
    size_t done = 0;
    while (done < n) {          // glibc's own file write loop retries short writes
        ssize_t w = do_pwrite(o, buf + done, n - done, -1);
        if (w < 0) break;
        if (w == 0) { if (sh->calls > (1u << 24)) hang(); continue; }
        done += (size_t)w;
    }
    return (ssize_t)done;
}
// a console stream writes to whatever its descriptor number is at that moment
static const int std_fd[3] = { 0, 1, 2 };
static ssize_t con_write(void* c, const char* buf, size_t n) {
    Guard g; Ofd* o = get(*(const int*)c);
    if (!o) return 0;
    return ck_write(o, buf, n);
}
static int ck_seek(void* c, off64_t* off, int whence) {
    Guard g; Ofd* o = (Ofd*)c;
    int64_t r = do_seek(o, *off, whence);
    if (r < 0) return -1;
    *off = r; return 0;
}
static int ck_close(void* c) {
    Guard g; Ofd* o = (Ofd*)c;
    o->fp = nullptr;
    return do_close(FD_BASE + (int)(o - g_ofd));
}

static FILE* make_file(int fd, const char* mode) {
    Guard g;
    Ofd* o = get(fd);
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    FILE* f = fopencookie(o, mode, io);
    if (!f) return nullptr;
    uint32_t bs = sh->k.bufsize ? sh->k.bufsize : 4096;
    setvbuf(f, (char*)malloc(bs + 64), _IOFBF, bs);
    o->fp = f;
    return f;
}
static int mode_flags(const char* mode) {
    int fl;
    bool plus = strchr(mode, '+') != nullptr;
    switch (mode[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return -1;
    }
    if (strchr(mode, 'x')) fl |= O_EXCL;
    return fl;
}
static FILE* do_fopen(const char* path, const char* mode) {
    int fl = mode_flags(mode);
    if (fl < 0) return nullptr;
    int fd = do_open(path, fl);
    if (fd < 0) return nullptr;
    FILE* f = make_file(fd, mode);
    if (f && (fl & O_APPEND)) { Guard g; fseek(f, 0, SEEK_END); }
    return f;
}

// ------------------------------------------------------------------ allocator
struct Hdr { uint32_t size; uint32_t magic; Hdr* next; Hdr* all; uint32_t tail; uint32_t seq; };   // tail: bytes behind the block that nobody may write
static const uint32_t M_LIVE = 0xA110CA7E, M_FREE = 0xF4EEF4EE;
enum { NBINS = 4096 };
static Hdr* g_all;
static Hdr* g_bin[NBINS]; static Hdr* g_bintail[NBINS];
static uint64_t g_heap_top = 0;
static uint64_t g_hseed;

static bool in_heap(const void* p) { return (const uint8_t*)p >= HEAP_BASE && (const uint8_t*)p < HEAP_BASE + HEAP_SIZE; }

static void garbage(uint8_t* p, size_t n, uint64_t seed, int mode) {
    if (mode == 0) memset(p, 0, n);
    else if (mode == 1) memset(p, 0xFF, n);
    else if (mode == 2) { size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t v = splitmix(seed); memcpy(p + i, &v, 8); } for (; i < n; i++) p[i] = (uint8_t)splitmix(seed); }
    else if (mode == 3) { for (size_t i = 0; i < n; i += 4) { uint32_t v = (uint32_t)(splitmix(seed) % 5); memcpy(p + i, &v, n - i < 4 ? n - i : 4); } }
    else if (mode == 5) { static const char txt[] = "a1.b:\\x0+-@label"; for (size_t i = 0; i < n; i++) p[i] = (uint8_t)txt[(splitmix(seed) >> 7) % (sizeof txt - 1)]; }
}

static uint64_t room(uint64_t n) { return (n + 8 + 15) & ~15ull; }   // with at least 8 bytes behind it
static uint64_t tail_seed(const Hdr* h) { return sh->k.seed * 77 + (uint64_t)((const uint8_t*)h - HEAP_BASE) + h->seq; }
static void set_tail(Hdr* h) {
    if (sh->k.heap_fill == 4) return;
    uint64_t n = h->size, sz = room(n); h->tail = (uint32_t)(sz - n); h->seq++; garbage((uint8_t*)(h + 1) + n, h->tail, tail_seed(h), (int)sh->k.heap_fill);
}
static void check_tail(const Hdr* h) {
    if (sh->k.heap_fill == 4 || sh->note[0]) return;
    uint8_t want[32]; garbage(want, h->tail, tail_seed(h), (int)sh->k.heap_fill);
    if (memcmp(want, (const uint8_t*)(h + 1) + h->size, h->tail)) snprintf(sh->note, sizeof sh->note, "wrote behind the end of a block of %u bytes", h->size);
}
// blocks still in use at the end, and freed ones nothing may have been written to since
static void heap_audit() {
    for (Hdr* h = g_all; h; h = h->all) {
        if (h->magic == M_LIVE) check_tail(h);
        else if (h->magic == M_FREE && sh->k.free_fill == 1 && sh->k.heap_mode == HEAP_BUMP && !sh->note[0]) {
            const uint8_t* p = (const uint8_t*)(h + 1); for (uint32_t i = 0; i < h->size; i++) if (p[i] != 0xDD) { snprintf(sh->note, sizeof sh->note, "wrote to a freed block of %u bytes", h->size); break; }
        }
    }
}

static void* heap_alloc(size_t n, bool zero) {
    if (n > HEAP_SIZE / 2) { errno = ENOMEM; return nullptr; }
    uint64_t sz = room(n);
    Hdr* h = nullptr;
    uint64_t b = sz / 16;
    if (sh->k.heap_mode != HEAP_BUMP && b < NBINS && g_bin[b]) {
        bool use = true;
        if (sh->k.heap_mode == HEAP_RANDOM) use = splitmix(g_hseed) & 1;
        if (use) { h = g_bin[b]; g_bin[b] = h->next; if (!g_bin[b]) g_bintail[b] = nullptr; }
    }
    if (!h) {
        uint64_t pad = sh->k.heap_pad ? 16 * (splitmix(g_hseed) % (sh->k.heap_pad + 1)) : 0;
        if (g_heap_top + pad + sz + 64 > HEAP_SIZE) { errno = ENOMEM; return nullptr; }
        if (pad && sh->k.heap_fill && sh->k.heap_fill != 4) garbage(HEAP_BASE + g_heap_top, pad, sh->k.seed + g_heap_top, (int)sh->k.heap_fill);
        h = (Hdr*)(HEAP_BASE + g_heap_top + pad);
        g_heap_top += pad + sz + sizeof(Hdr);
        h->all = g_all; g_all = h; h->seq = 0;
    }
    h->size = (uint32_t)n; h->magic = M_LIVE; h->next = nullptr;
    uint8_t* p = (uint8_t*)(h + 1);
    if (zero) memset(p, 0, n);
    else if (sh->k.heap_fill != 4) garbage(p, n, sh->k.seed * 31 + sh->mallocs * 1000003, (int)sh->k.heap_fill);
    set_tail(h);
    return p;
}
static void heap_free(void* p) {
    Hdr* h = (Hdr*)p - 1;
    if (h->magic != M_LIVE) {
        snprintf(sh->note, sizeof sh->note, "%s", h->magic == M_FREE ? "double free" : "invalid free");
        abort();
    }
    check_tail(h);
    h->magic = M_FREE;
    uint64_t sz = room(h->size);
    if (sh->k.free_fill == 1) memset(p, 0xDD, sz);
    else if (sh->k.free_fill == 2) garbage((uint8_t*)p, sz, sh->k.seed * 131 + (uint64_t)((uint8_t*)p - HEAP_BASE), 2);
    uint64_t b = sz / 16;
    if (sh->k.heap_mode == HEAP_BUMP || b >= NBINS) return;
    if (sh->k.heap_mode == HEAP_FIFO) {
        h->next = nullptr;
        if (g_bintail[b]) g_bintail[b]->next = h; else g_bin[b] = h;
        g_bintail[b] = h;
    } else {
        h->next = g_bin[b]; g_bin[b] = h; if (!g_bintail[b]) g_bintail[b] = h;
    }
}
static bool malloc_fault(size_t n) {
    sh->mallocs++; sh->allocbytes += n;
    ev(0x20, n);
    if (fault(OP_MALLOC, "*", false)) { errno = ENOMEM; return true; }
    return false;
}

// ------------------------------------------------------------------ directories
struct SDir { int magic; int fd; int n, i; int order[MAXNODES]; struct dirent de; };
static const int DIRMAGIC = 0x51D15;
static void list_dir(SDir* d, int node) {
    d->n = 0; d->i = 0;
    for (int i = 0; i < mc->nnodes; i++) if (mc->nodes[i].used && mc->nodes[i].parent == node && i != node) d->order[d->n++] = i;
    for (int a = 1; a < d->n; a++) for (int b = a; b > 0 && mc->nodes[d->order[b]].order < mc->nodes[d->order[b - 1]].order; b--) { int t = d->order[b]; d->order[b] = d->order[b - 1]; d->order[b - 1] = t; }
    if (sh->k.dir_order == 1) for (int a = 0; a < d->n / 2; a++) { int t = d->order[a]; d->order[a] = d->order[d->n - 1 - a]; d->order[d->n - 1 - a] = t; }
    if (sh->k.dir_order == 2) { uint64_t s = sh->k.seed ^ (uint64_t)node; for (int a = d->n - 1; a > 0; a--) { int b = (int)(splitmix(s) % (uint64_t)(a + 1)); int t = d->order[a]; d->order[a] = d->order[b]; d->order[b] = t; } }
}
static SDir* do_opendir_fd(int fd) {
    Ofd* o = get(fd);
    if (!o) return nullptr;
    if (mc->nodes[o->node].type != 2) { errno = ENOTDIR; return nullptr; }
    enter(OP_OPENDIR, o->path);
    if (Rule* r = fault(OP_OPENDIR, o->path, false)) { leave(); errno = r->err; return nullptr; }
    SDir* d = (SDir*)malloc(sizeof(SDir));
    d->magic = DIRMAGIC; d->fd = fd; list_dir(d, o->node);
    leave();
    return d;
}

// ------------------------------------------------------------------ run
static ucontext_t g_ctx, g_main;
static int (*g_entry)(int, char**); static int g_argc; static char** g_argv;
__attribute__((no_stack_protector)) static void trampoline() {
    __asm__ volatile("movq %0, %%fs:0x28" : : "r"(0x5ca1ab1e0badc000ull));   // the same stack guard in every run
    exit(g_entry(g_argc, g_argv));
}

void rt_init() {
    void* p = mmap(nullptr, sizeof(Shared) * MAXPROC, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    void* m = mmap(nullptr, sizeof(Machine), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    void* d = mmap(nullptr, DATA_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED || d == MAP_FAILED || m == MAP_FAILED) { perror("mmap"); _exit(2); }
    procs = sh = (Shared*)p; mc = (Machine*)m; g_data = (uint8_t*)d;
}

static char* g_env_empty[] = { nullptr };

[[noreturn]] void rt_run(int (*entry)(int, char**), int argc, char** argv) {
    void* hp = mmap(HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    void* st = mmap(STACK_BASE, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (hp == MAP_FAILED || st == MAP_FAILED) _exit(96);
    if (sh->k.stack_fill) garbage(STACK_BASE + STACK_SIZE - (192 << 10), 192 << 10, sh->k.seed ^ 0x57ac, sh->k.stack_fill == 1 ? 2 : sh->k.stack_fill == 2 ? 1 : (int)sh->k.stack_fill);
    g_hseed = sh->k.seed ^ 0x8ea9;
    environ = g_env_empty;
    if (mc->nproc > 1) wait_turn();
    // console streams
    fs_put("/dev/null", "", 0);
    if (!(sh->k.closed & 1)) {
        Ofd& o = g_ofd[MAXOFD - 3];
        memset(&o, 0, sizeof o);
        o.used = true; o.console = true; o.node = fs_put("/dev/stdin", "", 0); o.flags = O_RDONLY;
        snprintf(o.path, sizeof o.path, "/dev/stdin");
        g_std[0] = MAXOFD - 3;
    }
    const char* names[2] = { "/dev/stdout", "/dev/stderr" };
    for (int i = 0; i < 2; i++) {
        char nm[32]; snprintf(nm, sizeof nm, sh->id ? "%s.%d" : "%s", names[i], sh->id);   // each process has its own
        int node = fs_put(nm, "", 0); sh->out_node[i] = node;
        Ofd& o = g_ofd[MAXOFD - 1 - i];
        memset(&o, 0, sizeof o);
        o.used = true; o.console = true; o.node = node; o.flags = O_WRONLY | O_APPEND;
        snprintf(o.path, sizeof o.path, "%s", names[i]);
        if (sh->k.closed & (2u << i)) o.used = false; else g_std[i + 1] = MAXOFD - 1 - i;
        cookie_io_functions_t io = { nullptr, con_write, nullptr, nullptr };
        FILE* f = fopencookie((void*)&std_fd[i + 1], "w", io);
        if (i == 0) { setvbuf(f, (char*)malloc(4096 + 64), sh->k.out_linebuf ? _IOLBF : _IOFBF, 4096); stdout = f; }
        else { setvbuf(f, nullptr, _IONBF, 0); stderr = f; }
        o.fp = f;
    }
    static __gnu_cxx::stdio_sync_filebuf<char> so(stdout), se(stderr);
    std::cout.rdbuf(&so); std::cerr.rdbuf(&se); std::clog.rdbuf(&se);
    g_entry = entry; g_argc = argc; g_argv = argv;
    getcontext(&g_ctx);
    g_ctx.uc_stack.ss_sp = STACK_BASE; g_ctx.uc_stack.ss_size = STACK_SIZE; g_ctx.uc_link = &g_main;
    makecontext(&g_ctx, trampoline, 0);
    atexit(heap_audit);
    errno = 0;
    g_active = 1;
    swapcontext(&g_main, &g_ctx);
    _exit(95);
}
} // namespace vsim

using namespace vsim;
#define SIM (g_active && !g_harness)

// ------------------------------------------------------------------ step counter / coverage (gcc -fsanitize-coverage=trace-pc)
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() {
    if (!g_active) return;
    uint64_t pc = (uint64_t)__builtin_return_address(0);
    if (++sh->steps > sh->step_budget) vsim::hang();
    sh->cov[(pc ^ (pc >> 16)) & (COVBITS - 1)] = 1;
}

// ------------------------------------------------------------------ wraps
#define REAL(ret, name, ...) extern "C" ret __real_##name(__VA_ARGS__)
#define WRAP(ret, name, ...) REAL(ret, name, __VA_ARGS__); extern "C" ret __wrap_##name(__VA_ARGS__)

WRAP(void*, malloc, size_t n) { if (!SIM) return __real_malloc(n); if (malloc_fault(n)) return nullptr; return heap_alloc(n, false); }
WRAP(void*, calloc, size_t a, size_t b) {
    if (!SIM) return __real_calloc(a, b);
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    if (malloc_fault(n)) return nullptr;
    return heap_alloc(n, true);
}
WRAP(void, free, void* p) { if (!p) return; if (in_heap(p) && g_active) { heap_free(p); return; } if (in_heap(p)) return; __real_free(p); }
WRAP(void*, realloc, void* p, size_t n) {
    if (p ? !in_heap(p) : !SIM) return __real_realloc(p, n);
    if (!p) return __wrap_malloc(n);
    if (n == 0) { heap_free(p); return nullptr; }
    if (malloc_fault(n)) return nullptr;
    Hdr* h = (Hdr*)p - 1;
    if (h->magic != M_LIVE) { snprintf(sh->note, sizeof sh->note, "realloc of a dead block"); abort(); }
    check_tail(h);
    if (!sh->k.realloc_move && room(n) == room(h->size)) { h->size = (uint32_t)n; set_tail(h); return p; }
    void* q = heap_alloc(n, false);
    if (!q) return nullptr;
    memcpy(q, p, h->size < n ? h->size : n);
    heap_free(p);
    return q;
}
WRAP(void*, reallocarray, void* p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return __wrap_realloc(p, n); }
WRAP(void*, aligned_alloc, size_t al, size_t n) { if (!SIM) return __real_aligned_alloc(al, n); if (al > 16) return __real_aligned_alloc(al, n); return __wrap_malloc(n); }
WRAP(int, posix_memalign, void** o, size_t al, size_t n) { if (!SIM || al > 16) return __real_posix_memalign(o, al, n); void* p = __wrap_malloc(n); if (!p) return ENOMEM; *o = p; return 0; }
WRAP(size_t, malloc_usable_size, void* p) { if (in_heap(p)) return ((Hdr*)p - 1)->size; return __real_malloc_usable_size(p); }

WRAP(FILE*, fopen, const char* p, const char* m) { if (!SIM) return __real_fopen(p, m); return do_fopen(p, m); }
WRAP(FILE*, fopen64, const char* p, const char* m) { if (!SIM) return __real_fopen64(p, m); return do_fopen(p, m); }
WRAP(FILE*, freopen, const char* p, const char* m, FILE* f) { if (!SIM) return __real_freopen(p, m, f); fclose(f); return p ? do_fopen(p, m) : nullptr; }
WRAP(FILE*, freopen64, const char* p, const char* m, FILE* f) { if (!SIM) return __real_freopen64(p, m, f); fclose(f); return p ? do_fopen(p, m) : nullptr; }
WRAP(FILE*, fdopen, int fd, const char* m) { if (!SIM) return __real_fdopen(fd, m); if (!get(fd)) return nullptr; return make_file(fd, m); }
WRAP(FILE*, tmpfile, void) { if (!SIM) return __real_tmpfile(); fs_mkdir_p("/tmp"); char b[64]; snprintf(b, sizeof b, "/tmp/sim%llu", (unsigned long long)sh->calls); FILE* f = do_fopen(b, "w+"); Guard g; int n = walk(sh->cwd, b, nullptr, nullptr); if (n >= 0) mc->nodes[n].parent = -1; return f; }
static int sim_fileno(FILE* f) {
    if (f == stdout) return 1;
    if (f == stderr) return 2;
    for (int i = 0; i < MAXOFD; i++) if (g_ofd[i].used && g_ofd[i].fp == f) { for (int s = 0; s < 3; s++) if (g_std[s] == i) return s; return FD_BASE + i; }
    errno = EBADF; return -1;
}
WRAP(int, fileno, FILE* f) { if (!SIM) return __real_fileno(f); return sim_fileno(f); }
WRAP(int, fileno_unlocked, FILE* f) { if (!SIM) return __real_fileno_unlocked(f); return sim_fileno(f); }
WRAP(int, isatty, int fd) { if (!SIM) return __real_isatty(fd); errno = ENOTTY; return 0; }

extern "C" int __real_open(const char*, int, ...);
extern "C" int __wrap_open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); if (!SIM) return __real_open(p, fl, m); return do_open(p, fl); }
extern "C" int __real_open64(const char*, int, ...);
extern "C" int __wrap_open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); if (!SIM) return __real_open64(p, fl, m); return do_open(p, fl); }
static int dirnode(int fd) { if (fd == AT_FDCWD) return sh->cwd; Ofd* o = get(fd); return o ? o->node : -1; }
extern "C" int __real_openat(int, const char*, int, ...);
extern "C" int __wrap_openat(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); if (!SIM) return __real_openat(d, p, fl, m); int n = dirnode(d); if (n < 0) return -1; return do_open_at(n, p, fl); }
extern "C" int __real_openat64(int, const char*, int, ...);
extern "C" int __wrap_openat64(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); if (!SIM) return __real_openat64(d, p, fl, m); int n = dirnode(d); if (n < 0) return -1; return do_open_at(n, p, fl); }
WRAP(int, __openat_2, int d, const char* p, int fl) { if (!SIM) return __real___openat_2(d, p, fl); int n = dirnode(d); return n < 0 ? -1 : do_open_at(n, p, fl); }
WRAP(int, __openat64_2, int d, const char* p, int fl) { if (!SIM) return __real___openat64_2(d, p, fl); int n = dirnode(d); return n < 0 ? -1 : do_open_at(n, p, fl); }
WRAP(int, __open_2, const char* p, int fl) { if (!SIM) return __real___open_2(p, fl); return do_open(p, fl); }
WRAP(int, __open64_2, const char* p, int fl) { if (!SIM) return __real___open64_2(p, fl); return do_open(p, fl); }
WRAP(int, creat, const char* p, mode_t m) { if (!SIM) return __real_creat(p, m); return do_open(p, O_WRONLY | O_CREAT | O_TRUNC); }
WRAP(int, close, int fd) { if (!SIM) return __real_close(fd); return do_close(fd); }
WRAP(ssize_t, read, int fd, void* b, size_t n) { if (!SIM) return __real_read(fd, b, n); Guard g; Ofd* o = get(fd); return o ? do_pread(o, b, n, o->pos, true) : -1; }
WRAP(ssize_t, __read_chk, int fd, void* b, size_t n, size_t l) { if (!SIM) return __real___read_chk(fd, b, n, l); if (n > l) abort(); Guard g; Ofd* o = get(fd); return o ? do_pread(o, b, n, o->pos, true) : -1; }
WRAP(ssize_t, pread, int fd, void* b, size_t n, off_t off) { if (!SIM) return __real_pread(fd, b, n, off); Guard g; Ofd* o = get(fd); return o ? do_pread(o, b, n, (uint64_t)off, false) : -1; }
WRAP(ssize_t, pread64, int fd, void* b, size_t n, off_t off) { if (!SIM) return __real_pread64(fd, b, n, off); Guard g; Ofd* o = get(fd); return o ? do_pread(o, b, n, (uint64_t)off, false) : -1; }
WRAP(ssize_t, write, int fd, const void* b, size_t n) { if (!SIM) return __real_write(fd, b, n); Guard g; Ofd* o = get(fd); return o ? do_pwrite(o, b, n, -1) : -1; }
WRAP(ssize_t, pwrite, int fd, const void* b, size_t n, off_t off) { if (!SIM) return __real_pwrite(fd, b, n, off); Guard g; Ofd* o = get(fd); return o ? do_pwrite(o, b, n, off) : -1; }
WRAP(ssize_t, pwrite64, int fd, const void* b, size_t n, off_t off) { if (!SIM) return __real_pwrite64(fd, b, n, off); Guard g; Ofd* o = get(fd); return o ? do_pwrite(o, b, n, off) : -1; }
WRAP(ssize_t, writev, int fd, const struct iovec* v, int c) {
    if (!SIM) return __real_writev(fd, v, c);
    Guard g; Ofd* o = get(fd); if (!o) return -1;
    size_t tot = 0; for (int i = 0; i < c; i++) tot += v[i].iov_len;
    char* t = (char*)malloc(tot + 1); size_t p = 0;
    for (int i = 0; i < c; i++) { memcpy(t + p, v[i].iov_base, v[i].iov_len); p += v[i].iov_len; }
    ssize_t r = do_pwrite(o, t, tot, -1);
    int e = errno; free(t); errno = e; return r;
}
WRAP(ssize_t, readv, int fd, const struct iovec* v, int c) { if (!SIM) return __real_readv(fd, v, c); Guard g; Ofd* o = get(fd); if (!o || c < 1) return -1; return do_pread(o, v[0].iov_base, v[0].iov_len, o->pos, true); }
WRAP(off_t, lseek, int fd, off_t o_, int w) { if (!SIM) return __real_lseek(fd, o_, w); Guard g; Ofd* o = get(fd); return o ? do_seek(o, o_, w) : -1; }
WRAP(off_t, lseek64, int fd, off_t o_, int w) { if (!SIM) return __real_lseek64(fd, o_, w); Guard g; Ofd* o = get(fd); return o ? do_seek(o, o_, w) : -1; }

WRAP(int, stat, const char* p, struct stat* s) { if (!SIM) return __real_stat(p, s); return do_stat(sh->cwd, p, s); }
WRAP(int, stat64, const char* p, struct stat* s) { if (!SIM) return __real_stat64(p, s); return do_stat(sh->cwd, p, s); }
WRAP(int, lstat, const char* p, struct stat* s) { if (!SIM) return __real_lstat(p, s); return do_stat(sh->cwd, p, s); }
WRAP(int, lstat64, const char* p, struct stat* s) { if (!SIM) return __real_lstat64(p, s); return do_stat(sh->cwd, p, s); }
static int sim_fstat(int fd, struct stat* s) {
    Guard g; Ofd* o = get(fd); if (!o) return -1;
    enter(OP_STAT, o->path);
    int res = 0;
    if (Rule* r = fault(OP_STAT, o->path, o->console)) { errno = r->err; res = -1; } else { fill_stat(o->node, s); if (o->console) s->st_mode = S_IFIFO | 0600; }
    leave(); return res;
}
WRAP(int, fstat, int fd, struct stat* s) { if (!SIM) return __real_fstat(fd, s); return sim_fstat(fd, s); }
WRAP(int, fstat64, int fd, struct stat* s) { if (!SIM) return __real_fstat64(fd, s); return sim_fstat(fd, s); }
static int sim_fstatat(int d, const char* p, struct stat* s, int fl) { if ((fl & AT_EMPTY_PATH) && !*p) return sim_fstat(d, s); int n = dirnode(d); return n < 0 ? -1 : do_stat(n, p, s); }
WRAP(int, fstatat, int d, const char* p, struct stat* s, int fl) { if (!SIM) return __real_fstatat(d, p, s, fl); return sim_fstatat(d, p, s, fl); }
WRAP(int, fstatat64, int d, const char* p, struct stat* s, int fl) { if (!SIM) return __real_fstatat64(d, p, s, fl); return sim_fstatat(d, p, s, fl); }
WRAP(int, access, const char* p, int m) {
    if (!SIM) return __real_access(p, m);
    struct stat s; if (do_stat(sh->cwd, p, &s)) return -1;
    int n = walk(sh->cwd, p, nullptr, nullptr);
    if (n >= 0 && (((m & R_OK) && (mc->nodes[n].noperm & 1)) || ((m & W_OK) && (mc->nodes[n].noperm & 2)))) { errno = EACCES; return -1; }
    return 0;
}
WRAP(int, faccessat, int d, const char* p, int m, int fl) { if (!SIM) return __real_faccessat(d, p, m, fl); struct stat s; int n = dirnode(d); return n < 0 ? -1 : do_stat(n, p, &s); }

static void abs_of(int from, const char* p, char* abs, size_t n, int* node, int* parent, char* last) {
    *node = walk(from, p, parent, last); int e = errno;
    if (*node >= 0) fs_path(*node, abs, n);
    else if (*parent >= 0) { fs_path(*parent, abs, n); size_t l = strlen(abs); snprintf(abs + l, n - l, "%s%s", l > 1 ? "/" : "", last); }
    else snprintf(abs, n, "%s", p ? p : "");
    errno = e;
}
static int do_unlink_at(int from, const char* p, bool dir_ok, bool file_ok) {
    Guard g; yield_point(); char abs[PATH_MAX + 64], last[NAMEMAX + 1]; int node, parent;
    abs_of(from, p, abs, sizeof abs, &node, &parent, last); int we = errno;
    enter(OP_UNLINK, abs);
    int res = -1;
    if (Rule* r = fault(OP_UNLINK, abs, false)) errno = r->err;
    else if (node < 0) errno = we;
    else if (mc->nodes[node].type == 2 && !dir_ok) errno = EISDIR;
    else if (mc->nodes[node].type == 1 && !file_ok) errno = ENOTDIR;
    else if (mc->nodes[parent].noperm & 2) errno = EACCES;
    else {
        bool empty = true;
        if (mc->nodes[node].type == 2) for (int i = 0; i < mc->nnodes; i++) if (mc->nodes[i].used && mc->nodes[i].parent == node && i != node) empty = false;
        if (!empty) errno = ENOTEMPTY;
        else { mc->nodes[node].parent = -1; drop_node_if_dead(node); touch(abs); res = 0; }
    }
    ev(0x16, (uint64_t)res); leave(); return res;
}
static int do_rename_at(int f1, const char* a, int f2, const char* b) {
    Guard g; yield_point(); char pa[PATH_MAX + 64], pb[PATH_MAX + 64], la[NAMEMAX + 1], lb[NAMEMAX + 1]; int na, nb, qa, qb;
    abs_of(f1, a, pa, sizeof pa, &na, &qa, la); int we = errno;
    abs_of(f2, b, pb, sizeof pb, &nb, &qb, lb);
    enter(OP_RENAME, pb, strhash(pa));
    int res = -1;
    if (Rule* r = fault(OP_RENAME, pb, false)) errno = r->err;
    else if (na < 0) errno = we;
    else if (nb < 0 && qb < 0) errno = ENOENT;
    else if (na == nb) res = 0;
    else if (nb >= 0 && mc->nodes[nb].type == 2 && mc->nodes[na].type != 2) errno = EISDIR;
    else if ((mc->nodes[qa].noperm & 2) || (mc->nodes[qb].noperm & 2)) errno = EACCES;
    else {
        if (nb >= 0) { mc->nodes[nb].parent = -1; drop_node_if_dead(nb); }
        mc->nodes[na].parent = qb; snprintf(mc->nodes[na].name, sizeof mc->nodes[na].name, "%s", lb); mc->nodes[na].written = 1;
        touch(pa); touch(pb); res = 0;
    }
    ev(0x17, (uint64_t)res); leave(); return res;
}
WRAP(int, unlink, const char* p) { if (!SIM) return __real_unlink(p); return do_unlink_at(sh->cwd, p, false, true); }
WRAP(int, unlinkat, int d, const char* p, int fl) { if (!SIM) return __real_unlinkat(d, p, fl); int n = dirnode(d); return n < 0 ? -1 : do_unlink_at(n, p, fl & AT_REMOVEDIR, !(fl & AT_REMOVEDIR)); }
WRAP(int, remove, const char* p) { if (!SIM) return __real_remove(p); return do_unlink_at(sh->cwd, p, true, true); }
WRAP(int, rmdir, const char* p) { if (!SIM) return __real_rmdir(p); return do_unlink_at(sh->cwd, p, true, false); }
WRAP(int, rename, const char* a, const char* b) { if (!SIM) return __real_rename(a, b); return do_rename_at(sh->cwd, a, sh->cwd, b); }
WRAP(int, renameat, int d1, const char* a, int d2, const char* b) { if (!SIM) return __real_renameat(d1, a, d2, b); return do_rename_at(dirnode(d1), a, dirnode(d2), b); }
WRAP(int, renameat2, int d1, const char* a, int d2, const char* b, unsigned fl) { if (!SIM) return __real_renameat2(d1, a, d2, b, fl); return do_rename_at(dirnode(d1), a, dirnode(d2), b); }
static int do_mkdir(const char* p) {
    Guard g; yield_point(); char abs[PATH_MAX + 64], last[NAMEMAX + 1]; int node, parent;
    abs_of(sh->cwd, p, abs, sizeof abs, &node, &parent, last); int we = errno;
    enter(OP_MKDIR, abs);
    int res = -1;
    if (Rule* r = fault(OP_MKDIR, abs, false)) errno = r->err;
    else if (node >= 0) errno = EEXIST;
    else if (parent < 0) errno = we;
    else { int n = new_node(parent, last, 2); if (n < 0) errno = ENOSPC; else { mc->nodes[n].written = 1; touch(abs); res = 0; } }
    leave(); return res;
}
WRAP(int, mkdir, const char* p, mode_t m) { if (!SIM) return __real_mkdir(p, m); return do_mkdir(p); }
WRAP(int, mkdirat, int d, const char* p, mode_t m) { if (!SIM) return __real_mkdirat(d, p, m); return do_mkdir(p); }
static int do_mkstemp(char* t, int suffix) {
    size_t l = strlen(t);
    if (l < 6 + (size_t)suffix) { errno = EINVAL; return -1; }
    static unsigned ctr; char* x = t + l - 6 - suffix;
    for (int tries = 0; tries < 100; tries++) {
        unsigned v = ctr++ * 7919u + 17; for (int i = 0; i < 6; i++) { x[i] = (char)('a' + v % 26); v /= 26; }
        int fd = do_open(t, O_RDWR | O_CREAT | O_EXCL);
        if (fd >= 0 || errno != EEXIST) return fd;
    }
    return -1;
}
WRAP(int, mkstemp, char* t) { if (!SIM) return __real_mkstemp(t); return do_mkstemp(t, 0); }
WRAP(int, mkstemp64, char* t) { if (!SIM) return __real_mkstemp64(t); return do_mkstemp(t, 0); }
WRAP(int, mkstemps, char* t, int s) { if (!SIM) return __real_mkstemps(t, s); return do_mkstemp(t, s); }
WRAP(int, mkostemp, char* t, int f) { if (!SIM) return __real_mkostemp(t, f); return do_mkstemp(t, 0); }
static int do_ftrunc(int node, const char* path, off_t len) {
    yield_point();
    enter(OP_TRUNC, path, (uint64_t)len);
    int res = -1;
    if (Rule* r = fault(OP_TRUNC, path, false)) errno = r->err;
    else if (len < 0 || len > (64 << 20)) errno = EFBIG;
    else {
        Node& n = mc->nodes[node];
        if ((uint64_t)len > n.size) { if (reserve(n, (uint64_t)len)) { memset(data_at(n.off) + n.size, 0, (uint64_t)len - n.size); n.size = (uint64_t)len; res = 0; } else errno = ENOSPC; }
        else { freed_bytes((int64_t)(n.size - (uint64_t)len)); n.size = (uint64_t)len; res = 0; }
        n.written = 1; n.synced = 0; touch(path);
    }
    leave(); return res;
}
WRAP(int, ftruncate, int fd, off_t len) { if (!SIM) return __real_ftruncate(fd, len); Guard g; Ofd* o = get(fd); return o ? do_ftrunc(o->node, o->path, len) : -1; }
WRAP(int, ftruncate64, int fd, off_t len) { if (!SIM) return __real_ftruncate64(fd, len); Guard g; Ofd* o = get(fd); return o ? do_ftrunc(o->node, o->path, len) : -1; }
static int sim_truncate(const char* p, off_t len) { Guard g; yield_point(); char abs[PATH_MAX + 64], last[NAMEMAX + 1]; int node, parent; abs_of(sh->cwd, p, abs, sizeof abs, &node, &parent, last); if (node < 0) return -1; return do_ftrunc(node, abs, len); }
WRAP(int, truncate, const char* p, off_t len) { if (!SIM) return __real_truncate(p, len); return sim_truncate(p, len); }
WRAP(int, truncate64, const char* p, off_t len) { if (!SIM) return __real_truncate64(p, len); return sim_truncate(p, len); }
static int sim_fsync(int fd) {
    Guard g; Ofd* o = get(fd); if (!o) return -1;
    yield_point(); enter(OP_SYNC, o->path); int res = 0;
    if (Rule* r = fault(OP_SYNC, o->path, o->console)) { errno = r->err; res = -1; } else mc->nodes[o->node].synced = 1;
    leave(); return res;
}
WRAP(int, fsync, int fd) { if (!SIM) return __real_fsync(fd); return sim_fsync(fd); }
WRAP(int, fdatasync, int fd) { if (!SIM) return __real_fdatasync(fd); return sim_fsync(fd); }
WRAP(void, sync, void) { if (!SIM) return __real_sync(); }

WRAP(DIR*, opendir, const char* p) {
    if (!SIM) return __real_opendir(p);
    int fd = do_open(p, O_RDONLY | O_DIRECTORY); if (fd < 0) return nullptr;
    Guard g; SDir* d = do_opendir_fd(fd); if (!d) { int e = errno; do_close(fd); errno = e; } return (DIR*)d;
}
WRAP(DIR*, fdopendir, int fd) { if (!SIM) return __real_fdopendir(fd); Guard g; return (DIR*)do_opendir_fd(fd); }
static struct dirent* sim_readdir(DIR* dd) {
    Guard g; SDir* d = (SDir*)dd; Ofd* o = get(d->fd); if (!o) return nullptr;
    int e0 = errno; yield_point();
    enter(OP_READDIR, o->path);
    struct dirent* res = nullptr;
    if (Rule* r = fault(OP_READDIR, o->path, false)) errno = r->err;
    else {
        errno = e0;
        while (d->i < d->n + 2 && !res) {
            int i = d->i++;
            memset(&d->de, 0, sizeof d->de);
            if (i < 2) { strcpy(d->de.d_name, i ? ".." : "."); d->de.d_type = DT_DIR; d->de.d_ino = 1; res = &d->de; }
            else { const Node& n = mc->nodes[d->order[i - 2]]; if (!n.used || n.parent != o->node) continue; snprintf(d->de.d_name, sizeof d->de.d_name, "%s", n.name); d->de.d_ino = (ino_t)(d->order[i - 2] + 10); d->de.d_type = sh->k.dtype_unknown ? DT_UNKNOWN : n.type == 2 ? DT_DIR : DT_REG; d->de.d_reclen = sizeof d->de; res = &d->de; }
        }
    }
    leave(); return res;
}
extern "C" struct dirent* __real_readdir(DIR*);
extern "C" struct dirent* __wrap_readdir(DIR* d) { if (!g_active) return __real_readdir(d); return sim_readdir(d); }
extern "C" struct dirent64* __real_readdir64(DIR*);
extern "C" struct dirent64* __wrap_readdir64(DIR* d) { if (!g_active) return __real_readdir64(d); return (struct dirent64*)sim_readdir(d); }
WRAP(int, closedir, DIR* d) { if (!g_active) return __real_closedir(d); Guard g; int fd = ((SDir*)d)->fd; free(d); return do_close(fd); }
WRAP(int, dirfd, DIR* d) { if (!g_active) return __real_dirfd(d); return ((SDir*)d)->fd; }
WRAP(void, rewinddir, DIR* d) { if (!g_active) return __real_rewinddir(d); ((SDir*)d)->i = 0; }
static int sim_scandir(const char* p, struct dirent*** out, int (*f)(const struct dirent*), int (*c)(const struct dirent**, const struct dirent**)) {
    DIR* d = __wrap_opendir(p); if (!d) return -1;
    struct dirent** v = nullptr; int n = 0;
    while (struct dirent* e = sim_readdir(d)) { if (f && !f(e)) continue; v = (struct dirent**)__wrap_realloc(v, sizeof(*v) * (size_t)(n + 1)); v[n] = (struct dirent*)__wrap_malloc(sizeof *e); *v[n++] = *e; }
    __wrap_closedir(d);
    if (c && n) qsort(v, (size_t)n, sizeof *v, (int (*)(const void*, const void*))c);
    *out = v; return n;
}
WRAP(int, scandir, const char* p, struct dirent*** o, int (*f)(const struct dirent*), int (*c)(const struct dirent**, const struct dirent**)) { if (!SIM) return __real_scandir(p, o, f, c); return sim_scandir(p, o, f, c); }

static char* sim_realpath(const char* p, char* out) {
    Guard g; yield_point(); char abs[PATH_MAX + 64]; int node = walk(sh->cwd, p, nullptr, nullptr); int we = errno;
    if (node >= 0) fs_path(node, abs, sizeof abs); else snprintf(abs, sizeof abs, "%s", p ? p : "");
    enter(OP_REALPATH, abs);
    char* res = nullptr;
    if (Rule* r = fault(OP_REALPATH, abs, false)) errno = r->err;
    else if (node < 0) errno = we;
    else { g_harness--; res = out ? out : (char*)__wrap_malloc(strlen(abs) + 1); g_harness++; if (res) strcpy(res, abs); }
    leave(); return res;
}
WRAP(char*, realpath, const char* p, char* out) { if (!SIM) return __real_realpath(p, out); return sim_realpath(p, out); }
WRAP(char*, __realpath_chk, const char* p, char* out, size_t n) { if (!SIM) return __real___realpath_chk(p, out, n); return sim_realpath(p, out); }
WRAP(char*, canonicalize_file_name, const char* p) { if (!SIM) return __real_canonicalize_file_name(p); return sim_realpath(p, nullptr); }
WRAP(char*, getcwd, char* b, size_t n) { if (!SIM) return __real_getcwd(b, n); char abs[PATH_MAX]; fs_path(sh->cwd, abs, sizeof abs); if (!b) { n = strlen(abs) + 1; b = (char*)__wrap_malloc(n); if (!b) return nullptr; } if (strlen(abs) >= n) { errno = ERANGE; return nullptr; } strcpy(b, abs); return b; }
WRAP(char*, __getcwd_chk, char* b, size_t n, size_t l) { if (!SIM) return __real___getcwd_chk(b, n, l); return __wrap_getcwd(b, n); }
WRAP(int, chdir, const char* p) { if (!SIM) return __real_chdir(p); int n = walk(sh->cwd, p, nullptr, nullptr); if (n < 0) return -1; if (mc->nodes[n].type != 2) { errno = ENOTDIR; return -1; } sh->cwd = n; return 0; }
WRAP(ssize_t, readlink, const char* p, char* b, size_t n) { if (!SIM) return __real_readlink(p, b, n); struct stat s; if (do_stat(sh->cwd, p, &s)) return -1; errno = EINVAL; return -1; }
WRAP(ssize_t, readlinkat, int d, const char* p, char* b, size_t n) { if (!SIM) return __real_readlinkat(d, p, b, n); errno = EINVAL; return -1; }
WRAP(int, fcntl, int fd, int c, long a) { if (!SIM) return __real_fcntl(fd, c, a); Ofd* o = get(fd); if (!o) return -1; if (c == F_GETFL) return o->flags; return 0; }
WRAP(int, fcntl64, int fd, int c, long a) { if (!SIM) return __real_fcntl64(fd, c, a); Ofd* o = get(fd); if (!o) return -1; if (c == F_GETFL) return o->flags; return 0; }
WRAP(int, ioctl, int fd, unsigned long rq, void* a) { if (!SIM) return __real_ioctl(fd, rq, a); errno = ENOTTY; return -1; }
WRAP(int, poll, struct pollfd* p, nfds_t n, int t) { if (!SIM) return __real_poll(p, n, t); for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events; return (int)n; }
static int sim_flock(int fd, int op) {
    Guard g; Ofd* o = get(fd); if (!o) return -1;
    yield_point();
    uint8_t& l = mc->nodes[o->node].lock;
    if (op & LOCK_UN) { if (l == sh->id + 1) l = 0; return 0; }
    while (l && l != sh->id + 1) { if (op & LOCK_NB) { errno = EWOULDBLOCK; return -1; } if (!wait_for_others()) break; }
    l = (uint8_t)(sh->id + 1);
    return 0;
}
WRAP(int, flock, int fd, int op) { if (!SIM) return __real_flock(fd, op); return sim_flock(fd, op); }
WRAP(int, posix_fadvise, int fd, off_t a, off_t b, int c) { if (!SIM) return __real_posix_fadvise(fd, a, b, c); return 0; }
WRAP(int, fchmod, int fd, mode_t m) { if (!SIM) return __real_fchmod(fd, m); return get(fd) ? 0 : -1; }
static int sim_chmod(const char* p) { Guard g; yield_point(); char abs[PATH_MAX + 64], last[NAMEMAX + 1]; int node, parent; abs_of(sh->cwd, p, abs, sizeof abs, &node, &parent, last); return node < 0 ? -1 : 0; }
WRAP(int, chmod, const char* p, mode_t m) { if (!SIM) return __real_chmod(p, m); return sim_chmod(p); }
WRAP(int, fchmodat, int d, const char* p, mode_t m, int f) { if (!SIM) return __real_fchmodat(d, p, m, f); return sim_chmod(p); }
WRAP(int, fchown, int fd, uid_t u, gid_t gr) { if (!SIM) return __real_fchown(fd, u, gr); return get(fd) ? 0 : -1; }
WRAP(int, utimensat, int d, const char* p, const struct timespec* t, int f) { if (!SIM) return __real_utimensat(d, p, t, f); return 0; }
WRAP(int, statvfs, const char* p, struct statvfs* s) { if (!SIM) return __real_statvfs(p, s); memset(s, 0, sizeof *s); s->f_bsize = 4096; s->f_frsize = 4096; s->f_bavail = s->f_bfree = mc->quota >= 0 ? (fsblkcnt_t)(mc->quota / 4096) : 1000000; return 0; }
static ssize_t sim_copy(int in, int out, off_t* oi, off_t* oo, size_t n) {
    Guard g; Ofd *a = get(in), *b = get(out); if (!a || !b) return -1;
    if (n > (1 << 20)) n = 1 << 20;
    char* t = (char*)malloc(n + 1);
    ssize_t r = do_pread(a, t, n, oi ? (uint64_t)*oi : a->pos, false);
    if (r > 0) { ssize_t w = do_pwrite(b, t, (size_t)r, oo ? *oo : -1); if (w > 0) { if (oi) *oi += w; else a->pos += (uint64_t)w; if (oo) *oo += w; } r = w; }
    int e = errno; free(t); errno = e; return r;
}
WRAP(ssize_t, sendfile, int out, int in, off_t* o, size_t n) { if (!SIM) return __real_sendfile(out, in, o, n); return sim_copy(in, out, o, nullptr, n); }
WRAP(ssize_t, sendfile64, int out, int in, off_t* o, size_t n) { if (!SIM) return __real_sendfile64(out, in, o, n); return sim_copy(in, out, o, nullptr, n); }
WRAP(ssize_t, copy_file_range, int in, off_t* oi, int out, off_t* oo, size_t n, unsigned f) { if (!SIM) return __real_copy_file_range(in, oi, out, oo, n, f); return sim_copy(in, out, oi, oo, n); }

// things the code under test has no business doing: refused and recorded
static int refuse() { sh->escape++; errno = EPERM; return -1; }
WRAP(int, system, const char* c) { if (!SIM) return __real_system(c); return refuse(); }
WRAP(FILE*, popen, const char* c, const char* m) { if (!SIM) return __real_popen(c, m); refuse(); return nullptr; }
WRAP(pid_t, fork, void) { if (!SIM) return __real_fork(); return refuse(); }
WRAP(int, execve, const char* p, char* const* a, char* const* e) { if (!SIM) return __real_execve(p, a, e); return refuse(); }
WRAP(int, execvp, const char* p, char* const* a) { if (!SIM) return __real_execvp(p, a); return refuse(); }
WRAP(int, kill, pid_t p, int s) { if (!SIM) return __real_kill(p, s); return refuse(); }
WRAP(int, link, const char* a, const char* b) { if (!SIM) return __real_link(a, b); return refuse(); }
WRAP(int, symlink, const char* a, const char* b) { if (!SIM) return __real_symlink(a, b); return refuse(); }
WRAP(int, setrlimit, int r, const struct rlimit* l) { if (!SIM) return __real_setrlimit((__rlimit_resource_t)r, l); return refuse(); }
WRAP(int, setrlimit64, int r, const struct rlimit64* l) { if (!SIM) return __real_setrlimit64((__rlimit_resource_t)r, l); return refuse(); }

// clock, randomness, environment
static int64_t now_ns() { return sh->k.epoch * 1000000000ll + (int64_t)sh->simtime_ns + (int64_t)sh->steps; }
WRAP(time_t, time, time_t* t) { if (!SIM) return __real_time(t); time_t v = (time_t)(now_ns() / 1000000000ll); if (t) *t = v; return v; }
WRAP(int, clock_gettime, clockid_t c, struct timespec* ts) { if (!SIM) return __real_clock_gettime(c, ts); int64_t n = now_ns(); ts->tv_sec = n / 1000000000ll; ts->tv_nsec = n % 1000000000ll; if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; } return 0; }
WRAP(int, gettimeofday, struct timeval* tv, void* z) { if (!SIM) return __real_gettimeofday(tv, (struct timezone*)z); int64_t n = now_ns(); tv->tv_sec = n / 1000000000ll; tv->tv_usec = (n / 1000) % 1000000; return 0; }
WRAP(clock_t, clock, void) { if (!SIM) return __real_clock(); return (clock_t)(sh->simtime_ns / 1000); }
WRAP(uint32_t, arc4random, void) { if (!SIM) return __real_arc4random(); static uint64_t x = 0xa5c4; return (uint32_t)splitmix(x); }
WRAP(int, getentropy, void* b, size_t n) { if (!SIM) return __real_getentropy(b, n); static uint64_t x = 0xe57; for (size_t i = 0; i < n; i++) ((uint8_t*)b)[i] = (uint8_t)splitmix(x); return 0; }
WRAP(int, rand, void) { if (!SIM) return __real_rand(); static uint64_t s = 0; if (!s) s = sh->k.seed | 1; return (int)(splitmix(s) & RAND_MAX); }
WRAP(long, random, void) { if (!SIM) return __real_random(); static uint64_t s = 0; if (!s) s = sh->k.seed | 1; return (long)(splitmix(s) & RAND_MAX); }
WRAP(pid_t, getpid, void) { if (!SIM) return __real_getpid(); return 1000 + (pid_t)(sh->k.seed % 20000) + 40000 * sh->id; }
static char* sim_getenv(const char* n) {
    if (!sh->k.env_mode) return nullptr;
    static char buf[8][64]; static int i;
    static const char* vals[] = { "1", "0", "", "/tmp", "en_US.UTF-8", "de_DE", "yes", "\xff\xfe", "99999999999", "C", "./", "/shadow/" };
    const char* v = vals[mix(sh->k.seed, strhash(n)) % (sizeof vals / sizeof *vals)];
    char* b = buf[i++ & 7]; snprintf(b, 64, "%s", v); return b;
}
WRAP(char*, getenv, const char* n) { if (!SIM) return __real_getenv(n); return sim_getenv(n); }
WRAP(char*, secure_getenv, const char* n) { if (!SIM) return __real_secure_getenv(n); return sim_getenv(n); }
static int sim_sleep(int64_t ns) { sh->simtime_ns += (uint64_t)ns; sh->calls++; if (sh->call_budget && sh->calls > sh->call_budget) vsim::hang(); return 0; }
WRAP(int, nanosleep, const struct timespec* a, struct timespec* b) { if (!SIM) return __real_nanosleep(a, b); return sim_sleep(a->tv_sec * 1000000000ll + a->tv_nsec); }
WRAP(int, clock_nanosleep, clockid_t c, int f, const struct timespec* a, struct timespec* b) { if (!SIM) return __real_clock_nanosleep(c, f, a, b); return sim_sleep(1000000); }
WRAP(int, usleep, useconds_t u) { if (!SIM) return __real_usleep(u); return sim_sleep((int64_t)u * 1000); }
WRAP(unsigned, sleep, unsigned s) { if (!SIM) return __real_sleep(s); sim_sleep((int64_t)s * 1000000000ll); return 0; }
