// Simulator runtime: an in-memory operating system (files, directories, descriptors, console, memory
// allocator, clock, environment) that the real pasm / eolconvert code runs on inside a forked child.
// Everything the code under test can observe is decided by the plain-data RunSpec below.
#pragma once
#include <stdint.h>
#include <stddef.h>

namespace vsim {

enum Op {
    OP_NONE = 0,
    OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_SEEK, OP_STAT, OP_OPENDIR, OP_READDIR,
    OP_RENAME, OP_UNLINK, OP_MKDIR, OP_SYNC, OP_TRUNC, OP_REALPATH, OP_MALLOC,
    OP_CRASH,       // kill the process at the nth system call
    OP_MAX
};
extern const char* const op_names[OP_MAX];

// one explicit fault; nth counts matching calls from 1
struct Rule {
    int op;
    int nth;            // first matching call that fails
    int count;          // how many consecutive matching calls fail (-1: all later ones too)
    int err;            // errno delivered
    int arg;            // WRITE: bytes accepted before the failure; CLOSE: bytes of the file that survive (-1 all)
                        // CRASH: 0 before the call, 1 after it, 2+p: write cut after p percent
                        // OPEN: 1 = only opens for writing, 2 = only opens for reading
    char path[200];     // absolute path the rule is about, "*" for any file (never the console)
    // runtime
    int hits, fired;
    bool pending;
};

enum HeapMode { HEAP_BUMP = 0, HEAP_LIFO = 1, HEAP_FIFO = 2, HEAP_RANDOM = 3 };
enum ConsoleMode { CON_OK = 0 };

struct Knobs {
    uint32_t read_chunk;        // max bytes one read returns (0 = no limit)
    uint32_t read_rand;         // 1: vary 1..read_chunk by seed
    uint32_t write_chunk;       // max bytes one write accepts (0 = no limit)
    uint32_t write_rand;
    uint32_t bufsize;           // stdio buffer size for files (default 4096)
    uint32_t heap_mode;
    uint32_t heap_fill;         // 0: zero filled, 1: fixed 0xFF, 2: seeded garbage, 3: seeded small ints
    uint32_t free_fill;         // 0: leave, 1: 0xDD, 2: seeded garbage
    uint32_t stack_fill;        // 0: zero, 1: seeded garbage, 2: 0xFF
    uint32_t heap_pad;          // random extra space between blocks, up to this many 16-byte units
    uint32_t realloc_move;      // 1: realloc always moves
    uint32_t env_mode;          // 0: empty environment, 1: seeded values for whatever is asked
    uint32_t nofile;            // descriptor limit (0 = 1024)
    uint32_t dir_order;         // 0 creation order, 1 reversed, 2 seeded shuffle
    uint32_t dtype_unknown;     // readdir reports DT_UNKNOWN
    uint32_t out_linebuf;       // stdout line buffered
    uint32_t closed;            // standard streams the program is started without: 1 stdin, 2 stdout, 4 stderr
    int64_t  epoch;             // clock base
    int64_t  quota;             // bytes that may still be stored on the disk (-1 = unlimited)
    uint64_t seed;              // for the seeded policies above
};

enum { MAXRULES = 24, MAXNODES = 1500, NAMEMAX = 255, COVBITS = 1 << 16 };

struct Node {
    uint8_t used, type;         // type 1 file, 2 directory
    uint8_t noperm;             // 1 not readable, 2 not writable, 3 neither
    uint8_t lock;               // flock holder + 1
    uint8_t written;            // created, truncated, written, renamed or removed during this run
    int parent;                 // -1 detached (removed while open)
    uint64_t off, size, cap;
    uint64_t synced;            // 1 if fsynced since the last write
    uint32_t order;             // creation order inside the directory
    char name[NAMEMAX + 1];
};

enum { MAXPROC = 4, MAXSW = 6000, SW_HALT = 255 };
struct Switch { uint32_t at; uint32_t to; };   // at that scheduling point process `to` goes on (SW_HALT: the machine stops)

// the machine: what all processes running at the same time share
struct Machine {
    int nnodes; uint32_t order;
    uint64_t bump, bump_end;
    int64_t quota;
    Node nodes[MAXNODES];
    // one process runs at a time; it may hand over at the start of each system call
    int nproc; volatile int turn; volatile int halted;
    volatile int alive[MAXPROC];
    uint32_t point; int nsw, sw; Switch sws[MAXSW];
    uint64_t ilhash; uint32_t switches;
};

// one process
struct Shared {
    // input
    Knobs k;
    int nrules; Rule rules[MAXRULES];
    uint64_t step_budget; uint64_t call_budget;
    int id; int cwd;
    uint16_t refs[MAXNODES];    // open descriptors of this process per node
    int out_node[2];
    // results
    uint64_t steps, calls, mallocs, allocbytes;
    uint64_t reads, writes, opens, closes;
    uint64_t evhash;            // hash of every event in order
    uint64_t ioevhash;          // hash over system-call events only, without sizes of console output
    int crashed, hang, exited, maxopen, escape, leaked_open;
    int ntouched, fault_ntouched;  // paths created, truncated, written, renamed or removed, in first-touch order; how many at the first fault (-1 none)
    char touched[64][200];
    uint64_t simtime_ns;
    char note[512];
    uint64_t fired[OP_MAX];
    uint64_t short_reads, short_writes, emfile, enospc;
    char crash_at[256];
    uint8_t cov[COVBITS];
};

extern Machine* mc;
extern Shared* procs;           // MAXPROC of them
extern Shared* sh;              // the current process
void proc_dead(int id);         // its descriptors and locks are gone
void pass_turn(int from);       // after a process ended: the next one goes on
extern int g_active;            // the code under test is running
extern int g_harness;           // >0 while simulator code runs on its behalf

uint8_t* data_at(uint64_t off);

void rt_init();                               // maps the arenas (per worker process)
void rt_reset_fs();                           // empty file system with root only
int  fs_mkdir_p(const char* path);            // returns node
int  fs_put(const char* path, const void* data, size_t n);
int  fs_lookup(const char* path, int* parent_out, char* last);   // node or -1 (errno)
void fs_path(int node, char* out, size_t n);  // absolute path of a node

// runs entry(argc, argv) in this (child) process; never returns
[[noreturn]] void rt_run(int (*entry)(int, char**), int argc, char** argv);

uint64_t splitmix(uint64_t& s);
uint64_t mix(uint64_t a, uint64_t b);
}
