// Deterministic simulation runtime: public interface.
//
// One "incarnation" = one process life of the system under test.  It is run in
// a forked child, on real OS threads of which exactly one is ever released, and
// every choice of who runs, what the clock says, which file operation fails and
// where the process dies is a pure function of the Config below.
#ifndef SIM_RT_H_
#define SIM_RT_H_
#include <cstddef>
#include <cstdint>

namespace sim {

enum FaultKind : int {
  F_CRASH_BEFORE = 1, // process dies just before the operation
  F_CRASH_AFTER = 2,  // process dies just after the operation completed
  F_CRASH_TORN = 3,   // a write persists only a prefix, then the process dies
  F_ERR = 4,          // the operation fails with errno = arg (see READ_ERROR)
  F_DISKFULL = 5,     // from here on (for `arg` operations) storage is full
  F_SHORT = 6,        // a read/write transfers only part of what was asked
  F_EINTR = 7,        // a read/write is interrupted once
  F_ALLOC = 8,        // the arg-th allocation (not I/O op) fails
  F_KINDS = 9
};

const int READ_ERROR = 10000; // added to the errno of an error while reading
const int OWN_ERROR = 20000;  // the same, of a file of the index itself

struct Fault {
  int inc;      // incarnation it belongs to
  int kind;     // FaultKind
  int64_t at;   // index of the I/O operation (or allocation) in that incarnation
  int64_t arg;  // errno, byte permille, count
};

struct Switch {
  int inc;
  int tid;
  uint64_t step;
};

enum Strategy : int {
  S_RANDOM = 0, // random walk: sync points + geometric memory preemption
  S_PCT = 1,    // priorities with few change points
  S_WATCH = 2,  // delay one access until a conflicting one arrives
  S_RARE = 3,   // like WATCH, but biased to rarely executed code
  S_COARSE = 4, // switches at synchronisation points only
  S_EXPLICIT = 5
};

struct Config {
  int inc = 0;
  uint64_t seed = 1;
  int strategy = S_RANDOM;
  uint64_t gap = 2000;      // mean number of accesses between preemptions
  int sync_permille = 300;  // switch probability at a synchronisation point
  int pct_points = 3;
  uint64_t pct_span = 200000;
  int hw = 2;               // simulated hardware concurrency
  uint64_t max_steps = 400000000ull;
  const Fault *faults = nullptr;
  int nfaults = 0;
  const Switch *switches = nullptr; // explicit schedule (this incarnation only)
  int nswitches = 0;
};

enum IoOp : int {
  IO_OPEN_R, IO_OPEN_W, IO_READ, IO_WRITE, IO_CLOSE_W, IO_LINK, IO_RENAME,
  IO_REMOVE, IO_TRUNC, IO_MKDIR, IO_CHMOD, IO_LIST, IO_EXEC, IO_SYNC, IO_OPS
};
extern const char *io_names[IO_OPS];

struct IoRec {
  uint8_t op;
  uint8_t tid;
  uint16_t cls;   // path class
  uint32_t size;
};

enum Outcome : int {
  O_NONE = 0,      // died without saying why (signal, _exit elsewhere)
  O_DONE = 1,      // workload completed
  O_CRASH = 2,     // injected crash
  O_VIOLATION = 3, // oracle or runtime found a violation
  O_ABORT = 4,     // assert()/abort()/terminate()/fatal signal in the code
  O_INTERNAL = 5   // the simulator itself is at fault
};

const int MAX_TRACE = 1 << 17;
const int MAX_IO = 1 << 16;

struct Result { // lives in shared memory, survives the child
  int outcome;
  char cls[64];
  char msg[4096];
  uint64_t hash;        // of every decision, event and observation
  uint64_t sched_hash;  // of the order of synchronisation and I/O events
  uint64_t steps, sync_points, switches, preemptions;
  uint64_t threads_created, max_threads, io_ops, allocs, sim_ns;
  uint64_t fired[F_KINDS];
  uint64_t io_count[IO_OPS];
  int escaped;          // mutations outside the scratch directory (refused)
  int error_reported;   // at least one injected I/O error fired
  int ntrace;
  Switch trace[MAX_TRACE];
  int nio;
  IoRec io[MAX_IO];
  uint64_t probes[64];
  int ncls;
  char cls_name[128][40];
  uint64_t crash_op;    // IoOp+1 at which an injected crash happened
};

// ---- driver side -----------------------------------------------------------
Result *alloc_result();
void *alloc_shared(size_t bytes);
// In the child: run fn(arg) as simulated thread 0, then _exit.
[[noreturn]] void run_child(const Config &config, Result *result,
                            void (*fn)(void *), void *arg);

// ---- workload side (inside the simulation) ---------------------------------
bool active();
int self();
[[noreturn]] void fail(const char *cls, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
[[noreturn]] void internal(const char *fmt, ...)
    __attribute__((format(printf, 1, 2)));
void note(uint64_t value);          // mix an observation into the run hash
uint64_t stamp();                   // global event sequence number
void mark_client();                 // calling thread belongs to the workload
int wait_idle();                    // until nothing else can run; #blocked
int live_background();              // unfinished threads not marked client
void quiet(bool on);                // no preemption inside oracle code
void pause_point();                 // a voluntary scheduling point
void probe(int id);
void set_error_flag(int *flag);     // set when an injected error fires
void set_reading_flag(int *flag);   // set when reading the index fails
bool error_fired();                 // has an injected I/O error fired yet?
bool reading_failed();              // has reading the index itself failed yet?
uint64_t io_index();
bool fault_near(uint64_t since);    // an error fired at io index >= since
void set_faults_enabled(bool on);
void spare_removals(bool on);       // no errors from removing files
int left_open(const char **what);   // files and pipes not closed; one of them
void watch_use(bool on);            // note which files are opened
bool used(const char *path);        // has a file of that name been opened?
const char *class_name(int cls);

} // namespace sim
#endif
