// Deterministic simulation runtime: the interface the harnesses use.
//
// One simulated run = one forked process in which every std::thread / pthread is a fiber, and every lock,
// condition variable, atomic access, plain shared memory access, clock read, sleep, allocation, signal, stdin byte
// and inotify event goes through the runtime in rt.cpp. All choices come from one seed (or one replay file).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <functional>
#include <string>

namespace sim {

enum Fault
{
    F_SPURIOUS = 0,   // spurious condition-variable wake-up
    F_STALL,          // a runnable thread stalls: virtual time moves on while it holds the CPU
    F_WALLJUMP,       // wall clock steps forwards or backwards
    F_ALLOC,          // operator new / malloc fails
    F_THREAD,         // pthread_create fails with EAGAIN
    F_SIGNAL,         // asynchronous signal delivered inside another thread
    F_IO,             // read / inotify / ioctl style failure or short result
    F_EOF,            // end of input
    F_THROW,          // user supplied code throws
    F_MAX
};

//! Workload choice in [0, n). 0 is the simplest value: minimisation drives choices to 0.
uint32_t choose(uint32_t n);
//! true with probability about num/den; false is the default value
bool chance(uint32_t num, uint32_t den);
//! one_in: average number of opportunities per injected fault. 0 disables.
void set_fault(Fault f, uint32_t one_in);
//! A harness controlled fault point: whether the fault fires here.
bool fault(Fault f);
void count_fault(Fault f);
uint64_t faults(Fault f);   // injected in this run so far
//! Allow allocation failures for the calling thread while an AllocFaults object is alive
struct AllocFaults { AllocFaults(); ~AllocFaults(); };

//! Runtime semantics knobs
void set_writer_preference(bool on);   // shared mutexes block new readers while a writer waits
void long_limits();                    // this run has waits of hours: a loop that looks at its condition every now and then takes very many steps in them
void set_step_cost_ns(uint64_t ns);    // virtual time each synchronisation operation takes

uint64_t now_ns();        // virtual steady clock, no side effect
int64_t wall_ns();        // virtual wall clock, no side effect
uint64_t stamp();         // next global event number (total order over the run)
void jump_wall(int64_t delta_ns);
void sleep_ms(uint64_t ms);
//! Block until no other thread can run without time moving on. Returns without moving the clock.
void quiesce();
bool in_quiesce_possible();
//! voluntarily let another thread run
void yield();
int self();               // id of the calling simulated thread (0: harness main)
int live_threads();       // simulated threads not finished (including main)
int blocked_threads();    // of which blocked right now
bool thread_blocked(int id);
const char* thread_wait(int id);
void name(const char* n); // name of the calling thread, for traces
int64_t live_allocs();    // heap blocks allocated in this run and not yet freed
int64_t live_bytes();
uint64_t thread_count_created();
void allow_live_threads();   // threads owned by process-wide singletons outlive the run

void probe(const char* name);                        // reach probe
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));      // event log line (hashed)
void describe(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // workload description of this run
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
//! Override the class under which runtime detected faults (deadlock...) of this run are explained
void context(const char* what);

//! Oracle code: no preemption, no race detection, no virtual time.
struct Quiet { Quiet(); ~Quiet(); Quiet(const Quiet&) = delete; };
void ignore_races(const void* p, size_t n);

//! Simulated process signals
void post_signal(int sig);        // asynchronous: delivered inside some simulated thread at a later instant
bool signal_handled(int sig);     // whether a handler is installed
uint64_t signals_delivered(int sig);
uint64_t signals_pending(int sig);

//! The process ends: destructors of the statics built during the run, in the calling thread, the others still running
void run_exit_handlers();

//! Simulated standard input
void stdin_push(const std::string& bytes);
void stdin_close();               // EOF once the pushed bytes are read
void stdin_terminal(bool is_tty, int width);
uint64_t stdin_reads_after_eof();
size_t stdin_unread();
void stdin_settings(int k);        // other settings of the terminal, from now on the ones to be left
bool stdin_raw_mode();            // whether the terminal's settings are not those it had at first
//! what a terminal that echoes does with each character typed
void stdin_echo(void (* f)(char));

//! Simulated inotify
void fs_event(const std::string& dir, const std::string& name, uint32_t mask);
void fs_mkdir(const std::string& path);
//! The directory is removed: the watches on it end, which their readers are told
void fs_rmdir(const std::string& path);
void fs_touch(const std::string& path);
void fs_fail_init(bool on);
void fs_fail_watch(bool on);
//! a regular file: contents, offset from which reading fails (-1: none; 0 without contents: a directory), error of opening it
void fs_file(const std::string& path, const char* data, size_t n, int64_t bad_at, int open_err);
void fs_perm(const std::string& path, int perm);
uint64_t fs_open_failures();      // injected ones
int fs_open_fds();
int fs_watches();

//! One value of std::random_device
void set_random_device(uint32_t v);

struct Scenario
{
    const char* prop;
    const char* name;
    uint32_t weight;
    void (* fn)();
    const char* only;         // classes of violation that break this property too, if it is borrowed from another one
    Scenario* next;
    Scenario(const char* prop, const char* name, uint32_t weight, void (* fn)(), const char* only = nullptr);
};
#define SCENARIO(prop, name, weight) \
    static void scn_ ## prop ## _ ## name(); \
    static sim::Scenario scnreg_ ## prop ## _ ## name(#prop, #name, weight, &scn_ ## prop ## _ ## name); \
    static void scn_ ## prop ## _ ## name()

//! A scenario of another property whose violations of the classes given (each between spaces), or crashes, break this one too
#define ALSO(prop, from, name, weight, classes) \
    static sim::Scenario scnalso_ ## prop ## _ ## from ## _ ## name(#prop, #from "_" #name, weight, &scn_ ## from ## _ ## name, " data-race use-after-free heap-out-of-bounds destroyed-in-use mutex-misuse terminate " classes " ")

//! Something done once, outside the runs, before those of a property
struct Prepare
{
    const char* prop;
    void (* fn)();
    Prepare* next;
    Prepare(const char* prop, void (* fn)());
};
//! Memory shared with the processes of the runs
void* shared_memory(size_t size);
//! Execute something in a process of its own, outside the runs
void in_process(const std::function<void()>& fn);

#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) { sim::violation(cls, __VA_ARGS__); } } while (0)

} // namespace sim
