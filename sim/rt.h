// Runtime internals shared by rt.cpp (simulator) and driver.cpp (batch driver).
#pragma once
#include <cstdint>
#include <cstddef>
#include "sim.h"

namespace rt {

enum ChoiceKind : uint8_t { C_WORK = 0, C_SCHED, C_BLOCK, C_FAULT, C_PICK, C_TIME, C_SIG, C_KINDS };

struct Choice
{
    uint8_t kind;
    uint8_t fiber;
    uint8_t sub;
    uint8_t pad;
    uint32_t idx;
    uint32_t val;
};

constexpr int MAX_CHOICES = 1 << 17;
constexpr int MAX_PROBES = 96;
constexpr int TRACE_CAP = 1 << 20;

struct Probe { char name[44]; uint32_t n; };

struct Result
{
    int done;                 // 1: finished ok, 2: violation, 0: died before reporting
    char cls[96];
    char msg[6000];
    char desc[4000];
    uint64_t hash;            // full event log hash
    uint64_t sched_hash;      // interleaving hash (which thread ran from where)
    uint64_t sp, switches, preempts, syncops, mem_accesses;
    uint64_t steps_fair;
    uint64_t sim_ns;
    int threads;
    uint32_t faults[sim::F_MAX];
    uint32_t fault_opps[sim::F_MAX];
    int nprobes;
    Probe probes[MAX_PROBES];
    int nchoices;
    int choices_overflow;
    Choice choices[MAX_CHOICES];
    int trace_len;
    char trace[TRACE_CAP];
};

struct RunSpec
{
    void (* fn)();
    uint64_t seed;
    bool replay;
    const Choice* choices;    // replay: non-default choices
    int nchoices;
    bool trace;               // record a readable trace
};

//! Runs one simulation in the current process and never returns: result in *res, then _exit.
[[noreturn]] void run(const RunSpec& spec, Result* res);

} // namespace rt
