// Batch driver: seeded search over runs, gate, minimisation, replay files.
//
//   sim --list
//   sim --prop W01 --seed 1 --secs 20 --jobs 8 --out DIR [--known FILE] [--all] [--runs N] [--scenario NAME]
//   sim --replay FILE [--verbose]
//   sim --one PROP SCENARIO INDEX --seed S [--verbose]
//   sim --determinism N --seed S      each of N runs is executed twice and replayed once: hashes must agree
//
// exit: 0 nothing found, 1 violation (replay file written, confirmed in two fresh processes), 3 machinery error
#include "rt.h"
#include <fcntl.h>
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>

using namespace rt;
namespace sim {
extern Scenario* scenarios_head;
extern Prepare* prepares_head;

void* shared_memory(size_t size)
{
    void* p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mmap");
        exit(3);
    }
    return p;
}

void in_process(const std::function<void()>& fn)
{
    pid_t p = fork();
    if (p == 0)
    {
        fn();
        _exit(0);
    }
    int st;
    while (p > 0 && waitpid(p, &st, 0) < 0)
    {
    }
}
} // namespace sim

namespace {

//! messages may quote arbitrary bytes
void printable(char* t)
{
    for (; *t; t++)
    {
        if (((unsigned char)*t < 32 && *t != '\n') || (unsigned char)*t > 126)
        {
            *t = '?';
        }
    }
}


uint64_t mix64(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
double mono()
{
    timespec t;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

struct Known { std::string prop, scenario, cls, text; };
std::vector<Known> g_known;

bool is_known(const std::string& prop, const std::string& scn, const std::string& cls, const char* msg, std::string* text = nullptr)
{
    for (auto& k : g_known)
    {
        if (k.prop == prop && k.scenario == scn && k.cls == cls)
        {
            if (text)
            {
                *text = k.text;
            }
            (void)msg;
            return true;
        }
    }
    return false;
}

Result* new_result()
{
    void* p = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mmap");
        exit(3);
    }
    return (Result*)p;
}

//! what a scenario needs before its runs
void prepare(void (* fn)())
{
    static std::set<void (*)()> done;
    if (!done.insert(fn).second)
    {
        return;
    }
    for (auto p = sim::prepares_head; p; p = p->next)
    {
        for (auto c = sim::scenarios_head; c; c = c->next)
        {
            if (c->fn == fn && !strcmp(p->prop, c->prop))
            {
                p->fn();
            }
        }
    }
}

//! one run in a forked process
bool exec_run(const RunSpec& sp, Result* r)
{
    prepare(sp.fn);
    for (int attempt = 0; attempt < 2; attempt++)
    {
        r->done = 0;
        pid_t p = fork();
        if (p < 0)
        {
            usleep(100000);
            continue;
        }
        if (p == 0)
        {
            // what the code under test prints is of no interest
            static int null = open("/dev/null", O_WRONLY | O_CLOEXEC);
            dup2(null, 1);
            rt::run(sp, r);
        }
        int st;
        while (waitpid(p, &st, 0) < 0)
        {
        }
        printable(r->msg);
        printable(r->desc);
        printable(r->cls);
        if (r->done)
        {
            return true;
        }
        fprintf(stderr, "driver: run died without a result (status 0x%x)\n", st);
    }
    return false;
}

uint64_t ckey(const Choice& c)
{
    return ((uint64_t)c.kind << 56) | ((uint64_t)c.fiber << 48) | ((uint64_t)c.sub << 40) | c.idx;
}
void sort_choices(std::vector<Choice>& v)
{
    std::sort(v.begin(), v.end(), [](const Choice& a, const Choice& b){ return ckey(a) < ckey(b); });
}
bool replay_run(sim::Scenario* s, std::vector<Choice> v, Result* r, bool trace, uint64_t seed)
{
    sort_choices(v);
    RunSpec sp{};
    sp.fn = s->fn;
    sp.seed = seed;
    sp.replay = true;
    sp.choices = v.data();
    sp.nchoices = (int)v.size();
    sp.trace = trace;
    return exec_run(sp, r);
}
bool record_run(sim::Scenario* s, uint64_t seed, Result* r, bool trace)
{
    RunSpec sp{};
    sp.fn = s->fn;
    sp.seed = seed;
    sp.trace = trace;
    return exec_run(sp, r);
}

std::vector<sim::Scenario*> scenarios(const std::string& prop, const std::string& only)
{
    std::vector<sim::Scenario*> v;
    for (auto* s = sim::scenarios_head; s; s = s->next)
    {
        if ((prop.empty() || prop == s->prop) && (only.empty() || only == s->name))
        {
            v.push_back(s);
        }
    }
    std::sort(v.begin(), v.end(), [](sim::Scenario* a, sim::Scenario* b){
                int c = strcmp(a->prop, b->prop);
                return c ? c < 0 : strcmp(a->name, b->name) < 0;
            });
    for (size_t i = 1; i < v.size(); i++)
    {
        if (!strcmp(v[i - 1]->prop, v[i]->prop) && !strcmp(v[i - 1]->name, v[i]->name))
        {
            fprintf(stderr, "two scenarios %s/%s\n", v[i]->prop, v[i]->name);
            exit(3);
        }
    }
    return v;
}
sim::Scenario* pick(const std::vector<sim::Scenario*>& v, uint64_t index)
{
    uint64_t total = 0;
    for (auto* s : v)
    {
        total += s->weight;
    }
    // stride so that all scenarios appear early
    uint64_t k = (index * 7919) % total;
    for (auto* s : v)
    {
        if (k < s->weight)
        {
            return s;
        }
        k -= s->weight;
    }
    return v[0];
}
uint64_t run_seed(uint64_t base, uint64_t index, const sim::Scenario* s)
{
    uint64_t h = 1469598103934665603ull;
    for (const char* p = s->prop; *p; p++)
    {
        h = (h ^ *p) * 1099511628211ull;
    }
    for (const char* p = s->name; *p; p++)
    {
        h = (h ^ *p) * 1099511628211ull;
    }
    return mix64(mix64(base * 0x9E3779B97F4A7C15ull + index) ^ h);
}

struct Found { uint64_t index; int scn; char cls[96]; char first[240]; uint32_t n; };
struct Shared
{
    std::atomic<uint64_t> next;
    std::atomic<int> stop;
    std::atomic<int> lock;
    std::atomic<int> err;
    std::atomic<int> unrepeatable;
    int nfound;
    Found found[128];
};
struct ProbeAgg { uint64_t n = 0, runs = 0; };
struct Agg
{
    uint64_t runs = 0, sim_ns = 0, sp = 0, switches = 0, preempts = 0, syncops = 0, max_threads = 0, threads = 0, known = 0;
    uint64_t faults[sim::F_MAX] = {}, opps[sim::F_MAX] = {};
    std::map<std::string, ProbeAgg> probes;
    std::map<std::string, uint64_t> scn_runs;
    std::map<std::string, uint64_t> known_hits;
    std::vector<std::pair<uint64_t, std::string>> samples;
};
const char* fault_names[] = {"spurious_wakeup", "stalled_thread", "wall_clock_jump", "allocation_failure", "thread_creation_failure",
                             "asynchronous_signal", "io_error", "end_of_input", "user_code_throws"};

void esc(FILE* f, const std::string& s)
{
    fputc('"', f);
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            fprintf(f, "\\%c", c);
        }
        else if (c < 32 || c > 126)
        {
            fprintf(f, "\\u%04x", c);
        }
        else
        {
            fputc(c, f);
        }
    }
    fputc('"', f);
}

void worker(int w, Shared* sh, const std::vector<sim::Scenario*>& scs, uint64_t base, uint64_t maxruns, double until,
        const std::string& out, bool all)
{
    Agg a;
    std::vector<uint64_t> hs;
    Result* r = new_result();
    Result* again = new_result();
    while (!sh->stop.load())
    {
        if (mono() >= until)
        {
            break;
        }
        uint64_t i = sh->next.fetch_add(1);
        if (i >= maxruns)
        {
            break;
        }
        sim::Scenario* s = pick(scs, i);
        uint64_t seed = run_seed(base, i, s);
        if (!record_run(s, seed, r, false))
        {
            sh->err.store(1);
            fprintf(stderr, "driver: %s/%s index %llu gave no result\n", s->prop, s->name, (unsigned long long)i);
            break;
        }
        a.runs++;
        a.sim_ns += r->sim_ns - 1000000000ull;
        a.sp += r->sp;
        if (getenv("SIM_BIG"))
        {
            static std::map<std::string, uint64_t> big;
            auto& b = big[s->name];
            if (r->sp > b)
            {
                b = r->sp;
                fprintf(stderr, "BIG %s/%s %llu\n", s->prop, s->name, (unsigned long long)r->sp);
            }
        }
        a.switches += r->switches;
        a.preempts += r->preempts;
        a.syncops += r->syncops;
        a.threads += r->threads;
        a.max_threads = std::max<uint64_t>(a.max_threads, r->threads);
        for (int k = 0; k < sim::F_MAX; k++)
        {
            a.faults[k] += r->faults[k];
            a.opps[k] += r->fault_opps[k];
        }
        for (int k = 0; k < r->nprobes; k++)
        {
            auto& p = a.probes[r->probes[k].name];
            p.n += r->probes[k].n;
            p.runs++;
        }
        a.scn_runs[std::string(s->prop) + "/" + s->name]++;
        bool nontrivial = r->preempts > 0;
        for (int k = 0; k < sim::F_MAX; k++)
        {
            nontrivial |= r->faults[k] > 0;
        }
        if (nontrivial)
        {
            // with a single thread, what is explored is the sequence of operations and faults
            hs.push_back(mix64(r->sched_hash ^ (uint64_t)(uintptr_t)s->fn ^ (r->threads <= 1 ? r->hash : 0)));
        }
        if (i < 400 && r->desc[0] && a.samples.size() < 12)
        {
            a.samples.push_back({i, std::string(s->name) + ": " + r->desc});
        }
        if (r->done == 2)
        {
            if (s->only && strncmp(r->cls, "crash-", 6) && !strstr(s->only, (" " + std::string(r->cls) + " ").c_str()))
            {
                continue;   // it breaks just the property the scenario comes from
            }
            if (is_known(s->prop, s->name, r->cls, r->msg))
            {
                a.known++;
                a.known_hits[std::string(s->prop) + "/" + s->name + "/" + r->cls]++;
                continue;
            }
            // what does not fail identically with the same seed is not reported: the search goes on
            if (!all && (!record_run(s, seed, again, false) || again->done != 2 || again->hash != r->hash || strcmp(again->cls, r->cls)))
            {
                sh->unrepeatable.fetch_add(1);
                continue;
            }
            while (sh->lock.exchange(1))
            {
                usleep(100);
            }
            int si = -1;
            for (size_t k = 0; k < scs.size(); k++)
            {
                if (scs[k] == s)
                {
                    si = (int)k;
                }
            }
            bool have = false;
            for (int k = 0; k < sh->nfound; k++)
            {
                Found& f = sh->found[k];
                if (f.scn == si && !strcmp(f.cls, r->cls))
                {
                    f.n++;
                    if (i < f.index)
                    {
                        f.index = i;
                    }
                    have = true;
                }
            }
            if (!have && sh->nfound < 128)
            {
                Found& f = sh->found[sh->nfound++];
                f.index = i;
                f.scn = si;
                f.n = 1;
                strcpy(f.cls, r->cls);
                snprintf(f.first, sizeof f.first, "%.239s", r->msg);
            }
            sh->lock.store(0);
            if (!all)
            {
                sh->stop.store(1);
            }
        }
    }
    // stats file
    std::string fn = out + "/w" + std::to_string(w);
    FILE* f = fopen(fn.c_str(), "w");
    if (!f)
    {
        sh->err.store(1);
        _exit(3);
    }
    fprintf(f, "t %llu %llu %llu %llu %llu %llu %llu %llu %llu\n", (unsigned long long)a.runs, (unsigned long long)a.sim_ns,
            (unsigned long long)a.sp, (unsigned long long)a.switches, (unsigned long long)a.preempts, (unsigned long long)a.syncops,
            (unsigned long long)a.threads, (unsigned long long)a.max_threads, (unsigned long long)a.known);
    for (int k = 0; k < sim::F_MAX; k++)
    {
        fprintf(f, "f %d %llu %llu\n", k, (unsigned long long)a.faults[k], (unsigned long long)a.opps[k]);
    }
    for (auto& p : a.probes)
    {
        fprintf(f, "p %s %llu %llu\n", p.first.c_str(), (unsigned long long)p.second.n, (unsigned long long)p.second.runs);
    }
    for (auto& p : a.scn_runs)
    {
        fprintf(f, "s %s %llu\n", p.first.c_str(), (unsigned long long)p.second);
    }
    for (auto& p : a.known_hits)
    {
        fprintf(f, "k %s %llu\n", p.first.c_str(), (unsigned long long)p.second);
    }
    for (auto& p : a.samples)
    {
        std::string t = p.second;
        for (auto& c : t)
        {
            if (c == '\n')
            {
                c = ' ';
            }
        }
        fprintf(f, "e %llu %s\n", (unsigned long long)p.first, t.substr(0, 700).c_str());
    }
    fclose(f);
    FILE* hf = fopen((fn + ".h").c_str(), "wb");
    if (hf)
    {
        fwrite(hs.data(), 8, hs.size(), hf);
        fclose(hf);
    }
    _exit(0);
}

bool same(const Result* r, const std::string& cls)
{
    return r->done == 2 && cls == r->cls;
}

std::vector<Choice> minimise(sim::Scenario* s, std::vector<Choice> v, const std::string& cls, uint64_t seed, double cap, int& replays)
{
    Result* r = new_result();
    double until = mono() + cap;
    replays = 0;
    auto ok = [&](const std::vector<Choice>& t){
                replays++;
                return replay_run(s, t, r, false, seed) && same(r, cls);
            };
    bool progress = true;
    while (progress && mono() < until)
    {
        progress = false;
        // whole groups first
        for (int kind : {(int)C_FAULT, (int)C_TIME, (int)C_SIG, (int)C_PICK, (int)C_SCHED, (int)C_BLOCK, (int)C_WORK})
        {
            std::vector<Choice> t;
            for (auto& c : v)
            {
                if (c.kind != kind)
                {
                    t.push_back(c);
                }
            }
            if (t.size() < v.size() && mono() < until && ok(t))
            {
                v = t;
                progress = true;
            }
        }
        for (size_t chunk = std::max<size_t>(1, v.size() / 2);; chunk /= 2)
        {
            for (size_t i = 0; i < v.size() && mono() < until;)
            {
                std::vector<Choice> t(v.begin(), v.begin() + i);
                t.insert(t.end(), v.begin() + std::min(v.size(), i + chunk), v.end());
                if (ok(t))
                {
                    v = t;
                    progress = true;
                }
                else
                {
                    i += chunk;
                }
            }
            if (chunk <= 1 || mono() >= until)
            {
                break;
            }
        }
        // smaller values
        for (size_t i = 0; i < v.size() && mono() < until; i++)
        {
            for (uint32_t nv : {1u, v[i].val / 2, v[i].val - 1})
            {
                if (nv >= 1 && nv < v[i].val)
                {
                    auto t = v;
                    t[i].val = nv;
                    if (ok(t))
                    {
                        v = t;
                        progress = true;
                        break;
                    }
                }
            }
        }
    }
    munmap(r, sizeof(Result));
    return v;
}

const char* kind_names[] = {"work", "sched", "block", "fault", "pick", "time", "signal"};

bool write_replay(const std::string& file, sim::Scenario* s, uint64_t base, uint64_t index, uint64_t seed, const std::vector<Choice>& v, const Result* r,
        size_t orig, bool by_seed)
{
    FILE* f = fopen(file.c_str(), "w");
    if (!f)
    {
        return false;
    }
    fprintf(f, "simreplay 1\nproperty %s\nscenario %s\nbase_seed %llu\nindex %llu\nseed %llu\nclass %s\nhash %016llx\n", s->prop, s->name,
            (unsigned long long)base, (unsigned long long)index, (unsigned long long)seed, r->cls, (unsigned long long)r->hash);
    if (by_seed)
    {
        fprintf(f, "by_seed\n# not minimised: every choice is drawn from the seed\n");
    }
    else
    {
        fprintf(f, "# minimised from %zu non-default choices to %zu; every choice not listed takes its default (0)\n", orig, v.size());
    }
    fprintf(f, "choices %zu\n", v.size());
    for (auto& c : v)
    {
        fprintf(f, "c %d %d %d %u %u   # %s%s%s\n", c.kind, c.fiber, c.sub, c.idx, c.val, kind_names[c.kind],
                c.kind == C_FAULT && c.sub < sim::F_MAX ? " " : "", c.kind == C_FAULT && c.sub < sim::F_MAX ? fault_names[c.sub] : "");
    }
    fprintf(f, "end\n\n==== workload ====\n%s\n\n==== violation ====\n%s: %s\n\n==== schedule and fault trace ====\n%s\n", r->desc, r->cls, r->msg, r->trace);
    fclose(f);
    return true;
}

struct Loaded { std::string prop, scn, cls; uint64_t seed = 0, hash = 0; std::vector<Choice> v; bool by_seed = false; };
bool load_replay(const char* file, Loaded& l)
{
    FILE* f = fopen(file, "r");
    if (!f)
    {
        return false;
    }
    char line[1024];
    bool ok = false;
    while (fgets(line, sizeof line, f))
    {
        char a[256];
        unsigned long long u;
        int k, fi, su;
        unsigned ix, va;
        if (sscanf(line, "property %255s", a) == 1)
        {
            l.prop = a;
        }
        else if (sscanf(line, "scenario %255s", a) == 1)
        {
            l.scn = a;
        }
        else if (sscanf(line, "class %255s", a) == 1)
        {
            l.cls = a;
        }
        else if (sscanf(line, "seed %llu", &u) == 1)
        {
            l.seed = u;
        }
        else if (sscanf(line, "hash %llx", &u) == 1)
        {
            l.hash = u;
        }
        else if (sscanf(line, "c %d %d %d %u %u", &k, &fi, &su, &ix, &va) == 5)
        {
            Choice c{};
            c.kind = (uint8_t)k;
            c.fiber = (uint8_t)fi;
            c.sub = (uint8_t)su;
            c.idx = ix;
            c.val = va;
            l.v.push_back(c);
        }
        else if (!strncmp(line, "by_seed", 7))
        {
            l.by_seed = true;
        }
        else if (!strncmp(line, "end", 3))
        {
            ok = true;
            break;
        }
    }
    fclose(f);
    return ok;
}

int fresh_replay(const std::string& self, const std::string& file)
{
    pid_t p = fork();
    if (p == 0)
    {
        FILE* o = freopen("/dev/null", "w", stdout);
        (void)o;
        execl(self.c_str(), self.c_str(), "--replay", file.c_str(), (char*)nullptr);
        _exit(3);
    }
    int st;
    while (waitpid(p, &st, 0) < 0)
    {
    }
    return WIFEXITED(st) ? WEXITSTATUS(st) : 3;
}

} // namespace


int main(int argc, char** argv)
{
    setenv("TZ", "SIM-2", 1);
    tzset();
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::string prop, scn, out = ".", replay, one_p, one_s;
    uint64_t seed = 1, runs = ~0ull, one_i = 0, det = 0;
    double secs = 10, mincap = 25;
    int jobs = 8;
    bool all = false, verbose = false, list = false, one = false;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto nx = [&](){ return i + 1 < argc ? argv[++i] : (char*)""; };
        if (a == "--prop")
        {
            prop = nx();
        }
        else if (a == "--scenario")
        {
            scn = nx();
        }
        else if (a == "--seed")
        {
            seed = strtoull(nx(), nullptr, 10);
        }
        else if (a == "--runs")
        {
            runs = strtoull(nx(), nullptr, 10);
        }
        else if (a == "--secs")
        {
            secs = atof(nx());
        }
        else if (a == "--mincap")
        {
            mincap = atof(nx());
        }
        else if (a == "--jobs")
        {
            jobs = atoi(nx());
        }
        else if (a == "--out")
        {
            out = nx();
        }
        else if (a == "--all")
        {
            all = true;
        }
        else if (a == "--verbose")
        {
            verbose = true;
        }
        else if (a == "--list")
        {
            list = true;
        }
        else if (a == "--replay")
        {
            replay = nx();
        }
        else if (a == "--determinism")
        {
            det = strtoull(nx(), nullptr, 10);
        }
        else if (a == "--one")
        {
            one = true;
            one_p = nx();
            one_s = nx();
            one_i = strtoull(nx(), nullptr, 10);
        }
        else if (a == "--known")
        {
            FILE* f = fopen(nx(), "r");
            char line[2048];
            while (f && fgets(line, sizeof line, f))
            {
                char p[64], s[128], c[128];
                int n = 0;
                if (sscanf(line, "known: property=%63s scenario=%127s class=%127s %n", p, s, c, &n) >= 3)
                {
                    std::string t = line + n;
                    while (!t.empty() && t.back() == '\n')
                    {
                        t.pop_back();
                    }
                    g_known.push_back({p, s, c, t});
                }
            }
            if (f)
            {
                fclose(f);
            }
        }
        else
        {
            fprintf(stderr, "unknown option %s\n", a.c_str());
            return 3;
        }
    }
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);

    if (list)
    {
        for (auto* s : scenarios(prop, scn))
        {
            printf("%s %s %u\n", s->prop, s->name, s->weight);
        }
        return 0;
    }
    if (!replay.empty())
    {
        Loaded l;
        if (!load_replay(replay.c_str(), l))
        {
            fprintf(stderr, "cannot read %s\n", replay.c_str());
            return 3;
        }
        auto v = scenarios(l.prop, l.scn);
        if (v.empty())
        {
            fprintf(stderr, "no scenario %s/%s in this build\n", l.prop.c_str(), l.scn.c_str());
            return 3;
        }
        Result* r = new_result();
        if (!(l.by_seed ? record_run(v[0], l.seed, r, verbose) : replay_run(v[0], l.v, r, verbose, l.seed)))
        {
            return 3;
        }
        if (verbose)
        {
            printf("%s\n", r->trace);
        }
        printf("workload: %s\n", r->desc);
        if (r->done == 2)
        {
            printf("replay: property=%s scenario=%s class=%s hash=%016llx (%s)\n%s\n", l.prop.c_str(), l.scn.c_str(), r->cls,
                    (unsigned long long)r->hash, r->hash == l.hash ? "identical execution" : "DIFFERENT execution", r->msg);
            return r->hash == l.hash && l.cls == r->cls ? 1 : 4;
        }
        printf("replay: no violation on this tree\n");
        return 0;
    }
    if (one)
    {
        auto v = scenarios(one_p, one_s);
        if (v.empty())
        {
            return 3;
        }
        Result* r = new_result();
        if (!record_run(v[0], run_seed(seed, one_i, v[0]), r, verbose))
        {
            return 3;
        }
        if (verbose)
        {
            printf("%s\n", r->trace);
        }
        printf("%s\n%s %s %s\nhash %016llx sched %016llx sp %llu switches %llu choices %d threads %d sim %.3f ms\n", r->desc, r->done == 2 ? "VIOL" : "ok",
                r->cls, r->msg,
                (unsigned long long)r->hash, (unsigned long long)r->sched_hash, (unsigned long long)r->sp, (unsigned long long)r->switches,
                r->nchoices, r->threads, (r->sim_ns - 1000000000ull) / 1e6);
        for (int k = 0; k < r->nprobes; k++)
        {
            printf("probe %s %u\n", r->probes[k].name, r->probes[k].n);
        }
        return r->done == 2;
    }
    auto scs = scenarios(prop, scn);
    if (scs.empty())
    {
        fprintf(stderr, "no scenario for property %s\n", prop.c_str());
        return 3;
    }
    if (det)
    {
        // determinism: parallel over jobs
        std::vector<pid_t> ps;
        for (int w = 0; w < jobs; w++)
        {
            pid_t p = fork();
            if (p == 0)
            {
                Result* a = new_result(), * b = new_result();
                int bad = 0;
                for (uint64_t i = w; i < det; i += jobs)
                {
                    sim::Scenario* s = pick(scs, i);
                    uint64_t sd = run_seed(seed, i, s);
                    if (!record_run(s, sd, a, false) || !record_run(s, sd, b, true))
                    {
                        bad++;
                        continue;
                    }
                    if (a->hash != b->hash || a->sp != b->sp || a->nchoices != b->nchoices)
                    {
                        printf("NONDETERMINISM record/record %s/%s index %llu sp %llu/%llu\n", s->prop, s->name, (unsigned long long)i, (unsigned long long)a->sp, (unsigned long long)b->sp);
                        bad++;
                    }
                    if (a->choices_overflow)
                    {
                        printf("choices overflow %s/%s\n", s->prop, s->name);
                        continue;
                    }
                    std::vector<Choice> v(a->choices, a->choices + a->nchoices);
                    if (!replay_run(s, v, b, false, sd) || a->hash != b->hash)
                    {
                        printf("NONDETERMINISM record/replay %s/%s index %llu sp %llu/%llu done %d/%d %s\n", s->prop, s->name, (unsigned long long)i, (unsigned long long)a->sp, (unsigned long long)b->sp, a->done, b->done, b->msg);
                        bad++;
                    }
                }
                _exit(bad ? 1 : 0);
            }
            ps.push_back(p);
        }
        int bad = 0;
        for (auto p : ps)
        {
            int st;
            waitpid(p, &st, 0);
            bad |= st;
        }
        printf("determinism: %llu runs, each twice and replayed: %s\n", (unsigned long long)det, bad ? "MISMATCH" : "all hashes equal");
        return bad ? 3 : 0;
    }

    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = mono();
    std::vector<pid_t> ps;
    for (int w = 0; w < jobs; w++)
    {
        pid_t p = fork();
        if (p == 0)
        {
            worker(w, sh, scs, seed, runs, t0 + secs, out, all);
        }
        ps.push_back(p);
    }
    bool err = false;
    for (auto p : ps)
    {
        int st;
        while (waitpid(p, &st, 0) < 0)
        {
        }
        err |= st != 0;
    }
    double t1 = mono();
    err |= sh->err.load() != 0;

    // merge
    Agg a;
    std::set<uint64_t> distinct;
    std::map<int, std::pair<uint64_t, uint64_t>> fa;
    for (int w = 0; w < jobs; w++)
    {
        std::string fn = out + "/w" + std::to_string(w);
        FILE* f = fopen(fn.c_str(), "r");
        char line[2048];
        while (f && fgets(line, sizeof line, f))
        {
            unsigned long long x[9];
            char nm[256];
            int k, n = 0;
            if (sscanf(line, "t %llu %llu %llu %llu %llu %llu %llu %llu %llu", x, x + 1, x + 2, x + 3, x + 4, x + 5, x + 6, x + 7, x + 8) == 9)
            {
                a.runs += x[0];
                a.sim_ns += x[1];
                a.sp += x[2];
                a.switches += x[3];
                a.preempts += x[4];
                a.syncops += x[5];
                a.threads += x[6];
                a.max_threads = std::max<uint64_t>(a.max_threads, x[7]);
                a.known += x[8];
            }
            else if (sscanf(line, "f %d %llu %llu", &k, x, x + 1) == 3)
            {
                a.faults[k] += x[0];
                a.opps[k] += x[1];
            }
            else if (sscanf(line, "p %255s %llu %llu", nm, x, x + 1) == 3)
            {
                a.probes[nm].n += x[0];
                a.probes[nm].runs += x[1];
            }
            else if (sscanf(line, "s %255s %llu", nm, x) == 2)
            {
                a.scn_runs[nm] += x[0];
            }
            else if (sscanf(line, "k %255s %llu", nm, x) == 2)
            {
                a.known_hits[nm] += x[0];
            }
            else if (sscanf(line, "e %llu %n", x, &n) >= 1)
            {
                std::string t = line + n;
                while (!t.empty() && t.back() == '\n')
                {
                    t.pop_back();
                }
                a.samples.push_back({x[0], t});
            }
        }
        if (f)
        {
            fclose(f);
        }
        FILE* hf = fopen((fn + ".h").c_str(), "rb");
        uint64_t h;
        while (hf && fread(&h, 8, 1, hf) == 1)
        {
            distinct.insert(h);
        }
        if (hf)
        {
            fclose(hf);
        }
        unlink(fn.c_str());
        unlink((fn + ".h").c_str());
    }
    std::sort(a.samples.begin(), a.samples.end());

    int verdict = err ? 3 : 0;
    int unrep = sh->unrepeatable.load();
    auto gate = [&]()
            {
                // a run that fails and does not when re-run with the same seed tells nothing about the code; only many of them mean no verdict
                if (unrep)
                {
                    bool few = (uint64_t)unrep * 1000 <= a.runs;
                    fprintf(stderr, "driver: %s: %d runs did not fail identically when re-run\n", few ? "note" : "GATE", unrep);
                    if (!few && verdict == 0)
                    {
                        verdict = 3;
                    }
                }
            };
    std::string rfile, vcls, vscn, vmsg;
    uint64_t vindex = 0;
    int nrep = 0;
    if (sh->nfound)
    {
        std::vector<Found> fs(sh->found, sh->found + sh->nfound);
        std::sort(fs.begin(), fs.end(), [](const Found& x, const Found& y){ return x.index < y.index; });
        if (all)
        {
            for (auto& f : fs)
            {
                printf("found %s/%s class=%s first index %llu (%u times): %s\n", scs[f.scn]->prop, scs[f.scn]->name, f.cls, (unsigned long long)f.index, f.n, f.first);
            }
        }
        char self[4096];
        ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1);
        self[sl > 0 ? sl : 0] = 0;
        Result* r = new_result(), * r2 = new_result();
        for (auto& f : fs)
        {
            sim::Scenario* s = scs[f.scn];
            uint64_t sd = run_seed(seed, f.index, s);
            // gate 1: same seed twice, same failure, same hash
            if (!record_run(s, sd, r, false) || !record_run(s, sd, r2, false) || r->done != 2 || r2->done != 2 || r->hash != r2->hash
                    || strcmp(r->cls, r2->cls))
            {
                fprintf(stderr, "driver: %s/%s index %llu did not fail identically when re-run\n", s->prop, s->name, (unsigned long long)f.index);
                unrep += f.n;
                continue;
            }
            std::vector<Choice> v(r->choices, r->choices + r->nchoices);
            size_t orig = v.size();
            std::string cls = r->cls;
            // gate 2: the recorded choices reproduce the same execution; otherwise it is kept as its seed, which does
            bool by_seed = r->choices_overflow || !replay_run(s, v, r2, false, sd) || r2->done != 2 || r2->hash != r->hash;
            if (!by_seed)
            {
                std::vector<Choice> m = minimise(s, v, cls, sd, mincap, nrep);
                sort_choices(m);
                if (!replay_run(s, m, r, true, sd) || !same(r, cls))
                {
                    by_seed = true;
                }
                else
                {
                    v = m;
                }
            }
            if (by_seed)
            {
                fprintf(stderr, "driver: %s/%s index %llu: %s: the replay file holds its seed\n", s->prop, s->name, (unsigned long long)f.index,
                        r->choices_overflow ? "more choices than can be recorded" : "the recorded choices do not reproduce it");
                if (!record_run(s, sd, r, true) || !same(r, cls))
                {
                    verdict = 3;
                    continue;
                }
                v.clear();
            }
            rfile = out + "/replay-" + s->prop + "-" + s->name + "-" + std::to_string(f.index) + ".txt";
            if (!write_replay(rfile, s, seed, f.index, sd, v, r, orig, by_seed))
            {
                verdict = 3;
                continue;
            }
            // gate 3: two fresh processes
            if (fresh_replay(self, rfile) != 1 || fresh_replay(self, rfile) != 1)
            {
                fprintf(stderr, "driver: GATE: %s does not reproduce in a fresh process\n", rfile.c_str());
                verdict = 3;
                continue;
            }
            verdict = 1;
            vcls = cls;
            vscn = s->name;
            vmsg = r->msg;
            vindex = f.index;
            break;
        }
    }
    gate();

    FILE* j = fopen((out + "/stats.json").c_str(), "w");
    if (!j)
    {
        return 3;
    }
    fprintf(j, "{\"verdict\":%d,\"property\":\"%s\",\"seed\":%llu,\"runs\":%llu,\"distinct\":%zu,\"wall_s\":%.3f,\"sim_s\":%.6f,\"sched_points\":%llu,\"switches\":%llu,\"preemptions\":%llu,"
            "\"sync_ops\":%llu,\"threads\":%llu,\"max_threads\":%llu,\"known_runs\":%llu,\"jobs\":%d,\"error\":%d,\"unrepeatable\":%d",
            verdict, prop.c_str(), (unsigned long long)seed, (unsigned long long)a.runs, distinct.size(), t1 - t0, a.sim_ns / 1e9, (unsigned long long)a.sp,
            (unsigned long long)a.switches, (unsigned long long)a.preempts, (unsigned long long)a.syncops, (unsigned long long)a.threads,
            (unsigned long long)a.max_threads, (unsigned long long)a.known, jobs, err ? 1 : 0, unrep);
    fprintf(j, ",\"faults\":{");
    for (int k = 0; k < sim::F_MAX; k++)
    {
        fprintf(j, "%s\"%s\":[%llu,%llu]", k ? "," : "", fault_names[k], (unsigned long long)a.faults[k], (unsigned long long)a.opps[k]);
    }
    fprintf(j, "},\"probes\":{");
    bool first = true;
    for (auto& p : a.probes)
    {
        fprintf(j, "%s\"%s\":[%llu,%llu]", first ? "" : ",", p.first.c_str(), (unsigned long long)p.second.n, (unsigned long long)p.second.runs);
        first = false;
    }
    fprintf(j, "},\"scenarios\":{");
    first = true;
    for (auto& p : a.scn_runs)
    {
        fprintf(j, "%s\"%s\":%llu", first ? "" : ",", p.first.c_str(), (unsigned long long)p.second);
        first = false;
    }
    fprintf(j, "},\"known_hits\":{");
    first = true;
    for (auto& p : a.known_hits)
    {
        fprintf(j, "%s\"%s\":%llu", first ? "" : ",", p.first.c_str(), (unsigned long long)p.second);
        first = false;
    }
    fprintf(j, "},\"samples\":[");
    for (size_t k = 0; k < a.samples.size() && k < 16; k++)
    {
        fprintf(j, "%s", k ? "," : "");
        esc(j, a.samples[k].second);
    }
    fprintf(j, "],\"violation\":{\"replay\":");
    esc(j, rfile);
    fprintf(j, ",\"class\":");
    esc(j, vcls);
    fprintf(j, ",\"scenario\":");
    esc(j, vscn);
    fprintf(j, ",\"message\":");
    esc(j, vmsg);
    fprintf(j, ",\"index\":%llu,\"minimiser_replays\":%d}}\n", (unsigned long long)vindex, nrep);
    fclose(j);
    printf("%s: %llu runs in %.1f s, %zu distinct interleavings, verdict %d\n", prop.c_str(), (unsigned long long)a.runs, t1 - t0, distinct.size(), verdict);
    if (verdict == 1)
    {
        printf("FOUND scenario=%s class=%s replay=%s\n%s\n", vscn.c_str(), vcls.c_str(), rfile.c_str(), vmsg.c_str());
    }
    return verdict;
}
