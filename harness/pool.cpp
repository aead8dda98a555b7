// T01..T03: slot thread pool and task ids.
#include "h.hpp"
#include <cpp_utils/exception/ValueNotAllowedException.hpp>
#include <cpp_utils/thread_pool/pool/SlotThreadPool.hpp>

using namespace eprosima::utils;
using eprosima::utils::event::AwakeReason;
using h::Thr;
using h::Thrs;

namespace {

struct Emit { int task; uint64_t inv, ret; int by; };
struct Exec { int task; uint64_t start, end; int tag; };

struct Book
{
    int size;                 // threads of the pool
    std::vector<Emit> emits;
    std::vector<Exec> execs;
    int running = 0;
    bool surely_off = true;   // between the return of disable() and the next enable()
    bool destroyed = false;
    int plain[8] = {};        // written by tasks without any protection of its own
};
Book* B;

Task body(int task, bool write)
{
    return Task([task, write]()
           {
               size_t x;
               {
                   sim::Quiet q;
                   SIM_CHECK(!B->destroyed, "task-after-destroy", "task %d starts after the pool was destroyed", task);
                   SIM_CHECK(!B->surely_off, "task-while-disabled", "task %d starts while the pool is disabled", task);
                   B->running++;
                   SIM_CHECK(B->running <= B->size, "too-many-threads", "%d tasks run at once in a pool of %d threads", B->running, B->size);
                   B->execs.push_back({task, sim::stamp(), ~0ull, 0});
                   x = B->execs.size() - 1;
               }
               h::pause(3);
               if (write)
               {
                   B->plain[task]++;
               }
               h::pause(3);
               sim::Quiet q;
               B->running--;
               B->execs[x].end = sim::stamp();
           });
}

void emit(SlotThreadPool* p, int task, int by)
{
    size_t e;
    {
        sim::Quiet q;
        B->emits.push_back({task, sim::stamp(), ~0ull, by});
        e = B->emits.size() - 1;
    }
    p->emit(TaskId(task));
    sim::Quiet q;
    B->emits[e].ret = sim::stamp();
}

void off()
{
    sim::Quiet q;
    SIM_CHECK(B->running == 0, "task-while-disabled", "%d tasks still run after the pool was disabled", B->running);
    B->surely_off = true;
}
void on()
{
    sim::Quiet q;
    B->surely_off = false;
}

void setup(int n)
{
    sim::Quiet q;
    B = new Book();
    B->size = n;
    B->emits.reserve(64);
    B->execs.reserve(64);
}

//! executions so far are explained by emits, nothing twice
void no_invention()
{
    sim::Quiet q;
    std::map<int, int> e, x;
    for (auto& m : B->emits)
    {
        e[m.task]++;
    }
    for (auto& m : B->execs)
    {
        x[m.task]++;
    }
    for (auto& m : x)
    {
        SIM_CHECK(m.second <= e[m.first], "task-duplicated", "task %d was emitted %d times and ran %d times", m.first, e[m.first], m.second);
    }
}
void all_done(const char* when)
{
    no_invention();
    sim::Quiet q;
    std::map<int, int> e, x;
    for (auto& m : B->emits)
    {
        e[m.task]++;
    }
    for (auto& m : B->execs)
    {
        x[m.task]++;
        SIM_CHECK(m.end != ~0ull, "task-lost", "a task never ended");
    }
    for (auto& m : e)
    {
        SIM_CHECK(x[m.first] == m.second, "task-lost", "%s task %d was emitted %d times and ran %d times", when, m.first, m.second, x[m.first]);
    }
}

//! timed pauses inside tasks, and stalls, end
void settle()
{
    for (int i = 0; i < 30; i++)
    {
        sim::quiesce();
        {
            sim::Quiet q;
            if (B->running == 0)
            {
                return;
            }
        }
        sim::sleep_ms(1000);
    }
}

//! with one thread, tasks of one emitter run in the order in which they were emitted
void in_order()
{
    sim::Quiet q;
    if (B->size != 1)
    {
        return;
    }
    // is there an order of the emits, compatible with real time, that starts with the tasks in the order they ran?
    h::Lin<size_t> lin;
    lin.key = [](const size_t& n)
            {
                return std::to_string(n);
            };
    for (auto& e : B->emits)
    {
        int task = e.task;
        lin.ops.push_back({e.inv, e.ret, [task](size_t& n)
                    {
                        bool ok = n >= B->execs.size() || B->execs[n].task == task;
                        n++;
                        return ok;
                    }, "emit " + std::to_string(task)});
    }
    std::string ran = "pool of one thread that ran tasks";
    for (auto& x : B->execs)
    {
        ran += " " + std::to_string(x.task);
    }
    lin.check(0, ran.c_str());
}

} // namespace

SCENARIO(T01, run, 5)
{
    h::usual_faults();
    int n = h::some(3, 12), ns = h::some(3, 20), ne = h::some(2, 6), cycles = sim::choose(3);
    bool early = sim::choose(2);
    setup(n);
    sim::describe("pool of %d threads, %d tasks, %d emitting threads, %d disable/enable cycles, %s", n, ns, ne, cycles, early ? "enabled first" : "tasks emitted before enabling");
    auto* p = new SlotThreadPool(n);
    if (early)
    {
        on();
        p->enable();
    }
    static std::atomic<int> registered;
    registered = 1;
    p->slot(TaskId(0), body(0, false));
    Thrs es;
    for (int i = 0; i < ne; i++)
    {
        es.emplace_back("emitter", [=]
                {
                    int k = n == 1 ? 1 + sim::choose(5) : h::some(5, 80);
                    for (int j = 0; j < k; j++)
                    {
                        emit(p, sim::choose(registered.load()), i);
                        h::pause(3);
                    }
                    if (sim::choose(4) == 0)
                    {
                        bool thrown = false;
                        try
                        {
                            p->emit(TaskId(77));
                        }
                        catch (const ValueNotAllowedException&)
                        {
                            thrown = true;
                        }
                        SIM_CHECK(thrown, "no-exception", "a task that nobody registered was accepted");
                    }
                });
    }
    if (ns > 1)
    {
        es.emplace_back("registrar", [=]
                {
                    for (int s = 1; s < ns; s++)
                    {
                        h::pause(3);
                        p->slot(TaskId(s), body(s, false));
                        registered.store(s + 1);
                    }
                    bool thrown = false;
                    try
                    {
                        p->slot(TaskId(0), Task([]()
                        {
                            sim::violation("slot-replaced", "a second task registered with the same id runs");
                        }));
                    }
                    catch (const ValueNotAllowedException&)
                    {
                        thrown = true;
                    }
                    SIM_CHECK(thrown, "no-exception", "two tasks were registered with one id");
                });
    }
    if (!early)
    {
        h::pause(3);
        on();
        p->enable();
    }
    for (int c = 0; c < cycles; c++)
    {
        h::pause(6);
        p->disable();
        off();
        if (sim::choose(2))
        {
            p->disable();   // does nothing
        }
        h::pause(3);
        if (sim::choose(3) == 0)
        {
            emit(p, 0, 9);
        }
        on();
        p->enable();
        if (sim::choose(2))
        {
            p->enable();    // does nothing
        }
    }
    if (sim::choose(2))
    {
        h::join(es);
        settle();
        all_done("while the pool is enabled");
        in_order();
        sim::probe("all-tasks-done");
    }
    else
    {
        h::join(es);
    }
    delete p;
    {
        sim::Quiet q;
        SIM_CHECK(B->running == 0, "task-after-destroy", "%d tasks still run after the pool was destroyed", B->running);
        B->destroyed = true;
    }
    no_invention();
    in_order();
}

//! no task waits while threads of the pool are idle
SCENARIO(T01, parallel, 2)
{
    h::usual_faults(false);
    int n = h::some(3, 16), tasks = h::some(5, 40), ne = 1 + sim::choose(2);
    if (sim::choose(50) == 49)
    {
        n = 9 + sim::choose(32);
        tasks = n + sim::choose(5);
    }
    sim::describe("pool of %d threads, %d tasks that block, %d emitting threads", n, tasks, ne);
    setup(n);
    auto* p = new SlotThreadPool(n);
    auto* m = new std::mutex();
    auto* cv = new std::condition_variable();
    static int inside, out;
    static bool go;
    inside = out = 0;
    go = false;
    p->slot(TaskId(3), Task([=]()
            {
                std::unique_lock<std::mutex> l(*m);
                inside++;
                cv->wait(l, []
                {
                    return go;
                });
                inside--;
                out++;
            }));
    bool late = sim::choose(2);
    if (!late)
    {
        p->enable();
    }
    Thrs es;
    for (int i = 0; i < ne; i++)
    {
        int k = i ? tasks / 2 : tasks - (ne == 2 ? tasks / 2 : 0);
        es.emplace_back("emitter", [=]
                {
                    for (int j = 0; j < k; j++)
                    {
                        p->emit(TaskId(3));
                        h::pause(2);
                    }
                });
    }
    h::join(es);
    if (late)
    {
        p->enable();
    }
    sim::quiesce();
    {
        std::unique_lock<std::mutex> l(*m);
        SIM_CHECK(inside == std::min(n, tasks), "idle-thread", "%d of %d tasks are being executed by a pool of %d threads", inside, tasks, n);
        go = true;
        cv->notify_all();
    }
    AwakeReason r = p->wait_all_consumed();
    SIM_CHECK(r == AwakeReason::condition_met, "wrong-reason", "wait_all_consumed did not report the end of all tasks");
    sim::quiesce();
    {
        std::unique_lock<std::mutex> l(*m);
        SIM_CHECK(out == tasks, "task-lost", "%d of %d tasks were executed", out, tasks);
    }
    delete p;
    delete cv;
    delete m;
}

//! Several threads enable and disable it
SCENARIO(T01, toggles, 2)
{
    h::usual_faults();
    int n = h::some(2, 4), nt = 1 + h::some(1, 4), tasks = h::some(4, 30);
    sim::describe("pool of %d threads enabled and disabled by %d threads, %d tasks", n, nt, tasks);
    setup(n);
    on();
    auto* p = new SlotThreadPool(n);
    p->slot(TaskId(0), body(0, false));
    Thrs ts;
    for (int i = 0; i < nt; i++)
    {
        ts.emplace_back("toggler", [=]
                {
                    int k = 1 + sim::choose(3);
                    for (int j = 0; j < k; j++)
                    {
                        if (sim::choose(2))
                        {
                            p->enable();
                        }
                        else
                        {
                            p->disable();
                        }
                        h::pause(3);
                    }
                });
    }
    for (int i = 0; i < tasks; i++)
    {
        emit(p, 0, 0);
        h::pause(2);
    }
    h::join(ts);
    p->enable();
    settle();
    all_done("after the pool was enabled");
    p->disable();
    off();
    delete p;
}

namespace {

//! Tasks that use the pool themselves: they emit more tasks and register new ones
void tree()
{
    h::usual_faults();
    int n = h::some(3, 12), roots = 1 + sim::choose(3);
    bool before = sim::choose(2);
    static int budget, ids, entered, ran;
    budget = h::some(12, 150);
    sim::describe("pool of %d threads, %d tasks that emit %d more between them", n, roots, budget);
    setup(n);
    auto* p = new SlotThreadPool(n);
    static std::vector<int>* left;   // executions each task still has to do
    left = new std::vector<int>();
    static std::vector<int>* ready;  // those registered
    ready = new std::vector<int>();
    static std::function<void(int)> work;
    auto enter = [](int t)
            {
                sim::Quiet q;
                entered++;
                (*left)[t]++;
            };
    auto add = [=]()
            {
                int t;
                {
                    sim::Quiet q;
                    t = ids++;
                    left->push_back(0);
                }
                p->slot(TaskId(t), Task([t]()
                {
                    work(t);
                }));
                sim::Quiet q;
                ready->push_back(t);
                return t;
            };
    work = [=](int t)
            {
                {
                    sim::Quiet q;
                    SIM_CHECK((*left)[t] > 0, "task-duplicated", "task %d runs more times than it was emitted", t);
                    (*left)[t]--;
                    ran++;
                }
                h::pause(2);
                for (;;)
                {
                    {
                        sim::Quiet q;
                        if (budget <= 0 || sim::choose(3) == 0)
                        {
                            return;
                        }
                        budget--;
                    }
                    int c;
                    if (sim::choose(3) == 0)
                    {
                        c = add();
                    }
                    else
                    {
                        sim::Quiet q;
                        c = (*ready)[sim::choose(ready->size())];
                    }
                    enter(c);
                    p->emit(TaskId(c));
                }
            };
    if (before)
    {
        p->enable();
    }
    for (int r = 0; r < roots; r++)
    {
        int t = add();
        enter(t);
        p->emit(TaskId(t));
    }
    if (!before)
    {
        p->enable();
    }
    sim::context("waiting for tasks that emit tasks");
    AwakeReason a = p->wait_all_consumed();
    SIM_CHECK(a == AwakeReason::condition_met, "wrong-reason", "the wait for all tasks did not report their end");
    SIM_CHECK(entered == ran, "wait-early", "the wait for all tasks ended with %d tasks emitted and %d executed", entered, ran);
    delete p;
    SIM_CHECK(entered == ran, "task-duplicated", "%d tasks emitted and %d executed", entered, ran);
}

} // namespace

SCENARIO(T01, tree, 2)
{
    tree();
}

// ---------------------------------------------------------------- T02

SCENARIO(T02, tree, 2)
{
    tree();
}

SCENARIO(T02, wait_all, 5)
{
    h::usual_faults();
    int n = h::some(3, 16), ns = h::some(2, 10), ne = h::some(2, 6), nw = h::some(2, 12);
    bool before = sim::choose(2), disables = sim::chance(1, 4);
    sim::describe("pool of %d threads, %d emitting threads, %d threads wait for all tasks%s", n, ne, nw, disables ? ", the pool is disabled meanwhile" : "");
    setup(n);
    auto* p = new SlotThreadPool(n);
    for (int s = 0; s < ns; s++)
    {
        p->slot(TaskId(s), body(s, false));
    }
    on();
    if (before)
    {
        p->enable();
    }
    Thrs es, ws;
    for (int i = 0; i < ne; i++)
    {
        es.emplace_back("emitter", [=]
                {
                    int k = h::some(4, 60);
                    for (int j = 0; j < k; j++)
                    {
                        if (sim::choose(6) == 5)
                        {
                            // refused: nothing more to wait for
                            bool thrown = false;
                            try
                            {
                                p->emit(TaskId(77));
                            }
                            catch (const ValueNotAllowedException&)
                            {
                                thrown = true;
                            }
                            SIM_CHECK(thrown, "no-exception", "a task that nobody registered was accepted");
                        }
                        emit(p, sim::choose(ns), i);
                        h::pause(3);
                    }
                });
    }
    for (int i = 0; i < nw; i++)
    {
        uint32_t limit = sim::choose(3) ? 0 : 1 + sim::choose(20);
        ws.emplace_back("waiter", [=]
                {
                    h::pause(5);
                    uint64_t inv, t0 = sim::now_ns();
                    {
                        sim::Quiet q;
                        inv = sim::stamp();
                    }
                    AwakeReason r = p->wait_all_consumed(limit);
                    sim::Quiet q;
                    uint64_t ret = sim::stamp(), t1 = sim::now_ns();
                    SIM_CHECK(r != AwakeReason::disabled || disables, "wrong-reason", "the wait reports a disabled pool");
                    SIM_CHECK(r != AwakeReason::timeout || limit, "wrong-reason", "a wait without time limit timed out");
                    SIM_CHECK(r != AwakeReason::timeout || t1 - t0 >= limit * 1000000ull, "early-timeout", "time limit of %u ms, timeout after %.3f ms", limit, (t1 - t0) / 1e6);
                    if (r == AwakeReason::condition_met)
                    {
                        // an instant of the call at which everything emitted before it had ended
                        bool ok = false;
                        std::vector<uint64_t> at = {inv, ret};
                        for (auto& x : B->execs)
                        {
                            if (x.end > inv && x.end < ret)
                            {
                                at.push_back(x.end);
                            }
                        }
                        for (uint64_t t : at)
                        {
                            size_t e = 0, d = 0;
                            for (auto& m : B->emits)
                            {
                                e += m.ret <= t;
                            }
                            for (auto& m : B->execs)
                            {
                                d += m.end <= t;
                            }
                            ok |= d >= e;
                        }
                        SIM_CHECK(ok, "wait-early", "the wait for all tasks returned although at every instant of it there were emitted tasks not executed yet (%d running)", B->running);
                        sim::probe("all-executed-reported");
                    }
                });
    }
    if (!before)
    {
        h::pause(3);
        p->enable();
    }
    if (disables)
    {
        h::pause(5);
        p->disable();
        off();
        sim::quiesce();
        SIM_CHECK(h::on_cv(ws) == 0, "disable-left-waiter", "a thread still waits for all tasks of a disabled pool");
        h::pause(3);
        on();
        p->enable();
    }
    h::join(es);
    settle();
    all_done("while the pool is enabled");
    SIM_CHECK(h::on_cv(ws) == 0, "lost-wakeup", "a thread still waits although every task was executed");
    h::join(ws);
    AwakeReason r = p->wait_all_consumed();
    SIM_CHECK(r == AwakeReason::condition_met, "wrong-reason", "nothing to execute and the wait does not report it");
    delete p;
}

//! what tasks wrote is visible after the wait, without any other synchronisation
SCENARIO(T02, visible, 2)
{
    h::usual_faults();
    int n = h::some(3, 16), k = 1 + sim::choose(4);
    sim::describe("pool of %d threads, %d tasks write shared data read after the wait", n, k);
    setup(n);
    on();
    auto* p = new SlotThreadPool(n);
    for (int s = 0; s < k; s++)
    {
        p->slot(TaskId(s), body(s, true));
    }
    p->enable();
    for (int r = 0; r < 2; r++)
    {
        for (int s = 0; s < k; s++)
        {
            emit(p, s, 0);
        }
        AwakeReason a = p->wait_all_consumed();
        SIM_CHECK(a == AwakeReason::condition_met, "wrong-reason", "the wait for all tasks did not report success");
        for (int s = 0; s < k; s++)
        {
            int v = B->plain[s];
            SIM_CHECK(v == r + 1, "wait-early", "task %d has written %d times when all tasks were reported executed, expected %d", s, v, r + 1);
        }
    }
    delete p;
}

//! an emission that fails for want of memory counts as none
SCENARIO(T02, refused, 1)
{
    h::usual_faults(true, false);
    int n = 1 + sim::choose(2), k = 130 + sim::choose(200);
    bool before = sim::choose(2);
    sim::describe("pool of %d threads, %d tasks emitted while allocations fail, then a wait for all", n, k);
    setup(n);
    on();
    auto* p = new SlotThreadPool(n);
    static int ran, entered;
    p->slot(TaskId(0), Task([]()
            {
                sim::Quiet q;
                ran++;
            }));
    if (before)
    {
        p->enable();
    }
    sim::set_fault(sim::F_ALLOC, 1 + sim::choose(2));
    for (int j = 0; j < k; j++)
    {
        try
        {
            {
                sim::AllocFaults a;
                p->emit(TaskId(0));
            }
            sim::Quiet q;
            entered++;
        }
        catch (const std::bad_alloc&)
        {
            sim::probe("emit-failed");
        }
    }
    sim::set_fault(sim::F_ALLOC, 0);
    if (!before)
    {
        p->enable();
    }
    sim::context("waiting for all tasks after emissions that failed");
    AwakeReason a = p->wait_all_consumed();
    SIM_CHECK(a == AwakeReason::condition_met, "lost-wakeup", "the wait for all tasks did not end: %d tasks entered, %d ran", entered, ran);
    SIM_CHECK(entered == ran, entered > ran ? "wait-early" : "task-duplicated", "%d tasks were emitted and %d ran", entered, ran);
    delete p;
}

// ---------------------------------------------------------------- T03

SCENARIO(T03, unique, 1)
{
    h::usual_faults(true, false);
    int nt = 1 + h::some(3, 20);
    sim::describe("%d threads ask for task ids", nt);
    if (sim::choose(40) == 39)
    {
        // those of a program that has been running for long
        sim::Quiet q;
        static std::vector<bool> seen(1 << 20);
        int k = 70000 + sim::choose(100000);
        for (int j = 0; j < k; j++)
        {
            TaskId id = new_unique_task_id();
            SIM_CHECK(id >= seen.size() || !seen[id], "duplicated-id", "task id %u was given twice (%d were asked for)", id, j + 1);
            if (id < seen.size())
            {
                seen[id] = true;
            }
        }
    }
    static std::set<TaskId>* all;
    all = new std::set<TaskId>();
    Thrs ts;
    for (int i = 0; i < nt; i++)
    {
        ts.emplace_back("user", []
                {
                    int k = 1 + sim::choose(5);
                    for (int j = 0; j < k; j++)
                    {
                        TaskId id = new_unique_task_id();
                        sim::Quiet q;
                        SIM_CHECK(all->insert(id).second, "duplicated-id", "task id %u was given twice", id);
                    }
                });
    }
    h::join(ts);
}

// ---------------------------------------------------------------- objects that have nothing to do with each other

namespace {

struct OwnPool
{
    int n = 1 + sim::choose(3);
    int emitted[2] = {0, 0}, ran[2] = {0, 0}, running = 0;
    bool on = false, gone = false;
    SlotThreadPool* p;
    OwnPool()
        : p(new SlotThreadPool(n))
    {
        for (int s = 0; s < 2; s++)
        {
            p->slot(TaskId(s), Task([this, s]()
                    {
                        {
                            sim::Quiet q;
                            SIM_CHECK(on && !gone, "not-independent", "a task runs in a pool that is %s", gone ? "destroyed" : "disabled");
                            running++;
                            SIM_CHECK(running <= n, "not-independent", "%d tasks run at once in a pool of %d threads", running, n);
                            ran[s]++;
                        }
                        h::pause(2);
                        sim::Quiet q;
                        running--;
                    }));
        }
    }
    ~OwnPool()
    {
        delete p;
        sim::Quiet q;
        gone = true;
        SIM_CHECK(running == 0, "not-independent", "%d tasks run after the pool was destroyed", running);
    }
    void step()
    {
        switch (sim::choose(5))
        {
            case 0:
                if (sim::choose(3))
                {
                    {
                        sim::Quiet q;
                        on = true;
                    }
                    p->enable();
                }
                else
                {
                    p->disable();
                    sim::Quiet q;
                    SIM_CHECK(running == 0, "not-independent", "%d tasks run after the pool was disabled", running);
                    on = false;
                }
                break;
            case 1:
                if (on)
                {
                    AwakeReason r = p->wait_all_consumed();
                    sim::Quiet q;
                    SIM_CHECK(r == AwakeReason::condition_met, "not-independent", "the wait for all tasks of an enabled pool does not report success");
                    SIM_CHECK(ran[0] == emitted[0] && ran[1] == emitted[1] && running == 0, "not-independent", "all %d + %d tasks reported executed: %d + %d ran, %d running", emitted[0],
                            emitted[1], ran[0], ran[1], running);
                }
                break;
            default:
            {
                int s = sim::choose(2);
                {
                    sim::Quiet q;
                    emitted[s]++;
                }
                p->emit(TaskId(s));
                sim::Quiet q;
                SIM_CHECK(ran[0] <= emitted[0] && ran[1] <= emitted[1], "not-independent", "%d + %d tasks emitted, %d + %d ran", emitted[0], emitted[1], ran[0], ran[1]);
            }
        }
    }
};

} // namespace

SCENARIO(T01, apart, 1)
{
    h::usual_faults();
    h::apart<OwnPool>("thread pools", 2, 8);
}
ALSO(T02, T01, apart, 1, "not-independent");

//! Tasks of a pool that give tasks to another one and wait for them
SCENARIO(T01, nested, 1)
{
    h::usual_faults();
    int na = 1 + sim::choose(3), nb = 1 + sim::choose(2), k = 1 + sim::choose(4);
    sim::describe("%d tasks of a pool of %d threads emit a task to another of %d and wait for it", k, na, nb);
    static int ra, rb;
    auto* b = new SlotThreadPool(nb);
    auto* a = new SlotThreadPool(na);
    b->slot(TaskId(0), Task([]()
            {
                h::pause(2);
                sim::Quiet q;
                rb++;
            }));
    a->slot(TaskId(0), Task([=]()
            {
                int before;
                {
                    sim::Quiet q;
                    before = rb;
                }
                b->emit(TaskId(0));
                AwakeReason r = b->wait_all_consumed();
                sim::Quiet q;
                SIM_CHECK(r == AwakeReason::condition_met, "wrong-reason", "the wait for all tasks of an enabled pool does not report success");
                SIM_CHECK(rb > before, "wait-early", "all tasks reported executed, and the one emitted last was not");
                ra++;
            }));
    a->enable();
    b->enable();
    sim::context("tasks that wait for those of another pool");
    for (int i = 0; i < k; i++)
    {
        h::pause(2);
        a->emit(TaskId(0));
    }
    AwakeReason r = a->wait_all_consumed();
    {
        sim::Quiet q;
        SIM_CHECK(r == AwakeReason::condition_met && ra == k && rb == k, "task-lost", "%d tasks emitted to each pool, %d and %d ran", k, ra, rb);
    }
    delete a;
    delete b;
}
ALSO(T02, T01, nested, 1, "wait-early wrong-reason task-lost");

//! As many tasks pending as there may be, and as many registered
SCENARIO(T01, capacity, 1)
{
    h::usual_faults(true, false);
    const int n = 1 + sim::choose(3), slots = h::volume(5000), tasks = h::volume(1100);
    sim::describe("pool of %d threads, %d tasks registered, %d emitted while it is disabled", n, slots, tasks);
    static std::vector<int>* ran;
    auto* p = new SlotThreadPool(n);
    std::vector<int> want(slots);
    {
        sim::Quiet q;
        ran = new std::vector<int>(slots);
        for (int i = 0; i < slots; i++)
        {
            p->slot(TaskId(i), Task([i]()
                    {
                        sim::Quiet q;
                        (*ran)[i]++;
                    }));
        }
        for (int i = 0; i < tasks; i++)
        {
            int t = i % 3 ? slots - 1 - i % slots : i % slots;
            want[t]++;
            p->emit(TaskId(t));
        }
    }
    p->enable();
    want[0]++;
    p->emit(TaskId(0));
    AwakeReason r = p->wait_all_consumed();
    {
        sim::Quiet q;
        SIM_CHECK(r == AwakeReason::condition_met, "wrong-reason", "wait for every task returned %d", (int)r);
        for (int i = 0; i < slots; i++)
        {
            SIM_CHECK((*ran)[i] == want[i], "wrong-count", "task %d was emitted %d times and ran %d (%d emitted in all)", i, want[i], (*ran)[i], tasks + 1);
        }
    }
    p->disable();
    delete p;
}
