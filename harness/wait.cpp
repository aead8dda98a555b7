// W01..W05, Q01, Q02: wait handlers, counter, consumer, double queue.
#include "h.hpp"
#include <cpp_utils/exception/DisabledException.hpp>
#include <cpp_utils/exception/InconsistencyException.hpp>
#include <cpp_utils/exception/TimeoutException.hpp>
#include <cpp_utils/queue/DBQueue.hpp>
#include <cpp_utils/wait/BooleanWaitHandler.hpp>
#include <cpp_utils/wait/CounterWaitHandler.hpp>
#include <cpp_utils/wait/DBQueueWaitHandler.hpp>
#include <cpp_utils/wait/IntWaitHandler.hpp>
#include <cpp_utils/wait/WaitHandler.hpp>

using namespace eprosima::utils;
using namespace eprosima::utils::event;
using h::Thr;
using h::Thrs;

namespace {

const char* rname(AwakeReason r)
{
    return r == AwakeReason::disabled ? "disabled" : r == AwakeReason::timeout ? "timeout" : r == AwakeReason::condition_met ? "condition_met" : "garbage";
}

// ---------------------------------------------------------------- histories

using Hist = h::Versions;

// ---------------------------------------------------------------- one interface over the handler types

struct Dev
{
    virtual ~Dev() {}
    virtual AwakeReason wait(int kind, int arg, uint32_t to) = 0;
    virtual void set(int v) = 0;
    virtual void set_unnotified(int v)
    {
        set(v);
    }
    virtual int get() = 0;
    virtual void inc() {}
    virtual void dec() {}
    virtual void enable() = 0;
    virtual void disable() = 0;
    virtual void blocking_disable() = 0;
    virtual void stop_and_continue() = 0;
    virtual bool enabled() = 0;
    virtual void destroy() = 0;
    int nvals = 4, nkinds = 5;
    bool incdec = false;
};

bool pred(int kind, int arg, int v)
{
    switch (kind)
    {
        case 0:
            return v == arg;
        case 1:
            return v > arg;
        case 2:
            return v >= arg;
        case 3:
            return v < arg;
        default:
            return v <= arg;
    }
}
int satisfying(int kind, int arg)
{
    switch (kind)
    {
        case 1:
            return arg + 1;
        case 3:
            return arg - 1;
        default:
            return arg;
    }
}

template <class H>
struct DevBase : Dev
{
    H* p = nullptr;   // never modified after construction
    void enable() override
    {
        p->enable();
    }
    void disable() override
    {
        p->disable();
    }
    void blocking_disable() override
    {
        p->blocking_disable();
    }
    void stop_and_continue() override
    {
        p->stop_and_continue();
    }
    bool enabled() override
    {
        return p->enabled();
    }
    void destroy() override
    {
        delete p;
    }
};
struct DevBool : DevBase<BooleanWaitHandler>
{
    DevBool(int v, bool en)
    {
        p = new BooleanWaitHandler(v != 0, en);
        nvals = 2;
        nkinds = 1;
    }
    AwakeReason wait(int, int, uint32_t to) override
    {
        return p->wait(to);
    }
    void set(int v) override
    {
        if (v)
        {
            p->open();
        }
        else
        {
            p->close();
        }
    }
    int get() override
    {
        return p->is_open();
    }
};
struct DevInt : DevBase<IntWaitHandler>
{
    int base;                 // the small numbers used are really counted from here
    DevInt(int v, bool en)
    {
        static const int bases[] = {0, 0, 0, -2, 254, 65534, 16777216, 2147483600, -2147483600};
        base = bases[sim::choose(9)];
        p = new IntWaitHandler(base + v, en);
        incdec = true;
    }
    AwakeReason wait(int k, int a, uint32_t to) override
    {
        a += base;
        switch (k)
        {
            case 0:
                return p->wait_equal(a, to);
            case 1:
                return p->wait_greater_than(a, to);
            case 2:
                return p->wait_greater_equal_than(a, to);
            case 3:
                return p->wait_lower_than(a, to);
            default:
                return p->wait_lower_equal_than(a, to);
        }
    }
    void set(int v) override
    {
        p->set_value(base + v);
    }
    void set_unnotified(int v) override
    {
        p->set_value(base + v, false);
    }
    int get() override
    {
        return p->get_value() - base;
    }
    void inc() override
    {
        ++*p;
    }
    void dec() override
    {
        --*p;
    }
};
//! the generic template on a value that would show tearing
struct DevStr : DevBase<WaitHandler<std::string>>
{
    static std::string enc(int v)
    {
        return std::string(30 + v, (char)('m' + v));
    }
    static int decv(const std::string& s)
    {
        int v = (int)s.size() - 30;
        if (v < -8 || v > 12 || s != enc(v))
        {
            sim::violation("torn-value", "a predicate or reader saw a value nobody set (length %zu)", s.size());
        }
        return v;
    }
    DevStr(int v, bool en)
    {
        p = new WaitHandler<std::string>(enc(v), en);
    }
    AwakeReason wait(int k, int a, uint32_t to) override
    {
        return p->wait([k, a](const std::string& s)
                       {
                           return pred(k, a, decv(s));
                       }, to);
    }
    void set(int v) override
    {
        p->set_value(enc(v));
    }
    void set_unnotified(int v) override
    {
        p->set_value(enc(v), false);
    }
    int get() override
    {
        return decv(p->get_value());
    }
};
Dev* make_dev(int which, int v, bool en)
{
    switch (which)
    {
        case 0:
            return new DevBool(v, en);
        case 1:
            return new DevInt(v, en);
        default:
            return new DevStr(v, en);
    }
}

struct W { bool active = false; int kind = 0, arg = 0; uint32_t to = 0; uint64_t seq = 0; uint64_t inv = 0; };

void check_time(const char* what, AwakeReason r, uint32_t to, uint64_t t0, uint64_t t1, bool stalls)
{
    if (r == AwakeReason::timeout)
    {
        SIM_CHECK(to > 0, "timeout-without-timeout", "%s without time limit returned timeout", what);
        SIM_CHECK(t1 - t0 >= to * 1000000ull, "early-timeout", "%s with a time limit of %u ms reported timeout after %.3f ms", what, to, (t1 - t0) / 1e6);
        sim::probe("timeout-reported");
    }
    if (to > 0 && !stalls)
    {
        SIM_CHECK(t1 - t0 <= to * 1000000ull + 20000000ull, "late-timeout", "%s with a time limit of %u ms returned (%s) after %.3f ms", what, to, rname(r),
                (t1 - t0) / 1e6);
    }
}

//! Short, mostly; up to the greatest there is
uint32_t limit()
{
    uint32_t c = sim::choose(20);
    if (c >= 17)
    {
        sim::long_limits();
    }
    return c == 19 ? 4294967295u : c == 18 ? 40000000u : c == 17 ? 16777217u + 2 * sim::choose(50) : 1 + sim::choose(40);
}

//! Waiters and setters on one handler that stays enabled
void values_body(int which, bool timing)
{
    bool stalls = !timing || sim::chance(1, 4);
    h::usual_faults(stalls, !timing);
    if (timing)
    {
        sim::set_fault(sim::F_WALLJUMP, 1 + sim::choose(3));
    }
    int nw = h::some(3, 20), ns = h::some(2, 10);
    static int nvals;
    int init = sim::choose(which == 0 ? 2 : 4);
    Dev* d = make_dev(which, init, true);
    nvals = d->nvals;
    bool usedelta = d->incdec && sim::chance(1, 2);
    bool exact = ns == 1 || !usedelta;
    auto* H = new Hist(init);
    static W w[24];
    static int cur;
    cur = init;
    sim::describe("%s %s: %d waiters, %d setters%s, initial value %d", which == 0 ? "boolean" : which == 1 ? "int" : "string",
            timing ? "timeouts" : "values", nw, ns, usedelta ? " with ++/--" : "", init);
    Thrs ws, ss;
    for (int i = 0; i < nw; i++)
    {
        ws.emplace_back("waiter", [=]
                {
                    int n = 1 + sim::choose(3);
                    for (int k = 0; k < n; k++)
                    {
                        int kind = sim::choose(d->nkinds), arg = which == 0 ? 1 : (int)sim::choose(4);
                        uint32_t to = 0;
                        if (timing || sim::chance(1, 2))
                        {
                            uint32_t c = sim::choose(16);
                            if (c >= 13)
                            {
                                sim::long_limits();
                            }
                            to = c == 15 ? 4294967295u : c == 14 ? 40000000u : c == 13 ? 16777217u + 2 * sim::choose(50) : 1 + sim::choose(30);
                        }
                        uint64_t inv, t0;
                        {
                            sim::Quiet q;
                            w[i].active = true;
                            w[i].kind = kind;
                            w[i].arg = arg;
                            w[i].to = to;
                            inv = sim::stamp();
                            t0 = sim::now_ns();
                        }
                        AwakeReason r = d->wait(kind, arg, to);
                        sim::Quiet q;
                        uint64_t t1 = sim::now_ns(), ret = sim::stamp();
                        w[i].active = false;
                        sim::note("wait kind %d arg %d timeout %u -> %s", kind, arg, to, rname(r));
                        check_time("wait", r, to, t0, t1, stalls);
                        SIM_CHECK(r == AwakeReason::timeout || r == AwakeReason::condition_met, "wrong-reason",
                                "wait on a handler that is always enabled returned %s", rname(r));
                        if (exact && r == AwakeReason::condition_met)
                        {
                            sim::probe("condition-met");
                            SIM_CHECK(H->any(inv, ret, [&](int v)
                            {
                                return pred(kind, arg, v);
                            }), "condition-not-met",
                                    "wait reported its condition met, but no value held during the call satisfies it (kind %d, arg %d)", kind, arg);
                        }
                        if (exact && r == AwakeReason::timeout)
                        {
                            SIM_CHECK(H->any(inv, ret, [&](int v)
                            {
                                return !pred(kind, arg, v);
                            }), "timeout-although-met",
                                    "wait reported timeout although its condition held during the whole call (kind %d, arg %d)", kind, arg);
                            SIM_CHECK(H->any_since(t0 + to * 1000000ull, ret, [&](int v)
                            {
                                return !pred(kind, arg, v);
                            }), "timeout-although-met",
                                    "wait reported timeout although its condition held since before its limit elapsed (kind %d, arg %d)", kind, arg);
                        }
                    }
                });
    }
    static int sum;
    sum = init;
    for (int i = 0; i < ns; i++)
    {
        ss.emplace_back("setter", [=]
                {
                    int n = 1 + sim::choose(6);
                    for (int k = 0; k < n; k++)
                    {
                        h::pause(timing ? 20 : 4);
                        if (usedelta)
                        {
                            bool up = sim::choose(2);
                            int nv;
                            {
                                sim::Quiet q;
                                sum += up ? 1 : -1;
                                nv = sum;
                            }
                            size_t o = H->begin(nv);
                            if (up)
                            {
                                d->inc();
                            }
                            else
                            {
                                d->dec();
                            }
                            H->end(o);
                        }
                        else
                        {
                            int v = sim::choose(nvals);
                            size_t o;
                            if (sim::choose(5) == 0)
                            {
                                // waiters are not told yet
                                o = H->begin(v);
                                d->set_unnotified(v);
                                H->end(o);
                                h::pause(4);
                            }
                            o = H->begin(v);
                            d->set(v);
                            H->end(o);
                            if (ns == 1)
                            {
                                int g = d->get();
                                SIM_CHECK(g == v, "lost-update", "value set to %d reads back as %d with no other writer", v, g);
                            }
                        }
                    }
                });
    }
    h::join(ss);
    sim::quiesce();
    int v;
    {
        sim::Quiet q;
        v = d->get();
    }
    if (usedelta)
    {
        SIM_CHECK(v == sum, "lost-update", "value %d after all increments and decrements, expected %d", v, sum);
    }
    else
    {
        SIM_CHECK(H->any(sim::stamp(), sim::stamp(), [&](int x)
        {
            return x == v;
        }), "lost-update", "final value %d is not one that a last writer set", v);
    }
    if (sim::choose(8) == 7)
    {
        sim::sleep_ms(17000000);      // so that long time limits are reached
        sim::quiesce();
        sim::Quiet q;
        v = d->get();
    }
    for (int round = 0; round < 200; round++)
    {
        bool blocked = false;
        {
            sim::Quiet q;
            int now_v = d->get();
            for (int i = 0; i < nw; i++)
            {
                if (w[i].active && ws[i].on_cv())
                {
                    SIM_CHECK(!pred(w[i].kind, w[i].arg, now_v), "lost-wakeup",
                            "waiter %d stays blocked although its condition (kind %d, arg %d) holds for the current value %d", i, w[i].kind, w[i].arg, now_v);
                    if (!blocked)
                    {
                        blocked = true;
                        v = satisfying(w[i].kind, w[i].arg);
                    }
                }
            }
        }
        if (blocked)
        {
            sim::probe("waiter-blocked-until-release");
            size_t o = H->begin(v);
            d->set(v);
            H->end(o);
        }
        else if (h::unfinished(ws) == 0)
        {
            break;
        }
        else
        {
            sim::sleep_ms(3);
        }
        sim::quiesce();
    }
    h::join(ws);
    d->destroy();
}

} // namespace

SCENARIO(W01, boolean, 3)
{
    values_body(0, false);
}
SCENARIO(W01, integer, 4)
{
    values_body(1, false);
}
SCENARIO(W01, generic, 2)
{
    values_body(2, false);
}
SCENARIO(W02, boolean, 2)
{
    values_body(0, true);
}
SCENARIO(W02, integer, 2)
{
    values_body(1, true);
}
SCENARIO(W02, generic, 1)
{
    values_body(2, true);
}

// Counter and consumer time limits, with wall clock jumps
SCENARIO(W02, counter, 2)
{
    bool stalls = sim::chance(1, 4);
    h::usual_faults(stalls, false);
    sim::set_fault(sim::F_WALLJUMP, 1 + sim::choose(3));
    auto* c = new CounterWaitHandler(1, 1 + sim::choose(3));
    int nw = h::some(2, 20);
    sim::describe("counter timeouts: %d waiters", nw);
    Thrs t;
    for (int i = 0; i < nw; i++)
    {
        bool thr = sim::choose(2);
        t.emplace_back("waiter", [=]
                {
                    for (int k = 0; k < 3; k++)
                    {
                        uint32_t to = limit();
                        uint64_t t0 = sim::now_ns();
                        AwakeReason r = thr ? c->wait_threshold_reached(to) : c->wait_and_decrement(to);
                        check_time(thr ? "wait for threshold" : "wait and decrement", r, to, t0, sim::now_ns(), stalls);
                        SIM_CHECK(r != AwakeReason::disabled, "wrong-reason", "disabled reported by an enabled handler");
                    }
                });
    }
    // the threshold may be crossed again and again, so that who waits is awaken without what it waits for
    bool crossing = sim::choose(2);
    Thrs x;
    if (crossing)
    {
        x.emplace_back("crossing", [=]
                {
                    for (int k = 0; k < 12; k++)
                    {
                        ++*c;
                        c->wait_and_decrement();
                        ++*c;
                        sim::sleep_ms(1 + sim::choose(12));
                        c->wait_and_decrement(1);
                    }
                });
    }
    for (int k = sim::choose(3); k > 0; k--)
    {
        h::pause(30);
        ++*c;
    }
    h::join(t);
    if (crossing)
    {
        for (int k = 0; k < 12; k++)
        {
            ++*c;
        }
    }
    h::join(x);
    delete c;
}
SCENARIO(W02, consumer, 2)
{
    bool stalls = sim::chance(1, 4);
    h::usual_faults(stalls, false);
    sim::set_fault(sim::F_WALLJUMP, 1 + sim::choose(3));
    auto* c = new DBQueueWaitHandler<int>();
    sim::describe("consumer timeouts");
    Thr t("consumer", [=]
            {
                for (int k = 0; k < 3; k++)
                {
                    uint32_t to = limit();
                    uint64_t t0 = sim::now_ns();
                    AwakeReason r = AwakeReason::condition_met;
                    if (sim::choose(3) == 2)
                    {
                        r = c->wait_all_consumed(to);
                    }
                    else
                    {
                        try
                        {
                            c->consume(to);
                        }
                        catch (const TimeoutException&)
                        {
                            r = AwakeReason::timeout;
                        }
                    }
                    check_time("consume", r, to, t0, sim::now_ns(), stalls);
                }
            });
    for (int k = sim::choose(4); k > 0; k--)
    {
        h::pause(30);
        c->produce(k);
    }
    t.join();
    delete c;
}

// ---------------------------------------------------------------- W03: disable, re-enable, destruction

namespace {

void toggle_body(int which)
{
    h::usual_faults();
    int nw = h::some(3, 20), nc = h::some(2, 8);
    bool setter = sim::choose(2);
    bool init_en = !sim::chance(1, 5);
    Dev* d = make_dev(which, 0, init_en);
    auto* S = new Hist(init_en);        // enabled state
    auto* V = new Hist(0);              // value
    static W w[24];
    sim::describe("toggle %d: %d waiters, %d controllers%s, initially %s", which, nw, nc, setter ? ", a setter" : "", init_en ? "enabled" : "disabled");
    Thrs ws, cs;
    for (int i = 0; i < nw; i++)
    {
        ws.emplace_back("waiter", [=]
                {
                    int n = 1 + sim::choose(4);
                    for (int k = 0; k < n; k++)
                    {
                        uint32_t to = sim::choose(2) ? 1 + sim::choose(20) : 0;
                        uint64_t inv;
                        {
                            sim::Quiet q;
                            w[i].active = true;
                            w[i].seq++;
                            w[i].to = to;
                            inv = sim::stamp();
                        }
                        AwakeReason r = d->wait(0, 1, to);
                        {
                            sim::Quiet q;
                            uint64_t ret = sim::stamp();
                            w[i].active = false;
                            sim::note("wait timeout %u -> %s", to, rname(r));
                            bool e = S->any(inv, ret, [](int v)
                                    {
                                        return v == 1;
                                    }), dis = S->any(inv, ret, [](int v)
                                    {
                                        return v == 0;
                                    });
                            if (r == AwakeReason::disabled)
                            {
                                sim::probe("disabled-reported");
                                SIM_CHECK(dis, "disabled-while-enabled", "wait returned disabled but the handler was enabled during the whole call");
                            }
                            else
                            {
                                SIM_CHECK(e, "not-disabled", "wait returned %s but the handler was disabled during the whole call", rname(r));
                                SIM_CHECK(r == AwakeReason::timeout || setter, "condition-not-met", "wait returned %s but the value never satisfied it", rname(r));
                                SIM_CHECK(r == AwakeReason::timeout || S->together(1, *V, 1, inv, ret), "not-disabled",
                                        "wait returned %s but the value only satisfied it while the handler was disabled", rname(r));
                                SIM_CHECK(r != AwakeReason::timeout || to, "timeout-without-timeout", "wait without time limit returned timeout");
                            }
                        }
                        if (r == AwakeReason::disabled)
                        {
                            h::pause(3);
                        }
                    }
                });
    }
    for (int i = 0; i < nc; i++)
    {
        cs.emplace_back("control", [=, &ws]
                {
                    int n = 1 + sim::choose(4);
                    for (int k = 0; k < n; k++)
                    {
                        h::pause(6);
                        int op = sim::choose(5);
                        W snap[24];
                        {
                            sim::Quiet q;
                            for (int j = 0; j < nw; j++)
                            {
                                snap[j] = w[j];
                                snap[j].active = w[j].active && ws[j].on_cv();
                            }
                        }
                        size_t a = 0, b = 0;
                        switch (op)
                        {
                            case 0:
                                a = S->begin(1);
                                d->enable();
                                S->end(a);
                                break;
                            case 1:
                                a = S->begin(0);
                                d->disable();
                                S->end(a);
                                break;
                            case 2:
                            case 3:
                                a = S->begin(0);
                                d->blocking_disable();
                                S->end(a);
                                break;
                            default:
                                a = S->begin(0);
                                b = S->begin(1);
                                d->stop_and_continue();
                                S->end(a);
                                S->end(b);
                                break;
                        }
                        if (op >= 2)
                        {
                            sim::Quiet q;
                            // whoever was blocked before the call has been let go when it returns
                            for (int j = 0; j < nw; j++)
                            {
                                if (snap[j].active)
                                {
                                    sim::probe(op == 4 ? "stop-and-continue-with-blocked-waiter" : "blocking-disable-with-blocked-waiter");
                                    SIM_CHECK(!(w[j].active && w[j].seq == snap[j].seq && ws[j].on_cv()),
                                            "blocking-call-returned-early", "%s returned while waiter %d is still blocked in the wait it was in before the call",
                                            op == 4 ? "stop_and_continue" : "blocking_disable", j);
                                }
                            }
                        }
                        if (nc == 1)
                        {
                            bool want = op == 0 || op == 4;
                            bool en = d->enabled();
                            SIM_CHECK(en == want, "enabled-state", "enabled() is %d after operation %d", (int)en, op);
                        }
                    }
                });
    }
    if (setter)
    {
        for (int k = sim::choose(4); k > 0; k--)
        {
            h::pause(6);
            int v = sim::choose(2);
            size_t o = V->begin(v);
            d->set(v);
            V->end(o);
        }
    }
    h::join(cs);
    if (sim::choose(2))
    {
        size_t a = S->begin(0);
        d->disable();
        S->end(a);
        sim::quiesce();
        sim::Quiet q;
        for (int i = 0; i < nw; i++)
        {
            SIM_CHECK(!(w[i].active && ws[i].on_cv()), "disable-did-not-release", "waiter %d is still blocked after disable", i);
        }
    }
    else
    {
        size_t a = S->begin(0);
        d->blocking_disable();
        S->end(a);
    }
    h::join(ws);
    d->destroy();
}

//! Destruction with threads blocked inside
void destroy_body(int which)
{
    h::usual_faults();
    int nw = h::some(3, 20);
    bool timed = sim::choose(2), other = sim::choose(2);
    sim::describe("destroy %d: %d waiters%s%s", which, nw, timed ? ", timed" : "", other ? ", second kind of waiter" : "");
    Dev* d = which < 3 ? make_dev(which, 0, true) : nullptr;
    CounterWaitHandler* c = which == 3 ? new CounterWaitHandler(2, 1, true) : nullptr;
    DBQueueWaitHandler<std::string>* q = which == 4 ? new DBQueueWaitHandler<std::string>() : nullptr;
    if (q && other)
    {
        q->produce(std::string("left over"));
    }
    Thrs ws;
    static int disabled_n;
    for (int i = 0; i < nw; i++)
    {
        uint32_t to = timed ? 1 + sim::choose(6) : 0;
        ws.emplace_back("waiter", [=]
                {
                    AwakeReason r = AwakeReason::condition_met;
                    if (d)
                    {
                        r = d->wait(0, 1, to);
                    }
                    else if (c)
                    {
                        r = other ? c->wait_threshold_reached(to) : c->wait_and_decrement(to);
                    }
                    else if (other)
                    {
                        r = q->wait_all_consumed(to);
                    }
                    else
                    {
                        try
                        {
                            q->consume(to);
                        }
                        catch (const DisabledException&)
                        {
                            r = AwakeReason::disabled;
                        }
                        catch (const TimeoutException&)
                        {
                            r = AwakeReason::timeout;
                        }
                    }
                    sim::Quiet qq;
                    SIM_CHECK(r == AwakeReason::disabled || (r == AwakeReason::timeout && to), "wrong-reason", "wait on a destroyed handler returned %s", rname(r));
                    disabled_n += r == AwakeReason::disabled;
                });
    }
    sim::quiesce();
    if (timed && sim::choose(3))
    {
        sim::sleep_ms(1 + sim::choose(6));
    }
    sim::context("destroying a wait handler with threads waiting in it");
    // it may be disabled just before, so that the threads waiting may be still leaving it
    const int before = sim::choose(4);
    if (before)
    {
        auto off = [=]
                {
                    if (before == 3)
                    {
                        d ? d->blocking_disable() : c ? c->blocking_disable() : q->blocking_disable();
                    }
                    else
                    {
                        d ? d->disable() : c ? c->disable() : q->disable();
                    }
                };
        if (before == 2)
        {
            Thr t("disabler", off);
            t.join();
        }
        else
        {
            off();
        }
    }
    if (d)
    {
        d->destroy();
    }
    delete c;
    delete q;
    sim::quiesce();
    SIM_CHECK(h::unfinished(ws) == 0, "destroy-left-waiter", "%d threads are still waiting in a destroyed handler", h::unfinished(ws));
    h::join(ws);
    if (disabled_n)
    {
        sim::probe("destroyed-with-waiter-inside");
    }
}

} // namespace

SCENARIO(W03, toggle_bool, 2)
{
    toggle_body(0);
}
SCENARIO(W03, toggle_int, 2)
{
    toggle_body(1);
}
SCENARIO(W03, toggle_generic, 1)
{
    toggle_body(2);
}
SCENARIO(W03, destroy, 3)
{
    destroy_body(sim::choose(3));
}
SCENARIO(W03, destroy_counter, 2)
{
    destroy_body(3);
}
SCENARIO(W03, destroy_consumer, 2)
{
    destroy_body(4);
}

//! A few threads start to wait just when the handler is disabled
SCENARIO(W03, meet, 5)
{
    h::usual_faults();
    const int kind = sim::choose(7);
    static BooleanWaitHandler* b;
    static IntWaitHandler* n;
    static WaitHandler<std::string>* g;
    static CounterWaitHandler* c;
    static DBQueueWaitHandler<int>* q;
    b = nullptr;
    n = nullptr;
    g = nullptr;
    c = nullptr;
    q = nullptr;
    switch (kind)
    {
        case 0: b = new BooleanWaitHandler(false, true); break;
        case 1: n = new IntWaitHandler(3, true); break;
        case 2: g = new WaitHandler<std::string>("x", true); break;
        case 3: case 4: c = new CounterWaitHandler(1, kind == 3 ? 1 : 0, true); break;
        default: q = new DBQueueWaitHandler<int>(); break;
    }
    if (kind == 6)
    {
        q->produce(1);
    }
    const int nw = h::some(2, 10);
    const bool blocking = sim::choose(2);
    const int late = sim::choose(3);
    sim::describe("%d threads start to wait (kind %d) when %s is called", nw, kind, blocking ? "blocking_disable" : "disable");
    Thrs ws;
    for (int i = 0; i < nw; i++)
    {
        ws.emplace_back("waiter", [kind]
                {
                    AwakeReason r = AwakeReason::disabled;
                    switch (kind)
                    {
                        case 0: r = b->wait(); break;
                        case 1: r = n->wait_greater_than(4); break;
                        case 2: r = g->wait(std::function<bool(const std::string&)>([](const std::string& v)
                                {
                                    return v == "y";
                                })); break;
                        case 3: r = c->wait_and_decrement(); break;
                        case 4: r = c->wait_threshold_reached(); break;
                        case 5:
                            try
                            {
                                q->consume();
                                r = AwakeReason::condition_met;
                            }
                            catch (const DisabledException&)
                            {
                            }
                            break;
                        default: r = q->wait_all_consumed();
                    }
                    SIM_CHECK(r == AwakeReason::disabled, "wrong-reason", "disabling the handler made a wait return %s", rname(r));
                });
    }
    for (int i = 0; i < late; i++)
    {
        h::pause(1);
    }
    if (b)
    {
        blocking ? b->blocking_disable() : b->disable();
    }
    else if (n)
    {
        blocking ? n->blocking_disable() : n->disable();
    }
    else if (g)
    {
        blocking ? g->blocking_disable() : g->disable();
    }
    else if (c)
    {
        blocking ? c->blocking_disable() : c->disable();
    }
    else
    {
        blocking ? q->blocking_disable() : q->disable();
    }
    if (sim::choose(3) == 0)
    {
        // satisfied too late: whoever was waiting then, was waiting in a disabled handler
        if (b)
        {
            b->open();
        }
        else if (n)
        {
            n->set_value(5);
        }
        else if (g)
        {
            g->set_value("y");
        }
        else if (c)
        {
            ++*c;
        }
        else
        {
            q->produce(2);
        }
        sim::probe("satisfied-once-disabled");
    }
    sim::quiesce();
    SIM_CHECK(h::unfinished(ws) == 0, "disable-did-not-release", "%d of %d threads still wait in a handler that is disabled", h::unfinished(ws), nw);
    h::join(ws);
    delete b;
    delete n;
    delete g;
    delete c;
    delete q;
}

//! Counter and consumer handlers: stopping them releases both kinds of waiter
SCENARIO(W03, stop_counter, 3)
{
    h::usual_faults();
    bool queue = sim::choose(2);
    int nw = h::some(3, 20);
    int how = sim::choose(3);
    auto* c = queue ? nullptr : new CounterWaitHandler(1, 2, true);
    auto* q = queue ? new DBQueueWaitHandler<int>() : nullptr;
    if (q)
    {
        q->produce(1);
    }
    // one unit available: nobody takes it in this scenario when every waiter waits for all to be consumed
    bool all_threshold = sim::choose(2);
    if (!all_threshold)
    {
        if (c)
        {
            c->wait_and_decrement();
            ++*c;
            c->wait_and_decrement();
        }
        else
        {
            q->consume();
        }
    }
    sim::describe("stop %s with %d %s waiters by %s", queue ? "consumer" : "counter", nw, all_threshold ? "all-consumed" : "unit",
            how == 0 ? "disable" : how == 1 ? "blocking_disable" : "stop_and_continue");
    Thrs ws;
    for (int i = 0; i < nw; i++)
    {
        ws.emplace_back("waiter", [=]
                {
                    AwakeReason r = AwakeReason::condition_met;
                    if (c)
                    {
                        r = all_threshold ? c->wait_threshold_reached() : c->wait_and_decrement();
                    }
                    else if (all_threshold)
                    {
                        r = q->wait_all_consumed();
                    }
                    else
                    {
                        try
                        {
                            q->consume();
                        }
                        catch (const DisabledException&)
                        {
                            r = AwakeReason::disabled;
                        }
                    }
                    SIM_CHECK(r == AwakeReason::disabled, "wrong-reason", "stopping the handler made a wait return %s", rname(r));
                });
    }
    sim::quiesce();
    sim::context("a thread waits in a handler that is being stopped");
    if (how == 0)
    {
        c ? c->disable() : q->disable();
    }
    else if (how == 1)
    {
        c ? c->blocking_disable() : q->blocking_disable();
    }
    else
    {
        c ? c->stop_and_continue() : q->stop_and_continue();
    }
    sim::quiesce();
    SIM_CHECK(h::unfinished(ws) == 0, "disable-did-not-release", "%d of %d threads still wait after the handler was stopped", h::unfinished(ws), nw);
    bool en = c ? c->enabled() : q->enabled();
    SIM_CHECK(en == (how == 2), "enabled-state", "enabled() is %d after stopping with %d", (int)en, how);
    if (en)
    {
        // works again after being stopped
        Thr t("again", [=]
                {
                    if (c)
                    {
                        ++*c;
                        SIM_CHECK(c->wait_and_decrement() == AwakeReason::condition_met, "not-working-again", "unit not delivered after stop_and_continue");
                    }
                    else
                    {
                        q->produce(7);
                        q->consume();
                    }
                });
        t.join();
    }
    h::join(ws);
    delete c;
    delete q;
}

// ---------------------------------------------------------------- W04: counter accounting

//! the small counters used are really counted from here
static unsigned counter_base()
{
    static const unsigned bases[] = {0, 0, 0, 0, 254, 65534, 16777216, 2147483640u, 4294967000u};
    return bases[sim::choose(9)];
}

SCENARIO(W04, counter, 4)
{
    h::usual_faults();
    unsigned thr = sim::choose(3), init = sim::choose(5), base = counter_base();
    int np = h::some(3, 8), nc = h::some(3, 8);
    bool stopper = sim::chance(1, 4);
    auto* c = new CounterWaitHandler(base + thr, base + init);
    static int inc_started, inc_done, succ;
    sim::describe("counter threshold %u initial %u, %d producers, %d consumers%s", thr, init, np, nc, stopper ? ", stop_and_continue" : "");
    Thrs ps, cs, st;
    for (int i = 0; i < nc; i++)
    {
        cs.emplace_back("consumer", [=]
                {
                    int n = 1 + sim::choose(5);
                    for (int k = 0; k < n; k++)
                    {
                        uint32_t to = sim::choose(3) ? 0 : 1 + sim::choose(10);
                        AwakeReason r = c->wait_and_decrement(to);
                        {
                            sim::Quiet q;
                            if (r == AwakeReason::condition_met)
                            {
                                succ++;
                                SIM_CHECK(succ <= std::max(0, (int)init + inc_started - (int)thr), "unit-from-nowhere",
                                        "%d waits were granted a unit, only %d increments were ever started (initial %u, threshold %u)", succ, inc_started, init, thr);
                            }
                            SIM_CHECK(r != AwakeReason::timeout || to, "timeout-without-timeout", "wait without time limit returned timeout");
                            SIM_CHECK(r != AwakeReason::disabled || stopper, "wrong-reason", "disabled reported by an enabled handler");
                        }
                        h::pause(3);
                    }
                });
    }
    for (int i = 0; i < np; i++)
    {
        ps.emplace_back("producer", [=]
                {
                    int n = sim::choose(5);
                    for (int k = 0; k < n; k++)
                    {
                        h::pause(3);
                        {
                            sim::Quiet q;
                            inc_started++;
                        }
                        ++*c;
                        {
                            sim::Quiet q;
                            inc_done++;
                        }
                    }
                });
    }
    if (stopper)
    {
        st.emplace_back("stopper", [=]
                {
                    h::pause(4);
                    c->stop_and_continue();
                });
    }
    h::join(ps);
    h::join(st);
    for (int round = 0; round < 600; round++)
    {
        sim::quiesce();
        int left, waiting;
        {
            sim::Quiet q;
            int v = (int)(c->get_value() - base);
            left = h::unfinished(cs);
            waiting = h::on_cv(cs);
            SIM_CHECK(v == (int)init + inc_done - succ, "unit-lost", "counter is %d, expected initial %u + %d increments - %d granted = %d", v, init, inc_done, succ,
                    (int)init + inc_done - succ);
            SIM_CHECK(!(waiting > 0 && v > (int)thr), "lost-wakeup", "%d threads wait for a unit although the counter is %d and the threshold %u", waiting, v, thr);
        }
        if (!left)
        {
            break;
        }
        if (waiting)
        {
            sim::probe("blocked-consumer-released");
            int m = 1 + sim::choose(3);
            for (int k = 0; k < m; k++)
            {
                {
                    sim::Quiet q;
                    inc_started++;
                    inc_done++;
                }
                ++*c;
            }
        }
        else
        {
            sim::sleep_ms(4);
        }
    }
    SIM_CHECK(h::unfinished(cs) == 0, "no-progress", "a consumer never got its unit");
    h::join(cs);
    delete c;
}

//! A counter very far from its threshold
SCENARIO(W04, far, 1)
{
    h::usual_faults();
    static const unsigned values[] = {3000000000u, 4294967295u, 2147483648u, 70000u};
    unsigned thr = sim::choose(2) * 5, init = values[sim::choose(4)];
    auto* c = new CounterWaitHandler(thr, init);
    int n = 1 + sim::choose(3);
    sim::describe("%d threads take units of %u, threshold %u", n, init, thr);
    Thrs ts;
    for (int i = 0; i < n; i++)
    {
        ts.emplace_back("consumer", [=]
                {
                    AwakeReason r = c->wait_and_decrement(sim::choose(2) ? 0 : 1000);
                    SIM_CHECK(r == AwakeReason::condition_met, "lost-wakeup", "a wait for a unit returned %s with the counter at %u and the threshold at %u", rname(r), init, thr);
                });
    }
    sim::quiesce();
    SIM_CHECK(h::unfinished(ts) == 0, "lost-wakeup", "a thread waits for a unit with the counter at %u and the threshold at %u", init, thr);
    h::join(ts);
    SIM_CHECK(c->get_value() == init - n, "unit-lost", "counter is %u after taking %d of %u", c->get_value(), n, init);
    delete c;
}

// ---------------------------------------------------------------- W05: waiting for the threshold / for everything to be consumed

SCENARIO(W05, threshold, 4)
{
    h::usual_faults();
    unsigned thr = sim::choose(3), init = sim::choose(5), base = counter_base();
    int np = sim::choose(3), nc = sim::choose(3), nt = h::some(2, 20);
    auto* c = new CounterWaitHandler(base + thr, base + init);
    struct Ev { uint64_t s, e; int d; uint64_t te = ~0ull; };
    static std::vector<Ev>* evs;
    evs = new std::vector<Ev>();
    static bool twaiting[24];
    static int units;
    sim::describe("threshold waiters %d on threshold %u initial %u, %d producers, %d consumers", nt, thr, init, np, nc);
    Thrs ps, cs, ts;
    for (int i = 0; i < nt; i++)
    {
        ts.emplace_back("threshold", [=]
                {
                    int n = 1 + sim::choose(3);
                    for (int k = 0; k < n; k++)
                    {
                        uint32_t to = sim::choose(2) ? 0 : 1 + sim::choose(10);
                        uint64_t inv, t0;
                        {
                            sim::Quiet q;
                            twaiting[i] = true;
                            inv = sim::stamp();
                            t0 = sim::now_ns();
                        }
                        AwakeReason r = c->wait_threshold_reached(to);
                        sim::Quiet q;
                        uint64_t ret = sim::stamp();
                        twaiting[i] = false;
                        SIM_CHECK(r != AwakeReason::disabled, "wrong-reason", "disabled reported by an enabled handler");
                        SIM_CHECK(r != AwakeReason::timeout || to, "timeout-without-timeout", "wait without time limit returned timeout");
                        if (r == AwakeReason::timeout)
                        {
                            // where the counter could be once the limit had elapsed
                            int at = (int)init;
                            bool sure = true;
                            for (auto& e : *evs)
                            {
                                if (e.te < t0 + to * 1000000ull)
                                {
                                    at += e.d;
                                }
                                else if (e.s < ret && e.d)
                                {
                                    sure = false;
                                }
                            }
                            SIM_CHECK(!sure || at != (int)thr, "timeout-although-met",
                                    "wait for the threshold %u reported timeout although the counter was there since before the limit of %u ms elapsed", thr, to);
                        }
                        if (r == AwakeReason::condition_met)
                        {
                            int lo = (int)init, hi = (int)init;
                            for (auto& e : *evs)
                            {
                                if (e.e < inv)
                                {
                                    lo += e.d;
                                    hi += e.d;
                                }
                                else if (e.s < ret)
                                {
                                    (e.d > 0 ? hi : lo) += e.d;
                                }
                            }
                            sim::probe("threshold-reported");
                            SIM_CHECK(lo <= (int)thr && (int)thr <= hi, "threshold-not-reached",
                                    "wait reported the threshold %u reached, but the counter was between %d and %d during the call", thr, lo, hi);
                        }
                    }
                });
    }
    auto ev_begin = [](int d)
            {
                sim::Quiet q;
                evs->push_back({sim::stamp(), ~0ull, d});
                return evs->size() - 1;
            };
    for (int i = 0; i < nc; i++)
    {
        cs.emplace_back("consumer", [=]
                {
                    int n = 1 + sim::choose(4);
                    for (int k = 0; k < n; k++)
                    {
                        uint64_t s = sim::stamp();
                        size_t id;
                        {
                            // until the outcome is known the decrement is only possible
                            sim::Quiet q;
                            evs->push_back({s, ~0ull, -1});
                            id = evs->size() - 1;
                        }
                        AwakeReason r = c->wait_and_decrement(5);
                        sim::Quiet q;
                        (*evs)[id].e = sim::stamp();
                        (*evs)[id].te = sim::now_ns();
                        if (r == AwakeReason::condition_met)
                        {
                            units++;
                        }
                        else
                        {
                            (*evs)[id].d = 0;
                        }
                    }
                });
    }
    for (int i = 0; i < np; i++)
    {
        ps.emplace_back("producer", [=]
                {
                    int n = 1 + sim::choose(3);
                    for (int k = 0; k < n; k++)
                    {
                        h::pause(3);
                        size_t id = ev_begin(+1);
                        ++*c;
                        sim::Quiet q;
                        (*evs)[id].e = sim::stamp();
                        (*evs)[id].te = sim::now_ns();
                    }
                });
    }
    h::join(ps);
    h::join(cs);
    for (int round = 0; round < 600; round++)
    {
        sim::quiesce();
        int v;
        bool any = false;
        {
            sim::Quiet q;
            v = (int)(c->get_value() - base);
            for (int i = 0; i < nt; i++)
            {
                any |= twaiting[i];
                SIM_CHECK(!(twaiting[i] && ts[i].on_cv() && v == (int)thr), "lost-wakeup", "thread %d waits for the threshold %u although the counter is exactly there", i, thr);
            }
        }
        if (!h::unfinished(ts))
        {
            break;
        }
        if (!any)
        {
            sim::sleep_ms(3);
        }
        else if (v > (int)thr)
        {
            sim::probe("released-by-decrement");
            size_t id = ev_begin(-1);
            c->wait_and_decrement();
            sim::Quiet q;
            (*evs)[id].e = sim::stamp();
        }
        else
        {
            sim::probe("released-by-increment");
            size_t id = ev_begin(+1);
            ++*c;
            sim::Quiet q;
            (*evs)[id].e = sim::stamp();
        }
    }
    SIM_CHECK(h::unfinished(ts) == 0, "no-progress", "a thread waiting for the threshold never returned");
    h::join(ts);
    delete c;
}

// ---------------------------------------------------------------- queues

namespace {

struct CopyFailed {};
struct Item
{
    int prod = -1, seq = -1;
    std::string body;
    Item() {}
    Item(int p, int s)
        : prod(p)
        , seq(s)
        , body(20 + s % 50, (char)('a' + p))
    {
    }
    Item(const Item& o)
        : prod(o.prod)
        , seq(o.seq)
        , body(o.body)
    {
        if (sim::fault(sim::F_THROW))
        {
            throw CopyFailed();
        }
    }
    Item(Item&& o) noexcept
        : prod(o.prod)
        , seq(o.seq)
        , body(std::move(o.body))
    {
        o.prod = -9;
    }
    Item& operator =(Item&& o) noexcept
    {
        prod = o.prod;
        seq = o.seq;
        body = std::move(o.body);
        return *this;
    }
    bool ok() const
    {
        return prod >= 0 && body == std::string(20 + seq % 50, (char)('a' + prod));
    }
};
struct Rec { int prod, seq; uint64_t s, e; };
struct QHist
{
    std::vector<Rec> in, out;
    std::vector<Rec> clears;     // calls that dropped everything inside
    std::vector<Rec> looks;      // calls to both_empty(): seq is the result
    //! checks what calls that drop everything, or look for anything, did
    void check_clears_and_looks(bool dropped)
    {
        sim::Quiet q;
        std::map<std::pair<int, int>, const Rec*> index;
        for (auto& r : out)
        {
            index[{r.prod, r.seq}] = &r;
        }
        auto taken = [&](const Rec& x) -> const Rec*
                {
                    auto it = index.find({x.prod, x.seq});
                    return it == index.end() ? nullptr : it->second;
                };
        for (auto& x : in)
        {
            const Rec* o = taken(x);
            bool may = dropped || x.e == ~0ull;
            for (auto& c : clears)
            {
                SIM_CHECK(!(o && x.e < c.s && c.e < o->s), "clear", "element (%d,%d) was taken after everything was cleared", x.prod, x.seq);
                may |= x.s < c.e;
            }
            SIM_CHECK(o || may, "lost-element", "element (%d,%d) entered after the last clear and was never consumed", x.prod, x.seq);
        }
        for (auto& l : looks)
        {
            bool possible = false;
            for (auto& x : in)
            {
                const Rec* o = taken(x);
                if (l.seq)
                {
                    SIM_CHECK(!(o && x.e < l.s && l.e < o->s), "size", "both_empty() is true with (%d,%d) inside", x.prod, x.seq);
                    continue;
                }
                bool gone = x.seq == -2 || x.s > l.e || (o && o->e < l.s);
                for (auto& c : clears)
                {
                    gone |= x.e < c.s && c.e < l.s;
                }
                possible |= !gone;
            }
            if (l.seq)
            {
                // there must be an instant of the call with nothing inside for sure
                std::vector<std::pair<uint64_t, uint64_t>> full;
                for (auto& x : in)
                {
                    const Rec* o = taken(x);
                    if (o && x.e < l.e && o->s > l.s && x.e < o->s)
                    {
                        full.push_back({x.e, o->s});
                    }
                }
                std::sort(full.begin(), full.end());
                uint64_t covered = l.s;
                for (auto& f : full)
                {
                    if (f.first > covered)
                    {
                        break;
                    }
                    covered = std::max(covered, f.second);
                }
                SIM_CHECK(covered <= l.e, "size", "both_empty() is true although at every instant of the call there was something inside");
            }
            SIM_CHECK(l.seq || possible, "size", "both_empty() is false with nothing inside");
        }
    }
    size_t begin_in(int p, int s)
    {
        sim::Quiet q;
        in.push_back({p, s, sim::stamp(), ~0ull});
        return in.size() - 1;
    }
    void end_in(size_t i)
    {
        sim::Quiet q;
        in[i].e = sim::stamp();
    }
    void got(const Item& it, uint64_t s)
    {
        sim::Quiet q;
        uint64_t e = sim::stamp();
        SIM_CHECK(it.ok(), "corrupted-element", "consumed a corrupted element (producer %d, number %d, %zu bytes)", it.prod, it.seq, it.body.size());
        bool known = false;
        for (auto& r : in)
        {
            known |= r.prod == it.prod && r.seq == it.seq && r.s < e;
        }
        SIM_CHECK(known, "invented-element", "consumed an element that was never produced (%d,%d)", it.prod, it.seq);
        for (auto& r : out)
        {
            SIM_CHECK(!(r.prod == it.prod && r.seq == it.seq), "duplicated-element", "element (%d,%d) was consumed twice", it.prod, it.seq);
        }
        out.push_back({it.prod, it.seq, s, e});
    }
    //! FIFO: a produced strictly before b => b is not consumed strictly before a
    void check_order(bool complete)
    {
        sim::Quiet q;
        std::map<std::pair<int, int>, Rec*> index;
        for (auto& r : out)
        {
            index[{r.prod, r.seq}] = &r;
        }
        auto find = [&](int p, int s) -> Rec*
                {
                    auto it = index.find({p, s});
                    return it == index.end() ? nullptr : it->second;
                };
        for (auto& a : in)
        {
            Rec* oa = find(a.prod, a.seq);
            SIM_CHECK(!complete || oa || a.e == ~0ull, "lost-element", "element (%d,%d) was produced and never consumed", a.prod, a.seq);
            for (auto& b : in)
            {
                if (a.e < b.s)
                {
                    Rec* ob = find(b.prod, b.seq);
                    if (ob)
                    {
                        SIM_CHECK(!oa || !(ob->e < oa->s), "order", "(%d,%d) produced before (%d,%d) but consumed after it", a.prod, a.seq, b.prod, b.seq);
                        SIM_CHECK(oa || !complete, "lost-element", "(%d,%d) skipped", a.prod, a.seq);
                    }
                }
            }
        }
    }
};

} // namespace

static void check_both_empty(DBQueue<Item>& q, QHist& h)
{
    Rec r{0, 0, sim::stamp(), 0};
    r.seq = q.both_empty();
    r.e = sim::stamp();
    sim::Quiet qq;
    h.looks.push_back(r);
}

SCENARIO(Q01, mpsc, 4)
{
    h::usual_faults();
    int np = h::some(3, 12);
    bool af = sim::chance(1, 4);
    auto* q = new DBQueue<Item>();
    auto* H = new QHist();
    static int live;
    live = np;
    sim::describe("double queue: %d producers, one consumer%s", np, af ? ", allocations fail" : "");
    Thrs ps;
    for (int i = 0; i < np; i++)
    {
        ps.emplace_back("producer", [=]
                {
                    int n = 1 + sim::choose(sim::chance(1, 40) ? 300 : sim::chance(1, 8) ? 40 : 6);
                    for (int k = 0; k < n; k++)
                    {
                        Item it(i, k);
                        size_t o = H->begin_in(i, k);
                        try
                        {
                            sim::AllocFaults* a = af ? new sim::AllocFaults() : nullptr;
                            std::unique_ptr<sim::AllocFaults> guard(a);
                            if (sim::choose(2))
                            {
                                q->push(std::move(it));
                            }
                            else
                            {
                                q->push(it);
                            }
                            guard.reset();
                            H->end_in(o);
                        }
                        catch (const std::bad_alloc&)
                        {
                            sim::probe("push-failed");
                            sim::Quiet qq;
                            H->in[o].seq = -2;   // never entered the queue
                            H->in[o].e = ~0ull;
                        }
                    }
                    sim::Quiet qq;
                    live--;
                });
    }
    if (af)
    {
        sim::set_fault(sim::F_ALLOC, 4 + sim::choose(10));
    }
    int idle = 0;
    int style = sim::choose(3);
    bool drops = sim::choose(4) == 0;
    size_t dropped = 0;
    bool clears = sim::choose(5) == 0;
    // threads that only look at it
    Thrs os;
    for (int i = sim::choose(3) == 0 ? 1 + sim::choose(2) : 0; i > 0; i--)
    {
        os.emplace_back("observer", [=]
                {
                    for (int k = 1 + sim::choose(6); k > 0; k--)
                    {
                        switch (sim::choose(3))
                        {
                            case 0:
                                check_both_empty(*q, *H);
                                break;
                            case 1:
                                h::use(q->size());
                                break;
                            default:
                                h::use(q->empty());
                        }
                        h::pause(1);
                    }
                });
    }
    for (;;)
    {
        bool fin;
        {
            sim::Quiet qq;
            fin = live == 0;
        }
        if (sim::choose(4) == 0)
        {
            check_both_empty(*q, *H);
        }
        if (clears && sim::choose(8) == 0)
        {
            sim::probe("cleared");
            Rec c{0, 0, sim::stamp(), 0};
            q->clear();
            c.e = sim::stamp();
            sim::Quiet qq;
            H->clears.push_back(c);
            continue;
        }
        if (q->empty())
        {
            q->swap();
            if (q->empty())
            {
                if (fin)
                {
                    break;
                }
                if (++idle % 3 == 0)
                {
                    sim::sleep_ms(1);
                }
                else
                {
                    sim::yield();
                }
                continue;
            }
            sim::probe("swapped-in");
        }
        size_t n = q->size();
        SIM_CHECK(n > 0, "size", "size 0 of a non empty queue");
        uint64_t s = sim::stamp();
        if (style == 0 || (style == 2 && sim::choose(2)))
        {
            Item it = q->front_and_pop();
            H->got(it, s);
        }
        else
        {
            Item it = q->front();
            q->pop();
            H->got(it, s);
        }
        size_t n2 = q->size();
        SIM_CHECK(n2 == n - 1, "size", "foreground size %zu after taking one of %zu", n2, n);
        if (drops && n2 && sim::choose(3) == 0)
        {
            // what is left in front is dropped by a swap
            sim::probe("dropped-by-swap");
            q->swap();
            dropped += n2;
        }
    }
    h::join(ps);
    h::join(os);
    SIM_CHECK(q->both_empty(), "size", "both_empty() is false after everything was taken");
    H->check_order(!dropped && H->clears.empty());
    H->check_clears_and_looks(dropped);
    if (H->clears.empty())
    {
        sim::Quiet qq;
        size_t entered = 0;
        for (auto& r : H->in)
        {
            entered += r.e != ~0ull;
        }
        SIM_CHECK(entered == H->out.size() + dropped, "lost-element", "%zu elements entered, %zu were taken and %zu dropped by swaps", entered, H->out.size(), dropped);
    }
    if (sim::choose(3) == 0)
    {
        q->push(Item(0, 0));
        SIM_CHECK(!q->both_empty(), "size", "both_empty() with an element inside");
        q->swap();
        q->push(Item(0, 1));
        q->clear();
        SIM_CHECK(q->both_empty() && q->empty() && q->size() == 0, "clear", "elements left after clear");
    }
    delete q;
}

SCENARIO(Q02, consumer, 5)
{
    h::usual_faults();
    int np = h::some(3, 8), nc = h::some(3, 8);
    bool af = sim::chance(1, 4);
    auto* q = new DBQueueWaitHandler<Item>();
    auto* H = new QHist();
    static int failed_out;
    bool stopper = sim::chance(1, 4);
    sim::describe("consumer queue: %d producers, %d consumers%s%s", np, nc, stopper ? ", stop_and_continue" : "", af ? ", copying elements fails" : "");
    Thrs ps, cs, st;
    if (af)
    {
        sim::set_fault(sim::F_THROW, 4 + sim::choose(14));
    }
    for (int i = 0; i < nc; i++)
    {
        cs.emplace_back("consumer", [=]
                {
                    for (;;)
                    {
                        uint32_t to = sim::choose(4) ? 0 : 1 + sim::choose(6);
                        uint64_t s = sim::stamp();
                        bool stop = false, got = false;
                        Item it;
                        try
                        {
                            it = q->consume(to);
                            got = true;
                        }
                        catch (const DisabledException&)
                        {
                            sim::probe("consumer-disabled");
                            stop = !stopper || !q->enabled();
                        }
                        catch (const TimeoutException&)
                        {
                            SIM_CHECK(to, "timeout-without-timeout", "consume without time limit timed out");
                            sim::probe("consumer-timeout");
                        }
                        catch (const CopyFailed&)
                        {
                            sim::probe("consume-failed");
                            sim::Quiet qq;
                            failed_out++;
                        }
                        if (got)
                        {
                            H->got(it, s);
                        }
                        if (stop)
                        {
                            return;
                        }
                    }
                });
    }
    for (int i = 0; i < np; i++)
    {
        ps.emplace_back("producer", [=]
                {
                    int n = sim::choose(sim::chance(1, 40) ? 150 : 6);
                    for (int k = 0; k < n; k++)
                    {
                        h::pause(3);
                        Item it(i, k);
                        size_t o = H->begin_in(i, k);
                        try
                        {
                            if (sim::choose(2))
                            {
                                q->produce(std::move(it));
                            }
                            else
                            {
                                q->produce(it);
                            }
                            H->end_in(o);
                        }
                        catch (const CopyFailed&)
                        {
                            sim::probe("produce-failed");
                            sim::Quiet qq;
                            H->in[o].seq = -2;
                        }
                    }
                });
    }
    if (stopper)
    {
        st.emplace_back("stopper", [=]
                {
                    h::pause(4);
                    q->stop_and_continue();
                });
    }
    h::join(ps);
    h::join(st);
    sim::set_fault(sim::F_THROW, 0);
    sim::quiesce();
    {
        sim::Quiet qq;
        CounterType left = q->elements_ready_to_consume();
        int produced = 0;
        for (auto& r : H->in)
        {
            produced += r.e != ~0ull;
        }
        SIM_CHECK((int)left == produced - (int)H->out.size(), "count", "%u elements reported ready, %d produced and %zu consumed", left, produced, H->out.size());
        SIM_CHECK(left == 0 || h::on_cv(cs) == 0, "lost-wakeup", "%u elements are ready and %d consumers keep waiting", left, h::on_cv(cs));
    }
    if (h::unfinished(cs) && !stopper)
    {
        AwakeReason r = q->wait_all_consumed();
        SIM_CHECK(r == AwakeReason::condition_met, "wrong-reason", "wait_all_consumed returned %s", rname(r));
        sim::quiesce();
        H->check_order(true);
    }
    else
    {
        H->check_order(false);
    }
    q->blocking_disable();
    h::join(cs);
    if (sim::choose(2) && q->elements_ready_to_consume() == 0)
    {
        // usable again
        q->enable();
        Item it(20, 1);
        size_t o = H->begin_in(20, 1);
        q->produce(it);
        H->end_in(o);
        uint64_t s = sim::stamp();
        Item out = q->consume();
        H->got(out, s);
        SIM_CHECK(out.prod == 20, "order", "got an old element");
    }
    delete q;
}

//! waiting until everything was consumed
SCENARIO(W05, all_consumed, 3)
{
    h::usual_faults();
    int n = 1 + sim::choose(5), nc = 1 + sim::choose(2), nw = h::some(2, 20);
    auto* q = new DBQueueWaitHandler<int>();
    static int produced, taken_started;
    sim::describe("wait for all consumed: %d elements, %d consumers, %d waiters", n, nc, nw);
    for (int i = 0; i < n; i++)
    {
        q->produce(i);
    }
    produced = n;
    Thrs cs, ws;
    static int taken, turns;
    for (int i = 0; i < nw; i++)
    {
        ws.emplace_back("waiter", [=]
                {
                    AwakeReason r = q->wait_all_consumed();
                    sim::Quiet qq;
                    SIM_CHECK(r == AwakeReason::condition_met, "wrong-reason", "wait_all_consumed returned %s", rname(r));
                    SIM_CHECK(taken_started >= produced, "not-all-consumed", "wait_all_consumed returned although at most %d of %d elements were taken", taken_started, produced);
                });
    }
    for (int i = 0; i < nc; i++)
    {
        cs.emplace_back("consumer", [=]
                {
                    for (;;)
                    {
                        h::pause(3);
                        {
                            sim::Quiet qq;
                            if (turns >= n)
                            {
                                return;
                            }
                            turns++;
                            taken_started++;
                        }
                        q->consume();
                        sim::Quiet qq;
                        taken++;
                    }
                });
    }
    h::join(cs);
    sim::quiesce();
    SIM_CHECK(h::unfinished(ws) == 0, "lost-wakeup", "a thread still waits for all elements to be consumed, %u left", q->elements_ready_to_consume());
    h::join(ws);
    delete q;
}

// ---------------------------------------------------------------- scenarios that check several properties

ALSO(W01, W03, toggle_bool, 1, "condition-not-met disabled-while-enabled");
ALSO(W01, W03, toggle_int, 1, "condition-not-met disabled-while-enabled");
ALSO(W01, W03, toggle_generic, 1, "condition-not-met disabled-while-enabled");
ALSO(W02, W03, toggle_int, 1, "timeout-without-timeout");
ALSO(W02, W05, threshold, 1, "timeout-without-timeout");
ALSO(W04, W02, counter, 1, "wrong-reason");

// ---------------------------------------------------------------- objects that have nothing to do with each other

namespace {

template <int WHICH>
struct OwnValue
{
    std::unique_ptr<Dev> d;
    int v;
    bool en;
    OwnValue()
        : v(sim::choose(WHICH == 0 ? 2 : 4))
        , en(sim::choose(4) != 0)
    {
        d.reset(make_dev(WHICH, v, en));
    }
    ~OwnValue()
    {
        d->destroy();
    }
    void step()
    {
        switch (sim::choose(d->incdec ? 8 : 6))
        {
            case 0:
                v = sim::choose(d->nvals);
                if (sim::choose(2))
                {
                    d->set(v);
                }
                else
                {
                    d->set_unnotified(v);
                }
                break;
            case 1:
            {
                int g = d->get();
                SIM_CHECK(g == v, "not-independent", "a handler set to %d holds %d", v, g);
                break;
            }
            case 2:
                switch (sim::choose(4))
                {
                    case 0:
                        d->disable();
                        en = false;
                        break;
                    case 1:
                        d->blocking_disable();
                        en = false;
                        break;
                    case 2:
                        d->stop_and_continue();
                        en = true;
                        break;
                    default:
                        d->enable();
                        en = true;
                }
                break;
            case 3:
            {
                bool e = d->enabled();
                SIM_CHECK(e == en, "not-independent", "enabled() is %d for a handler its only user %s", e, en ? "enabled" : "disabled");
                break;
            }
            case 4:
            case 5:
            {
                int kind = sim::choose(d->nkinds), arg = WHICH == 0 ? 1 : (int)sim::choose(4);
                bool ok = pred(kind, arg, v);
                uint32_t to = (ok || !en) && sim::choose(2) ? 0 : 1 + sim::choose(4);
                uint64_t t0 = sim::now_ns();
                AwakeReason r = d->wait(kind, arg, to);
                AwakeReason want = !en ? AwakeReason::disabled : ok ? AwakeReason::condition_met : AwakeReason::timeout;
                SIM_CHECK(r == want, "not-independent", "wait (kind %d, %d) with value %d of a handler that is %s and that nobody else uses: %s", kind, arg, v,
                        en ? "enabled" : "disabled", rname(r));
                check_time("wait", r, to, t0, sim::now_ns(), true);
                break;
            }
            case 6:
                d->inc();
                v++;
                break;
            default:
                d->dec();
                v--;
        }
    }
};

struct OwnCounter
{
    unsigned v, thr;
    bool en;
    CounterWaitHandler* p;
    OwnCounter()
        : v(sim::choose(4))
        , thr(sim::choose(3))
        , en(sim::choose(4) != 0)
        , p(new CounterWaitHandler(thr, v, en))
    {
    }
    ~OwnCounter()
    {
        delete p;
    }
    void check(const char* what, AwakeReason r, bool ok)
    {
        AwakeReason want = !en ? AwakeReason::disabled : ok ? AwakeReason::condition_met : AwakeReason::timeout;
        SIM_CHECK(r == want, "not-independent", "%s with value %u, threshold %u of a counter that is %s and that nobody else uses: %s", what, v, thr,
                en ? "enabled" : "disabled", rname(r));
    }
    void step()
    {
        switch (sim::choose(7))
        {
            case 0:
            case 1:
                ++*p;
                v++;
                break;
            case 2:
            {
                unsigned g = p->get_value();
                SIM_CHECK(g == v, "not-independent", "a counter that should hold %u holds %u", v, g);
                break;
            }
            case 3:
                switch (sim::choose(4))
                {
                    case 0:
                        p->disable();
                        en = false;
                        break;
                    case 1:
                        p->blocking_disable();
                        en = false;
                        break;
                    case 2:
                        p->stop_and_continue();
                        en = true;
                        break;
                    default:
                        p->enable();
                        en = true;
                }
                break;
            case 4:
            {
                bool ok = v == thr;
                check("wait_threshold_reached", p->wait_threshold_reached((ok || !en) && sim::choose(2) ? 0 : 1 + sim::choose(4)), ok);
                break;
            }
            default:
            {
                bool ok = v > thr;
                check("wait_and_decrement", p->wait_and_decrement((ok || !en) && sim::choose(2) ? 0 : 1 + sim::choose(4)), ok);
                v -= ok && en;
            }
        }
    }
};

struct OwnQueue
{
    DBQueue<std::string>* q = new DBQueue<std::string>();
    std::vector<std::string> fg, bg;
    int n = 0;
    int id;
    OwnQueue()
    {
        static int ids;
        sim::Quiet qq;
        id = ids++;
    }
    ~OwnQueue()
    {
        delete q;
    }
    void step()
    {
        switch (sim::choose(7))
        {
            case 0:
            case 1:
            {
                std::string s = std::to_string(id) + " pushed this as element number " + std::to_string(n++);
                q->push(s);
                bg.push_back(s);
                break;
            }
            case 2:
                q->swap();
                fg = bg;
                bg.clear();
                break;
            case 3:
            case 4:
                if (!fg.empty())
                {
                    std::string s;
                    if (sim::choose(2))
                    {
                        s = q->front_and_pop();
                    }
                    else
                    {
                        s = q->front();
                        q->pop();
                    }
                    SIM_CHECK(s == fg[0], "not-independent", "\"%s\" taken instead of \"%s\"", s.c_str(), fg[0].c_str());
                    fg.erase(fg.begin());
                }
                break;
            case 5:
                SIM_CHECK(q->size() == fg.size() && q->empty() == fg.empty() && q->both_empty() == (fg.empty() && bg.empty()), "not-independent",
                        "%zu elements ready (empty: %d, both: %d); it should be %zu, and %zu more not yet", q->size(), q->empty(), q->both_empty(), fg.size(), bg.size());
                break;
            default:
                if (sim::choose(3) == 0)
                {
                    q->clear();
                    fg.clear();
                    bg.clear();
                }
        }
    }
};

struct OwnConsumer
{
    DBQueueWaitHandler<std::string>* q;
    std::vector<std::string> in;
    int n = 0;
    int id;
    bool en;
    OwnConsumer()
        : en(sim::choose(4) != 0)
    {
        q = new DBQueueWaitHandler<std::string>(0, en);
        static int ids;
        sim::Quiet qq;
        id = ids++;
    }
    ~OwnConsumer()
    {
        delete q;
    }
    void step()
    {
        switch (sim::choose(7))
        {
            case 0:
            case 1:
            {
                std::string s = std::to_string(id) + " produced this as element number " + std::to_string(n++);
                in.push_back(s);
                if (sim::choose(2))
                {
                    q->produce(s);
                }
                else
                {
                    q->produce(std::move(s));
                }
                break;
            }
            case 2:
            case 3:
            {
                std::string s;
                int what = 0;
                try
                {
                    s = q->consume((!in.empty() || !en) && sim::choose(2) ? 0 : 1 + sim::choose(4));
                }
                catch (const DisabledException&)
                {
                    what = 1;
                }
                catch (const TimeoutException&)
                {
                    what = 2;
                }
                int want = !en ? 1 : in.empty() ? 2 : 0;
                SIM_CHECK(what == want && (what || s == in[0]), "not-independent", "consume() of a queue with %zu elements that is %s: %s, \"%s\" instead of \"%s\"", in.size(),
                        en ? "enabled" : "disabled", what == 0 ? "an element" : what == 1 ? "disabled" : "timeout", s.c_str(), in.empty() ? "" : in[0].c_str());
                if (!what)
                {
                    in.erase(in.begin());
                }
                break;
            }
            case 4:
            {
                unsigned r = q->elements_ready_to_consume();
                SIM_CHECK(r == in.size(), "not-independent", "%u elements to consume instead of %zu", r, in.size());
                break;
            }
            case 5:
            {
                bool ok = in.empty();
                AwakeReason r = q->wait_all_consumed((ok || !en) && sim::choose(2) ? 0 : 1 + sim::choose(4));
                AwakeReason want = !en ? AwakeReason::disabled : ok ? AwakeReason::condition_met : AwakeReason::timeout;
                SIM_CHECK(r == want, "not-independent", "wait_all_consumed() of a queue with %zu elements that is %s: %s", in.size(), en ? "enabled" : "disabled", rname(r));
                break;
            }
            default:
                en = sim::choose(2);
                if (en)
                {
                    q->enable();
                }
                else
                {
                    q->disable();
                }
        }
    }
};

template <class M>
void apart(const char* what)
{
    h::usual_faults();
    h::apart<M>(what);
}

//! Threads wait in one handler for long while others use, disable and destroy theirs
void bystander_body()
{
    h::usual_faults();
    sim::describe("handlers used, disabled and destroyed next to one with threads waiting in it");
    auto* p = new IntWaitHandler(0);
    auto* c = new CounterWaitHandler(0, 1);
    int nw = 1 + sim::choose(2);
    static bool released;
    Thrs ws;
    for (int i = 0; i < nw; i++)
    {
        bool counter = sim::choose(2);
        ws.emplace_back("bystander", [=]
                {
                    AwakeReason r = counter ? c->wait_threshold_reached() : p->wait_equal(7);
                    sim::Quiet q;
                    SIM_CHECK(released, "not-independent", "a thread waiting in a handler nobody uses came back: %s", rname(r));
                    SIM_CHECK(r == AwakeReason::disabled, "not-independent", "a thread released by disabling its handler: %s", rname(r));
                });
    }
    if (sim::choose(2))
    {
        sim::quiesce();
    }
    sim::context("disabling or destroying a handler while threads wait in another one");
    switch (sim::choose(4))
    {
        case 0:
            h::apart<OwnValue<0>>("boolean", 2, 6);
            break;
        case 1:
            h::apart<OwnValue<1>>("int", 2, 6);
            break;
        case 2:
            h::apart<OwnCounter>("counter", 2, 6);
            break;
        default:
            h::apart<OwnConsumer>("consumer", 2, 6);
    }
    sim::quiesce();
    {
        sim::Quiet q;
        released = true;
    }
    p->blocking_disable();
    c->blocking_disable();
    h::join(ws);
    delete p;
    delete c;
}

} // namespace

SCENARIO(W01, apart, 1)
{
    switch (sim::choose(3))
    {
        case 0:
            apart<OwnValue<0>>("boolean");
            break;
        case 1:
            apart<OwnValue<1>>("int");
            break;
        default:
            apart<OwnValue<2>>("string");
    }
}
SCENARIO(W03, bystander, 1)
{
    bystander_body();
}
SCENARIO(W04, apart, 1)
{
    apart<OwnCounter>("counter");
}
SCENARIO(Q01, apart, 1)
{
    apart<OwnQueue>("double queue");
}
SCENARIO(Q02, apart, 1)
{
    apart<OwnConsumer>("consumer");
}
ALSO(W02, W01, apart, 1, "not-independent");
ALSO(W03, W01, apart, 1, "not-independent");
ALSO(W05, W04, apart, 1, "not-independent");
ALSO(W05, Q02, apart, 1, "not-independent");

//! A condition that looks at another handler, and what is done inside one while others are used
SCENARIO(W01, nested, 1)
{
    h::usual_faults();
    int n = 2 + sim::choose(2), nw = 1 + sim::choose(2);
    sim::describe("conditions of a chain of %d handlers look at the next one, %d waiters in each", n, nw);
    static WaitHandler<std::string>* hs[4];
    for (int i = 0; i < n; i++)
    {
        hs[i] = new WaitHandler<std::string>(std::string("no"), true);
    }
    Thrs ts;
    for (int i = 0; i < n; i++)
    {
        for (int k = 0; k < nw; k++)
        {
            ts.emplace_back("waiter", [=]
                    {
                        AwakeReason r = hs[i]->wait([=](const std::string& v)
                                {
                                    return v == "yes" && (i + 1 == n || hs[i + 1]->get_value() == "yes");
                                });
                        SIM_CHECK(r == AwakeReason::condition_met, "wrong-reason", "wait on a handler that is always enabled returned %s", rname(r));
                        SIM_CHECK(hs[i]->get_value() == "yes", "condition-not-met", "wait reported its condition met, and the value it asks for is not set");
                    });
        }
    }
    sim::context("conditions that look at other handlers");
    // the last first: when each value is set what its condition also asks for is there
    for (int i = n - 1; i >= 0; i--)
    {
        h::pause(3);
        hs[i]->set_value("yes");
    }
    sim::quiesce();
    SIM_CHECK(h::on_cv(ts) == 0, "lost-wakeup", "%d threads sleep although every condition is met", h::on_cv(ts));
    h::join(ts);
    for (int i = 0; i < n; i++)
    {
        delete hs[i];
    }
}

//! As many elements as there may be in a long run, none taken meanwhile
SCENARIO(Q01, capacity, 1)
{
    h::usual_faults();
    const int n = h::volume(70000), more = 1 + sim::choose(5);
    auto* q = new DBQueue<int>();
    sim::describe("%d elements in the double queue, and %d more", n, more);
    {
        sim::Quiet qq;
        for (int i = 0; i < n; i++)
        {
            q->push(i);
        }
    }
    Thrs ts;
    ts.emplace_back("producer", [=]
            {
                for (int i = 0; i < more; i++)
                {
                    q->push(n + i);
                }
            });
    int next = 0;
    for (int idle = 0; next < n + more && idle < 200; )
    {
        q->swap();
        size_t k = q->size();
        SIM_CHECK(k <= (size_t)(n + more - next), "wrong-size", "%zu elements are ready, at most %d can be", k, n + more - next);
        {
            sim::Quiet qq;
            for (size_t i = 0; i < k; i++, next++)
            {
                SIM_CHECK(!q->empty(), "wrong-size", "%zu elements were reported and only %zu are there", k, i);
                int v = q->front();
                SIM_CHECK(v == next, "wrong-order", "element %d was taken when it was the turn of %d, out of %d", v, next, n + more);
                q->pop();
            }
        }
        if (!k)
        {
            idle++;
            sim::sleep_ms(5);
        }
    }
    h::join(ts);
    SIM_CHECK(next == n + more, "lost", "%d elements were pushed, %d were taken", n + more, next);
    SIM_CHECK(q->both_empty() && q->empty(), "wrong-size", "the queue is not empty after everything was taken");
    delete q;
}

SCENARIO(Q02, capacity, 1)
{
    h::usual_faults();
    const int n = h::volume(70000), more = 1 + sim::choose(5);
    auto* q = new DBQueueWaitHandler<int>();
    sim::describe("%d elements in the consumer handler, and %d more", n, more);
    {
        sim::Quiet qq;
        for (int i = 0; i < n; i++)
        {
            q->produce(i);
        }
        SIM_CHECK((int)q->elements_ready_to_consume() == n, "wrong-ready", "%d elements were produced, %d are reported ready", n, (int)q->elements_ready_to_consume());
        for (int i = 0; i < n - 3; i++)
        {
            int v = q->consume();
            SIM_CHECK(v == i, "wrong-order", "element %d was consumed when it was the turn of %d, out of %d", v, i, n);
        }
    }
    static int taken;
    static uint64_t sum;
    taken = 0;
    sum = 0;
    Thrs ts;
    ts.emplace_back("producer", [=]
            {
                for (int i = 0; i < more; i++)
                {
                    q->produce(n + i);
                }
            });
    for (int c = 0; c < 2; c++)
    {
        ts.emplace_back("consumer", [=]
                {
                    try
                    {
                        for (;;)
                        {
                            int v = q->consume();
                            sim::Quiet qq;
                            taken++;
                            sum += v;
                        }
                    }
                    catch (const DisabledException&)
                    {
                    }
                });
    }
    AwakeReason r = q->wait_all_consumed();
    SIM_CHECK(r == AwakeReason::condition_met, "wrong-reason", "wait for everything to be consumed returned %s", rname(r));
    ts[0].join();
    sim::quiesce();
    {
        sim::Quiet qq;
        uint64_t want = 0;
        for (int i = n - 3; i < n + more; i++)
        {
            want += i;
        }
        SIM_CHECK(taken == more + 3 && sum == want, "lost", "of the last %d elements %d were consumed, or other ones", more + 3, taken);
        SIM_CHECK(q->elements_ready_to_consume() == 0, "wrong-ready", "%d elements are reported ready after all were consumed", (int)q->elements_ready_to_consume());
    }
    q->disable();
    h::join(ts);
    delete q;
}
