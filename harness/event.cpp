// E01..E05: event handlers (base, periodic, signal, multiple).
#include "h.hpp"
#include <csignal>
#include <cpp_utils/event/EventHandler.hpp>
#include <cpp_utils/event/MultipleEventHandler.hpp>
#include <cpp_utils/event/PeriodicEventHandler.hpp>
#include <cpp_utils/event/SignalEventHandler.hpp>
#include <cpp_utils/exception/InitializationException.hpp>

using namespace eprosima::utils;
using namespace eprosima::utils::event;
using h::Thr;
using h::Thrs;

// ---------------------------------------------------------------- E01

namespace {

using Cnt = h::Lin<int>;
Cnt* new_cnt()
{
    auto* l = new Cnt();
    l->key = [](const int& v)
            {
                return std::to_string(v);
            };
    return l;
}

} // namespace

//! Every event runs the callback once, alone, with its argument, and counts once
SCENARIO(E01, count, 16)
{
    h::usual_faults();
    int ne = 1 + sim::choose(3), nw = h::some(3, 16) - 1, nd = sim::chance(1, 2) ? 1 + sim::choose(2) : 0;
    bool resets = nd && sim::chance(1, 2);
    bool prewait = sim::chance(1, 3);
    sim::describe("events from %d threads, %d waiters%s, %d decrementers%s", ne, nw, prewait ? " already there" : "", nd, resets ? " (with resets)" : "");
    auto* e = new EventHandler<int>();
    auto* L = new_cnt();
    static bool inside;
    static std::multiset<int>* got;
    static std::multiset<int>* sent;
    got = new std::multiset<int>();
    sent = new std::multiset<int>();
    bool reads = sim::choose(2);
    e->set_callback([=](int x)
            {
                {
                    sim::Quiet q;
                    SIM_CHECK(!inside, "callback-overlap", "the callback runs in two threads at once");
                    inside = true;
                    got->insert(x);
                }
                if (reads)
                {
                    h::use(e->event_count());
                }
                h::pause(2);
                sim::Quiet q;
                inside = false;
            });
    struct WS { bool active; uint32_t n; };
    static WS w[24];
    Thrs ws, es;
    auto add_waiters = [&]()
            {
                for (int i = 0; i < nw; i++)
                {
                    uint32_t n = sim::choose(5);
                    ws.emplace_back("waiter", [=]
                            {
                                int reps = 1 + sim::choose(2);
                                for (int k = 0; k < reps; k++)
                                {
                                    uint32_t nn = n + k;
                                    size_t o = L->begin("wait_for_event(" + std::to_string(nn) + ")");
                                    {
                                        sim::Quiet q;
                                        w[i] = {true, nn};
                                    }
                                    bool r = e->wait_for_event(nn);
                                    sim::Quiet q;
                                    w[i].active = false;
                                    if (w[i].n == 99)
                                    {
                                        L->ops[o].ret = sim::stamp();
                                        L->ops[o].apply = [](int&)
                                        {
                                            return true;
                                        };
                                        return;   // released by the final unset
                                    }
                                    SIM_CHECK(r, "wait-gave-up", "wait for %u events returned false although the handler was never disabled", nn);
                                    L->end(o, [nn](int& v)
                                    {
                                        return v >= (int)nn;
                                    }, "true");
                                }
                            });
                }
            };
    if (prewait)
    {
        add_waiters();
        sim::quiesce();
    }
    static int args;
    for (int i = 0; i < ne; i++)
    {
        es.emplace_back("source", [=]
                {
                    int n = 1 + sim::choose(4);
                    for (int k = 0; k < n; k++)
                    {
                        int a;
                        {
                            sim::Quiet q;
                            a = 100 + args++;
                            sent->insert(a);
                        }
                        size_t o = L->begin("event");
                        e->simulate_event_occurred(a);
                        L->end(o, [](int& v)
                        {
                            v++;
                            return true;
                        }, "");
                        if (sim::choose(3) == 0)
                        {
                            size_t c = L->begin("event_count()");
                            int r = e->event_count();
                            L->end(c, [r](int& v)
                            {
                                return v == r;
                            }, std::to_string(r));
                        }
                        h::pause(3);
                    }
                });
    }
    for (int i = 0; i < nd; i++)
    {
        es.emplace_back("decrementer", [=]
                {
                    int n = 1 + sim::choose(3);
                    for (int k = 0; k < n; k++)
                    {
                        h::pause(3);
                        if (resets && sim::choose(2))
                        {
                            size_t o = L->begin("reset");
                            e->reset_event_count();
                            L->end(o, [](int& v)
                            {
                                v = 0;
                                return true;
                            }, "");
                        }
                        else
                        {
                            size_t o = L->begin("decrement");
                            e->decrement_event_count();
                            L->end(o, [](int& v)
                            {
                                v = std::max(0, v - 1);
                                return true;
                            }, "");
                        }
                    }
                });
    }
    if (!prewait)
    {
        add_waiters();
    }
    h::join(es);
    sim::quiesce();
    {
        sim::Quiet q;
        uint32_t c = e->event_count();
        size_t o = L->begin("final event_count()");
        L->end(o, [c](int& v)
                {
                    return v == (int)c;
                }, std::to_string(c));
        SIM_CHECK(*got == *sent, "event-lost-or-duplicated", "%zu events, %zu callback executions (or different arguments)", sent->size(), got->size());
        if (!nd)
        {
            SIM_CHECK(c == sent->size(), "count", "%u events counted, %zu occurred", c, sent->size());
        }
        for (int i = 0; i < nw; i++)
        {
            if (w[i].active && ws[i].on_cv())
            {
                sim::probe("waiter-still-needs-events");
                SIM_CHECK(w[i].n > c, "lost-wakeup", "a thread stays waiting for %u events although %u have been counted", w[i].n, c);
                w[i].n = 99;
            }
        }
    }
    // let the others return or block, then disable: everybody must leave
    for (int r = 0; r < 3; r++)
    {
        sim::quiesce();
        sim::sleep_ms(4);
        sim::Quiet q;
        for (int i = 0; i < nw; i++)
        {
            if (w[i].active)
            {
                w[i].n = 99;
            }
        }
    }
    {
        sim::Quiet q;
        for (int i = 0; i < nw; i++)
        {
            w[i].n = 99;
        }
    }
    e->unset_callback();
    h::join(ws);
    L->check(0, "event counter");
    delete e;
}

//! Many events before a few more
SCENARIO(E01, many, 1)
{
    h::usual_faults();
    static const int sizes[] = {10, 250, 1000, 65530};
    const int n = sizes[sim::choose(4)], more = 1 + sim::choose(10);
    auto* e = new EventHandler<int>();
    static int ran;
    ran = 0;
    e->set_callback([](int)
            {
                sim::Quiet q;
                ran++;
            });
    sim::describe("%d events and %d more", n, more);
    {
        sim::Quiet q;
        for (int i = 0; i < n; i++)
        {
            e->simulate_event_occurred(i);
        }
    }
    static bool back;
    back = false;
    Thr w("waiter", [=]
            {
                bool r = e->wait_for_event(n + more);
                sim::Quiet q;
                SIM_CHECK(r && ran >= n + more, "wait-too-early", "wait for %d events returned %d with %d", n + more, (int)r, ran);
                back = true;
            });
    for (int i = 0; i < more; i++)
    {
        e->simulate_event_occurred(i);
    }
    sim::quiesce();
    {
        sim::Quiet q;
        SIM_CHECK(ran == n + more, "event-lost-or-duplicated", "%d callbacks of %d events", ran, n + more);
        SIM_CHECK((int)e->event_count() == n + more, "count", "%u events counted, %d occurred", e->event_count(), n + more);
        SIM_CHECK(!w.on_cv(), "lost-wakeup", "a thread stays waiting for %d events, which have occurred", n + more);
    }
    for (int i = 0; i < 100 && !back; i++)
    {
        sim::sleep_ms(5);
    }
    w.join();
    delete e;
}

//! The last events, with threads that start to wait for more or for less just then
SCENARIO(E01, few, 8)
{
    h::usual_faults();
    int ne = 1 + sim::choose(2), nw = 2 + sim::choose(2), total = 0, early = sim::choose(nw + 1);
    auto* e = new EventHandler<int>();
    static int ran;
    ran = 0;
    e->set_callback([](int)
            {
                sim::Quiet q;
                ran++;
            });
    static struct { bool active; uint32_t n; } w[4];
    Thrs ws, es;
    auto add = [&](int i)
            {
                uint32_t n = 1 + sim::choose(3);
                ws.emplace_back("waiter", [=]
                        {
                            {
                                sim::Quiet q;
                                w[i] = {true, n};
                            }
                            bool r = e->wait_for_event(n);
                            sim::Quiet q;
                            w[i].active = false;
                            SIM_CHECK(!r || ran >= (int)n, "wait-too-early", "wait for %u events returned when only %d had occurred", n, ran);
                            SIM_CHECK(r || w[i].n == 99, "wait-gave-up", "wait for %u events returned false although the handler was never disabled", n);
                        });
            };
    sim::describe("%d threads with an event or two, %d waiters, %d of them before", ne, nw, early);
    for (int i = 0; i < early; i++)
    {
        add(i);
    }
    if (early)
    {
        sim::quiesce();
    }
    for (int i = 0; i < ne; i++)
    {
        int n = 1 + sim::choose(2);
        total += n;
        es.emplace_back("source", [=]
                {
                    for (int k = 0; k < n; k++)
                    {
                        e->simulate_event_occurred(k);
                    }
                });
    }
    for (int i = early; i < nw; i++)
    {
        add(i);
    }
    h::join(es);
    for (int r = 0; r < 3; r++)
    {
        sim::quiesce();
        sim::sleep_ms(4);
    }
    {
        sim::Quiet q;
        uint32_t c = e->event_count();
        SIM_CHECK((int)c == total && ran == total, "count", "%u events counted, callback executed %d times, %d occurred", c, ran, total);
        for (int i = 0; i < nw; i++)
        {
            if (w[i].active && ws[i].on_cv())
            {
                SIM_CHECK(w[i].n > c, "lost-wakeup", "a thread stays waiting for %u events although %u have been counted", w[i].n, c);
            }
            w[i].n = 99;
        }
    }
    e->unset_callback();
    h::join(ws);
    delete e;
}

//! Hundreds of events
SCENARIO(E01, bulk, 1)
{
    h::usual_faults();
    int ne = h::some(2, 8), nw = h::some(2, 12), per = 100 + sim::choose(300);
    auto* e = new EventHandler<int>();
    static int fired, started, got;
    static uint32_t last;
    e->set_callback([=](int)
            {
                sim::Quiet q;
                got++;
            });
    sim::describe("%d threads with %d events each, %d waiters", ne, per, nw);
    Thrs es, ws;
    for (int i = 0; i < nw; i++)
    {
        ws.emplace_back("waiter", [=]
                {
                    uint32_t n = 1 + sim::choose(ne * per);
                    if (sim::choose(3) == 0)
                    {
                        n = ne * per;
                    }
                    bool r = e->wait_for_event(n);
                    sim::Quiet q;
                    SIM_CHECK(r, "wait-gave-up", "wait for %u events returned false although the handler was never disabled", n);
                    SIM_CHECK(started >= (int)n, "wait-too-early", "wait for %u events returned when only %d had occurred", n, started);
                });
    }
    for (int i = 0; i < ne; i++)
    {
        es.emplace_back("source", [=]
                {
                    for (int k = 0; k < per; k++)
                    {
                        {
                            sim::Quiet q;
                            started++;
                        }
                        e->simulate_event_occurred(k);
                        {
                            sim::Quiet q;
                            fired++;
                        }
                        if (sim::choose(64) == 63)
                        {
                            int lo;
                            {
                                sim::Quiet q;
                                lo = fired;
                            }
                            int c = (int)e->event_count();
                            sim::Quiet q;
                            SIM_CHECK(c >= lo && c <= started, "count", "%d events counted, between %d and %d occurred", c, lo, started);
                        }
                    }
                });
    }
    h::join(es);
    h::join(ws);
    last = e->event_count();
    SIM_CHECK((int)last == ne * per && got == ne * per, "count", "%u events counted, callback executed %d times, %d occurred", last, got, ne * per);
    delete e;
}

// ---------------------------------------------------------------- E02

namespace {

//! A handler with an own source of events, written as the documentation asks for
class Source : public EventHandler<int>
{
public:

    int sets = 0, unsets = 0, changes = 0;   // guarded by the handler
    ~Source()
    {
        unset_callback();
    }
    void fire(int x)
    {
        event_occurred_(x);
    }

protected:

    void callback_set_nts_() noexcept override
    {
        sim::Quiet q;
        sets++;
        SIM_CHECK(sets == unsets + 1, "hooks", "enabling hook called while already enabled (%d/%d)", sets, unsets);
    }
    void callback_change_nts_() noexcept override
    {
        sim::Quiet q;
        changes++;
        SIM_CHECK(sets == unsets + 1, "hooks", "change hook called while disabled (%d/%d)", sets, unsets);
    }
    void callback_unset_nts_() noexcept override
    {
        sim::Quiet q;
        unsets++;
        SIM_CHECK(sets == unsets, "hooks", "disabling hook called while not enabled (%d/%d)", sets, unsets);
    }
};

} // namespace

//! Callbacks replaced, removed and set while events occur
SCENARIO(E02, lifecycle, 6)
{
    h::usual_faults();
    int ne = 1 + sim::choose(3), nc = 1 + sim::choose(2), nw = h::some(3, 16) - 1;
    bool init = sim::choose(3) != 0;
    bool dwait = sim::chance(1, 4);   // destroy with waiters inside
    sim::describe("callback lifecycle: %d sources, %d controllers, %d waiters, initially %s%s", ne, nc, nw, init ? "set" : "unset",
            dwait ? ", destroyed with waiters inside" : "");
    auto* s = new Source();
    auto* V = new h::Versions(0);
    static int runs, versions, depth;
    auto make = [=](int v) -> std::function<void(int)>
            {
                auto body = std::make_shared<std::string>(40 + v, (char)('a' + v % 26));
                return [=](int)
                {
                    uint64_t t0;
                    {
                        sim::Quiet q;
                        t0 = sim::stamp();
                        runs++;
                        depth++;
                        SIM_CHECK(depth == 1, "callback-overlap", "two callbacks of one handler run at once");
                        SIM_CHECK(V->could_be(t0, v), "stale-callback", "callback number %d runs although it has been %s", v, "replaced or removed");
                    }
                    h::pause(3);
                    SIM_CHECK(*body == std::string(40 + v, (char)('a' + v % 26)), "destroyed-callback", "the state of callback %d changed while it runs", v);
                    sim::Quiet q;
                    depth--;
                    SIM_CHECK(V->could_be(sim::stamp(), v), "callback-outlived-unset", "callback %d is still running after it was replaced or removed", v);
                };
            };
    auto set = [=]()
            {
                int v;
                {
                    sim::Quiet q;
                    v = ++versions;
                }
                std::function<void(int)> f = make(v);
                size_t o = V->begin(v);
                s->set_callback(f);
                V->end(o);
            };
    struct WS { bool active; uint64_t seq; bool sure; };
    static WS w[24];
    static uint64_t wseq;
    auto unset = [=](Thrs* ws)
            {
                uint64_t snap[24] = {};
                {
                    sim::Quiet q;
                    for (int i = 0; ws && i < (int)ws->size(); i++)
                    {
                        snap[i] = w[i].active && (*ws)[i].on_cv() ? w[i].seq : 0;
                    }
                }
                bool was = false;
                {
                    sim::Quiet q;
                    was = V->any(sim::stamp(), sim::stamp(), [](int v)
                            {
                                return v == 0;
                            });
                }
                size_t o = V->begin(0);
                s->unset_callback();
                V->end(o);
                sim::Quiet q;
                for (int i = 0; ws && i < (int)ws->size(); i++)
                {
                    if (snap[i] && !was)
                    {
                        sim::probe("unset-with-waiter-inside");
                        SIM_CHECK(!(w[i].active && w[i].seq == snap[i] && (*ws)[i].on_cv()), "unset-left-waiter",
                                "unset_callback returned and thread %d still waits for events", i);
                    }
                }
            };
    if (init)
    {
        set();
    }
    struct Ev { uint64_t s, e; };
    static std::vector<Ev>* evs;
    evs = new std::vector<Ev>();
    Thrs ws, es, cs;
    for (int i = 0; i < nw; i++)
    {
        ws.emplace_back("waiter", [=]
                {
                    int n = dwait ? 1 : 1 + sim::choose(2);
                    for (int k = 0; k < n; k++)
                    {
                        uint64_t t0;
                        {
                            sim::Quiet q;
                            w[i] = {true, ++wseq, false};
                            t0 = sim::stamp();
                        }
                        bool r = s->wait_for_event(1000);
                        sim::Quiet q;
                        w[i].active = false;
                        SIM_CHECK(!r, "wait-invented-events", "wait for 1000 events reported success");
                        SIM_CHECK(V->any(t0, sim::stamp(), [](int v)
                        {
                            return v == 0;
                        }), "wait-gave-up", "wait for events gave up although the handler was enabled all along");
                    }
                });
    }
    Thrs* wsp = &ws;
    for (int i = 0; i < ne; i++)
    {
        es.emplace_back("source", [=]
                {
                    int n = 1 + sim::choose(4);
                    for (int k = 0; k < n; k++)
                    {
                        h::pause(3);
                        uint64_t t0 = sim::stamp();
                        if (sim::choose(2))
                        {
                            s->fire(k);
                        }
                        else
                        {
                            s->simulate_event_occurred(k);
                        }
                        sim::Quiet q;
                        evs->push_back({t0, sim::stamp()});
                    }
                });
    }
    for (int i = 0; i < nc; i++)
    {
        cs.emplace_back("controller", [=]
                {
                    int n = 1 + sim::choose(4);
                    for (int k = 0; k < n; k++)
                    {
                        h::pause(3);
                        if (sim::choose(2))
                        {
                            set();
                        }
                        else
                        {
                            unset(wsp);
                        }
                    }
                });
    }
    h::join(cs);
    h::join(es);
    {
        sim::Quiet q;
        // an event that occurs entirely while enabled runs the callback, one entirely while disabled does not
        int lo = 0, hi = 0;
        for (auto& e : *evs)
        {
            bool can_on = V->any(e.s, e.e, [](int v)
                    {
                        return v != 0;
                    });
            bool can_off = V->any(e.s, e.e, [](int v)
                    {
                        return v == 0;
                    });
            lo += !can_off;
            hi += can_on;
        }
        SIM_CHECK(runs >= lo && runs <= hi, "event-lost-or-duplicated", "%d callback executions, expected between %d and %d", runs, lo, hi);
        SIM_CHECK((int)s->event_count() == runs, "count", "%u events counted, %d callbacks executed", s->event_count(), runs);
    }
    if (dwait)
    {
        set();
        for (int r = 0; r < 4 && h::unfinished(ws) > h::on_cv(ws); r++)
        {
            sim::quiesce();
        }
        sim::quiesce();
        if (h::on_cv(ws))
        {
            sim::probe("destroyed-with-waiter-inside");
        }
        if (sim::choose(2))
        {
            s->fire(7);     // those waiting are awake for a moment
        }
        size_t o = V->begin(0);
        sim::context("destroying an event handler with threads waiting in it");
        delete s;
        V->end(o);
        h::join(ws);
        return;
    }
    if (sim::choose(2))
    {
        set();
    }
    sim::quiesce();
    // release the waiters for good
    for (int r = 0; r < 8 && h::unfinished(ws); r++)
    {
        unset(wsp);
        sim::quiesce();
    }
    SIM_CHECK(h::unfinished(ws) == 0, "unset-left-waiter", "a thread still waits in a disabled handler");
    h::join(ws);
    unset(nullptr);
    SIM_CHECK(s->sets == s->unsets, "hooks", "enabled %d times, disabled %d times", s->sets, s->unsets);
    bool r = s->wait_for_event(1000);
    SIM_CHECK(!r, "wait-invented-events", "wait in a disabled handler reported 1000 events");
    delete s;
}

// ---------------------------------------------------------------- E03

SCENARIO(E03, periodic, 5)
{
    bool stalls = sim::chance(1, 3);
    h::usual_faults(stalls, true);
    if (sim::chance(1, 2))
    {
        sim::set_fault(sim::F_WALLJUMP, 1 + sim::choose(3));
    }
    uint32_t period = 1 + sim::choose(20);
    uint32_t most = period * 6 + 1;     // ms that a phase lasts
    if (sim::choose(32) == 31)
    {
        static const uint32_t periods[] = {1000, 65536, 3600000, 86400000, 3000000000u, 4294967295u};
        period = periods[sim::choose(6)];
        sim::long_limits();
        most = period > 700000000u ? 4294967295u : period * 6 + 1;
    }
    else if (sim::choose(32) == 31)
    {
        most = period * 200;
    }
    uint32_t busy = sim::chance(1, 3) ? 1 + sim::choose(15) : 0;
    int phases = 1 + sim::choose(3);
    bool own = sim::choose(2);
    int nw = sim::choose(2);
    sim::describe("periodic handler: period %u ms, callback takes %u ms, %d on/off phases, %d waiters%s", period, busy, phases, nw, stalls ? ", stalls" : "");
    static uint64_t set_at, last;
    static int runs, total;
    static bool inside;
    auto* V = new h::Versions(0);
    size_t vo = 0;
    auto cb = [=]()
            {
                {
                    sim::Quiet q;
                    uint64_t t = sim::now_ns();
                    SIM_CHECK(!inside, "callback-overlap", "periodic callback runs twice at once");
                    inside = true;
                    SIM_CHECK(V->could_be(sim::stamp(), 1), "callback-after-unset", "the periodic callback runs although the handler is disabled");
                    runs++;
                    total++;
                    SIM_CHECK(t - last >= period * 1000000ull, "early-event", "periodic event %.3f ms after the previous one, period %u ms", (t - last) / 1e6, period);
                    last = t;
                }
                if (busy)
                {
                    sim::sleep_ms(busy);
                }
                sim::Quiet q;
                inside = false;
                last = sim::now_ns();   // until the callback finishes the time does not start again
            };
    PeriodicEventHandler* p;
    auto start = [&]()
            {
                sim::Quiet q;
                set_at = last = sim::now_ns();
                runs = 0;
                vo = V->begin(1);
            };
    if (own)
    {
        start();
        p = new PeriodicEventHandler(cb, period);
        V->end(vo);
    }
    else
    {
        p = new PeriodicEventHandler(period);
    }
    for (int ph = 0; ph < phases; ph++)
    {
        if (!(own && ph == 0))
        {
            start();
            p->set_callback(cb);
            V->end(vo);
        }
        Thrs ws;
        uint32_t c0 = p->event_count();
        for (int i = 0; i < nw; i++)
        {
            uint32_t n = c0 + 1 + sim::choose(3);
            ws.emplace_back("waiter", [=]
                    {
                        uint64_t t0 = sim::stamp();
                        bool r = p->wait_for_event(n);
                        sim::Quiet q;
                        if (r)
                        {
                            sim::probe("waited-for-period");
                        }
                        SIM_CHECK(!r || total >= (int)n, "wait-invented-events", "wait for %u periodic events ended after %d", n, total);
                        SIM_CHECK(r || V->any(t0, sim::stamp(), [](int v)
                        {
                            return v == 0;
                        }), "wait-gave-up", "wait for periodic events gave up although enabled");
                    });
        }
        uint32_t dur = sim::choose(4) ? sim::choose(most) : 0;
        if (dur)
        {
            sim::sleep_ms(dur);
        }
        if (sim::chance(1, 4))
        {
            p->set_callback(cb);   // replacing the callback does not restart the thread
        }
        {
            sim::Quiet q;
            if (!stalls)
            {
                // one event per period, give or take the one just due
                uint64_t el = sim::now_ns() - set_at;
                int64_t want = (int64_t)(el / ((period + (uint64_t)busy) * 1000000ull + 1000000ull)) - 1;
                SIM_CHECK(runs >= want, "missing-events", "%d periodic events in %.3f ms with period %u ms and %u ms of callback", runs, el / 1e6, period, busy);
                if (runs > 2)
                {
                    sim::probe("several-periods");
                }
            }
        }
        uint64_t t0 = sim::now_ns();
        if (ph == phases - 1 && sim::choose(2))
        {
            // destruction disables, but whoever waits in it must have arrived: otherwise it would be the caller's race
            sim::quiesce();
            t0 = sim::now_ns();
            vo = V->begin(0);
            sim::context("destroying an enabled periodic handler");
            delete p;
            p = nullptr;
        }
        else
        {
            vo = V->begin(0);
            p->unset_callback();
        }
        V->end(vo);
        uint64_t t1 = sim::now_ns();
        {
            sim::Quiet q;
            SIM_CHECK(!inside, "callback-outlived-unset", "periodic callback still running after the handler was disabled");
            if (!stalls)
            {
                SIM_CHECK(t1 - t0 <= (busy + 1) * 1000000ull + 1000000ull, "slow-stop", "disabling the periodic handler took %.3f ms (period %u ms, callback %u ms)", (t1 - t0) / 1e6,
                        period, busy);
            }
        }
        h::join(ws);
        if (!p)
        {
            break;
        }
        int r0 = runs;
        sim::sleep_ms(period + 1 + sim::choose(period * 2));
        SIM_CHECK(runs == r0, "callback-after-unset", "periodic event after the handler was disabled");
    }
    if (p)
    {
        SIM_CHECK((int)p->event_count() == total, "count", "%u counted, %d occurred", p->event_count(), total);
        delete p;
        p = nullptr;
    }
    int r0 = runs;
    sim::sleep_ms(period * 2);
    SIM_CHECK(runs == r0, "callback-after-unset", "periodic event after the handler was destroyed");
    try
    {
        PeriodicEventHandler z(0);
        sim::violation("zero-period", "a periodic handler with period 0 was created");
    }
    catch (const InitializationException&)
    {
    }
}

//! Several threads enable and disable one periodic handler
SCENARIO(E03, toggles, 2)
{
    h::usual_faults();
    uint32_t period = 1 + sim::choose(5);
    int nc = 2 + sim::choose(2);
    sim::describe("periodic handler, period %u ms, enabled and disabled by %d threads", period, nc);
    auto* p = new PeriodicEventHandler(period);
    auto* V = new h::Versions(0);
    static int runs;
    auto cb = [=]()
            {
                sim::Quiet q;
                runs++;
                SIM_CHECK(V->could_be(sim::stamp(), 1), "callback-after-unset", "periodic callback while disabled");
            };
    Thrs cs;
    for (int i = 0; i < nc; i++)
    {
        cs.emplace_back("controller", [=]
                {
                    int n = 1 + sim::choose(4);
                    for (int k = 0; k < n; k++)
                    {
                        bool on = sim::choose(2);
                        size_t o = V->begin(on);
                        if (on)
                        {
                            p->set_callback(cb);
                        }
                        else
                        {
                            p->unset_callback();
                        }
                        V->end(o);
                        h::pause(8);
                    }
                });
    }
    h::join(cs);
    size_t o = V->begin(1);
    p->set_callback(cb);
    V->end(o);
    int r0;
    {
        sim::Quiet q;
        r0 = runs;
    }
    sim::set_fault(sim::F_STALL, 0);
    sim::sleep_ms(period * 4 + 4);
    {
        sim::Quiet q;
        SIM_CHECK(runs >= r0 + 2, "missing-events", "%d events in %u ms after the handler was enabled, period %u ms", runs - r0, period * 4 + 4, period);
    }
    o = V->begin(0);
    delete p;
    V->end(o);
    sim::sleep_ms(period * 2);
}

// ---------------------------------------------------------------- E04

namespace {

struct SigRec { uint64_t s, e; int sig; };

} // namespace

SCENARIO(E04, signals, 6)
{
    sim::allow_live_threads();
    h::usual_faults(true, true);
    int nh = h::some(3, 40), ns = 1 + sim::choose(6);
    if (sim::choose(40) == 39)
    {
        ns = 20 + sim::choose(280);
    }
    bool toggle = sim::chance(1, 3);
    bool slow = sim::chance(1, 3);
    int senders = 1 + sim::choose(2);
    bool gaps = sim::choose(2), again = sim::chance(1, 4);
    static int raised;
    raised = 0;
    sim::describe("%d handlers for two signals, %d signals from %d senders%s%s", nh, ns * senders, senders, toggle ? ", handlers disabled and enabled meanwhile" : "", slow ? ", slow callbacks" : "");
    static int sent[2], run[48][2], seen[48];
    static bool inside[48];
    static int kind[48];
    using H1 = SignalEventHandler<Signal::sigusr1>;
    using H2 = SignalEventHandler<Signal::sigusr2>;
    struct Any
    {
        std::unique_ptr<H1> a;
        std::unique_ptr<H2> b;
    };
    auto* hs = new Any[48];
    static h::Versions* V[48];
    auto cb = [=](int i)
            {
                return [=](Signal s)
                {
                    {
                        sim::Quiet q;
                        int k = s == Signal::sigusr1 ? 0 : 1;
                        SIM_CHECK(k == kind[i], "wrong-signal", "the callback of a handler received another signal (%d)", (int)s);
                        SIM_CHECK(!inside[i], "callback-overlap", "a signal callback runs twice at once");
                        SIM_CHECK(V[i]->could_be(sim::stamp(), 1), "callback-after-unset", "signal callback of a disabled handler");
                        inside[i] = true;
                        run[i][0]++;
                    }
                    if (slow)
                    {
                        sim::sleep_ms(2);
                    }
                    if (again && sim::choose(3) == 0)
                    {
                        // a callback that raises a signal itself
                        int which = sim::choose(2);
                        bool ok;
                        {
                            sim::Quiet q;
                            ok = raised < 4 && sim::signal_handled(which ? SIGUSR2 : SIGUSR1);
                            raised += ok;
                            sent[which] += ok;
                        }
                        if (ok)
                        {
                            sim::post_signal(which ? SIGUSR2 : SIGUSR1);
                        }
                    }
                    sim::Quiet q;
                    inside[i] = false;
                };
            };
    for (int i = 0; i < nh; i++)
    {
        V[i] = new h::Versions(1);
        kind[i] = sim::choose(2);
        if (kind[i] == 0)
        {
            hs[i].a.reset(new H1(cb(i)));
        }
        else
        {
            hs[i].b.reset(new H2(cb(i)));
        }
        SIM_CHECK(sim::signal_handled(kind[i] ? SIGUSR2 : SIGUSR1), "signal-not-handled", "a handler is enabled and the process does not handle its signal");
    }
    static int nwait_done;
    Thrs ss, ts, ws;
    for (int i = 0; i < nh && !toggle; i++)
    {
        if (sim::choose(3) == 0)
        {
            ws.emplace_back("waiter", [=]
                    {
                        bool r = kind[i] == 0 ? hs[i].a->wait_for_event(1) : hs[i].b->wait_for_event(1);
                        sim::Quiet q;
                        nwait_done += r;
                    });
        }
    }
    for (int i = 0; i < senders; i++)
    {
        ss.emplace_back("sender", [=]
                {
                    for (int k = 0; k < ns; k++)
                    {
                        if (gaps || k == 0)
                        {
                            h::pause(5);
                        }
                        int which = sim::choose(2);
                        int sig = which ? SIGUSR2 : SIGUSR1;
                        {
                            sim::Quiet q;
                            if (!sim::signal_handled(sig))
                            {
                                continue;
                            }
                            sent[which]++;
                        }
                        sim::post_signal(sig);
                    }
                });
    }
    if (toggle)
    {
        ts.emplace_back("controller", [=]
                {
                    int n = 1 + sim::choose(4);
                    for (int k = 0; k < n; k++)
                    {
                        int i = sim::choose(nh);
                        h::pause(4);
                        size_t o = V[i]->begin(0);
                        kind[i] == 0 ? hs[i].a->unset_callback() : hs[i].b->unset_callback();
                        V[i]->end(o);
                        h::pause(4);
                        o = V[i]->begin(1);
                        kind[i] == 0 ? hs[i].a->set_callback(cb(i)) : hs[i].b->set_callback(cb(i));
                        V[i]->end(o);
                    }
                });
    }
    h::join(ss);
    h::join(ts);
    sim::set_fault(sim::F_STALL, 0);
    // every signal has been posted: a second is plenty for the handling thread, apart from the time of the callbacks
    sim::sleep_ms(1000 + (slow ? (ns * senders + 4) * nh * 3 : 0) + (again ? 1000 : 0));
    {
        sim::Quiet q;
        again = false;
        raised = 100;
        for (int k = 0; k < 2; k++)
        {
            int sig = k ? SIGUSR2 : SIGUSR1;
            if (sim::signals_pending(sig))
            {
                sim::probe("signal-never-delivered");
                return;
            }
            sent[k] = (int)sim::signals_delivered(sig);
        }
        for (int i = 0; i < nh; i++)
        {
            uint32_t c = kind[i] == 0 ? hs[i].a->event_count() : hs[i].b->event_count();
            SIM_CHECK((int)c == run[i][0], "count", "handler counted %u events, its callback ran %d times", c, run[i][0]);
            if (!toggle)
            {
                SIM_CHECK(run[i][0] >= sent[kind[i]], "lost-signal", "%d of %d signals handled one second after the last one was delivered", run[i][0], sent[kind[i]]);
            }
            SIM_CHECK(run[i][0] <= sent[kind[i]], "duplicated-signal", "%d callbacks for %d signals", run[i][0], sent[kind[i]]);
            seen[i] = run[i][0];
        }
        if (sent[0] && sent[1])
        {
            sim::probe("both-signals-delivered");
        }
    }
    // disabled handlers hear nothing
    for (int i = 0; i < nh; i++)
    {
        size_t o = V[i]->begin(0);
        if (sim::choose(2) || !ws.empty())      // those who wait may be about to use it
        {
            kind[i] == 0 ? hs[i].a->unset_callback() : hs[i].b->unset_callback();
        }
        else
        {
            hs[i].a.reset();
            hs[i].b.reset();
        }
        V[i]->end(o);
    }
    if (sim::signal_handled(SIGUSR1))
    {
        sim::post_signal(SIGUSR1);
    }
    if (sim::signal_handled(SIGUSR2))
    {
        sim::post_signal(SIGUSR2);
    }
    sim::sleep_ms(1000);
    {
        sim::Quiet q;
        for (int i = 0; i < nh; i++)
        {
            SIM_CHECK(run[i][0] == seen[i], "callback-after-unset", "signal callback ran after the handler was disabled");
        }
        SIM_CHECK(h::unfinished(ws) == 0, "unset-left-waiter", "a thread still waits for a signal in a disabled handler");
    }
    h::join(ws);
    for (int i = 0; i < nh; i++)
    {
        hs[i].a.reset();
        hs[i].b.reset();
    }
}

//! One handler for each kind of signal at most, with a callback or with none: each hears its own kind, all of it, and nothing else
SCENARIO(E04, kinds, 1)
{
    sim::allow_live_threads();
    h::usual_faults(true, true);
    static const int sigs[4] = {SIGINT, SIGTERM, SIGUSR1, SIGUSR2};
    static const Signal vals[4] = {Signal::sigint, Signal::sigterm, Signal::sigusr1, Signal::sigusr2};
    static int ran[4], sent[4];
    static bool plain[4], there[4], left[4];
    memset(ran, 0, sizeof ran);
    memset(sent, 0, sizeof sent);
    memset(left, 0, sizeof left);
    static std::unique_ptr<SignalEventHandler<Signal::sigint>> h0;
    static std::unique_ptr<SignalEventHandler<Signal::sigterm>> h1;
    static std::unique_ptr<SignalEventHandler<Signal::sigusr1>> h2;
    static std::unique_ptr<SignalEventHandler<Signal::sigusr2>> h3;
    auto cb = [](int i)
            {
                return [i](Signal s)
                {
                    sim::Quiet q;
                    SIM_CHECK(s == vals[i], "wrong-signal", "the handler of signal %d heard signal %d", (int)vals[i], (int)s);
                    SIM_CHECK(!left[i], "callback-after-unset", "signal callback of a destroyed handler");
                    ran[i]++;
                };
            };
    for (int i = 0; i < 4; i++)
    {
        there[i] = sim::choose(4) != 0;
        plain[i] = sim::choose(4) == 0;
    }
    there[sim::choose(4)] = true;
    sim::describe("handlers for%s%s%s%s", there[0] ? " sigint" : "", there[1] ? " sigterm" : "", there[2] ? " sigusr1" : "", there[3] ? " sigusr2" : "");
    auto make = [&](auto& p, int i)
            {
                using H = typename std::remove_reference_t<decltype(p)>::element_type;
                if (there[i])
                {
                    p.reset(plain[i] ? new H() : new H(cb(i)));
                    SIM_CHECK(sim::signal_handled(sigs[i]), "signal-not-handled", "a handler is enabled and the process does not handle its signal");
                }
            };
    make(h0, 0);
    make(h1, 1);
    make(h2, 2);
    make(h3, 3);
    auto count = [](int i)
            {
                return i == 0 ? h0->event_count() : i == 1 ? h1->event_count() : i == 2 ? h2->event_count() : h3->event_count();
            };
    int rounds = 1 + sim::choose(3);
    for (int r = 0; r < rounds; r++)
    {
        int n = 1 + sim::choose(8);
        Thrs ss;
        for (int k = 0; k < 2; k++)
        {
            ss.emplace_back("sender", [n]
                    {
                        for (int j = 0; j < n; j++)
                        {
                            int i = sim::choose(4);
                            {
                                sim::Quiet q;
                                if (!there[i] || !sim::signal_handled(sigs[i]))
                                {
                                    continue;
                                }
                                sent[i]++;
                            }
                            sim::post_signal(sigs[i]);
                            if (sim::choose(2))
                            {
                                h::pause(5);
                            }
                        }
                    });
        }
        h::join(ss);
        sim::set_fault(sim::F_STALL, 0);
        sim::sleep_ms(1000);
        {
            sim::Quiet q;
            for (int i = 0; i < 4; i++)
            {
                if (sim::signals_pending(sigs[i]))
                {
                    sim::probe("signal-never-delivered");
                    return;
                }
                // those merged while undelivered count once
                sent[i] = (int)sim::signals_delivered(sigs[i]);
            }
            for (int i = 0; i < 4; i++)
            {
                if (!there[i])
                {
                    continue;
                }
                int c = (int)count(i);
                SIM_CHECK(c >= sent[i], "lost-signal", "%d of %d signals %d handled one second after the last one was delivered", c, sent[i], sigs[i]);
                SIM_CHECK(c <= sent[i], "duplicated-signal", "%d events for %d signals %d", c, sent[i], sigs[i]);
                SIM_CHECK(plain[i] || ran[i] == c, "count", "handler counted %d events, its callback ran %d times", c, ran[i]);
            }
        }
        // between rounds one of them may leave: the others are not concerned
        int i = sim::choose(8);
        if (i < 4 && there[i])
        {
            i == 0 ? h0.reset() : i == 1 ? h1.reset() : i == 2 ? h2.reset() : h3.reset();
            sim::Quiet q;
            there[i] = false;
            left[i] = true;
            sim::probe("one-kind-left");
        }
        sim::set_fault(sim::F_STALL, 20);
    }
    h0.reset();
    h1.reset();
    h2.reset();
    h3.reset();
}

//! A burst of signals while the callback of the first one is still running
SCENARIO(E04, burst, 1)
{
    sim::allow_live_threads();
    h::usual_faults(true, true);
    static const int sizes[] = {5, 20, 258, 300};
    const int n = sizes[sim::choose(4)] + sim::choose(10);
    static volatile bool go;
    static int ran;
    go = false;
    ran = 0;
    sim::describe("%d signals while a callback runs", n);
    auto* x = new SignalEventHandler<Signal::sigusr1>([](Signal)
                    {
                        for (bool first = true; first;)
                        {
                            {
                                sim::Quiet q;
                                first = !go;
                                ran += go;
                            }
                            if (first)
                            {
                                sim::sleep_ms(5);
                            }
                        }
                    });
    for (int k = 0; k < n; k++)
    {
        sim::post_signal(SIGUSR1);
        for (int r = 0; r < 1000 && sim::signals_pending(SIGUSR1) > (k == n - 1 ? 0 : 16); r++)
        {
            sim::sleep_ms(1);
        }
    }
    if (sim::signals_pending(SIGUSR1))
    {
        sim::probe("signal-never-delivered");
        x->unset_callback();
        return;
    }
    {
        sim::Quiet q;
        go = true;
    }
    sim::set_fault(sim::F_STALL, 0);
    sim::sleep_ms(2000);
    {
        sim::Quiet q;
        int sent = (int)sim::signals_delivered(SIGUSR1);
        SIM_CHECK(ran == sent, ran < sent ? "lost-signal" : "duplicated-signal", "%d of %d signals of a burst were handled", ran, sent);
        SIM_CHECK((int)x->event_count() == sent, "count", "%u events counted of %d signals", x->event_count(), sent);
    }
    delete x;
}

//! The manager's own registration interface
SCENARIO(E04, manager, 2)
{
    h::usual_faults();
    sim::allow_live_threads();
    auto& m = SignalManager<Signal::sigterm>::get_instance();
    int nt = h::some(3, 16);
    sim::describe("signal manager: %d threads register and unregister", nt);
    static std::set<uint32_t>* ids;
    ids = new std::set<uint32_t>();
    static int runs;
    Thrs ts;
    for (int i = 0; i < nt; i++)
    {
        ts.emplace_back("registrar", [=, &m]
                {
                    int n = 1 + sim::choose(3);
                    for (int k = 0; k < n; k++)
                    {
                        auto body = std::make_shared<std::string>(50, 'x');
                        auto* on = new bool(true);
                        UniqueCallbackId id = SignalManager<Signal::sigterm>::get_instance().register_callback([=]()
                        {
                            sim::Quiet q;
                            SIM_CHECK(*on, "callback-after-unset", "callback called after it was unregistered");
                            SIM_CHECK(body->size() == 50, "destroyed-callback", "callback state gone");
                            runs++;
                        });
                        {
                            sim::Quiet q;
                            SIM_CHECK(ids->insert(id).second, "duplicated-id", "two registrations got the same id %u", id);
                        }
                        if (sim::choose(2))
                        {
                            sim::post_signal(SIGTERM);
                        }
                        h::pause(3);
                        m.unregister_callback(id);
                        {
                            sim::Quiet q;
                            *on = false;
                        }
                        if (sim::choose(3) == 0)
                        {
                            try
                            {
                                m.unregister_callback(id);
                                sim::violation("unregister-twice", "unregistering twice was accepted");
                            }
                            catch (const InconsistencyException&)
                            {
                            }
                        }
                    }
                });
    }
    h::join(ts);
    sim::sleep_ms(500);
    // the program ends: the thread of the manager must be released
    sim::context("the program does not end");
    sim::run_exit_handlers();
    sim::probe("process-ended");
}

// ---------------------------------------------------------------- E05

namespace {

//! An inner handler whose events come from an own thread, alive while a callback is set
class Ticker : public EventHandler<int>
{
public:

    Ticker(int n, uint32_t ms, int* fired)
        : n_(n)
        , ms_(ms)
        , fired_(fired)
    {
    }
    ~Ticker()
    {
        unset_callback();
    }

protected:

    void callback_set_nts_() noexcept override
    {
        {
            sim::Quiet q;
            stop_ = false;
        }
        t_ = std::thread([this]
                        {
                            sim::name("ticker");
                            for (int i = 0; i < n_; i++)
                            {
                                {
                                    sim::Quiet q;
                                    if (stop_)
                                    {
                                        return;
                                    }
                                    ++*fired_;
                                }
                                event_occurred_(i);
                                if (ms_)
                                {
                                    sim::sleep_ms(ms_);
                                }
                            }
                        });
    }
    void callback_unset_nts_() noexcept override
    {
        {
            sim::Quiet q;
            stop_ = true;
        }
        t_.join();
    }
    std::thread t_;
    bool stop_ = false;
    int n_;
    uint32_t ms_;
    int* fired_;
};

} // namespace

SCENARIO(E05, multiple, 4)
{
    h::usual_faults();
    sim::allow_live_threads();
    int nh = h::some(4, 20);
    bool early = sim::choose(2);
    int nw = sim::choose(3);
    bool defcb = sim::chance(1, 4);
    sim::describe("multiple handler over %d handlers, %d waiters, %s", nh, nw, early ? "destroyed while events occur" : "left to finish");
    static int fired, runs;
    static bool inside, gone, counting;   // counting: between the callback and its event being counted, or later
    auto* V = new h::Versions(1);
    auto cb = []()
            {
                {
                    sim::Quiet q;
                    SIM_CHECK(!gone, "callback-after-destroy", "callback of a destroyed handler");
                    SIM_CHECK(!inside, "callback-overlap", "two callbacks of one handler at once");
                    inside = true;
                    runs++;
                }
                h::pause(1);
                sim::Quiet q;
                inside = false;
                counting = true;
            };
    auto* m = defcb ? new MultipleEventHandler() : new MultipleEventHandler(cb);
    int periodics = 0, signals = 0;
    auto most = [&]()   // events that can have happened inside
            {
                int n = fired + signals * (int)sim::signals_delivered(SIGUSR1);
                return periodics ? 1 << 20 : n;
            };
    Thrs ws;
    for (int i = 0; i < nw; i++)
    {
        uint32_t n = 1 + sim::choose(6);
        ws.emplace_back("waiter", [=, &most]
                {
                    uint64_t t0 = sim::stamp();
                    bool r = m->wait_for_event(n);
                    sim::Quiet q;
                    SIM_CHECK(!r || most() >= (int)n, "wait-invented-events", "wait for %u events succeeded after %d", n, most());
                    SIM_CHECK(r || V->any(t0, sim::stamp(), [](int v)
                    {
                        return v == 0;
                    }), "wait-gave-up", "wait gave up although the handler was enabled");
                });
    }
    for (int i = 0; i < nh; i++)
    {
        switch (sim::choose(5))
        {
            case 0:
            {
                {
                    sim::Quiet q;
                    periodics++;
                }
                m->register_event_handler<EventHandler<>>(std::unique_ptr<EventHandler<>>(new PeriodicEventHandler(7 + i)));
                break;
            }
            case 1:
            {
                auto* s = new SignalEventHandler<Signal::sigusr1>([](Signal)
                            {
                                sim::violation("old-callback", "a registered handler still uses its previous callback");
                            });
                m->register_event_handler<EventHandler<Signal>, Signal>(std::unique_ptr<EventHandler<Signal>>(s));
                sim::Quiet q;
                signals++;
                break;
            }
            default:
                m->register_event_handler<EventHandler<int>, int>(std::unique_ptr<EventHandler<int>>(new Ticker(1 + sim::choose(4), sim::choose(3), &fired)));
                break;
        }
        h::pause(2);
    }
    int posted = 0;
    if (signals)
    {
        posted = sim::choose(3);
        for (int i = 0; i < posted; i++)
        {
            sim::post_signal(SIGUSR1);
            h::pause(2);
        }
    }
    if (early)
    {
        h::pause(3);
        // destroying under a thread that is only about to wait would be the caller's mistake
        sim::quiesce();
    }
    else
    {
        sim::set_fault(sim::F_STALL, 0);
        sim::sleep_ms(600);
        sim::quiesce();
        sim::Quiet q;
        if (sim::signals_pending(SIGUSR1) == 0)
        {
            int lo = fired + signals * (int)sim::signals_delivered(SIGUSR1);
            int c = (int)m->event_count();
            SIM_CHECK(periodics ? c > lo : c == lo, "event-lost-or-duplicated", "%d events of the multiple handler for %d events inside%s", c, lo,
                    periodics ? " and periodic ones" : "");
            SIM_CHECK(defcb || runs == c || ((inside || counting) && runs == c + 1 && periodics), "event-lost-or-duplicated", "%d callback executions for %d counted events", runs, c);
            if (fired > 3)
            {
                sim::probe("several-inner-events");
            }
        }
    }
    sim::context("destroying a multiple handler");
    size_t o = V->begin(0);
    delete m;
    V->end(o);
    {
        sim::Quiet q;
        gone = true;
        SIM_CHECK(!inside, "callback-outlived-destroy", "callback still running after the handler was destroyed");
    }
    sim::sleep_ms(30);
    h::join(ws);
}

// ---------------------------------------------------------------- objects that have nothing to do with each other

namespace {

struct OwnEvents
{
    EventHandler<int>* e = new EventHandler<int>();
    bool on = false;
    uint32_t count = 0;
    int runs = 0, last = 0, which = 0, cbs = 0;   // of the callbacks
    ~OwnEvents()
    {
        if (on)
        {
            e->unset_callback();
        }
        delete e;
    }
    void set()
    {
        int me = ++cbs;
        e->set_callback([this, me](int x)
                {
                    runs++;
                    last = x;
                    which = me;
                });
        on = true;
    }
    void step()
    {
        switch (sim::choose(7))
        {
            case 0:
                set();
                break;
            case 1:
                e->unset_callback();
                on = false;
                break;
            case 2:
            case 3:
            {
                int x = sim::choose(1000), r0 = runs;
                e->simulate_event_occurred(x);
                count += on;
                SIM_CHECK(runs == r0 + on && (!on || (last == x && which == cbs)), "not-independent",
                        "an event of a handler that is %s ran its callback %d times (argument %d for %d, callback %d of %d)", on ? "enabled" : "disabled", runs - r0, last, x, which, cbs);
                break;
            }
            case 4:
                if (sim::choose(2))
                {
                    e->reset_event_count();
                    count = 0;
                }
                else
                {
                    e->decrement_event_count();
                    count -= count > 0;
                }
                break;
            case 5:
            {
                uint32_t n = on ? sim::choose(count + 1) : sim::choose(5);
                bool r = e->wait_for_event(n);
                SIM_CHECK(r == (count >= n), "not-independent", "wait for %u events of a handler that is %s and has had %u: %d", n, on ? "enabled" : "disabled", count, r);
                break;
            }
            default:
            {
                uint32_t c = e->event_count();
                SIM_CHECK(c == count, "not-independent", "%u events counted by a handler that has had %u", c, count);
            }
        }
    }
};

//! Threads wait in one handler for long while others use, disable and destroy theirs
void events_apart(bool bystander)
{
    h::usual_faults();
    auto* e = new EventHandler<int>();
    static bool released;
    Thrs ws;
    if (bystander)
    {
        e->set_callback([](int)
                {
                    sim::violation("not-independent", "the callback of a handler without events is executed");
                });
        for (int i = 1 + sim::choose(2); i > 0; i--)
        {
            ws.emplace_back("bystander", [=]
                    {
                        bool r = e->wait_for_event();
                        sim::Quiet q;
                        SIM_CHECK(!r && released, "not-independent", "a thread waiting for an event of a handler without events came back: %d", r);
                    });
        }
    }
    sim::context("disabling a handler while threads wait in another one");
    h::apart<OwnEvents>("event handlers");
    sim::quiesce();
    {
        sim::Quiet q;
        released = true;
    }
    e->unset_callback();
    h::join(ws);
    delete e;
}

struct OwnPeriodic
{
    static bool& stalls()
    {
        static bool s;
        return s;
    }
    uint32_t period = 1 + sim::choose(20);
    bool on = false, inside = false;
    int runs = 0, total = 0;
    uint64_t since = 0, last = 0;
    PeriodicEventHandler* p;
    OwnPeriodic()
        : p(new PeriodicEventHandler(period))
    {
    }
    ~OwnPeriodic()
    {
        delete p;
        sim::Quiet q;
        SIM_CHECK(!inside, "not-independent", "periodic callback still running after the handler was destroyed");
    }
    void begin(bool v)
    {
        sim::Quiet q;
        on = v;
        runs = 0;
        since = last = sim::now_ns();
    }
    void step()
    {
        switch (sim::choose(4))
        {
            case 0:
                if (on)
                {
                    p->unset_callback();
                    sim::Quiet q;
                    SIM_CHECK(!inside, "not-independent", "periodic callback still running after the handler was disabled");
                    on = false;
                }
                else
                {
                    begin(true);
                    p->set_callback([this]()
                            {
                                {
                                    sim::Quiet q;
                                    uint64_t t = sim::now_ns();
                                    SIM_CHECK(!inside, "not-independent", "periodic callback runs twice at once");
                                    SIM_CHECK(on, "not-independent", "periodic callback of a disabled handler");
                                    SIM_CHECK(t - last >= period * 1000000ull, "not-independent", "periodic event %.3f ms after the previous one, period %u ms", (t - last) / 1e6,
                                            period);
                                    inside = true;
                                    runs++;
                                    total++;
                                }
                                h::pause(1);
                                sim::Quiet q;
                                last = sim::now_ns();
                                inside = false;
                            });
                }
                break;
            default:
                sim::sleep_ms(1 + sim::choose(period * 4));
                sim::Quiet q;
                if (on && !stalls())
                {
                    int64_t want = (int64_t)((sim::now_ns() - since) / (period * 1000000ull + 3000000ull)) - 1;
                    SIM_CHECK(runs >= want, "not-independent", "%d periodic events in %.3f ms with period %u ms", runs, (sim::now_ns() - since) / 1e6, period);
                }
                int c = p->event_count();
                SIM_CHECK(c == total || c == total - 1, "not-independent", "%d events counted by a periodic handler that has had %d", c, total);
        }
    }
};

struct OwnMultiple
{
    std::vector<EventHandler<int>*> in;
    int count = 0, runs = 0;
    MultipleEventHandler* m;
    OwnMultiple()
    {
        m = new MultipleEventHandler([this]()
                        {
                            runs++;
                        });
    }
    ~OwnMultiple()
    {
        delete m;
    }
    void step()
    {
        if (in.empty() || sim::choose(4) == 0)
        {
            in.push_back(new EventHandler<int>());
            m->register_event_handler<EventHandler<int>, int>(std::unique_ptr<EventHandler<int>>(in.back()));
        }
        else if (sim::choose(3))
        {
            in[sim::choose(in.size())]->simulate_event_occurred(3);
            count++;
        }
        int c = m->event_count();
        SIM_CHECK(c == count && runs == count, "not-independent", "%d events inside a multiple handler, %d counted, %d callback executions", count, c, runs);
    }
};

} // namespace

SCENARIO(E01, apart, 4)
{
    events_apart(sim::choose(3) == 0);
}
SCENARIO(E02, bystander, 1)
{
    events_apart(true);
}
SCENARIO(E03, apart, 1)
{
    OwnPeriodic::stalls() = sim::chance(1, 3);
    h::usual_faults(OwnPeriodic::stalls(), true);
    h::apart<OwnPeriodic>("periodic handlers");
}
SCENARIO(E05, apart, 1)
{
    h::usual_faults();
    h::apart<OwnMultiple>("multiple handlers");
}

// ---------------------------------------------------------------- scenarios that check several properties

ALSO(E01, E02, lifecycle, 2, "callback-overlap count event-lost-or-duplicated wait-invented-events");

//! A callback that waits for an event of another handler
SCENARIO(E01, nested, 1)
{
    h::usual_faults();
    int n = 2 + sim::choose(2), ne = 1 + sim::choose(2);
    sim::describe("callbacks of a chain of %d handlers wait for an event of the next one", n);
    static EventHandler<int>* hs[4];
    static int runs[4];
    for (int i = 0; i < n; i++)
    {
        runs[i] = 0;
        hs[i] = new EventHandler<int>();
    }
    for (int i = 0; i < n; i++)
    {
        hs[i]->set_callback([=](int)
                {
                    if (i + 1 < n)
                    {
                        bool r = hs[i + 1]->wait_for_event(ne);
                        SIM_CHECK(r, "wait-gave-up", "a wait for events gave up although the handler is enabled");
                    }
                    sim::Quiet q;
                    runs[i]++;
                });
    }
    sim::context("callbacks that wait for events of other handlers");
    Thrs ts;
    for (int i = 0; i < n; i++)
    {
        ts.emplace_back("source", [=]
                {
                    for (int k = 0; k < ne; k++)
                    {
                        h::pause(3);
                        hs[i]->simulate_event_occurred(k);
                    }
                });
    }
    h::join(ts);
    for (int i = 0; i < n; i++)
    {
        SIM_CHECK(runs[i] == ne && (int)hs[i]->event_count() == ne, "event-lost-or-duplicated", "%d events, %d callback executions, %u counted", ne, runs[i], hs[i]->event_count());
        hs[i]->unset_callback();
    }
    for (int i = 0; i < n; i++)
    {
        delete hs[i];
    }
}

//! A periodic callback that enables and disables another periodic handler
SCENARIO(E03, nested, 1)
{
    h::usual_faults();
    uint32_t pa = 1 + sim::choose(10), pb = 1 + sim::choose(10);
    sim::describe("the callback of a periodic handler (%u ms) enables and disables another one (%u ms)", pa, pb);
    static int a, b;
    static bool on;
    auto* B = new PeriodicEventHandler(pb);
    auto* A = new PeriodicEventHandler([=]()
                    {
                        bool was = on;
                        if (was)
                        {
                            B->unset_callback();
                            sim::Quiet q;
                            on = false;
                        }
                        else
                        {
                            {
                                sim::Quiet q;
                                on = true;
                            }
                            B->set_callback([]()
                            {
                                sim::Quiet q;
                                SIM_CHECK(on, "callback-after-unset", "the periodic callback runs although the handler is disabled");
                                b++;
                            });
                        }
                        sim::Quiet q;
                        a++;
                    }, pa);
    sim::context("a periodic callback that enables and disables another periodic handler");
    for (int k = 0; k < 20 && a < 4; k++)
    {
        sim::sleep_ms(pa * 4);
    }
    SIM_CHECK(a >= 1, "missing-events", "no periodic event in %u periods", 80u);
    delete A;
    delete B;
    sim::Quiet q;
    if (b)
    {
        sim::probe("periodic-set-by-periodic");
    }
}

//! Callbacks that use the handler they belong to: they raise further events of it, count, decrement
SCENARIO(E01, within, 2)
{
    h::usual_faults();
    int ne = 1 + h::some(2, 8), nw = sim::choose(3), depth = 1 + sim::choose(3);
    bool less = sim::chance(1, 3);
    sim::describe("callbacks raise further events of their own handler (up to %d deep)%s, %d sources, %d waiters", depth, less ? " and take some from the count" : "", ne, nw);
    auto* e = new EventHandler<int>();
    static std::multiset<int>* got;
    static std::multiset<int>* sent;
    static int taken, next, who, level;
    got = new std::multiset<int>();
    sent = new std::multiset<int>();
    taken = next = level = 0;
    who = -1;
    static std::function<void(int)>* raise;
    raise = new std::function<void(int)>([=](int d)
                    {
                        int a;
                        {
                            sim::Quiet q;
                            a = d * 1000 + next++;
                            sent->insert(a);
                        }
                        e->simulate_event_occurred(a);
                    });
    e->set_callback([=](int a)
            {
                int d = a / 1000;
                {
                    sim::Quiet q;
                    SIM_CHECK(level == 0 || who == (int)sim::self(), "callback-overlap", "the callback runs in two threads at once");
                    who = (int)sim::self();
                    level++;
                    got->insert(a);
                }
                h::use(e->event_count());
                if (d && sim::choose(3))
                {
                    (*raise)(d - 1);
                }
                h::pause(1);
                if (less && sim::choose(3) == 0 && e->event_count() > 8)
                {
                    e->decrement_event_count();
                    sim::Quiet q;
                    taken++;
                }
                sim::Quiet q;
                level--;
            });
    sim::context("callbacks that raise events of their own handler");
    Thrs ts, ws;
    for (int i = 0; i < nw; i++)
    {
        ws.emplace_back("waiter", [=]
                {
                    bool r = e->wait_for_event(1 + sim::choose(2));
                    SIM_CHECK(r, "wait-gave-up", "a wait for events gave up although the handler is enabled");
                });
    }
    for (int i = 0; i < ne; i++)
    {
        ts.emplace_back("source", [=]
                {
                    int n = 1 + sim::choose(3);
                    for (int k = 0; k < n; k++)
                    {
                        (*raise)(sim::choose(depth + 1));
                        h::pause(2);
                    }
                });
    }
    h::join(ts);
    h::join(ws);
    {
        sim::Quiet q;
        SIM_CHECK(*got == *sent, "event-lost-or-duplicated", "%zu events, %zu callback executions (or different arguments)", sent->size(), got->size());
        SIM_CHECK(e->event_count() == sent->size() - taken, "count", "%u events counted, %zu occurred and %d were taken from the count", e->event_count(), sent->size(), taken);
    }
    e->unset_callback();
    delete e;
}

//! The callback of a multiple handler raises events of the handlers inside
SCENARIO(E05, within, 1)
{
    h::usual_faults();
    int nh = 1 + sim::choose(3), ns = 1 + sim::choose(3);
    sim::describe("the callback of a handler made of %d others raises events of them, %d sources", nh, ns);
    static int sent, runs, who, level;
    static std::vector<EventHandler<int>*>* in;
    sent = runs = level = 0;
    in = new std::vector<EventHandler<int>*>();
    auto* m = new MultipleEventHandler([=]()
                    {
                        int l;
                        {
                            sim::Quiet q;
                            SIM_CHECK(level == 0 || who == (int)sim::self(), "callback-overlap", "the callback of a multiple handler runs in two threads at once");
                            who = (int)sim::self();
                            l = ++level;
                            runs++;
                        }
                        if (ns == 1 && l < 3 && sim::choose(2))      // two sources could be waiting for each other
                        {
                            int i;
                            {
                                sim::Quiet q;
                                i = sim::choose(in->size());
                                sent++;
                            }
                            (*in)[i]->simulate_event_occurred(l);
                        }
                        h::pause(1);
                        sim::Quiet q;
                        level--;
                    });
    for (int i = 0; i < nh; i++)
    {
        auto* x = new EventHandler<int>();
        {
            sim::Quiet q;
            in->push_back(x);
        }
        m->register_event_handler<EventHandler<int>, int>(std::unique_ptr<EventHandler<int>>(x));
    }
    sim::context("a callback of a multiple handler that raises events of those inside");
    Thrs ts;
    for (int i = 0; i < ns; i++)
    {
        ts.emplace_back("source", [=]
                {
                    int n = 1 + sim::choose(4);
                    for (int k = 0; k < n; k++)
                    {
                        {
                            sim::Quiet q;
                            sent++;
                        }
                        (*in)[sim::choose(nh)]->simulate_event_occurred(k);
                        h::pause(2);
                    }
                });
    }
    h::join(ts);
    {
        sim::Quiet q;
        SIM_CHECK(runs == sent && (int)m->event_count() == sent, "event-lost-or-duplicated", "%d events inside a multiple handler, %u counted, %d callback executions", sent, m->event_count(), runs);
    }
    delete m;
}
