// Helpers shared by the harnesses.
#pragma once
#include <sim.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <cstdarg>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

namespace h {
//! A result that nothing depends on: without this the compiler may leave out the call
template <class T>
inline void use(const T& v)
{
    static volatile char sink;
    sim::Quiet q;
    sink = (char)(v ? 1 : 0);
}

struct Slot { bool done; int id; };
inline Slot* slots()
{
    static Slot s[512];
    return s;
}
inline int& nslots()
{
    static int n = 0;
    return n;
}

//! A simulated thread of the workload
struct Thr
{
    std::thread t;
    Slot* s;
    Thr(const char* nm, std::function<void()> fn)
    {
        {
            sim::Quiet q;
            s = &slots()[nslots()++];
            s->done = false;
            s->id = -1;
        }
        Slot* d = s;
        t = std::thread([fn, nm, d]()
                        {
                            sim::name(nm);
                            {
                                sim::Quiet q;
                                d->id = sim::self();
                            }
                            fn();
                            sim::Quiet q;
                            d->done = true;
                        });
    }
    Thr(Thr&& o) = default;
    bool finished() const
    {
        sim::Quiet q;
        return s->done;
    }
    int id() const
    {
        sim::Quiet q;
        return s->id;
    }
    //! blocked on a condition variable right now
    bool on_cv() const
    {
        sim::Quiet q;
        return !s->done && !strcmp(sim::thread_wait(s->id), "condition variable");
    }
    void join()
    {
        if (t.joinable())
        {
            t.join();
        }
    }
};
using Thrs = std::vector<Thr>;

inline void join(Thrs& v)
{
    for (auto& t : v)
    {
        t.join();
    }
}
inline int unfinished(const Thrs& v)
{
    int n = 0;
    for (auto& t : v)
    {
        n += !t.finished();
    }
    return n;
}

inline int on_cv(const Thrs& v)
{
    int n = 0;
    for (auto& t : v)
    {
        n += t.on_cv();
    }
    return n;
}

//! Small pause chosen by the simulator: nothing, a yield, or 1..max_ms of virtual time
inline void pause(uint32_t max_ms = 5)
{
    uint32_t k = sim::choose(4);
    if (k == 1)
    {
        sim::yield();
    }
    else if (k == 2)
    {
        sim::sleep_ms(1 + sim::choose(max_ms));
    }
}

inline uint64_t ms_of(uint64_t ns)
{
    return ns / 1000000ull;
}

//! A number of things: 1..usual, now and then many more
inline int some(uint32_t usual, uint32_t most)
{
    int n = 1 + sim::choose(usual);
    if (sim::choose(40) == 39)
    {
        n += sim::choose(most - usual);
        sim::probe("many");
    }
    return n;
}

//! How many of something in the scenarios about capacity: more than any limit somebody could think is enough
inline int volume(int most)
{
    static const int sizes[] = {20, 140, 300, 1100, 5000, 33000, 70000};
    int k = sim::choose(16);
    k = k < 4 ? 0 : k < 7 ? 1 : k < 10 ? 2 : k < 12 ? 3 : k < 14 ? 4 : k < 15 ? 5 : 6;
    int n = sizes[k];
    return (n < most ? n : most) + (int)sim::choose(20);
}

//! Turn on the schedule-perturbing faults that are legal in every environment
inline void usual_faults(bool stalls = true, bool wall = true)
{
    if (sim::chance(1, 2))
    {
        sim::set_fault(sim::F_SPURIOUS, 4 + sim::choose(12));
    }
    if (stalls && sim::chance(1, 3))
    {
        sim::set_fault(sim::F_STALL, 2 + sim::choose(12));
    }
    if (wall && sim::chance(1, 3))
    {
        sim::set_fault(sim::F_WALLJUMP, 1 + sim::choose(4));
    }
}

//! Versions of one variable over time, written by (possibly concurrent) operations
struct VOp { uint64_t s, e; int v; uint64_t te = ~0ull; };
struct Versions
{
    std::vector<VOp> ops;
    explicit Versions(int init)
    {
        sim::Quiet q;
        ops.push_back({0, 0, init, 0});
    }
    size_t begin(int v)
    {
        sim::Quiet q;
        ops.push_back({sim::stamp(), ~0ull, v});
        return ops.size() - 1;
    }
    void end(size_t i)
    {
        sim::Quiet q;
        ops[i].e = sim::stamp();
        ops[i].te = sim::now_ns();
    }
    //! could version a be current at some instant of [inv, ret]
    bool current(const VOp& a, uint64_t inv, uint64_t ret) const
    {
        if (a.s > ret)
        {
            return false;
        }
        for (auto& b : ops)
        {
            if (b.s > a.e && b.e < inv)
            {
                return false;
            }
        }
        return true;
    }
    bool any(uint64_t inv, uint64_t ret, const std::function<bool(int)>& p) const
    {
        sim::Quiet q;
        for (auto& a : ops)
        {
            if (p(a.v) && current(a, inv, ret))
            {
                return true;
            }
        }
        return false;
    }
    //! the same for an instant not before the (virtual) time from
    bool any_since(uint64_t from, uint64_t ret, const std::function<bool(int)>& p) const
    {
        sim::Quiet q;
        for (auto& a : ops)
        {
            bool cur = p(a.v) && a.s <= ret;
            for (auto& b : ops)
            {
                cur = cur && !(b.s > a.e && b.te < from);
            }
            if (cur)
            {
                return true;
            }
        }
        return false;
    }
    //! last instant at which version a could be current
    uint64_t last(const VOp& a) const
    {
        uint64_t l = ~0ull;
        for (auto& b : ops)
        {
            if (b.s > a.e && b.e < l)
            {
                l = b.e;
            }
        }
        return l;
    }
    //! is there an instant of [inv, ret] at which this could be v while the other could be w
    bool together(int v, const Versions& other, int w, uint64_t inv, uint64_t ret) const
    {
        sim::Quiet q;
        for (auto& a : ops)
        {
            for (auto& b : other.ops)
            {
                if (a.v == v && b.v == w && std::max({a.s, b.s, inv}) <= std::min({last(a), other.last(b), ret}))
                {
                    return true;
                }
            }
        }
        return false;
    }
    bool could_be(uint64_t at, int v) const
    {
        return any(at, at, [v](int x)
                       {
                           return x == v;
                       });
    }
};

//! One completed operation of a concurrent history. apply: executes it on a state, false if its result is not possible there
template <class S>
struct LinOp
{
    uint64_t inv, ret;
    std::function<bool(S&)> apply;
    std::string text;
};
//! Wing & Gong search with memoisation: is there an order of the operations, compatible with real time, that explains
//! every result? At most 63 operations. key() must identify a state. pinned results return -1 when the search gives up.
template <class S>
struct Lin
{
    std::vector<LinOp<S>> ops;
    std::function<std::string(const S&)> key;
    uint64_t budget = 200000;
    std::set<std::string> seen;
    S final_state{};

    size_t begin(const std::string& text)
    {
        sim::Quiet q;
        ops.push_back({sim::stamp(), ~0ull, nullptr, text});
        return ops.size() - 1;
    }
    void end(size_t i, std::function<bool(S&)> f, const std::string& res)
    {
        sim::Quiet q;
        ops[i].ret = sim::stamp();
        ops[i].apply = f;
        ops[i].text += " -> " + res;
    }
    int search(uint64_t done, const S& st, uint64_t mandatory)
    {
        if ((done & mandatory) == mandatory)
        {
            final_state = st;
            return 1;
        }
        if (!budget--)
        {
            return -1;
        }
        std::string k = std::to_string(done) + "/" + key(st);
        if (!seen.insert(k).second)
        {
            return 0;
        }
        uint64_t limit = ~0ull;
        for (size_t i = 0; i < ops.size(); i++)
        {
            if (!(done >> i & 1) && ops[i].ret < limit)
            {
                limit = ops[i].ret;
            }
        }
        for (size_t i = 0; i < ops.size(); i++)
        {
            if (!(done >> i & 1) && ops[i].inv <= limit && ops[i].apply)
            {
                S n = st;
                if (ops[i].apply(n))
                {
                    int r = search(done | 1ull << i, n, mandatory);
                    if (r)
                    {
                        return r;
                    }
                }
            }
        }
        return 0;
    }
    void check(const S& init, const char* what)
    {
        sim::Quiet q;
        if (ops.size() > 63)
        {
            return;
        }
        uint64_t mand = 0;
        for (size_t i = 0; i < ops.size(); i++)
        {
            if (ops[i].apply)
            {
                mand |= 1ull << i;
            }
        }
        int r = search(0, init, mand);
        if (r < 0)
        {
            sim::probe("linearizability-search-gave-up");
            return;
        }
        if (!r)
        {
            std::string t;
            std::vector<size_t> o;
            for (size_t i = 0; i < ops.size(); i++)
            {
                o.push_back(i);
            }
            std::sort(o.begin(), o.end(), [&](size_t a, size_t b)
                    {
                        return ops[a].inv < ops[b].inv;
                    });
            for (size_t i : o)
            {
                t += "\n    [" + std::to_string(ops[i].inv) + "," + std::to_string(ops[i].ret) + "] " + ops[i].text;
            }
            sim::violation("not-linearizable", "%s: no order of these operations explains their results:%s", what, t.c_str());
        }
    }
};

//! Independent objects: each thread owns some, of random configuration, and uses them in any order. M: constructor,
//! step() that does something with the object and compares the result with what a single owner must see, destructor
template <class M>
void apart(const char* what, uint32_t threads = 3, uint32_t most_steps = 10, uint32_t each = 2)
{
    int nt = 1 + sim::choose(threads);
    sim::describe("independent objects (%s) of %d threads", what, nt);
    Thrs ts;
    for (int i = 0; i < nt; i++)
    {
        ts.emplace_back("owner", [=]
                {
                    std::vector<std::unique_ptr<M>> o;
                    for (uint32_t k = 0; k < each; k++)
                    {
                        o.emplace_back(new M());
                    }
                    for (int k = 2 + sim::choose(most_steps); k > 0; k--)
                    {
                        auto& m = o[sim::choose(each)];
                        if (sim::choose(12) == 11)
                        {
                            m.reset();
                            pause(2);
                            m.reset(new M());
                        }
                        m->step();
                        pause(2);
                    }
                });
    }
    join(ts);
}

} // namespace h
