// P01: pool of elements. S01: singletons. R01: random numbers. K01, K02: time.
#include "h.hpp"
#include <cpp_utils/exception/InconsistencyException.hpp>
#include <cpp_utils/exception/PreconditionNotMet.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/math/random/RandomManager.hpp>
#include <cpp_utils/math/random/TSafeRandomManager.hpp>
#include <cpp_utils/pool/UnboundedPool.hpp>
#include <cpp_utils/time/PausableTimer.hpp>
#include <cpp_utils/time/Timer.hpp>
#include <cpp_utils/time/time_utils.hpp>
#include <cpp_utils/types/SafeInitializableSingleton.hpp>
#include <cpp_utils/types/Singleton.hpp>
#include <random>

using namespace eprosima::utils;
using h::Thr;
using h::Thrs;

namespace {

// ---------------------------------------------------------------- P01

struct Elem;
std::set<const Elem*>* live;   // constructed and not destroyed
int built;

struct Elem
{
    int payload = 1;
    Elem()
    {
        if (sim::fault(sim::F_THROW))
        {
            throw std::runtime_error("element");
        }
        sim::Quiet q;
        built++;
        live->insert(this);
    }
    ~Elem()
    {
        sim::Quiet q;
        SIM_CHECK(live->erase(this) == 1, "destroyed-twice", "an element was destroyed twice");
    }
};

int resets;
bool reset_failed;

class Pool : public UnboundedPool<Elem>
{
public:

    Pool(PoolConfiguration c)
        : UnboundedPool<Elem>(c)
    {
        initialize_vector_();
    }
    void reset_element_(Elem* e) override
    {
        if (sim::fault(sim::F_THROW))
        {
            reset_failed = true;
            throw std::runtime_error("reset");
        }
        e->payload = 1;
        resets++;
    }
};

PoolConfiguration conf(unsigned initial, unsigned batch)
{
    PoolConfiguration c;
    c.initial_size = initial;
    c.batch_size = batch;
    return c;
}

} // namespace

SCENARIO(P01, loans, 5)
{
    live = new std::set<const Elem*>();
    built = resets = 0;
    unsigned initial = sim::choose(5), batch = 1 + sim::choose(4);
    int n = h::some(25, 700);
    bool many = n > 100;
    if (many)
    {
        initial += sim::choose(300);
        batch += sim::choose(60);
    }
    bool faults = sim::choose(3) != 0;
    if (faults)
    {
        sim::set_fault(sim::F_THROW, 2 + sim::choose(8));
        sim::set_fault(sim::F_ALLOC, 3 + sim::choose(10));
    }
    try
    {
        Pool none(conf(initial, 0));
        sim::violation("wrong-batch", "a pool that grows by no elements was accepted");
    }
    catch (const InitializationException&)
    {
    }
    sim::describe("pool of %u elements at first, %u more each time, %d operations%s", initial, batch, n, faults ? ", allocations and constructors fail" : "");
    Pool* p = nullptr;
    {
        int64_t heap0 = sim::live_allocs();
        try
        {
            sim::AllocFaults af;
            p = new Pool(conf(initial, batch));
        }
        catch (const std::exception&)
        {
            sim::Quiet q;
            SIM_CHECK(live->empty(), "leak", "%zu elements are left after the construction of the pool failed", live->size());
            SIM_CHECK(faults, "unexpected-exception", "construction failed although nothing it uses did");
            sim::probe("construction-failed");
            (void)heap0;
            return;
        }
    }
    SIM_CHECK(built == (int)initial, "wrong-size", "%d elements built for an initial size of %u", built, initial);
    std::vector<Elem*> mine;
    {
        sim::Quiet q;
        mine.reserve(512);
    }
    for (int i = 0; i < n; i++)
    {
        if (sim::choose(5) < 3 && mine.size() < (many ? 500u : 60u))
        {
            Elem* e = nullptr;
            int b0 = built;
            size_t free0;
            {
                sim::Quiet q;
                free0 = live->size() - mine.size();
            }
            reset_failed = false;
            try
            {
                sim::AllocFaults af;
                bool r = p->loan(e);
                sim::Quiet q;
                SIM_CHECK(r && e, "loan-failed", "loan gave no element");
                SIM_CHECK(live->count(e), "dead-element", "loan gave an element that does not exist");
                SIM_CHECK(std::find(mine.begin(), mine.end(), e) == mine.end(), "loaned-twice", "loan gave an element that is loaned already");
                SIM_CHECK(free0 == 0 || built == b0, "not-reused", "an element was built although %zu were free", free0);
                SIM_CHECK(free0 > 0 || built == b0 + (int)batch, "wrong-batch", "%d elements were built instead of %u", built - b0, batch);
                SIM_CHECK(e->payload == 1, "not-reset", "the element loaned was not reset");
                e->payload = 100 + i;
                mine.push_back(e);
            }
            catch (const std::exception&)
            {
                SIM_CHECK(faults, "unexpected-exception", "loan failed although nothing it uses did");
                SIM_CHECK(free0 == 0 || reset_failed, "unexpected-exception", "loan failed although elements were free");
                sim::probe("loan-failed");
            }
        }
        else if (!mine.empty())
        {
            size_t k = sim::choose(mine.size());
            Elem* e = mine[k];
            int r0 = resets;
            try
            {
                sim::AllocFaults af;
                bool r = p->return_loan(e);
                SIM_CHECK(r, "return-failed", "a loaned element could not be returned");
            }
            catch (const InconsistencyException&)
            {
                sim::violation("return-refused", "the pool refuses an element it had loaned");
            }
            catch (const std::exception&)
            {
                // still loaned
                SIM_CHECK(faults, "unexpected-exception", "returning an element failed although nothing it uses did");
                sim::probe("return-failed");
                continue;
            }
            SIM_CHECK(resets > r0, "not-reset", "the element returned was not reset");
            sim::Quiet q;
            mine.erase(mine.begin() + k);
        }
        else
        {
            bool thrown = false;
            Elem* strange;
            {
                sim::Quiet q;
                strange = live->empty() ? nullptr : const_cast<Elem*>(*live->begin());
            }
            try
            {
                p->return_loan(strange);
            }
            catch (const InconsistencyException&)
            {
                thrown = true;
            }
            SIM_CHECK(thrown, "return-accepted", "an element was returned although none is loaned");
        }
    }
    sim::set_fault(sim::F_THROW, 0);
    sim::set_fault(sim::F_ALLOC, 0);
    for (Elem* e : mine)
    {
        try
        {
            p->return_loan(e);
        }
        catch (const InconsistencyException&)
        {
            sim::violation("return-refused", "the pool refuses an element it had loaned");
        }
    }
    delete p;
    sim::Quiet q;
    SIM_CHECK(live->empty(), "leak", "%zu elements are left after the pool was destroyed", live->size());
}

// ---------------------------------------------------------------- S01

namespace {

struct Inner
{
    int value;
    Inner()
    {
        h::pause(2);
        value = 5;
    }
};
struct Single
{
    int value;
    int plain = 0;
    static int made;
    static int alive;
    static bool slow;
    static bool inner;
    Single(int v = 7)
    {
        if (slow)
        {
            h::pause(3);
        }
        if (sim::fault(sim::F_THROW))
        {
            throw std::runtime_error("single");
        }
        if (inner)
        {
            // needs another one to be built
            Inner* i = Singleton<Inner, 3>::get_instance();
            std::shared_ptr<Inner> s = SafeInitializableSingleton<Inner, 7>::get_shared_instance();
            SIM_CHECK(i && i->value == 5 && s && s->value == 5 && s.get() != i, "not-constructed", "the instance used by the constructor of another one is not fully constructed");
        }
        value = v;
        plain = 41;
        sim::Quiet q;
        made++;
        alive++;
    }
    ~Single()
    {
        sim::Quiet q;
        alive--;
    }
};
int Single::made, Single::alive;
bool Single::slow, Single::inner;

} // namespace

SCENARIO(S01, first_use, 3)
{
    h::usual_faults();
    Single::slow = true;
    Single::inner = sim::choose(3) == 0;
    int nt = 1 + h::some(4, 20);
    sim::describe("%d threads use a singleton for the first time%s", nt, Single::inner ? ", whose constructor uses others" : "");
    static Single* seen;
    static int wrong, made_other;
    seen = nullptr;
    wrong = made_other = 0;
    Thrs ts;
    for (int i = 0; i < nt; i++)
    {
        ts.emplace_back("user", []
                {
                    h::pause(2);
                    int k = 1 + sim::choose(3);
                    for (int j = 0; j < k; j++)
                    {
                        Single* p;
                        std::shared_ptr<Single> keep;
                        if (sim::choose(2))
                        {
                            p = Singleton<Single, 3>::get_instance();
                        }
                        else
                        {
                            keep = Singleton<Single, 3>::get_shared_instance();
                            p = keep.get();
                        }
                        SIM_CHECK(p && p->value == 7 && p->plain == 41, "not-constructed", "the instance is not fully constructed");
                        if (sim::choose(3) == 0)
                        {
                            Single* o = Singleton<Single, 4>::get_instance();
                            SIM_CHECK(o != p, "shared-index", "two singletons with different indexes share their instance");
                            sim::Quiet q;
                            made_other = 1;
                        }
                        sim::Quiet q;
                        SIM_CHECK(!seen || seen == p, "two-instances", "two threads got different instances");
                        seen = p;
                    }
                });
    }
    h::join(ts);
    SIM_CHECK(Single::made == 1 + made_other, "built-twice", "%d objects built for %d singletons", Single::made, 1 + made_other);
    SIM_CHECK(Single::alive == Single::made, "destroyed", "a singleton was destroyed");
}

SCENARIO(S01, initialize, 4)
{
    h::usual_faults();
    Single::slow = sim::choose(2);
    Single::inner = sim::choose(4) == 0;
    int nt = h::some(3, 16);
    bool throws = sim::choose(2);
    if (throws)
    {
        sim::set_fault(sim::F_THROW, 1 + sim::choose(4));
    }
    sim::describe("%d threads initialise and use a singleton%s", nt, throws ? ", its constructor fails sometimes" : "");
    static h::Lin<int> lin;
    static Single* seen;
    seen = nullptr;
    {
        sim::Quiet q;
        lin.key = [](const int& v)
                {
                    return std::to_string(v);
                };
    }
    Thrs ts;
    for (int i = 0; i < nt; i++)
    {
        ts.emplace_back("user", [i, throws]
                {
                    using S = SafeInitializableSingleton<Single, 9>;
                    int n = 1 + sim::choose(4);
                    for (int j = 0; j < n; j++)
                    {
                        h::pause(2);
                        int what = sim::choose(throws ? 3 : 5);   // an instance made on demand must not throw: the call is noexcept
                        if (what == 0)
                        {
                            int v = 100 + 10 * i + j;
                            size_t o = lin.begin("initialize " + std::to_string(v));
                            int r;
                            try
                            {
                                r = S::initialize(v);
                            }
                            catch (const std::runtime_error&)
                            {
                                r = 2;
                                sim::probe("constructor-failed");
                            }
                            lin.end(o, [r, v](int& st)
                                    {
                                        if (st)
                                        {
                                            return r == 0;
                                        }
                                        if (r == 1)
                                        {
                                            st = v;
                                        }
                                        return r != 0;
                                    }, r == 2 ? "exception" : r ? "true" : "false");
                        }
                        else
                        {
                            bool create = what > 2;
                            size_t o = lin.begin(create ? "get, creating it" : "get");
                            Single* p;
                            if (sim::choose(2))
                            {
                                p = S::get_instance(create);
                            }
                            else
                            {
                                p = S::get_shared_instance(create).get();
                            }
                            int v = p ? p->value : 0;
                            lin.end(o, [v, create](int& st)
                                    {
                                        if (!st && create)
                                        {
                                            st = 7;
                                        }
                                        return st == v;
                                    }, std::to_string(v));
                            sim::Quiet q;
                            SIM_CHECK(!p || !seen || seen == p, "two-instances", "two different instances were given");
                            SIM_CHECK(!p || p->plain == 41, "not-constructed", "the instance is not fully constructed");
                            if (p)
                            {
                                seen = p;
                            }
                        }
                    }
                });
    }
    h::join(ts);
    lin.check(0, "singleton initialised at run time");
    SIM_CHECK(Single::made <= 1 && Single::alive == Single::made, "built-twice", "%d objects built, %d alive", Single::made, Single::alive);
}

// ---------------------------------------------------------------- R01

namespace {

struct RandSt { unsigned seed; int used; };
std::map<unsigned, std::vector<unsigned>>* seqs;

unsigned mt(unsigned seed, int k)
{
    sim::Quiet q;
    auto& v = (*seqs)[seed];
    if ((int)v.size() <= k)
    {
        std::mt19937 g(seed);
        size_t n = std::max<size_t>(16, 2 * k + 2);
        v.clear();
        for (size_t i = 0; i < n; i++)
        {
            v.push_back(g());
        }
    }
    return v[k];
}

} // namespace

SCENARIO(R01, sequence, 4)
{
    h::usual_faults();
    int nt = h::some(3, 16);
    bool global = sim::choose(3) == 0, reseed = sim::choose(2);
    unsigned first = global ? 1 : sim::choose(3);
    sim::describe("%d threads draw random numbers from %s, first seed %u%s", nt, global ? "the global manager" : "one manager", first, reseed ? ", reseeded meanwhile" : "");
    static h::Lin<RandSt> lin;
    static std::set<unsigned>* pure, * pure_own;
    static int npure, npure_own;
    {
        sim::Quiet q;
        seqs = new std::map<unsigned, std::vector<unsigned>>();
        pure = new std::set<unsigned>();
        pure_own = new std::set<unsigned>();
        npure = npure_own = 0;
        lin.key = [](const RandSt& s)
                {
                    return std::to_string(s.seed) + "+" + std::to_string(s.used);
                };
    }
    TSafeRandomManager* m = global ? nullptr : new TSafeRandomManager(first);
    Thrs ts;
    for (int i = 0; i < nt; i++)
    {
        ts.emplace_back("drawer", [=]
                {
                    int n = 1 + sim::choose(8);
                    // one of its own gives the same numbers
                    unsigned own_seed = sim::choose(3);
                    int own_used = 0;
                    RandomManager own(own_seed);
                    if (sim::choose(40) == 39)
                    {
                        // until its state has been renewed several times
                        int k = 600 + sim::choose(1300);
                        for (int j = 0; j < k; j++)
                        {
                            unsigned v = own.sequence_rand();
                            sim::Quiet q;
                            SIM_CHECK(v == mt(own_seed, own_used), "wrong-sequence", "number %d of seed %u is %u, should be %u", own_used, own_seed, v, mt(own_seed, own_used));
                            own_used++;
                        }
                    }
                    for (int j = 0; j < n; j++)
                    {
                        if (sim::choose(6) == 0)
                        {
                            unsigned s = sim::choose(4) * 977;
                            unsigned v;
                            switch (sim::choose(6))
                            {
                                case 5:
                                    for (int p = 0; p < 2; p++)
                                    {
                                        v = sim::choose(2) ? own.pure_rand() : own.rand<true>();
                                        sim::Quiet q;
                                        pure_own->insert(v);
                                        npure_own++;
                                    }
                                    break;
                                case 0:
                                    own_seed = sim::choose(3);
                                    own_used = 0;
                                    own.seed(own_seed);
                                    break;
                                case 1:
                                    v = own.seeded_rand(s);
                                    SIM_CHECK(v == mt(s, 0), "wrong-seeded", "seed %u gives %u, always gave %u", s, v, mt(s, 0));
                                    break;
                                case 2:
                                    v = own.rand(s);
                                    SIM_CHECK(v == mt(s, 0), "wrong-seeded", "seed %u gives %u, always gave %u", s, v, mt(s, 0));
                                    break;
                                default:
                                    v = sim::choose(2) ? own.sequence_rand() : own.rand<>();
                                    SIM_CHECK(v == mt(own_seed, own_used), "wrong-sequence", "number %d of seed %u is %u, should be %u", own_used, own_seed, v, mt(own_seed, own_used));
                                    own_used++;
                            }
                        }
                        TSafeRandomManager* r = m ? m : GlobalRandomManager::get_instance();
                        int what = sim::choose(8);
                        if (what < 4)
                        {
                            size_t o = lin.begin("next");
                            unsigned v = what == 3 ? r->rand<>() : r->sequence_rand();
                            lin.end(o, [v](RandSt& s)
                                    {
                                        return mt(s.seed, s.used++) == v;
                                    }, std::to_string(v));
                        }
                        else if (what < 6)
                        {
                            unsigned s = sim::choose(4) * 977;
                            unsigned v = what == 5 ? r->rand(s) : r->seeded_rand(s);
                            sim::Quiet q;
                            SIM_CHECK(v == mt(s, 0), "wrong-seeded", "seed %u gives %u, always gave %u", s, v, mt(s, 0));
                        }
                        else if (what == 6 && reseed)
                        {
                            unsigned s = sim::choose(3);
                            size_t o = lin.begin("seed " + std::to_string(s));
                            r->seed(s);
                            lin.end(o, [s](RandSt& st)
                                    {
                                        st = {s, 0};
                                        return true;
                                    }, "");
                        }
                        else
                        {
                            unsigned v = sim::choose(2) ? r->pure_rand() : r->rand<true>();
                            sim::Quiet q;
                            pure->insert(v);
                            npure++;
                        }
                    }
                });
    }
    h::join(ts);
    lin.check({first, 0}, "random sequence");
    SIM_CHECK(npure < 4 || pure->size() > 1, "not-random", "%d purely random numbers were all the same", npure);
    SIM_CHECK(npure_own < 4 || pure_own->size() > 1, "not-random", "%d purely random numbers were all the same", npure_own);
    delete m;
}

// ---------------------------------------------------------------- K01

SCENARIO(K01, timer, 4)
{
    h::usual_faults();
    int n = 1 + sim::choose(15);
    bool pausable = sim::choose(2), play = sim::choose(2);
    sim::describe("%s timer, %d operations", pausable ? play ? "pausable" : "paused" : "simple", n);
    // elapsed time is between lo and hi if the last start was somewhere in [s0, s1]
    uint64_t s0 = sim::now_ns();
    Timer* t = pausable ? new PausableTimer(play) : new Timer();
    PausableTimer* p = pausable ? static_cast<PausableTimer*>(t) : nullptr;
    uint64_t s1 = sim::now_ns();
    double lo = 0, hi = 0;       // of earlier playing periods, ms
    bool playing = !pausable || play;
    double last = 0;
    for (int i = 0; i < n; i++)
    {
        uint64_t b = sim::now_ns();
        int what = sim::choose(7);
        if (what == 0)
        {
            t->reset();
            s0 = b;
            s1 = sim::now_ns();
            lo = hi = last = 0;
        }
        else if (what == 1 && p)
        {
            p->play();
            if (!playing)
            {
                s0 = b;
                s1 = sim::now_ns();
                playing = true;
            }
            SIM_CHECK(p->playing(), "wrong-state", "a playing timer says it is paused");
        }
        else if (what == 2 && p)
        {
            p->pause();
            if (playing)
            {
                uint64_t e = sim::now_ns();
                lo += b > s1 ? (b - s1) / 1e6 : 0;
                hi += (e - s0) / 1e6;
                playing = false;
            }
            SIM_CHECK(!p->playing(), "wrong-state", "a paused timer says it is playing");
        }
        else if (what == 3)
        {
            uint32_t ms = sim::choose(24) == 23 ? 4000000000u + sim::choose(294967295u) : sim::choose(40);
            sleep_for(ms);
            uint64_t e = sim::now_ns();
            SIM_CHECK(e - b >= ms * 1000000ull, "slept-less", "slept %.3f ms instead of %u", (e - b) / 1e6, ms);
        }
        else if (what == 4)
        {
            uint32_t ms = 1 + sim::choose(200);
            sleep_for(ms);
            uint64_t e = sim::now_ns();
            SIM_CHECK(e - b >= ms * 1000000ull, "slept-less", "slept %.3f ms instead of %u", (e - b) / 1e6, ms);
        }
        else if (what == 5 && sim::choose(2))
        {
            sim::jump_wall((int64_t)(sim::choose(2) ? 1 : -1) * (1 + sim::choose(100000)) * 1000000ll);
        }
        b = sim::now_ns();
        bool round = sim::choose(2);
        double v = round ? (double)t->elapsed_ms() : t->elapsed();
        uint64_t e = sim::now_ns();
        double l = lo, u = hi;
        if (playing)
        {
            l += b > s1 ? (b - s1) / 1e6 : 0;
            u += (e - s0) / 1e6;
        }
        double slack = round ? 1 : 0;
        if (round && u >= 4294967295.0)
        {
            continue;    // more than it can say
        }
        SIM_CHECK(v >= l - slack - 1e-3 && v <= u + 1e-3, "wrong-elapsed", "the timer says %.4f ms after something between %.4f and %.4f ms", v, l, u);
        SIM_CHECK(v >= last - slack - 1e-3, "went-back", "the timer says %.4f ms after it had said %.4f", v, last);
        last = std::max(last, v);
    }
    delete t;
}

// ---------------------------------------------------------------- K02

namespace {

//! days since the epoch of a date
int64_t days_of(int64_t y, unsigned m, unsigned d)
{
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = (unsigned)(y - era * 400);
    unsigned doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1;
    unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (int64_t)doe - 719468;
}

//! the instant of the last Sunday of a month of 31 days at 1:00
int64_t last_sunday(int64_t y, unsigned m)
{
    int64_t d = days_of(y, m, 31);
    int64_t wd = ((d + 4) % 7 + 7) % 7;   // 0: Sunday
    return (d - wd) * 86400 + 3600;
}

int64_t year_of(int64_t secs)
{
    int64_t days = secs >= 0 ? secs / 86400 : -((86399 - secs) / 86400);
    int64_t y = 1970 + days / 366;
    while (days_of(y, 1, 1) > days)
    {
        y--;
    }
    while (days_of(y + 1, 1, 1) <= days)
    {
        y++;
    }
    return y;
}

//! seconds of local time minus those of UTC; the third zone has summer time
int offset(int zone, int64_t secs)
{
    if (zone == 0)
    {
        return 7200;
    }
    if (zone == 1)
    {
        return -19800;
    }
    int64_t y = year_of(secs);
    return secs >= last_sunday(y, 3) && secs < last_sunday(y, 10) ? 7200 : 3600;
}

//! whether that local time happens twice
bool ambiguous(int zone, int64_t secs)
{
    int64_t t = last_sunday(year_of(secs), 10);
    return zone == 2 && secs >= t - 3600 && secs < t + 3600;
}

std::string civil(int64_t secs, int off, char form = 'n')
{
    secs += off;
    int64_t days = secs / 86400, r = secs % 86400;
    if (r < 0)
    {
        r += 86400;
        days--;
    }
    // days from civil, inverted (proleptic Gregorian calendar)
    int64_t z = days + 719468;
    int64_t era = (z >= 0 ? z : z - 146096) / 146097;
    unsigned doe = (unsigned)(z - era * 146097);
    unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    int64_t y = (int64_t)yoe + era * 400;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    unsigned mp = (5 * doy + 2) / 153;
    unsigned d = doy - (153 * mp + 2) / 5 + 1;
    unsigned m = mp < 10 ? mp + 3 : mp - 9;
    char b[64];
    if (form == 's')
    {
        snprintf(b, sizeof b, "%02u/%02u/%04d %02d:%02d:%02d", d, m, (int)(y + (m <= 2)), (int)(r / 3600), (int)(r / 60 % 60), (int)(r % 60));
        return b;
    }
    snprintf(b, sizeof b, "%s%04d-%02u-%02u_%02d-%02d-%02d", form == 'z' ? "GMT_" : "", (int)(y + (m <= 2)), m, d, (int)(r / 3600), (int)(r / 60 % 60), (int)(r % 60));
    return b;
}

} // namespace

SCENARIO(K02, text, 3)
{
    h::usual_faults();
    sim::long_limits();
    static int zone;
    zone = sim::choose(3);
    static const char* const zones[] = {"SIM-2", "WST5:30", "CET-1CEST,M3.5.0,M10.5.0/3"};
    {
        sim::Quiet q;
        setenv("TZ", zones[zone], 1);
        tzset();
    }
    int nt = h::some(3, 16);
    int rounds = sim::choose(6) == 0 ? 2 : 1;
    sim::describe("%d threads convert time stamps to text and back, time zone %s", nt, zones[zone]);
again:
    Thrs ts;
    for (int i = 0; i < nt; i++)
    {
        ts.emplace_back("converter", []
                {
                    int n = 1 + sim::choose(sim::choose(3) ? 3 : 8);
                    int64_t before = 0;
                    for (int j = 0; j < n; j++)
                    {
                        h::pause(2);
                        int64_t secs = (int64_t)sim::choose(2000000000) * 2 - sim::choose(2) * 1000000000ll;
                        switch (sim::choose(9))
                        {
                            case 0:
                                secs = (int64_t)sim::choose(8) - 4;      // about the epoch
                                break;
                            case 2:
                                secs = (int64_t)sim::choose(2000000000) * 9 - 9000000000;    // years 1684 to 2255
                                break;
                            case 1:
                            {
                                // about a change of the time of the year
                                sim::Quiet q;
                                secs = last_sunday(year_of(secs), sim::choose(2) ? 3 : 10) + (int64_t)sim::choose(4 * 3600) - 2 * 3600;
                            }
                        }
                        if (j && sim::choose(4) == 0)
                        {
                            secs = before;      // the same in another format or zone
                        }
                        before = secs;
                        bool local = sim::choose(2);
                        if (zone == 2 && local && secs < 100000000)
                        {
                            secs = std::abs(secs) + 100000000;     // the C library has no summer time before 1971
                        }
                        char form = "nsz"[sim::choose(local ? 2 : 3)];
                        const char* format = form == 's' ? "%d/%m/%Y %H:%M:%S" : form == 'z' ? "%Z_%Y-%m-%d_%H-%M-%S" : "%Y-%m-%d_%H-%M-%S";
                        std::string want;
                        bool back_too;
                        {
                            sim::Quiet q;
                            want = civil(secs, local ? offset(zone, secs) : 0, form);
                            back_too = !local || !ambiguous(zone, secs);
                        }
                        std::string pad, padded;
                        if (sim::choose(12) == 11)
                        {
                            // something else in the format
                            pad = std::string(h::some(60, 700), 'x') + "=";
                            padded = pad + format;
                            format = padded.c_str();
                            want = pad + want;
                        }
                        Timestamp at = Timeclock::from_time_t(secs);
                        int what = sim::choose(5);
                        if (what < 3)
                        {
                            // a part of a second does not change the text
                            auto part = std::chrono::nanoseconds(secs >= 0 && sim::choose(3) == 0 ? 999999999 : 0);
                            std::string s = timestamp_to_string(at + part, format, local);
                            SIM_CHECK(s == want, "wrong-text", "%lld s became %s instead of %s", (long long)secs, s.c_str(), want.c_str());
                            if (what && back_too)
                            {
                                if (sim::choose(4) == 0)
                                {
                                    static const char* const wrong[] = {"", "x", "2023/", "no date at all", "2023-13-01_00-00-00"};
                                    std::string w = wrong[sim::choose(5)];
                                    bool thrown = false;
                                    try
                                    {
                                        string_to_timestamp(w + (sim::choose(2) ? " " : ""), "%Y-%m-%d_%H-%M-%S", local);
                                    }
                                    catch (const Exception&)
                                    {
                                        thrown = true;
                                    }
                                    SIM_CHECK(thrown, "no-exception", "the text '%s' was taken as a date", w.c_str());
                                }
                                Timestamp back = string_to_timestamp(s, format, local);
                                SIM_CHECK(back == at, "wrong-time", "%s read back as %lld s instead of %lld", s.c_str(), (long long)Timeclock::to_time_t(back), (long long)secs);
                            }
                        }
                        else if (what == 3)
                        {
                            unsigned f[6];
                            {
                                sim::Quiet q;
                                std::string u = civil(secs, 0);
                                sscanf(u.c_str(), "%u-%u-%u_%u-%u-%u", f, f + 1, f + 2, f + 3, f + 4, f + 5);
                            }
                            Timestamp t = date_to_timestamp(f[0], f[1], f[2], f[3], f[4], f[5]);
                            SIM_CHECK(t == at, "wrong-time", "the date %s became %lld s instead of %lld", want.c_str(), (long long)Timeclock::to_time_t(t), (long long)secs);
                        }
                        else
                        {
                            if (sim::choose(6) == 0)
                            {
                                sim::sleep_ms(sim::choose(100000000));     // another day, maybe
                            }
                            unsigned h = sim::choose(24), m = sim::choose(60), s = sim::choose(60);
                            int64_t w0 = sim::wall_ns();
                            uint64_t n0 = sim::now_ns();
                            int64_t t = Timeclock::to_time_t(time_to_timestamp(h, m, s));
                            int64_t w1 = sim::wall_ns();
                            auto day = [](int64_t ns)
                                    {
                                        return ns / 1000000000 / 86400;
                                    };
                            SIM_CHECK(t % 86400 == (int64_t)(h * 3600 + m * 60 + s), "wrong-time", "%02u:%02u:%02u became %lld s", h, m, s, (long long)t);
                            int64_t d = t / 86400;
                            bool stepped = w1 - w0 != (int64_t)(sim::now_ns() - n0);
                            SIM_CHECK(stepped || (d >= day(w0) && d <= day(w1)), "wrong-day", "the time of day was set in day %lld of the epoch, today is %lld", (long long)d, (long long)day(w1));
                        }
                    }
                });
    }
    h::join(ts);
    if (--rounds > 0)
    {
        // the time zone of the process changes
        sim::Quiet q;
        zone = (zone + 1) % 3;
        setenv("TZ", zones[zone], 1);
        tzset();
        sim::probe("zone-changed");
        goto again;
    }
}

// ---------------------------------------------------------------- objects that have nothing to do with each other

namespace {

struct OwnElem
{
    int state = 1;
};
struct OwnElemPool : public UnboundedPool<OwnElem>
{
    OwnElemPool(PoolConfiguration c)
        : UnboundedPool<OwnElem>(c)
    {
        initialize_vector_();
    }
    void reset_element_(OwnElem* e) override
    {
        e->state = 1;
    }
};

struct OwnLoans
{
    OwnElemPool* p;
    std::vector<OwnElem*> mine;
    static std::set<OwnElem*>*& all()   // loaned by any pool
    {
        static std::set<OwnElem*>* s;
        return s;
    }
    OwnLoans()
        : p(new OwnElemPool(conf(sim::choose(3), 1 + sim::choose(2))))
    {
    }
    void give(size_t k)
    {
        {
            sim::Quiet q;
            all()->erase(mine[k]);
        }
        try
        {
            SIM_CHECK(p->return_loan(mine[k]), "not-independent", "a pool refuses an element it had loaned");
        }
        catch (const InconsistencyException&)
        {
            sim::violation("not-independent", "a pool refuses an element it had loaned");
        }
        mine.erase(mine.begin() + k);
    }
    ~OwnLoans()
    {
        while (!mine.empty())
        {
            give(0);
        }
        delete p;
    }
    void step()
    {
        if (mine.empty() || sim::choose(3))
        {
            OwnElem* e = nullptr;
            bool r = p->loan(e);
            sim::Quiet q;
            SIM_CHECK(r && e, "not-independent", "loan gave no element");
            SIM_CHECK(all()->insert(e).second, "not-independent", "an element is loaned twice, by the same pool or by two");
            SIM_CHECK(e->state == 1, "not-independent", "the element loaned was not reset");
            e->state = 9;
            mine.push_back(e);
        }
        else
        {
            give(sim::choose(mine.size()));
        }
    }
};

struct OwnTimer
{
    uint64_t s0, s1;
    double lo = 0, hi = 0;
    bool playing = sim::choose(2);
    PausableTimer* p;
    OwnTimer()
    {
        s0 = sim::now_ns();
        p = new PausableTimer(playing);
        s1 = sim::now_ns();
    }
    ~OwnTimer()
    {
        delete p;
    }
    void step()
    {
        uint64_t b = sim::now_ns();
        switch (sim::choose(5))
        {
            case 0:
                p->reset();
                s0 = b;
                s1 = sim::now_ns();
                lo = hi = 0;
                break;
            case 1:
                p->play();
                if (!playing)
                {
                    s0 = b;
                    s1 = sim::now_ns();
                    playing = true;
                }
                break;
            case 2:
                p->pause();
                if (playing)
                {
                    lo += b > s1 ? (b - s1) / 1e6 : 0;
                    hi += (sim::now_ns() - s0) / 1e6;
                    playing = false;
                }
                break;
            default:
                sim::sleep_ms(1 + sim::choose(50));
        }
        bool pl = p->playing();
        SIM_CHECK(pl == playing, "not-independent", "a timer that is %s says it is %s", playing ? "playing" : "paused", pl ? "playing" : "paused");
        b = sim::now_ns();
        double v = p->elapsed();
        uint64_t e = sim::now_ns();
        double l = lo + (playing && b > s1 ? (b - s1) / 1e6 : 0), u = hi + (playing ? (e - s0) / 1e6 : 0);
        SIM_CHECK(v >= l - 1e-3 && v <= u + 1e-3, "not-independent", "the timer says %.4f ms after something between %.4f and %.4f ms", v, l, u);
    }
};

} // namespace

SCENARIO(P01, apart, 1)
{
    h::usual_faults();
    {
        sim::Quiet q;
        OwnLoans::all() = new std::set<OwnElem*>();
    }
    h::apart<OwnLoans>("pools of elements", 2, 12, 2);
}
SCENARIO(K01, apart, 1)
{
    h::usual_faults();
    h::apart<OwnTimer>("timers");
}

//! As many elements as there may be
SCENARIO(P01, capacity, 1)
{
    live = new std::set<const Elem*>();
    built = resets = 0;
    unsigned initial = sim::choose(2) ? sim::choose(10) : h::volume(70000), batch = sim::choose(2) ? 1 + sim::choose(10) : 1 + h::volume(70000);
    const int n = h::volume(70000);
    sim::describe("pool of %u elements at first, %u more each time, %d in use at once", initial, batch, n);
    sim::Quiet q;
    auto* p = new Pool(conf(initial, batch));
    SIM_CHECK(built == (int)initial, "wrong-size", "%d elements built for an initial size of %u", built, initial);
    std::set<Elem*> mine;
    for (int i = 0; i < n; i++)
    {
        int had = built;
        Elem* e = nullptr;
        SIM_CHECK(p->loan(e) && e, "no-element", "element %d was not loaned", i);
        SIM_CHECK(mine.insert(e).second, "loaned-twice", "an element that is loaned was loaned again (%d loaned)", i + 1);
        SIM_CHECK(built == had || (built == had + (int)batch && had == i), "wrong-batch", "%d elements built at once with %d of %d loaned, the configuration says %u", built - had, i, had, batch);
    }
    const int most = built;
    for (Elem* e : mine)
    {
        p->return_loan(e);
    }
    for (int i = 0; i < 3; i++)
    {
        Elem* e = nullptr;
        p->loan(e);
        SIM_CHECK(mine.count(e) || built == most, "not-reused", "a new element was built with %d free", most - i);
        p->return_loan(e);
    }
    SIM_CHECK(built == most && (int)live->size() == most, "leak", "%d elements were built, %zu exist", most, live->size());
    delete p;
    SIM_CHECK(live->empty(), "leak", "%zu elements are left after the pool was destroyed", live->size());
}

//! After as many numbers as a long run asks for
SCENARIO(R01, capacity, 1)
{
    h::usual_faults();
    const int n = h::volume(70000);
    const unsigned seed = sim::choose(2) ? 1 + sim::choose(5) : 4294967295u - sim::choose(3);
    sim::describe("%d random numbers from the seed %u, and then two threads", n, seed);
    auto* r = new TSafeRandomManager(seed);
    static std::multiset<unsigned>* want;
    {
        sim::Quiet q;
        want = new std::multiset<unsigned>();
        std::mt19937 g(seed);
        for (int i = 0; i < n; i++)
        {
            unsigned w = (unsigned)g(), v = (unsigned)r->sequence_rand();
            SIM_CHECK(v == w, "wrong-number", "number %d from the seed %u was %u instead of %u", i, seed, v, w);
        }
        for (int i = 0; i < 8; i++)
        {
            want->insert((unsigned)g());
        }
    }
    Thrs ts;
    for (int i = 0; i < 2; i++)
    {
        ts.emplace_back("drawer", [=]
                {
                    for (int j = 0; j < 4; j++)
                    {
                        unsigned v = (unsigned)r->rand<>();
                        sim::Quiet q;
                        auto it = want->find(v);
                        SIM_CHECK(it != want->end(), "wrong-number", "%u was given after %d numbers, and none of the next eight not given yet is that", v, n);
                        want->erase(it);
                    }
                });
    }
    h::join(ts);
    delete r;
}
