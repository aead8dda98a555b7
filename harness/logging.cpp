// L01, L02: log event handlers, log checker, standard log consumer. The logging module itself (Fast DDS) is a stub.
#include "h.hpp"
#include <iostream>
#include <sstream>
#include <streambuf>
#include <cpp_utils/Log.hpp>
#include <cpp_utils/event/LogEventHandler.hpp>
#include <cpp_utils/event/LogSevereEventHandler.hpp>
#include <cpp_utils/logging/StdLogConsumer.hpp>
#include <cpp_utils/testing/LogChecker.hpp>

using namespace eprosima::utils;
using namespace eprosima::utils::event;
using h::Thr;
using h::Thrs;

namespace {

const char* const kinds[3] = {"Error", "Warning", "Info"};

struct Sent { std::string text; int kind; int producer; uint64_t before, after; };
struct Delivered { int sent; uint64_t first, last; };   // by the reference consumers registered around the handler
struct Got { int sent; uint64_t at; };

// All of it is only touched inside Quiet
struct Book
{
    std::vector<Sent> sent;
    std::vector<Delivered> delivered;
    int find(const Log::Entry& e, const char* who)
    {
        if (std::string("SIMLOG") != (e.context.category ? e.context.category : ""))
        {
            return -1;   // a message of the library itself
        }
        for (size_t i = 0; i < sent.size(); i++)
        {
            if (sent[i].text == e.message)
            {
                SIM_CHECK(sent[i].kind == (int)e.kind, "entry-changed", "%s: '%s' was logged as %s and arrived as %s", who, e.message.c_str(), kinds[sent[i].kind], kinds[e.kind]);
                return (int)i;
            }
        }
        sim::violation("entry-changed", "%s received an entry '%s' that nobody logged", who, e.message.c_str());
    }
};
Book* book;

//! Records what the logging module really delivers, and when
struct First : public LogConsumer
{
    void Consume(const Log::Entry& e) override
    {
        sim::Quiet q;
        int i = book->find(e, "logging module");
        if (i >= 0)
        {
            book->delivered.push_back({i, sim::stamp(), ~0ull});
        }
    }
};
struct Last : public LogConsumer
{
    void Consume(const Log::Entry& e) override
    {
        sim::Quiet q;
        int i = book->find(e, "logging module");
        for (auto& d : book->delivered)
        {
            if (d.sent == i)
            {
                d.last = sim::stamp();
            }
        }
    }
};

void log_one(int producer, int kind)
{
    std::string t;
    size_t i;
    {
        sim::Quiet q;
        i = book->sent.size();
        t = "p" + std::to_string(producer) + " message " + std::to_string(i) + std::string(sim::choose(3) * 17, 'x');
        if (sim::choose(120) == 119)
        {
            t += std::string(h::volume(5000), 'y');
        }
        book->sent.push_back({t, kind, producer, sim::stamp(), ~0ull});
    }
    switch (kind)
    {
        case 0:
            EPROSIMA_LOG_ERROR(SIMLOG, t);
            break;
        case 1:
            EPROSIMA_LOG_WARNING(SIMLOG, t);
            break;
        default:
            EPROSIMA_LOG_INFO(SIMLOG, t);
            break;
    }
    sim::Quiet q;
    book->sent[i].after = sim::stamp();
}

void producers(Thrs& ts, int n, int most)
{
    for (int p = 0; p < n; p++)
    {
        ts.emplace_back("logger", [p, most]
                {
                    int k = h::some(most, 150);
                    for (int i = 0; i < k; i++)
                    {
                        log_one(p, sim::choose(3));
                        h::pause(2);
                    }
                });
    }
}

//! One registered callback: [on0, on1] around its registration, [off0, off1] around its removal
struct Reg { uint64_t on0, on1, off0, off1; std::vector<Got> got; };
std::vector<Reg>* regs;
bool in_cb;
int from_callbacks;     // entries that callbacks may log themselves

std::function<void(Log::Entry)> callback(int r)
{
    return [r](Log::Entry e)
           {
               {
                   sim::Quiet q;
                   SIM_CHECK(!in_cb, "callback-overlap", "the callback runs in two threads at once");
                   in_cb = true;
                   int i = book->find(e, "callback");
                   uint64_t now = sim::stamp();
                   if (i >= 0)
                   {
                       Reg& g = (*regs)[r];
                       SIM_CHECK(g.off1 == ~0ull, "after-disable", "callback called with '%s' after it had been removed", e.message.c_str());
                       for (auto& o : g.got)
                       {
                           SIM_CHECK(o.sent != i, "entry-twice", "callback called twice with '%s'", e.message.c_str());
                       }
                       g.got.push_back({i, now});
                   }
               }
               h::pause(2);
               bool more;
               {
                   sim::Quiet q;
                   more = from_callbacks > 0 && sim::choose(2);
                   from_callbacks -= more;
               }
               if (more)
               {
                   log_one(8, sim::choose(3));      // a callback that logs
               }
               sim::Quiet q;
               in_cb = false;
           };
}

//! threshold: least severe kind the handler may see
void check_regs(int threshold)
{
    sim::Quiet q;
    for (auto& g : *regs)
    {
        for (size_t k = 0; k < g.got.size(); k++)
        {
            auto& s = book->sent[g.got[k].sent];
            SIM_CHECK(s.kind <= threshold, "below-threshold", "callback called with '%s' of kind %s, less severe than the threshold %s", s.text.c_str(), kinds[s.kind], kinds[threshold]);
            for (size_t j = 0; j < k; j++)
            {
                auto& b = book->sent[g.got[j].sent];
                SIM_CHECK(b.before < s.after, "entry-order", "'%s' reached the callback before '%s', although it had been logged after it", b.text.c_str(), s.text.c_str());
            }
        }
        size_t last = 0;
        for (auto& d : book->delivered)
        {
            auto& s = book->sent[d.sent];
            if (s.kind <= threshold && d.first > g.on1 && d.last < g.off0)
            {
                bool found = false;
                for (size_t k = 0; k < g.got.size(); k++)
                {
                    if (g.got[k].sent == d.sent)
                    {
                        found = true;
                        SIM_CHECK(k >= last, "entry-order", "'%s' reached the callback out of the order of delivery", s.text.c_str());
                        last = k;
                    }
                }
                SIM_CHECK(found, "entry-lost", "'%s' (%s) was delivered by the logging module while the handler was enabled, but its callback was never called with it", s.text.c_str(), kinds[s.kind]);
            }
        }
    }
}

size_t reg_begin()
{
    sim::Quiet q;
    regs->push_back({sim::stamp(), ~0ull, ~0ull, ~0ull, {}});
    return regs->size() - 1;
}
void reg_on(size_t r)
{
    sim::Quiet q;
    (*regs)[r].on1 = sim::stamp();
}
void reg_off0(size_t r)
{
    sim::Quiet q;
    (*regs)[r].off0 = sim::stamp();
}
void reg_off1(size_t r)
{
    sim::Quiet q;
    (*regs)[r].off1 = sim::stamp();
}

void setup(Log::Kind v)
{
    {
        sim::Quiet q;
        book = new Book();
        regs = new std::vector<Reg>();
        book->sent.reserve(64);
        regs->reserve(16);
    }
    Log::SetVerbosity(v);
    Log::RegisterConsumer(std::unique_ptr<LogConsumer>(new First()));
}

} // namespace

// ---------------------------------------------------------------- L01

SCENARIO(L01, lifecycle, 4)
{
    h::usual_faults();
    setup(Log::Kind::Info);
    bool ctor_cb = sim::choose(2);
    int np = h::some(2, 8);
    from_callbacks = sim::choose(3) ? 0 : 1 + sim::choose(4);
    const bool nested = from_callbacks;     // flushing need not wait for what is logged meanwhile
    sim::describe("%d logging threads while a handler is created %s, enabled, disabled, changed and destroyed", np, ctor_cb ? "with a callback" : "without callback");
    Thrs ts;
    producers(ts, np, 4);
    h::pause(4);
    size_t cur = ~0ull;
    std::unique_ptr<LogEventHandler> e;
    if (ctor_cb)
    {
        cur = reg_begin();
        e.reset(new LogEventHandler(callback((int)cur)));
        reg_on(cur);
    }
    else
    {
        e.reset(new LogEventHandler());
    }
    Log::RegisterConsumer(std::unique_ptr<LogConsumer>(new Last()));
    int steps = sim::choose(4);
    for (int i = 0; i < steps; i++)
    {
        h::pause(4);
        if (sim::choose(2))
        {
            size_t n = reg_begin();
            if (cur != ~0ull)
            {
                reg_off0(cur);
            }
            e->set_callback(callback((int)n));
            reg_on(n);
            if (cur != ~0ull)
            {
                reg_off1(cur);
            }
            cur = n;
        }
        else
        {
            if (cur != ~0ull)
            {
                reg_off0(cur);
            }
            e->unset_callback();
            if (cur != ~0ull)
            {
                reg_off1(cur);
            }
            cur = ~0ull;
        }
    }
    h::pause(4);
    bool keep = sim::choose(2);
    if (keep)
    {
        h::join(ts);
        Log::Flush();
        size_t n = 0;
        {
            sim::Quiet q;
            for (auto& g : *regs)
            {
                n += g.got.size();
            }
        }
        uint32_t c = e->event_count();
        SIM_CHECK(c >= n || nested, "count", "the handler counted %u events although its callbacks ran %zu times", c, n);
    }
    if (cur != ~0ull)
    {
        reg_off0(cur);
    }
    e.reset();
    if (cur != ~0ull)
    {
        reg_off1(cur);
    }
    sim::probe("destroyed");
    h::join(ts);
    log_one(9, 0);
    Log::Flush();
    check_regs(2);
    Log::KillThread();
}

SCENARIO(L01, severe, 4)
{
    h::usual_faults();
    Log::Kind th = (Log::Kind)sim::choose(3);
    bool quiet_before = sim::choose(2);   // verbosity not enough for the threshold before the handler exists
    setup(quiet_before ? Log::Kind::Error : Log::Kind::Info);
    int np = h::some(2, 8);
    sim::describe("handler for %s or worse, %d logging threads, verbosity %s before", kinds[th], np, quiet_before ? "Error" : "Info");
    Thrs ts;
    bool already = sim::choose(2);
    if (already)
    {
        producers(ts, np, 4);
        h::pause(3);
    }
    size_t cur = reg_begin();
    std::unique_ptr<LogSevereEventHandler> e(new LogSevereEventHandler(callback((int)cur), th));
    reg_on(cur);
    uint64_t verbosity_from;
    {
        sim::Quiet q;
        verbosity_from = sim::stamp();
    }
    Log::RegisterConsumer(std::unique_ptr<LogConsumer>(new Last()));
    if (!already)
    {
        producers(ts, np, 4);
    }
    bool change = sim::chance(1, 3);
    if (change)
    {
        h::pause(4);
        size_t n = reg_begin();
        reg_off0(cur);
        e->set_callback(callback((int)n));
        reg_on(n);
        reg_off1(cur);
        cur = n;
    }
    if (sim::choose(2))
    {
        h::join(ts);
        Log::Flush();
        sim::Quiet q;
        size_t n = 0;
        for (auto& g : *regs)
        {
            n += g.got.size();
        }
        uint32_t c = e->event_count();
        SIM_CHECK(c == n || c > n /* messages of the library itself */, "count", "the handler counted %u events, its callback ran %zu times", c, n);
        // every entry logged once the handler existed and severe enough must have been delivered
        for (auto& s : book->sent)
        {
            bool d = false;
            for (auto& x : book->delivered)
            {
                d |= &book->sent[x.sent] == &s;
            }
            SIM_CHECK(d || s.before < verbosity_from || s.kind > (int)th, "entry-lost", "'%s' (%s) was not delivered although a handler for %s or worse existed", s.text.c_str(), kinds[s.kind], kinds[th]);
        }
        sim::probe("flushed-before-destruction");
    }
    else
    {
        h::pause(4);
    }
    reg_off0(cur);
    e.reset();
    reg_off1(cur);
    h::join(ts);
    log_one(9, 0);
    Log::Flush();
    check_regs(th);
    Log::KillThread();
}

//! The same texts again and again, the verbosity being changed meanwhile
SCENARIO(L01, same, 2)
{
    h::usual_faults();
    Log::SetVerbosity(Log::Kind::Info);
    static int queued[3], ran[3];
    struct Count : public LogConsumer
    {
        void Consume(const Log::Entry& e) override
        {
            sim::Quiet q;
            if (std::string("SIMLOG") == (e.context.category ? e.context.category : ""))
            {
                queued[(int)e.kind]++;
            }
        }
    };
    Log::RegisterConsumer(std::unique_ptr<LogConsumer>(new Count()));
    const Log::Kind th = (Log::Kind)sim::choose(3);
    const bool severe = sim::choose(2);
    auto cb = [](const Log::Entry e)
            {
                sim::Quiet q;
                if (std::string("SIMLOG") == (e.context.category ? e.context.category : ""))
                {
                    SIM_CHECK(e.message == "again" || e.message == "and again", "entry-changed", "an entry that nobody logged: '%s'", e.message.c_str());
                    ran[(int)e.kind]++;
                }
            };
    std::unique_ptr<LogEventHandler> e(severe ? new LogSevereEventHandler(cb, th) : new LogEventHandler(cb));
    Log::SetVerbosity(Log::Kind::Info);
    const int np = 1 + sim::choose(3);
    const bool changes = sim::choose(2);
    sim::describe("%d threads log the same texts%s, threshold %s", np, changes ? ", verbosity changed meanwhile" : "", severe ? kinds[th] : "none");
    Thrs ts;
    for (int p = 0; p < np; p++)
    {
        ts.emplace_back("logger", []
                {
                    const int kind = sim::choose(3);
                    for (int k = 1 + sim::choose(6); k > 0; k--)
                    {
                        const char* t = sim::choose(3) ? "again" : "and again";
                        switch (sim::choose(4) ? kind : (int)sim::choose(3))
                        {
                            case 0: EPROSIMA_LOG_ERROR(SIMLOG, t); break;
                            case 1: EPROSIMA_LOG_WARNING(SIMLOG, t); break;
                            default: EPROSIMA_LOG_INFO(SIMLOG, t);
                        }
                        if (sim::choose(2))
                        {
                            h::pause(2);
                        }
                    }
                });
    }
    if (changes)
    {
        ts.emplace_back("verbosity", []
                {
                    for (int k = 1 + sim::choose(4); k > 0; k--)
                    {
                        h::pause(2);
                        Log::SetVerbosity((Log::Kind)sim::choose(3));
                    }
                });
    }
    h::join(ts);
    Log::Flush();
    {
        sim::Quiet q;
        for (int k = 0; k < 3; k++)
        {
            int want = severe && k > (int)th ? 0 : queued[k];
            SIM_CHECK(ran[k] == want, ran[k] < want ? "entry-lost" : "entry-twice", "%d entries of kind %s were delivered, the callback ran %d times", queued[k], kinds[k], ran[k]);
        }
    }
    e.reset();
    Log::KillThread();
}

//! wait_for_event on a log handler
SCENARIO(L01, wait, 2)
{
    h::usual_faults();
    setup(Log::Kind::Info);
    Log::Kind th = (Log::Kind)sim::choose(3);
    int np = h::some(2, 8);
    uint32_t want = 1 + sim::choose(4);
    sim::describe("a thread waits for %u entries of kind %s or worse, %d logging threads", want, kinds[th], np);
    size_t cur = reg_begin();
    auto* e = new LogSevereEventHandler(callback((int)cur), th);
    Log::SetVerbosity(Log::Kind::Info);
    reg_on(cur);
    Log::RegisterConsumer(std::unique_ptr<LogConsumer>(new Last()));
    static int result;
    static size_t seen;
    result = -1;
    Thrs w;
    w.emplace_back("waiter", [=]
            {
                bool r = e->wait_for_event(want);
                sim::Quiet q;
                result = r;
                seen = (*regs)[0].got.size();
            });
    Thrs ts;
    producers(ts, np, 4);
    h::join(ts);
    Log::Flush();
    sim::quiesce();
    {
        sim::Quiet q;
        size_t n = (*regs)[0].got.size();
        if (n >= want)
        {
            SIM_CHECK(result == 1, "wait-stuck", "%zu entries of kind %s or worse were consumed, the thread waiting for %u is still blocked", n, kinds[th], want);
            SIM_CHECK(seen >= want, "wait-early", "wait for %u entries returned when the callback had run %zu times", want, seen);
        }
        else
        {
            SIM_CHECK(result == -1, "wait-early", "wait for %u entries returned after %zu", want, n);
        }
    }
    reg_off0(cur);
    delete e;
    reg_off1(cur);
    h::join(w);
    check_regs(th);
    Log::KillThread();
}

// ---------------------------------------------------------------- L02

SCENARIO(L02, checker, 3)
{
    h::usual_faults();
    setup(Log::Kind::Info);
    Log::Kind th = (Log::Kind)sim::choose(3);
    unsigned expected = h::some(4, 200) - 1, most = h::some(5, 300) - 1;
    int np = h::some(3, 8);
    sim::describe("checker for %s or worse, %u..%u entries expected, %d logging threads", kinds[th], expected, most, np);
    auto* c = new testing::LogChecker(th, expected, most);
    // entries of the given kinds must not be filtered before they reach the checker
    Thrs ts;
    producers(ts, np, 3);
    bool during = sim::choose(2);
    auto count = [&](bool surely, uint64_t at)
            {
                unsigned n = 0;
                for (auto& s : book->sent)
                {
                    n += s.kind <= (int)th && (surely ? s.after < at : s.before < at);
                }
                return n;
            };
    auto check = [&]()
            {
                uint64_t inv;
                {
                    sim::Quiet q;
                    inv = sim::stamp();
                }
                bool r = c->check_valid();
                sim::Quiet q;
                uint64_t ret = sim::stamp();
                unsigned lo = count(true, inv), hi = count(false, ret), mx = std::max(most, expected);
                if (r)
                {
                    SIM_CHECK(hi >= expected && lo <= mx, "wrong-verdict", "check_valid returned true, but between %u and %u entries had been logged and %u..%u were expected", lo, hi, expected, mx);
                }
                else
                {
                    SIM_CHECK(lo < expected || hi > mx, "wrong-verdict", "check_valid returned false, but between %u and %u entries had been logged and %u..%u were expected", lo, hi, expected, mx);
                }
            };
    if (during)
    {
        h::pause(3);
        check();
    }
    h::join(ts);
    check();
    delete c;
    Log::KillThread();
}

namespace {

struct Out { std::vector<std::string> lines; std::string cur; };
Out* outs[2];
struct Buf : public std::streambuf
{
    int which;
    explicit Buf(int w)
        : which(w)
    {
    }
    std::string pending;   // written and not flushed
    void put(char c)
    {
        pending += c;
    }
    void show(char c)
    {
        Out& o = *outs[which];
        if (c == '\n')
        {
            o.lines.push_back(o.cur);
            o.cur.clear();
        }
        else
        {
            o.cur += c;
        }
    }
    int overflow(int c) override
    {
        sim::Quiet q;
        if (c != EOF)
        {
            put((char)c);
        }
        return c;
    }
    int sync() override
    {
        sim::Quiet q;
        for (char c : pending)
        {
            show(c);
        }
        pending.clear();
        return 0;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        sim::Quiet q;
        for (std::streamsize i = 0; i < n; i++)
        {
            put(s[i]);
        }
        return n;
    }
};

} // namespace

SCENARIO(L02, std_consumer, 2)
{
    h::usual_faults();
    setup(Log::Kind::Info);
    static const char* const filters[] = {"", "message", "p0", "x", "SIMLOG", "nothing like this", "message [02468]"};
    BaseLogConfiguration conf;
    Log::Kind v = (Log::Kind)sim::choose(3);
    int f[3];
    for (int k = 0; k < 3; k++)
    {
        f[k] = sim::choose(sizeof(filters) / sizeof(*filters));
    }
    if (sim::choose(2))
    {
        conf.verbosity = Fuzzy<VerbosityKind>(v);
        for (int k = 0; k < 3; k++)
        {
            conf.filter[(VerbosityKind)k].set_value(filters[f[k]]);
        }
    }
    else
    {
        // given by several, in any order: what is given with the highest level is in force
        static const FuzzyLevelType levels[] = {FuzzyLevelValues::fuzzy_level_fuzzy, FuzzyLevelValues::fuzzy_level_set, FuzzyLevelValues::fuzzy_level_hard, 7};
        int ns = 1 + sim::choose(3), turn[4];    // turn[0]: that of the verbosity
        for (int& t : turn)
        {
            t = sim::choose(ns);
        }
        for (int i = 0; i < ns; i++)
        {
            // the one of the chosen turn is of the highest level
            auto level = [&](int what)
                    {
                        return i == turn[what] ? levels[2] : levels[i % 2 ? 1 : sim::choose(2) * 3];
                    };
            conf.set(Fuzzy<VerbosityKind>(i == turn[0] ? v : (VerbosityKind)sim::choose(3), level(0)));
            LogFilter lf;
            for (int k = 0; k < 3; k++)
            {
                lf[(VerbosityKind)k].set_value(i == turn[k + 1] ? filters[f[k]] : filters[sim::choose(7)], level(k + 1));
            }
            conf.set(lf);
        }
    }
    int np = h::some(2, 8);
    sim::describe("standard consumer, verbosity %s, filters '%s' '%s' '%s', %d logging threads", kinds[v], filters[f[0]], filters[f[1]], filters[f[2]], np);
    {
        sim::Quiet q;
        outs[0] = new Out();
        outs[1] = new Out();
    }
    auto* b0 = new Buf(0);
    auto* b1 = new Buf(1);
    auto* o0 = std::cout.rdbuf(b0);
    auto* o1 = std::cerr.rdbuf(b1);
    Log::RegisterConsumer(std::make_unique<StdLogConsumer>(&conf));
    Log::RegisterConsumer(std::unique_ptr<LogConsumer>(new Last()));
    Thrs ts;
    producers(ts, np, 3);
    if (sim::choose(2))
    {
        // the configuration is only used for construction
        conf.filter[VerbosityKind::Error].set_value("changed afterwards");
        conf.verbosity = Fuzzy<VerbosityKind>(Log::Kind::Error);
    }
    h::join(ts);
    Log::Flush();
    std::cout.rdbuf(o0);
    std::cerr.rdbuf(o1);
    {
        sim::Quiet q;
        SIM_CHECK(b0->pending.empty() && b1->pending.empty(), "output", "the end of the output was not flushed");
        size_t at[2] = {0, 0};
        for (auto& d : book->delivered)
        {
            auto& s = book->sent[d.sent];
            bool match;
            switch (f[s.kind])
            {
                case 0:
                case 1:
                case 4:
                    match = true;
                    break;
                case 2:
                    match = s.producer == 0;
                    break;
                case 3:
                    match = s.text.find('x') != std::string::npos;
                    break;
                case 5:
                    match = false;
                    break;
                default:
                    match = strchr("02468", s.text[s.text.find("message ") + 8]) != nullptr;
            }
            bool want = s.kind <= (int)v && match;
            int stream = s.kind == 2 ? 0 : 1;
            auto& L = outs[stream]->lines;
            if (!want)
            {
                continue;
            }
            std::string line = at[stream] < L.size() ? L[at[stream]] : "";
            size_t p = line.find(s.text);
            bool ok = p != std::string::npos && (p + s.text.size() == line.size() || line[p + s.text.size()] == ' ');
            // with what it is about before, and where it comes from after
            size_t c = line.find("SIMLOG"), kd = line.find(kinds[s.kind]), fn = line.find("Function");
            ok = ok && c < p && kd < p && fn != std::string::npos && fn > p;
            SIM_CHECK(ok, "output", "line %zu of %s is '%s', expected the entry '%s' (%s)", at[stream], stream ? "stderr" : "stdout", line.c_str(), s.text.c_str(), kinds[s.kind]);
            at[stream]++;
        }
        for (int i = 0; i < 2; i++)
        {
            SIM_CHECK(at[i] == outs[i]->lines.size() && outs[i]->cur.empty(), "output", "%s has %zu lines, %zu accepted entries belong there; first extra one: '%s'", i ? "stderr" : "stdout",
                    outs[i]->lines.size(), at[i], at[i] < outs[i]->lines.size() ? outs[i]->lines[at[i]].c_str() : outs[i]->cur.c_str());
        }
        sim::probe("std-consumer-checked");
    }
    Log::KillThread();
}

// ---------------------------------------------------------------- objects that have nothing to do with each other

namespace {

void say(int kind, const std::string& t)
{
    switch (kind)
    {
        case 0:
            EPROSIMA_LOG_ERROR(SIMLOG, t);
            break;
        case 1:
            EPROSIMA_LOG_WARNING(SIMLOG, t);
            break;
        default:
            EPROSIMA_LOG_INFO(SIMLOG, t);
            break;
    }
}

//! Something that is told about entries, and what it should have been told
struct Listener
{
    std::vector<std::string> want, got;
    int th = 2;
    bool on = true;
    virtual ~Listener()
    {
    }
    virtual bool wants(int kind, const std::string&)
    {
        return on && kind <= th;
    }
    void heard(const Log::Entry& e)
    {
        sim::Quiet q;
        if (std::string("SIMLOG") == (e.context.category ? e.context.category : ""))
        {
            got.push_back(e.message);
        }
    }
    virtual void check()
    {
        sim::Quiet q;
        if (got != want)
        {
            size_t i = 0;
            while (i < got.size() && i < want.size() && got[i] == want[i])
            {
                i++;
            }
            sim::violation("not-independent", "one of several (threshold %s) was told of %zu entries instead of %zu; entry %zu: '%s' instead of '%s'", kinds[th], got.size(), want.size(), i,
                    i < got.size() ? got[i].c_str() : "none", i < want.size() ? want[i].c_str() : "none");
        }
    }
    virtual void change()
    {
    }
};
struct HandlerListener : public Listener
{
    std::unique_ptr<LogEventHandler> e;
    std::function<void(Log::Entry)> cb()
    {
        return [this](Log::Entry x)
               {
                   heard(x);
               };
    }
    HandlerListener()
    {
        if (sim::choose(2))
        {
            th = sim::choose(3);
            e.reset(new LogSevereEventHandler(cb(), (Log::Kind)th));
            Log::SetVerbosity(Log::Kind::Info);
        }
        else
        {
            e.reset(new LogEventHandler(cb()));
        }
    }
    void change() override
    {
        on = !on;
        if (on)
        {
            e->set_callback(cb());
        }
        else
        {
            e->unset_callback();
        }
    }
};
struct CheckerListener : public Listener
{
    unsigned lo, hi;
    std::unique_ptr<testing::LogChecker> c;
    CheckerListener()
        : lo(sim::choose(4))
        , hi(sim::choose(6))
    {
        th = sim::choose(3);
        c.reset(new testing::LogChecker((Log::Kind)th, lo, hi));
        Log::SetVerbosity(Log::Kind::Info);
    }
    void check() override
    {
        bool r = c->check_valid(), w = want.size() >= lo && want.size() <= std::max(lo, hi);
        SIM_CHECK(r == w, "not-independent", "one of several checkers (%s or worse, %u..%u expected) found %zu entries %s", kinds[th], lo, hi, want.size(), r ? "right" : "wrong");
    }
};
struct FilterListener : public Listener
{
    std::string filter;
    bool* gone = new bool(false);
    struct C : public BaseLogConsumer
    {
        FilterListener* l;
        bool* gone;
        C(FilterListener* l, const BaseLogConfiguration* c)
            : BaseLogConsumer(c)
            , l(l)
            , gone(l->gone)
        {
        }
        void Consume(const Log::Entry& e) override
        {
            if (accept_entry_(e) && !*gone)
            {
                l->heard(e);
            }
        }
    };
    FilterListener()
    {
        static const char* const filters[] = {"", "even", "odd", "SIMLOG", "nothing like this"};
        filter = filters[sim::choose(5)];
        th = sim::choose(3);
        BaseLogConfiguration conf;
        conf.verbosity = Fuzzy<VerbosityKind>((Log::Kind)th);
        for (int k = 0; k < 3; k++)
        {
            conf.filter[(VerbosityKind)k].set_value(filter);
        }
        Log::RegisterConsumer(std::unique_ptr<LogConsumer>(new C(this, &conf)));
    }
    ~FilterListener()
    {
        *gone = true;
    }
    bool wants(int kind, const std::string& t) override
    {
        return kind <= th && (filter.empty() || filter == "SIMLOG" || t.find(filter) != std::string::npos);
    }
};

void listeners(bool handlers)
{
    h::usual_faults();
    Log::SetVerbosity(Log::Kind::Info);
    sim::describe("several %s at once", handlers ? "log event handlers" : "log checkers and consumers");
    std::vector<std::unique_ptr<Listener>> ls;
    auto add = [&]()
            {
                ls.emplace_back(handlers ? (Listener*)new HandlerListener() : sim::choose(2) ? (Listener*)new CheckerListener() : (Listener*)new FilterListener());
            };
    add();
    add();
    int n = 2 + sim::choose(10), id = 0;
    for (int i = 0; i < n; i++)
    {
        switch (sim::choose(6))
        {
            case 0:
                if (ls.size() < 4)
                {
                    Log::Flush();   // what was logged before may still be on its way
                    add();
                }
                break;
            case 1:
                if (ls.size() > 1 && sim::choose(2))
                {
                    Log::Flush();
                    ls.erase(ls.begin() + sim::choose(ls.size()));
                }
                else
                {
                    Log::Flush();
                    ls[sim::choose(ls.size())]->change();
                }
                break;
            default:
            {
                int kind = sim::choose(3);
                std::string t = std::string(id % 2 ? "odd" : "even") + " message " + std::to_string(id);
                id++;
                for (auto& l : ls)
                {
                    if (l->wants(kind, t))
                    {
                        l->want.push_back(t);
                    }
                }
                say(kind, t);
            }
        }
        if (sim::choose(3) == 0)
        {
            Log::Flush();
            for (auto& l : ls)
            {
                l->check();
            }
        }
    }
    Log::Flush();
    for (auto& l : ls)
    {
        l->check();
    }
    ls.clear();
    say(0, "one more");
    Log::Flush();
    Log::KillThread();
}

} // namespace

SCENARIO(L01, several, 1)
{
    listeners(true);
}
SCENARIO(L02, several, 1)
{
    listeners(false);
}
