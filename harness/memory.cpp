// M01: owner / lessee / guarded pointers.
#include "h.hpp"
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/exception/ValueAccessException.hpp>
#include <cpp_utils/memory/owner_ptr.hpp>

using namespace eprosima::utils;
using h::Thr;
using h::Thrs;

namespace {

struct Payload
{
    int id;
    uint32_t magic;
    explicit Payload(int i)
        : id(i)
        , magic(0x600dda7a)
    {
    }
    ~Payload()
    {
        magic = 0xdeadbeef;
    }
    //! Somebody uses the data for a while
    int use();
};

struct Info { bool alive; int users; int deleted; int by; };
Info info[32];
int ninfo;

int Payload::use()
{
    {
        sim::Quiet q;
        SIM_CHECK(info[id].alive, "destroyed-in-use", "data %d has been destroyed and a lessee is given access to it", id);
        info[id].users++;
    }
    uint32_t before = magic;
    h::pause(3);
    uint32_t after = magic;
    sim::Quiet q;
    SIM_CHECK(before == 0x600dda7a && after == before, "destroyed-in-use", "data %d was destroyed while a lessee was using it", id);
    info[id].users--;
    return id;
}

Payload* make()
{
    int i;
    {
        sim::Quiet q;
        i = ninfo++;
        info[i] = {true, 0, 0, -1};
    }
    return new Payload(i);
}

void on_delete(Payload* p)
{
    sim::Quiet q;
    Info& i = info[p->id];
    i.deleted++;
    SIM_CHECK(i.deleted == 1, "deleted-twice", "data %d deleted twice", p->id);
    SIM_CHECK(i.users == 0, "destroyed-in-use", "data %d is destroyed while a lessee is using it", p->id);
    SIM_CHECK(i.by == sim::self(), "wrong-owner", "data %d destroyed by thread %d, its owner acts in thread %d", p->id, sim::self(), i.by);
    i.alive = false;
}

std::function<void(Payload*)> deleter(bool park)
{
    return [park](Payload* p)
           {
               on_delete(p);
               h::pause(2);
               if (!park)
               {
                   delete p;
               }
           };
}

//! a lessee's view of the data it was leased
struct View { int id; };

void lessee_work(LesseePtr<Payload> l, int id, int steps, bool arrow, bool recursive)
{
    bool gone = false;   // a false is persistent
    auto missing = [&](const char* how)
            {
                sim::Quiet q;
                SIM_CHECK(id < 0 || info[id].by != -2, "lost-data", "%s: data %d is not available, although its owner has not destroyed it", how, id);
                gone = true;
            };
    auto present = [&](const char* how)
            {
                SIM_CHECK(!gone, "resurrected", "%s: data %d is available again after having been reported as gone", how, id);
            };
    for (int k = 0; k < steps; k++)
    {
        switch (sim::choose(arrow ? 7 : 6))
        {
            case 0:
            {
                auto g = l.lock();
                if (g)
                {
                    present("lock");
                    SIM_CHECK(g->id == id, "wrong-data", "a lessee of data %d was given data %d", id, g->id);
                    g->use();
                    SIM_CHECK(g.get() == &*g, "wrong-data", "get() and * differ");
                }
                else
                {
                    missing("lock");
                }
                break;
            }
            case 1:
                try
                {
                    auto g = l.lock_with_exception();
                    SIM_CHECK((bool)g, "no-exception", "lock_with_exception returned an empty guard");
                    present("lock_with_exception");
                    g->use();
                }
                catch (const ValueAccessException&)
                {
                    missing("lock_with_exception");
                }
                break;
            case 2:
            {
                bool b = (bool)l;
                if (!b)
                {
                    missing("bool");
                }
                else
                {
                    present("bool");
                }
                break;
            }
            case 3:
            {
                // move construction keeps the protection
                auto g = l.lock();
                GuardedPtr<Payload> g2(std::move(g));
                if (g2)
                {
                    h::pause(2);
                    g2->use();
                }
                else
                {
                    missing("lock");
                }
                break;
            }
            case 4:
            {
                LesseePtr<Payload> l2(l);
                LesseePtr<Payload> l3;
                l3 = std::move(l2);
                auto g = l3.lock();
                if (g)
                {
                    SIM_CHECK(g->use() == id, "wrong-data", "a copied lessee changed its data");
                }
                else
                {
                    missing("lock");
                }
                SIM_CHECK(!l2.lock(), "wrong-data", "a moved-from lessee gives access");
                break;
            }
            case 5:
            {
                if (!recursive)
                {
                    break;
                }
                // move assignment releases the data guarded before, if any
                auto g = l.lock();
                if (sim::choose(3) == 0)
                {
                    GuardedPtr<Payload> away(std::move(g));
                }
                auto other = l.lock();
                g = std::move(other);
                if (g)
                {
                    g->use();
                }
                else
                {
                    missing("lock");
                }
                break;
            }
            default:
                try
                {
                    SIM_CHECK(l->use() == id, "wrong-data", "a lessee of data %d was given other data", id);
                }
                catch (const ValueAccessException&)
                {
                    missing("->");
                }
        }
        h::pause(3);
    }
}

void will_delete(int id)
{
    sim::Quiet q;
    info[id].by = sim::self();
}
void own(int id)
{
    sim::Quiet q;
    info[id].by = -2;
}

} // namespace

SCENARIO(M01, lease, 6)
{
    h::usual_faults();
    bool wp = sim::choose(2);
    sim::set_writer_preference(wp);
    ninfo = 0;
    bool builtin = sim::chance(1, 4);
    int nl = h::some(3, 16);
    sim::describe("%d lessee threads, the owner resets, replaces, moves and is destroyed%s", nl, wp ? " (writers first)" : "");
    (void)builtin;
    auto* o = new OwnerPtr<Payload>(make(), deleter(false));
    own(0);
    SIM_CHECK((bool)*o && (*o)->id == 0 && o->get()->id == 0 && (**o).id == 0, "wrong-data", "the owner gives no access to its data");
    Thrs ts;
    int cur = 0;
    auto lease = [&](int id)
            {
                auto l = o->lease();
                int st = 1 + sim::choose(4);
                ts.emplace_back("lessee", [l, id, st, wp]
                        {
                            lessee_work(l, id, st, true, !wp);
                        });
            };
    for (int i = 0; i < nl; i++)
    {
        lease(0);
    }
    int steps = h::some(4, 12) - 1;
    auto destroyed = [&](int id, const char* how)
            {
                sim::Quiet q;
                SIM_CHECK(info[id].deleted == 1, "not-deleted", "%s returned and data %d still exists", how, id);
            };
    bool over = false;
    for (int k = 0; k < steps && !over; k++)
    {
        h::pause(4);
        switch (sim::choose(5))
        {
            case 0:
            {
                auto l = o->lease();
                if (cur >= 0)
                {
                    will_delete(cur);
                    o->reset();
                    destroyed(cur, "reset()");
                }
                SIM_CHECK(!l && !l.lock() && !*o && *o == nullptr, "not-deleted", "data is still available after the owner was reset");
                bool thrown = false;
                try
                {
                    l.lock_with_exception();
                }
                catch (const ValueAccessException&)
                {
                    thrown = true;
                }
                SIM_CHECK(thrown, "no-exception", "lock_with_exception did not throw although the data was destroyed");
                cur = -1;
                break;
            }
            case 1:
            {
                Payload* p = make();
                int id = p->id;
                own(id);
                if (cur >= 0)
                {
                    will_delete(cur);
                }
                o->reset(p, deleter(false));
                if (cur >= 0)
                {
                    destroyed(cur, "reset(new data)");
                }
                cur = id;
                if ((int)ts.size() < nl + 2)
                {
                    lease(cur);
                }
                break;
            }
            case 2:
            {
                // the data moves to another owner: leases stay valid, nothing is destroyed
                auto* n = new OwnerPtr<Payload>(std::move(*o));
                SIM_CHECK(!*o, "wrong-data", "a moved-from owner still has data");
                delete o;
                o = n;
                if (cur >= 0)
                {
                    sim::Quiet q;
                    SIM_CHECK(info[cur].deleted == 0, "lost-data", "moving an owner destroyed its data");
                }
                break;
            }
            case 3:
            {
                Payload* p = make();
                int id = p->id;
                own(id);
                OwnerPtr<Payload> n(p, deleter(false));
                if (cur >= 0)
                {
                    will_delete(cur);
                }
                *o = std::move(n);
                if (cur >= 0)
                {
                    destroyed(cur, "move assignment");
                }
                SIM_CHECK(*o && (*o)->id == id && !n, "wrong-data", "move assignment did not move the data");
                cur = id;
                break;
            }
            default:
            {
                // the owner itself may be destroyed by another thread
                Thrs d;
                int c = cur;
                OwnerPtr<Payload>* oo = o;
                d.emplace_back("destroyer", [=]
                        {
                            if (c >= 0)
                            {
                                will_delete(c);
                            }
                            delete oo;
                        });
                h::join(d);
                if (cur >= 0)
                {
                    destroyed(cur, "the destructor");
                }
                over = true;
            }
        }
    }
    if (!over)
    {
        h::pause(4);
        if (cur >= 0)
        {
            will_delete(cur);
        }
        delete o;
        if (cur >= 0)
        {
            destroyed(cur, "the destructor");
        }
    }
    h::join(ts);
    sim::Quiet q;
    for (int i = 0; i < ninfo; i++)
    {
        SIM_CHECK(info[i].deleted == 1, "not-deleted", "data %d was deleted %d times", i, info[i].deleted);
    }
}

//! The default deleter, and a reset that fails
SCENARIO(M01, plain, 1)
{
    h::usual_faults();
    int nl = h::some(3, 16);
    sim::describe("%d lessee threads of a vector, default deleter", nl);
    int64_t before = sim::live_allocs();
    {
        auto o = std::make_shared<OwnerPtr<std::vector<int>>>(new std::vector<int>(8, 7));
        Thrs ts;
        for (int i = 0; i < nl; i++)
        {
            auto l = o->lease();
            int n = 1 + sim::choose(3);
            ts.emplace_back("lessee", [l, n]
                    {
                        for (int k = 0; k < n; k++)
                        {
                            {
                                auto g = l.lock();
                                if (g)
                                {
                                    int s = 0;
                                    for (size_t x = 0; x < g->size(); x++)
                                    {
                                        s += (*g)[x];
                                    }
                                    SIM_CHECK(s == 56, "destroyed-in-use", "the vector sums %d", s);
                                }
                            }
                            h::pause(3);
                        }
                    });
        }
        h::pause(4);
        bool bad = sim::choose(2);
        if (bad)
        {
            bool thrown = false;
            try
            {
                o->reset(nullptr);
            }
            catch (const InitializationException&)
            {
                thrown = true;
            }
            SIM_CHECK(thrown, "no-exception", "an owner accepted a null pointer");
        }
        h::pause(3);
        o.reset();
        h::join(ts);
    }
    (void)before;
}

//! Through operator * (the data is never freed here, only marked as destroyed)
SCENARIO(M01, star, 1)
{
    h::usual_faults();
    ninfo = 0;
    int nl = 1 + sim::choose(2);
    sim::describe("%d lessee threads use the data through *, the owner resets", nl);
    auto* o = new OwnerPtr<Payload>(make(), deleter(true));
    own(0);
    Thrs ts;
    for (int i = 0; i < nl; i++)
    {
        auto l = o->lease();
        ts.emplace_back("lessee", [l]
                {
                    for (int k = 0; k < 2; k++)
                    {
                        try
                        {
                            (*l).use();
                        }
                        catch (const ValueAccessException&)
                        {
                            sim::Quiet q;
                            SIM_CHECK(info[0].by != -2, "lost-data", "*: the data is not available although its owner has not destroyed it");
                        }
                    }
                });
    }
    h::pause(4);
    will_delete(0);
    o->reset();
    h::join(ts);
    delete o;
}

// ---------------------------------------------------------------- objects that have nothing to do with each other

namespace {

struct OwnData
{
    int id;
    OwnerPtr<Payload>* o;
    std::vector<std::pair<LesseePtr<Payload>, int>> leased;
    OwnData()
    {
        auto* p = make();
        id = p->id;
        o = new OwnerPtr<Payload>(p, deleter(false));
    }
    ~OwnData()
    {
        if (id >= 0)
        {
            will_delete(id);
        }
        delete o;
        ended();
        look();
    }
    void ended()
    {
        sim::Quiet q;
        SIM_CHECK(id < 0 || !info[id].alive, "not-independent", "data %d lives on after its owner gave it up", id);
        id = -1;
    }
    void look()
    {
        for (auto& l : leased)
        {
            bool there = l.second == id && id >= 0;
            SIM_CHECK((bool)l.first == there, "not-independent", "a lessee of data %d that is %s says it is %s", l.second, there ? "there" : "gone", there ? "gone" : "there");
            auto g = l.first.lock();
            SIM_CHECK((bool)g == there, "not-independent", "a lessee of data %d that is %s gets %s", l.second, there ? "there" : "gone", there ? "nothing" : "access");
            if (g)
            {
                SIM_CHECK(g->use() == id, "not-independent", "a lessee of data %d was given other data", id);
            }
        }
    }
    void step()
    {
        switch (sim::choose(6))
        {
            case 0:
                if (id >= 0)
                {
                    will_delete(id);
                }
                o->reset();
                ended();
                break;
            case 1:
            {
                auto* p = make();
                if (id >= 0)
                {
                    will_delete(id);
                }
                int fresh = p->id;
                o->reset(p, deleter(false));
                ended();
                id = fresh;
                break;
            }
            case 2:
                SIM_CHECK((bool)*o == (id >= 0), "not-independent", "an owner of %d says it has%s data", id, id >= 0 ? " no" : "");
                if (id >= 0)
                {
                    SIM_CHECK((*o)->id == id, "not-independent", "the owner of data %d gives data %d", id, (*o)->id);
                }
                break;
            case 3:
                look();
                break;
            default:
                if (leased.size() < 3)
                {
                    leased.emplace_back(o->lease(), id);
                }
        }
    }
};

} // namespace

SCENARIO(M01, apart, 1)
{
    h::usual_faults();
    sim::set_writer_preference(sim::choose(2));
    ninfo = 0;
    h::apart<OwnData>("owners", 2, 5, 2);
}

//! Data is given up while other data is in use
SCENARIO(M01, nested, 1)
{
    h::usual_faults();
    ninfo = 0;
    sim::describe("an owner gives up its data while the thread uses data of another");
    auto* pa = make();
    int ia = pa->id;
    OwnerPtr<Payload> a(pa, deleter(false));
    own(ia);
    auto* pb = make();
    int ib = pb->id;
    auto* b = new OwnerPtr<Payload>(pb, deleter(false));
    own(ib);
    auto la = a.lease(), lb = b->lease();
    Thrs ts;
    ts.emplace_back("lessee", [=]
            {
                lessee_work(lb, ib, 1 + sim::choose(3), false, false);
            });
    sim::context("giving up data while other data is in use");
    {
        auto g = la.lock();
        SIM_CHECK((bool)g, "lost-data", "data %d is not available, although its owner has not destroyed it", ia);
        h::pause(2);
        will_delete(ib);
        if (sim::choose(2))
        {
            b->reset();
        }
        else
        {
            delete b;
            b = nullptr;
        }
        SIM_CHECK(!info[ib].alive, "not-destroyed", "data %d lives on after its owner gave it up", ib);
        g->use();
    }
    h::join(ts);
    delete b;
    will_delete(ia);
}

//! As many lessees and guards of the same data as there may be
SCENARIO(M01, capacity, 1)
{
    h::usual_faults();
    sim::set_writer_preference(false);
    const int n = h::volume(70000), left = sim::choose(3);
    sim::describe("%d lessees use the data when the owner drops it, all but %d of them finish at once", n, left + 1);
    static int deleted;
    static bool returned;
    deleted = 0;
    returned = false;
    auto* o = new OwnerPtr<int>(new int(41), [](int* p)
            {
                sim::Quiet q;
                deleted++;
                delete p;
            });
    std::vector<LesseePtr<int>> ls;
    std::vector<GuardedPtr<int>> gs;
    {
        sim::Quiet q;
        for (int i = 0; i < n; i++)
        {
            ls.push_back(o->lease());
            gs.push_back(ls.back().lock());
            SIM_CHECK(gs.back() && *gs.back() == 41, "gone-early", "lessee %d of %d finds the data gone", i, n);
        }
    }
    Thr t("owner", [=]
            {
                o->reset();
                sim::Quiet q;
                SIM_CHECK(deleted == 1, "not-deleted", "reset() returned, and the data was destroyed %d times", deleted);
                returned = true;
            });
    h::pause(5);
    {
        sim::Quiet q;
        gs.erase(gs.begin() + 1 + left, gs.end());
    }
    sim::quiesce();
    for (int i = left; i >= 0; i--)
    {
        {
            sim::Quiet q;
            SIM_CHECK(!deleted && !returned && *gs[0] == 41, "destroyed-in-use", "the data was destroyed while %d lessees of %d use it", i + 1, n);
        }
        gs.pop_back();
        if (i)
        {
            h::pause(3);
        }
    }
    t.join();
    {
        sim::Quiet q;
        SIM_CHECK(deleted == 1, "not-deleted", "the data was destroyed %d times", deleted);
        for (auto& l : ls)
        {
            SIM_CHECK(!l, "still-there", "a lessee of the data destroyed still finds it");
        }
        ls.clear();
    }
    delete o;
    SIM_CHECK(deleted == 1, "not-deleted", "the data was destroyed %d times", deleted);
}
