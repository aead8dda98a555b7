// D01, D02: the thread-safe key / value database.
#include "h.hpp"
#include <stdexcept>
#include <cpp_utils/collection/database/SafeDatabase.hpp>

using namespace eprosima::utils;
using h::Thr;
using h::Thrs;

namespace {

using Map = std::map<int, int>;

struct CopyFailed {};
//! A value whose two halves must agree
struct Val
{
    int a;
    int b;
    std::string s;
    Val(int v = 0)
        : a(v)
        , b(~v)
        , s(v % 2 ? std::string(24, 'a' + v % 20) : std::string())
    {
    }
    Val(const Val& o)
        : a(o.a)
        , b(o.b)
        , s(o.s)
    {
        if (sim::fault(sim::F_THROW))
        {
            throw CopyFailed();
        }
    }
    Val(Val&& o) = default;
    Val& operator =(Val&& o) = default;
    Val& operator =(const Val& o)
    {
        if (sim::fault(sim::F_THROW))
        {
            throw CopyFailed();
        }
        a = o.a;
        b = o.b;
        s = o.s;
        return *this;
    }
    int get() const
    {
        SIM_CHECK(a == ~b && (s.empty() || s == std::string(24, 'a' + a % 20)), "corrupted-value", "a value read from the database is corrupted (%d, %d)", a, ~b);
        return a;
    }
};
struct Key
{
    int k;
    Key(int i)
        : k(i)
    {
    }
    bool operator <(const Key& o) const
    {
        return k < o.k;
    }
};

using Db = SafeDatabase<Key, Val>;
using L = h::Lin<Map>;

std::string show(const Map& m)
{
    std::string t;
    for (auto& p : m)
    {
        t += std::to_string(p.first) + ":" + std::to_string(p.second) + ",";
    }
    return t;
}

struct Shared { Db* db; L* lin; int next; Map initial; };
Shared* S;

int fresh()
{
    sim::Quiet q;
    return S->next++;
}

std::function<bool(Map&)> same_result(std::function<int(Map&)> f, int want)
{
    return [f, want](Map& m)
           {
               return f(m) == want;
           };
}

//! f(), undone if it fails for lack of memory or because a value cannot be copied. Whether it ended
template <typename F>
bool may_fail(F f)
{
    try
    {
        sim::AllocFaults a;
        f();
        return true;
    }
    catch (const std::bad_alloc&)
    {
        sim::probe("operation-without-memory");
    }
    catch (const CopyFailed&)
    {
        sim::probe("copy-failed");
    }
    return false;
}

//! one random operation. mutate: writers; look: iterators
void operation(bool mutate, bool look, int nkeys)
{
    Db& db = *S->db;
    L& l = *S->lin;
    int k = sim::choose(nkeys);
    int v = fresh();
    std::string ks = std::to_string(k), vs = std::to_string(v);
    int r;
    std::function<int(Map&)> f;
    size_t o;
    bool done = true;
    uint32_t which = mutate ? sim::choose(look ? 11 : 8) : 5 + sim::choose(look ? 6 : 3);
    switch (which)
    {
        case 0:
            o = l.begin("add(" + ks + "," + vs + ")");
            done = may_fail([&]
                {
                    Key kk(k);
                    Val vv(v);
                    r = sim::choose(2) ? db.add(Key(k), std::move(vv)) : db.add(kk, vv);
                });
            f = [=](Map& m)
                {
                    return (int)m.insert({k, v}).second;
                };
            break;
        case 1:
        {
            o = l.begin("modify(" + ks + "," + vs + ")");
            done = may_fail([&]
                {
                    r = db.modify(Key(k), Val(v));
                });
            f = [=](Map& m)
                {
                    if (!m.count(k))
                    {
                        return 0;
                    }
                    m[k] = v;
                    return 1;
                };
            break;
        }
        case 2:
            o = l.begin("add_or_modify(" + ks + "," + vs + ")");
            done = may_fail([&]
                {
                    Key kk(k);
                    Val vv(v);
                    r = sim::choose(2) ? db.add_or_modify(Key(k), std::move(vv)) : db.add_or_modify(kk, vv);
                });
            f = [=](Map& m)
                {
                    int is_new = !m.count(k);
                    m[k] = v;
                    return is_new;
                };
            break;
        case 3:
        case 4:
            o = l.begin("erase(" + ks + ")");
            r = db.erase(Key(k));
            f = [=](Map& m)
                {
                    return (int)m.erase(k);
                };
            break;
        case 5:
            o = l.begin("is(" + ks + ")");
            r = db.is(Key(k));
            f = [=](Map& m)
                {
                    return (int)m.count(k);
                };
            break;
        case 6:
            o = l.begin("at(" + ks + ")");
            done = may_fail([&]
                {
                    try
                    {
                        r = db.at(Key(k)).get();
                    }
                    catch (const std::out_of_range&)
                    {
                        r = -1;
                    }
                });
            f = [=](Map& m)
                {
                    return m.count(k) ? m[k] : -1;
                };
            break;
        case 7:
            o = l.begin("size()");
            r = (int)db.size();
            f = [=](Map& m)
                {
                    return (int)m.size();
                };
            break;
        case 8:
        {
            // the element found stays as it is while the iterator exists
            o = l.begin("find(" + ks + ")");
            auto it = db.find(Key(k));
            auto end = db.end();
            if (it == end)
            {
                r = -1;
            }
            else
            {
                SIM_CHECK(it->first.k == k, "wrong-element", "find(%d) gives the element of key %d", k, it->first.k);
                r = it->second.get();
                h::pause(2);
                int r2 = it->second.get();
                SIM_CHECK(r2 == r, "changed-under-iterator", "the value of key %d changed from %d to %d while an iterator to it exists", k, r, r2);
            }
            f = [=](Map& m)
                {
                    return m.count(k) ? m[k] : -1;
                };
            break;
        }
        default:
        {
            // iteration sees one state of the database
            o = l.begin("iterate");
            Map seen;
            {
                int last = -1;
                auto look_at = [&](const std::pair<const Key, Val>& e)
                        {
                            SIM_CHECK(e.first.k > last, "iteration", "iteration gives key %d after key %d", e.first.k, last);
                            last = e.first.k;
                            seen[last] = e.second.get();
                            if (sim::choose(3) == 0)
                            {
                                sim::yield();
                            }
                        };
                switch (sim::choose(3))
                {
                    case 0:
                    {
                        auto end = db.end();
                        for (auto it = db.begin(); it != end; ++it)
                        {
                            look_at(*it);
                        }
                        break;
                    }
                    case 1:
                        for (const auto& e : db)
                        {
                            look_at(e);
                        }
                        break;
                    default:
                    {
                        // copies keep the protection
                        auto b = db.begin();
                        SafeDatabaseIterator<Key, Val> c(b);
                        {
                            SafeDatabaseIterator<Key, Val> d(c);
                            h::pause(1);
                        }
                        auto end = db.end();
                        for (; c != end; ++c)
                        {
                            look_at(*c);
                        }
                    }
                }
            }
            l.end(o, [seen](Map& m)
                    {
                        return m == seen;
                    }, show(seen));
            return;
        }
    }
    if (!done)
    {
        l.end(o, [](Map&)
                {
                    return true;
                }, "failed");
        return;
    }
    l.end(o, same_result(f, r), std::to_string(r));
}

void setup(int prefill)
{
    sim::Quiet q;
    S = new Shared();
    S->lin = new L();
    S->lin->key = [](const Map& m)
            {
                Map few(m.begin(), m.lower_bound(1000));    // the rest never changes
                return show(few);
            };
    S->next = 100;
    S->db = new Db();
    for (int i = 0; i < prefill; i++)
    {
        S->initial[1000 + i] = i;
        S->db->add(Key(1000 + i), Val(i));
    }
}

void finish()
{
    // what is left is explained too
    L& l = *S->lin;
    size_t o = l.begin("final content");
    Map seen;
    {
        auto end = S->db->end();
        for (auto it = S->db->begin(); it != end; ++it)
        {
            seen[it->first.k] = it->second.get();
        }
    }
    l.end(o, [seen](Map& m)
            {
                return m == seen;
            }, show(seen));
    l.check(S->initial, "database");
    delete S->db;
}

} // namespace

SCENARIO(D01, operations, 4)
{
    h::usual_faults();
    bool wp = sim::choose(2);
    sim::set_writer_preference(wp);
    setup(sim::choose(40) == 39 ? 100 + sim::choose(400) : 0);
    int nt = 2 + sim::choose(2), nk = 1 + sim::choose(3), most = 3 + sim::choose(4);
    bool faults = sim::choose(3) == 0;
    sim::describe("%d threads with up to %d operations on %d keys%s%s", nt, most, nk, wp ? ", writers first" : "", faults ? ", copies and allocations fail" : "");
    if (faults)
    {
        sim::set_fault(sim::F_THROW, 2 + sim::choose(10));
        sim::set_fault(sim::F_ALLOC, 2 + sim::choose(10));
    }
    Thrs ts;
    for (int i = 0; i < nt; i++)
    {
        bool reader = sim::choose(3) == 0;
        ts.emplace_back(reader ? "reader" : "writer", [=]
                {
                    int n = 1 + sim::choose(most);
                    for (int j = 0; j < n; j++)
                    {
                        operation(!reader, false, nk);
                        h::pause(2);
                    }
                });
    }
    h::join(ts);
    sim::set_fault(sim::F_THROW, 0);
    sim::set_fault(sim::F_ALLOC, 0);
    finish();
}

SCENARIO(D02, iterators, 4)
{
    h::usual_faults();
    setup(sim::choose(40) == 39 ? 100 + sim::choose(400) : 0);
    int nt = 2 + sim::choose(2), nk = 1 + sim::choose(3), most = 2 + sim::choose(4);
    sim::describe("%d threads with up to %d operations and iterations on %d keys", nt, most, nk);
    Thrs ts;
    for (int i = 0; i < nt; i++)
    {
        bool reader = sim::choose(2) == 0;
        ts.emplace_back(reader ? "reader" : "writer", [=]
                {
                    int n = 1 + sim::choose(most);
                    for (int j = 0; j < n; j++)
                    {
                        operation(!reader, reader || sim::choose(2), nk);
                        h::pause(2);
                    }
                });
    }
    h::join(ts);
    sim::set_fault(sim::F_THROW, 0);
    sim::set_fault(sim::F_ALLOC, 0);
    finish();
}

//! one iterator at a time, writers first: an iterator is never waiting for itself
SCENARIO(D02, writer_first, 1)
{
    h::usual_faults();
    sim::set_writer_preference(true);
    setup(0);
    int nt = 2 + sim::choose(2), nk = 1 + sim::choose(2);
    sim::describe("%d threads search and modify %d keys, writers first", nt, nk);
    Thrs ts;
    for (int i = 0; i < nt; i++)
    {
        bool reader = sim::choose(2) == 0;
        ts.emplace_back(reader ? "reader" : "writer", [=]
                {
                    int n = 1 + sim::choose(3);
                    for (int j = 0; j < n; j++)
                    {
                        if (!reader)
                        {
                            operation(true, false, nk);
                        }
                        else
                        {
                            auto b = S->db->begin();
                            h::pause(2);
                        }
                        if (reader && sim::choose(2))
                        {
                            auto it = S->db->find(Key(0));
                            h::pause(2);
                        }
                        h::pause(2);
                    }
                });
    }
    h::join(ts);
    sim::set_fault(sim::F_THROW, 0);
    sim::set_fault(sim::F_ALLOC, 0);
    finish();
}

// ---------------------------------------------------------------- scenarios that check several properties

ALSO(D01, D02, iterators, 1, "corrupted-value wrong-element");

// ---------------------------------------------------------------- objects that have nothing to do with each other

namespace {

struct OwnDb
{
    Db* db = new Db();
    Map m;
    int next = 0;
    OwnDb()
    {
        next = 100 * (1 + sim::choose(5));
    }
    ~OwnDb()
    {
        delete db;
    }
    void step()
    {
        int k = sim::choose(4), v = next++;
        bool r, w;
        switch (sim::choose(7))
        {
            case 0:
            {
                r = db->add(Key(k), Val(v));
                w = m.insert({k, v}).second;
                SIM_CHECK(r == w, "not-independent", "add(%d) = %d with %s", k, r, show(m).c_str());
                break;
            }
            case 1:
            {
                r = db->modify(Key(k), Val(v));
                w = m.count(k);
                if (w)
                {
                    m[k] = v;
                }
                SIM_CHECK(r == w, "not-independent", "modify(%d) = %d with %s", k, r, show(m).c_str());
                break;
            }
            case 2:
            {
                r = db->add_or_modify(Key(k), Val(v));
                w = !m.count(k);
                m[k] = v;
                SIM_CHECK(r == w, "not-independent", "add_or_modify(%d) = %d with %s", k, r, show(m).c_str());
                break;
            }
            case 3:
                r = db->erase(Key(k));
                w = m.erase(k);
                SIM_CHECK(r == w, "not-independent", "erase(%d) = %d with %s", k, r, show(m).c_str());
                break;
            case 4:
            {
                int x;
                try
                {
                    x = db->at(Key(k)).get();
                }
                catch (const std::out_of_range&)
                {
                    x = -1;
                }
                SIM_CHECK(x == (m.count(k) ? m[k] : -1), "not-independent", "at(%d) = %d with %s", k, x, show(m).c_str());
                break;
            }
            case 5:
            {
                auto s = db->size();
                r = db->is(Key(k));
                SIM_CHECK(s == m.size() && r == (m.count(k) != 0), "not-independent", "size() = %zu, is(%d) = %d with %s", (size_t)s, k, r, show(m).c_str());
                break;
            }
            default:
            {
                Map seen;
                for (const auto& e : *db)
                {
                    seen[e.first.k] = e.second.get();
                    h::pause(1);
                }
                SIM_CHECK(seen == m, "not-independent", "iteration over %s gives %s", show(m).c_str(), show(seen).c_str());
            }
        }
    }
};

} // namespace

SCENARIO(D01, apart, 1)
{
    h::usual_faults();
    h::apart<OwnDb>("databases");
}
ALSO(D02, D01, apart, 1, "not-independent");

//! A database is changed while another one is being iterated
SCENARIO(D02, nested, 1)
{
    h::usual_faults();
    int n = 2 + sim::choose(3);
    sim::describe("a database of %d elements is copied to another while it is iterated", n);
    auto* a = new Db();
    auto* b = new Db();
    for (int i = 0; i < n; i++)
    {
        a->add(Key(i), Val(i));
    }
    sim::context("changing a database while another one is iterated");
    Thrs ts;
    ts.emplace_back("reader", [=]
            {
                for (int k = sim::choose(4); k > 0; k--)
                {
                    h::pause(2);
                    h::use(b->size() + 1);
                }
            });
    {
        auto end = a->end();
        for (auto it = a->begin(); it != end; ++it)
        {
            h::pause(1);
            SIM_CHECK(b->add(it->first, it->second), "wrong-element", "key %d is in the copy already", it->first.k);
        }
    }
    h::join(ts);
    SIM_CHECK(b->size() == (size_t)n, "wrong-element", "%zu elements copied of %d", (size_t)b->size(), n);
    delete a;
    delete b;
}

//! As many elements, and as many iterators at once, as there may be
SCENARIO(D01, capacity, 1)
{
    h::usual_faults();
    const int n = h::volume(33000);
    sim::describe("%d elements in the database", n);
    auto* d = new SafeDatabase<int, int>();
    {
        sim::Quiet q;
        for (int i = 0; i < n; i++)
        {
            int k = i % 2 ? i : n + n % 2 - i;      // neither in order
            SIM_CHECK(d->add(k, ~k), "wrong-result", "element %d of %d was not added", i, n);
        }
    }
    Thrs ts;
    for (int t = 0; t < 2; t++)
    {
        ts.emplace_back("user", [=]
                {
                    for (int j = 0; j < 4; j++)
                    {
                        int k = 1 + 2 * (int)sim::choose(n / 2);
                        SIM_CHECK(d->is(k) && d->at(k) == ~k, "wrong-result", "the element %d added to %d others is not there as it was", k, n);
                        SIM_CHECK(!d->add(k, 0), "wrong-result", "an element was added with a key that is used");
                    }
                });
    }
    h::join(ts);
    {
        sim::Quiet q;
        SIM_CHECK((int)d->size() == n, "wrong-result", "%zu elements, %d were added", (size_t)d->size(), n);
        int seen = 0, last = -1;
        for (auto it = d->begin(); it != d->end(); ++it)
        {
            SIM_CHECK(it->first > last && it->second == ~it->first, "wrong-result", "element %d after %d", it->first, last);
            last = it->first;
            seen++;
        }
        SIM_CHECK(seen == n, "wrong-result", "%d elements of %d were iterated", seen, n);
        for (int i = 0; i < n; i++)
        {
            int k = i % 2 ? i : n + n % 2 - i;
            SIM_CHECK(d->erase(k), "wrong-result", "the element %d was not there to be erased", k);
        }
        SIM_CHECK(d->size() == 0, "wrong-result", "%zu elements after all were erased", (size_t)d->size());
    }
    delete d;
}
SCENARIO(D02, capacity, 1)
{
    h::usual_faults();
    sim::set_writer_preference(false);
    const int n = h::volume(70000);
    sim::describe("%d iterators at once", n);
    auto* d = new SafeDatabase<int, int>();
    d->add(1, 1);
    d->add(2, 2);
    static bool done;
    done = false;
    using It = decltype(d->begin());
    auto* its = new std::vector<std::unique_ptr<It>>();
    {
        sim::Quiet q;
        for (int i = 0; i < n; i++)
        {
            its->emplace_back(i % 3 == 2 ? new It(*its->back()) : new It(d->begin()));
        }
    }
    Thr w("writer", [=]
            {
                d->add(3, 3);
                sim::Quiet q;
                done = true;
            });
    h::pause(4);
    {
        sim::Quiet q;
        its->resize(1);
    }
    sim::quiesce();
    {
        sim::Quiet q;
        SIM_CHECK(!done, "changed-while-iterated", "an element was added while an iterator of %d exists", n);
        SIM_CHECK((*(*its)[0])->first == 1, "changed-while-iterated", "the iterator points to something else");
    }
    its->clear();
    w.join();
    SIM_CHECK(d->is(3), "wrong-result", "the element that waited for the iterators was not added");
    delete its;
    delete d;
}
