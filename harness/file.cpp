// F01: file watcher.
#include "h.hpp"
#include <cpp_utils/event/FileWatcherHandler.hpp>
#include <cpp_utils/file/file_utils.hpp>
#include <cpp_utils/utils.hpp>
#include <algorithm>
#include <cerrno>
#include <sys/inotify.h>

using eprosima::utils::event::FileWatcherHandler;
using h::Thr;
using h::Thrs;

namespace {

struct Period { uint64_t begin, set = ~0ull, calls_end = ~0ull, end = ~0ull; };
struct Call { uint64_t at; int period; };
struct Change { uint64_t begin, end; };

std::vector<Period>* P;
std::vector<Call>* C;
std::vector<Change>* M;       // modifications of the watched file
int inside;
const char* fname;

std::function<void(std::string)> callback(int period, std::shared_ptr<int> token)
{
    return [period, token](std::string f)
           {
               {
                   sim::Quiet q;
                   SIM_CHECK(*token == 77, "destroyed-callback", "the callback that runs was destroyed");
                   SIM_CHECK(f == fname, "wrong-file", "the change of file '%s' was reported, '%s' is watched", f.c_str(), fname);
                   SIM_CHECK((*P)[period].end == ~0ull, "removed-callback", "a callback runs after it was removed");
                   SIM_CHECK(inside == 0, "two-at-once", "two threads run the callback at once");
                   inside++;
                   C->push_back({sim::stamp(), period});
               }
               h::pause(3);
               sim::Quiet q;
               SIM_CHECK((*P)[period].end == ~0ull, "removed-callback", "a callback still runs after it was removed");
               inside--;
           };
}

void check_period(int i, uint64_t quiet_at)
{
    sim::Quiet q;
    Period& p = (*P)[i];
    size_t lo = 0, hi = 0, n = 0;
    for (auto& m : *M)
    {
        lo += m.begin > p.set && m.end < quiet_at && quiet_at != ~0ull;
        hi += m.end > p.begin && m.begin < p.end;
    }
    for (auto& c : *C)
    {
        n += c.period == i;
    }
    SIM_CHECK(n >= lo, "change-lost", "%zu changes of the file while it was watched, %zu reported", lo, n);
    SIM_CHECK(n <= hi, "change-invented", "%zu changes of the file, %zu reported", hi, n);
    if (lo)
    {
        sim::probe("changes-counted");
    }
}

void settle(FileWatcherHandler*)
{
    for (int i = 0; i < 30; i++)
    {
        sim::quiesce();
        {
            sim::Quiet q;
            if (!inside)
            {
                return;
            }
        }
        sim::sleep_ms(50);
    }
}

} // namespace

SCENARIO(F01, watch, 5)
{
    h::usual_faults();
    P = new std::vector<Period>();
    C = new std::vector<Call>();
    M = new std::vector<Change>();
    inside = 0;
    int rounds = 1 + sim::choose(3), nw = 1 + sim::choose(2);
    // the last one is given by the name of the file alone
    static const char* const places[] = {"/etc/app/", "/etc/app/", "/", "d/", "../etc/conf.d/", "/srv/a b/config.yaml/", "./"};
    int place = sim::choose(8);
    place = place > 6 ? 6 : place;
    bool in_dir = place != 6;
    if (sim::choose(2))
    {
        sim::set_fault(sim::F_IO, 2 + sim::choose(6));   // short reads of events, watches that cannot be made
    }
    static const char* const named[] = {"config.yaml", "config.yaml", "config.yaml", ".c", "conf+(1)[a].yaml", "Config"};
    fname = named[sim::choose(6)];
    static std::string dir;
    dir = places[place];
    if (sim::choose(24) == 23)
    {
        // as long as a name can be
        static const std::string longest = std::string(250, 'n') + ".yaml";
        fname = longest.c_str();
    }
    std::string path = in_dir ? dir + fname : fname;
    sim::fs_mkdir(place == 2 ? "/" : dir.substr(0, dir.size() - 1));
    // names that are nearly that of the file
    static std::vector<std::string> others;
    others = {fname + std::string("~"), "other", std::string(fname).substr(0, strlen(fname) - 1), std::string("x") + fname, fname, fname + std::string(".swp")};
    for (auto& o : others)
    {
        o = o.size() > 255 ? "other" : o;       // no name is longer
    }
    for (auto& ch : others[4])
    {
        ch = isupper(ch) ? tolower(ch) : toupper(ch);
    }
    sim::fs_touch(path);
    sim::describe("%d periods watching %s, %d threads write files of its directory", rounds, path.c_str(), nw);
    Thrs ts;
    for (int i = 0; i < nw; i++)
    {
        ts.emplace_back("writer", []
                {
                    int n = h::some(8, 120);
                    static const uint32_t kinds[] = {IN_MODIFY, IN_MODIFY, IN_CREATE, IN_DELETE};
                    for (int j = 0; j < n; j++)
                    {
                        h::pause(4);
                        uint32_t k = kinds[sim::choose(4)];
                        if (sim::choose(3) == 2)
                        {
                            sim::fs_event(dir, others[sim::choose((int)others.size())], k);
                        }
                        else
                        {
                            sim::Quiet q;
                            uint64_t b = sim::stamp();
                            sim::fs_event(dir, fname, k);
                            if (k == IN_MODIFY)
                            {
                                M->push_back({b, sim::stamp()});
                            }
                        }
                    }
                });
    }
    FileWatcherHandler* w = nullptr;
    for (int r = 0; r < rounds; r++)
    {
        auto token = std::make_shared<int>(77);
        size_t i;
        {
            sim::Quiet q;
            P->push_back({sim::stamp()});
            i = P->size() - 1;
        }
        bool failed;
        {
            int fds = sim::fs_watches();
            uint64_t errors = sim::faults(sim::F_IO);
            if (!w && sim::choose(3) == 0)
            {
                w = new FileWatcherHandler(path);
                w->set_callback(callback(i, token));
            }
            else if (!w)
            {
                w = new FileWatcherHandler(callback(i, token), path);
            }
            else
            {
                w->set_callback(callback(i, token));
            }
            failed = sim::fs_watches() == fds;
            SIM_CHECK(!failed || sim::faults(sim::F_IO) != errors, "not-watched", "the file is not watched although a callback is set and nothing failed");
        }
        {
            sim::Quiet q;
            (*P)[i].set = sim::stamp();
        }
        if (failed)
        {
            // the system refused the watch: nothing can be reported, and everything still has to end well
            sim::Quiet q;
            sim::probe("watch-refused");
            (*P)[i].set = ~0ull;
        }
        h::pause(8);
        if (!failed && sim::choose(4) == 0)
        {
            // another callback while watching: from now on this one gets the changes
            auto t2 = std::make_shared<int>(77);
            size_t k;
            {
                sim::Quiet q;
                P->push_back({(*P)[i].begin});      // it also gets the changes not reported yet to the one before
                k = P->size() - 1;
            }
            w->set_callback(callback(k, t2));
            *token = 0;
            {
                sim::Quiet q;
                (*P)[i].end = (*P)[k].set = sim::stamp();
            }
            token = t2;
            i = k;
            h::pause(8);
        }
        uint64_t quiet = ~0ull;
        if (sim::choose(3) == 0)
        {
            settle(w);
            quiet = sim::stamp();
            check_period(i, quiet);
        }
        if (sim::choose(2))
        {
            // the threads of the watcher are busy when it stops
            sim::fs_event(dir, "other", IN_MODIFY);
            int k = sim::choose(4);
            for (int y = 0; y < k; y++)
            {
                sim::yield();
            }
        }
        if (r + 1 < rounds || sim::choose(2))
        {
            w->unset_callback();
        }
        else
        {
            delete w;
            w = nullptr;
        }
        {
            sim::Quiet q;
            (*P)[i].end = sim::stamp();
            SIM_CHECK(inside == 0, "removed-callback", "the callback still runs after it was removed");
            *token = 0;
        }
        check_period(i, quiet);
        SIM_CHECK(sim::fs_watches() == 0 && (failed || sim::fs_open_fds() == 0), "descriptor-leak", "%d descriptors stay open while nothing is watched", sim::fs_open_fds());
    }
    delete w;
    h::join(ts);
    for (size_t i = 0; i < P->size(); i++)
    {
        check_period(i, ~0ull);
    }
    SIM_CHECK(sim::fs_open_fds() == 0, "descriptor-leak", "%d descriptors are open after the handler was destroyed", sim::fs_open_fds());
}

//! A file that cannot be watched
SCENARIO(F01, refused, 1)
{
    h::usual_faults();
    P = new std::vector<Period>(1);
    C = new std::vector<Call>();
    M = new std::vector<Change>();
    inside = 0;
    fname = "gone";
    int why = sim::choose(3), n = 1 + sim::choose(3);
    sim::fs_mkdir("/d");
    if (why)
    {
        sim::fs_touch("/d/gone");
    }
    sim::fs_fail_init(why == 1);
    sim::fs_fail_watch(why == 2);
    sim::describe("%d attempts to watch a file: %s", n, why == 0 ? "it does not exist" : why == 1 ? "no more descriptors" : "no more watches");
    auto token = std::make_shared<int>(77);
    {
        FileWatcherHandler w("/d/gone");
        for (int i = 0; i < n; i++)
        {
            w.set_callback(callback(0, token));
            h::pause(3);
            w.unset_callback();
        }
        SIM_CHECK(C->empty(), "change-invented", "a change was reported");
        SIM_CHECK(sim::fs_open_fds() == 0, "descriptor-leak", "%d descriptors stay open after %d attempts to watch failed", sim::fs_open_fds(), n);
    }
}

//! The directory of the file is removed (and made again) while it is watched
SCENARIO(F01, removed, 2)
{
    h::usual_faults();
    P = new std::vector<Period>();
    C = new std::vector<Call>();
    M = new std::vector<Change>();
    inside = 0;
    fname = "config.yaml";
    if (sim::choose(3) == 0)
    {
        sim::set_fault(sim::F_IO, 2 + sim::choose(6));
    }
    int rounds = 1 + sim::choose(3);
    sim::describe("%d times a watched file is removed with its directory", rounds);
    FileWatcherHandler* w = nullptr;
    for (int r = 0; r < rounds; r++)
    {
        auto token = std::make_shared<int>(77);
        size_t i;
        sim::fs_mkdir("/etc/app");
        sim::fs_touch("/etc/app/config.yaml");
        {
            sim::Quiet q;
            P->push_back({sim::stamp()});
            i = P->size() - 1;
        }
        bool failed;
        int before = sim::fs_watches();
        if (!w)
        {
            w = new FileWatcherHandler("/etc/app/config.yaml");
        }
        w->set_callback(callback(i, token));
        failed = sim::fs_watches() == before;
        {
            sim::Quiet q;
            (*P)[i].set = failed ? ~0ull : sim::stamp();
        }
        Thrs ts;
        bool gone = sim::choose(4) != 0;
        ts.emplace_back("writer", [gone]
                {
                    int n = sim::choose(6);
                    for (int j = 0; j < n; j++)
                    {
                        h::pause(4);
                        sim::Quiet q;
                        uint64_t b = sim::stamp();
                        sim::fs_event("/etc/app", "config.yaml", IN_MODIFY);
                        M->push_back({b, sim::stamp()});
                    }
                    if (gone)
                    {
                        h::pause(3);
                        sim::fs_event("/etc/app", "config.yaml", IN_DELETE);
                        sim::fs_rmdir("/etc/app");
                        sim::probe("directory-removed");
                    }
                });
        uint64_t quiet = ~0ull;
        if (sim::choose(2))
        {
            h::join(ts);
            settle(w);
            quiet = sim::stamp();
            check_period(i, quiet);
        }
        else
        {
            h::pause(8);
        }
        if (r + 1 < rounds && sim::choose(2))
        {
            w->unset_callback();
        }
        else
        {
            delete w;
            w = nullptr;
        }
        {
            sim::Quiet q;
            (*P)[i].end = sim::stamp();
            SIM_CHECK(inside == 0, "removed-callback", "the callback still runs after it was removed");
            *token = 0;
        }
        check_period(i, quiet);
        SIM_CHECK(sim::fs_open_fds() == 0, "descriptor-leak", "%d descriptors stay open while nothing is watched", sim::fs_open_fds());
        h::join(ts);
        sim::fs_rmdir("/etc/app");
    }
    delete w;
}

// ---------------------------------------------------------------- several watchers

namespace {

struct Watched
{
    std::string dir, name;
    bool on = false;
    int want = 0, got = 0;
    FileWatcherHandler* w = nullptr;
    Watched(const std::string& d, const std::string& n)
        : dir(d)
        , name(n)
    {
    }
    void set()
    {
        w->set_callback([this](std::string f)
                {
                    sim::Quiet q;
                    SIM_CHECK(f == name, "not-independent", "the change of file '%s' was reported to the watcher of '%s'", f.c_str(), name.c_str());
                    SIM_CHECK(on, "not-independent", "a watcher that is disabled reports a change");
                    got++;
                });
    }
};

} // namespace

//! Watchers of files of the same directory and of others, or of the same file
SCENARIO(F01, several, 1)
{
    h::usual_faults();
    sim::fs_mkdir("/etc/app");
    sim::fs_mkdir("/etc/other");
    static const char* const dirs[] = {"/etc/app/", "/etc/other/"};
    static const char* const names[] = {"config.yaml", "config.yam", "second.yaml"};
    sim::describe("several watchers at once");
    std::vector<std::unique_ptr<Watched>> ws;
    int n = 2 + sim::choose(2);
    for (int i = 0; i < n; i++)
    {
        ws.emplace_back(new Watched(dirs[sim::choose(2)], names[sim::choose(3)]));
        auto& w = *ws.back();
        sim::fs_touch(w.dir + w.name);
        w.on = true;
        w.w = new FileWatcherHandler(w.dir + w.name);
        w.set();
    }
    for (int k = 2 + sim::choose(8); k > 0; k--)
    {
        h::pause(3);
        if (sim::choose(4) == 0)
        {
            auto& w = *ws[sim::choose(n)];
            sim::quiesce();
            if (w.on)
            {
                w.w->unset_callback();
                sim::Quiet q;
                w.on = false;
            }
            else
            {
                {
                    sim::Quiet q;
                    w.on = true;
                }
                w.set();
            }
        }
        else
        {
            std::string d = dirs[sim::choose(2)], f = names[sim::choose(3)];
            {
                sim::Quiet q;
                for (auto& w : ws)
                {
                    w->want += w->on && w->dir == d && w->name == f;
                }
            }
            sim::fs_event(d, f, IN_MODIFY);
        }
        if (sim::choose(3) == 0 || k == 1)
        {
            settle(nullptr);
            sim::Quiet q;
            for (auto& w : ws)
            {
                SIM_CHECK(w->got == w->want, "not-independent", "%d changes of '%s%s' while it was watched, %d reported, with %d watchers at once", w->want, w->dir.c_str(), w->name.c_str(),
                        w->got, n);
            }
        }
    }
    for (auto& w : ws)
    {
        delete w->w;
    }
    SIM_CHECK(sim::fs_open_fds() == 0, "descriptor-leak", "%d descriptors are open after the handlers were destroyed", sim::fs_open_fds());
}

// ---------------------------------------------------------------- F02

namespace {

struct Text { std::string data; std::vector<std::string> lines; };

Text* random_text()
{
    Text* t = new Text();
    int n = h::some(12, 300) - 1;
    if (sim::choose(100) == 99)
    {
        // as long as a file may be, or a line of it
        bool lines = sim::choose(2);
        int k = lines ? h::volume(9000) : sim::choose(3);
        for (int i = 0; i < k; i++)
        {
            t->lines.push_back(lines ? std::to_string(i) : std::string(h::volume(70000), 'a' + i));
            t->data += t->lines.back() + "\n";
        }
        return t;
    }
    for (int i = 0; i < n; i++)
    {
        std::string l;
        int kind = sim::choose(8);
        size_t len = kind == 0 ? 0 : kind == 1 && t->data.size() < 66000 ? 8180 + sim::choose(30) : kind == 2 ? 100 + sim::choose(400) : 1 + sim::choose(20);
        for (size_t j = 0; j < len; j++)
        {
            l += (char)('a' + (i * 7 + j) % 26);
        }
        static const char* inside[] = {"", "", "\r", "\t", " ", "\r\r", "\x01", "\xc3\xb1"};
        size_t in = sim::choose(9), where = len ? sim::choose((uint32_t)len) : 0;
        l.insert(where, in < 8 ? std::string(inside[in]) : std::string(1, '\0'));
        if (sim::choose(4) == 0)
        {
            l += "\r";
        }
        t->data += l;
        if (i + 1 < n || sim::choose(3))
        {
            t->data += "\n";
            t->lines.push_back(l);
        }
        else if (!l.empty())
        {
            t->lines.push_back(l);
        }
    }
    return t;
}

} // namespace

SCENARIO(F02, read, 5)
{
    h::usual_faults();
    if (sim::choose(3))
    {
        sim::set_fault(sim::F_IO, 2 + sim::choose(12));
    }
    int nf = 1 + sim::choose(3), nt = 1 + sim::choose(3);
    static std::vector<Text*>* texts;
    static std::vector<int>* why;      // 0 fine, 1 error while read, 2 directory, 3 cannot be opened
    {
        sim::Quiet q;
        texts = new std::vector<Text*>();
        why = new std::vector<int>();
    }
    std::string d;
    static bool big;      // read once, or it would take too long
    big = false;
    for (int i = 0; i < nf; i++)
    {
        sim::Quiet q;
        texts->push_back(big ? new Text() : random_text());
        int w = sim::choose(8);
        Text* t = texts->back();
        if (t->lines.size() > 300 || t->data.size() > 80000)
        {
            big = true;
            nt = 1;
        }
        w = w == 7 ? 3 : w == 6 ? 2 : w >= 4 ? 1 : 0;
        why->push_back(w);
        int64_t bad = w == 1 ? (int64_t)sim::choose((uint32_t)t->data.size() + 1) : w == 2 ? 0 : -1;
        static const int errs[] = {ENOENT, EACCES, EMFILE};
        sim::fs_file("/data/f" + std::to_string(i), t->data.data(), w == 2 ? 0 : t->data.size(), bad, w == 3 ? errs[sim::choose(3)] : 0);
        static const char* names[] = {"", " failing from byte ", " (a directory)", " that cannot be opened"};
        d += " " + std::to_string(t->data.size()) + " bytes" + names[w] + (w == 1 ? std::to_string(bad) : "") + ",";
    }
    sim::describe("%d threads read files of%s", nt, d.c_str());
    Thrs ts;
    for (int i = 0; i < nt; i++)
    {
        ts.emplace_back("reader", [nf]
                {
                    int n = big ? 1 : 1 + sim::choose(3);
                    for (int j = 0; j < n; j++)
                    {
                        int f = sim::choose(nf + 1), form = sim::choose(6);
                        std::string name = f == nf ? "/data/none" : "/data/f" + std::to_string(f);
                        bool strip = form != 1 && form != 4 && form != 5, empties = form != 3 && form != 5;
                        std::vector<std::string> lines;
                        std::string all, error;
                        uint64_t io = sim::fs_open_failures();
                        try
                        {
                            switch (form)
                            {
                                case 0: lines = eprosima::utils::file_to_strings(name.c_str()); break;
                                case 1: lines = eprosima::utils::file_to_strings(name.c_str(), false); break;
                                case 2: all = eprosima::utils::file_to_string(name.c_str()); break;
                                case 3: lines = eprosima::utils::file_to_strings(name.c_str(), true, true); break;
                                case 5: lines = eprosima::utils::file_to_strings(name.c_str(), false, true); break;
                                default: all = eprosima::utils::file_to_string(name.c_str(), false); break;
                            }
                        }
                        catch (const std::exception& e)
                        {
                            sim::Quiet q;
                            error = std::string("error: ") + e.what();
                        }
                        sim::Quiet q;
                        bool faults = sim::fs_open_failures() != io;
                        if (f == nf || (*why)[f])
                        {
                            SIM_CHECK(!error.empty(), "error-hidden", "reading a file that %s gave text",
                                    f == nf ? "does not exist" : (*why)[f] == 1 ? "cannot be read whole" : (*why)[f] == 2 ? "is a directory" : "cannot be opened");
                            sim::probe("error-reported");
                            continue;
                        }
                        if (!error.empty())
                        {
                            SIM_CHECK(faults, "unexpected-exception", "reading a file failed although nothing it uses did: %s", error.c_str());
                            sim::probe("error-reported");
                            continue;
                        }
                        std::vector<std::string> want;
                        for (auto l : (*texts)[f]->lines)
                        {
                            if (strip)
                            {
                                l.erase(std::remove(l.begin(), l.end(), '\r'), l.end());
                            }
                            if (empties || !l.empty())
                            {
                                want.push_back(l);
                            }
                        }
                        if (form == 2 || form == 4)
                        {
                            std::string w;
                            for (auto& l : want)
                            {
                                w += l + "\n";
                            }
                            SIM_CHECK(all == w, "wrong-text", "a file of %zu bytes was read as %zu, expected %zu", (*texts)[f]->data.size(), all.size(), w.size());
                        }
                        else
                        {
                            SIM_CHECK(lines == want, "wrong-text", "a file of %zu lines was read as %zu lines, or other ones", want.size(), lines.size());
                        }
                        sim::probe("text-compared");
                    }
                });
    }
    h::join(ts);
    SIM_CHECK(sim::fs_open_fds() == 0, "descriptor-leak", "%d files stay open", sim::fs_open_fds());
}

SCENARIO(F02, accessible, 1)
{
    using eprosima::utils::FileAccessMode;
    sim::fs_touch("/data/f");
    int perm = sim::choose(8);
    sim::fs_perm("/data/f", perm);
    sim::describe("a file that can be %s%s%s", perm & 4 ? "read " : "", perm & 2 ? "written " : "", perm & 1 ? "executed" : "");
    for (int i = 0; i < 6; i++)
    {
        int m = sim::choose(8);
        bool gone = sim::choose(5) == 0, plain = sim::choose(5) == 0;
        static const FileAccessMode modes[] = {FileAccessMode::exist, FileAccessMode::exec, FileAccessMode::write, FileAccessMode::write_exec,
                                               FileAccessMode::read, FileAccessMode::read_exec, FileAccessMode::read_write, FileAccessMode::read_write_exec};
        FileAccessMode mode = modes[m];
        if (!plain && sim::choose(2))
        {
            mode = FileAccessMode::exist;
            mode = m & 4 ? mode | FileAccessMode::read : mode;
            mode = m & 2 ? mode | FileAccessMode::write : mode;
            mode = m & 1 ? FileAccessMode::exec | mode : mode;
        }
        const char* p = gone ? "/data/g" : "/data/f";
        bool r = plain ? eprosima::utils::is_file_accessible(p) : eprosima::utils::is_file_accessible(p, mode);
        bool want = !gone && (plain || (perm & m) == m);
        SIM_CHECK(r == want, "wrong-access", "a file with permissions %d is said %sto be accessible with mode %d", perm, r ? "" : "not ", plain ? 0 : m);
    }
    sim::probe("text-compared");
}
