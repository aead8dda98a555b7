// I01, I02: interactive standard input.
#include "h.hpp"
#include <cpp_utils/event/StdinEventHandler.hpp>
#include <cpp_utils/user_interface/CommandReader.hpp>

using namespace eprosima::utils;
using eprosima::utils::event::StdinEventHandler;
using h::Thr;
using h::Thrs;

namespace {

//! Reference line editor: what each line becomes
struct Editor
{
    std::vector<std::string> hist;
    size_t idx = 0;
    std::string line;
    size_t cur = 0;

    void key(int k)
    {
        switch (k)
        {
            case 'U':
                if (idx > 0 && !hist.empty())
                {
                    line = hist[--idx];
                    cur = line.size();
                }
                break;
            case 'D':
                line.clear();
                if (idx < hist.size())
                {
                    idx++;
                    if (idx < hist.size())
                    {
                        line = hist[idx];
                    }
                }
                cur = line.size();
                break;
            case 'L':
                cur -= cur > 0;
                break;
            case 'R':
                cur += cur < line.size();
                break;
            case 'H':
                cur = 0;
                break;
            case 'E':
                cur = line.size();
                break;
            case 'X':   // delete
                if (cur < line.size())
                {
                    line.erase(cur, 1);
                }
                break;
            case 'B':   // backspace
                if (cur)
                {
                    line.erase(--cur, 1);
                }
                break;
            case 'I':   // insert: nothing
                break;
        }
    }
    void type(char c)
    {
        line.insert(cur++, 1, c);
    }
    //! ends the line, returns what is delivered
    std::string enter(bool ignored)
    {
        std::string r = line;
        if (!ignored && !line.empty())
        {
            hist.push_back(line);
            idx = hist.size();
        }
        line.clear();
        cur = 0;
        return r;
    }
    std::string interrupt()
    {
        line.clear();
        cur = 0;
        return "";
    }
};

//! One key: bytes and what they mean
struct Key { std::string bytes; int k; char c; };   // k: editor key, 0 character, '\n' enter, 3 interrupt

Key random_key(int enter_weight, bool history)
{
    uint32_t r = sim::choose(20 + enter_weight);
    if (history && sim::choose(2))
    {
        // commands given before are looked for
        const Key ks[] = {{"\033[A", 'U', 0}, {"\033[B", 'D', 0}, {"\033[5~", 'U', 0}, {"\033[6~", 'D', 0}};
        return ks[sim::choose(4)];
    }
    static const char letters[] = "abcxyz \"\xff\xc3~[A1";
    if (r < 9)
    {
        char c = letters[sim::choose(sizeof letters - 1)];
        return {std::string(1, c), 0, c};
    }
    switch (r)
    {
        case 9: return {"\033[A", 'U', 0};
        case 10: return {"\033[B", 'D', 0};
        case 11: return {"\033[C", 'R', 0};
        case 12: return {"\033[D", 'L', 0};
        case 13: return {"\033[H", 'H', 0};
        case 14: return {"\033[F", 'E', 0};
        case 15: return {"\033[3~", 'X', 0};
        case 16: return {sim::choose(2) ? "\x7f" : "\b", 'B', 0};
        case 17: return sim::choose(2) ? Key{"\033[5~", 'U', 0} : Key{"\033[6~", 'D', 0};
        case 18: return {"\033[2~", 'I', 0};
        case 19: return {"\x03", 3, 0};
        default: return {sim::choose(2) ? "\n" : "\r", '\n', 0};
    }
}

struct Session
{
    std::vector<Key> keys;
    std::vector<bool> ignore;     // per line
    std::vector<std::string> want;
    std::vector<size_t> upto;     // bytes consumed when the line is delivered
    std::string rest;             // unfinished last line
    size_t bytes = 0;

    void expect()
    {
        Editor e;
        size_t b = 0;
        for (auto& k : keys)
        {
            b += k.bytes.size();
            if (k.k == '\n')
            {
                want.push_back(e.enter(ignore[want.size() % ignore.size()]));
                upto.push_back(b);
            }
            else if (k.k == 3)
            {
                want.push_back(e.interrupt());
                upto.push_back(b);
            }
            else if (k.k)
            {
                e.key(k.k);
            }
            else
            {
                e.type(k.c);
            }
        }
        rest = e.line;
        bytes = b;
    }
    std::string text() const
    {
        std::string t;
        for (auto& k : keys)
        {
            if (k.k == 0)
            {
                char b[8];
                snprintf(b, sizeof b, (unsigned char)k.c < 32 || (unsigned char)k.c > 126 ? "\\x%02x" : "%c", (unsigned char)k.c);
                t += b;
            }
            else if (k.k == '\n')
            {
                t += "<enter>";
            }
            else if (k.k == 3)
            {
                t += "<ctrl-c>";
            }
            else
            {
                t += std::string("<") + (char)k.k + ">";
            }
        }
        return t;
    }
};

Session* S;
std::vector<std::string>* got;

void terminal()
{
    if (sim::chance(1, 3))
    {
        sim::stdin_terminal(false, 0);
    }
    else
    {
        static const int widths[] = {80, 200, 7, 4, 1, 0};
        sim::stdin_terminal(true, widths[sim::choose(6)]);
    }
}

//! types every key, in pieces
void type_all()
{
    std::string chunk;
    for (auto& k : S->keys)
    {
        chunk += k.bytes;
        if (sim::choose(4) == 0)
        {
            size_t cut = sim::choose(3) ? chunk.size() : sim::choose(chunk.size() + 1);
            sim::stdin_push(chunk.substr(0, cut));
            chunk.erase(0, cut);
            h::pause(4);
        }
    }
    sim::stdin_push(chunk);
}

} // namespace

SCENARIO(I01, lines, 6)
{
    h::usual_faults();
    S = new Session();
    got = new std::vector<std::string>();
    int nk = h::some(40, 500), ew = 2 + sim::choose(6);
    if (nk > 40 && sim::choose(2))
    {
        ew = 0;     // long lines
    }
    bool history = sim::choose(3) == 0;
    const int ncommands = !history ? 0 : sim::choose(3) ? h::some(4, 500) : 15 + sim::choose(30);
    for (int i = ncommands; i > 0; i--)
    {
        for (int j = i > 24 ? 1 : 0; j >= 0; j--)
        {
            char c = 'a' + (j ? i / 24 : i % 24);
            S->keys.push_back({std::string(1, c), 0, c});
        }
        S->keys.push_back({"\n", '\n', 0});
    }
    if (ncommands && sim::choose(2))
    {
        // the arrows are held, even further than the history goes
        for (int i = 1 + sim::choose(3); i > 0; i--)
        {
            for (int j = sim::choose(ncommands + 4); j > 0; j--)
            {
                S->keys.push_back({"\033[A", 'U', 0});
            }
            for (int j = sim::choose(3) ? 0 : sim::choose(ncommands + 4); j > 0; j--)
            {
                S->keys.push_back({"\033[B", 'D', 0});
            }
            S->keys.push_back({"\n", '\n', 0});
        }
    }
    for (int i = 0; i < nk; i++)
    {
        S->keys.push_back(random_key(ew, history));
    }
    for (int i = 0; i < 8; i++)
    {
        S->ignore.push_back(sim::choose(4) == 3);
    }
    terminal();
    int at_first = sim::choose(8) == 7 ? sim::choose(200) : ncommands && sim::choose(2) ? 1000 : sim::choose(4), askers = sim::choose(3);
    bool eof = sim::chance(1, 3);
    {
        sim::Quiet q;
        S->expect();
    }
    sim::describe("keys %s%s, %d lines read from the start, %d threads ask for more", S->text().c_str(), eof ? " and the end of the input" : "", at_first, askers);
    static int asked;
    static StdinEventHandler* hd;
    static int chain;
    chain = sim::choose(4) ? 0 : 1 + sim::choose(4);
    hd = nullptr;
    asked = at_first;
    auto cb = [](std::string line)
            {
                size_t i;
                {
                    sim::Quiet q;
                    got->push_back(line);
                    i = got->size() - 1;
                    SIM_CHECK(asked >= (int)got->size(), "not-asked", "%zu lines were delivered, %d were asked for", got->size(), asked);
                }
                h::pause(3);
                while (!hd)
                {
                    sim::yield();
                }
                hd->set_ignore_input(S->ignore[i % S->ignore.size()]);
                if (chain > 0)
                {
                    // a line that makes another one be asked for
                    {
                        sim::Quiet q;
                        chain--;
                        asked++;
                    }
                    hd->read_one_more_line();
                }
            };
    SIM_CHECK(!sim::stdin_raw_mode(), "harness", "raw mode at start");
    auto* x = new StdinEventHandler(cb, true, at_first);
    {
        sim::Quiet q;
        hd = x;
    }
    Thrs ts;
    ts.emplace_back("user", [eof]
            {
                type_all();
                if (eof)
                {
                    sim::stdin_close();
                }
            });
    for (int i = 0; i < askers; i++)
    {
        ts.emplace_back("asker", []
                {
                    int n = 1 + sim::choose(4);
                    for (int j = 0; j < n; j++)
                    {
                        h::pause(4);
                        {
                            sim::Quiet q;
                            asked++;
                        }
                        hd->read_one_more_line();
                    }
                });
    }
    h::join(ts);
    // pauses inside callbacks end
    size_t last = 0;
    for (int i = 0; i < 60; i++)
    {
        sim::quiesce();
        {
            sim::Quiet q;
            i = got->size() != last ? 0 : i;
            last = got->size();
            if (got->size() >= std::min<size_t>(asked, S->want.size()) && x->event_count() == got->size())
            {
                break;
            }
        }
        sim::sleep_ms(50);
    }
    sim::quiesce();
    auto compare = [&](bool all)
            {
                sim::Quiet q;
                size_t complete = S->want.size();
                size_t expect = std::min<size_t>(asked, complete);
                for (size_t i = 0; i < got->size() && i < complete; i++)
                {
                    SIM_CHECK((*got)[i] == S->want[i], "wrong-line", "line %zu was delivered as '%s', what was typed is '%s'", i, (*got)[i].c_str(), S->want[i].c_str());
                }
                SIM_CHECK(!all || got->size() >= expect, "line-lost", "%zu lines were delivered, %zu were typed and asked for", got->size(), expect);
                if (eof && asked > (int)complete && !S->rest.empty())
                {
                    SIM_CHECK(!all || got->size() > complete, "line-lost", "the last line, ended by the end of the input, was not delivered");
                }
                if (got->size() > complete)
                {
                    // the end of the input ends an unfinished line
                    SIM_CHECK(eof && !S->rest.empty() && got->size() == complete + 1 && (*got)[complete] == S->rest, "invented-line", "'%s' was delivered although nobody typed that line", got->back().c_str());
                    sim::probe("unfinished-line-at-end");
                }
            };
    compare(true);
    {
        sim::Quiet q;
        SIM_CHECK(x->event_count() == got->size(), "wrong-count", "%u events counted, %zu lines delivered", x->event_count(), got->size());
        if (!eof && (int)S->want.size() >= asked)
        {
            size_t used = S->bytes - sim::stdin_unread();
            size_t want = asked ? S->upto[asked - 1] : 0;
            SIM_CHECK(used == want, "read-too-much", "%zu bytes were read for %d lines that have %zu", used, asked, want);
            sim::probe("all-asked-delivered");
        }
        SIM_CHECK(sim::stdin_reads_after_eof() < 100, "spin-at-end", "the input was read %llu times after its end", (unsigned long long)sim::stdin_reads_after_eof());
    }
    {
        sim::Quiet q;
        chain = 0;
    }
    // a handler in the middle of a line cannot be stopped: finish it
    bool waits_for_input = asked > (int)got->size() && !eof;
    if (waits_for_input)
    {
        Thr user("user", []
                {
                    h::pause(3);
                    sim::stdin_push(std::string(asked + 1, '\n'));
                });
        if (sim::choose(2))
        {
            x->unset_callback();
        }
        delete x;
        user.join();
        sim::probe("destroyed-while-reading");
    }
    else
    {
        if (sim::choose(2))
        {
            x->unset_callback();
            SIM_CHECK(!sim::stdin_raw_mode(), "terminal", "the terminal was not restored");
        }
        delete x;
        compare(true);
    }
    SIM_CHECK(!sim::stdin_raw_mode(), "terminal", "the terminal was not restored");
}

//! The callback is removed and set again: lines still come one by one
SCENARIO(I01, again, 2)
{
    h::usual_faults();
    terminal();
    static std::vector<int> seen;
    seen.clear();
    int rounds = 1 + sim::choose(4);
    sim::describe("callback set and removed %d times", rounds);
    static int cur;
    cur = -1;
    StdinEventHandler* x = nullptr;
    int typed = 0;
    for (int r = 0; r < rounds; r++)
    {
        auto cb = [r](std::string s)
                {
                    sim::Quiet q;
                    SIM_CHECK(cur == r, "removed-callback", "a callback that was removed got a line");
                    seen.push_back(atoi(s.c_str()));
                };
        {
            sim::Quiet q;
            cur = r;
        }
        if (sim::choose(3) == 0)
        {
            // whoever uses the terminal gives it other settings
            sim::stdin_settings(sim::choose(8));
        }
        if (x)
        {
            x->set_callback(cb);
        }
        else
        {
            x = new StdinEventHandler(cb);
        }
        int n = sim::choose(4);
        Thr user("user", [n, &typed]
                {
                    for (int i = 0; i < n; i++)
                    {
                        sim::stdin_push(std::to_string(typed + i) + "\n");
                        h::pause(3);
                    }
                });
        for (int i = 0; i < n; i++)
        {
            x->read_one_more_line();
            h::pause(3);
        }
        bool ok = x->wait_for_event(typed + n);
        SIM_CHECK(ok, "line-lost", "waiting for the lines failed");
        user.join();
        typed += n;
        x->unset_callback();
        SIM_CHECK(!sim::stdin_raw_mode(), "terminal", "the terminal was not restored");
        sim::Quiet q;
        SIM_CHECK((int)seen.size() == typed, "line-lost", "%zu of %d lines were delivered", seen.size(), typed);
        for (int i = 0; i < typed; i++)
        {
            SIM_CHECK(seen[i] == i, "wrong-line", "line %d delivered as line %d", seen[i], i);
        }
        cur = -1;
    }
    delete x;
}

// ---------------------------------------------------------------- I03

namespace {

//! A terminal: what is written on it, with everything that has scrolled off its top
struct Screen : std::streambuf
{
    int w, h;
    std::vector<std::string> rows;   // as many as were ever reached; all of them are w wide
    int top = 0;                     // first one on the screen
    int r = 0, c = 0;                // cursor
    bool wrap = false;               // the last column has been written, the cursor is past it
    std::string esc;

    Screen(int width, int height)
        : w(width)
        , h(height)
        , rows(height, std::string(width, ' '))
    {
    }
    void resize(int width)
    {
        w = width;
        for (auto& x : rows)
        {
            x.resize(w, ' ');
        }
        c = std::min(c, w - 1);
        wrap = false;
    }
    void down_or_scroll()
    {
        if (r == top + h - 1)
        {
            rows.push_back(std::string(w, ' '));
            top++;
        }
        r++;
    }
    void sequence(char last)
    {
        int n = -1;
        std::vector<int> args;
        for (char x : esc.substr(2))
        {
            if (x >= '0' && x <= '9')
            {
                n = (n < 0 ? 0 : n) * 10 + x - '0';
            }
            else
            {
                args.push_back(n);
                n = -1;
            }
        }
        args.push_back(n);
        int k = args[0] > 0 ? args[0] : 1, z = args[0] > 0 ? args[0] : 0;
        switch (last)
        {
            case 'm':
                return;
            case 'A':
                r = std::max(top, r - k);
                break;
            case 'B':
                r = std::min(top + h - 1, r + k);
                break;
            case 'C':
                c = std::min(w - 1, c + k);
                break;
            case 'D':
                c = std::max(0, c - k);
                break;
            case 'E':
                r = std::min(top + h - 1, r + k);
                c = 0;
                break;
            case 'F':
                r = std::max(top, r - k);
                c = 0;
                break;
            case 'G':
                c = std::min(w - 1, k - 1);
                break;
            case 'K':
                for (int i = z == 0 ? c : 0; i < (z == 1 ? c + 1 : w); i++)
                {
                    rows[r][i] = ' ';
                }
                break;
            case 'J':
                for (int y = z == 0 ? r : top; y < top + h; y++)
                {
                    for (int i = z == 0 && y == r ? c : 0; i < w; i++)
                    {
                        if (z != 1 || y < r || (y == r && i <= c))
                        {
                            rows[y][i] = ' ';
                        }
                    }
                }
                break;
            default:
                sim::note("unknown terminal sequence %s", esc.c_str() + 1);
        }
        wrap = false;
    }
    void put(char x)
    {
        if (!esc.empty())
        {
            esc += x;
            if (esc.size() > 2 && x >= '@' && x <= '~')
            {
                esc.pop_back();
                sequence(x);
                esc.clear();
            }
            return;
        }
        switch (x)
        {
            case '\033':
                esc = x;
                return;
            case '\n':
                down_or_scroll();
                c = 0;
                wrap = false;
                return;
            case '\r':
                c = 0;
                wrap = false;
                return;
            case '\b':
                c -= c > 0;
                wrap = false;
                return;
        }
        if ((unsigned char)x < 32)
        {
            return;
        }
        if (wrap)
        {
            down_or_scroll();
            c = 0;
            wrap = false;
        }
        rows[r][c] = x;
        if (c == w - 1)
        {
            wrap = true;
        }
        else
        {
            c++;
        }
    }
    int_type overflow(int_type x) override
    {
        sim::Quiet q;
        put((char)x);
        return x;
    }
    std::streamsize xsputn(const char* t, std::streamsize n) override
    {
        sim::Quiet q;
        for (std::streamsize i = 0; i < n; i++)
        {
            put(t[i]);
        }
        return n;
    }
    std::string shown(int from) const
    {
        std::string t;
        for (int i = from; i < (int)rows.size(); i++)
        {
            std::string x = rows[i];
            x.erase(x.find_last_not_of(' ') + 1);
            t += "|" + x;
        }
        t.erase(t.find_last_not_of('|') + 1);
        return t;
    }
};

} // namespace

SCENARIO(I03, screen, 1)
{
    h::usual_faults();
    S = new Session();
    got = new std::vector<std::string>();
    static const int widths[] = {80, 20, 10, 7, 5, 4};
    int w = widths[sim::choose(6)];
    const int tall = sim::choose(3) ? 24 : 8;
    sim::stdin_terminal(true, w == 80 && sim::choose(2) ? 0 : w);
    static Screen* t;
    static bool prompts, talks;
    prompts = sim::choose(2);
    talks = sim::choose(2);
    int before = sim::choose(tall + 4), nk = h::some(40, 400);
    {
        sim::Quiet q;
        t = new Screen(w, tall);
    }
    sim::stdin_echo([](char c)
            {
                t->sputc(c);
                t->pubsync();
            });
    auto* old = std::cout.rdbuf(t);
    for (int i = 0; i < before; i++)
    {
        std::cout << "w" << i % 10 << "\n";
    }
    if (prompts)
    {
        std::cout << ">> " << std::flush;
    }
    sim::describe("terminal of %dx%d, %d keys%s%s", w, tall, nk, prompts ? ", prompts" : "", talks ? ", output after each line" : "");
    auto cb = [](std::string line)
            {
                {
                    sim::Quiet q;
                    got->push_back(line);
                }
                if (talks)
                {
                    std::cout << "=" << got->size() % 10 << std::endl;
                }
                if (prompts)
                {
                    std::cout << ">> " << std::flush;
                }
            };
    auto* x = new StdinEventHandler(cb, true, 1000000);
    auto rest = []
            {
                for (int i = 0; i < 5; i++)
                {
                    sim::quiesce();
                }
            };
    rest();
    Editor e;
    int start = t->r;
    bool drawn = false;
    std::string above;
    size_t lines = 0;
    auto snap = [&](int upto)
            {
                std::string a;
                for (int i = 0; i < upto; i++)
                {
                    a += t->rows[i] + "|";
                }
                return a;
            };
    {
        sim::Quiet q;
        above = snap(start);
    }
    bool history = sim::choose(2);
    int longer = sim::choose(3);
    std::string typed;
    for (int i = 0; i < nk; i++)
    {
        Key k;
        do
        {
            k = random_key(longer == 2 ? 0 : 1, history && sim::choose(4) == 0);
            if (longer && k.k == 'B' && sim::choose(2))
            {
                k = {"q", 0, 'q'};
            }
        }
        while (k.k == 0 && (k.c < 32 || k.c > 126));
        if (k.k == 0 && e.line.size() >= (size_t)w * (tall - 2) - 4)     // all of it on the screen
        {
            k = {"\n", '\n', 0};
        }
        sim::stdin_push(k.bytes);
        bool enter = k.k == '\n' || k.k == 3;
        std::string was = e.line;
        {
            sim::Quiet q;
            if (k.k == '\n')
            {
                e.enter(false);
            }
            else if (k.k == 3)
            {
                e.interrupt();
            }
            else if (k.k)
            {
                e.key(k.k);
            }
            else
            {
                e.type(k.c);
            }
            drawn = (drawn || k.k == 0 || !e.line.empty()) && !enter;
            lines += enter;
        }
        // several keys at once, sometimes
        if (!enter && i + 1 < nk && sim::choose(4) == 0)
        {
            continue;
        }
        rest();
        sim::Quiet q;
        SIM_CHECK(got->size() == lines, "line-lost", "%zu lines of %zu were delivered", got->size(), lines);
        if (enter)
        {
            // the text stays above
            std::string full = (drawn || !was.empty() || prompts ? ">> " : "") + was;
            int used = (int)(3 + was.size() + w - 1) / w;
            SIM_CHECK(snap(start) == above, "above", "what was above the line was changed: %s", t->shown(0).c_str());
            int at = start;
            if (!was.empty())
            {
                for (int y = 0; y < used; y++)
                {
                    std::string want = full.substr((size_t)y * w, w);
                    want.resize(w, ' ');
                    SIM_CHECK(t->rows[start + y] == want, "finished-line", "the line '%s' is shown after being finished as %s", was.c_str(), t->shown(start).c_str());
                }
                at = start + used - 1;
            }
            SIM_CHECK(t->r > at && t->c == (prompts ? 3 : 0), "cursor", "after the line '%s' the cursor is at %d,%d, the line begins at row %d: %s", was.c_str(), t->r, t->c, start, t->shown(start).c_str());
            for (int y = t->r; y < (int)t->rows.size(); y++)
            {
                std::string want = prompts && y == t->r ? ">> " : "";
                want.resize(w, ' ');
                SIM_CHECK(t->rows[y] == want, "leftover", "after the line '%s' something is left at row %d or below it: %s", was.c_str(), t->r, t->shown(start).c_str());
            }
            sim::probe("line-finished");
            if (sim::choose(6) == 0)
            {
                // the window is resized
                w = widths[sim::choose(6)];
                t->resize(w);
                sim::stdin_terminal(true, w);
                e.hist.size() ? sim::probe("resized") : (void)0;
            }
            start = t->r;
            above = snap(start);
            continue;
        }
        std::string full = ">> " + e.line;
        int pos = 3 + (int)e.cur;
        SIM_CHECK(snap(start) == above, "above", "what was above the line was changed: %s", t->shown(0).c_str());
        bool nothing = e.line.empty() && t->shown(start).empty();
        SIM_CHECK(nothing ? !drawn : true, "not-shown", "the prompt was erased");
        if (!nothing)
        {
            for (int y = start; y < (int)t->rows.size(); y++)
            {
                size_t a = (size_t)(y - start) * w;
                std::string want = a < full.size() ? full.substr(a, w) : "";
                want.resize(w, ' ');
                SIM_CHECK(t->rows[y] == want, "not-shown", "what is being typed is '%s', on the terminal is %s", full.c_str(), t->shown(start).c_str());
            }
            bool at_edge = t->wrap && pos == (int)full.size() && pos % w == 0;
            int r = at_edge ? start + pos / w - 1 : start + pos / w, c = at_edge ? w - 1 : pos % w;
            SIM_CHECK(t->r == r && t->c == c, "cursor", "the cursor is at %d,%d%s and should be at %d,%d of '%s'", t->r - start, t->c, t->wrap ? " (past the edge)" : "", r - start, c, full.c_str());
            if (full.size() > (size_t)w)
            {
                sim::probe("several-rows");
            }
            if (full.size() % w == 0)
            {
                sim::probe("at-the-edge");
            }
            if (e.cur < e.line.size())
            {
                sim::probe("cursor-inside");
            }
        }
    }
    Thr user("user", [] { h::pause(3); sim::stdin_push("\n"); sim::stdin_close(); });
    x->unset_callback();
    user.join();
    delete x;
    SIM_CHECK(!sim::stdin_raw_mode(), "terminal", "the terminal was not restored");
    std::cout.rdbuf(old);
}

// ---------------------------------------------------------------- I02

namespace {

enum class Cmd { none, help, send, quit };

struct Line { std::string text; std::vector<std::string> args, alt; };   // alt: several spaces taken as one

Line random_line()
{
    static const char* first[] = {"help", "h", "send", "exit", "unknown", "hel", ""};
    static const char* words[] = {"a", "bc", "x\"y", "12", "-f"};
    static const char* quoted[] = {"two words", "a b c", "one", " leading", "trailing ", "  ", "q\"in side", ""};
    Line l;
    l.text = first[sim::choose(7)];
    l.args.push_back(l.text);
    l.alt = l.args;
    int n = sim::choose(60) == 59 ? 8 + sim::choose(40) : sim::choose(4);
    for (int i = 0; i < n; i++)
    {
        l.text += " ";
        if (sim::choose(12) == 11)
        {
            l.text += " ";
            l.args.push_back("");
        }
        if (sim::choose(3) == 0)
        {
            std::string w = quoted[sim::choose(8)];
            if (i == n - 1 && sim::choose(5) == 0 && !w.empty() && w.back() != ' ' && w.front() != ' ')
            {
                l.text += "\"" + w;    // never closed: up to the end
            }
            else
            {
                l.text += "\"" + w + "\"";
            }
            l.args.push_back(w);
            l.alt.push_back(w);
        }
        else
        {
            std::string w = words[sim::choose(5)];
            if (sim::choose(40) == 39)
            {
                w += std::string(100 + sim::choose(400), 'w');
            }
            l.text += w;
            l.args.push_back(w);
            l.alt.push_back(w);
        }
    }
    return l;
}

std::vector<Line>* L;
std::vector<int>* order;

} // namespace

SCENARIO(I02, commands, 4)
{
    h::usual_faults();
    terminal();
    L = new std::vector<Line>();
    order = new std::vector<int>();
    int n = h::some(6, 60), nr = 1 + sim::choose(2);
    std::string all;
    for (int i = 0; i < n; i++)
    {
        L->push_back(random_line());
        all += L->back().text + " / ";
    }
    sim::describe("%d threads read the commands: %s", nr, all.c_str());
    std::map<Cmd, std::set<std::string>> m = {{Cmd::help, {"help", "h"}}, {Cmd::send, {"send"}}, {Cmd::quit, {"exit", "quit"}}};
    auto* rd = new CommandReader<Cmd>(EnumBuilder<Cmd>(m));
    Thrs rs;
    for (int i = 0; i < nr; i++)
    {
        int k = i ? n / 2 : nr == 2 ? n - n / 2 : n;
        rs.emplace_back("reader", [=]
                {
                    int last = -1;
                    for (int j = 0; j < k; j++)
                    {
                        h::pause(3);
                        Command<Cmd> c;
                        c.command = Cmd::none;
                        bool ok = rd->read_next_command(c);
                        sim::Quiet q;
                        // which line is it
                        std::string s;
                        for (auto& a : c.arguments)
                        {
                            s += "[" + a + "]";
                        }
                        int at = -1;
                        for (int x = 0; x < (int)L->size(); x++)
                        {
                            if (((*L)[x].args == c.arguments || (*L)[x].alt == c.arguments) && std::find(order->begin(), order->end(), x) == order->end())
                            {
                                at = x;
                                break;
                            }
                        }
                        SIM_CHECK(at >= 0, "wrong-command", "the command read has the arguments %s, which nobody typed", s.c_str());
                        SIM_CHECK(nr > 1 || at == j, "wrong-order", "command %d was read before command %d", at, j);
                        order->push_back(at);
                        const std::string& f = (*L)[at].args[0];
                        Cmd w = f == "help" || f == "h" ? Cmd::help : f == "send" ? Cmd::send : f == "exit" ? Cmd::quit : Cmd::none;
                        SIM_CHECK(ok == (w != Cmd::none) && c.command == w, "wrong-command", "the command '%s' was %s", f.c_str(), ok ? "accepted" : "refused");
                        last = at;
                    }
                    (void)last;
                });
    }
    for (auto& l : *L)
    {
        std::string t = l.text + "\n";
        while (!t.empty())
        {
            size_t cut = sim::choose(2) ? t.size() : 1 + sim::choose(t.size());
            sim::stdin_push(t.substr(0, cut));
            t.erase(0, cut);
            h::pause(3);
        }
    }
    h::join(rs);
    SIM_CHECK((int)order->size() == n && sim::stdin_unread() == 0, "line-lost", "%zu of %d commands were read", order->size(), n);
    delete rd;
    SIM_CHECK(!sim::stdin_raw_mode(), "terminal", "the terminal was not restored");
}
