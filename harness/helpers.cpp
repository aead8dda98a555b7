// U01: helper functions and constant shared values used from several threads.
#include "h.hpp"
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/enum/EnumBuilder.hpp>
#include <cpp_utils/exception/ConfigurationException.hpp>
#include <cpp_utils/macros/custom_enumeration.hpp>
#include <cpp_utils/logging/BaseLogConfiguration.hpp>
#include <cpp_utils/math/math_extension.hpp>
#include <cpp_utils/memory/Heritable.hpp>
#include <cpp_utils/ros2_mangling.hpp>
#include <cpp_utils/time/time_utils.hpp>
#include <cpp_utils/types/Fuzzy.hpp>
#include <cpp_utils/types/Tree.hpp>
#include <cpp_utils/utils.hpp>
#include <locale>

using namespace eprosima::utils;
using h::Thrs;

namespace helpers {

ENUMERATION_BUILDER(Colour, red, green, blue, white);

enum class Answer { yes, no, maybe };
const std::map<Answer, std::set<std::string>> ANSWERS{{Answer::yes, {"yes", "y"}}, {Answer::no, {"no", "n"}}};
eProsima_ENUMERATION_BUILDER(AnswerBuilder, Answer, ANSWERS);

struct Base
{
    virtual ~Base() = default;
    virtual int value() const { return 1; }
    virtual bool operator ==(const Base& o) const { return value() == o.value(); }
    virtual bool operator <(const Base& o) const { return value() < o.value(); }
};
struct Derived : Base
{
    int v;
    Derived(int v) : v(v) {}
    int value() const override { return v; }
};

struct Shared
{
    EnumBuilder<Answer> answers;
    Fuzzy<std::string> fuzzy;
    Heritable<Base> heritable;
    TreeNode<std::string> tree;
    ConfigurationException exception;
    Formatter formatter;
    Shared()
        : answers(std::map<Answer, std::set<std::string>>{{Answer::yes, {"yes", "y"}}, {Answer::no, {"no", "n"}}})
        , fuzzy(std::string("a value long enough to be in the heap"), FuzzyLevelValues::fuzzy_level_hard)
        , heritable(new Derived(7))
        , tree(std::string("root"))
        , exception(std::string("what is wrong, at some length"))
    {
        TreeNode<std::string> branch(std::string("branch"));
        branch.add_branch(std::string("leaf one"));
        branch.add_branch(std::string("leaf two"));
        tree.add_branch(branch);
        tree.add_branch(std::string("leaf three"));
        formatter << "text " << 42 << ' ' << 1.5;
    }
};
const Shared* shared;

const char* const WORDS[] = {"", "a", "/topic", "rt/topic/name", "rq/serviceRequest", "rr/serviceReply", "std_msgs/msg/String", "std_msgs::msg::dds_::String_", "10MB",
                             "1.5KiB", "3 GB", "a,b;c,,d", "AbC", "aaaa", "YWJj", "no unit", "99999999999PB", "text\r\nwith\nlines", "Service/srv/Type_Request_", "rq/pkg/srv/Type", "rr/pkg/srv/Other", "pkg::srv::dds_::Type_Response_", "/service"};
constexpr int NWORDS = sizeof(WORDS) / sizeof(*WORDS);
//! Short texts much alike: the same pieces in other places
const char* const BITS[] = {"a", "", "b", "ab", "ba", "*", "a*"};
constexpr int NOPS = 40;

std::string join(const std::vector<std::string>& v)
{
    std::string r;
    for (auto& s : v)
    {
        r += s + "|";
    }
    return r;
}

std::string call(int op, int k)
{
    std::string w = WORDS[k % NWORDS];
    try
    {
        switch (op)
        {
            case 0: return base64_encode(w) + " " + base64_decode(base64_encode(w)) + " " + base64_decode(w);
            case 1: return std::to_string(to_bytes(w));
            case 2: return from_bytes(uint64_t(k) * k * 12345 * 977) + " " + from_bytes(1ull << (k % 60));
            case 3: return join(split_string(w, ",")) + join(split_string(w, std::set<std::string>{",", ";"}));
            case 4: { std::string s = w; to_lowercase(s); std::string t = w; to_uppercase(t); return s + t; }
            case 5: { std::string s = w; unsigned n = replace_all(s, "a", "xy"); return s + std::to_string(n); }
            case 6: { std::string s = w; unsigned n = strip_str(s); return s + std::to_string(n); }
            case 7: return std::to_string(match_pattern("*" + w.substr(0, 1) + "*", w)) + std::to_string(match_pattern("rt/*", w));
            case 8: return number_trailing_zeros_format(k * 37, 1 + k % 6) + number_trailing_zeros_format(k, 1, false);
            case 9: return mangle_if_ros_topic(w) + demangle_if_ros_topic(w) + mangle_if_ros_type(w);
            case 10: return w.empty() ? "" : demangle_if_ros_type(w);
            case 11: return get_ros_prefix_if_exists(w) + remove_ros_prefix_if_exists(w) + join(get_all_ros_prefixes());
            case 12: return demangle_ros_service_request_prefix_from_topic(w) + demangle_ros_service_reply_prefix_from_topic(w) + demangle_ros_topic_prefix_from_topic(w);
            case 13: return to_string(VALUES_Colour[k % N_VALUES_Colour]) + join(string_vector_Colour()) + std::to_string(int(from_string_Colour(k % 3 ? "blue" : "black")));
            case 14: { Answer a = Answer::maybe; bool r = shared->answers.string_to_enumeration(k % 2 ? "y" : "perhaps", a); return std::to_string(r) + std::to_string(int(a)); }
            case 15: return std::to_string(int(shared->answers.string_to_enumeration(k % 3 ? "no" : "nothing")));
            case 16: return shared->fuzzy.get_value() + shared->fuzzy.get_level_as_str() + std::to_string(shared->fuzzy.is_valid()) + generic_to_string(shared->fuzzy);
            case 17: { Heritable<Base> c(shared->heritable); return std::to_string(c->value()) + std::to_string(c == shared->heritable) + std::to_string(shared->heritable.dyn_cast<Derived>().v); }
            case 18:
            {
                std::string r;
                for (auto& n : shared->tree.all_nodes())
                {
                    r += n.info + "|";
                }
                return r + std::to_string(shared->tree.depth()) + std::to_string(shared->tree.leaf());
            }
            case 19: return shared->exception.what() + std::string(ConfigurationException(shared->formatter).what());
            case 20: return shared->formatter.to_string() + generic_to_string(shared->formatter);
            case 21: return std::to_string(fast_exponential(2 + k % 5, k % 12)) + std::to_string(fast_module(k * 7, 8)) + std::to_string(is_even(k)) +
                       std::to_string(arithmetic_progression_sum(k, 3, 5));
            case 22: { std::string s = STR_ENTRY << "word " << w << ' ' << k; return s; }
            case 23:
            {
                std::ostringstream os;
                container_to_stream<std::shared_ptr<int>, true>(os, std::vector<std::shared_ptr<int>>{std::make_shared<int>(k), std::make_shared<int>(2)}, ",");
                return os.str();
            }
            case 24: return mangle_ros_service_request_prefix_in_topic(w) + mangle_ros_service_reply_prefix_in_topic(w) + demangle_ros_service_prefix_from_topic(w);
            case 25: return mangle_service_type_only(w) + demangle_service_type_only(w);
            case 26:
            {
                auto one = std::make_shared<int>(k % 3), two = std::make_shared<int>(k % 5);
                std::set<std::shared_ptr<int>> a{one, nullptr}, b{two, nullptr};
                return std::to_string(set_of_ptr_contains(a, two)) + std::to_string(are_set_of_ptr_equal(a, b)) + std::to_string(set_of_ptr_contains(a, std::shared_ptr<int>()));
            }
            case 27:
            {
                std::string r;
                for (auto& x : get_keys(std::map<std::string, int>{{w, 1}, {"other", 2}}))
                {
                    r += x + "|";
                }
                for (int x : get_keys(std::unordered_map<int, int>{{k, 1}, {k / 2, 2}, {7, 3}}))
                {
                    r += std::to_string(x) + "|";
                }
                return r;
            }
            case 28: return std::to_string(convert_set_to_shared<Base, Derived>(std::set<Derived>{Derived(k), Derived(3), Derived(k)}).size());
            case 29:
            {
                std::string r;
                for (auto c : all_values_Colour())
                {
                    r += generic_to_string(c) + "|";
                }
                Colour c = Colour::red;
                return r + std::to_string(string_to_enumeration(k % 2 ? "white" : w, c)) + to_string(c) + std::to_string(N_VALUES_Colour);
            }
            case 30: { Answer a = Answer::maybe; auto b = AnswerBuilder::get_instance(); bool r = b->string_to_enumeration(k % 2 ? "n" : w, a); return std::to_string(r) + std::to_string(int(a)); }
            case 31:
            {
                Fuzzy<int> a(k), b(k % 4, FuzzyLevelValues::fuzzy_level_hard), c;
                return std::to_string(a < b) + std::to_string(a == b) + std::to_string(c.is_valid()) + std::to_string(int(b) + a.get_value()) + generic_to_string(b) + b.get_level_as_str();
            }
            case 32: { std::string s = w; bool r = replace_first(s, "/", "::"); return s + std::to_string(r) + join(split_string(std::vector<std::string>{w, "x y"}, " ")); }
            case 33:
            {
                auto a = Heritable<Base>::make_heritable<Derived>(Derived(k)), b = Heritable<Base>::make_heritable<Derived>(Derived(9));
                return std::to_string(a < b) + std::to_string(a == b) + std::to_string(a->value()) + std::to_string(fast_division(k * 9, 1 + k % 9)) + std::to_string(is_power_of_2(k));
            }
            case 34:
            {
                BaseLogConfiguration c;
                LogFilter f;
                for (int i = 0; i < 3; i++)
                {
                    f[(VerbosityKind)i].set_value(w + std::to_string(i), (k + i) % 2 ? FuzzyLevelValues::fuzzy_level_hard : FuzzyLevelValues::fuzzy_level_unset);
                }
                c.set(Fuzzy<VerbosityKind>((VerbosityKind)(k % 3), k % 2 ? FuzzyLevelValues::fuzzy_level_set : FuzzyLevelValues::fuzzy_level_unset));
                c.set(f);
                std::ostringstream os;
                operator <<(os, c.verbosity);
                operator <<(os, c.filter);
                return os.str() + std::to_string(c.is_valid(const_cast<Formatter&>(shared->formatter)));
            }
            case 35:
            {
                auto m = (k % 2 ? FileAccessMode::read : FileAccessMode::exist) | (k % 3 ? FileAccessMode::write : FileAccessMode::exec);
                return std::to_string(int(m)) + std::to_string(int(m & FileAccessMode::write)) + std::to_string(the_end_of_time() > the_beginning_of_time());
            }
            case 36: return std::to_string(match_pattern(BITS[k / 7], BITS[k % 7]));
            case 37:
            {
                std::string t = BITS[k % 7] + std::string("b") + BITS[k / 7 % 5], u = t;
                bool r = replace_first(t, BITS[k / 7], "c");
                unsigned n = strip_str(u, "x", {k % 2 ? "a" : "ab", "*"});
                return t + std::to_string(r) + u + std::to_string(n) + join(split_string(u, k % 3 ? "x" : "b"));
            }
            case 38:
            {
                static const char* const units[] = {"B", "KB", "KiB", "MB", "mib", "TB", "K"};
                static const char* const numbers[] = {"1", "10", "1.5", "15", "2", "0", "1 "};
                return std::to_string(to_bytes(std::string(numbers[k % 7]) + units[k / 7]));
            }
            case 39: return number_trailing_zeros_format(k % 7 * 15, k / 7, k % 2) + from_bytes(k % 7 * 500 + k / 7);
        }
    }
    catch (const std::exception& e)
    {
        return std::string("exception: ") + e.what();
    }
    return "";
}

struct Call { int op, k; std::string result; };
std::vector<Call>* calls[8];

//! What each call gives in a process that has called nothing else
struct Alone
{
    bool done;
    char result[248];
};
Alone (* alone)[NWORDS * 2];

void call_alone()
{
    alone = (Alone (*)[NWORDS * 2])sim::shared_memory(sizeof(Alone) * NOPS * NWORDS * 2);
    for (int op = 0; op < NOPS; op++)
    {
        for (int k = 0; k < NWORDS * 2; k++)
        {
            sim::in_process([op, k]
                    {
                        shared = new Shared();
                        std::string r = call(op, k);
                        snprintf(alone[op][k].result, sizeof(Alone::result), "%s", r.c_str());
                        alone[op][k].done = true;
                    });
        }
    }
}
sim::Prepare prepare("U01", &call_alone);

} // namespace helpers

SCENARIO(U01, reentrant, 3)
{
    using namespace helpers;
    int nt = 2 + sim::choose(4), n = 1 + sim::choose(5);
    bool same = sim::choose(2);
    int op = sim::choose(NOPS);
    if (sim::choose(2))
    {
        sim::set_fault(sim::F_STALL, 20 + sim::choose(200));
    }
    sim::describe("%d threads call up to %d helper functions%s", nt, n, same ? ", all of them the same one" : "");
    // libstdc++ keeps the same conversions, whoever computes them, in its characters facet
    auto& facet = std::use_facet<std::ctype<char>>(std::locale::classic());
    sim::ignore_races(&facet, sizeof(facet));
    shared = new Shared();
    Thrs ts;
    for (int t = 0; t < nt; t++)
    {
        {
            sim::Quiet q;
            calls[t] = new std::vector<Call>();
        }
        ts.emplace_back("caller", [t, n, same, op]
                {
                    int m = 1 + sim::choose(n);
                    for (int i = 0; i < m; i++)
                    {
                        int o = same ? op : sim::choose(NOPS);
                        int k = sim::choose(NWORDS * 2);
                        std::string r = call(o, k);
                        sim::Quiet q;
                        calls[t]->push_back({o, k, r});
                    }
                });
    }
    h::join(ts);
    for (int t = 0; t < nt; t++)
    {
        for (auto& c : *calls[t])
        {
            auto& a = alone[c.op][c.k];
            std::string later = call(c.op, c.k).substr(0, sizeof(Alone::result) - 1);
            c.result = c.result.substr(0, sizeof(Alone::result) - 1);
            SIM_CHECK(!a.done || a.result == c.result, "not-reentrant", "function %d with argument %d gave \"%s\" while other threads ran and \"%s\" alone", c.op, c.k,
                    c.result.c_str(), a.result);
            SIM_CHECK(later == c.result, "depends-on-history", "function %d with argument %d gave \"%s\" and afterwards \"%s\"", c.op, c.k, c.result.c_str(), later.c_str());
        }
    }
    delete shared;
}
