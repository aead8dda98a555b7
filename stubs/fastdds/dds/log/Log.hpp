// Stand-in for the Fast DDS logging module (not installed in the sandbox): same public surface and the same threading
// model. Entries are queued by any thread, one logging thread delivers them in order to every registered consumer while it
// holds the configuration mutex, and nothing is delivered after KillThread / Reset has returned.
#pragma once
#include <atomic>
#include <condition_variable>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <queue>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

namespace eprosima {
namespace fastdds {
namespace dds {

class LogConsumer;

class Log
{
public:

    enum Kind
    {
        Error,
        Warning,
        Info,
    };

    struct Context
    {
        const char* filename;
        int line;
        const char* function;
        const char* category;
    };

    struct Entry
    {
        std::string message;
        Log::Context context;
        Log::Kind kind;
        std::string timestamp;
    };

    static void RegisterConsumer(std::unique_ptr<LogConsumer>&& c)
    {
        State& s = st();
        std::lock_guard<std::mutex> l(s.config);
        s.consumers.push_back(std::move(c));
    }
    static inline void ClearConsumers();
    static void ReportFilenames(bool) {}
    static void ReportFunctions(bool) {}
    template <typename R>
    static void SetCategoryFilter(const R&) {}
    static void SetVerbosity(Log::Kind k)
    {
        st().verbosity.store(k);
    }
    static Log::Kind GetVerbosity()
    {
        return st().verbosity.load();
    }
    static inline void Reset();
    static void Flush()
    {
        State& s = st();
        std::unique_lock<std::mutex> l(s.q);
        if (!s.running)
        {
            return;
        }
        uint64_t target = s.queued;
        s.cv_done.wait(l, [&] { return !s.running || s.delivered >= target; });
    }
    static void KillThread()
    {
        State& s = st();
        std::thread t;
        {
            std::lock_guard<std::mutex> l(s.q);
            s.running = false;
            t.swap(s.thread);
        }
        s.cv.notify_all();
        s.cv_done.notify_all();
        if (t.joinable())
        {
            t.join();
        }
    }
    static inline void QueueLog(const std::string& message, const Log::Context& context, Log::Kind kind);

private:

    struct State
    {
        std::mutex config;
        std::vector<std::unique_ptr<LogConsumer>> consumers;
        std::atomic<Log::Kind> verbosity {Log::Error};
        std::mutex q;
        std::condition_variable cv, cv_done;
        std::queue<Entry> fg, bg;
        uint64_t queued = 0, delivered = 0;
        bool running = false;
        std::thread thread;
    };
    static State& st()
    {
        static State* s = new State();   // never destroyed, like the real resources object at exit
        return *s;
    }
    static inline void run();
};

class LogConsumer
{
public:

    virtual ~LogConsumer() = default;
    virtual void Consume(const Log::Entry&) = 0;

protected:

    void print_timestamp(std::ostream& s, const Log::Entry& e, bool) const
    {
        s << e.timestamp << " ";
    }
    void print_header(std::ostream& s, const Log::Entry& e, bool) const
    {
        s << "[" << (e.context.category ? e.context.category : "") << " "
          << (e.kind == Log::Error ? "Error" : e.kind == Log::Warning ? "Warning" : "Info") << "] ";
    }
    void print_message(std::ostream& s, const Log::Entry& e, bool) const
    {
        s << e.message;
    }
    void print_context(std::ostream& s, const Log::Entry& e, bool) const
    {
        if (e.context.function)
        {
            s << " -> Function " << e.context.function;
        }
    }
    void print_new_line(std::ostream& s, bool) const
    {
        s << std::endl;
    }
};

inline void Log::ClearConsumers()
{
    Flush();
    State& s = st();
    std::lock_guard<std::mutex> l(s.config);
    s.consumers.clear();
}
inline void Log::Reset()
{
    State& s = st();
    Flush();
    std::lock_guard<std::mutex> l(s.config);
    s.consumers.clear();
    s.verbosity = Log::Error;
}
inline void Log::QueueLog(const std::string& message, const Log::Context& context, Log::Kind kind)
{
    State& s = st();
    {
        std::lock_guard<std::mutex> l(s.q);
        if (!s.running)
        {
            s.running = true;
            s.thread = std::thread(&Log::run);
        }
        s.bg.push(Entry{message, context, kind, "2024-01-01 00:00:00.000"});
        s.queued++;
    }
    s.cv.notify_all();
}
inline void Log::run()
{
    State& s = st();
    std::unique_lock<std::mutex> l(s.q);
    while (s.running)
    {
        while (s.running && s.bg.empty())
        {
            s.cv.wait(l);
        }
        std::swap(s.fg, s.bg);
        while (!s.fg.empty())
        {
            Entry& e = s.fg.front();
            l.unlock();
            {
                std::lock_guard<std::mutex> c(s.config);
                for (auto& con : s.consumers)
                {
                    con->Consume(e);
                }
            }
            l.lock();
            s.fg.pop();
            s.delivered++;
            s.cv_done.notify_all();
        }
    }
}

} // namespace dds
} // namespace fastdds
} // namespace eprosima

#define SIM_LOG_(kindv, cat, msg)                                                                              \
    {                                                                                                           \
        using namespace eprosima::fastdds::dds;                                                                 \
        if (Log::GetVerbosity() >= kindv)                                                                       \
        {                                                                                                       \
            std::stringstream fastdds_log_ss_tmp__;                                                             \
            fastdds_log_ss_tmp__ << msg;                                                                        \
            Log::QueueLog(fastdds_log_ss_tmp__.str(), Log::Context{__FILE__, __LINE__, __func__, #cat}, kindv); \
        }                                                                                                       \
    }
#define EPROSIMA_LOG_ERROR(cat, msg) SIM_LOG_(Log::Kind::Error, cat, msg)
#define EPROSIMA_LOG_WARNING(cat, msg) SIM_LOG_(Log::Kind::Warning, cat, msg)
#define EPROSIMA_LOG_INFO(cat, msg) SIM_LOG_(Log::Kind::Info, cat, msg)
#define logError(cat, msg) EPROSIMA_LOG_ERROR(cat, msg)
#define logWarning(cat, msg) EPROSIMA_LOG_WARNING(cat, msg)
#define logInfo(cat, msg) EPROSIMA_LOG_INFO(cat, msg)
