// Offline stand-in for the betterthreads submodule (not available in this
// sandbox).  It offers the part of the API EdgeLearning uses (TaskManager,
// Future) and hands every scheduling decision to a pluggable controller:
//   * no controller installed  -> a task runs inline at enqueue();
//   * a controller installed   -> enqueue()/get() become scheduling points at
//                                 which the controller decides which pending
//                                 task runs (see harness/sched.hpp).
#ifndef VERIF_STUB_BETTERTHREADS_TASK_MANAGER_HPP
#define VERIF_STUB_BETTERTHREADS_TASK_MANAGER_HPP

#include <cstddef>
#include <exception>
#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <thread>
#include <future>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <queue>
#include <vector>
#include <utility>
#include <type_traits>

namespace BetterThreads {

using std::size_t;
using SizeType = std::size_t;

struct TaskBase
{
    virtual ~TaskBase() = default;
    virtual void run() = 0;
    bool done = false;
    std::exception_ptr error{};
    size_t id = 0;
    void run_guarded()
    {
        try { run(); } catch (...) { error = std::current_exception(); }
    }
};

struct Controller
{
    virtual ~Controller() = default;
    virtual void on_enqueue(std::shared_ptr<TaskBase> t) = 0;
    virtual void on_get(TaskBase& t) = 0;   // must return with t.done
};

inline Controller*& controller()
{
    static Controller* c = nullptr;
    return c;
}
inline size_t& forced_concurrency() { static size_t c = 2; return c; }

template <class R> struct TaskState : TaskBase
{
    std::function<R()> fn;
    std::optional<R> value;
    void run() override { value.emplace(fn()); }
};
template <> struct TaskState<void> : TaskBase
{
    std::function<void()> fn;
    void run() override { fn(); }
};

template <class R> class Future
{
public:
    Future() = default;
    explicit Future(std::shared_ptr<TaskState<R>> s) : _s(std::move(s)) { }
    Future(Future&&) = default;
    Future& operator=(Future&&) = default;
    Future(const Future&) = delete;
    Future& operator=(const Future&) = delete;
    bool valid() const { return static_cast<bool>(_s); }
    void wait() const
    {
        if (!_s) throw std::runtime_error("future: no state");
        if (auto* c = controller()) c->on_get(*_s);
    }
    R get()
    {
        if (!_s) throw std::runtime_error("future: no state");
        if (auto* c = controller()) c->on_get(*_s);
        auto s = std::move(_s);
        if (s->error) std::rethrow_exception(s->error);
        if constexpr (!std::is_void_v<R>) return std::move(*s->value);
    }

private:
    std::shared_ptr<TaskState<R>> _s;
};

class TaskManager
{
public:
    static TaskManager& instance()
    {
        static TaskManager tm;
        return tm;
    }
    size_t maximum_concurrency() const { return forced_concurrency(); }
    size_t concurrency() const { return _concurrency; }
    void set_concurrency(size_t c) { _concurrency = c; }
    void set_maximum_concurrency() { _concurrency = forced_concurrency(); }

    template <class F, class... AS>
    auto enqueue(F&& f, AS&&... as)
        -> Future<std::invoke_result_t<std::decay_t<F>&, std::decay_t<AS>&...>>
    {
        using R = std::invoke_result_t<std::decay_t<F>&, std::decay_t<AS>&...>;
        auto s = std::make_shared<TaskState<R>>();
        s->fn = std::bind(std::forward<F>(f), std::forward<AS>(as)...);
        if (auto* c = controller()) c->on_enqueue(s);
        else { s->run_guarded(); s->done = true; }
        return Future<R>(s);
    }

private:
    TaskManager() = default;
    size_t _concurrency = 0;
};

} // namespace BetterThreads
#endif
