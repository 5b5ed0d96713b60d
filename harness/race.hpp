// Stateless exploration of task schedules: every task of the TaskManager stub
// is a thread of its own (own stack); the scheduler decides who runs at every
// scheduling point (enqueue, wait, end of a task, visible memory access), and
// all decisions up to a preemption bound are enumerated depth first.  A
// happens-before detector watches every memory access of every execution.
#ifndef VERIF_RACE_HPP
#define VERIF_RACE_HPP
#include "race_rt.hpp"
#include "mc.hpp"
#include "betterthreads/task_manager.hpp"
#include <ucontext.h>
#include <cxxabi.h>

namespace race {

struct Chooser
{
    std::vector<std::size_t> choice, size; std::size_t pos = 0;
    std::size_t pick(std::size_t n)
    {
        if (n <= 1) return 0;
        if (pos == choice.size()) { choice.push_back(0); size.push_back(n); }
        if (size[pos] != n || choice[pos] >= n) { if (rt::bad) { std::cerr << "MC-RACE: " << rt::message << "\n"; std::_Exit(9); } std::cerr << "harness error: schedule is not deterministic\n"; std::_Exit(4); }
        return choice[pos++];
    }
    bool next() { choice.resize(pos); size.resize(pos); while (!choice.empty() && choice.back() + 1 >= size.back()) { choice.pop_back(); size.pop_back(); } if (choice.empty()) return false; ++choice.back(); pos = 0; return true; }
};

struct Thread
{
    ucontext_t ctx{}; std::shared_ptr<BetterThreads::TaskBase> task; bool started = false, done = false; const BetterThreads::TaskBase* wait = nullptr; void* mutex = nullptr; char eh[16] = {};
};

class Scheduler : public BetterThreads::Controller
{
public:
    Chooser& ch; unsigned bound, preemptions = 0; std::vector<std::unique_ptr<Thread>> th; std::string trace; std::uint64_t points = 0;
    static const std::size_t STACK = 1 << 18;
    static Scheduler*& self() { static Scheduler* s = nullptr; return s; }

    Scheduler(Chooser& c, unsigned b) : ch(c), bound(b) { th.push_back(std::make_unique<Thread>()); th[0]->started = true; self() = this; rt::point = [] { self()->visible(); }; rt::mutex_wait = [](void* m) { self()->block_mutex(m); return 0; }; }
    ~Scheduler() override { rt::point = nullptr; rt::mutex_wait = nullptr; self() = nullptr; }

    void on_enqueue(std::shared_ptr<BetterThreads::TaskBase> t) override
    {
        rt::Pause p; if (th.size() >= rt::MAX_THREADS) { std::cerr << "harness error: too many tasks\n"; std::_Exit(4); }
        auto n = std::make_unique<Thread>(); n->task = std::move(t); unsigned id = unsigned(th.size()); n->task->id = id; th.push_back(std::move(n)); rt::fork(rt::cur, id); visible();
    }
    void on_get(BetterThreads::TaskBase& t) override
    {
        rt::Pause p; visible(); unsigned me = rt::cur;
        while (!t.done) { th[me]->wait = &t; dispatch(); th[me]->wait = nullptr; }
        rt::join(me, unsigned(t.id));
    }
    // the recorded body is over: its frames are gone, tasks nobody waited for still run
    void finish(const void* lo, const void* hi)
    {
        rt::Pause p; bool left = false; for (auto& t: th) left |= t->task && !t->done;
        if (left) rt::dead_stack(lo, hi);
        for (std::size_t i = 1; i < th.size(); ++i) while (!th[i]->done) { th[0]->wait = th[i]->task.get(); dispatch(); th[0]->wait = nullptr; }
    }
    std::size_t tasks() const { return th.size() - 1; }

private:
    bool runnable(std::size_t i) const { auto& t = *th[i]; return !t.done && !(t.wait && !t.wait->done) && !t.mutex; }
    void visible()
    {
        ++points; if (preemptions >= bound) return;
        std::vector<unsigned> o; for (unsigned i = 0; i < th.size(); ++i) if (i != rt::cur && runnable(i)) o.push_back(i);
        if (o.empty()) return;
        std::size_t k = ch.pick(o.size() + 1); if (k == 0) return;
        ++preemptions; trace += " !" + std::to_string(o[k - 1]); go(o[k - 1]);
    }
    void dispatch()   // the current thread cannot go on
    {
        std::vector<unsigned> o; for (unsigned i = 0; i < th.size(); ++i) if (runnable(i)) o.push_back(i);
        if (o.empty()) { bool freed = false; for (auto& t: th) if (t->mutex) { t->mutex = nullptr; freed = true; } if (freed && ++spins < 10000) { for (unsigned i = 0; i < th.size(); ++i) if (runnable(i)) o.push_back(i); } if (o.empty()) deadlock(); }
        unsigned n = o[ch.pick(o.size())]; trace += " " + std::to_string(n); if (n != rt::cur) go(n);
    }
    void block_mutex(void* m) { th[rt::cur]->mutex = m; std::vector<unsigned> o; for (unsigned i = 0; i < th.size(); ++i) if (runnable(i)) o.push_back(i); if (o.empty()) deadlock(); unsigned n = o[ch.pick(o.size())]; unsigned me = rt::cur; go(n); th[me]->mutex = nullptr; }
    [[noreturn]] static void deadlock() { std::cerr << "MC-DEADLOCK: no task can run\n"; std::_Exit(9); }
    void go(unsigned n)
    {
        unsigned me = rt::cur; Thread& a = *th[me]; Thread& b = *th[n]; for (auto& t: th) t->mutex = nullptr; std::memcpy(a.eh, abi::__cxa_get_globals(), 16); unsigned p = rt::paused;
        if (!b.started)
        {
            b.started = true; char* s = static_cast<char*>(rt::stack_alloc(n, STACK)); rt::stack(n, s, s + STACK); getcontext(&b.ctx); b.ctx.uc_stack.ss_sp = s; b.ctx.uc_stack.ss_size = STACK; b.ctx.uc_link = nullptr; makecontext(&b.ctx, &Scheduler::entry, 0);
        }
        rt::cur = n; std::memcpy(abi::__cxa_get_globals(), b.eh, 16); swapcontext(&a.ctx, &b.ctx); rt::cur = me; rt::paused = p; std::memcpy(abi::__cxa_get_globals(), a.eh, 16);
    }
    static void entry()
    {
        Scheduler& s = *self(); unsigned me = rt::cur; Thread& t = *s.th[me]; rt::paused = 0; t.task->run_guarded(); rt::paused = 1; t.done = true; t.task->done = true;
        s.dispatch(); std::abort();
    }
    unsigned spins = 0;
};

// Explore every schedule of `body` up to `bound` preemptions.  body(pause)
// creates everything it uses and copies its results out under rt::Pause;
// after() judges the results.  Returns the number of schedules.
inline std::string once(mc::Ctx& c, Chooser& ch, unsigned bound, unsigned level, const std::string& what, const std::function<void()>& body)
{
    rt::reset(); Scheduler s(ch, bound); BetterThreads::controller() = &s; volatile char here = 0;
    rt::points_on = level; rt::recording = true;
    try { body(); s.finish(const_cast<char*>(&here) - (1 << 16), const_cast<char*>(&here) - 512); } catch (...) { rt::recording = false; rt::points_on = 0; BetterThreads::controller() = nullptr; throw; }
    rt::recording = false; rt::points_on = 0; BetterThreads::controller() = nullptr;
    c.count("memory accesses watched", rt::accesses); c.count("tasks run", s.tasks());
    if (rt::bad) throw mc::Violation{what + ": " + rt::message + " (schedule" + s.trace + ")"};
    return s.trace;
}
// initialise function-local statics first
inline void warm_up(const std::string& what, const std::function<void()>& body) { static std::set<std::string> warm; if (warm.insert(what).second) { rt::reset(); body(); } }
// One schedule, watched by the detector.
inline void one(mc::Ctx& c, const std::string& what, const std::function<void()>& body) { warm_up(what, body); Chooser ch; once(c, ch, 0, 0, what, body); c.step(); c.trace(); c.count("schedules"); }
inline std::uint64_t explore(mc::Ctx& c, unsigned bound, unsigned level, const std::string& what, const std::function<void()>& body, const std::function<void(const std::string&)>& after)
{
    warm_up(what, body);
    rt::forget_visible();
    if (level >= 3) { Chooser ch; once(c, ch, 0, 0, what, body); rt::keep_visible(); c.count("visible granules", rt::visible_count()); }
    Chooser ch; std::uint64_t n = 0; const std::uint64_t limit = mc::thorough() ? 2000000 : 60000;
    do { std::string t = once(c, ch, bound, level, what, body); ++n; c.step(); c.trace(); after(t); if ((n & 63) == 0) mc::Runner::self()->beat(); if (n == limit) { c.count("configurations cut at the schedule limit"); if (getenv("RACE_CUT")) std::cerr << "CUT " << what << "\n"; break; } } while (ch.next());
    c.count("schedules", n); return n;
}
} // namespace race
#endif
