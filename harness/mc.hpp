// mc.hpp - a small stateless, bounded-exhaustive explorer.
//
// A harness is a list of named sections.  A section is a body that takes every
// decision through Ctx::pick(n) / Ctx::of(list); the runner re-executes the
// body for EVERY vector of choices (depth-first, simplest alternative first),
// so the set of cases explored is exactly the cartesian/decision tree the body
// describes - nothing is sampled.  A case is identified by (section, choices)
// and can be replayed alone with  --replay <section>:<c0.c1.c2...>.
//
// Ctx::begin() marks the point where all choices of the case are taken; it
// returns false for cases owned by another shard.  Work (calls into the code
// under test) belongs after it.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <algorithm>
#include <chrono>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

namespace mc {

struct Violation { std::string what; };
struct Known { std::string id, what; };

inline bool& thorough() { static bool t = false; return t; }
inline std::uint64_t& seed() { static std::uint64_t s = 1; return s; }
inline std::string& scratch() { static std::string s = "."; return s; }

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
    return h;
}
struct Hash
{
    std::uint64_t h = 0xcbf29ce484222325ull;
    Hash& add(std::uint64_t v) { h = mix(h, v); return *this; }
    Hash& add(const std::string& s)
    { add(s.size()); for (char c: s) add(static_cast<unsigned char>(c)); return *this; }
    Hash& add(double d) { std::uint64_t u; std::memcpy(&u, &d, 8); return add(u); }
    Hash& add(int v) { return add(static_cast<std::uint64_t>(static_cast<std::int64_t>(v))); }
    Hash& add(bool v) { return add(static_cast<std::uint64_t>(v)); }
    template <class T> Hash& add(const std::vector<T>& v)
    { add(static_cast<std::uint64_t>(v.size())); for (const auto& e: v) add(static_cast<T>(e)); return *this; }
};

struct Stats
{
    std::uint64_t evaluations = 0, nontrivial = 0, transitions = 0, traces = 0,
                  checks = 0, leaves = 0;
    std::unordered_set<std::uint64_t> states, outcomes;
    std::vector<std::string> samples;
    std::map<std::string, std::uint64_t> per_section, counters;
    bool capped = false;
};
inline Stats& stats() { static Stats s; return s; }

struct Runner;

class Ctx
{
public:
    std::size_t pick(std::size_t n)
    {
        if (n == 0) throw std::logic_error("mc: pick(0)");
        std::size_t v;
        if (_pos < _choices.size())
        {
            v = _choices[_pos];
            if (_sizes.size() <= _pos) _sizes.push_back(n);
            else if (_sizes[_pos] != n && !_replay)
                throw std::logic_error("mc: nondeterministic choice arity");
            if (v >= n) throw std::logic_error("mc: replayed choice out of range");
        }
        else { v = 0; _choices.push_back(0); _sizes.push_back(n); }
        ++_pos;
        return v;
    }
    template <class C> const typename C::value_type& of(const C& list)
    { return list[pick(list.size())]; }
    int in(int lo, int hi) { return lo + static_cast<int>(pick(static_cast<std::size_t>(hi - lo + 1))); }
    bool flag() { return pick(2) == 1; }

    bool begin();

    void check(bool ok, const std::string& what)
    { ++stats().checks; if (!ok) throw Violation{what}; }
    template <class A, class B>
    void eq(const A& got, const B& want, const std::string& what)
    {
        ++stats().checks;
        if (!(got == want))
        {
            std::ostringstream os; os << std::setprecision(17) << what << ": got " << got << ", want " << want;
            throw Violation{os.str()};
        }
    }
    template <class A>
    void veq(const std::vector<A>& got, const std::vector<A>& want, const std::string& what)
    {
        ++stats().checks;
        if (!(got == want)) throw Violation{what + ": got " + show(got) + ", want " + show(want)};
    }
    static bool near(double a, double b, double tol = 1e-9)
    {
        if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
        if (std::isinf(a) || std::isinf(b)) return a == b;
        return std::fabs(a - b) <= tol * std::max({1.0, std::fabs(a), std::fabs(b)});
    }
    void approx(double got, double want, const std::string& what, double tol = 1e-9)
    {
        ++stats().checks;
        if (!near(got, want, tol))
        {
            std::ostringstream os; os << std::setprecision(17) << what << ": got " << got << ", want " << want;
            throw Violation{os.str()};
        }
    }
    void vapprox(const std::vector<double>& got, const std::vector<double>& want,
                 const std::string& what, double tol = 1e-9)
    {
        ++stats().checks;
        bool ok = got.size() == want.size();
        for (std::size_t i = 0; ok && i < got.size(); ++i) ok = near(got[i], want[i], tol);
        if (!ok) throw Violation{what + ": got " + show(got) + ", want " + show(want)};
    }
    [[noreturn]] void fail(const std::string& what) { throw Violation{what}; }
    // A failure identified as one specific, recorded defect.  Continues the
    // exploration when that id is in the known-findings file; a violation
    // otherwise.
    void known(const std::string& id, const std::string& what) { throw Known{id, what}; }

    // fn must throw a std::exception (any), otherwise violation.
    template <class F> void throws(F&& fn, const std::string& what)
    {
        ++stats().checks;
        bool thrown = false;
        try { fn(); } catch (const Violation&) { throw; } catch (const Known&) { throw; }
        catch (const std::exception&) { thrown = true; }
        if (!thrown) throw Violation{what + ": expected an error, none reported"};
    }

    void state(std::uint64_t h) { if (stats().states.size() < 6000000) stats().states.insert(h); }
    void state(const Hash& h) { state(h.h); }
    void outcome(std::uint64_t h) { if (stats().outcomes.size() < 6000000) stats().outcomes.insert(h); }
    void outcome(const Hash& h) { outcome(h.h); }
    void step(std::uint64_t n = 1) { stats().transitions += n; }
    void trace() { ++stats().traces; }
    void nontrivial() { _nontrivial = true; }
    void count(const std::string& k, std::uint64_t n = 1) { stats().counters[k] += n; }
    void describe(const std::string& s) { _desc = s; }
    std::ostringstream& log() { return _log; }

    template <class T> static std::string show(const std::vector<T>& v)
    {
        std::ostringstream os; os << std::setprecision(17) << "[";
        for (std::size_t i = 0; i < v.size(); ++i)
        { if (i) os << ","; if (i > 60) { os << "..."; break; } os << v[i]; }
        os << "]"; return os.str();
    }
    static std::string quote(const std::string& s)
    {
        std::ostringstream os; os << '\'';
        for (unsigned char c: s)
        {
            if (c == '\n') os << "\\n"; else if (c == '\r') os << "\\r"; else if (c == '\'' ) os << "\\'";
            else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\x%02x", c); os << b; }
            else os << c;
        }
        os << '\''; return os.str();
    }

private:
    friend struct Runner;
    std::vector<std::size_t> _choices, _sizes;
    std::size_t _pos = 0;
    bool _replay = false, _nontrivial = false, _began = false;
    std::string _desc;
    std::ostringstream _log;
};

using Body = std::function<void(Ctx&)>;
struct Section { std::string name; Body body; };

struct Runner
{
    std::vector<Section> sections;
    unsigned shard = 0, shards = 1;
    std::set<std::string> known_ids;
    std::map<std::string, std::pair<std::uint64_t, std::string>> known_hits;
    std::string out, cur_path;
    char* cur = nullptr;
    static constexpr std::size_t CUR = 65536;
    std::uint64_t leaf = 0;
    std::uint64_t hang_s = 60;
    // A case hangs if it uses hang_s seconds of processor time, or six times as
    // long on the clock (so that a busy machine is not taken for a hang).
    double cpu0 = 0; int alarms = 0;
    static double cpu_now() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
    void beat() { cpu0 = cpu_now(); alarms = 0; alarm(static_cast<unsigned>(hang_s)); }
    static void on_alarm(int)
    {
        Runner* r = self();
        if (r && cpu_now() - r->cpu0 < 0.9 * double(r->hang_s) && ++r->alarms < 6) { alarm(static_cast<unsigned>(r->hang_s)); return; }
        const char m[] = "\nMC-HANG\n"; ssize_t n = ::write(2, m, sizeof m - 1); (void) n; std::_Exit(7);
    }
    std::string cur_section;
    static Runner*& self() { static Runner* r = nullptr; return r; }

    static std::string join(const std::vector<std::size_t>& c)
    {
        std::string s; for (std::size_t i = 0; i < c.size(); ++i)
        { if (i) s += '.'; s += std::to_string(c[i]); }
        return s;
    }
    bool begin(Ctx& c)
    {
        // all choices made so far == the complete case
        c._began = true;
        if (c._replay) { mark(c); return true; }
        ++stats().leaves;
        bool mine = (leaf++ % shards) == shard;
        if (mine) { ++stats().evaluations; ++stats().per_section[cur_section]; mark(c); }
        return mine;
    }
    void mark(Ctx& c)
    {
        if (cur)
        {
            std::string id = cur_section + ":" + join(c._choices);
            std::size_t n = std::min(id.size(), CUR - 1);
            std::memcpy(cur, id.data(), n); cur[n] = 0;
        }
        beat();
    }
    static std::string esc(const std::string& s)
    {
        std::ostringstream os;
        for (unsigned char ch: s)
        {
            if (ch == '"' || ch == '\\') os << '\\' << ch;
            else if (ch < 32 || ch > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", ch); os << b; }
            else os << ch;
        }
        return os.str();
    }
    // returns 0 ok, 1 violation, 2 known
    int run_case(const Section& s, Ctx& c, std::string& msg, std::string& kid)
    {
        try { s.body(c); return 0; }
        catch (const Violation& v) { msg = v.what; }
        catch (const Known& k)
        {
            msg = k.what; kid = k.id;
            if (known_ids.count(k.id)) return 2;
            msg = "[" + k.id + "] " + msg;
        }
        catch (const std::logic_error& e)
        {
            if (std::strncmp(e.what(), "mc:", 3) == 0) { std::cerr << "harness error: " << e.what() << "\n"; std::_Exit(4); }
            msg = std::string("unexpected exception: ") + e.what();
        }
        catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); }
        catch (...) { msg = "unexpected exception of unknown type"; }
        return 1;
    }
    int main(int argc, char** argv)
    {
        self() = this;
        std::string replay, only;
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto nxt = [&] { return std::string(argv[++i]); };
            if (a == "--tier") thorough() = nxt() == "thorough";
            else if (a == "--seed") seed() = std::strtoull(nxt().c_str(), nullptr, 10);
            else if (a == "--shard") { shard = unsigned(std::stoul(nxt())); }
            else if (a == "--shards") { shards = unsigned(std::stoul(nxt())); }
            else if (a == "--out") out = nxt();
            else if (a == "--cur") cur_path = nxt();
            else if (a == "--scratch") scratch() = nxt();
            else if (a == "--known") known_ids.insert(nxt());
            else if (a == "--replay") replay = nxt();
            else if (a == "--section") only = nxt();
            else if (a == "--hang") hang_s = std::strtoull(nxt().c_str(), nullptr, 10);
            else { std::cerr << "bad argument " << a << "\n"; return 4; }
        }
        std::signal(SIGALRM, on_alarm);
        if (!cur_path.empty())
        {
            int fd = ::open(cur_path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0 && ::ftruncate(fd, CUR) == 0)
            {
                void* p = ::mmap(nullptr, CUR, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED) cur = static_cast<char*>(p);
            }
        }
        // The code under test prints to std::cout; keep that off the terminal.
        static std::ofstream null("/dev/null");
        auto* old_cout = std::cout.rdbuf(null.rdbuf());

        if (!replay.empty())
        {
            auto p = replay.rfind(':');
            std::string sec = replay.substr(0, p);
            for (const auto& s: sections) if (s.name == sec)
            {
                cur_section = sec;
                Ctx c; c._replay = true;
                std::stringstream ss(replay.substr(p + 1)); std::string t;
                while (std::getline(ss, t, '.')) if (!t.empty()) c._choices.push_back(std::stoul(t));
                std::string msg, kid;
                int r = run_case(s, c, msg, kid);
                std::cout.rdbuf(old_cout);
                std::cout << "replay " << replay << "\n" << c._desc << "\n" << c._log.str();
                if (r == 0) { std::cout << "REPLAY-OK\n"; return 0; }
                std::cout << (r == 2 ? "REPLAY-KNOWN " : "REPLAY-VIOLATION ") << msg << "\n";
                return r == 2 ? 0 : 1;
            }
            std::cerr << "no section " << sec << "\n"; return 4;
        }

        int rc = 0; std::string vcase, vmsg, vdesc;
        for (const auto& s: sections)
        {
            if (!only.empty() && s.name != only) continue;
            cur_section = s.name;
            stats().per_section[s.name] += 0;
            std::vector<std::size_t> choices;
            bool more = true;
            std::uint64_t local = 0;
            std::size_t sampled = 0;
            while (more)
            {
                Ctx c; c._choices = choices;
                std::string msg, kid;
                auto before = stats().evaluations;
                int r = run_case(s, c, msg, kid);
                if (!c._began && r == 0) { /* pruned leaf, not a case */ }
                if (stats().evaluations > before)
                {
                    ++local;
                    if (c._nontrivial) ++stats().nontrivial;
                    if (!c._desc.empty() && sampled < 3 && (local == 1 || (local & (local - 1)) == 0) && c._nontrivial)
                    { ++sampled; stats().samples.push_back(s.name + ": " + c._desc); }
                }
                if (r == 2)
                {
                    auto& h = known_hits[kid];
                    if (h.first++ == 0) h.second = msg + " (case " + s.name + ":" + join(c._choices) + ")";
                }
                if (r == 1)
                {
                    rc = 1; vcase = s.name + ":" + join(c._choices); vmsg = msg; vdesc = c._desc + "\n" + c._log.str();
                    break;
                }
                // next
                c._choices.resize(c._pos); c._sizes.resize(c._pos);
                while (!c._choices.empty() && c._choices.back() + 1 >= c._sizes.back())
                { c._choices.pop_back(); c._sizes.pop_back(); }
                if (c._choices.empty()) more = false;
                else { ++c._choices.back(); choices = c._choices; }
            }
            if (rc) break;
        }
        alarm(0);
        std::cout.rdbuf(old_cout);
        if (!out.empty())
        {
            std::ofstream o(out);
            auto& st = stats();
            o << "{\"evaluations\":" << st.evaluations << ",\"leaves\":" << st.leaves << ",\"nontrivial\":" << st.nontrivial
              << ",\"transitions\":" << st.transitions << ",\"traces\":" << st.traces
              << ",\"checks\":" << st.checks << ",\"sections\":{";
            bool f = true;
            for (auto& e: st.per_section) { o << (f ? "" : ",") << "\"" << esc(e.first) << "\":" << e.second; f = false; }
            o << "},\"counters\":{"; f = true;
            for (auto& e: st.counters) { o << (f ? "" : ",") << "\"" << esc(e.first) << "\":" << e.second; f = false; }
            o << "},\"samples\":["; f = true;
            for (auto& e: st.samples) { o << (f ? "" : ",") << "\"" << esc(e) << "\""; f = false; }
            o << "],\"known\":{"; f = true;
            for (auto& e: known_hits)
            { o << (f ? "" : ",") << "\"" << esc(e.first) << "\":[" << e.second.first << ",\"" << esc(e.second.second) << "\"]"; f = false; }
            o << "},\"violation\":" << (rc ? "true" : "false")
              << ",\"case\":\"" << esc(vcase) << "\",\"message\":\"" << esc(vmsg) << "\",\"desc\":\"" << esc(vdesc) << "\"}\n";
            std::ofstream hs(out + ".states", std::ios::binary);
            for (auto h: st.states) hs.write(reinterpret_cast<const char*>(&h), 8);
            std::ofstream ho(out + ".outcomes", std::ios::binary);
            for (auto h: st.outcomes) ho.write(reinterpret_cast<const char*>(&h), 8);
        }
        if (rc) std::cout << "case " << vcase << ": " << vmsg << "\n" << vdesc << "\n";
        std::cout.flush();
        return rc;
    }
};

inline bool Ctx::begin() { return Runner::self()->begin(*this); }

inline std::string scratch_file(const std::string& name) { return scratch() + "/" + name; }
inline void write_file(const std::string& path, const std::string& bytes)
{
    std::ofstream o(path, std::ios::binary | std::ios::trunc);
    o.write(bytes.data(), static_cast<std::streamsize>(bytes.size()));
    if (!o) { std::cerr << "harness error: cannot write " << path << "\n"; std::_Exit(4); }
}
inline std::string read_file(const std::string& path)
{
    std::ifstream i(path, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>());
}

} // namespace mc

#define MC_MAIN(...) \
    int main(int argc, char** argv) { mc::Runner r; r.sections = { __VA_ARGS__ }; return r.main(argc, argv); }

#endif
