// L01-L03: the logger under concurrent use, disk faults and crashes.
#include "common.h"
#include "huira/util/logger.hpp"
#include "simfs.h"
#include <condition_variable>
#include <sys/wait.h>
#include <unistd.h>

using namespace huira;
using sim::require;

namespace {
const char* LV[] = {"DEBUG", "INFO ", "WARN ", "ERROR"};

struct Line {
    int level;
    std::string tid, text;
    std::string raw;
};
// parses a dump; violation on anything that is not a whole line
std::vector<Line> parse_dump(const std::string& d, const char* what, bool strict_end = true)
{
    std::vector<Line> out;
    size_t p = d.find("\n\n");
    require(d.compare(0, 10, "Huira Log\n") == 0 && p != std::string::npos, "torn-dump", std::string(what) + ": header missing: " + d.substr(0, 60));
    p = d.find("\n\n", p + 2);
    require(p != std::string::npos && d.find("Platform: ") < p, "torn-dump", std::string(what) + ": header incomplete");
    p += 2;
    while (p < d.size()) {
        size_t e = d.find('\n', p);
        if (e == std::string::npos) {
            require(!strict_end, "torn-dump", std::string(what) + ": last line has no end: " + d.substr(p, 80));
            break;
        }
        std::string l = d.substr(p, e - p);
        p = e + 1;
        Line x;
        x.raw = l;
        x.level = -1;
        size_t a = l.find(" ["), b = l.find("] [Thread "), c = b == std::string::npos ? b : l.find("] ", b + 10);
        if (a == 12 && c != std::string::npos)
            for (int i = 0; i < 4; ++i)
                if (l.substr(a + 2, b - a - 2) == LV[i])
                    x.level = i;
        require(x.level >= 0, "torn-dump", std::string(what) + ": malformed line: " + l.substr(0, 200));
        x.tid = l.substr(b + 10, c - b - 10);
        x.text = l.substr(c + 2);
        out.push_back(x);
    }
    return out;
}

struct Msg {
    int thread, level;
    std::string text;
    std::string tid;
    uint64_t s, e = ~0ull;
    bool must = false, may = false; // accepted by level
};
struct LevelSet {
    uint64_t s, e;
    int level;
};
struct SinkSet {
    uint64_t s, e;
    int id; // -1 none
};
struct SinkCall {
    int sink, level;
    std::string text, tid;
    uint64_t at;
};
std::string my_tid()
{
    std::ostringstream o;
    o << std::this_thread::get_id();
    return o.str();
}

struct L01 {
    std::vector<Msg> msgs;
    std::vector<LevelSet> levels;
    std::vector<SinkSet> sinks;
    std::vector<SinkCall> calls;
    struct Resize {
        uint64_t s, e;
        size_t n;
    };
    std::vector<Resize> sizes;
    struct Dump {
        uint64_t s, e;
        std::string path, bytes;
    };
    std::vector<Dump> dumps;
    int nsinks = 0, ndumps = 0;
};
L01* H;

std::string make_text(int t, int n)
{
    std::string s = fmt("m%d.%d", t, n);
    int k = (int)sim::wrand(4);
    s += ":" + std::string(k == 0 ? 0 : k == 1 ? 6 : k == 2 ? 40 : 300, (char)('a' + n % 26));
    return s + fmt("/%d.%d", t, n);
}

Logger::CustomSink make_sink(int id, bool throws, bool nested)
{
    std::vector<int> payload(8, id); // heap state owned by the sink
    return [id, throws, nested, payload](const LogEntry& e) {
        bool ok = true;
        for (int v : payload)
            ok = ok && v == id;
        std::string t = e.message;
        int lv = (int)e.level;
        std::string tid;
        {
            std::ostringstream o;
            o << e.thread_id;
            tid = o.str();
        }
        sim::yield();
        {
            sim::Quiet q;
            require(ok, "torn-sink", "a sink ran with destroyed or foreign state");
            H->calls.push_back({id, lv, t, tid, sim::seq()});
        }
        sim::yield();
        if (throws)
            throw std::runtime_error("sink");
    };
}

enum Kind { LOG, RESIZE, LEVEL, SINK, CLEAR, DUMP };
struct Op {
    Kind k;
    int a = 0;
    std::string text;
    bool f1 = false;
    int id = 0;
};

void do_op(int t, const Op& o)
{
    switch (o.k) {
    case LOG: {
        size_t i;
        {
            sim::Quiet q;
            i = H->msgs.size();
            H->msgs.push_back({t, o.a, o.text, my_tid(), sim::seq()});
        }
        if (o.f1 && o.a == 2)
            HUIRA_LOG_WARNING(o.text);
        else if (o.f1 && o.a == 0)
            HUIRA_LOG_DEBUG(o.text);
        else
            Logger::log((LogLevel)o.a, o.text);
        {
            sim::Quiet q;
            H->msgs[i].e = sim::seq();
        }
        break;
    }
    case RESIZE: {
        uint64_t s = sim::seq();
        size_t i;
        {
            sim::Quiet q;
            i = H->sizes.size();
            H->sizes.push_back({s, ~0ull, (size_t)o.a});
        }
        Logger::set_buffer_size((size_t)o.a);
        sim::Quiet q;
        H->sizes[i].e = sim::seq();
        break;
    }
    case LEVEL: {
        uint64_t s = sim::seq();
        size_t i;
        {
            sim::Quiet q;
            i = H->levels.size();
            H->levels.push_back({s, ~0ull, o.a});
        }
        Logger::set_level((LogLevel)o.a);
        sim::Quiet q;
        H->levels[i].e = sim::seq();
        break;
    }
    case SINK:
    case CLEAR: {
        uint64_t s = sim::seq();
        size_t i;
        Logger::CustomSink f;
        {
            sim::Quiet q;
            i = H->sinks.size();
            H->sinks.push_back({s, ~0ull, o.k == SINK ? o.id : -1});
            if (o.k == SINK)
                f = make_sink(o.id, o.f1, false);
        }
        if (o.k == SINK)
            Logger::set_custom_sink(std::move(f));
        else
            Logger::clear_custom_sink();
        sim::Quiet q;
        H->sinks[i].e = sim::seq();
        break;
    }
    case DUMP: {
        std::string path = fmt("/simfs/log/d%d", o.id);
        uint64_t s = sim::seq();
        std::string r = Logger::dump_to_file(path);
        sim::Quiet q;
        L01::Dump d{s, sim::seq(), r, ""};
        require(r == path, "dump-failed", "a dump to a healthy disk returned '" + r + "'");
        simfs::get(r, d.bytes);
        H->dumps.push_back(d);
        break;
    }
    }
}

// levels/sinks possibly in force at some time in [s,e]
template <class V, class F> void possible(const V& sets, uint64_t s, uint64_t e, F f)
{
    // a set is out of force for [s,e] if another set started after it ended and ended before s
    for (auto& x : sets) {
        if (x.s > e)
            continue;
        bool over = false;
        for (auto& y : sets)
            if (&y != &x && y.s > x.e && y.e < s)
                over = true;
        if (!over)
            f(x);
    }
}

void check_retained(const std::vector<Line>& lines, const std::string& what, uint64_t ds, uint64_t de, bool exact_count, size_t expect_min)
{
    std::map<std::string, size_t> idx;
    for (size_t i = 0; i < H->msgs.size(); ++i)
        idx[H->msgs[i].text] = i;
    std::vector<size_t> order;
    std::set<size_t> in;
    for (auto& l : lines) {
        auto it = idx.find(l.text);
        require(it != idx.end(), "torn-message", what + " contains text that was never logged: " + l.text.substr(0, 120));
        const Msg& m = H->msgs[it->second];
        require(l.level == m.level && l.tid == m.tid, "torn-message", what + ": level or thread of " + m.text.substr(0, 20) + " is wrong");
        require(m.may, "level", what + " contains a message below the level in force: " + m.text.substr(0, 20));
        require(m.s < de, "torn-message", what + " contains a later message");
        require(in.insert(it->second).second, "duplicate", what + " contains a message twice: " + m.text.substr(0, 20));
        order.push_back(it->second);
    }
    for (size_t i = 0; i < order.size(); ++i)
        for (size_t j = i + 1; j < order.size(); ++j) {
            const Msg &a = H->msgs[order[i]], &b = H->msgs[order[j]];
            require(!(b.e < a.s), "order", what + ": " + b.text.substr(0, 12) + " was logged before " + a.text.substr(0, 12) + " but is listed after it");
        }
    for (size_t i : order)
        for (size_t j = 0; j < H->msgs.size(); ++j) {
            const Msg &a = H->msgs[i], &b = H->msgs[j];
            if (a.e < b.s && b.e < ds && b.must)
                require(in.count(j), "lost", what + " holds " + a.text.substr(0, 12) + " but lacks the more recent " + b.text.substr(0, 12));
        }
    size_t sure = 0;
    for (auto& m : H->msgs)
        if (m.must && m.e < ds)
            ++sure;
    size_t want = std::min(sure, expect_min);
    require(lines.size() >= want, "lost", what + fmt(" holds %zu messages, at least %zu expected", lines.size(), want));
    (void)exact_count;
}

void l01()
{
    H = new L01();
    simfs::reset();
    simfs::mkdirs("/simfs/log");
    sim::set_workers(0);
    int nt = sim::wcoin(0.12) ? 1 : sim::wint(2, 4);
    bool preinit = sim::wcoin(0.7);
    size_t size0 = (size_t)sim::wint(1, 12);
    bool resizes = sim::wcoin(0.5), levels = sim::wcoin(0.4), sinks = sim::wcoin(0.6), dumps = sim::wcoin(0.4);
    KeepSignals keep;
    H->levels.push_back({0, 0, 1});
    H->sinks.push_back({0, 0, -1});
    H->sizes.push_back({0, 0, 1000});
    if (preinit) {
        Logger::enable_console_warning(false);
        do_op(0, {RESIZE, (int)size0});
        if (sinks)
            do_op(0, {SINK, 0, "", false, H->nsinks++});
    }
    std::vector<std::vector<Op>> plan((size_t)nt);
    for (int t = 0; t < nt; ++t) {
        int n = sim::wint(2, 12);
        for (int i = 0; i < n; ++i) {
            Op o;
            double u = sim::wunit();
            o.k = LOG;
            if (u < 0.08 && resizes)
                o.k = RESIZE, o.a = sim::wint(0, 9);
            else if (u < 0.15 && levels)
                o.k = LEVEL, o.a = sim::wint(0, 3);
            else if (u < 0.25 && sinks)
                o.k = sim::wcoin(0.7) ? SINK : CLEAR, o.id = H->nsinks++, o.f1 = sim::wcoin(0.3);
            else if (u < 0.32 && dumps)
                o.k = DUMP, o.id = H->ndumps++;
            else {
                o.a = levels ? sim::wint(0, 3) : sim::wint(1, 3);
                o.text = make_text(t, i);
                o.f1 = sim::wcoin(0.2);
            }
            if (sim::keep_op()) {
                static const char* kn[] = {"log", "resize", "level", "sink", "clear-sink", "dump"};
                sim::op(fmt("thread %d: %s %d %s", t, kn[o.k], o.k == SINK || o.k == DUMP ? o.id : o.a, o.text.substr(0, 10).c_str()));
                plan[(size_t)t].push_back(o);
            }
        }
    }
    auto body = [&](int t) {
        for (auto& o : plan[(size_t)t])
            do_op(t, o);
    };
    std::vector<std::thread> ths;
    for (int t = 1; t < nt; ++t)
        ths.emplace_back(body, t);
    body(0);
    for (auto& x : ths)
        x.join();
    sim::Quiet q;
    uint64_t s = sim::seq();
    std::string path = Logger::dump_to_file("/simfs/log/final");
    uint64_t e = sim::seq();
    std::string bytes;
    require(path == "/simfs/log/final" && simfs::get(path, bytes), "dump-failed", "final dump");

    // which messages had to be, or could be, accepted
    for (auto& m : H->msgs) {
        bool any = false, all = true;
        possible(H->levels, m.s, m.e, [&](const LevelSet& l) {
            (m.level >= l.level ? any : all) = m.level >= l.level;
        });
        m.may = any;
        m.must = any && all;
    }
    // sinks
    std::map<std::string, std::vector<const SinkCall*>> by;
    for (auto& c : H->calls)
        by[c.text].push_back(&c);
    std::set<std::string> known;
    for (auto& m : H->msgs) {
        known.insert(m.text);
        auto& v = by[m.text];
        require(v.size() <= 1, "duplicate", fmt("message %.12s reached a sink %zu times", m.text.c_str(), v.size()));
        bool none = false;
        std::set<int> poss;
        possible(H->sinks, m.s, m.e, [&](const SinkSet& x) {
            if (x.id < 0)
                none = true;
            else
                poss.insert(x.id);
        });
        if (v.empty())
            require(!m.must || none, "lost", fmt("message %.12s never reached the installed sink", m.text.c_str()));
        else {
            const SinkCall& c = *v[0];
            require(m.may, "level", fmt("message %.12s below the level reached a sink", m.text.c_str()));
            require(poss.count(c.sink), "wrong-sink", fmt("message %.12s went to sink %d, which was not installed then", m.text.c_str(), c.sink));
            require(c.level == m.level && c.tid == m.tid, "torn-message", "sink saw wrong level or thread");
            require(c.at > m.s && c.at < m.e, "late-sink", "sink called outside the log call");
        }
    }
    for (auto& c : H->calls)
        require(known.count(c.text), "torn-message", "a sink got text that was never logged: " + c.text.substr(0, 100));
    // retained log
    size_t min_size = ~(size_t)0, last = 1000;
    for (auto& z : H->sizes)
        if (&z != &H->sizes[0] || !preinit)
            min_size = std::min(min_size, std::max<size_t>(1, z.n));
    size_t cap = Logger::get_buffer_size();
    bool known_size = false;
    for (auto& z : H->sizes) {
        bool later = false;
        for (auto& y : H->sizes)
            if (y.s > z.e)
                later = true;
        if (!later && std::max<size_t>(1, z.n) == cap)
            known_size = true;
    }
    require(known_size, "size", fmt("buffer size is %zu, not the last one set", cap));
    (void)last;
    for (auto& d : H->dumps) {
        auto l = parse_dump(d.bytes, "dump");
        check_retained(l, "a dump", d.s, d.e, false, min_size);
    }
    auto fin = parse_dump(bytes, "final dump");
    require(fin.size() <= cap, "size", fmt("%zu messages retained in a buffer of %zu", fin.size(), cap));
    check_retained(fin, "the final log", s, e, true, min_size);
    if (nt == 1) {
        // sequential: exact model
        std::deque<const Msg*> model;
        size_t n = 1000, mi = 0, zi = 1;
        if (preinit)
            n = std::max<size_t>(1, H->sizes[1].n), zi = 2;
        for (auto& o : plan[0]) {
            if (o.k == LOG) {
                const Msg& m = H->msgs[mi++];
                if (m.must) {
                    model.push_back(&m);
                    if (model.size() > n)
                        model.pop_front();
                }
            } else if (o.k == RESIZE) {
                n = std::max<size_t>(1, H->sizes[zi++].n);
                while (model.size() > n)
                    model.pop_front();
            }
        }
        require(model.size() == fin.size(), "lost", fmt("%zu messages retained, %zu expected", fin.size(), model.size()));
        for (size_t i = 0; i < fin.size(); ++i)
            require(model[i]->text == fin[i].text, "order", "retained log differs from the sequential model");
    }
    for (auto& l : fin)
        sim::mix(l.text);
    for (auto& c : H->calls)
        sim::mix(c.text);
    uint64_t h = 7;
    for (auto& l : fin)
        h = hash64(h, hash_str(l.text));
    sim::state(h);
}
sim::Reg r_l01("l01_log", l01);

// -------------------------------------------------------------------------------------------------
// L02: dumps under disk faults
void l02()
{
    H = new L01();
    simfs::reset();
    simfs::mkdirs("/simfs/log");
    simfs::virtual_cwd(true);
    setenv("HUIRA_LOG_DIR", "/simfs/log", 1);
    KeepSignals keep;
    std::deque<std::string> model;
    bool long_run = sim::wcoin(0.04); // the default size and enough messages to go round
    size_t cap = long_run ? 1000 : (size_t)sim::wint(1, 40);
    Logger::enable_console_warning(false);
    if (!long_run)
        Logger::set_buffer_size(cap);
    Logger::set_level(LogLevel::Debug);
    std::vector<std::string> sink_got;
    int n = sim::wint(2, 14), serial = 0;
    // the faults of this run
    bool healthy = sim::wcoin(0.15);
    auto arm = [&] {
        if (healthy)
            return;
        switch (sim::wrand(9)) {
        case 8:
            sim::fault_enable("fs.open", 0.5);
            sim::fault_enable("fs.getcwd", 0.5);
            break;
        case 0: sim::fault_enable("fs.open", 0.5); break;
        case 1: sim::fault_enable("fs.write", 0.4); break;
        case 2: sim::fault_enable("fs.enospc", 0.4); break;
        case 3: sim::fault_enable("fs.close", 0.6); break;
        case 4: sim::fault_enable("fs.short-write", 0.7); break;
        case 5: sim::fault_enable("fs.eintr", 0.4); break;
        case 6: simfs::set_capacity((size_t)sim::wint(1, 9000)); break;
        case 7:
            sim::fault_enable("fs.short-write", 0.5);
            sim::fault_enable("fs.open", 0.3);
            sim::fault_enable("fs.write", 0.1);
            sim::fault_enable("fs.close", 0.2);
            break;
        }
    };
    arm();
    if (sim::wcoin(0.3))
        arm();
    sim::faults_off();
    for (int i = 0; i < n; ++i) {
        double u = sim::wunit();
        int lv = sim::wint(0, 3);
        int len = sim::wcoin(0.2) ? sim::wint(3000, 12000) : sim::wint(0, 120);
        int burst = sim::wint(1, 6);
        if (long_run)
            burst *= sim::wint(1, 250), len = std::min(len, 120);
        int where = (int)sim::wrand(5);
        bool k = sim::keep_op();
        if (!k)
            continue;
        if (u < 0.6) {
            for (int j = 0; j < burst; ++j) {
                std::string t = fmt("n%d:", serial++) + std::string((size_t)len, (char)('a' + i % 26));
                sim::op(fmt("log %d %zu bytes", lv, t.size()));
                Logger::log((LogLevel)lv, t);
                model.push_back(fmt("%d|", lv) + t);
                if (model.size() > cap)
                    model.pop_front();
            }
            continue;
        }
        if (u < 0.68) {
            cap = (size_t)sim::wint(1, 40);
            sim::op(fmt("resize %zu", cap));
            Logger::set_buffer_size(cap);
            while (model.size() > cap)
                model.pop_front();
            continue;
        }
        std::string path = where == 0 ? "" : where == 1 ? fmt("/simfs/none/x%d.log", i) : where == 2 ? fmt("rel%d.log", i) : fmt("/simfs/log/d%d.log", i);
        sim::op("dump " + path);
        uint64_t e0 = simfs::errors();
        sim::faults_on();
        std::string r = Logger::dump_to_file(path);
        sim::faults_off();
        uint64_t errs = simfs::errors() - e0;
        sim::mix(r.empty());
        sim::state(hash64(hash64(errs, r.empty()), (uint64_t)where));
        require(simfs::open_handles() == 0, "leak", "a dump left a file open: " + simfs::handle_names());
        if (r.empty()) {
            sim::probe("dump reported failure");
            require(errs > 0, "dump-failed", "a dump reported failure although nothing failed");
            continue;
        }
        sim::probe(errs ? "dump succeeded despite a fault" : "dump succeeded");
        std::string full = r[0] == '/' ? r : "/simfs/cwd/" + r, base = path.substr(path.rfind('/') + 1);
        std::string primary = where == 0 ? "" : path[0] == '/' ? path : "/simfs/cwd/" + path;
        if (where != 0)
            require(full == primary || full == "/simfs/cwd/" + base, "wrong-place", "dump went to " + full + " instead of " + primary);
        else
            require(full.compare(0, 11, "/simfs/log/") == 0 || full.compare(0, 11, "/simfs/cwd/") == 0, "wrong-place", "default dump went to " + full);
        if (where != 1 && errs == 0)
            require(where == 0 ? full.compare(0, 11, "/simfs/log/") == 0 : full == primary, "wrong-place", "no failure, but dump fell back to " + full);
        std::string b;
        require(simfs::get(full, b), "dump-incomplete", "dump reported " + full + ", which does not exist");
        auto lines = parse_dump(b, "dump reported as successful");
        require(lines.size() == model.size(), "dump-incomplete", fmt("dump reported as successful holds %zu of %zu messages", lines.size(), model.size()));
        for (size_t j = 0; j < lines.size(); ++j)
            require(fmt("%d|", lines[j].level) + lines[j].text == model[j], "dump-incomplete", "dump differs from the retained messages at line " + std::to_string(j) + ": " + lines[j].raw.substr(0, 80));
        sim::mix(b.size());
    }
    // usable afterwards
    simfs::set_capacity(0);
    Logger::log(LogLevel::Error, "after");
    model.push_back("3|after");
    if (model.size() > cap)
        model.pop_front();
    std::string r = Logger::dump_to_file("/simfs/log/last.log");
    std::string b;
    require(r == "/simfs/log/last.log" && simfs::get(r, b), "unusable", "a dump after the faults stopped failed");
    auto lines = parse_dump(b, "dump after the faults stopped");
    require(lines.size() == model.size() && lines.back().text == "after", "unusable", "the log is damaged after failed dumps");
}
sim::Reg r_l02("l02_dump", l02);

// -------------------------------------------------------------------------------------------------
// L03: crash reports
struct Post {
    int enabled, how, nmsg, finished;
    int order_n;
    char done[256][48]; // messages whose log call had returned before the crash, in order of return
    int ndone;
    int size;
    int crashed;
    int faulty;
};
constexpr size_t POST_OFF = 16u << 20;
Post* P()
{
    return (Post*)((char*)sim::shared(POST_OFF + sizeof(Post)) + POST_OFF);
}
[[noreturn]] void die(int how)
{
    P()->crashed++;
    switch (how) {
    case 0: *(volatile int*)8 = 1; break;
    case 1: raise(SIGFPE); break;
    case 2: raise(SIGBUS); break;
    case 3: raise(SIGILL); break;
    case 4: std::abort();
    case 5: throw std::runtime_error("kaboom");
    case 6: throw 42;
    case 7: std::terminate();
    }
    // a fatal signal must not return
    _exit(99);
}
void l03()
{
    sim::set_race_detect(false); // threads share the harness record of what they have logged
    simfs::mirror();
    simfs::reset();
    simfs::mkdirs("/simfs/log");
    simfs::virtual_cwd(true);
    setenv("HUIRA_LOG_DIR", "/simfs/log", 1);
    memset(P(), 0, sizeof(Post));
    sim::set_cpu_limit(8);
    int nt = sim::wint(1, 3);
    int size = sim::wcoin(0.3) ? sim::wint(5, 14) : 100;
    P()->size = size;
    Logger::enable_console_warning(false);
    Logger::set_buffer_size((size_t)size);
    bool en = sim::wcoin(0.85);
    if (sim::wcoin(0.3))
        Logger::enable_crash_handler(!en);
    Logger::enable_crash_handler(en);
    P()->enabled = en;
    // 0: a thread dies at a chosen operation, 1: signal at an arbitrary step, 2: two threads die,
    // 3: a thread dies while another is stuck in a sink, 4: a thread dies inside a sink
    int mode = (int)sim::wrand(5);
    int how = sim::wint(0, 7), how2 = sim::wint(0, 7);
    if (mode == 3 && nt == 1)
        nt = 2;
    if (mode == 4 && (how == 5 || how == 6))
        how = 7; // what a sink throws is ignored
    P()->how = how;
    bool faulty = sim::wcoin(0.15);
    P()->faulty = faulty;
    bool locking = sim::wcoin(0.5); // the sink holds a lock of its own
    std::vector<std::vector<int>> plan((size_t)nt);
    int total = 0;
    for (int t = 0; t < nt; ++t) {
        int n = sim::wint(1, 8);
        for (int i = 0; i < n; ++i)
            if (sim::keep_op()) {
                plan[(size_t)t].push_back(i);
                ++total;
            }
    }
    int victim = (int)sim::wrand((uint64_t)nt);
    int at = plan[(size_t)victim].empty() ? 0 : (int)sim::wrand(plan[(size_t)victim].size() + 1);
    int victim2 = (int)sim::wrand((uint64_t)nt), at2 = (int)sim::wrand(4);
    if (mode == 3)
        victim = 0;
    int fatal = plan[(size_t)victim].empty() ? -1 : plan[(size_t)victim][(size_t)sim::wrand(plan[(size_t)victim].size())];
    uint64_t step = sim::wrand(1 + (uint64_t)total * 180);
    static const int sigs[] = {SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGABRT};
    int sig = sigs[sim::wrand(5)];
    static const char* hn[] = {"SIGSEGV", "SIGFPE", "SIGBUS", "SIGILL", "abort", "uncaught exception", "uncaught int", "terminate"};
    sim::op(fmt("handler %s, %d threads, %s", en ? "on" : "off", nt, mode == 1 ? fmt("signal %d after %llu steps", sig, (unsigned long long)step).c_str() : fmt("thread %d dies by %s%s", victim, hn[how], mode == 3 ? " while another is stuck in a sink" : mode == 4 ? " inside a sink" : mode == 2 ? fmt(" and thread %d by %s", victim2, hn[how2]).c_str() : "").c_str()));
    P()->nmsg = total;
    if (mode == 1) {
        P()->how = 100 + sig;
        sim::force_steps(true);
        sim::crash_at(step, sig);
    }
    std::atomic<bool> stuck{false};
    std::mutex sink_mutex, never_m;
    std::condition_variable never;
    bool with_sink = mode >= 3 || sim::wcoin(0.3);
    std::string trigger = mode == 3 ? "msg1.stuck" : mode == 4 ? fmt("msg%d.%d", victim, fatal) : "-";
    if (with_sink)
        Logger::set_custom_sink([&](const LogEntry& e) {
            std::unique_lock<std::mutex> l(sink_mutex, std::defer_lock);
            if (locking)
                l.lock();
            if (mode == 4 && e.message.compare(0, trigger.size(), trigger) == 0 && (e.message.size() == trigger.size() || e.message[trigger.size()] == 'q')) {
                sim::probe("death inside a sink");
                die(how);
            }
            if (mode == 3 && e.message == trigger) {
                stuck = true;
                std::unique_lock<std::mutex> m(never_m);
                for (;;)
                    never.wait(m);
            }
        });
    if (faulty) {
        sim::fault_enable("fs.open", 0.4);
        sim::fault_enable("fs.write", 0.3);
        sim::fault_enable("fs.close", 0.3);
        sim::fault_enable("fs.getcwd", 0.4);
    }
    auto body = [&](int t) {
        int i = 0;
        if (mode == 3 && t == 1)
            Logger::log(LogLevel::Info, trigger);
        if (mode == 3 && t == 0) {
            while (!stuck)
                std::this_thread::sleep_for(std::chrono::milliseconds(5));
            sim::probe("death while another thread is stuck in a sink");
            die(how);
        }
        for (int k : plan[(size_t)t]) {
            if (mode != 1 && mode != 4 && t == victim && i == at)
                die(how);
            if (mode == 2 && t == victim2 && i == at2)
                die(how2);
            std::string text = fmt("msg%d.%d", t, k) + (k % 3 == 0 ? std::string(100, 'q') : "");
            if (k % 4 == 1) {
                HUIRA_TRACE_SCOPE("scope");
                Logger::log(LogLevel::Info, text);
            } else
                Logger::log(LogLevel::Info, text);
            sim::Quiet q;
            if (!P()->crashed && P()->ndone < 256)
                snprintf(P()->done[P()->ndone++], 48, "%.40s", text.c_str());
            ++i;
        }
        if (mode != 1 && t == victim)
            die(how);
    };
    std::vector<std::thread> ths;
    for (int t = 1; t < nt; ++t)
        ths.emplace_back([&, t]() noexcept { body(t); });
    [&]() noexcept { body(0); }();
    for (auto& x : ths)
        x.join();
    if (mode == 1 && sim::crash_pending()) {
        // the step lies after the workload
        sim::crash_at(1, sig);
        for (int i = 0; i < 10; ++i)
            sim::yield();
    }
    P()->finished = 1;
}
std::string l03_post(int st)
{
    Post* p = P();
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM))
        return "hang|the crashing process did not terminate";
    if (p->finished || WIFEXITED(st))
        return "no-crash|the process survived or exited normally after a fatal event";
    std::string err = sim::child_stderr();
    size_t reports = 0;
    for (size_t q = 0; (q = err.find("HUIRA UNCAUGHT EXCEPTION", q)) != std::string::npos; ++q)
        ++reports;
    auto files = simfs::mirrored();
    if (p->faulty && p->enabled) {
        // the device may have kept the report from being written, but there are no two
        if (reports > 1)
            return "report|the crash was announced " + std::to_string(reports) + " times";
        return "";
    }
    if (!p->enabled) {
        if (!files.empty() || reports)
            return "report|a crash report was written although the handler is disabled";
        return "";
    }
    if (files.size() != 1)
        return "report|" + std::to_string(files.size()) + " crash logs were written instead of one";
    if (reports != 1)
        return "report|the crash was announced " + std::to_string(reports) + " times";
    auto& [path, b] = *files.begin();
    if (path.compare(0, 11, "/simfs/log/") != 0)
        return "report|crash log written to " + path;
    if (b.compare(0, 10, "Huira Log\n") != 0)
        return "report|crash log without header";
    if (b.empty() || b.back() != '\n')
        return "report|crash log ends in the middle of a line";
    // the newest retained messages, whole and once
    int extra = 2 + 4; // messages the handler itself adds
    int must = p->ndone, room = p->size - extra - 3;
    for (int i = 0; i < must; ++i) {
        std::string t = std::string("] ") + p->done[i];
        size_t c = 0;
        for (size_t q = 0; (q = b.find(t, q)) != std::string::npos; ++q)
            ++c;
        // prefix ambiguity (msg0.1 / msg0.10) cannot arise: at most 8 messages per thread
        if (c > 1)
            return "report|message " + t + " appears twice in the crash log";
        if (c == 0 && p->nmsg - i <= room)
            return "report|message " + t + " retained before the crash is missing from the crash log";
    }
    bool cause = false;
    if (p->how >= 100)
        cause = b.find("Crash detected with signal: " + std::to_string(p->how - 100)) != std::string::npos;
    else
        cause = b.find("Crash detected with signal: ") != std::string::npos || b.find("Uncaught exception: kaboom") != std::string::npos ||
                b.find("Uncaught unknown exception") != std::string::npos || b.find("Terminate called without active exception") != std::string::npos;
    if (!cause)
        return "report|the crash log does not name the cause: " + b;
    return "";
}
sim::Reg r_l03("l03_crash", l03, l03_post, true);
} // namespace
