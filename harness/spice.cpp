// S01-S03: the SPICE layer over a simulated, non-reentrant CSPICE.
#include "common.h"
#include "cspice/SpiceUsr.h"
#include "huira/util/logger.hpp"
#include "huira/util/paths.hpp"
#include "huira/core/time.hpp"
#include "huira/core/spice.hpp"
#include "simfs.h"
#include "simspice.h"
#include <array>
#include <cmath>

using namespace huira;
using sim::require;
namespace S = huira::spice;

namespace {
const char* DEF = "/simfs/data/kernels/lsk/naif0012.tls";
struct Quiet0 { // every harness-side bookkeeping
    sim::Quiet q;
};
void world(bool def_lsk = true)
{
    simspice::reset();
    simfs::reset();
    simfs::mkdirs("/simfs/cwd");
    simfs::virtual_cwd(true);
    simfs::set_cwd("/simfs/cwd");
    if (def_lsk)
        simspice::kernel(DEF, "KPL/LSK 37\n");
    simspice::add_body("ALPHA", -1e9, 1e9, 1e6);
    simspice::add_body("BETA", -1e9, 1e9, 1e7);
    simspice::add_body("GAMMA", 0, 1000, 1e5);
}
// what a call did
struct Out {
    bool threw = false;
    bool other = false; // something not a std::exception
    std::string what;
    std::vector<double> v;
    std::string s;
};
template <class F> Out attempt(F f)
{
    Out o;
    try {
        f(o);
    } catch (const std::exception& e) {
        o.threw = true;
        o.what = e.what();
    } catch (...) {
        o.threw = o.other = true;
    }
    return o;
}
bool near(double a, double b, double rel)
{
    double d = std::fabs(a - b), m = std::max({1.0, std::fabs(a), std::fabs(b)});
    return d <= rel * m;
}
std::string utc(int day, int h, int mi, double s) { return fmt("2000-%03dT%02d:%02d:%06.3f", day, h, mi, s); }
double utc_s(int day, int h, int mi, double s) { return (day - 1) * 86400.0 + h * 3600.0 + mi * 60.0 + s - 43200.0; }

enum Kind { STR2ET, BADTIME, JD_FROM, JD_TO, STRING, SPK, SPKF, BADBODY, NOCOV, PX, PXF, SX, SXF, BADFRAME, CONICS, BADCONICS, FURNSH, NOKERNEL, BADKERNEL, RELATIVE, RELBAD, UNITBAD, NKIND };
const char* KN[] = {"str2et", "bad time", "from JD", "to JD", "to string", "spkezr<double>", "spkezr<float>", "unknown body", "outside coverage", "pxform<double>", "pxform<float>", "sxform<double>", "sxform<float>", "unknown frame", "conics", "bad conics", "furnsh", "missing kernel", "bad kernel", "relative furnsh", "relative furnsh of a bad kernel", "unknown time system"};
struct Op {
    int kind, day, h, mi, sub;
    double s, et;
    int body, frame;
};
Op gen(int kind)
{
    Op o;
    o.kind = kind;
    o.day = sim::wint(1, 300);
    o.h = sim::wint(0, 23);
    o.mi = sim::wint(0, 59);
    o.s = sim::wint(0, 59999) / 1000.0;
    o.et = sim::wint(-1000000, 1000000) / 7.0;
    o.sub = sim::wint(0, 3);
    o.body = sim::wint(0, 1);
    o.frame = sim::wint(0, 3);
    return o;
}
const char* BODY[] = {"ALPHA", "BETA"};
const char* FRAME[] = {"SIM_A", "SIM_B", "IAU_X", "J2000"};
// performs the operation; tag names things only this call mentions
Out perform(const Op& o, const std::string& tag)
{
    return attempt([&](Out& r) {
        auto vec = [&](auto v) {
            for (int i = 0; i < 3; ++i)
                r.v.push_back((double)v[i]);
        };
        auto rot = [&](auto q) {
            auto m = q.local_to_parent_matrix();
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j)
                    r.v.push_back((double)m[j][i]); // row-major
        };
        switch (o.kind) {
        case STR2ET:
            r.v.push_back(Time(utc(o.day, o.h, o.mi, o.s)).et());
            break;
        case BADTIME:
            r.v.push_back(Time("garbage-" + tag).et());
            break;
        case JD_FROM:
            r.v.push_back(Time::from_julian_date(2451545.0 + o.day, (TimeScale)o.sub).et());
            break;
        case JD_TO:
            r.v.push_back(Time::from_et(o.day * 86400.0).to_julian_date((TimeScale)o.sub));
            break;
        case STRING:
            r.s = o.sub < 2 ? Time::from_et(o.et).to_utc_string("T" + tag) : Time::from_et(o.et).to_iso_8601();
            break;
        case SPK: {
            auto [p, v, lt] = S::spkezr<double>(BODY[o.body], Time::from_et(o.et), "J2000", "NONE", o.sub ? "SSB" : BODY[1 - o.body]);
            vec(p);
            vec(v);
            r.v.push_back(lt);
            break;
        }
        case SPKF: {
            auto [p, v, lt] = S::spkezr<float>(BODY[o.body], Time::from_et(o.et), "J2000", "NONE", "SSB");
            vec(p);
            vec(v);
            r.v.push_back(lt);
            break;
        }
        case BADBODY: {
            auto [p, v, lt] = S::spkezr<double>("NOBODY_" + tag, Time::from_et(o.et), "J2000", "NONE", "SSB");
            vec(p);
            break;
        }
        case NOCOV: {
            auto [p, v, lt] = S::spkezr<double>("GAMMA", Time::from_et(1e5 + o.et * o.et), "J2000", "NONE", "SSB");
            vec(p);
            break;
        }
        case PX:
            rot(S::pxform<double>("J2000", FRAME[o.frame], Time::from_et(o.et)));
            break;
        case PXF:
            rot(S::pxform<float>("J2000", FRAME[o.frame], Time::from_et(o.et)));
            break;
        case SX: {
            auto [q, w] = S::sxform<double>("J2000", FRAME[o.frame], Time::from_et(o.et));
            rot(q);
            vec(w);
            break;
        }
        case SXF: {
            auto [q, w] = S::sxform<float>("J2000", FRAME[o.frame], Time::from_et(o.et));
            rot(q);
            vec(w);
            break;
        }
        case BADFRAME:
            if (o.sub & 1)
                rot(S::pxform<double>("J2000", "NOFRAME_" + tag, Time::from_et(o.et)));
            else
                rot(S::sxform<double>("J2000", "NOFRAME_" + tag, Time::from_et(o.et)).first);
            break;
        case CONICS:
        case BADCONICS: {
            std::array<double, 8> el{1000.0 + std::fabs(o.et), o.kind == BADCONICS ? -1.0 - o.day : 0.1 * o.sub, 0.3, 0.4, 0.5, 0.6, (double)o.day, 1000.0 + o.mi};
            auto [p, v] = S::conics<double>(el, Time::from_et(o.et));
            vec(p);
            vec(v);
            break;
        }
        case FURNSH:
            S::furnsh("/simfs/k/" + tag + ".bsp");
            break;
        case NOKERNEL:
            S::furnsh("/simfs/k/missing_" + tag + ".bsp");
            break;
        case BADKERNEL:
            S::furnsh("/simfs/k/bad_" + tag + ".bsp");
            break;
        case RELATIVE:
            S::furnsh_relative_to_file("/simfs/d_" + tag + "/all.tm");
            break;
        case RELBAD:
            S::furnsh_relative_to_file("/simfs/d_" + tag + "/bad.tm");
            break;
        case UNITBAD:
            r.v.push_back(S::unitim(o.et, "X_" + tag, "TDB"));
            break;
        }
    });
}
void prepare(const Op& o, const std::string& tag)
{
    switch (o.kind) {
    case FURNSH:
        simspice::kernel("/simfs/k/" + tag + ".bsp", "KPL/SPK Q" + tag + " 0 10 1000\n");
        break;
    case BADKERNEL:
        simspice::kernel("/simfs/k/bad_" + tag + ".bsp", "rubbish\n");
        break;
    case RELATIVE:
        simspice::kernel("/simfs/d_" + tag + "/all.tm", "KPL/MK one.bsp sub/two.bsp\n");
        simspice::kernel("/simfs/d_" + tag + "/one.bsp", "KPL/SPK R" + tag + " 0 10 1000\n");
        simspice::kernel("/simfs/d_" + tag + "/sub/two.bsp", "KPL/SPK T" + tag + " 0 10 1000\n");
        break;
    case RELBAD:
        simspice::kernel("/simfs/d_" + tag + "/bad.tm", "KPL/MK nowhere_" + tag + ".bsp\n");
        break;
    }
}
// the text the error of this call must contain; empty if the call must succeed
std::string must_fail(const Op& o, const std::string& tag)
{
    switch (o.kind) {
    case BADTIME: return "garbage-" + tag;
    case BADBODY: return "NOBODY_" + tag;
    case NOCOV: return fmt("%.3f", 1e5 + o.et * o.et);
    case BADFRAME: return "NOFRAME_" + tag;
    case BADCONICS: return fmt("ecc %.4f", -1.0 - o.day);
    case NOKERNEL: return "missing_" + tag;
    case BADKERNEL: return "bad_" + tag;
    case RELBAD: return "nowhere_" + tag;
    case UNITBAD: return "X_" + tag;
    }
    return "";
}
double scale_off(int sub, int lsk) // seconds to add to TDB to reach the scale
{
    switch ((TimeScale)sub) {
    case TimeScale::UTC: return -(lsk + 32.184);
    case TimeScale::TAI: return -32.184;
    default: return 0;
    }
}
// the expected answer under leap count `lsk`; returns "" if `r` matches
std::string check_value(const Op& o, const std::string& tag, const Out& r, int lsk)
{
    std::vector<double> e;
    double tol = 1e-9;
    auto st = [&](const char* b, const char* obs) {
        double a[6], c[6];
        simspice::state_of(b, o.et, a);
        simspice::state_of(obs, o.et, c);
        double d2 = 0;
        for (int i = 0; i < 6; ++i) {
            e.push_back((a[i] - c[i]) * 1000);
            if (i < 3)
                d2 += (a[i] - c[i]) * (a[i] - c[i]);
        }
        e.push_back(std::sqrt(d2) / 299792.458);
    };
    auto ro = [&](bool w) {
        double R[3][3], av[3];
        simspice::frame_of(FRAME[o.frame], o.et, R, av);
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                e.push_back(R[j][i]); // local-to-parent: the transpose of J2000 -> frame
        if (w)
            for (int i = 0; i < 3; ++i)
                e.push_back(av[i]);
    };
    switch (o.kind) {
    case STR2ET:
        e = {utc_s(o.day, o.h, o.mi, o.s) + lsk + 32.184};
        break;
    case JD_FROM:
        e = {o.day * 86400.0 - scale_off(o.sub, lsk)};
        break;
    case JD_TO:
        e = {2451545.0 + (o.day * 86400.0 + scale_off(o.sub, lsk)) / 86400.0};
        tol = 1e-12;
        break;
    case STRING: {
        std::string x = o.sub < 2 ? fmt("<%.6f|%d|T%s ::UTC>", o.et, lsk, tag.c_str())
                                  : fmt("<%.6f|%d|YYYY-MM-DDTHR:MN:SC.### ::RND ::UTC>Z", o.et, lsk);
        return r.s == x ? "" : "got \"" + r.s + "\" instead of \"" + x + "\"";
    }
    case SPK:
        st(BODY[o.body], o.sub ? "SSB" : BODY[1 - o.body]);
        break;
    case SPKF:
        st(BODY[o.body], "SSB");
        tol = 1e-6;
        break;
    case PX:
        ro(false);
        break;
    case PXF:
        ro(false);
        tol = 1e-5;
        break;
    case SX:
        ro(true);
        break;
    case SXF:
        ro(true);
        tol = 1e-5;
        break;
    case CONICS: {
        double w[8] = {1000.0 + std::fabs(o.et), 0.1 * o.sub, 0.3, 0.4, 0.5, 0.6, (double)o.day, 1000.0 + o.mi}, st[6];
        simspice::conic_of(w, o.et, st);
        for (double x : st)
            e.push_back(x * 1000);
        break;
    }
    }
    if (e.size() != r.v.size())
        return fmt("%zu values instead of %zu", r.v.size(), e.size());
    for (size_t i = 0; i < e.size(); ++i)
        if (!near(e[i], r.v[i], tol))
            return fmt("component %zu is %.17g instead of %.17g", i, r.v[i], e[i]);
    return "";
}
bool uses_lsk(int k) { return k <= STRING || k == UNITBAD; }

void s01()
{
    world();
    bool pre = sim::wcoin(0.7); // the leap seconds already loaded when the threads start
    int nt = sim::wint(2, 4);
    sim::set_rate(1 + sim::wrand(40));
    bool inj = sim::wcoin(0.5);
    simfs::mkdirs("/simfs/k");
    if (pre)
        (void)S::str2et("2000-001T00:00:00");
    if (inj)
        sim::fault_enable("spice.fail", 0.15, 6);
    if (sim::wcoin(0.3))
        sim::fault_enable("fs.chdir", 0.1, 1); // (the load then fails cleanly, or finds its way back)
    std::vector<std::vector<std::pair<Op, std::string>>> plan((size_t)nt);
    int focus = sim::wint(0, 2) ? -1 : sim::wint(0, NKIND - 1); // sometimes everyone does the same
    for (int t = 0; t < nt; ++t) {
        int n = sim::wint(1, 6);
        for (int i = 0; i < n; ++i) {
            Op o = gen(focus >= 0 && sim::wcoin(0.7) ? focus : sim::wint(0, NKIND - 1));
            std::string tag = fmt("%d_%d_", t, i);
            if (sim::keep_op()) {
                plan[(size_t)t].push_back({o, tag});
                prepare(o, tag);
                sim::op(fmt("thread %d: %s", t, KN[o.kind]));
            }
        }
    }
    sim::op(fmt("%d threads, leap seconds %s, injected failures %s", nt, pre ? "loaded" : "not loaded", inj ? "on" : "off"));
    auto body = [&](int t) {
        for (auto& [o, tag] : plan[(size_t)t]) {
            size_t from;
            uint64_t f0;
            {
                sim::Quiet q;
                sim::RtAlloc ra;
                from = simspice::calls().size();
                f0 = sim::fault_count("fs.chdir");
            }
            Out r = perform(o, tag);
            sim::Quiet q;
            sim::RtAlloc ra;
            std::string d = fmt("thread %d (%s): ", t, KN[o.kind]);
            // the failures injected into this thread's own calls
            bool mine = false, chd = (o.kind == RELATIVE || o.kind == RELBAD) && sim::fault_count("fs.chdir") != f0;
            for (size_t i = from; i < simspice::calls().size(); ++i)
                if (simspice::calls()[i].thread == sim::self() && simspice::calls()[i].error.find("injected") != std::string::npos)
                    mine = true;
            require(!r.other, "foreign-exception", d + "threw something that is not a std::exception");
            std::string want = must_fail(o, tag);
            if (r.threw) {
                sim::probe("s01.threw");
                std::string tt = fmt("[thread %d call", sim::self());
                bool own = r.what.find(tt) != std::string::npos;
                require(own || chd, "foreign-error", d + "reported an error that is not its own: " + r.what);
                if (!mine && !chd) {
                    require(!want.empty(), "spurious-error", d + "failed although nothing was wrong with it: " + r.what);
                    require(r.what.find(want) != std::string::npos, "foreign-error", d + "reported \"" + r.what + "\", which does not mention " + want);
                }
            } else {
                require(want.empty(), "lost-error", d + "returned normally although the library reported an error (" + want + ")");
                if (uses_lsk(o.kind) || o.kind < FURNSH) {
                    std::string e = check_value(o, tag, r, 37);
                    require(e.empty(), "wrong-answer", d + e);
                }
                if (o.kind == RELATIVE || o.kind == FURNSH) {
                    std::string p = o.kind == FURNSH ? "/simfs/k/" + tag + ".bsp" : "/simfs/d_" + tag + "/sub/two.bsp";
                    bool ok = false;
                    for (auto& k : simspice::loaded())
                        ok |= k == p;
                    require(ok, "not-loaded", d + "returned normally but " + p + " is not loaded");
                }
                if (mine)
                    sim::probe("s01.survived-injection");
            }
            sim::mix(hash_str(r.what));
            for (double x : r.v)
                sim::mix(&x, 8);
        }
    };
    std::vector<std::thread> ths;
    for (int t = 1; t < nt; ++t)
        ths.emplace_back([&, t] { body(t); });
    body(0);
    for (auto& x : ths)
        x.join();
    require(!simspice::pending(), "error-left", "an error was left pending in the library");
    uint64_t h = 0;
    int last = -1;
    for (auto& c : simspice::calls()) {
        h = hash64(h, hash_str(c.fn) + (uint64_t)c.thread);
        if (c.thread != last)
            sim::probe("s01.handover");
        last = c.thread;
    }
    sim::state(h);
}
sim::Reg r_s01("s01_calls", s01);

void s02()
{
    world(false);
    // how the world starts
    int def = sim::wint(0, 2); // 0 present, 1 missing, 2 damaged
    int custom = sim::wint(0, 3); // 0: none before; 1: loaded through huira; 2: loaded directly; 3: none, loaded in between
    auto put_def = [&](int d) {
        def = d;
        if (d == 0)
            simspice::kernel(DEF, "KPL/LSK 37\n");
        else if (d == 2)
            simspice::kernel(DEF, "KPL/LSK broken\n");
        else
            simfs::remove(DEF);
    };
    put_def(sim::wcoin(0.5) ? 0 : def);
    simspice::kernel("/simfs/cwd/my.tls", "KPL/LSK 41\n");
    sim::set_rate(1 + sim::wrand(60));
    int mode0 = sim::wint(0, 1);
    if (mode0)
        simspice::set_action("RETURN"); // the application uses CSPICE itself
    std::vector<std::pair<int, uint64_t>> lsk; // leap count in force from a sequence number on
    auto custom_load = [&](bool direct) {
        if (direct) {
            simspice::set_action(simspice::action().c_str());
            furnsh_c("my.tls");
        } else
            S::furnsh("/simfs/cwd/my.tls");
        sim::op(fmt("own leap seconds loaded %s", direct ? "directly" : "through huira"));
    };
    bool have = false;
    if (custom == 1 || custom == 2) {
        custom_load(custom == 2);
        have = true;
    }
    if (simspice::action() == "RETURN" && sim::wcoin(0.4)) {
        simspice::raise("SPICE(OTHER)", "left behind by the application");
        sim::op("an error is pending in the library");
    }
    int phases = sim::wint(1, 5);
    bool concurrent_custom = false;
    bool converted = false; // some conversion has succeeded
    for (int ph = 0; ph < phases; ++ph) {
        int nt = sim::wcoin(0.5) ? 1 : sim::wint(2, 4);
        std::vector<std::vector<Op>> plan((size_t)nt);
        for (int t = 0; t < nt; ++t) {
            int n = sim::wint(1, 3);
            for (int i = 0; i < n; ++i) {
                int k = sim::wint(0, 5);
                Op o = gen(k == 5 ? UNITBAD : k);
                if (sim::keep_op())
                    plan[(size_t)t].push_back(o);
            }
        }
        int loader = -1;
        if (!have && !converted && nt > 1 && sim::wcoin(0.15)) {
            loader = sim::wint(0, nt - 1);
            concurrent_custom = true;
        }
        sim::op(fmt("phase %d: %d threads, default leap seconds %s%s", ph, nt, def == 0 ? "fine" : def == 1 ? "missing" : "damaged", loader >= 0 ? ", own loaded meanwhile" : ""));
        auto body = [&](int t) {
            if (t == loader)
                S::furnsh("/simfs/cwd/my.tls");
            int i = 0;
            for (auto& o : plan[(size_t)t]) {
                std::string tag = fmt("%d_%d_%d_", ph, t, i++);
                Out r = perform(o, tag);
                sim::Quiet q;
                sim::RtAlloc ra;
                std::string d = fmt("phase %d thread %d (%s): ", ph, t, KN[o.kind]);
                bool lskless = (o.kind == JD_FROM || o.kind == JD_TO) && (TimeScale)o.sub == TimeScale::TDB; // needs no leap seconds
                std::string want = must_fail(o, tag);
                bool canload = have || converted || def == 0 || loader >= 0;
                bool sure = have || def == 0 || converted;
                require(!r.other, "foreign-exception", d + "threw something that is not a std::exception");
                if (r.threw) {
                    require(!r.what.empty(), "empty-error", d + "threw an empty error");
                    if (want.empty())
                        require(!sure && !lskless, "spurious-error", d + "failed although leap seconds are available: " + r.what);
                    else if (sure)
                        require(r.what.find(want) != std::string::npos, "foreign-error", d + "reported \"" + r.what + "\", which does not mention " + want);
                    require(r.what.find("left behind") == std::string::npos, "foreign-error", d + "reported an error of somebody else: " + r.what);
                    sim::probe("s02.threw");
                } else {
                    require(want.empty(), "lost-error", d + "returned normally although it must fail");
                    require(canload || lskless, "made-up", d + "returned a value although no leap seconds are available");
                    std::string e41 = check_value(o, tag, r, 41), e37 = check_value(o, tag, r, 37);
                    if (loader >= 0 || (concurrent_custom && !have))
                        require(e41.empty() || e37.empty(), "wrong-answer", d + e37);
                    else if (have)
                        require(e41.empty(), "wrong-answer", d + "not by the leap seconds loaded: " + e41);
                    else
                        require(e37.empty(), "wrong-answer", d + e37);
                    sim::probe("s02.converted");
                }
                sim::mix(hash_str(r.what));
            }
        };
        std::vector<std::thread> ths;
        for (int t = 1; t < nt; ++t)
            ths.emplace_back([&, t] { body(t); });
        body(0);
        for (auto& x : ths)
            x.join();
        for (auto& p : plan)
            for (auto& o : p)
                if (!((o.kind == JD_FROM || o.kind == JD_TO) && (TimeScale)o.sub == TimeScale::TDB) && simspice::lsk_loaded())
                    converted = true;
        // two leap-second files in force: the one loaded last rules
        if (loader >= 0)
            have = simspice::lsk_offset() == 41;
        if (!have && custom == 3 && sim::wcoin(0.4)) {
            custom_load(sim::wcoin() && simspice::action() == "RETURN" && !simspice::pending());
            have = true;
        }
        if (simspice::action() == "RETURN" && sim::wcoin(0.2)) {
            simspice::raise("SPICE(OTHER)", "left behind by the application");
            sim::op("an error is pending in the library");
        }
        if (sim::wcoin(0.4))
            put_def(sim::wcoin(0.7) ? 0 : sim::wint(1, 2));
    }
    // failures must still be exceptions, and conversion must work if it can
    for (int k : {BADTIME, UNITBAD, BADBODY, BADFRAME, BADCONICS, NOKERNEL, NOCOV}) {
        Op o = gen(k);
        Out r = perform(o, "end");
        require(r.threw && !r.other, "lost-error", std::string(KN[k]) + " returned normally");
    }
    if (def == 0 || have) {
        Out r = attempt([&](Out& x) { x.v.push_back(S::str2et("2000-001T12:00:00")); });
        require(!r.threw, "spurious-error", "conversion fails although leap seconds are available: " + r.what);
    }
    int ndef = 0;
    const simspice::Load* seen = nullptr;
    for (auto& l : simspice::loads()) {
        if (l.path == DEF) {
            require(!seen, "default-loaded", seen ? "the default leap seconds were loaded although " + seen->path + " was already in force" : "");
            if (l.ok)
                ++ndef;
        }
        if (l.ok && (l.path == DEF || l.path == "/simfs/cwd/my.tls"))
            seen = &l;
    }
    require(ndef <= 1, "default-loaded", fmt("the default leap seconds were loaded %d times", ndef));
    sim::probe(ndef ? "s02.default" : "s02.nodefault");
    uint64_t h = 0;
    for (auto& c : simspice::calls())
        h = hash64(h, hash_str(c.fn) + (uint64_t)c.thread + (c.error.empty() ? 0 : 77));
    sim::state(h);
}
sim::Reg r_s02("s02_leapseconds", s02);

void s03()
{
    world();
    (void)S::str2et("2000-001T00:00:00");
    sim::set_rate(1 + sim::wrand(30));
    int nt = sim::wcoin(0.5) ? 1 : sim::wint(2, 3);
    std::string home = sim::wcoin() ? "/simfs/cwd" : "/simfs/work/deep";
    simfs::mkdirs(home);
    simfs::set_cwd(home);
    bool fault = sim::wcoin(0.6);
    if (fault) {
        sim::fault_enable("fs.getcwd", 0.12, 3);
        sim::fault_enable("fs.chdir", 0.15, 3);
        if (sim::wcoin(0.4))
            sim::fault_enable("spice.fail", 0.15, 3);
    }
    struct R {
        int kind;
        std::string path, dir;
    };
    std::vector<std::vector<R>> plan((size_t)nt);
    for (int t = 0; t < nt; ++t) {
        int n = sim::wint(1, 5);
        for (int i = 0; i < n; ++i) {
            R r;
            r.kind = sim::wint(0, 6);
            std::string dn = fmt("k%d_%d", t, i), nm = r.kind == 5 ? "plain.bsp" : "all.tm";
            bool rel = sim::wcoin(0.4);
            std::string up = home == "/simfs/cwd" ? "../" : "../../";
            std::string parent = rel ? up + dn : "/simfs/" + dn;
            r.dir = "/simfs/" + dn;
            r.path = parent + "/" + nm;
            std::string base = "/simfs/" + dn;
            bool keep = sim::keep_op();
            if (!keep)
                continue;
            switch (r.kind) {
            case 0: // kernels in its folder and below
                simspice::kernel(base + "/all.tm", "KPL/MK one.bsp sub/two.bsp\n");
                simspice::kernel(base + "/one.bsp", "KPL/SPK A" + dn + " 0 1 1\n");
                simspice::kernel(base + "/sub/two.bsp", "KPL/SPK B" + dn + " 0 1 1\n");
                break;
            case 1: // names a kernel that is not there
                simspice::kernel(base + "/all.tm", "KPL/MK none.bsp\n");
                break;
            case 2: // rubbish
                simspice::kernel(base + "/all.tm", "rubbish\n");
                break;
            case 3: // folder but no kernel
                simfs::mkdirs(base);
                break;
            case 4: // no folder
                break;
            case 5:
                simspice::kernel(base + "/plain.bsp", "KPL/SPK C" + dn + " 0 1 1\n");
                break;
            case 6: // no parent: a plain name, resolved where the process is
                r.path = dn + ".bsp";
                r.dir = home;
                simspice::kernel(home + "/" + dn + ".bsp", "KPL/SPK D" + dn + " 0 1 1\n");
                break;
            }
            sim::op(fmt("thread %d: kind %d %s", t, r.kind, r.path.c_str()));
            plan[(size_t)t].push_back(r);
        }
    }
    bool lost = false; // a refused chdir back
    auto body = [&](int t) noexcept {
        for (auto& r : plan[(size_t)t]) {
            size_t c0, f0;
            {
                sim::Quiet q;
                sim::RtAlloc ra;
                c0 = simfs::chdirs().size();
                f0 = simfs::errors() + sim::fault_count("spice.fail");
            }
            Out o = attempt([&](Out&) { S::furnsh_relative_to_file(r.path); });
            sim::Quiet q;
            sim::RtAlloc ra;
            std::string d = fmt("thread %d loading %s: ", t, r.path.c_str());
            require(!o.other, "foreign-exception", d + "threw something that is not a std::exception");
            bool faulted = simfs::errors() + sim::fault_count("spice.fail") != f0;
            bool refused = false;
            for (size_t i = c0; i < simfs::chdirs().size(); ++i) {
                auto& c = simfs::chdirs()[i];
                if (!c.ok && c.path == home && c.thread == sim::self())
                    refused = true;
            }
            if (refused) {
                sim::probe("s03.restore-refused");
                if (simfs::cwd() != home) {
                    lost = true;
                    require(o.threw, "left-elsewhere", d + "returned normally although the working directory could not be restored");
                }
            }
            if (nt == 1 && !refused && !lost)
                require(simfs::cwd() == home, "left-elsewhere", d + "left the process in " + simfs::cwd() + " instead of " + home + (o.threw ? " (it threw: " + o.what + ")" : ""));
            bool good = r.kind == 0 || r.kind == 5 || r.kind == 6;
            if (o.threw) {
                require(!good || faulted || lost, "spurious-error", d + "failed although nothing was wrong: " + o.what);
                sim::probe("s03.threw");
            } else {
                require(good, "lost-error", d + fmt("returned normally although the kernel cannot be loaded (kind %d)", r.kind));
                std::string want = r.kind == 0 ? r.dir + "/sub/two.bsp" : r.kind == 5 ? r.dir + "/plain.bsp" : r.dir + "/" + r.path;
                bool ok = false;
                for (auto& k : simspice::loaded())
                    ok |= k == want;
                require(ok, "not-loaded", d + "returned normally but " + want + " is not loaded");
                sim::probe("s03.loaded");
            }
            if (lost)
                break; // the process is elsewhere, and said so
        }
    };
    std::vector<std::thread> ths;
    for (int t = 1; t < nt; ++t)
        ths.emplace_back([&, t]() noexcept { body(t); });
    body(0);
    for (auto& x : ths)
        x.join();
    if (!lost)
        require(simfs::cwd() == home, "left-elsewhere", "the process ended up in " + simfs::cwd() + " instead of " + home);
    uint64_t h = 0;
    for (auto& c : simfs::chdirs())
        h = hash64(h, hash_str(c.path) + (uint64_t)c.thread * 3 + c.ok);
    sim::state(h);
}
sim::Reg r_s03("s03_folder", s03);
} // namespace
