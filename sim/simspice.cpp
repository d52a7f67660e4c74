#include "simspice.h"
#include "cspice/SpiceUsr.h"
#include "rt.h"
#include "simfs.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <map>
#include <sstream>

namespace {
sim::NonReentrant lib("CSPICE");
struct Body {
    double t0, t1, scale;
};
struct State {
    bool failed = false;
    std::string s, l;
    std::string action = "ABORT", print = "SHORT, EXPLAIN, LONG, TRACEBACK, DEFAULT";
    std::vector<std::pair<std::string, int>> kernels; // path, LSK offset or -1
    std::vector<simspice::Load> loads;
    std::vector<simspice::Call> calls;
    std::map<std::string, Body> bodies;
    uint64_t nq = 0, fail_at = 0, ncall = 0;
};
State* S()
{
    static State* s = [] {
        sim::RtAlloc a;
        return new State;
    }();
    return s;
}
// One entry into the library.
struct Entry {
    sim::RtAlloc ra;
    size_t idx;
    Entry(const char* fn)
    {
        lib.enter(fn);
        sim::yield();
        S()->ncall++;
        idx = S()->calls.size();
        S()->calls.push_back({fn, "", sim::self(), sim::seq(), 0});
        sim::yield();
    }
    ~Entry()
    {
        sim::yield();
        S()->calls[idx].leave = sim::seq();
        if (S()->failed && S()->calls[idx].error == "?")
            S()->calls[idx].error = S()->s + ": " + S()->l;
        lib.leave();
    }
    // RETURN mode with an error pending: the routine does nothing
    bool blocked()
    {
        if (S()->failed && S()->action == "RETURN") {
            S()->calls[idx].error = "blocked by a pending error: " + S()->s + ": " + S()->l;
            sim::probe("spice.blocked");
            return true;
        }
        return false;
    }
    bool err(const char* s, const std::string& l)
    {
        S()->calls[idx].error = "?";
        sim::probe("spice.error");
        if (S()->action == "ABORT" || S()->action == "DEFAULT")
            sim::violation("spice-abort", std::string(S()->calls[idx].fn) + " failed while the error action was " + S()->action +
                                              ": CSPICE would have ended the process (" + s + ": " + l + ")");
        if (S()->print != "NONE" && !S()->print.empty())
            sim::probe("spice.printed");
        S()->failed = true;
        S()->s = s;
        S()->l = l + " [thread " + std::to_string(sim::self()) + " call " + std::to_string(S()->ncall) + "]";
        return false;
    }
    bool injected(const char* fn, const std::string& args)
    {
        if (S()->fail_at && ++S()->nq == S()->fail_at) {
            err("SPICE(SIMFAULT)", std::string("injected failure of ") + fn + " " + args);
            return true;
        }
        if (sim::fault("spice.fail")) {
            err("SPICE(SIMFAULT)", std::string("injected failure of ") + fn + " " + args);
            return true;
        }
        return false;
    }
};
std::string absolute(const std::string& p)
{
    std::string a = p.empty() || p[0] != '/' ? simfs::cwd() + "/" + p : p;
    std::vector<std::string> parts;
    std::stringstream ss(a);
    std::string x;
    while (std::getline(ss, x, '/')) {
        if (x.empty() || x == ".")
            continue;
        if (x == "..") {
            if (!parts.empty())
                parts.pop_back();
        } else
            parts.push_back(x);
    }
    a.clear();
    for (auto& q : parts)
        a += "/" + q;
    return a;
}
int current_lsk()
{
    int off = -1;
    for (auto& k : S()->kernels)
        if (k.second >= 0)
            off = k.second;
    return off;
}
void copy(SpiceChar* d, SpiceInt n, const std::string& s)
{
    if (n <= 0)
        return;
    size_t k = std::min<size_t>(s.size(), n - 1);
    memcpy(d, s.data(), k);
    d[k] = 0;
}
uint64_t hs(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)
        h = (h ^ (unsigned char)std::toupper(c)) * 1099511628211ull;
    h ^= h >> 29;
    return h * 0x9e3779b97f4a7c15ull;
}
double hu(uint64_t h, int k) // in [0,1)
{
    h ^= 0x1234567ull * (k + 1);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    h *= 0xc4ceb9fe1a85ec53ull;
    h ^= h >> 33;
    return (h >> 11) * 0x1p-53;
}
void mul(const double a[3][3], const double b[3][3], double o[3][3])
{
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            o[i][j] = 0;
            for (int k = 0; k < 3; ++k)
                o[i][j] += a[i][k] * b[k][j];
        }
}
bool known_frame(const std::string& f) { return f == "J2000" || f.rfind("SIM_", 0) == 0 || f.rfind("IAU_", 0) == 0; }
void load_file(Entry& e, const std::string& given, int depth);
} // namespace

namespace simspice {
void reset()
{
    sim::RtAlloc a;
    *S() = State{};
}
const std::vector<Load>& loads() { return S()->loads; }
std::vector<std::string> loaded()
{
    std::vector<std::string> r;
    for (auto& k : S()->kernels)
        r.push_back(k.first);
    return r;
}
bool lsk_loaded() { return current_lsk() >= 0; }
int lsk_offset() { return current_lsk(); }
const std::vector<Call>& calls() { return S()->calls; }
size_t calls_of(int t)
{
    size_t n = 0;
    for (auto& c : S()->calls)
        n += c.thread == t;
    return n;
}
std::string last_error_of(int t, size_t from)
{
    size_t n = 0;
    for (auto& c : S()->calls)
        if (c.thread == t && n++ >= from && !c.error.empty())
            return c.error;
    return "";
}
void raise(const char* s, const char* l)
{
    sim::RtAlloc a;
    S()->failed = true;
    S()->s = s;
    S()->l = l;
}
bool pending() { return S()->failed; }
std::string action() { return S()->action; }
void set_action(const char* a)
{
    sim::RtAlloc r;
    S()->action = a;
}
bool frame_of(const std::string& f, double et, double R[3][3], double av[3])
{
    if (!known_frame(f))
        return false;
    if (f == "J2000") {
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                R[i][j] = i == j;
        av[0] = av[1] = av[2] = 0;
        return true;
    }
    uint64_t h = hs(f);
    double z = 2 * hu(h, 0) - 1, ph = 2 * M_PI * hu(h, 1), s = std::sqrt(1 - z * z);
    double k[3] = {s * std::cos(ph), s * std::sin(ph), z};
    double a0 = 2 * M_PI * hu(h, 2), w = (hu(h, 3) - 0.3) * 1e-2;
    double a = a0 + w * et;
    // the frame's axes turn by +a about k: vectors J2000 -> frame turn by -a
    double c = std::cos(a), sn = -std::sin(a);
    double K[3][3] = {{0, -k[2], k[1]}, {k[2], 0, -k[0]}, {-k[1], k[0], 0}};
    double Q[3][3];
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            Q[i][j] = (i == j ? c : 0) + sn * K[i][j] + (1 - c) * k[i] * k[j];
    // a fixed turn on top, so that the axis differs between the two frames
    double b = 2 * M_PI * hu(h, 4), cb = std::cos(b), sb = std::sin(b);
    double C[3][3] = {{0, cb, sb}, {0, -sb, cb}, {1, 0, 0}};
    mul(C, Q, R);
    for (int i = 0; i < 3; ++i)
        av[i] = w * k[i];
    return true;
}
bool state_of(const std::string& b, double et, double o[6])
{
    if (b == "SSB" || b == "SOLAR SYSTEM BARYCENTER") {
        for (int i = 0; i < 6; ++i)
            o[i] = 0;
        return true;
    }
    auto it = S()->bodies.find(b);
    if (it == S()->bodies.end())
        return false;
    uint64_t h = hs(b);
    double sc = it->second.scale;
    for (int i = 0; i < 3; ++i) {
        double A = sc * (0.5 + hu(h, 10 + i)), w = 1e-3 * (0.5 + hu(h, 20 + i)) / 10, p = 2 * M_PI * hu(h, 30 + i);
        o[i] = A * std::cos(w * et + p) + sc * (hu(h, 40 + i) - 0.5);
        o[3 + i] = -A * w * std::sin(w * et + p);
    }
    return true;
}
void conic_of(const double el[8], double et, double o[6])
{
    double rp = el[0], e = el[1], inc = el[2], node = el[3], arg = el[4], M = el[5], mu = el[7];
    double P[3] = {std::cos(node) * std::cos(arg) - std::sin(node) * std::cos(inc) * std::sin(arg), std::sin(node) * std::cos(arg) + std::cos(node) * std::cos(inc) * std::sin(arg),
                   std::sin(inc) * std::sin(arg)};
    double Q[3] = {-std::cos(node) * std::sin(arg) - std::sin(node) * std::cos(inc) * std::cos(arg), -std::sin(node) * std::sin(arg) + std::cos(node) * std::cos(inc) * std::cos(arg),
                   std::sin(inc) * std::cos(arg)};
    double x, y, vx, vy, dt = et - el[6];
    if (std::fabs(e - 1) < 1e-9) { // parabola (Barker)
        double B = M + 3 * std::sqrt(mu / (2 * rp * rp * rp)) / 2 * dt * 1.0;
        double z = std::cbrt(B + std::sqrt(B * B + 1)), D = z - 1 / z;
        x = rp * (1 - D * D);
        y = 2 * rp * D;
        double r = rp * (1 + D * D), f = std::sqrt(2 * mu * rp) / r;
        vx = -f * D;
        vy = f;
    } else if (e < 1) {
        double a = rp / (1 - e), n = std::sqrt(mu / (a * a * a));
        M = std::fmod(M + n * dt, 2 * M_PI);
        double E = e < 0.8 ? M : M_PI;
        for (int i = 0; i < 60; ++i) {
            double d = (E - e * std::sin(E) - M) / (1 - e * std::cos(E));
            E -= d;
            if (std::fabs(d) < 1e-15)
                break;
        }
        double b = a * std::sqrt(1 - e * e), k = n / (1 - e * std::cos(E));
        x = a * (std::cos(E) - e);
        y = b * std::sin(E);
        vx = -a * std::sin(E) * k;
        vy = b * std::cos(E) * k;
    } else {
        double a = rp / (e - 1), n = std::sqrt(mu / (a * a * a));
        M += n * dt;
        double H = std::asinh(M / e);
        for (int i = 0; i < 60; ++i) {
            double d = (e * std::sinh(H) - H - M) / (e * std::cosh(H) - 1);
            H -= d;
            if (std::fabs(d) < 1e-15)
                break;
        }
        double b = a * std::sqrt(e * e - 1), k = n / (e * std::cosh(H) - 1);
        x = a * (e - std::cosh(H));
        y = b * std::sinh(H);
        vx = -a * std::sinh(H) * k;
        vy = b * std::cosh(H) * k;
    }
    for (int i = 0; i < 3; ++i) {
        o[i] = x * P[i] + y * Q[i];
        o[3 + i] = vx * P[i] + vy * Q[i];
    }
}
double et_of_utc_seconds(double s, int off) { return s + off + 32.184; }
void add_body(const std::string& n, double t0, double t1, double sc)
{
    sim::RtAlloc a;
    S()->bodies[n] = {t0, t1, sc};
}
void fail_nth(uint64_t n)
{
    S()->nq = 0;
    S()->fail_at = n;
}
uint64_t queries()
{
    uint64_t n = 0;
    for (auto& c : S()->calls)
        n += c.fn == "spkezr_c" || c.fn == "sxform_c" || c.fn == "pxform_c";
    return n;
}
void kernel(const std::string& p, const std::string& t) { simfs::put(p, t); }
} // namespace simspice

namespace {
void load_file(Entry& e, const std::string& given, int depth)
{
    std::string p = absolute(given), body;
    size_t li = S()->loads.size();
    S()->loads.push_back({given, p, false, sim::self(), sim::seq()});
    sim::yield();
    if (!simfs::get(p, body)) {
        e.err("SPICE(NOSUCHFILE)", "The attempt to load \"" + given + "\" by the routine FURNSH failed. It could not be located.");
        return;
    }
    if (e.injected("furnsh_c", given))
        return;
    std::stringstream ss(body);
    std::string kind, x;
    ss >> kind;
    if (kind == "KPL/LSK") {
        int off = -1;
        if (!(ss >> off) || off < 0) {
            e.err("SPICE(BADLSK)", "The leapseconds kernel " + given + " is damaged");
            return;
        }
        S()->kernels.push_back({p, off});
    } else if (kind == "KPL/MK") {
        if (depth > 3) {
            e.err("SPICE(RECURSIVELOADING)", given);
            return;
        }
        while (ss >> x) {
            load_file(e, x, depth + 1);
            if (S()->failed)
                return;
        }
        S()->kernels.push_back({p, -1});
    } else if (kind == "KPL/SPK") {
        std::string n;
        double a, b, sc;
        while (ss >> n >> a >> b >> sc)
            S()->bodies[n] = {a, b, sc};
        S()->kernels.push_back({p, -1});
    } else if (kind == "KPL/PCK" || kind == "KPL/FK") {
        S()->kernels.push_back({p, -1});
    } else {
        e.err("SPICE(INVALIDFILETYPE)", "The file \"" + given + "\" is not a kernel");
        return;
    }
    S()->loads[li].ok = true;
}
// seconds past J2000 of a calendar string; false if unparsable
bool parse_utc(const char* str, double* out)
{
    int y, mo, d, doy, h = 12, mi = 0;
    double s = 0;
    int n = 0;
    auto days = [](int y, int m, int dd) { // from civil
        y -= m <= 2;
        int era = (y >= 0 ? y : y - 399) / 400;
        unsigned yoe = y - era * 400, doy2 = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + dd - 1;
        unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy2;
        return era * 146097L + (long)doe - 719468L;
    };
    long base = days(2000, 1, 1);
    double t;
    if (sscanf(str, "%4d-%3dT%2d:%2d:%lf%n", &y, &doy, &h, &mi, &s, &n) == 5 && str[n] == 0 && strlen(str) >= 8 && str[8] == 'T' && str[7] != '-')
        t = days(y, 1, 1) + doy - 1;
    else if (sscanf(str, "%4d-%2d-%2dT%2d:%2d:%lf%n", &y, &mo, &d, &h, &mi, &s, &n) == 6 && str[n] == 0)
        t = days(y, mo, d);
    else
        return false;
    if (h > 23 || mi > 59 || s >= 61 || h < 0 || mi < 0 || s < 0)
        return false;
    *out = (t - base) * 86400.0 + h * 3600.0 + mi * 60.0 + s - 43200.0;
    return true;
}
bool cover(Entry& e, const std::string& b, double et)
{
    if (b == "SSB" || b == "SOLAR SYSTEM BARYCENTER")
        return true;
    auto it = S()->bodies.find(b);
    if (it == S()->bodies.end())
        return e.err("SPICE(IDCODENOTFOUND)", "The body \"" + b + "\" is not a recognized name for an ephemeris object"), false;
    if (!(et >= it->second.t0 && et <= it->second.t1)) {
        char t[64];
        snprintf(t, sizeof t, "%.3f", et);
        return e.err("SPICE(SPKINSUFFDATA)", "Insufficient ephemeris data has been loaded to compute the state of " + b + " at the ephemeris epoch " + t), false;
    }
    return true;
}
} // namespace

extern "C" {
void erract_c(ConstSpiceChar* op, SpiceInt n, SpiceChar* action)
{
    Entry e("erract_c");
    if (!strcmp(op, "GET"))
        copy(action, n, S()->action);
    else
        S()->action = action;
}
void errprt_c(ConstSpiceChar* op, SpiceInt n, SpiceChar* list)
{
    Entry e("errprt_c");
    if (!strcmp(op, "GET"))
        copy(list, n, S()->print);
    else
        S()->print = list;
}
SpiceBoolean failed_c(void)
{
    Entry e("failed_c");
    return S()->failed;
}
void reset_c(void)
{
    Entry e("reset_c");
    S()->failed = false;
    S()->s.clear();
    S()->l.clear();
}
void getmsg_c(ConstSpiceChar* option, SpiceInt n, SpiceChar* msg)
{
    Entry e("getmsg_c");
    copy(msg, n, strcmp(option, "SHORT") ? S()->l : S()->s);
}
void furnsh_c(ConstSpiceChar* file)
{
    Entry e("furnsh_c");
    if (!e.blocked())
        load_file(e, file, 0);
}
void unload_c(ConstSpiceChar* file)
{
    Entry e("unload_c");
    if (e.blocked())
        return;
    std::string p = absolute(file);
    for (size_t i = S()->kernels.size(); i-- > 0;)
        if (S()->kernels[i].first == p) {
            S()->kernels.erase(S()->kernels.begin() + i);
            return;
        }
}
void kclear_c(void)
{
    Entry e("kclear_c");
    S()->kernels.clear();
}
void str2et_c(ConstSpiceChar* str, SpiceDouble* et)
{
    Entry e("str2et_c");
    if (e.blocked())
        return;
    if (current_lsk() < 0)
        return (void)e.err("SPICE(NOLEAPSECONDS)", std::string("The variable that points to the leapseconds could not be located: ") + str);
    if (e.injected("str2et_c", str))
        return;
    double t;
    if (!parse_utc(str, &t))
        return (void)e.err("SPICE(UNPARSEDTIME)", std::string("The input time string could not be parsed: ") + str);
    sim::yield();
    *et = simspice::et_of_utc_seconds(t, current_lsk());
}
void deltet_c(SpiceDouble epoch, ConstSpiceChar* eptype, SpiceDouble* delta)
{
    Entry e("deltet_c");
    if (e.blocked())
        return;
    if (current_lsk() < 0)
        return (void)e.err("SPICE(KERNELVARNOTFOUND)", std::string("The variable DELTET/DELTA_T_A was not found: ") + eptype);
    if (e.injected("deltet_c", eptype))
        return;
    if (strcmp(eptype, "UTC") && strcmp(eptype, "ET"))
        return (void)e.err("SPICE(INVALIDEPOCH)", std::string("Epoch type was ") + eptype);
    sim::yield();
    *delta = current_lsk() + 32.184;
}
SpiceDouble unitim_c(SpiceDouble epoch, ConstSpiceChar* in, ConstSpiceChar* out)
{
    Entry e("unitim_c");
    if (e.blocked())
        return epoch;
    if (current_lsk() < 0)
        return e.err("SPICE(MISSINGTIMEINFO)", std::string("The following, needed to convert between the uniform time scales, could not be found: ") + in + " " + out), epoch;
    if (e.injected("unitim_c", std::string(in) + " " + out))
        return epoch;
    auto off = [](const char* s) { return !strcmp(s, "TAI") ? 32.184 : (!strcmp(s, "TT") || !strcmp(s, "TDT") || !strcmp(s, "TDB") || !strcmp(s, "ET")) ? 0.0 : 1e99; };
    double a = off(in), b = off(out);
    if (a > 1e90 || b > 1e90)
        return e.err("SPICE(BADTIMETYPE)", std::string("The time type was not recognised: ") + in + " " + out), epoch;
    sim::yield();
    return epoch + a - b;
}
void timout_c(SpiceDouble et, ConstSpiceChar* pictur, SpiceInt n, SpiceChar* output)
{
    Entry e("timout_c");
    if (e.blocked())
        return;
    if (current_lsk() < 0)
        return (void)e.err("SPICE(MISSINGTIMEINFO)", std::string("no leapseconds: ") + pictur);
    if (e.injected("timout_c", pictur))
        return;
    static char buf[256]; // CSPICE keeps work areas in static storage
    snprintf(buf, sizeof buf, "<%.6f|%d|%s>", et, current_lsk(), pictur);
    sim::yield();
    copy(output, n, buf);
}
void spkezr_c(ConstSpiceChar* target, SpiceDouble et, ConstSpiceChar* ref, ConstSpiceChar* abcorr, ConstSpiceChar* obs,
              SpiceDouble st[6], SpiceDouble* lt)
{
    Entry e("spkezr_c");
    if (e.blocked())
        return;
    static double work[6];
    if (e.injected("spkezr_c", target))
        return;
    if (!known_frame(ref))
        return (void)e.err("SPICE(UNKNOWNFRAME)", std::string("The frame ") + ref + " is unknown");
    std::string ab = abcorr;
    if (ab != "NONE" && ab != "LT")
        return (void)e.err("SPICE(INVALIDOPTION)", "Aberration correction " + ab + " is not supported");
    if (!cover(e, target, et) || !cover(e, obs, et))
        return;
    double o[6];
    simspice::state_of(obs, et, o);
    double dt = 0;
    for (int it = 0; it < (ab == "NONE" ? 1 : 3); ++it) {
        simspice::state_of(target, et - dt, work);
        double r2 = 0;
        for (int i = 0; i < 3; ++i)
            r2 += (work[i] - o[i]) * (work[i] - o[i]);
        *lt = std::sqrt(r2) / 299792.458;
        if (ab != "NONE")
            dt = *lt;
    }
    sim::yield();
    double R[3][3], av[3];
    simspice::frame_of(ref, et, R, av);
    for (int i = 0; i < 3; ++i) {
        st[i] = st[3 + i] = 0;
        for (int j = 0; j < 3; ++j) {
            st[i] += R[i][j] * (work[j] - o[j]);
            st[3 + i] += R[i][j] * (work[3 + j] - o[3 + j]); // (inertial part only)
        }
    }
}
static bool rel(Entry& e, const char* from, const char* to, double et, double R[3][3], double av[3])
{
    if (!known_frame(from) || !known_frame(to)) {
        e.err("SPICE(UNKNOWNFRAME)", std::string("The frame ") + (known_frame(from) ? to : from) + " is unknown");
        return false;
    }
    double A[3][3], B[3][3], a[3], b[3], At[3][3];
    simspice::frame_of(from, et, A, a);
    simspice::frame_of(to, et, B, b);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            At[i][j] = A[j][i];
    mul(B, At, R);
    for (int i = 0; i < 3; ++i) {
        av[i] = 0;
        for (int j = 0; j < 3; ++j)
            av[i] += A[i][j] * (b[j] - a[j]); // expressed in `from`
    }
    return true;
}
void pxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble R[3][3])
{
    Entry e("pxform_c");
    if (e.blocked() || e.injected("pxform_c", std::string(from) + " " + to))
        return;
    double av[3];
    sim::yield();
    rel(e, from, to, et, R, av);
}
void sxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble X[6][6])
{
    Entry e("sxform_c");
    if (e.blocked() || e.injected("sxform_c", std::string(from) + " " + to))
        return;
    double av[3], R[3][3];
    if (!rel(e, from, to, et, R, av))
        return;
    sim::yield();
    // p' = R p, with d/dt(R) = -R [av]x  (av in `from`)
    double K[3][3] = {{0, -av[2], av[1]}, {av[2], 0, -av[0]}, {-av[1], av[0], 0}}, D[3][3];
    mul(R, K, D);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            X[i][j] = X[3 + i][3 + j] = R[i][j];
            X[i][3 + j] = 0;
            X[3 + i][j] = -D[i][j];
        }
}
void xf2rav_c(ConstSpiceDouble X[6][6], SpiceDouble R[3][3], SpiceDouble av[3])
{
    Entry e("xf2rav_c");
    if (e.blocked())
        return;
    static double w[3][3];
    double D[3][3], Rt[3][3];
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            w[i][j] = X[i][j];
            D[i][j] = X[3 + i][j];
        }
    sim::yield();
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            R[i][j] = w[i][j];
            Rt[i][j] = w[j][i];
        }
    double K[3][3];
    mul(Rt, D, K); // R^T dR = -[av]x
    av[0] = -K[2][1];
    av[1] = -K[0][2];
    av[2] = -K[1][0];
}
void conics_c(ConstSpiceDouble el[8], SpiceDouble et, SpiceDouble st[6])
{
    Entry e("conics_c");
    if (e.blocked() || e.injected("conics_c", std::to_string(el[0])))
        return;
    if (el[1] < 0 || el[7] <= 0 || el[0] <= 0) {
        char b[128];
        snprintf(b, sizeof b, "The eccentricity, periapsis distance or GM is not acceptable: ecc %.4f rp %.4f mu %.4f", el[1], el[0], el[7]);
        return (void)e.err("SPICE(BADECCENTRICITY)", b);
    }
    static double w[8];
    for (int i = 0; i < 8; ++i)
        w[i] = el[i];
    sim::yield();
    simspice::conic_of(w, et, st);
}
}
