// F01-F03: star catalogues on a misbehaving disk.
#include "common.h"
#include "huira/stars/io/star_catalog.hpp"
#include "huira/stars/io/load_tycho2.hpp"
#include "simfs.h"
#include <cmath>

using namespace huira;
using sim::require;

namespace {
const std::string PATH = "/simfs/data/cat.hrsc";
std::string hexs(const void* p, size_t n)
{
    std::string o;
    for (size_t i = 0; i < n; ++i)
        o += fmt("%02x", ((const unsigned char*)p)[i]);
    return o;
}
struct Key {
    uint64_t f[6];
    bool operator<(const Key& o) const { return memcmp(f, o.f, sizeof f) < 0; }
    bool operator==(const Key& o) const { return memcmp(f, o.f, sizeof f) == 0; }
};
Key key(const StarData& s)
{
    Key k{};
    k.f[0] = s.id;
    memcpy(&k.f[1], &s.RA, 8);
    memcpy(&k.f[2], &s.DEC, 8);
    memcpy(&k.f[3], &s.solid_angle, 8);
    memcpy(&k.f[4], &s.pmRA, 4);
    memcpy((char*)&k.f[4] + 4, &s.pmDEC, 4);
    memcpy(&k.f[5], &s.temperature, 4);
    memcpy((char*)&k.f[5] + 4, &s.visual_magnitude, 4);
    return k;
}
std::multiset<Key> keys(const std::vector<StarData>& v)
{
    std::multiset<Key> o;
    for (auto& s : v)
        o.insert(key(s));
    return o;
}
std::string show(const StarData& s)
{
    return fmt("id=%llu RA=%.17g DEC=%.17g pm=%g,%g omega=%g T=%g V=%g", (unsigned long long)s.id, s.RA, s.DEC, s.pmRA, s.pmDEC, s.solid_angle,
               s.temperature, s.visual_magnitude);
}
double odd(double lo, double hi)
{
    switch (sim::wrand(24)) {
    case 0: return std::numeric_limits<double>::quiet_NaN();
    case 1: return std::numeric_limits<double>::infinity();
    case 2: return 0.0;
    case 3: return -0.0;
    default: return lo + (hi - lo) * sim::wunit();
    }
}
StarData gen_star(bool odd_values)
{
    StarData s{};
    s.id = sim::wrand();
    auto v = [&](double a, double b) { return odd_values ? odd(a, b) : a + (b - a) * sim::wunit(); };
    s.RA = v(0, 6.28);
    s.DEC = v(-1.57, 1.57);
    s.pmRA = (float)v(-500, 500);
    s.pmDEC = (float)v(-500, 500);
    s.solid_angle = v(1e-20, 1e-15);
    s.temperature = (float)v(2000, 30000);
    s.visual_magnitude = (float)v(-2, 14);
    switch (sim::wrand(8)) {
    case 0: s.visual_magnitude = (float)sim::wint(3, 6); break; // ties
    case 1:
        if (sim::wcoin(0.2))
            s.visual_magnitude = sim::wcoin() ? INFINITY : -INFINITY;
        break;
    }
    return s;
}
size_t gen_count()
{
    switch (sim::wrand(10)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return 2;
    case 3: return 170 + sim::wrand(4); // around the stream buffer
    case 4: return 300 + sim::wrand(1200);
    default: return 3 + sim::wrand(40);
    }
}
std::vector<StarData> gen_stars(size_t n)
{
    std::vector<StarData> v;
    bool o = sim::wcoin();
    for (size_t i = 0; i < n; ++i) {
        StarData s = gen_star(o);
        if (n > 60 || sim::keep_op())
            v.push_back(s);
    }
    return v;
}
// what a reader must return for these stars under a magnitude limit
std::vector<StarData> expected(const std::vector<StarData>& v, float limit)
{
    std::vector<StarData> o;
    for (auto& s : v)
        if (!std::isnan(s.visual_magnitude) && s.visual_magnitude <= limit)
            o.push_back(s);
    return o;
}
void same(const std::vector<StarData>& got, const std::vector<StarData>& want, const char* cls, const std::string& what)
{
    auto g = keys(got), w = keys(want);
    if (g == w)
        return;
    std::string d = fmt("%s: %zu stars returned, %zu expected", what.c_str(), got.size(), want.size());
    for (auto& s : got)
        if (!w.count(key(s))) {
            d += "; returned but not stored: " + show(s);
            break;
        }
    for (auto& s : want)
        if (!g.count(key(s))) {
            d += "; stored but not returned: " + show(s);
            break;
        }
    sim::violation(cls, d);
}
struct Result {
    bool ok = false;
    std::string err;
    std::vector<StarData> v;
};
template <class F> Result attempt(F f)
{
    Result r;
    try {
        r.v = f();
        r.ok = true;
    } catch (const std::exception& e) {
        r.err = e.what();
    }
    return r;
}
Result read_cat(const std::string& p, float lim)
{
    return attempt([&] { return StarCatalog::read_star_data(p, lim).get_star_data(); });
}
float gen_limit(const std::vector<StarData>& v)
{
    switch (sim::wrand(6)) {
    case 0: return (float)(sim::wunit() * 16 - 2);
    case 1: return v.empty() ? 5.f : v[sim::wrand(v.size())].visual_magnitude == v[0].visual_magnitude ? 5.f : v[sim::wrand(v.size())].visual_magnitude;
    case 2: return -INFINITY;
    case 3: return (float)sim::wint(3, 6);
    default: return INFINITY;
    }
}
void quiet_log()
{
    KeepSignals k;
    Logger::enable_console_debug(false);
    Logger::enable_console_info(false);
    Logger::enable_console_warning(false);
}
void begin()
{
    simfs::reset();
    simfs::mkdirs("/simfs/data");
    quiet_log();
}
void closed(const char* what)
{
    require(simfs::open_handles() == 0, "handle-leak", std::string(what) + ": still open afterwards: " + simfs::handle_names());
}
void write_plain(const std::vector<StarData>& v, const std::string& path, CatalogType t)
{
    StarCatalog c(v);
    c.set_catalog_type(t);
    c.write_star_data(path);
}

// ---- F01 ------------------------------------------------------------------------------------
void f01()
{
    begin();
    auto stars = gen_stars(gen_count());
    CatalogType type = sim::wcoin() ? CatalogType::Tycho2 : CatalogType::Unknown;
    try {
        write_plain(stars, PATH, type);
    } catch (const std::exception& e) {
        sim::violation("write-refused", std::string("writing to a healthy disk threw: ") + e.what());
    }
    closed("write");
    std::string bytes;
    require(simfs::get(PATH, bytes), "write-missing", "written catalogue is not there");
    const size_t n_valid = expected(stars, INFINITY).size();
    sim::op(fmt("catalogue of %zu stars (%zu with magnitude), %zu bytes", stars.size(), n_valid, bytes.size()));
    // clean reads
    {
        float lim = gen_limit(stars);
        Result r = read_cat(PATH, lim);
        require(r.ok, "read-refused", "reading a healthy catalogue threw: " + r.err);
        same(r.v, expected(stars, lim), "wrong-stars", fmt("clean read, limit %g", lim));
        StarCatalog c = StarCatalog::read_star_data(PATH);
        for (size_t i = 0; i < std::min<size_t>(3, c.size()); ++i) {
            std::string id = c.get_star_id(i);
            uint64_t v = c[i].id;
            std::string want = type == CatalogType::Unknown ? std::to_string(v) : fmt("TYC %u-%u-%u", (unsigned)((v >> 20) & 0x3fff), (unsigned)((v >> 4) & 0xffff), (unsigned)(v & 15));
            require(id == want, "wrong-id", "star id " + id + " instead of " + want);
        }
        closed("read");
    }
    int rounds = sim::wint(2, 5);
    for (int r = 0; r < rounds; ++r) {
        float lim = gen_limit(stars);
        auto want = expected(stars, lim);
        int mode = (int)sim::wrand(6);
        uint64_t a = sim::wrand(), b = sim::wrand();
        if (!sim::keep_op())
            continue;
        sim::alloc_count_reset();
        if (mode == 0) { // short and interrupted reads
            sim::fault_enable("fs.short-read", 0.6);
            if (a & 1)
                sim::fault_enable("fs.eintr", 0.2);
            sim::op(fmt("read, limit %g, short reads%s", lim, a & 1 ? " and interruptions" : ""));
            Result x = read_cat(PATH, lim);
            sim::fault_disable("fs.short-read");
            sim::fault_disable("fs.eintr");
            require(x.ok, "read-refused", "short or interrupted reads made reading throw: " + x.err);
            same(x.v, want, "wrong-stars", fmt("read with short reads, limit %g", lim));
        } else if (mode == 1) { // failing device
            const char* k[] = {"fs.read", "fs.open", "fs.seek", "fs.stat", "fs.close"};
            const char* kind = k[a % 5];
            sim::fault_enable(kind, (b & 3) == 0 ? 1.0 : 0.15);
            sim::fault_enable("fs.short-read", (b & 4) ? 0.5 : 0.0);
            sim::op(fmt("read, limit %g, faults %s", lim, kind));
            uint64_t e0 = simfs::errors();
            Result x = read_cat(PATH, lim);
            uint64_t e = simfs::errors() - e0;
            sim::fault_disable(kind);
            sim::fault_disable("fs.short-read");
            if (!e)
                require(x.ok, "read-refused", "reading threw though nothing failed: " + x.err);
            if (x.ok)
                same(x.v, want, "wrong-stars", fmt("read with %llu failed calls (%s) returned", (unsigned long long)e, kind));
            sim::probe(x.ok ? "fault-read-ok" : "fault-read-throws");
        } else if (mode == 2) { // truncation
            size_t cut = a % 4 == 0 ? b % std::min<size_t>(bytes.size(), 40) : a % 4 == 1 ? bytes.size() - 1 - b % std::min<size_t>(bytes.size(), 100) : b % bytes.size();
            if (a % 4 == 3 && cut > 32)
                cut = 32 + (cut - 32) / 48 * 48; // between stars
            sim::op(fmt("read of the first %zu of %zu bytes, limit %g", cut, bytes.size(), lim));
            simfs::put("/simfs/data/cut.hrsc", bytes.substr(0, cut));
            Result x = read_cat("/simfs/data/cut.hrsc", lim);
            require(!x.ok, "truncation-accepted", fmt("a catalogue of %zu bytes cut at %zu was read as %zu stars (limit %g)", bytes.size(), cut, x.v.size(), lim));
        } else if (mode == 3) { // header damage: signature, version, star count
            static const size_t off[] = {0, 1, 2, 3, 4};
            std::string d = bytes;
            HrscHeader h{};
            memcpy(&h, d.data(), std::min(d.size(), sizeof h));
            std::string what;
            if (a % 3 == 0) {
                size_t o = off[a / 3 % 5];
                d[o] ^= (char)(1 + b % 255);
                what = fmt("header byte %zu damaged", o);
            } else {
                uint64_t n = h.star_count;
                switch (a / 3 % 6) {
                case 0: h.star_count ^= 1ull << (b % 64); break;
                case 1: h.star_count = ~0ull - b % 3; break;
                case 2: h.star_count = b; break;
                case 3: h.star_count = n ? b % n : 1; break;
                case 4: h.star_count = n + 1 + b % 5; break;
                case 5: h.star_count = 0x0555555555555555ull + n + (b % 2); break; // overflows when multiplied by the size of a star
                }
                if (h.star_count == n)
                    h.star_count = n + 1;
                memcpy(&d[0], &h, sizeof h);
                what = fmt("star count %llu instead of %llu", (unsigned long long)h.star_count, (unsigned long long)n);
            }
            sim::op("read with " + what + fmt(", limit %g", lim));
            simfs::put("/simfs/data/hdr.hrsc", d);
            sim::alloc_limit(64 << 20);
            Result x = read_cat("/simfs/data/hdr.hrsc", lim);
            size_t big = sim::alloc_largest();
            sim::alloc_limit(0);
            require(!x.ok, "damage-accepted", what + fmt(": read as %zu stars (limit %g)", x.v.size(), lim));
            require(big <= (16 << 20), "memory-exhaustion", what + fmt(": asked for %zu bytes", big));
        } else if (mode == 4) { // allocation failure
            uint64_t nth = 1 + a % 24;
            sim::op(fmt("read, limit %g, allocation %llu fails", lim, (unsigned long long)nth));
            sim::alloc_fail_at(nth);
            Result x = read_cat(PATH, lim);
            sim::alloc_fail_at(0);
            if (x.ok)
                same(x.v, want, "wrong-stars", "read during which an allocation failed");
        } else { // file lengths the header does not announce; damage in the stars
            std::string d = bytes;
            if (d.size() > 32 && (a & 1)) {
                size_t o = 32 + b % (d.size() - 32);
                d[o] ^= (char)(1 + (b >> 32) % 255);
                sim::op(fmt("read with damaged byte %zu, limit %g", o, lim));
                simfs::put("/simfs/data/dmg.hrsc", d);
                Result x = read_cat("/simfs/data/dmg.hrsc", lim);
                if (x.ok && lim == INFINITY)
                    require(x.v.size() <= n_valid, "wrong-stars", "more stars than the file holds");
            } else {
                d += std::string(1 + b % 100, (char)a);
                sim::op(fmt("read with %zu more bytes, limit %g", d.size() - bytes.size(), lim));
                simfs::put("/simfs/data/dmg.hrsc", d);
                Result x = read_cat("/simfs/data/dmg.hrsc", lim);
                if (x.ok)
                    same(x.v, want, "wrong-stars", "read of a longer file");
            }
        }
        closed("read");
        // afterwards everything works
        Result y = read_cat(PATH, INFINITY);
        require(y.ok, "poisoned", "a healthy read after the fault threw: " + y.err);
        same(y.v, expected(stars, INFINITY), "wrong-stars", "healthy read after a fault");
    }
    Result m = read_cat("/simfs/data/none.hrsc", INFINITY);
    require(!m.ok, "missing-accepted", "a missing catalogue was read");
    sim::mix(n_valid);
    sim::state(hash64(n_valid, sim::faults_fired()));
}
sim::Reg r01("f01_read", f01);

// ---- F02 ------------------------------------------------------------------------------------
void f02()
{
    begin();
    bool had = sim::wcoin(0.4);
    std::vector<StarData> old;
    if (had) {
        old = gen_stars(1 + sim::wrand(30));
        write_plain(old, PATH, CatalogType::Unknown);
    }
    std::vector<StarData> last = old;
    bool last_ok = had;
    int rounds = sim::wint(1, 4);
    for (int r = 0; r < rounds; ++r) {
        auto stars = gen_stars(gen_count());
        int mode = (int)sim::wrand(6);
        uint64_t a = sim::wrand(), b = sim::wrand();
        if (!sim::keep_op())
            continue;
        auto want = expected(stars, INFINITY);
        std::vector<const char*> kinds;
        switch (mode) {
        case 0: break;
        case 1: kinds = {"fs.short-write"}; break;
        case 2: kinds = {"fs.write"}; break;
        case 3: kinds = {"fs.enospc", "fs.short-write"}; break;
        case 4: kinds = {"fs.close"}; break;
        case 5: {
            static const char* all[] = {"fs.open", "fs.write", "fs.enospc", "fs.close", "fs.short-write", "fs.eintr", "fs.seek"};
            for (int i = 0; i < 7; ++i)
                if (a >> i & 1)
                    kinds.push_back(all[i]);
        }
        }
        double p = (b & 1) ? 1.0 : (b & 2) ? 0.3 : 0.05;
        std::string what;
        for (auto k : kinds) {
            sim::fault_enable(k, std::string(k) == "fs.eintr" ? 0.2 : p);
            what += std::string(" ") + k;
        }
        size_t need = 32 + want.size() * 48, cap = 0;
        if (mode == 0 && (a & 1)) {
            size_t used = 0;
            for (auto& f : simfs::list()) {
                std::string s;
                simfs::get(f, s);
                if (f != PATH)
                    used += s.size();
            }
            cap = used + 1 + b % (need + need / 4 + 8);
            simfs::set_capacity(cap);
            what += fmt(" capacity %zu", cap);
        }
        sim::op(fmt("write of %zu stars (%zu bytes):%s", stars.size(), need, what.empty() ? " no faults" : what.c_str()));
        simfs::journal_clear();
        std::string before;
        bool existed = simfs::get(PATH, before);
        uint64_t e0 = simfs::errors();
        uint64_t i0 = sim::fault_count("fs.eintr");
        std::string err;
        bool ok = true;
        try {
            StarCatalog c(stars);
            c.set_catalog_type(CatalogType::Tycho2);
            c.write_star_data(PATH);
        } catch (const std::exception& e) {
            ok = false;
            err = e.what();
        }
        uint64_t e = simfs::errors() - e0, ei = sim::fault_count("fs.eintr") - i0;
        for (auto k : kinds)
            sim::fault_disable(k);
        simfs::set_capacity(0);
        closed("write");
        sim::probe(ok ? "write-ok" : "write-throws");
        if (!e && !ei && !cap)
            require(ok, "write-refused", "writing threw though nothing failed:" + what + ": " + err);
        if (ok) {
            Result x = read_cat(PATH, INFINITY);
            require(x.ok, "lost-write", fmt("writing %zu stars returned normally (%llu failed calls,%s) but the file cannot be read: %s", want.size(),
                                            (unsigned long long)e, what.c_str(), x.err.c_str()));
            same(x.v, want, "lost-write", fmt("writing returned normally (%llu failed calls,%s)", (unsigned long long)e, what.c_str()));
            if (e)
                sim::probe("write-ok-despite-error");
            last = want;
            last_ok = true;
        } else {
            // the file must not pass for another catalogue
            Result x = read_cat(PATH, INFINITY);
            if (x.ok) {
                auto k = keys(x.v);
                require(k == keys(want) || (last_ok && k == keys(expected(last, INFINITY))), "partial-accepted",
                        fmt("after a write of %zu stars threw (%s) the file reads as %zu other stars", want.size(), err.c_str(), x.v.size()));
                last_ok = true;
                last = x.v;
            } else
                last_ok = false;
        }
        // crash points: every prefix of the changes of this write, some torn
        auto& J = simfs::journal();
        size_t n = J.size();
        std::set<std::pair<size_t, size_t>> pts;
        for (size_t i = 0; i <= n && i < 40; ++i) {
            pts.insert({i, 0});
            if (i < n && J[i].data.size() > 1) {
                pts.insert({i, 1 + sim::wrand(J[i].data.size() - 1)});
                pts.insert({i, std::min<size_t>(32, J[i].data.size())});
                size_t off = J[i].off < 32 ? 32 - J[i].off : (48 - (J[i].off - 32) % 48) % 48;
                if (off + 48 < J[i].data.size())
                    pts.insert({i, off + 48 * sim::wrand((J[i].data.size() - off) / 48)});
            }
        }
        std::multiset<Key> kn = keys(want);
        bool old_valid = false;
        std::multiset<Key> ko;
        if (existed) {
            simfs::put("/simfs/data/before.hrsc", before);
            Result y = read_cat("/simfs/data/before.hrsc", INFINITY);
            old_valid = y.ok;
            ko = keys(y.v);
            simfs::remove("/simfs/data/before.hrsc");
        }
        std::vector<std::pair<std::pair<size_t, size_t>, std::string>> images;
        for (auto& p2 : pts) {
            std::string img;
            if (simfs::image_at(PATH, p2.first, p2.second, img))
                images.push_back({p2, img});
        }
        for (auto& im : images) {
            simfs::put("/simfs/data/crash.hrsc", im.second);
            Result y = read_cat("/simfs/data/crash.hrsc", INFINITY);
            if (!y.ok)
                continue;
            auto k = keys(y.v);
            require(k == kn || (old_valid && k == ko), "crash-partial", fmt("stopped after %zu changes and %zu bytes while writing %zu stars, the file reads as %zu other stars",
                                                                            im.first.first, im.first.second, want.size(), y.v.size()));
        }
        sim::probe("crash-points", images.size());
        simfs::remove("/simfs/data/crash.hrsc");
        sim::mix(ok);
        sim::state(hash64(hash64(n, e), want.size()));
    }
    // once the disk is healthy a write succeeds
    auto fin = gen_stars(2);
    try {
        write_plain(fin, PATH, CatalogType::Unknown);
    } catch (const std::exception& e) {
        sim::violation("poisoned", std::string("a healthy write after faults threw: ") + e.what());
    }
    Result z = read_cat(PATH, INFINITY);
    require(z.ok, "poisoned", "a healthy read after faults threw: " + z.err);
    same(z.v, expected(fin, INFINITY), "wrong-stars", "healthy write after faults");
}
sim::Reg r02("f02_write", f02);

// ---- F03: Tycho-2 -----------------------------------------------------------------------------
struct Rec {
    std::string text;        // without the newline
    bool strict = false;     // a whole record of the format: must give exactly this star
    bool skip = false;       // must give none
    // expectation
    uint64_t id = 0;
    double ra = 0, de = 0;   // degrees as in the file
    double pmra = 0, pmde = 0;
    double epra = 2000, epde = 2000;
    double bt = NAN, vt = NAN;
};
std::string fld(double v, int width, int prec) { return fmt("%*.*f", width, prec, v); }
std::string blank(int w) { return std::string((size_t)w, ' '); }
double val(const std::string& s) { return strtod(s.c_str(), nullptr); }

Rec gen_rec(bool suppl)
{
    Rec r;
    unsigned t1 = 1 + (unsigned)sim::wrand(9537), t2 = 1 + (unsigned)sim::wrand(12121), t3 = 1 + (unsigned)sim::wrand(3);
    r.id = ((uint64_t)t1 << 20) | ((uint64_t)t2 << 4) | t3;
    int kind = (int)sim::wrand(20);
    bool noobs = !suppl && kind < 5; // pflag X: no mean position
    bool pflag_p = !suppl && kind == 5;
    std::string ra = fld(sim::wunit() * 359.99, 12, 8), de = fld((sim::wunit() * 2 - 1) * 88, 12, 8);
    std::string pra = fld((sim::wunit() * 2 - 1) * 900, 7, 1), pde = fld((sim::wunit() * 2 - 1) * 900, 7, 1);
    bool nopm = noobs || sim::wcoin(0.08);
    if (nopm)
        pra = pde = blank(7);
    std::string bt = fld(2 + sim::wunit() * 13, 6, 3), vt = fld(2 + sim::wunit() * 12, 6, 3);
    int mk = (int)sim::wrand(10);
    if (mk == 0)
        bt = blank(6);
    if (mk == 1)
        vt = blank(6);
    if (mk == 2 && sim::wcoin(0.4))
        bt = vt = blank(6);
    r.bt = bt[5] == ' ' ? NAN : val(bt);
    r.vt = vt[5] == ' ' ? NAN : val(vt);
    r.pmra = nopm ? 0 : val(pra);
    r.pmde = nopm ? 0 : val(pde);
    std::string id = fmt("%04u %05u %1u", t1, t2, t3);
    if (!suppl) {
        std::string ora = fld(sim::wunit() * 359.99, 12, 8), ode = fld((sim::wunit() * 2 - 1) * 88, 12, 8);
        std::string era = fld(0.81 + sim::wunit() * 1.32, 4, 2), ede = fld(0.72 + sim::wunit() * 1.64, 4, 2);
        std::string s = id + "|" + (noobs ? "X" : pflag_p ? "P" : " ") + "|";
        s += (noobs ? blank(12) : ra) + "|" + (noobs ? blank(12) : de) + "|";
        s += pra + "|" + pde + "|";
        s += (noobs ? blank(3) : fmt("%3d", sim::wint(3, 183))) + "|" + (noobs ? blank(3) : fmt("%3d", sim::wint(1, 184))) + "|";
        s += (noobs ? blank(4) : fld(sim::wunit() * 11, 4, 1)) + "|" + (noobs ? blank(4) : fld(sim::wunit() * 10, 4, 1)) + "|";
        s += (noobs ? blank(7) : fld(1905 + sim::wunit() * 85, 7, 2)) + "|" + (noobs ? blank(7) : fld(1905 + sim::wunit() * 85, 7, 2)) + "|";
        s += (noobs ? blank(2) : fmt("%2d", sim::wint(2, 36))) + "|";
        for (int i = 0; i < 4; ++i)
            s += (noobs ? blank(3) : fld(sim::wunit() * 9, 3, 1)) + "|";
        s += bt + "|" + (std::isnan(r.bt) ? blank(5) : fld(0.02 + sim::wunit(), 5, 3)) + "|";
        s += vt + "|" + (std::isnan(r.vt) ? blank(5) : fld(0.02 + sim::wunit(), 5, 3)) + "|";
        s += fmt("%3d", sim::wint(3, 999)) + "|" + (sim::wcoin(0.1) ? "T" : " ") + "|";
        s += (sim::wcoin(0.1) ? fmt("%6d%-3s", sim::wint(1, 120404), sim::wcoin() ? "A" : "") : blank(9)) + "|";
        s += ora + "|" + ode + "|" + era + "|" + ede + "|";
        s += fld(3 + sim::wunit() * 180, 5, 1) + "|" + fld(3 + sim::wunit() * 150, 5, 1) + "|" + (sim::wcoin(0.1) ? "D" : " ") + "|";
        s += fld(sim::wunit() * 2 - 1, 4, 1);
        require(s.size() == 206, "harness", fmt("record of %zu bytes", s.size()));
        r.text = s;
        r.ra = noobs ? val(ora) : val(ra);
        r.de = noobs ? val(ode) : val(de);
        if (noobs) {
            r.epra = 1990 + val(era);
            r.epde = 1990 + val(ede);
        }
    } else {
        std::string s = id + "|" + (sim::wcoin() ? "H" : "T") + "|" + ra + "|" + de + "|" + pra + "|" + pde + "|";
        s += fld(sim::wunit() * 150, 5, 1) + "|" + fld(sim::wunit() * 150, 5, 1) + "|";
        s += fld(sim::wunit() * 20, 5, 1) + "|" + fld(sim::wunit() * 20, 5, 1) + "|" + (sim::wcoin() ? "V" : " ") + "|";
        s += bt + "|" + (std::isnan(r.bt) ? blank(5) : fld(sim::wunit(), 5, 3)) + "|";
        s += vt + "|" + (std::isnan(r.vt) ? blank(5) : fld(sim::wunit(), 5, 3)) + "|";
        s += fmt("%3d", sim::wint(3, 999)) + "|" + (sim::wcoin(0.1) ? "T" : " ") + "|";
        s += (sim::wcoin(0.5) ? fmt("%6d", sim::wint(1, 120404)) : blank(6)) + (sim::wcoin(0.2) ? "A" : " ");
        r.text = s;
        require(s.size() >= 115 && s.size() <= 124, "harness", fmt("supplement record of %zu bytes", s.size()));
        r.ra = val(ra);
        r.de = val(de);
        r.epra = r.epde = 1991.25;
    }
    r.strict = true;
    if (std::isnan(r.bt) && std::isnan(r.vt))
        r.skip = true;
    return r;
}
// what is not a record, or a damaged one
Rec gen_bad(bool suppl)
{
    Rec r = gen_rec(suppl);
    r.strict = false;
    r.skip = true;
    size_t n = r.text.size();
    switch (sim::wrand(12)) {
    case 0: r.text = ""; break;
    case 1: r.text = "# comment line"; break;
    case 2: r.text = " " + r.text; r.skip = true; break; // does not begin with a digit
    case 3: // position unreadable
        r.text.replace(suppl || r.text[13] != 'X' ? 15 : 152, 12, blank(12));
        break;
    case 4:
        r.text.replace(suppl || r.text[13] != 'X' ? 28 : 165, 12, "   garbage  ");
        break;
    case 5: // magnitudes missing
        r.text.replace(suppl ? 83 : 110, 6, blank(6));
        r.text.replace(suppl ? 96 : 123, 6, blank(6));
        break;
    case 6: r.text = r.text.substr(0, 1 + sim::wrand(suppl ? 82 : 109)); break; // before the magnitudes
    case 7: r.text = std::string(1 + sim::wrand(3), '7'); break;
    case 8: // identifier unreadable
        r.text.replace(5, 5, "     ");
        break;
    case 9: // over-long line
        r.text += std::string(1 + sim::wrand(4000), sim::wcoin() ? ' ' : 'x');
        r.skip = false;
        break;
    case 10: { // arbitrary bytes
        size_t k = 1 + sim::wrand(8);
        for (size_t i = 0; i < k; ++i) {
            char c = (char)sim::wrand(256);
            r.text[sim::wrand(n)] = c == '\n' ? '?' : c;
        }
        r.skip = false;
        break;
    }
    default: // cut anywhere
        r.text = r.text.substr(0, sim::wrand(n));
        r.skip = false;
        break;
    }
    return r;
}
double mag_v(const Rec& r) { return !std::isnan(r.bt) && !std::isnan(r.vt) ? r.vt - 0.09 * (r.bt - r.vt) : std::isnan(r.vt) ? r.bt : r.vt; }
double temp_of(const Rec& r)
{
    double bv = !std::isnan(r.bt) && !std::isnan(r.vt) ? 0.85 * (r.bt - r.vt) : 0.3;
    return 4600.0 * (1 / (0.92 * bv + 1.7) + 1 / (0.92 * bv + 0.62));
}
bool near(double a, double b, double rel, double abs) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= abs + rel * std::fabs(b); }
// empty if `s` is the star of record r
std::string differs(const StarData& s, const Rec& r)
{
    const double D = 3.14159265358979323846 / 180, MAS = D / 3600e3;
    double de = r.de * D + r.pmde * MAS * (2000 - r.epde);
    double ra = r.ra * D + r.pmra * MAS * (2000 - r.epra) / cos(de);
    if (s.id != r.id)
        return fmt("id %llx, record has %llx", (unsigned long long)s.id, (unsigned long long)r.id);
    if (!near(s.DEC, de, 0, 1e-8))
        return fmt("DEC %.12g, record has %.12g", s.DEC, de);
    if (!near(s.RA, ra, 0, 1e-8 / cos(de)))
        return fmt("RA %.12g, record has %.12g", s.RA, ra);
    if (!near(s.pmRA, r.pmra, 1e-6, 1e-6) || !near(s.pmDEC, r.pmde, 1e-6, 1e-6))
        return fmt("proper motion %g,%g, record has %g,%g", s.pmRA, s.pmDEC, r.pmra, r.pmde);
    if (!near(s.visual_magnitude, mag_v(r), 1e-5, 1e-5))
        return fmt("magnitude %g, record has %g", s.visual_magnitude, mag_v(r));
    if (!near(s.temperature, temp_of(r), 1e-4, 1e-2))
        return fmt("temperature %g, record has %g", s.temperature, temp_of(r));
    StarData ref;
    ref.process_magnitude(r.bt, r.vt);
    if (!near(s.solid_angle, ref.solid_angle, 1e-6, 0))
        return fmt("solid angle %g, record alone gives %g", s.solid_angle, ref.solid_angle);
    return "";
}
void f03()
{
    begin();
    bool suppl = sim::wcoin(0.4);
    int nrec = sim::wcoin(0.1) ? 0 : sim::wcoin(0.15) ? sim::wint(60, 160) : sim::wint(1, 14);
    double bad = sim::wcoin(0.3) ? 0 : sim::wunit() * 0.7;
    bool crlf = sim::wcoin(0.15);
    std::vector<Rec> recs;
    for (int i = 0; i < nrec; ++i) {
        Rec r = sim::wcoin(bad) ? gen_bad(suppl) : gen_rec(suppl);
        if (sim::keep_op())
            recs.push_back(r);
    }
    bool last_nl = sim::wcoin();
    std::string data;
    for (size_t i = 0; i < recs.size(); ++i) {
        data += recs[i].text;
        if (i + 1 < recs.size() || last_nl)
            data += crlf ? "\r\n" : "\n";
    }
    const std::string P = "/simfs/data/tyc2.dat";
    simfs::put(P, data);
    sim::op(fmt("%s of %zu lines, %zu bytes%s%s", suppl ? "supplement" : "catalogue", recs.size(), data.size(), crlf ? ", CRLF" : "", last_nl ? "" : ", no final newline"));
    auto load = [&](const std::string& p) { return attempt([&] { return suppl ? read_tycho2_suppl(p) : read_tycho2_dat(p); }); };
    // reference: what each line gives on its own, for lines that are no whole records
    std::vector<std::vector<StarData>> alone(recs.size());
    for (size_t i = 0; i < recs.size(); ++i) {
        if (recs[i].strict)
            continue;
        simfs::put("/simfs/data/one.dat", recs[i].text + (crlf ? "\r\n" : "\n"));
        Result r = load("/simfs/data/one.dat");
        require(r.ok, "read-refused", "reading a damaged line threw: " + r.err);
        require(r.v.size() <= 1, "invented-star", fmt("one line gave %zu stars", r.v.size()));
        if (recs[i].skip)
            require(r.v.empty(), "invented-star", "a line without a whole record gave a star: '" + recs[i].text.substr(0, 60) + "' " + show(r.v.empty() ? StarData{} : r.v[0]));
        alone[i] = r.v;
    }
    auto compare = [&](const std::vector<StarData>& v, size_t whole_lines, const std::string& what) {
        // the stars of the first whole_lines lines, in order
        size_t k = 0;
        for (size_t i = 0; i < whole_lines; ++i) {
            const Rec& r = recs[i];
            if (r.strict ? r.skip : alone[i].empty())
                continue;
            require(k < v.size(), "missing-star", what + fmt(": %zu stars returned, line %zu has none: %s", v.size(), i + 1, r.text.substr(0, 57).c_str()));
            std::string d = r.strict ? differs(v[k], r) : key(v[k]) == key(alone[i][0]) ? "" : "differs from the line read alone: " + show(v[k]) + " / " + show(alone[i][0]);
            require(d.empty(), "wrong-star", what + fmt(": star %zu for line %zu: ", k, i + 1) + d + " (" + r.text.substr(0, 57) + ")");
            ++k;
        }
        require(k == v.size() || whole_lines < recs.size(), "invented-star", what + fmt(": %zu stars returned, the file has %zu", v.size(), k));
        return k;
    };
    Result r0 = load(P);
    require(r0.ok, "read-refused", "reading a healthy file threw: " + r0.err);
    compare(r0.v, recs.size(), "clean read");
    closed("read");
    int rounds = sim::wint(1, 3);
    for (int k = 0; k < rounds; ++k) {
        int mode = (int)sim::wrand(4);
        uint64_t a = sim::wrand(), b = sim::wrand();
        if (!sim::keep_op())
            continue;
        if (mode == 0) {
            sim::fault_enable("fs.short-read", 0.7);
            if (a & 1)
                sim::fault_enable("fs.eintr", 0.2);
            sim::op("read with short reads");
            Result r = load(P);
            sim::fault_disable("fs.short-read");
            sim::fault_disable("fs.eintr");
            require(r.ok, "read-refused", "short or interrupted reads made reading throw: " + r.err);
            compare(r.v, recs.size(), "read with short reads");
        } else if (mode == 1) {
            const char* kinds[] = {"fs.read", "fs.open", "fs.close", "fs.stat"};
            const char* kd = kinds[a % 8 < 5 ? 0 : a % 8 - 4];
            sim::fault_enable(kd, (b & 1) ? 0.3 : 1.0, 1);
            sim::fault_enable("fs.short-read", (b & 2) ? 0.7 : 0.0);
            sim::op(std::string("read with faults: ") + kd);
            uint64_t e0 = simfs::errors();
            Result r = load(P);
            uint64_t e = simfs::errors() - e0;
            sim::fault_disable(kd);
            sim::fault_disable("fs.short-read");
            if (!e)
                require(r.ok, "read-refused", "reading threw though nothing failed: " + r.err);
            if (r.ok) // (a failure that lost nothing may pass)
                compare(r.v, recs.size(), std::string("read with a failed call (") + kd + ")");
            sim::probe(r.ok ? "fault-read-ok" : "fault-read-throws");
        } else if (mode == 2 && !data.empty()) { // cut anywhere: the whole records before the cut, at most one more star
            size_t cut = b % data.size();
            size_t whole = 0, p = 0;
            for (size_t i = 0; i < recs.size(); ++i) {
                p += recs[i].text.size();
                if (p > cut)
                    break;
                whole = i + 1;
                p += crlf ? 2 : 1;
            }
            sim::op(fmt("read of the first %zu bytes", cut));
            simfs::put("/simfs/data/cut.dat", data.substr(0, cut));
            Result r = load("/simfs/data/cut.dat");
            if (r.ok) {
                size_t n = compare(r.v, whole, fmt("read of the first %zu bytes", cut));
                require(r.v.size() <= n + 1, "invented-star", fmt("the first %zu bytes gave %zu stars, %zu whole", cut, r.v.size(), n));
                if (r.v.size() == n + 1 && whole < recs.size())
                    require(!recs[whole].strict || r.v[n].id == recs[whole].id, "wrong-star", "cut record has another record's identifier");
            }
        } else {
            uint64_t nth = 1 + a % 40;
            sim::op(fmt("read while allocation %llu fails", (unsigned long long)nth));
            sim::alloc_fail_at(nth);
            Result r = load(P);
            bool f = sim::alloc_failed();
            sim::alloc_fail_at(0);
            if (!f)
                require(r.ok, "read-refused", "reading threw though nothing failed: " + r.err);
            if (r.ok)
                compare(r.v, recs.size(), "read during which an allocation failed");
        }
        closed("read");
        Result y = load(P);
        require(y.ok, "poisoned", "a healthy read after a fault threw: " + y.err);
        compare(y.v, recs.size(), "healthy read after a fault");
    }
    Result m = load("/simfs/data/none.dat");
    require(!m.ok, "missing-accepted", "a missing file was read");
    sim::mix(r0.v.size());
    sim::state(hash64(r0.v.size(), data.size()));
}
sim::Reg r03("f03_tycho2", f03);
} // namespace
