// Scene graph, names, deletion, poses, models, and running out of memory: histories of edits against a reference model.
#include "world.h"

namespace {
using namespace W;
using sim::require;
using sim::violation;

// ---- small double-precision algebra of its own --------------------------------------
V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
V3 operator*(V3 a, double k) { return {a.x * k, a.y * k, a.z * k}; }
V3 had(V3 a, V3 b) { return {a.x * b.x, a.y * b.y, a.z * b.z}; }
V3 had_div(V3 a, V3 b) { return {a.x / b.x, a.y / b.y, a.z / b.z}; }
double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
double len(V3 a) { return std::sqrt(dot(a, a)); }
V3 unit(V3 a) { return a * (1 / len(a)); }
struct M3 { // columns: the local axes seen from the parent
    V3 c[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
};
V3 operator*(const M3& m, V3 v) { return m.c[0] * v.x + m.c[1] * v.y + m.c[2] * v.z; }
M3 operator*(const M3& a, const M3& b)
{
    M3 r;
    for (int i = 0; i < 3; ++i)
        r.c[i] = a * b.c[i];
    return r;
}
M3 tr(const M3& m) { return {{{m.c[0].x, m.c[1].x, m.c[2].x}, {m.c[0].y, m.c[1].y, m.c[2].y}, {m.c[0].z, m.c[1].z, m.c[2].z}}}; }
M3 turn(V3 axis, double a)
{
    V3 k = unit(axis);
    M3 r;
    for (int i = 0; i < 3; ++i) {
        V3 e = r.c[i];
        r.c[i] = e * std::cos(a) + cross(k, e) * std::sin(a) + k * (dot(k, e) * (1 - std::cos(a)));
    }
    return r;
}
std::array<double, 4> quat(V3 axis, double a) // w x y z
{
    V3 k = unit(axis) * std::sin(a / 2);
    return {std::cos(a / 2), k.x, k.y, k.z};
}
struct St {
    V3 p, v, w;
    M3 r;
    V3 s{1, 1, 1};
    double moved = 0, turned = 0; // how far double precision may be off
};
St operator*(const St& a, const St& b)
{
    St r;
    V3 arm = a.r * had(a.s, b.p);
    r.p = a.p + arm;
    r.r = a.r * b.r;
    r.s = had(a.s, b.s);
    r.v = a.v + a.r * had(a.s, b.v) + cross(a.w, arm);
    r.w = a.w + a.r * b.w;
    return r;
}

// A generator of its own for each operation, so that dropping one leaves the others as they are
struct Rnd {
    uint64_t s;
    uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double u() { return (double)(next() >> 11) * 0x1p-53; }
    double u(double a, double b) { return a + (b - a) * u(); }
    bool coin(double p = 0.5) { return u() < p; }
    V3 v(double a) { return {u(-a, a), u(-a, a), u(-a, a)}; }
    V3 axis()
    {
        for (;;) {
            V3 a = v(1);
            if (len(a) > 0.2)
                return a;
        }
    }
    template <class C> auto& pick(C& c) { return c[below(c.size())]; }
};

// ---- callbacks ------------------------------------------------------------------------
const double CB0 = 50; // their zero of time
struct PosCB : PositionCallback {
    V3 a, b;
    PosCB(V3 a_, V3 b_) : a(a_), b(b_) {}
    void evaluate(const Time& t, const Rotation<double>&, const Vec3<double>&) override
    {
        V3 p = a + b * std::sin((t.et() - CB0) * 0.01), v = b * (0.01 * std::cos((t.et() - CB0) * 0.01));
        position = {p.x, p.y, p.z};
        velocity = {v.x, v.y, v.z};
    }
};
struct RotCB : RotationCallback {
    V3 ax;
    double rate;
    RotCB(V3 a, double r) : ax(unit(a)), rate(r) {}
    void evaluate(const Time& t, const Vec3<double>&, const Vec3<double>&) override
    {
        auto q = quat(ax, std::fmod(rate * (t.et() - CB0), 4 * M_PI));
        rotation = Rotation<double>::from_local_to_parent(Quaternion<double>{q[0], q[1], q[2], q[3]});
        angular_velocity = {ax.x * rate, ax.y * rate, ax.z * rate};
    }
};
struct StateCB : StateCallback {
    V3 a, b, ax;
    double rate;
    StateCB(V3 a_, V3 b_, V3 x, double r) : a(a_), b(b_), ax(unit(x)), rate(r) {}
    void evaluate(const Time& t) override
    {
        double d = t.et() - CB0;
        V3 p = a + b * std::sin(d * 0.01), v = b * (0.01 * std::cos(d * 0.01));
        auto q = quat(ax, std::fmod(rate * d, 4 * M_PI));
        state.position = {p.x, p.y, p.z};
        state.velocity = {v.x, v.y, v.z};
        state.rotation = Rotation<double>::from_local_to_parent(Quaternion<double>{q[0], q[1], q[2], q[3]});
        state.angular_velocity = {ax.x * rate, ax.y * rate, ax.z * rate};
    }
};

// ---- the reference model -----------------------------------------------------------------
enum Kind { GEOM, PRIM, LIGHT, UNRES, CAM, MODEL, NKIND };
const char* KIND[] = {"geometry", "primitive", "light", "unresolved object", "camera model", "model"};
enum PMode { P_MANUAL, P_SPICE, P_KEPLER, P_CALLBACK, P_STATE };
enum RMode { R_MANUAL, R_SPICE, R_ZUP, R_ZDOWN, R_CALLBACK, R_STATE };

struct Shape {
    bool ellipsoid = false;
    bool flat = false; // a mesh whose vertex normals are those of its faces
    V3 dims{1, 1, 1};
    std::vector<V3> vert;
    std::vector<uint32_t> ix;
    std::vector<T> colour; // of the vertices of a generated mesh
    double size() const
    {
        double m = 0;
        if (ellipsoid)
            return std::max({dims.x, dims.y, dims.z});
        for (auto& v : vert)
            m = std::max(m, len(v));
        return m;
    }
};
struct Part {
    int prim;
    St local;
};
struct MAsset {
    int kind;
    std::string name;
    bool alive = true;
    Shape shape;                // geometries
    int geom = -1;              // primitives
    double radius = 0;          // lights
    T radiance{0};
    T albedo{1};                // primitives
    bool clear = false;         // nothing of it can be seen
    bool null = false;          // only the border of a medium: light goes through
    int ukind = 0, light = -1;  // unresolved: 0 fixed, 1 emitter, 2 sphere
    double strength = 0;
    std::vector<Part> parts;    // models
    std::optional<GeometryHandle<T>> g;
    std::optional<PrimitiveHandle<T>> p;
    std::optional<LightHandle<T>> l;
    std::optional<UnresolvedObjectHandle<T>> u;
    std::optional<Cam> c;
    std::optional<ModelHandle<T>> m;
    const void* raw = nullptr;
};
struct MNode {
    int parent = -1;
    bool frame = false, alive = true;
    int pm = P_MANUAL, rm = R_MANUAL;
    V3 pos, vel, w, s{1, 1, 1};
    M3 q;
    bool body = false;
    std::string origin, spice_frame;
    double el[8] = {};
    V3 pa, pb, rax{0, 0, 1}, sa, sb, sax{0, 0, 1};
    double rrate = 0, srate = 0;
    int asset = -1;
    std::optional<FrameHandle<T>> f;
    std::optional<Inst> i;
};
struct MStar {
    V3 dir;
    T irr;
};
struct Model {
    std::vector<MAsset> a;
    std::vector<MNode> n;
    std::vector<MStar> stars;
    T background{0};
    std::vector<StarData> catalogue; // of the stars that can be moved to another epoch
    bool dynamic = false;
    bool has_child(int i, std::function<bool(const MNode&)> p) const
    {
        for (auto& c : n)
            if (c.alive && c.parent == i && p(c))
                return true;
        return false;
    }
    void kill_node(int i)
    {
        n[(size_t)i].alive = false;
        for (size_t k = 0; k < n.size(); ++k)
            if (n[k].alive && n[k].parent == i)
                kill_node((int)k);
    }
    void kill_asset(int x)
    {
        a[(size_t)x].alive = false;
        for (size_t k = 0; k < n.size(); ++k)
            if (n[k].alive && n[k].asset == x)
                kill_node((int)k);
        for (auto& m : a)
            if (m.kind == MODEL)
                std::erase_if(m.parts, [x](const Part& p) { return p.prim == x; });
        if (a[(size_t)x].kind == GEOM)
            for (size_t k = 0; k < a.size(); ++k)
                if (a[k].alive && a[k].kind == PRIM && a[k].geom == x)
                    kill_asset((int)k);
    }
};
struct Body {
    const char* name;
    double t0, t1, scale;
};
const Body BODIES[] = {{"NEAR", -1e9, 1e9, 0.02}, {"MID", -1e9, 1e9, 50}, {"FAR", -1e9, 1e9, 1e5}, {"LATE", 5e5, 1e9, 0.05}};
struct NoData {
    std::string what;
};
void kstate(const std::string& b, double et, V3& p, V3& v)
{
    double o[6];
    for (auto& x : BODIES)
        if (b == x.name && (et < x.t0 || et > x.t1))
            throw NoData{b + " has no data"};
    if (!simspice::state_of(b, et, o))
        throw NoData{"no body " + b};
    p = V3{o[0], o[1], o[2]} * 1000;
    v = V3{o[3], o[4], o[5]} * 1000;
}
void kframe(const std::string& f, double et, M3& r, V3& w)
{
    double R[3][3], av[3];
    if (!simspice::frame_of(f, et, R, av))
        throw NoData{"no frame " + f};
    for (int i = 0; i < 3; ++i) // R: J2000 -> frame, so its rows are the frame's axes in J2000
        r.c[i] = {R[i][0], R[i][1], R[i][2]};
    w = {av[0], av[1], av[2]};
}
// where node i is, seen from the solar system barycentre, at t; t0: when manual motion starts
St ssb(const Model& m, int i, double t0, double t)
{
    const MNode& n = m.n[(size_t)i];
    if (n.pm == P_SPICE && n.rm == R_SPICE) {
        St s;
        kstate(n.origin, t, s.p, s.v);
        kframe(n.spice_frame, t, s.r, s.w);
        s.s = n.s;
        return s;
    }
    St par = ssb(m, n.parent, t0, t), l;
    l.s = n.s;
    double d = t - CB0;
    auto state_cb = [&] {
        St s;
        s.p = n.sa + n.sb * std::sin(d * 0.01);
        s.v = n.sb * (0.01 * std::cos(d * 0.01));
        s.r = turn(n.sax, std::fmod(n.srate * d, 4 * M_PI));
        s.w = unit(n.sax) * n.srate;
        return s;
    };
    M3 back = tr(par.r);
    switch (n.pm) {
    case P_MANUAL:
        l.p = n.pos + n.vel * (t - t0);
        l.v = n.vel;
        break;
    case P_SPICE: {
        V3 p, v;
        kstate(n.origin, t, p, v);
        V3 off = p - par.p;
        l.p = had_div(back * off, par.s);
        l.v = had_div(back * (v - par.v - cross(par.w, off)), par.s);
        break;
    }
    case P_KEPLER: {
        double o[6];
        simspice::conic_of(n.el, t, o);
        l.p = V3{o[0], o[1], o[2]} * 1000;
        l.v = V3{o[3], o[4], o[5]} * 1000;
        break;
    }
    case P_CALLBACK:
        l.p = n.pa + n.pb * std::sin(d * 0.01);
        l.v = n.pb * (0.01 * std::cos(d * 0.01));
        break;
    case P_STATE: {
        St s = state_cb();
        l.p = s.p;
        l.v = s.v;
        break;
    }
    }
    switch (n.rm) {
    case R_MANUAL: {
        double rate = len(n.w);
        l.r = n.q;
        if (rate > 0) {
            M3 dl = turn(n.w, rate * (t - t0));
            l.r = n.body ? n.q * dl : dl * n.q;
        }
        l.w = n.body ? n.q * n.w : n.w;
        break;
    }
    case R_SPICE: {
        M3 r;
        V3 w;
        kframe(n.spice_frame, t, r, w);
        l.r = back * r;
        l.w = back * (w - par.w);
        break;
    }
    case R_ZUP:
    case R_ZDOWN: {
        V3 z = unit(l.p) * (n.rm == R_ZUP ? 1. : -1.), y = unit(l.v), x = unit(cross(y, z));
        l.r = {{x, unit(cross(z, x)), z}};
        l.w = {};
        break;
    }
    case R_CALLBACK:
        l.r = turn(n.rax, std::fmod(n.rrate * d, 4 * M_PI));
        l.w = unit(n.rax) * n.rrate;
        break;
    case R_STATE: {
        St s = state_cb();
        l.r = s.r;
        l.w = s.w;
        break;
    }
    }
    return par * l;
}
const double C = 299792458.0;
St apparent(const Model& m, int i, double t0, double t, int mode, const St& obs)
{
    St s = ssb(m, i, t0, t);
    if (mode == (int)ObservationMode::TRUE_STATE)
        return s;
    double dt = len(obs.p - s.p) / C;
    for (int k = 0; k < 10; ++k) {
        s = ssb(m, i, t0, t - dt);
        dt = len(obs.p - s.p) / C;
    }
    if (mode == (int)ObservationMode::ABERRATED_STATE) {
        V3 rel = s.p - obs.p;
        double d = len(rel);
        if (d > 1e-8) {
            V3 u = rel * (1 / d), b = obs.v * (1 / C);
            double g = 1 / std::sqrt(1 - dot(b, b)), ub = dot(u, b);
            u = (u + b + b * (g / (1 + g) * ub)) * (1 / (g * (1 + ub)));
            s.p = obs.p + u * d;
        }
    }
    return s;
}

struct Seen { // one instance in a view: poses relative to the camera, one per sample
    int asset;
    bool of_model = false;
    std::vector<St> at;
};
struct Expect {
    std::vector<Seen> prims, lights, points;
    bool fails = false;
    bool may_fail = false; // a point source where it, its light and the camera coincide has no brightness
    std::string why;
};
struct ViewSpec {
    int cam; // node
    double t0, dt;
    int samples, mode;
    std::string text() const { return fmt("view from node %d, et %.3f + %.3f s, %d samples, mode %d", cam, t0, dt, samples, mode); }
};
std::vector<double> sample_times(const ViewSpec& v)
{
    if (v.samples <= 1)
        return {v.t0 + v.dt / 2};
    std::vector<double> t;
    for (int k = 0; k < v.samples; ++k)
        t.push_back(v.t0 + k * (v.dt / (v.samples - 1)));
    return t;
}
Expect expected(const Model& m, const ViewSpec& v, const M3& sensor)
{
    Expect e;
    std::vector<double> ts = sample_times(v);
    try {
        std::vector<St> obs;
        for (double t : ts) {
            St o = ssb(m, v.cam, ts[0], t);
            o.r = o.r * sensor;
            obs.push_back(o);
        }
        for (size_t i = 0; i < m.n.size(); ++i) {
            const MNode& n = m.n[i];
            if (!n.alive || n.frame)
                continue;
            Seen s;
            s.asset = n.asset;
            for (size_t k = 0; k < ts.size(); ++k) {
                const St& o = obs[k];
                St a = apparent(m, (int)i, ts[0], ts[k], v.mode, o), r;
                double inv = 1 / o.s.x;
                r.p = tr(o.r) * ((a.p - o.p) * inv);
                r.r = tr(o.r) * a.r;
                r.s = a.s * inv;
                // rotations are good to about 1e-8, however far away what they turn is
                auto arm = [&](int q, const St& x) -> double {
                    int top = q;
                    while (m.n[(size_t)top].parent > 0)
                        top = m.n[(size_t)top].parent;
                    try {
                        return top == q ? 0 : len(x.p - ssb(m, top, ts[0], ts[k]).p);
                    } catch (const NoData&) {
                        return 1e6; // known at the time of the light's departure only
                    }
                };
                r.turned = 1e-6 * (len(o.w) + len(a.w));
                r.moved = (1e-6 * (len(o.v) + len(a.v)) + 3e-8 * (arm(v.cam, o) + arm((int)i, a))) * inv + r.turned * len(r.p);
                s.at.push_back(r);
            }
            const MAsset& x = m.a[(size_t)n.asset];
            if (x.kind == PRIM)
                e.prims.push_back(s);
            else if (x.kind == LIGHT)
                e.lights.push_back(s);
            else if (x.kind == UNRES)
                e.points.push_back(s);
            else if (x.kind == MODEL)
                for (auto& p : x.parts) {
                    Seen q = s;
                    q.asset = p.prim;
                    q.of_model = true;
                    for (auto& a : q.at) {
                        double em = a.moved, et = a.turned;
                        a = a * p.local;
                        a.turned = et;
                        a.moved = em + et * len(p.local.p) * 10;
                    }
                    e.prims.push_back(q);
                }
        }
    } catch (NoData& d) {
        e.fails = true;
        e.why = d.what;
        return e;
    }
    for (auto& p : e.points) {
        if (m.a[(size_t)p.asset].ukind > 0)
            for (size_t k = 0; k < p.at.size(); ++k) {
                auto together = [&](V3 a, V3 b) { return len(a - b) < 0.05 + 1e-5 * (len(a) + len(b)); };
                e.may_fail |= together(p.at[k].p, V3{});
                for (auto& l : e.lights)
                    e.may_fail |= l.asset == m.a[(size_t)p.asset].light && together(p.at[k].p, l.at[k].p);
            }
        if (m.a[(size_t)p.asset].ukind >= 2) {
            bool lit = false;
            for (auto& l : e.lights)
                lit |= l.asset == m.a[(size_t)p.asset].light;
            if (!lit) {
                e.fails = true;
                e.why = "an unresolved sphere has lost its light";
            }
        }
    }
    return e;
}

// ---- rays ---------------------------------------------------------------------------------
struct Hit {
    double t = -1;
    bool unsure = false;
    V3 n;         // a normal of the surface there
    int tri = -1; // of a mesh
};
void hit_shape(const Shape& s, const St& x, V3 o, V3 d, Hit& h)
{
    M3 b = tr(x.r);
    V3 lo = had_div(b * (o - x.p), x.s), ld = had_div(b * d, x.s);
    auto take = [&](double t, V3 n, int tri) { // n: in the shape's own frame
        if (t > 0 && (h.t < 0 || t < h.t))
            h.t = t, h.n = unit(x.r * had_div(n, x.s)), h.tri = tri;
    };
    if (s.ellipsoid) {
        V3 p = had_div(lo, s.dims), q = had_div(ld, s.dims);
        double A = dot(q, q), B = dot(p, q), Cc = dot(p, p) - 1, D = B * B - A * Cc;
        // how close the line comes to the surface, as a part of the radius
        double near = std::sqrt(std::max(0., dot(p, p) - B * B / A));
        // (from afar the discriminant is a small difference of large squares in single precision)
        if (std::fabs(near - 1) < 0.02 + 1e-6 * dot(p, p) || std::fabs(std::sqrt(dot(p, p)) - 1) < 0.05)
            h.unsure = true;
        if (D <= 0)
            return;
        if (Cc < 0)
            h.unsure = true; // from inside: not asked
        double r = std::sqrt(D);
        for (double t : {(-B - r) / A, (-B + r) / A})
            take(t, had_div(p + q * t, s.dims), -1);
        return;
    }
    for (size_t i = 0; i + 2 < s.ix.size(); i += 3) {
        V3 a = s.vert[s.ix[i]], e1 = s.vert[s.ix[i + 1]] - a, e2 = s.vert[s.ix[i + 2]] - a;
        V3 n = cross(e1, e2);
        double area = len(n), L = len(ld);
        if (area == 0)
            continue;
        double det = dot(n, ld);
        if (std::fabs(det) < 0.02 * area * L) {
            // nearly edge-on: unsure when the line passes close by
            V3 c = a + (e1 + e2) * (1. / 3) - lo;
            V3 off = c - ld * (dot(c, ld) / (L * L));
            if (len(off) < 1.5 * (len(e1) + len(e2)))
                h.unsure = true;
            continue;
        }
        double t = dot(n, a - lo) / det;
        V3 p = lo + ld * t - a;
        double u = dot(cross(p, e2), n) / (area * area), v = dot(cross(e1, p), n) / (area * area), m = std::min({u, v, 1 - u - v});
        if (std::fabs(m) < 0.02 || std::fabs(t) * L < 0.02 * (len(e1) + len(e2)))
            h.unsure = true;
        if (m > 0)
            take(t, n, (int)i);
    }
}

// ---- the world of a run ---------------------------------------------------------------------
struct OldView {
    std::unique_ptr<SceneView<T>> v;
    std::vector<Ray<T>> rays;
    std::vector<float> times;
    std::vector<HitRecord> hits;
    std::unique_ptr<FrameBuffer<T>> fb;
    std::optional<Frame> frame;
    std::string text;
};
struct Game {
    Scene<T>* sc = nullptr;
    Model m;
    std::set<std::string> seen[NKIND];
    std::vector<OldView> old;
    double p_alloc = 0;      // how often an operation is first tried with memory running out
    uint64_t alloc_span = 40;
    bool contents = false;    // compare the printed contents as well
    int loads = 0;
    bool render_old = false;
    uint64_t nview = 0;
    double sky = 0.3;         // how often the point sources of a view are compared
    bool light = false; // whether things are lit, and have materials
    bool borders = false; // many borders of media
    std::optional<ViewSpec> focus_view; // the last one that something was placed in front of
    double surfaces = 0.05; // how often frames are compared with the model's surfaces
    int rays = 6;
    std::optional<ViewSpec> focus; // the view that shows what is being edited
};
Game* G;

template <class F> std::string outcome(const F& f) // empty: fine
{
    try {
        f();
        return "";
    } catch (const std::exception& e) {
        sim::RtAlloc own;
        std::string s = e.what();
        return s.empty() ? "?" : s;
    } catch (...) {
        violation("escaped-exception", "something other than a std::exception was thrown");
    }
}
FrameHandle<T> frame_of(const MNode& n, int i) { return i == 0 ? FrameHandle<T>(G->sc->root) : *n.f; }
template <class F> void with_handle(MAsset& x, F f)
{
    switch (x.kind) {
    case GEOM: f(*x.g); break;
    case PRIM: f(*x.p); break;
    case LIGHT: f(*x.l); break;
    case UNRES: f(*x.u); break;
    case CAM: f(*x.c); break;
    default: f(*x.m);
    }
}
template <class F> void with_node(MNode& n, F f)
{
    if (n.frame)
        f(*n.f);
    else
        f(*n.i);
}
uint64_t look_up(int kind, const std::string& name) // id
{
    switch (kind) {
    case GEOM: return G->sc->get_geometry(name).id();
    case PRIM: return G->sc->get_primitive(name).id();
    case LIGHT: return G->sc->get_light(name).id();
    case UNRES: return G->sc->get_unresolved_object(name).id();
    case CAM: return G->sc->get_camera_model(name).id();
    default: return G->sc->get_model(name).id();
    }
}
// what is known about an asset just made
void made(int kind, MAsset& x, const std::string& wanted)
{
    x.kind = kind;
    with_handle(x, [&](auto& h) {
        require(h.valid(), "handle", std::string("the handle of a new ") + KIND[kind] + " is not valid");
        x.name = h.name();
        x.raw = h.get().get();
    });
    bool taken = false;
    for (auto& o : G->m.a)
        if (o.alive && o.kind == kind) {
            require(o.name != x.name, "name-clash", std::string("a new ") + KIND[kind] + " is named " + x.name + ", as another one is");
            taken |= o.name == wanted;
        }
    require(!x.name.empty(), "name-lost", std::string("a new ") + KIND[kind] + " has no name");
    if (!wanted.empty() && !taken)
        require(x.name == wanted, "name-lost", std::string("a new ") + KIND[kind] + " was to be " + wanted + " and is " + x.name + " though the name was free");
    G->seen[kind].insert(x.name);
    if (!wanted.empty())
        G->seen[kind].insert(wanted);
}

// ---- checks of the whole scene: empty if it matches the model --------------------------------
std::string check_names(Model& m)
{
    for (int k = 0; k < NKIND; ++k) {
        std::map<std::string, MAsset*> by;
        for (auto& x : m.a)
            if (x.kind == k && x.alive)
                by[x.name] = &x;
        for (auto& s : G->seen[k]) {
            uint64_t id = 0;
            std::string e = outcome([&] { id = look_up(k, s); });
            auto it = by.find(s);
            if (it == by.end()) {
                if (e.empty())
                    return fmt("name-stale|a %s is found as '%s', a name nobody has (its id is %llu)", KIND[k], s.c_str(), (unsigned long long)id);
            } else {
                if (!e.empty())
                    return fmt("name-lost|the %s '%s' is not found by its name: %s", KIND[k], s.c_str(), e.c_str());
                uint64_t own = 0;
                std::string e2 = outcome([&] { with_handle(*it->second, [&](auto& h) { own = h.id(); }); });
                if (!e2.empty())
                    return fmt("handle|the handle of the live %s '%s' does not work: %s", KIND[k], s.c_str(), e2.c_str());
                if (own != id)
                    return fmt("name-wrong|the name '%s' leads to another %s", s.c_str(), KIND[k]);
            }
        }
    }
    for (auto& x : m.a) {
        std::string bad;
        with_handle(x, [&](auto& h) {
            if (h.valid() != x.alive)
                bad = fmt("handle|the handle of a %s %s '%s' says valid=%d", x.alive ? "live" : "deleted", KIND[x.kind], x.name.c_str(), (int)h.valid());
            std::string n, e = outcome([&] { n = h.name(); });
            if (x.alive && (!e.empty() || n != x.name))
                bad = fmt("name-lost|the %s '%s' is now named '%s' %s", KIND[x.kind], x.name.c_str(), n.c_str(), e.c_str());
            if (!x.alive && e.empty())
                bad = fmt("handle|the handle of the deleted %s '%s' can still be used", KIND[x.kind], x.name.c_str());
        });
        if (!bad.empty())
            return bad;
    }
    return "";
}
bool close(V3 a, V3 b, double tol) { return len(a - b) <= tol; }
V3 vec(const Vec3<double>& v) { return {v.x, v.y, v.z}; }
std::string check_nodes(Model& m)
{
    for (size_t i = 1; i < m.n.size(); ++i) {
        MNode& n = m.n[i];
        std::string bad;
        with_node(n, [&](auto& h) {
            if (h.valid() != n.alive) {
                bad = fmt("handle|the handle of a %s %s (node %zu) says valid=%d", n.alive ? "live" : "deleted", n.frame ? "frame" : "instance", i, (int)h.valid());
                return;
            }
            if (!n.alive) {
                if (outcome([&] { h.set_scale(2.0); }).empty())
                    bad = fmt("handle|the handle of the deleted node %zu can still be used", i);
                return;
            }
            V3 p, v, w, s;
            M3 q;
            std::string o, f;
            std::string ep = outcome([&] { p = vec(h.get_static_position()); }), ev = outcome([&] { v = vec(h.get_static_velocity()); }),
                        er = outcome([&] { auto mm = h.get_static_rotation().local_to_parent_matrix(); for (int k = 0; k < 3; ++k) q.c[k] = {mm[k][0], mm[k][1], mm[k][2]}; }),
                        ew = outcome([&] { w = vec(h.get_static_angular_velocity()); }), eo = outcome([&] { o = h.get_spice_origin(); }),
                        ef = outcome([&] { f = h.get_spice_frame(); });
            s = vec(h.get_static_scale());
            bool mp = n.pm == P_MANUAL, mr = n.rm == R_MANUAL;
            if (ep.empty() != mp || ev.empty() != mp || er.empty() != mr || ew.empty() != mr || eo.empty() != (n.pm == P_SPICE) || ef.empty() != (n.rm == R_SPICE))
                bad = fmt("pose|node %zu (position mode %d, rotation mode %d) answers position:%d velocity:%d rotation:%d rate:%d origin:%d frame:%d", i, n.pm, n.rm, ep.empty(), ev.empty(), er.empty(),
                          ew.empty(), eo.empty(), ef.empty());
            else if ((mp && (!close(p, n.pos, 1e-9 * (1 + len(n.pos))) || !close(v, n.vel, 1e-9 * (1 + len(n.vel))))) || (mr && !close(w, n.w, 1e-9 * (1 + len(n.w)))) || !close(s, n.s, 1e-12 * len(n.s)))
                bad = fmt("pose|node %zu: position, velocity, rate or scale are not what was set", i);
            else if (mr && (!close(q.c[0], n.q.c[0], 1e-6) || !close(q.c[1], n.q.c[1], 1e-6) || !close(q.c[2], n.q.c[2], 1e-6)))
                bad = fmt("pose|node %zu: the rotation is not what was set", i);
            else if (o != (n.pm == P_SPICE ? n.origin : "") || f != (n.rm == R_SPICE ? n.spice_frame : ""))
                bad = fmt("pose|node %zu: the SPICE names are '%s' and '%s'", i, o.c_str(), f.c_str());
            if (bad.empty()) {
                uint64_t pid = 0, want = 0;
                std::string e = outcome([&] {
                    pid = h.get_parent().id();
                    want = frame_of(m.n[(size_t)n.parent], n.parent).id();
                });
                if (!e.empty() || pid != want)
                    bad = fmt("pose|node %zu has the wrong parent %s", i, e.c_str());
            }
        });
        if (!bad.empty())
            return bad;
    }
    return "";
}
M3 sensor_of(const Model& m, int cam_node)
{
    auto mm = m.a[(size_t)m.n[(size_t)cam_node].asset].c->get()->sensor_rotation().local_to_parent_matrix();
    M3 r;
    for (int k = 0; k < 3; ++k)
        r.c[k] = {mm[k][0], mm[k][1], mm[k][2]};
    return r;
}
SceneView<T>* make_view(Model& m, const ViewSpec& v)
{
    return new SceneView<T>(*G->sc, Interval(Time::from_et(v.t0), Time::from_et(v.t0 + v.dt)), *m.n[(size_t)v.cam].i, (ObservationMode)v.mode, (size_t)v.samples);
}
V3 vecf(const Vec3<float>& v) { return {v.x, v.y, v.z}; }
std::string pose_differs(const Transform<float>& x, const St& e)
{
    V3 p = vecf(x.position);
    double tp = 2e-3 + 1e-6 * len(e.p) + e.moved;
    if (!close(p, e.p, tp))
        return fmt("is at (%.6g %.6g %.6g) instead of (%.6g %.6g %.6g)", p.x, p.y, p.z, e.p.x, e.p.y, e.p.z);
    for (int k = 0; k < 3; ++k) {
        Vec3<float> u{0.f};
        u[k] = 1.f;
        V3 a = vecf(x.apply_to_direction(u)), b = e.r.c[k] * (k == 0 ? e.s.x : k == 1 ? e.s.y : e.s.z);
        if (!close(a, b, (5e-5 + e.turned) * std::max({e.s.x, e.s.y, e.s.z})))
            return fmt("has its axis %d at (%.6g %.6g %.6g) instead of (%.6g %.6g %.6g)", k, a.x, a.y, a.z, b.x, b.y, b.z);
    }
    return "";
}
// matches what a view holds of one asset with what it should hold
std::string match(const char* what, const std::string& name, std::vector<std::vector<Transform<float>>> got, const std::vector<Seen>& all, int asset)
{
    std::vector<const Seen*> want;
    for (auto& s : all)
        if (s.asset == asset)
            want.push_back(&s);
    for (auto& q : got)
        for (auto* w : want)
            if (q.size() != w->at.size())
                return fmt("view|%s '%s' has %zu samples instead of %zu", what, name.c_str(), q.size(), w->at.size());
    // things may lie closer together than single precision tells apart, so this is an assignment, not a lookup
    std::vector<std::vector<int>> fits(want.size());
    for (size_t i = 0; i < want.size(); ++i)
        for (size_t k = 0; k < got.size(); ++k) {
            bool ok = true;
            for (size_t j = 0; j < got[k].size() && ok; ++j)
                ok = pose_differs(got[k][j], want[i]->at[j]).empty();
            if (ok)
                fits[i].push_back((int)k);
        }
    std::vector<int> owner(got.size(), -1);
    std::function<bool(int, std::vector<char>&)> place = [&](int i, std::vector<char>& tried) {
        for (int k : fits[(size_t)i]) {
            if (tried[(size_t)k])
                continue;
            tried[(size_t)k] = 1;
            if (owner[(size_t)k] < 0 || place(owner[(size_t)k], tried)) {
                owner[(size_t)k] = i;
                return true;
            }
        }
        return false;
    };
    for (size_t i = 0; i < want.size(); ++i) {
        std::vector<char> tried(got.size());
        if (place((int)i, tried))
            continue;
        std::string first;
        for (size_t k = 0; k < got.size() && first.empty(); ++k)
            for (size_t j = 0; j < got[k].size() && first.empty() && owner[k] < 0; ++j) {
                first = pose_differs(got[k][j], want[i]->at[j]);
                if (!first.empty())
                    first += fmt(" at sample %zu", j);
            }
        return fmt("view|an instance of %s '%s' is missing or misplaced%s%s", what, name.c_str(), first.empty() ? "" : ": one ", first.c_str());
    }
    if (got.size() > want.size())
        return fmt("view|the view has %zu more instances of %s '%s' than the scene", got.size() - want.size(), what, name.c_str());
    return "";
}
std::string check_view(Model& m, const ViewSpec& vs, const Expect& e, SceneView<T>& v)
{
    TestRenderer r;
    auto prims = r.get_primitives(v);
    auto lights = r.get_lights(v);
    std::set<const void*> known;
    for (size_t i = 0; i < m.a.size(); ++i) {
        MAsset& x = m.a[i];
        if (x.kind != PRIM && x.kind != LIGHT)
            continue;
        if (!x.alive)
            continue;
        known.insert(x.raw);
        std::vector<std::vector<Transform<float>>> got;
        if (x.kind == PRIM) {
            int batches = 0;
            for (auto& b : prims)
                if (b.primitive.get() == x.raw) {
                    got = b.instances;
                    ++batches;
                }
            if (batches > 1)
                return "view|primitive '" + x.name + "' is in several batches";
        } else
            for (auto& l : lights)
                if (l.light.get() == x.raw)
                    got.push_back(l.transforms);
        std::string w = match(KIND[x.kind], x.name, got, x.kind == PRIM ? e.prims : e.lights, (int)i);
        if (!w.empty())
            return w + " (" + vs.text() + ")";
    }
    for (auto& b : prims)
        if (!known.count(b.primitive.get()))
            return "view|a primitive is in the view that is not in the scene (" + vs.text() + ")";
    for (auto& l : lights)
        if (!known.count(l.light.get()))
            return "view|a light is in the view that is not in the scene (" + vs.text() + ")";
    return "";
}
double focal_px(const CameraModel<T>& c) // at the start: see start()
{
    return c.focal_length().to_si() / 10e-6;
}
// how much the normals of a posed shape may differ where its surface is known to some tolerance
double normal_tolerance(const Shape& s, const St& a, double tol)
{
    double lo = std::min({a.s.x, a.s.y, a.s.z}), hi = std::max({a.s.x, a.s.y, a.s.z});
    if (!(lo > 0))
        return 1;
    if (!s.ellipsoid)
        return 1e-3;
    double d0 = std::min({s.dims.x * a.s.x, s.dims.y * a.s.y, s.dims.z * a.s.z}), d1 = std::max({s.dims.x * a.s.x, s.dims.y * a.s.y, s.dims.z * a.s.z});
    return 5e-3 * (d1 / d0) + 0.01 * hi / lo + 4 * tol * d1 / (d0 * d0);
}
std::string check_rays(Model& m, const ViewSpec& vs, const Expect& e, SceneView<T>& v, Rnd& g, OldView* keep)
{
    std::vector<const Seen*> all;
    for (auto* l : {&e.prims, &e.lights})
        for (auto& s : *l)
            all.push_back(&s);
    if (all.empty())
        return "";
    for (int i = 0; i < G->rays; ++i) {
        size_t k = g.below((uint64_t)vs.samples);
        float time = vs.samples > 1 ? (float)k / (float)(vs.samples - 1) : 0.f;
        const Seen& s = *all[g.below(all.size())];
        auto shape_of = [&](const Seen& q) {
            const MAsset& x = m.a[(size_t)q.asset];
            if (x.kind == PRIM)
                return m.a[(size_t)x.geom].shape;
            Shape b;
            b.ellipsoid = true;
            b.dims = {x.radius, x.radius, x.radius};
            return b;
        };
        Shape sh = shape_of(s);
        const St& a = s.at[k];
        double size = sh.size() * std::max({a.s.x, a.s.y, a.s.z});
        V3 o = g.coin(0.3) ? V3{} : a.p + g.axis() * (size * g.u(1.5, 8)), d = unit(a.p + g.v(size * 0.5) - o);
        if (len(a.p) > 2e3 || len(o - a.p) < 1e-3 || !(size > 0.02))
            continue;
        Ray<T> ray(Vec3<float>{(float)o.x, (float)o.y, (float)o.z}, Vec3<float>{(float)d.x, (float)d.y, (float)d.z});
        HitRecord h = v.intersect(ray, time);
        if (keep) {
            keep->rays.push_back(ray);
            keep->times.push_back(time);
            keep->hits.push_back(h);
        }
        Hit x;
        double second = 1e300; // where the next thing is hit
        const Seen* hit = nullptr;
        double tol = 2e-3;
        for (auto* q : all) {
            Shape b = shape_of(*q);
            double sz = b.size() * std::max({q->at[k].s.x, q->at[k].s.y, q->at[k].s.z});
            // far or tiny things are beyond single precision: unsure when near the line
            V3 c = q->at[k].p - o;
            double off = len(c - d * dot(c, d));
            if (off > sz * 2 + 1e-4 * len(q->at[k].p) + 0.05)
                continue;
            if (sz < 0.02 || len(q->at[k].p) > 2e3)
                x.unsure = true;
            Hit y;
            hit_shape(b, q->at[k], o, d, y);
            x.unsure |= y.unsure;
            if (y.t > 0) {
                second = std::min(second, x.t > 0 ? std::max(x.t, y.t) : second);
                if (x.t < 0 || y.t < x.t)
                    y.unsure = x.unsure, x = y, hit = q;
            }
            double dist = len(c); // single precision, and a difference of squares for ellipsoids
            tol = std::max(tol, 1e-3 * sz + 1e-5 * len(q->at[k].p) + 1e-6 * dist * dist / sz + q->at[k].moved + q->at[k].turned * sz);
            if (q->at[k].moved + q->at[k].turned * sz > 5e-3 * sz)
                x.unsure = true;
        }
        if (x.unsure) {
            sim::probe("ray.unsure");
            continue;
        }
        sim::probe(x.t >= 0 ? "ray.hit" : "ray.miss");
        bool got = h.hit();
        if (got != (x.t >= 0))
            return fmt("view|a ray (%.4g %.4g %.4g)+(%.4g %.4g %.4g) at sample %zu %s (", o.x, o.y, o.z, d.x, d.y, d.z, k,
                       got ? "hits something where there is nothing" : "misses what is in its way") + vs.text() + ")";
        if (got && std::fabs(h.t - x.t) > tol * 4)
            return fmt("view|a ray (%.4g %.4g %.4g)+(%.4g %.4g %.4g) at sample %zu hits at %.6g instead of %.6g (", o.x, o.y, o.z, d.x, d.y, d.z, k, (double)h.t, x.t) + vs.text() + ")";
        if (!got || m.a[(size_t)hit->asset].kind != PRIM || second - x.t < tol * 8)
            continue;
        // what is said about the place that was hit
        Interaction<T> is = v.resolve_hit(ray, h, time);
        auto v3 = [](const Vec3<float>& q) { return V3{q.x, q.y, q.z}; };
        auto said = [&](const char* what, V3 a, V3 b) {
            return fmt("surface|a ray (%.4g %.4g %.4g)+(%.4g %.4g %.4g) at sample %zu hits asset %d, where the %s is (%.5g %.5g %.5g) instead of (%.5g %.5g %.5g) (", o.x, o.y, o.z, d.x, d.y, d.z, k, hit->asset, what,
                       a.x, a.y, a.z, b.x, b.y, b.z) + vs.text() + ")";
        };
        V3 nn = dot(x.n, d) < 0 ? x.n : x.n * -1;
        double ntol = normal_tolerance(shape_of(*hit), hit->at[k], tol);
        if (!(len(v3(is.position) - (o + d * x.t)) <= tol * 8))
            return said("position", v3(is.position), o + d * x.t);
        if (!(len(v3(is.wo) + d) < 1e-5))
            return said("outgoing direction", v3(is.wo), d * -1);
        if (ntol < 0.5 && !(len(v3(is.normal_g) - nn) <= ntol))
            return said("normal", v3(is.normal_g), nn);
        if (ntol < 0.5 && (x.tri < 0 || shape_of(*hit).flat) && !(len(v3(is.normal_s) - nn) <= ntol))
            return said("shading normal", v3(is.normal_s), nn);
        sim::probe("ray.surface");
    }
    return "";
}
// Compares what a frame says about the nearest surfaces with the model, pixel by pixel
std::string check_surfaces(Model& m, const ViewSpec& vs, const Expect& e, SceneView<T>& v, int bounces)
{
    MAsset& ca = m.a[(size_t)m.n[(size_t)vs.cam].asset];
    if (!ca.alive || vs.samples != 1)
        return "";
    auto cam = ca.c->get();
    const int W = cam->resolution().x, H = cam->resolution().y;
    const double fx = focal_px(*cam);
    St obs = ssb(m, vs.cam, sample_times(vs)[0], sample_times(vs)[0]);
    obs.r = obs.r * sensor_of(m, vs.cam);
    struct Thing {
        const Seen* s;
        Shape sh;
        double size, tol;
    };
    std::vector<Thing> things, ghosts; // what can be seen, and what rays go through
    for (auto* l : {&e.prims, &e.lights})
        for (auto& s : *l) {
            const MAsset& x = m.a[(size_t)s.asset];
            Shape b;
            if (x.kind == PRIM)
                b = m.a[(size_t)x.geom].shape;
            else
                b.ellipsoid = true, b.dims = {x.radius, x.radius, x.radius};
            const St& a = s.at[0];
            double sz = b.size() * std::max({a.s.x, a.s.y, a.s.z});
            if (sz > 0)
                (x.clear ? ghosts : things).push_back({&s, b, sz, 2e-3 + 1e-3 * sz + 1e-5 * len(a.p) + 1e-6 * dot(a.p, a.p) / sz + a.moved + a.turned * sz});
        }
    FrameBuffer<T> fb = ca.c->make_frame_buffer();
    enable(fb, C_DEPTH | C_IDS | C_CAMN | C_WORLDN | C_ALBEDO | C_POWER);
    TestRenderer r;
    RenderSpec rs;
    rs.spp = 1;
    const bool lit = G->light && e.points.empty() && m.stars.empty();
    rs.bounces = lit && bounces > 1 ? bounces : 1;
    configure(r, rs);
    std::string err = outcome([&] { r.render(v, fb); });
    if (!err.empty())
        return "surface|the view cannot be rendered: " + err;
    auto v3 = [](const Vec3<float>& q) { return V3{q.x, q.y, q.z}; };
    for (int y = 0; y < H; ++y)
        for (int x = 0; x < W; ++x) {
            auto dir = [&](double sx, double sy) { return unit(V3{(x + sx - W * .5) / fx, (y + sy - H * .5) / fx, 1}); };
            V3 c = dir(.5, .5);
            double half = 0, t0 = 1e300, t1 = 0, plane = 0;
            const Thing* on = nullptr;
            int tri = -1;
            bool unsure = false, missed = false;
            V3 nc;
            std::vector<V3> ns, ps;
            for (double sx : {.5, 0., 1.})
                for (double sy : {.5, 0., 1.}) {
                    V3 d = dir(sx, sy);
                    half = std::max(half, std::acos(std::min(1., dot(c, d))));
                    Hit best;
                    const Thing* who = nullptr;
                    for (auto& t : things) {
                        const St& a = t.s->at[0];
                        double along = dot(a.p, d), off = len(a.p - d * along);
                        if (off > t.size * 2 + 1e-4 * len(a.p) + 0.05)
                            continue;
                        if (t.size < 0.02 || len(a.p) > 2e3 || len(a.p) < 1.2 * t.size || a.moved + a.turned * t.size > 5e-3 * t.size)
                            best.unsure = true;
                        double before = best.t;
                        hit_shape(t.sh, a, V3{}, d, best);
                        if (best.t != before)
                            who = &t;
                    }
                    unsure |= best.unsure;
                    if (best.t < 0)
                        missed = true;
                    else {
                        if (on && (who != on || best.tri != tri))
                            unsure = true;
                        on = who, tri = best.tri;
                        t0 = std::min(t0, best.t), t1 = std::max(t1, best.t);
                        V3 n = dot(best.n, d) < 0 ? best.n : best.n * -1;
                        ns.push_back(n);
                        ps.push_back(d * best.t);
                        if (ns.size() == 1)
                            nc = n, plane = dot(n, d) * best.t;
                    }
                }
            // (a surface that coincides with one that is gone through may be gone through as well)
            if (on)
                for (auto& t : ghosts)
                    unsure |= len(t.s->at[0].p - on->s->at[0].p) < t.tol + on->tol && std::fabs(t.size - on->size) < t.tol + on->tol;
            if (unsure || (on && missed))
                continue;
            // whatever else may be in the way of a part of the pixel
            auto blocks = [&](V3 p, double rad) {
                double l = len(p);
                if (on && l - rad > t1 + on->tol * 4)
                    return false;
                return l <= rad * 1.1 || std::acos(std::clamp(dot(p, c) / l, -1., 1.)) < half * 1.1 + std::asin(rad / l) * 1.1 + 1e-3;
            };
            for (auto& t : things) {
                const St& a = t.s->at[0];
                if (&t != on && blocks(a.p, t.size * 1.01))
                    unsure = true;
                if (&t == on && !t.sh.ellipsoid)
                    for (size_t i = 0; i + 2 < t.sh.ix.size(); i += 3)
                        if ((int)i != tri) {
                            V3 q[3], mid{};
                            for (size_t j = 0; j < 3; ++j)
                                q[j] = a.p + a.r * had(t.sh.vert[t.sh.ix[i + j]], a.s), mid = mid + q[j] * (1. / 3);
                            double rad = std::max({len(q[0] - mid), len(q[1] - mid), len(q[2] - mid)});
                            // (a triangle behind the plane of the one that is hit cannot be in its way)
                            bool behind = true;
                            for (auto& z : q)
                                behind &= dot(nc, z) - plane < 1e-6 * on->size;
                            if (!behind && blocks(mid, rad))
                                unsure = true;
                        }
            }
            if (unsure)
                continue;
            auto bad = [&](const std::string& what) { return fmt("surface|pixel (%d,%d) ", x, y) + what + " (" + vs.text() + ")"; };
            double depth = fb.depth()(x, y);
            bool none = !on || m.a[(size_t)on->s->asset].kind != PRIM; // lights leave these channels alone
            if (on && !on->sh.ellipsoid && !on->sh.flat)
                continue; // comes from a model, and may be transparent
            sim::probe(none ? "surface.none" : "surface.sure");
            auto shines = [&](const char* what, T lo, T hi) { // the radiance that comes from there
                if (!lit || !(cam->pixel_radiance_to_power(x, y) > 0))
                    return std::string();
                sim::probe(("light." + std::string(what)).c_str());
                T got = fb.received_power()(x, y);
                const double k = cam->pixel_radiance_to_power(x, y);
                for (size_t i = 0; i < T::size(); ++i)
                    if (!(got[i] / k >= lo[i] * 0.999 - 1e-30 && (rs.bounces > 1 || got[i] / k <= hi[i] * 1.001 + 1e-30)))
                        return fmt("light|pixel (%d,%d), %s, shines with %.6g in band %zu, expected %.6g to %.6g, with %d bounces (", x, y, what, got[i] / k, i, (double)lo[i], (double)hi[i], rs.bounces) + vs.text() + ")";
                return std::string();
            };
            if (none) {
                T w = on ? m.a[(size_t)on->s->asset].radiance : m.background;
                if (!on || on->size < 1e8) // (the Sun has a spectrum of its own)
                    if (std::string z = shines(on ? "on a light" : "background", w, w); !z.empty())
                        return z;
                if (!std::isinf(depth))
                    return bad(fmt("has the depth %.6g though there is nothing", depth));
                if (fb.geometry_ids()(x, y) != std::numeric_limits<uint64_t>::max())
                    return bad("has the id of a geometry though there is nothing");
                continue;
            }
            if (fb.geometry_ids()(x, y) == std::numeric_limits<uint64_t>::max())
                return bad("has no geometry id");
            if (!(depth >= t0 - (t1 - t0) - on->tol * 4 && depth <= t1 + (t1 - t0) + on->tol * 4))
                return bad(fmt("has the depth %.6g, expected %.6g to %.6g", depth, t0, t1));
            double spread = 0, ntol = normal_tolerance(on->sh, on->s->at[0], on->tol);
            for (auto& n : ns)
                spread = std::max(spread, len(n - nc));
            V3 cn = v3(fb.camera_normals()(x, y)), wn = v3(fb.world_normals()(x, y));
            if (ntol < 0.5 && !(len(cn - nc) <= spread * 1.5 + ntol))
                return bad(fmt("has the normal (%.4g %.4g %.4g) instead of (%.4g %.4g %.4g)", cn.x, cn.y, cn.z, nc.x, nc.y, nc.z));
            V3 ww = obs.r * cn;
            if (!(len(wn - ww) < 1e-3 + 1e-5 * len(obs.w)))
                return bad(fmt("has the world normal (%.4g %.4g %.4g) instead of (%.4g %.4g %.4g)", wn.x, wn.y, wn.z, ww.x, ww.y, ww.z));
            if (!lit)
                continue;
            if (m.a[(size_t)on->s->asset].null) {
                // a lamp that is seen through it
                const Thing* lamp = nullptr;
                bool other = rs.bounces < 4 || !on->sh.ellipsoid; // (two borders and the lamp)
                for (double sx : {.5, 0., 1.})
                    for (double sy : {.5, 0., 1.}) {
                        V3 d = dir(sx, sy);
                        Hit best;
                        const Thing* who = nullptr;
                        for (auto& t : things)
                            if (&t != on) {
                                Hit h;
                                hit_shape(t.sh, t.s->at[0], V3{}, d, h);
                                other |= h.unsure || (h.t > 0 && m.a[(size_t)t.s->asset].null);
                                if (h.t > 0 && (best.t < 0 || h.t < best.t))
                                    best = h, who = &t;
                            }
                        other |= !who || who->size > 1e8 || m.a[(size_t)who->s->asset].kind == PRIM || (lamp && who != lamp) || best.t < depth + 4 * on->size;
                        lamp = who;
                    }
                for (auto& t : things)
                    if (!other && &t != on && &t != lamp) {
                        const double l = len(t.s->at[0].p), rad = t.size * 1.01;
                        if (l - rad < len(lamp->s->at[0].p) && (l <= rad * 1.1 || std::acos(std::clamp(dot(t.s->at[0].p, c) / l, -1., 1.)) < half * 1.1 + std::asin(rad / l) * 1.1 + 1e-3))
                            other = true;
                    }
                if (!other) {
                    T w = m.a[(size_t)lamp->s->asset].radiance;
                    if (std::string z = shines("on a light behind a border", w, w); !z.empty())
                        return z;
                }
                continue;
            }
            // the light of each lamp, at least and at most
            T dark = m.a[(size_t)on->s->asset].albedo, bright = dark;
            if (tri >= 0) { // vertices have colours
                auto c = [&](size_t k, size_t i) { return on->sh.colour[on->sh.ix[(size_t)tri + k]][i]; };
                for (size_t i = 0; i < T::size(); ++i)
                    dark[i] *= std::min({c(0, i), c(1, i), c(2, i)}), bright[i] *= std::max({c(0, i), c(1, i), c(2, i)});
            }
            {
                T al = fb.albedo()(x, y);
                for (size_t i = 0; i < T::size(); ++i)
                    if (!(al[i] >= dark[i] - 1e-5 && al[i] <= bright[i] + 1e-5))
                        return bad(fmt("has the albedo %.6g instead of %.6g to %.6g in band %zu", (double)al[i], (double)dark[i], (double)bright[i], i));
            }
            T lo{0}, hi{0};
            double foot = 0;
            for (auto& p : ps)
                foot = std::max(foot, len(p - ps[0]));
            foot = foot * 1.5 + on->tol;
            int nlit = 0, nshadow = 0, ndark = 0;
            for (auto& l : e.lights) {
                const MAsset& la = m.a[(size_t)l.asset];
                const St& ls = l.at[0];
                const double R = la.radius, ltol = 1e-5 * len(ls.p) + ls.moved;
                if (R > 1e8 || std::fabs(ls.s.x - 1) > 1e-6 || std::fabs(ls.s.y - 1) > 1e-6 || std::fabs(ls.s.z - 1) > 1e-6) {
                    sim::probe("unsure.scale");
                    unsure = true;
                    break;
                }
                double a0 = 1e300, a1 = 0;
                bool below = true, above = true, odd = false;
                for (size_t i = 0; i < ps.size(); ++i) {
                    V3 w = ls.p - ps[i];
                    double dd = len(w), err = on->tol + ltol;
                    if (dd < R * 1.1 + err * 4) {
                        odd = true;
                        break;
                    }
                    double al = std::asin(R / dd), th = std::acos(std::clamp(dot(w, ns[i]) / dd, -1., 1.)), mg = 0.01 + ntol + err / dd;
                    below &= th - al > M_PI / 2 + mg;
                    above &= th + al < M_PI / 2 - mg;
                    odd |= err / dd > 0.03 || al > 0.12 || ntol > 0.3;
                    double om = 2 * M_PI * (2 * std::sin(al / 2) * std::sin(al / 2)), rel = 1 + 3 * err / dd;
                    a0 = std::min(a0, om / rel * (std::cos(std::min(th + al, M_PI / 2)) - ntol - err / dd));
                    a1 = std::max(a1, om * rel * (std::cos(std::max(0., th - al)) + ntol + err / dd));
                }
                if (below && !odd) {
                    ++ndark;
                    continue;
                }
                if (!above || odd) {
                    sim::probe(odd ? "unsure.odd" : "unsure.side");
                    unsure = true;
                    break;
                }
                // what is between
                bool clear = true, blocked = false;
                V3 w = ls.p - ps[0];
                const double dd = len(w), cap = std::max(foot, R);
                V3 wd = w * (1 / dd), e1 = unit(cross(wd, std::fabs(wd.x) < 0.7 ? V3{1, 0, 0} : V3{0, 1, 0})), e2 = cross(wd, e1);
                auto apart = [&](V3 c, double rad) {
                    double t = std::clamp(dot(c - ps[0], wd), 0., dd);
                    return len(c - (ps[0] + wd * t)) > rad + cap + 2 * ltol;
                };
                for (auto& t : things) {
                    const St& a = t.s->at[0];
                    if (m.a[(size_t)t.s->asset].kind != PRIM || m.a[(size_t)t.s->asset].null)
                        continue;
                    if (&t == on) {
                        if (!t.sh.ellipsoid)
                            for (size_t i = 0; i + 2 < t.sh.ix.size(); i += 3)
                                if ((int)i != tri) {
                                    V3 q[3], mid{};
                                    for (size_t j = 0; j < 3; ++j)
                                        q[j] = a.p + a.r * had(t.sh.vert[t.sh.ix[i + j]], a.s), mid = mid + q[j] * (1. / 3);
                                    bool behind = true;
                                    for (auto& z : q)
                                        behind &= dot(nc, z) - plane < 1e-6 * on->size;
                                    if (!behind && !apart(mid, std::max({len(q[0] - mid), len(q[1] - mid), len(q[2] - mid)})))
                                        clear = false;
                                }
                        continue;
                    }
                    if (apart(a.p, t.size * 1.01 + t.tol))
                        continue;
                    clear = false;
                    if ((!t.sh.ellipsoid && !t.sh.flat) || t.size < 0.02)
                        continue;
                    bool all = true;
                    int tr0 = -2;
                    for (auto& p : ps)
                        for (V3 to : {ls.p, ls.p + e1 * (R * 1.1), ls.p - e1 * (R * 1.1), ls.p + e2 * (R * 1.1), ls.p - e2 * (R * 1.1)}) {
                            Hit h;
                            V3 z = to - p;
                            hit_shape(t.sh, a, p, unit(z), h);
                            all &= !h.unsure && h.t > 4 * (t.tol + on->tol) && h.t < len(z) - R - 4 * t.tol && (tr0 == -2 || tr0 == h.tri);
                            tr0 = h.tri;
                        }
                    // on the border of something that lets light through, it may be missed with the border
                    for (auto* l : {&things, &ghosts})
                        for (auto& b : *l)
                            if ((l == &ghosts || m.a[(size_t)b.s->asset].null) && len(b.s->at[0].p - a.p) < (b.size + t.size) * 1.01 + b.tol + t.tol)
                                all = false;
                    blocked |= all;
                }
                if (blocked) {
                    ++nshadow;
                    continue;
                }
                if (!clear) {
                    sim::probe("unsure.way");
                    unsure = true;
                    break;
                }
                ++nlit;
                double sp = (a1 - a0) * 0.25; // between the points that were looked at
                for (size_t i = 0; i < T::size(); ++i) {
                    lo[i] += (float)(dark[i] / M_PI * la.radiance[i] * std::max(0., a0 - sp) * 0.9995);
                    hi[i] += (float)(bright[i] / M_PI * la.radiance[i] * (a1 + sp));
                }
            }
            if (unsure) {
                sim::probe("light.unsure");
                continue;
            }
            if (std::string z = shines(nlit > 1 ? "in many lights" : nlit ? nshadow ? "partly in a shadow" : "in a light" : nshadow ? "in a shadow" : ndark ? "turned away" : "without lights", lo, hi); !z.empty())
                return z;
        }
    return "";
}
// what an old view shows must not change
void check_old()
{
    for (auto& o : G->old) {
        for (size_t i = 0; i < o.rays.size(); ++i) {
            HitRecord h = o.v->intersect(o.rays[i], o.times[i]);
            require(h.hit() == o.hits[i].hit() && (!h.hit() || (h.t == o.hits[i].t && h.inst_id == o.hits[i].inst_id && h.prim_id == o.hits[i].prim_id)), "old-view",
                    "a view made earlier answers a ray differently after later edits (" + o.text + ")");
            if (h.hit())
                sim::probe("old.hit");
        }
        if (o.frame) {
            TestRenderer r;
            RenderSpec rs;
            rs.spp = 1;
            configure(r, rs);
            std::string e = outcome([&] { r.render(*o.v, *o.fb); });
            require(e.empty(), "old-view", "a view made earlier no longer renders: " + e);
            std::string d = differs(*o.frame, capture(*o.fb));
            require(d.empty(), "old-view", "a view made earlier renders differently after later edits: " + d);
            sim::probe("old.render");
        }
    }
}
std::vector<int> cameras(const Model& m)
{
    std::vector<int> r;
    for (size_t i = 0; i < m.n.size(); ++i)
        if (m.n[i].alive && !m.n[i].frame && m.a[(size_t)m.n[i].asset].kind == CAM)
            r.push_back((int)i);
    return r;
}
std::optional<ViewSpec> gen_view(const Model& m, Rnd& g)
{
    auto cams = cameras(m);
    ViewSpec v;
    const double T0[] = {100, 3000, 6e5, 7e6, 1e8};
    v.t0 = T0[g.below(5)] + g.u(0, 100);
    v.dt = g.coin(0.3) ? 0 : g.coin() ? g.u(0.01, 1) : g.u(1, 20);
    v.samples = g.coin(0.5) ? 1 : (int)g.below(4) + 1;
    if (v.dt == 0)
        v.samples = 1;
    v.mode = (int)g.below(3);
    if (cams.empty())
        return std::nullopt;
    v.cam = cams[g.below(cams.size())];
    return v;
}
// Asks some nodes themselves for their apparent state, in double precision and with its rates
std::string check_apparent(Model& m, const ViewSpec& vs, Rnd& g)
{
    std::vector<double> ts = sample_times(vs);
    for (int i = 0; i < 4; ++i) {
        size_t id = g.below(m.n.size()), k = g.below(ts.size());
        const MNode& n = m.n[id];
        if (!n.alive)
            continue;
        St o, want;
        try {
            o = ssb(m, vs.cam, ts[0], ts[k]);
            want = apparent(m, (int)id, ts[0], ts[k], vs.mode, o);
        } catch (const NoData&) {
            continue;
        }
        Transform<double> obs, got;
        obs.position = {o.p.x, o.p.y, o.p.z};
        obs.velocity = {o.v.x, o.v.y, o.v.z};
        std::string err = outcome([&] {
            std::shared_ptr<Node<T>> q;
            if (id == 0)
                q = G->sc->root.get();
            else if (n.frame)
                q = n.f->get();
            else
                q = n.i->get();
            got = q->get_apparent_transform((ObservationMode)vs.mode, Time::from_et(ts[0]), Time::from_et(ts[k]), obs);
        });
        std::string who = fmt("state|node %zu, seen from node %d at sample %zu (", id, vs.cam, k) + vs.text() + "), ";
        if (!err.empty())
            return who + "fails: " + err;
        auto v3 = [](const Vec3<double>& x) { return V3{x.x, x.y, x.z}; };
        auto off = [&](const char* what, V3 a, V3 b, double tol) {
            return close(a, b, tol) ? std::string() : who + fmt("has its %s at (%.10g %.10g %.10g) instead of (%.10g %.10g %.10g)", what, a.x, a.y, a.z, b.x, b.y, b.z);
        };
        std::string w = off("position", v3(got.position), want.p, 1e-3 + 1e-7 * len(want.p));
        if (w.empty())
            w = off("velocity", v3(got.velocity), want.v, 1e-5 + 1e-7 * len(want.v));
        if (w.empty())
            w = off("angular velocity", v3(got.angular_velocity), want.w, 3e-7 + 5e-6 * len(want.w));
        if (w.empty())
            w = off("scale", v3(got.scale), want.s, 1e-9 * len(want.s));
        auto mm = got.rotation.local_to_parent_matrix();
        for (int c = 0; c < 3 && w.empty(); ++c)
            w = off("axis", V3{mm[c][0], mm[c][1], mm[c][2]}, want.r.c[c], 3e-7 + 5e-6 * len(want.w));
        if (!w.empty())
            return w;
        sim::probe("node.state");
    }
    return "";
}
V3 aberrate(V3 u, V3 v)
{
    V3 b = v * (1 / C);
    double g = 1 / std::sqrt(1 - dot(b, b)), ub = dot(u, b);
    return unit((u + b + b * (g / (1 + g) * ub)) * (1 / (g * (1 + ub))));
}
V3 star_direction(const StarData& s, double et)
{
    double y = et / (365.25 * 86400), mas = M_PI / 180 / 3600 / 1000;
    double d = s.DEC + s.pmDEC * mas * y, a = s.RA + s.pmRA * mas * y / std::cos(d);
    return {std::cos(d) * std::cos(a), std::cos(d) * std::sin(a), std::sin(d)};
}
T scaled(const T& t, double k)
{
    T r{0};
    for (size_t i = 0; i < T::size(); ++i)
        r[i] = (float)((double)t[i] * k);
    return r;
}
// what a point source sends to the camera, if that is certain
std::optional<T> brightness(const Model& m, const Seen& s, const Expect& e)
{
    const MAsset& x = m.a[(size_t)s.asset];
    V3 at = s.at[0].p;
    double d = len(at);
    if (x.ukind == 0)
        return T{(float)x.strength};
    if (d < 0.05)
        return std::nullopt;
    if (x.ukind == 1)
        return scaled(T::from_total((float)x.strength), 1 / (4 * M_PI * d * d));
    const Seen* l = nullptr;
    for (auto& q : e.lights)
        if (q.asset == x.light) {
            if (l)
                return std::nullopt; // which of its instances lights it is not specified
            l = &q;
        }
    if (!l)
        return std::nullopt;
    const MAsset& lamp = m.a[(size_t)x.light];
    V3 to = l->at[0].p - at;
    double r = len(to);
    if (r < 0.05 || r < 4 * lamp.radius || r < 0.01 * d)
        return std::nullopt; // beyond single precision, or inside the lamp
    double alpha = std::acos(std::clamp(dot(to, at) / (-d * r), -1.0, 1.0));
    if (alpha > 3.0 || alpha < 0.05)
        return std::nullopt; // ill-conditioned
    if (x.ukind == 2) {
        T in = lamp.radius > 1e6 ? scaled(black_body<T>(5800, 1000), M_PI * lamp.radius * lamp.radius / (r * r)) : scaled(T::from_total(50.f), 1 / (4 * M_PI * r * r));
        double phase = (std::sin(alpha) + (M_PI - alpha) * std::cos(alpha)) / M_PI;
        // Lambertian of radius 0.5 and albedo 0.5: geometric albedo 2/3 of that
        return scaled(in, 0.5 * 2 / 3 * 0.25 * phase / (d * d));
    }
    const double AU_ = 149597870700.0;
    double t = std::tan(alpha / 2), f1 = std::exp(-3.33 * std::pow(t, 0.64)), f2 = std::exp(-1.87 * std::pow(t, 1.22));
    double mag = x.strength - 2.5 * std::log10(0.85 * f1 + 0.15 * f2) + 5 * std::log10(r / AU_ * (d / AU_));
    return visual_magnitude_to_irradiance<T>(mag, T{0.5f});
}
// Compares stars and unresolved objects of a view with the model, through what they do to the image
std::string check_sky(Model& m, const ViewSpec& vs, const Expect& e, SceneView<T>& v)
{
    MAsset& ca = m.a[(size_t)m.n[(size_t)vs.cam].asset];
    if (!ca.alive)
        return "";
    auto cam = ca.c->get();
    const int W = cam->resolution().x, H = cam->resolution().y;
    M3 sensor = sensor_of(m, vs.cam);
    std::vector<double> ts = sample_times(vs);
    std::vector<St> obs;
    for (double t : ts) {
        obs.push_back(ssb(m, vs.cam, ts[0], t));
        obs.back().r = obs.back().r * sensor;
    }
    std::vector<std::array<double, 3>> want((size_t)(W * H)), slack((size_t)(W * H));
    std::vector<char> unsure((size_t)(W * H));
    double fx = focal_px(*cam);
    bool any = false;
    std::string bad, sources;
    auto project = [&](V3 d) {
        d = unit(d);
        Pixel p = cam->project_point(Vec3<float>{(float)d.x, (float)d.y, (float)d.z});
        double ex = fx * d.x / d.z + W * .5, ey = fx * d.y / d.z + H * .5;
        if (std::fabs(ex) < 1e3 && std::fabs(ey) < 1e3 && (std::fabs(ex - p.x) > 2e-2 || std::fabs(ey - p.y) > 2e-2) && bad.empty())
            bad = fmt("sky|a direction of pixel (%.4f,%.4f) is projected to (%.4f,%.4f)", ex, ey, (double)p.x, (double)p.y);
        return p;
    };
    auto add = [&](const std::vector<V3>& dirs, const std::optional<T>& irr, double err, const char* what) { // err: of the direction
        int in = 0, out = 0;
        double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
        for (auto& d : dirs) {
            if (!(unit(d).z > 0.05)) {
                ++out;
                continue;
            }
            Pixel p = project(d);
            if (p.x < -50 || p.y < -50 || p.x > (float)W + 50 || p.y > (float)H + 50)
                ++out;
            else
                ++in;
            x0 = std::min(x0, (double)p.x), x1 = std::max(x1, (double)p.x), y0 = std::min(y0, (double)p.y), y1 = std::max(y1, (double)p.y);
        }
        double eps = 0.02 + err * fx * 2;
        if (dirs.size() == 1 && (out || x0 < -0.02 - eps || y0 < -0.02 - eps || x0 > W + 0.02 + eps || y0 > H + 0.02 + eps))
            return;
        if (out && dirs.size() > 1) {
            bool apart = in == 0; // all of them on one side, and not far from each other
            V3 a = unit(dirs[0]);
            for (auto& d : dirs)
                apart &= dot(a, unit(d)) > 0.9998;
            double far = 0.03 + 1.5 * std::atan(0.71 * std::max(W, H) / fx);
            apart &= std::acos(std::clamp(a.z, -1.0, 1.0)) > far;
            if (!apart)
                std::fill(unsure.begin(), unsure.end(), 1);
            return;
        }
        int ix = (int)std::floor(x0 + .5), iy = (int)std::floor(y0 + .5);
        bool sure = irr && x0 - eps > ix - .5 && x1 + eps < ix + .5 && y0 - eps > iy - .5 && y1 + eps < iy + .5 && x0 > 0.02 + eps && y0 > 0.02 + eps && x1 < W - 0.52 - eps && y1 < H - 0.52 - eps;
        any = true;
        if (sure) {
            double lo = 1e300, hi = 0; // the brightness changes a little along a trail
            for (auto& q : dirs) {
                V3 d = unit(q);
                double area = cam->get_projected_aperture_area(Vec3<float>{(float)d.x, (float)d.y, (float)d.z});
                lo = std::min(lo, area), hi = std::max(hi, area);
            }
            for (size_t k = 0; k < 3; ++k)
                want[(size_t)(iy * W + ix)][k] += (*irr)[k] * (lo + hi) / 2, slack[(size_t)(iy * W + ix)][k] += (*irr)[k] * (hi - lo + hi * 2e-4);
            sim::probe("sky.sure");
            if (sources.size() < 300)
                sources += fmt(" %s (%.3f,%.3f)", what, x0, y0);
            return;
        }
        sim::probe("sky.unsure");
        for (int y = std::max(0, (int)std::floor(y0 - eps - .6)); y <= std::min((double)H - 1, y1 + eps + .6); ++y)
            for (int x = std::max(0, (int)std::floor(x0 - eps - .6)); x <= std::min((double)W - 1, x1 + eps + .6); ++x)
                unsure[(size_t)(y * W + x)] = 1;
    };
    for (auto& s : m.stars) {
        std::vector<V3> d;
        for (auto& o : obs)
            d.push_back(tr(o.r) * aberrate(unit(s.dir), o.v));
        add(d, s.irr, 0, "star");
    }
    for (auto& p : e.points) {
        std::vector<V3> d;
        double err = 0;
        bool lost = false;
        for (size_t k = 0; k < p.at.size(); ++k) {
            double l = len(p.at[k].p);
            lost |= l < 0.05;
            d.push_back(p.at[k].p);
            err = std::max(err, (1e-5 + 1e-13 * len(obs[k].p) + 5e-6 * len(obs[k].v)) / l + 1e-7);
        }
        if (lost)
            return "";
        static const char* WHAT[] = {"object", "emitter", "sphere", "asteroid"};
        add(d, brightness(m, p, e), err, WHAT[m.a[(size_t)p.asset].ukind]);
    }
    FrameBuffer<T> fb = ca.c->make_frame_buffer();
    enable(fb, C_POWER);
    TestRenderer r;
    RenderSpec rs;
    rs.spp = 1;
    rs.bounces = 0;
    configure(r, rs);
    std::string err = outcome([&] { r.render(v, fb); });
    if (!err.empty())
        return "sky|the view cannot be rendered: " + err;
    if (!bad.empty())
        return bad;
    sim::probe(any ? "sky.seen" : "sky.empty");
    auto& img = fb.received_power();
    for (int y = 0; y < H; ++y)
        for (int x = 0; x < W; ++x)
            for (size_t k = 0; k < 3; ++k) {
                size_t i = (size_t)(y * W + x);
                double got = img(x, y)[k];
                if (!unsure[i] && !(std::fabs(got - want[i][k]) <= slack[i][k] + 1e-30))
                    return fmt("sky|pixel (%d,%d) receives %.8g instead of %.8g in channel %zu from the point sources (", x, y, got, want[i][k], k) + vs.text() + "), expected at" + sources;
            }
    return "";
}
// Compares the scene with the model; empty if they agree. with_view: also what a new view shows.
std::string check_all(Model& m, const ViewSpec* vs, Rnd g, bool keep_old = false)
{
    std::string w = check_names(m);
    if (w.empty())
        w = check_nodes(m);
    if (!w.empty() || !vs || !m.n[(size_t)vs->cam].alive)
        return w;
    Expect e = expected(m, *vs, sensor_of(m, vs->cam));
    std::unique_ptr<SceneView<T>> v;
    std::string err = outcome([&] { v.reset(make_view(m, *vs)); });
    require(!simspice::pending(), "spice-state", "an error is left pending in SPICE after creating a view");
    sim::probe(e.fails ? "view.fails" : "view.ok");
    if (e.fails) {
        if (err.empty())
            return "view|the view succeeds though " + e.why + " (" + vs->text() + ")";
        return "";
    }
    if (!err.empty() && e.may_fail && (err.find("invalid") != std::string::npos || err.find("greater than zero") != std::string::npos)) {
        sim::probe("view.degenerate");
        return "";
    }
    if (!err.empty())
        return "view|the view fails: " + err + " (" + vs->text() + ")";
    sim::probe("view.instances", e.prims.size() + e.lights.size());
    w = check_view(m, *vs, e, *v);
    if (w.empty())
        w = check_apparent(m, *vs, g);
    if (w.empty() && (G->focus || g.coin(G->sky)))
        w = check_sky(m, *vs, e, *v);
    OldView o;
    if (w.empty())
        w = check_rays(m, *vs, e, *v, g, &o);
    if (w.empty() && g.coin(G->surfaces))
    {
        bool border = std::any_of(e.prims.begin(), e.prims.end(), [&](auto& s) { return m.a[(size_t)s.asset].null; });
        w = check_surfaces(m, *vs, e, *v, G->light && g.coin(border ? 0.7 : 0.4) ? (int)g.below(3) * 2 + 2 : 1);
    }
    if (w.empty() && keep_old && G->old.size() < 3) {
        o.v = std::move(v);
        o.text = vs->text();
        if (G->render_old && m.a[(size_t)m.n[(size_t)vs->cam].asset].alive) {
            FrameBuffer<T> f0 = m.a[(size_t)m.n[(size_t)vs->cam].asset].c->make_frame_buffer();
            o.fb = std::make_unique<FrameBuffer<T>>(std::move(f0));
            enable(*o.fb, C_POWER | C_DEPTH);
            TestRenderer r;
            RenderSpec rs;
            rs.spp = 1;
            configure(r, rs);
            std::string er = outcome([&] { r.render(*o.v, *o.fb); });
            if (!er.empty())
                return "view|the view cannot be rendered: " + er;
            o.frame = capture(*o.fb);
        }
        G->old.push_back(std::move(o));
    }
    return w;
}
std::string contents()
{
    std::ostringstream o;
    auto* old = std::cout.rdbuf(o.rdbuf());
    std::string e = outcome([] { G->sc->print_contents(); });
    std::cout.rdbuf(old);
    require(e.empty(), "contents", "the contents of the scene cannot be printed: " + e);
    return o.str();
}
void must(const std::string& w)
{
    if (w.empty())
        return;
    size_t k = w.find('|');
    violation(w.substr(0, k).c_str(), w.substr(k + 1));
}

// Carries out one edit. run: the call. apply: what it does to the model (also called for "half-way or after"
// comparisons, so it only changes the model it is given). made: registers what was created, after success.
void edit(const std::string& what, bool ok, Rnd& g, const std::function<void()>& run, const std::function<void(Model&)>& apply, const std::function<void()>& created = nullptr)
{
    uint64_t nth = g.below(G->alloc_span) + 1;
    bool starve = g.coin(G->p_alloc);
    Rnd vg{g.next()};
    auto shown = [&](const Model& m) { return G->focus ? G->focus : gen_view(m, vg); };
    sim::op(what + (ok ? "" : " [to be refused]") + (starve ? fmt(" [allocation %llu fails]", (unsigned long long)nth) : ""));
    sim::mix(what);
    if (starve) {
        Model before = G->m;
        std::string printed = G->contents ? contents() : "";
        sim::alloc_fail_at(nth);
        std::string e = outcome(run);
        bool failed = sim::alloc_failed();
        sim::alloc_fail_at(0);
        if (!failed || e.empty()) {
            // either memory sufficed, or the call managed without
            if (ok != e.empty())
                violation(ok ? "refused" : "accepted", what + (ok ? " was refused: " + e : " was accepted"));
            if (ok) {
                apply(G->m);
                if (created)
                    created();
            }
            return;
        }
        sim::probe("alloc.failed");
        auto v = shown(before);
        std::string w = check_all(before, v ? &*v : nullptr, vg);
        if (w.empty() && (!ok || created) && G->contents && contents() != printed)
            w = "contents|the printed contents of the scene have changed";
        if (!w.empty() && ok && !created) {
            Model after = before;
            apply(after);
            if (check_all(after, v ? &*v : nullptr, vg).empty()) {
                sim::probe("alloc.completed");
                apply(G->m);
                return;
            }
        }
        if (!w.empty()) {
            size_t k = w.find('|');
            violation("half-done", "after " + what + " ran out of memory (allocation " + fmt("%llu", (unsigned long long)nth) + "): " + w.substr(k + 1));
        }
    }
    std::string e = outcome(run);
    if (ok && !e.empty())
        violation(starve ? "not-repeatable" : "refused", what + (starve ? " fails again with memory available: " : " was refused: ") + e);
    if (!ok && e.empty())
        violation("accepted", what + " was accepted");
    if (ok) {
        apply(G->m);
        if (created)
            created();
    } else
        sim::probe("refused");
}
void add_asset(const MAsset& x) { G->m.a.push_back(x); }

// ---- generation of edits --------------------------------------------------------------------
const char* NAMES[] = {"", "", "a", "b", "a_1", "b_1", "Sun", "a_1_1", "c"};
int pick_node(Rnd& g, std::function<bool(const MNode&)> p, double dead = 0.04)
{
    std::vector<int> alive, gone;
    for (size_t i = 0; i < G->m.n.size(); ++i)
        if (p(G->m.n[i]))
            (G->m.n[i].alive ? alive : gone).push_back((int)i);
    bool d = g.coin(dead);
    auto& c = d && !gone.empty() ? gone : alive;
    return c.empty() ? -1 : c[g.below(c.size())];
}
int pick_asset(Rnd& g, std::function<bool(const MAsset&)> p, double dead = 0.04)
{
    std::vector<int> alive, gone;
    for (size_t i = 0; i < G->m.a.size(); ++i)
        if (p(G->m.a[i]))
            (G->m.a[i].alive ? alive : gone).push_back((int)i);
    bool d = g.coin(dead);
    auto& c = d && !gone.empty() ? gone : alive;
    return c.empty() ? -1 : c[g.below(c.size())];
}
bool any_frame(const MNode& n) { return n.frame; }

void op_frame(Rnd& g)
{
    int p = pick_node(g, any_frame);
    if (p < 0)
        return;
    MNode n;
    n.parent = p;
    n.frame = true;
    bool spice = g.coin(0.3);
    const char* ORG[] = {"NEAR", "MID", "FAR", "LATE", "NOBODY", "SSB", "SOLAR SYSTEM BARYCENTER"};
    const char* FRM[] = {"SIM_A", "SIM_B", "IAU_X", "J2000", "NOFRAME"};
    n.origin = ORG[g.coin(0.85) ? g.below(3) : g.below(7)];
    n.spice_frame = FRM[g.coin(0.9) ? g.below(4) : 4];
    const MNode& par = G->m.n[(size_t)p];
    std::optional<FrameHandle<T>> h;
    if (spice) {
        n.pm = P_SPICE;
        n.rm = R_SPICE;
        bool ok = par.alive && par.pm == P_SPICE && par.rm == R_SPICE;
        edit(fmt("new_spice_subframe of node %d: %s, %s", p, n.origin.c_str(), n.spice_frame.c_str()), ok, g, [&] { h = frame_of(par, p).new_spice_subframe(n.origin, n.spice_frame); }, [](Model&) {},
             [&] {
                 n.f = h;
                 G->m.n.push_back(n);
             });
    } else {
        n.origin = n.spice_frame = "";
        edit(fmt("new_subframe of node %d", p), par.alive, g, [&] { h = frame_of(par, p).new_subframe(); }, [](Model&) {},
             [&] {
                 n.f = h;
                 G->m.n.push_back(n);
             });
    }
}
void op_instance(Rnd& g, int kind = -1)
{
    int p = pick_node(g, any_frame), x = pick_asset(g, [&](const MAsset& a) { return a.kind != GEOM && (kind < 0 || a.kind == kind); });
    if (p < 0 || x < 0)
        return;
    const MNode& par = G->m.n[(size_t)p];
    const MAsset& a = G->m.a[(size_t)x];
    MNode n;
    n.parent = p;
    n.asset = x;
    std::optional<Inst> h;
    edit(fmt("new_instance of %s '%s' under node %d", KIND[a.kind], a.name.c_str(), p), par.alive && a.alive, g,
         [&] {
             FrameHandle<T> f = frame_of(par, p);
             if (a.kind == PRIM)
                 h = f.new_instance(*a.p);
             else if (a.kind == LIGHT)
                 h = f.new_instance(*a.l);
             else if (a.kind == UNRES)
                 h = f.new_instance(*a.u);
             else if (a.kind == CAM)
                 h = f.new_instance(*a.c);
             else
                 h = f.new_instance(*a.m);
         },
         [](Model&) {},
         [&] {
             n.i = h;
             G->m.n.push_back(n);
         });
}
// only uniform scales on the way to a camera
bool camera_below(const Model& m, int i)
{
    const MNode& n = m.n[(size_t)i];
    if (!n.frame)
        return m.a[(size_t)n.asset].kind == CAM;
    return m.has_child(i, [&](const MNode& c) { return camera_below(m, (int)(&c - m.n.data())); });
}
void op_pose(Rnd& g, bool spice_ok)
{
    int i = pick_node(g, [](const MNode& n) { return n.parent >= 0; });
    if (i < 0)
        return;
    MNode& n = G->m.n[(size_t)i];
    const MNode& par = G->m.n[(size_t)n.parent];
    auto child_spice_pos = G->m.has_child(i, [](const MNode& c) { return c.pm == P_SPICE; });
    auto child_spice_rot = G->m.has_child(i, [](const MNode& c) { return c.rm == R_SPICE; });
    auto set = [&](const std::string& what, bool ok, std::function<void()> run, std::function<void(MNode&)> apply) {
        edit(fmt("node %d (%s under %d): ", i, n.frame ? "frame" : "instance", n.parent) + what, ok && n.alive, g, run, [&, apply](Model& m) { apply(m.n[(size_t)i]); });
    };
    auto node = [&]() -> std::shared_ptr<Node<T>> { return n.frame ? std::static_pointer_cast<Node<T>>(n.f->get()) : std::static_pointer_cast<Node<T>>(n.i->get()); };
    V3 v = g.v(g.coin(0.2) ? 200 : 8), ax = g.axis();
    double ang = g.u(-3, 3);
    auto q = quat(ax, ang);
    M3 rot = turn(ax, ang);
    const char* ORG[] = {"NEAR", "MID", "FAR", "LATE", "NOBODY", "SSB"};
    const char* FRM[] = {"SIM_A", "SIM_B", "IAU_X", "J2000", "NOFRAME"};
    std::string org = ORG[g.coin(0.85) ? g.below(3) : g.below(6)], frm = FRM[g.coin(0.9) ? g.below(4) : 4];
    int k = (int)g.below(spice_ok ? 24 : 16);
    switch (k) {
    case 0:
    case 1:
        set("set_position", !child_spice_pos, [&] { with_node(n, [&](auto& h) { h.set_position(units::Meter(v.x), units::Meter(v.y), units::Meter(v.z)); }); },
            [=](MNode& n) { n.pm = P_MANUAL, n.pos = v; });
        break;
    case 2:
        set("set_position (vector)", !child_spice_pos, [&] { node()->set_position(Vec3<double>{v.x, v.y, v.z}); }, [=](MNode& n) { n.pm = P_MANUAL, n.pos = v; });
        break;
    case 3:
        v = v * (g.coin(0.2) ? 100 : 0.3);
        if (g.coin(0.3)) {
            set("set_velocity (vector)", n.pm == P_MANUAL, [&] { node()->set_velocity(Vec3<double>{v.x, v.y, v.z}); }, [=](MNode& n) { n.vel = v; });
            break;
        }
        set("set_velocity", n.pm == P_MANUAL, [&] { with_node(n, [&](auto& h) { h.set_velocity(units::MetersPerSecond(v.x), units::MetersPerSecond(v.y), units::MetersPerSecond(v.z)); }); },
            [=](MNode& n) { n.vel = v; });
        break;
    case 4: {
        int how = (int)g.below(7);
        static const char* HOW[] = {"set_rotation_local_to_parent(quaternion)", "set_rotation_parent_to_local(quaternion)", "set_rotation_local_to_parent(axis, angle)",
                                    "set_rotation_parent_to_local(axis, angle)", "set_rotation_local_to_parent(matrix)", "set_rotation_parent_to_local(matrix)", "set_euler_angles"};
        double e[3] = {g.u(-3, 3), g.u(-3, 3), g.u(-3, 3)};
        const char* SEQ[] = {"XYZ", "ZYX", "ZXZ", "xzy", "123", "313"};
        std::string seq = SEQ[g.below(6)];
        M3 want = how % 2 ? tr(rot) : rot;
        if (how == 6) {
            M3 b[3];
            for (int j = 0; j < 3; ++j) {
                char c = (char)std::tolower(seq[(size_t)j]);
                b[j] = turn(c == 'x' || c == '1' ? V3{1, 0, 0} : c == 'y' || c == '2' ? V3{0, 1, 0} : V3{0, 0, 1}, e[j]);
            }
            want = b[2] * b[1] * b[0];
        }
        set(HOW[how], !child_spice_rot,
            [&] {
                with_node(n, [&](auto& h) {
                    Quaternion<double> Q{q[0], q[1], q[2], q[3]};
                    Mat3<double> M;
                    for (int c = 0; c < 3; ++c)
                        M[c] = Vec3<double>{rot.c[c].x, rot.c[c].y, rot.c[c].z};
                    Vec3<double> A{ax.x, ax.y, ax.z};
                    if (how == 0)
                        h.set_rotation_local_to_parent(Q);
                    else if (how == 1)
                        h.set_rotation_parent_to_local(Q);
                    else if (how == 2)
                        h.set_rotation_local_to_parent(A, units::Degree(ang * 180 / M_PI));
                    else if (how == 3)
                        h.set_rotation_parent_to_local(A, units::Degree(ang * 180 / M_PI));
                    else if (how == 4)
                        h.set_rotation_local_to_parent(M);
                    else if (how == 5)
                        h.set_rotation_parent_to_local(M);
                    else
                        h.set_euler_angles(units::Radian(e[0]), units::Radian(e[1]), units::Radian(e[2]), seq);
                });
            },
            [=](MNode& n) { n.rm = R_MANUAL, n.q = want; });
        break;
    }
    case 5:
    case 6: {
        bool body = g.coin();
        V3 w = ax * g.u(0.02, 0.5);
        set(body ? "set_body_angular_velocity" : "set_angular_velocity", n.rm == R_MANUAL,
            [&] {
                with_node(n, [&](auto& h) {
                    auto x = units::RadiansPerSecond(w.x), y = units::RadiansPerSecond(w.y), z = units::RadiansPerSecond(w.z);
                    body ? h.set_body_angular_velocity(x, y, z) : h.set_angular_velocity(x, y, z);
                });
            },
            [=](MNode& n) { n.w = w, n.body = body; });
        break;
    }
    case 7: {
        V3 w = ax * g.u(0.02, 0.5);
        set("set_angular_velocity (vector)", n.rm == R_MANUAL, [&] { node()->set_angular_velocity(Vec3<double>{w.x, w.y, w.z}); }, [=](MNode& n) { n.w = w, n.body = false; });
        break;
    }
    case 8:
    case 9: {
        double u = g.u(0.3, 2.5);
        V3 s = camera_below(G->m, i) || g.coin() ? V3{u, u, u} : V3{g.u(0.3, 2.5), g.u(0.3, 2.5), g.u(0.3, 2.5)};
        // a frame may get a camera later, and what is turned inside a model cannot be sheared: uniform for both
        if (n.frame || G->m.a[(size_t)n.asset].kind == MODEL)
            s = {u, u, u};
        set("set_scale", true, [&] { with_node(n, [&](auto& h) { s.x == s.y && s.y == s.z && g.coin() ? h.set_scale(s.x) : h.set_scale(s.x, s.y, s.z); }); }, [=](MNode& n) { n.s = s; });
        break;
    }
    case 10: {
        V3 vel = g.v(2), w = ax * g.u(0, 0.4);
        double s = g.u(0.5, 2);
        set("set_manual_transform", !child_spice_pos && !child_spice_rot,
            [&] {
                Transform<double> t;
                t.position = {v.x, v.y, v.z};
                t.rotation = Rotation<double>::from_local_to_parent(Quaternion<double>{q[0], q[1], q[2], q[3]});
                t.scale = {s, s, s};
                t.velocity = {vel.x, vel.y, vel.z};
                t.angular_velocity = {w.x, w.y, w.z};
                node()->set_manual_transform(t);
            },
            [=](MNode& n) {
                n.pm = P_MANUAL, n.rm = R_MANUAL, n.pos = v, n.q = rot, n.s = {s, s, s}, n.vel = vel, n.w = w, n.body = false;
            });
        break;
    }
    case 11: {
        bool mini = g.coin(0.6);
        double a = mini ? g.u(5, 40) : g.u(7e6, 4e7), e = g.coin(0.3) ? 0 : g.u(0, 0.7), inc = g.u(0, 3), raan = g.u(0, 6), arg = g.u(0, 6), M = g.u(0, 6), ep = g.u(0, 1000), mu = mini ? 1e-9 : 398600.4418;
        set("set_keplerian_orbit", true,
            [&] { node()->set_keplerian_orbit(units::Meter(a), e, units::Radian(inc), units::Radian(raan), units::Radian(arg), units::Radian(M), Time::from_et(ep), mu); },
            [=](MNode& n) {
                n.pm = P_KEPLER;
                double el[8] = {a / 1000 * (1 - e), e, inc, raan, arg, M, ep, mu};
                std::copy(el, el + 8, n.el);
            });
        break;
    }
    case 12: {
        V3 b = g.v(5);
        set("set_custom_position_callback", true, [&] { node()->template set_custom_position_callback<PosCB>(v, b); }, [=](MNode& n) { n.pm = P_CALLBACK, n.pa = v, n.pb = b; });
        break;
    }
    case 13: {
        double r = g.u(0.01, 0.4);
        set("set_custom_rotation_callback", true, [&] { node()->template set_custom_rotation_callback<RotCB>(ax, r); }, [=](MNode& n) { n.rm = R_CALLBACK, n.rax = ax, n.rrate = r; });
        break;
    }
    case 14: {
        double r = g.u(0.01, 0.4);
        V3 b = g.v(5);
        set("set_custom_state_callback", true, [&] { node()->template set_custom_state_callback<StateCB>(v, b, ax, r); },
            [=](MNode& n) { n.pm = P_STATE, n.rm = R_STATE, n.sa = v, n.sb = b, n.sax = ax, n.srate = r; });
        break;
    }
    case 15: {
        // the direction must be defined: only for orbits and callbacks that move across their position
        if (n.pm != P_KEPLER)
            break;
        bool up = g.coin();
        set(up ? "set_z_up_y_forward_callback" : "set_z_down_y_forward_callback", true, [&] { up ? node()->set_z_up_y_forward_callback() : node()->set_z_down_y_forward_callback(); },
            [=](MNode& n) { n.rm = up ? R_ZUP : R_ZDOWN; });
        break;
    }
    case 16:
    case 17:
        set("set_spice_origin " + org, par.pm == P_SPICE, [&] { with_node(n, [&](auto& h) { h.set_spice_origin(org); }); }, [=](MNode& n) { n.pm = P_SPICE, n.origin = org; });
        break;
    case 18:
    case 19:
        set("set_spice_frame " + frm, par.rm == R_SPICE, [&] { with_node(n, [&](auto& h) { h.set_spice_frame(frm); }); }, [=](MNode& n) { n.rm = R_SPICE, n.spice_frame = frm; });
        break;
    default:
        set("set_spice " + org + " " + frm, par.pm == P_SPICE && par.rm == R_SPICE, [&] { with_node(n, [&](auto& h) { h.set_spice(org, frm); }); },
            [=](MNode& n) { n.pm = P_SPICE, n.rm = R_SPICE, n.origin = org, n.spice_frame = frm; });
    }
    // z-up callbacks need an orbit to look along
    if ((n.rm == R_ZUP || n.rm == R_ZDOWN) && n.pm != P_KEPLER && n.alive) {
        MNode& x = G->m.n[(size_t)i];
        node()->template set_custom_rotation_callback<RotCB>(V3{0, 0, 1}, 0.1);
        x.rm = R_CALLBACK, x.rax = {0, 0, 1}, x.rrate = 0.1;
    }
}
void op_delete_node(Rnd& g)
{
    int i = pick_node(g, [](const MNode& n) { return n.parent >= 0; });
    if (i < 0)
        return;
    MNode& n = G->m.n[(size_t)i];
    int from = g.coin(0.1) ? pick_node(g, any_frame) : n.parent;
    const MNode& par = G->m.n[(size_t)from];
    edit(fmt("delete node %d (%s) from node %d", i, n.frame ? "frame" : "instance", from), n.alive && par.alive && from == n.parent, g,
         [&] {
             FrameHandle<T> f = frame_of(par, from);
             if (n.frame)
                 f.delete_subframe(*n.f);
             else
                 f.delete_instance(*n.i);
         },
         [i](Model& m) { m.kill_node(i); });
}
Shape shape_from(const IndexBuffer& ix, const VertexBuffer<T>& v)
{
    Shape s;
    for (auto& x : v)
        s.vert.push_back(vecf(x.position)), s.colour.push_back(x.albedo);
    s.ix.assign(ix.begin(), ix.end());
    return s;
}
void op_geometry(Rnd& g)
{
    std::string name = NAMES[g.below(9)];
    V3 d = {g.u(0.3, 3), g.u(0.3, 3), g.u(0.3, 3)};
    MAsset x;
    int k = (int)g.below(10);
    IndexBuffer ix;
    VertexBuffer<T> vb;
    if (k < 4) {
        x.shape.ellipsoid = true;
        x.shape.dims = d;
    } else {
        vb = k < 7 ? quad(ix, d) : box(ix, d);
        if (k == 9 && g.coin(0.3))
            ix.clear();
        x.shape = shape_from(ix, vb);
        x.shape.flat = true;
    }
    bool ok = true;
    if (k == 8 && g.coin(0.3)) {
        ix.push_back(0);
        ix.push_back(1);
        ix.push_back(1000);
        ok = false;
    }
    std::optional<GeometryHandle<T>> h;
    edit(fmt("add %s '%s'", k < 4 ? "ellipsoid" : ix.empty() ? "empty mesh" : "mesh", name.c_str()), ok, g,
         [&] {
             if (k < 4)
                 h = GeometryHandle<T>(G->sc->add_ellipsoid(units::Meter(d.x), units::Meter(d.y), units::Meter(d.z), name).get());
             else
                 h = GeometryHandle<T>(G->sc->add_mesh(ix, vb, name).get());
         },
         [](Model&) {},
         [&] {
             x.g = h;
             made(GEOM, x, name);
             add_asset(x);
         });
}
T rgb_of(Rnd& g, double lo, double hi)
{
    T t{0};
    for (size_t c = 0; c < T::size(); ++c)
        t[c] = (float)g.u(lo, hi);
    return t;
}
void op_background(Rnd& g)
{
    bool off = g.coin(0.4);
    T b = off ? T{0} : rgb_of(g, 0, 2);
    bool image = g.coin(0.3);
    edit("set_background_radiance", true, g,
         [&] {
             if (image)
                 G->sc->set_background_radiance(Image<T>(3, 2, b));
             else
                 G->sc->set_background_radiance(b);
         },
         [=](Model& m) { m.background = b; });
}
void op_primitive(Rnd& g)
{
    std::string name = NAMES[g.below(9)];
    int k = pick_asset(g, [](const MAsset& a) { return a.kind == GEOM; });
    if (k < 0)
        return;
    MAsset x;
    x.geom = k;
    const MAsset& ge = G->m.a[(size_t)k];
    std::optional<PrimitiveHandle<T>> h;
    bool mat = G->light && g.coin(0.7), via_null = g.coin(0.2);
    if (mat) {
        x.albedo = rgb_of(g, 0, 1);
        x.clear = g.coin(0.15);
        x.null = !x.clear && g.coin(G->borders && ge.shape.ellipsoid ? 0.6 : 0.18);
    }
    edit(fmt("add_primitive '%s' of geometry '%s'%s%s", name.c_str(), ge.name.c_str(), mat ? " with a material" : "", x.clear ? " that cannot be seen" : x.null ? " that only is a border" : ""), ge.alive, g,
         [&] {
             if (!mat) {
                 h = G->sc->add_primitive(*ge.g, name);
                 return;
             }
             auto bs = x.null ? G->sc->new_bsdf_null() : G->sc->new_bsdf_lambertian();
             auto mh = G->sc->new_material(bs);
             mh.set_albedo_factor(x.albedo);
             if (x.null)
                 mh.set_transmission_factor(T{1});
             if (x.clear)
                 mh.set_alpha_factor(0);
             else if (via_null) { // there and back
                 mh.set_alpha_factor(0.3f);
                 mh.reset_alpha();
             }
             h = G->sc->add_primitive(*ge.g, mh, name);
         },
         [](Model&) {},
         [&] {
             x.p = h;
             made(PRIM, x, name);
             add_asset(x);
         });
}
void op_light(Rnd& g)
{
    std::string name = NAMES[g.below(9)];
    MAsset x;
    bool sun = g.coin(0.1);
    x.radius = sun ? 6.957e8 : g.u(0.2, 2);
    if (sun)
        name = "Sun";
    std::optional<LightHandle<T>> h;
    // the radiance of a sphere: its power over its area and over pi
    const double over = M_PI * 4 * M_PI * x.radius * x.radius;
    bool spectral = G->light && g.coin(0.6);
    T power = rgb_of(g, 1, 100);
    x.radiance = spectral ? power * (float)(1 / over) : T::from_total((float)(50 / over));
    edit(sun ? "new_sun_light" : fmt("new_sphere_light '%s'", name.c_str()), true, g,
         [&] {
             if (sun)
                 h = G->sc->new_sun_light();
             else if (spectral)
                 h = G->sc->new_sphere_light(units::Meter(x.radius), units::SpectralWatts<T>(power), name);
             else
                 h = G->sc->new_sphere_light(units::Meter(x.radius), units::Watt(50.f), name);
         },
         [](Model&) {},
         [&] {
             x.l = h;
             made(LIGHT, x, name);
             add_asset(x);
         });
}
void op_point(Rnd& g)
{
    std::string name = NAMES[g.below(9)];
    MAsset x;
    x.ukind = g.coin(0.4) ? 2 + (int)g.below(2) : (int)g.below(2);
    x.strength = x.ukind == 3 ? g.u(55, 70) : g.u(0.5, 5);
    bool ok = true;
    int li = -1;
    if (x.ukind >= 2) {
        li = pick_node(g, [&](const MNode& n) { return !n.frame && n.parent >= 0 && (G->m.a[(size_t)n.asset].kind == LIGHT || (&n - G->m.n.data()) % 5 == 0); }, 0.1);
        if (li < 0)
            return;
        const MNode& l = G->m.n[(size_t)li];
        ok = l.alive && G->m.a[(size_t)l.asset].kind == LIGHT;
        x.light = l.asset;
    }
    std::optional<UnresolvedObjectHandle<T>> h;
    edit(fmt("new unresolved object '%s' of kind %d", name.c_str(), x.ukind), ok, g,
         [&] {
             if (x.ukind == 0)
                 h = G->sc->new_unresolved_object(units::SpectralWattsPerMeterSquared<T>(T{(float)x.strength}), name);
             else if (x.ukind == 1)
                 h = G->sc->new_unresolved_emitter(units::Watt(x.strength), name);
             else if (x.ukind == 2)
                 h = G->sc->new_unresolved_sphere(units::Meter(0.5), *G->m.n[(size_t)li].i, 0.5f, name);
             else
                 h = G->sc->new_unresolved_asteroid(x.strength, 0.15, *G->m.n[(size_t)li].i, 0.5f, name);
         },
         [](Model&) {},
         [&] {
             x.u = h;
             made(UNRES, x, name);
             add_asset(x);
         });
}
void op_again(Rnd& g) // adding what is already there must be refused
{
    int k = pick_asset(g, [](const MAsset& a) { return a.kind == LIGHT || a.kind == GEOM || a.kind == UNRES; }, 0);
    if (k < 0)
        return;
    const MAsset& a = G->m.a[(size_t)k];
    std::string name = NAMES[g.below(9)];
    edit(fmt("add the %s '%s' again as '%s'", KIND[a.kind], a.name.c_str(), name.c_str()), false, g,
         [&] {
             if (a.kind == LIGHT)
                 G->sc->add_light(a.l->get(), name);
             else if (a.kind == GEOM)
                 G->sc->add_geometry(a.g->get(), name);
             else
                 G->sc->add_unresolved_object(a.u->get(), name);
         },
         [](Model&) {});
}
void op_rename(Rnd& g)
{
    int k = pick_asset(g, [](const MAsset&) { return true; });
    if (k < 0)
        return;
    MAsset& a = G->m.a[(size_t)k];
    std::string name = NAMES[2 + g.below(7)];
    if (g.coin(0.2))
        name = a.name;
    std::string got;
    edit(fmt("rename the %s '%s' to '%s'", KIND[a.kind], a.name.c_str(), name.c_str()), a.alive, g,
         [&] {
             switch (a.kind) {
             case GEOM: G->sc->set_name(*a.g, name); break;
             case PRIM: G->sc->set_name(*a.p, name); break;
             case LIGHT: G->sc->set_name(*a.l, name); break;
             case UNRES: G->sc->set_name(*a.u, name); break;
             case CAM: G->sc->set_name(*a.c, name); break;
             default: G->sc->set_name(*a.m, name);
             }
         },
         [](Model&) {},
         [&] {
             std::string old = a.name;
             a.alive = false; // do not compare with itself
             MAsset x = a;
             x.alive = true;
             made(a.kind, x, name);
             if (name == old)
                 require(x.name == old, "name-lost", fmt("setting the name '%s' again changed it to '%s'", old.c_str(), x.name.c_str()));
             a = x;
         });
}
void op_delete_asset(Rnd& g, double cam = 0.05)
{
    bool c = g.coin(cam);
    int k = pick_asset(g, [&](const MAsset& a) { return (a.kind == CAM) == c; });
    if (k < 0)
        return;
    MAsset& a = G->m.a[(size_t)k];
    edit(fmt("delete the %s '%s'", KIND[a.kind], a.name.c_str()), a.alive, g,
         [&] {
             switch (a.kind) {
             case GEOM: G->sc->delete_geometry(*a.g); break;
             case PRIM: G->sc->delete_primitive(*a.p); break;
             case LIGHT: G->sc->delete_light(*a.l); break;
             case UNRES: G->sc->delete_unresolved_object(*a.u); break;
             case CAM: G->sc->delete_camera_model(*a.c); break;
             default: G->sc->delete_model(*a.m);
             }
         },
         [k](Model& m) { m.kill_asset(k); });
}

// ---- model files -----------------------------------------------------------------------------
struct ModelFile {
    std::string path, name;
    std::map<std::string, std::string> files;
    struct Mesh {
        std::string name;
        Shape shape;
        std::vector<V3> normal; // of the vertices, if the file gives them
        std::vector<V3> uv;     // as huira counts them
        bool flat = true;       // normals to be made up
        int material = -1;
        bool has_material = false; // to be compared
    };
    struct Mat {
        V3 color{1, 1, 1}, glow;
        double alpha = 1, metal = 1, rough = 1;
        V3 tex{1, 1, 1}; // of its picture
        double tex_rough = 1, tex_metal = 1;
        bool textured = false;
    };
    std::vector<Mesh> meshes;
    std::vector<Mat> mats;
    std::vector<std::pair<int, St>> parts; // mesh, pose in the model
    int materials = 0;
};
void add_float(std::string& s, float f) { s.append((const char*)&f, 4); }
ModelFile gen_model(Rnd& g, int number)
{
    ModelFile f;
    f.name = fmt("m%d", number);
    int kind = (int)g.below(4);
    std::string dir = fmt("/simfs/models/%d/", number);
    auto shape = [&](bool big) {
        Shape s;
        int n = big ? (int)g.below(60) + 20 : (int)g.below(4) + 1;
        for (int i = 0; i < n; ++i) {
            V3 c = g.v(1.5), a = g.axis(), b = cross(a, g.axis());
            if (len(b) < 0.1)
                b = cross(a, V3{a.y, -a.x + 0.3, a.z + 1});
            b = unit(b) * g.u(0.4, 1.2);
            uint32_t k = (uint32_t)s.vert.size();
            for (V3 p : {c, c + a, c + b})
                s.vert.push_back({(double)(float)p.x, (double)(float)p.y, (double)(float)p.z});
            for (uint32_t j = 0; j < 3; ++j)
                s.ix.push_back(k + j);
            if (i && g.coin(0.3)) { // one more, on an edge of this one and a corner of another
                uint32_t o = (uint32_t)g.below(k);
                if (len(cross(s.vert[k + 1] - s.vert[k], s.vert[o] - s.vert[k])) > 0.3) {
                    s.ix.push_back(k);
                    s.ix.push_back(k + 1);
                    s.ix.push_back(o);
                }
            }
        }
        return s;
    };
    auto dress = [&](ModelFile::Mesh& m, bool v_up) {
        if (g.coin(0.6)) {
            m.flat = false;
            for (size_t i = 0; i < m.shape.vert.size(); ++i)
                m.normal.push_back(g.axis());
        }
        if (g.coin(0.6))
            for (size_t i = 0; i < m.shape.vert.size(); ++i)
                m.uv.push_back({(double)g.below(65) / 64, (double)g.below(65) / 64, 0});
        std::vector<V3> in_file = m.uv;
        if (v_up)
            for (auto& t : in_file)
                t.y = 1 - t.y;
        return in_file;
    };
    bool big = g.coin(0.15);
    if (kind == 0) { // Wavefront
        f.path = dir + "a.obj";
        std::string t = "# a model\nmtllib a.mtl\n";
        int nm = (int)g.below(3) + 1;
        size_t base = 1, base_n = 1, base_uv = 1;
        std::string mtl;
        for (int i = 0; i < nm; ++i) {
            ModelFile::Mesh m{fmt("obj%d_%d", number, i), shape(big)};
            auto uv = dress(m, true);
            t += "o " + m.name + "\n";
            for (auto& v : m.shape.vert)
                t += fmt("v %.9g %.9g %.9g\n", v.x, v.y, v.z);
            for (auto& v : m.normal)
                t += fmt("vn %.9g %.9g %.9g\n", v.x, v.y, v.z);
            for (auto& v : uv)
                t += fmt("vt %.9g %.9g\n", v.x, v.y);
            t += fmt("usemtl mat%d\n", i);
            for (size_t k = 0; k < m.shape.ix.size(); k += 3) {
                t += "f";
                for (size_t j = k; j < k + 3; ++j) {
                    t += fmt(" %zu", base + m.shape.ix[j]);
                    if (!m.uv.empty())
                        t += fmt("/%zu", base_uv + m.shape.ix[j]);
                    if (!m.normal.empty())
                        t += fmt("%s/%zu", m.uv.empty() ? "/" : "", base_n + m.shape.ix[j]);
                }
                t += "\n";
            }
            base += m.shape.vert.size();
            base_n += m.normal.size();
            base_uv += m.uv.size();
            mtl += fmt("newmtl mat%d\nKd 0.%d 0.5 0.2\nd 1\n", i, i + 1);
            f.meshes.push_back(m);
            f.parts.push_back({i, St{}});
        }
        f.files[f.path] = t;
        f.files[dir + "a.mtl"] = mtl;
    } else if (kind == 1) { // stereolithography
        f.path = dir + "a.stl";
        ModelFile::Mesh m{fmt("solid%d", number), shape(big)};
        std::string t = "solid " + m.name + "\n";
        for (size_t i = 0; i < m.shape.ix.size(); i += 3) {
            t += "facet normal 0 0 1\nouter loop\n";
            for (size_t k = 0; k < 3; ++k) {
                V3 v = m.shape.vert[m.shape.ix[i + k]];
                t += fmt("vertex %.9g %.9g %.9g\n", v.x, v.y, v.z);
            }
            t += "endloop\nendfacet\n";
        }
        f.files[f.path] = t + "endsolid " + m.name + "\n";
        f.meshes.push_back(m);
        f.parts.push_back({0, St{}});
    } else { // glTF with a tree of nodes
        f.path = dir + "a.gltf";
        int nm = (int)g.below(3) + 1, nn = (int)g.below(5) + nm;
        std::string bin, views, acc, meshes, nodes, mats, textures, images;
        int nmat = (int)g.below(3) + 1, ntex = 0, nacc = 0;
        auto picture = [&](V3 c) { // all one colour, of which no colour space makes another
            std::string t({0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 2, 0, 24, 0}), px({(char)(c.z * 255), (char)(c.y * 255), (char)(c.x * 255)});
            for (int k = 0; k < 4; ++k)
                t += px;
            f.files[dir + fmt("t%d.tga", ntex)] = t;
            textures += fmt("%s{\"source\":%d}", ntex ? "," : "", ntex);
            images += fmt("%s{\"uri\":\"t%d.tga\"}", ntex ? "," : "", ntex);
            return ntex++;
        };
        for (int i = 0; i < nmat; ++i) {
            ModelFile::Mat m;
            auto level = [&] { return (double)g.below(17) / 16; };
            std::string pbr = "", extra;
            if (g.coin(0.7)) {
                m.color = {level(), level(), level()}, m.alpha = level();
                pbr += fmt(",\"baseColorFactor\":[%g,%g,%g,%g]", m.color.x, m.color.y, m.color.z, m.alpha);
            }
            if (g.coin())
                pbr += fmt(",\"metallicFactor\":%g", m.metal = level());
            if (g.coin())
                pbr += fmt(",\"roughnessFactor\":%g", m.rough = level());
            if (g.coin(0.4)) {
                m.tex = {(double)g.below(2), (double)g.below(2), (double)g.below(2)};
                m.textured = true;
                pbr += fmt(",\"baseColorTexture\":{\"index\":%d}", picture(m.tex));
            }
            if (g.coin(0.3)) {
                V3 c{(double)g.below(2), (double)g.below(2), (double)g.below(2)};
                m.tex_rough = c.y, m.tex_metal = c.z;
                m.textured = true;
                pbr += fmt(",\"metallicRoughnessTexture\":{\"index\":%d}", picture(c));
            }
            if (g.coin(0.3)) {
                m.glow = {level(), level(), level()};
                extra = fmt(",\"emissiveFactor\":[%g,%g,%g]", m.glow.x, m.glow.y, m.glow.z);
            }
            mats += fmt("%s{\"name\":\"mat%d_%d\"", i ? "," : "", number, i) + (pbr.empty() ? "" : ",\"pbrMetallicRoughness\":{" + pbr.substr(1) + "}") + extra + "}";
            f.mats.push_back(m);
        }
        for (int i = 0; i < nm; ++i) {
            ModelFile::Mesh m{fmt("part%d_%d", number, i), shape(big)};
            auto uv = dress(m, false);
            m.has_material = true;
            m.material = g.coin(0.85) ? (int)g.below((uint64_t)nmat) : -1;
            size_t o = bin.size();
            V3 lo{1e9, 1e9, 1e9}, hi{-1e9, -1e9, -1e9};
            for (auto& v : m.shape.vert) {
                add_float(bin, (float)v.x), add_float(bin, (float)v.y), add_float(bin, (float)v.z);
                lo = {std::min(lo.x, v.x), std::min(lo.y, v.y), std::min(lo.z, v.z)};
                hi = {std::max(hi.x, v.x), std::max(hi.y, v.y), std::max(hi.z, v.z)};
            }
            size_t o2 = bin.size();
            for (uint32_t k : m.shape.ix)
                bin.append((const char*)&k, 4);
            auto part = [&](size_t from, size_t to, int type, size_t count, const char* shape, const std::string& more = "") {
                views += fmt("%s{\"buffer\":0,\"byteOffset\":%zu,\"byteLength\":%zu}", nacc ? "," : "", from, to - from);
                acc += fmt("%s{\"bufferView\":%d,\"componentType\":%d,\"count\":%zu,\"type\":\"%s\"", nacc ? "," : "", nacc, type, count, shape) + more + "}";
                return nacc++;
            };
            size_t nv = m.shape.vert.size(), o3 = bin.size();
            int ap = part(o, o2, 5126, nv, "VEC3", fmt(",\"min\":[%.9g,%.9g,%.9g],\"max\":[%.9g,%.9g,%.9g]", lo.x, lo.y, lo.z, hi.x, hi.y, hi.z)), ai = part(o2, o3, 5125, m.shape.ix.size(), "SCALAR");
            std::string attr = fmt("\"POSITION\":%d", ap);
            for (auto& v : m.normal)
                add_float(bin, (float)v.x), add_float(bin, (float)v.y), add_float(bin, (float)v.z);
            size_t o4 = bin.size();
            for (auto& v : uv)
                add_float(bin, (float)v.x), add_float(bin, (float)v.y);
            if (o4 > o3)
                attr += fmt(",\"NORMAL\":%d", part(o3, o4, 5126, nv, "VEC3"));
            if (bin.size() > o4)
                attr += fmt(",\"TEXCOORD_0\":%d", part(o4, bin.size(), 5126, nv, "VEC2"));
            meshes += fmt("%s{\"name\":\"%s\",\"primitives\":[{\"attributes\":{", i ? "," : "", m.name.c_str()) + attr + fmt("},\"indices\":%d", ai) +
                      (m.material < 0 ? "" : fmt(",\"material\":%d", m.material)) + "}]}";
            f.meshes.push_back(m);
        }
        std::vector<int> parent;
        std::vector<St> at;
        std::vector<int> mesh;
        std::string roots;
        for (int i = 0; i < nn; ++i) {
            parent.push_back(i && g.coin(0.8) ? (int)g.below((uint64_t)i) : -1);
            St s;
            s.p = g.v(3);
            V3 ax = g.axis();
            double an = g.u(-3, 3), sc = g.coin() ? 1 : g.u(0.5, 1.8);
            s.r = turn(ax, an);
            s.s = {sc, sc, sc};
            mesh.push_back(i < nm ? i : g.coin(0.4) ? (int)g.below((uint64_t)nm) : -1);
            auto q = quat(ax, an);
            nodes += fmt("%s{\"name\":\"n%d_%d\",\"translation\":[%.9g,%.9g,%.9g],\"rotation\":[%.17g,%.17g,%.17g,%.17g],\"scale\":[%.9g,%.9g,%.9g]", i ? "," : "", number, i, s.p.x, s.p.y, s.p.z, q[1], q[2], q[3],
                         q[0], sc, sc, sc);
            if (mesh.back() >= 0)
                nodes += fmt(",\"mesh\":%d", mesh.back());
            nodes += "@" + fmt("%d", i) + "@}";
            at.push_back(parent.back() >= 0 ? at[(size_t)parent.back()] * s : s);
            if (mesh.back() >= 0)
                f.parts.push_back({mesh.back(), at.back()});
        }
        for (int i = 0; i < nn; ++i) {
            std::string ch;
            for (int j = i + 1; j < nn; ++j)
                if (parent[(size_t)j] == i)
                    ch += fmt("%s%d", ch.empty() ? "" : ",", j);
            std::string key = "@" + fmt("%d", i) + "@";
            nodes.replace(nodes.find(key), key.size(), ch.empty() ? "" : ",\"children\":[" + ch + "]");
            if (parent[(size_t)i] < 0)
                roots += fmt("%s%d", roots.empty() ? "" : ",", i);
        }
        f.files[f.path] = "{\"asset\":{\"version\":\"2.0\"},\"scene\":0,\"scenes\":[{\"nodes\":[" + roots + "]}],\"nodes\":[" + nodes + "],\"meshes\":[" + meshes +
                          "],\"materials\":[" + mats + "]," + (ntex ? "\"textures\":[" + textures + "],\"images\":[" + images + "]," : "") + "\"buffers\":[{\"uri\":\"a.bin\",\"byteLength\":" +
                          fmt("%zu", bin.size()) + "}],\"bufferViews\":[" + views + "],\"accessors\":[" + acc + "]}";
        f.files[dir + "a.bin"] = bin;
    }
    return f;
}
void put_model(const ModelFile& f)
{
    simfs::mkdirs(f.path.substr(0, f.path.rfind('/')));
    for (auto& [p, b] : f.files)
        simfs::put(p, b);
}

std::vector<std::string> part_names(const ModelFile& f)
{
    std::vector<std::string> r;
    for (auto& m : f.meshes)
        r.push_back(m.name);
    return r;
}
// The loaded parts against the file: every triangle with its normals and texture coordinates, and the materials
std::string check_part(const ModelFile& f, const ModelFile::Mesh& m, const Geometry<T>& geo, const Primitive<T>& prim, bool textures)
{
    auto* mesh = dynamic_cast<const Mesh<T>*>(&geo);
    if (!mesh)
        return "is no mesh";
    const auto& ix = mesh->index_buffer();
    const auto& vb = mesh->vertex_buffer();
    if (ix.size() != m.shape.ix.size())
        return fmt("has %zu triangles instead of %zu", ix.size() / 3, m.shape.ix.size() / 3);
    struct Corner {
        V3 p, n, t;
    };
    auto far = [](const V3& a, const V3& b) { return len(a - b) > 1e-5 * (1 + len(a)); };
    bool check_flat = m.has_material && m.shape.vert.size() == m.shape.ix.size(); // Assimp gives a shared corner the normal of one of its triangles
    std::vector<char> used(ix.size() / 3);
    for (size_t k = 0; k < ix.size(); k += 3) {
        Corner want[3];
        for (size_t j = 0; j < 3; ++j) {
            uint32_t v = m.shape.ix[k + j];
            want[j] = {m.shape.vert[v], m.normal.empty() ? V3{} : m.normal[v], m.uv.empty() ? V3{} : m.uv[v]};
        }
        if (m.normal.empty()) {
            V3 n = unit(cross(want[1].p - want[0].p, want[2].p - want[0].p));
            for (auto& c : want)
                c.n = n;
        }
        bool found = false;
        std::string why = "is missing";
        for (size_t q = 0; q < used.size() && !found; ++q) {
            if (used[q])
                continue;
            for (size_t r = 0; r < 3 && !found; ++r) {
                bool same = true, places = true;
                for (size_t j = 0; j < 3; ++j) {
                    uint32_t v = ix[q * 3 + (j + r) % 3];
                    if (v >= vb.size())
                        return fmt("refers to vertex %u of %zu", v, vb.size());
                    const auto& x = vb[v];
                    if (far(want[j].p, {x.position.x, x.position.y, x.position.z}))
                        same = places = false;
                    if (far(want[j].t, {x.uv.x, x.uv.y, 0}))
                        same = false;
                    V3 n{x.normal.x, x.normal.y, x.normal.z};
                    if (m.flat ? check_flat && len(n - want[j].n) > 2e-3 : far(want[j].n, n))
                        same = false;
                }
                if (same)
                    found = used[q] = 1;
                else if (places) {
                    const auto& x = vb[ix[q * 3 + r]];
                    why = fmt("has other normals or texture coordinates: (%g %g %g) and (%g %g) at its first corner instead of (%g %g %g) and (%g %g)", (double)x.normal.x, (double)x.normal.y, (double)x.normal.z,
                              (double)x.uv.x, (double)x.uv.y, want[0].n.x, want[0].n.y, want[0].n.z, want[0].t.x, want[0].t.y);
                }
            }
        }
        if (!found)
            return fmt("triangle %zu ", k / 3) + why;
    }
    if (!m.has_material)
        return "";
    ModelFile::Mat w = m.material < 0 ? ModelFile::Mat{} : f.mats[(size_t)m.material];
    if (!prim.material)
        return "has no material";
    if (w.textured && !textures)
        return ""; // the device failed, and huira goes on without pictures it cannot read
    Interaction<T> at{};
    at.uv = {0.3f, 0.6f};
    at.normal_s = at.normal_g = {0, 0, 1};
    at.vertex_albedo = T{1};
    auto p = prim.material->evaluate(at).params;
    auto off = [](double a, double b) { return !(std::abs(a - b) < 1e-5); };
    if (off(p.albedo[0], w.color.x * w.tex.x) || off(p.albedo[1], w.color.y * w.tex.y) || off(p.albedo[2], w.color.z * w.tex.z))
        return fmt("has the colour (%g %g %g) instead of (%g %g %g)", (double)p.albedo[0], (double)p.albedo[1], (double)p.albedo[2], w.color.x * w.tex.x, w.color.y * w.tex.y, w.color.z * w.tex.z);
    if (off(p.opacity, w.alpha))
        return fmt("has the opacity %g instead of %g", (double)p.opacity, w.alpha);
    if (off(p.roughness, w.rough * w.tex_rough) || off(p.metallic, w.metal * w.tex_metal))
        return fmt("has the roughness %g and metalness %g instead of %g and %g", (double)p.roughness, (double)p.metallic, w.rough * w.tex_rough, w.metal * w.tex_metal);
    if (off(p.emission[0], w.glow.x) || off(p.emission[1], w.glow.y) || off(p.emission[2], w.glow.z))
        return "has another glow";
    return "";
}
void loaded_model(const ModelFile& f, const ModelHandle<T>& h, const std::string& wanted, bool textures = true)
{
    std::vector<int> prim;
    for (auto& mesh : f.meshes) {
        MAsset ge, pr;
        ge.shape = mesh.shape;
        std::string e = outcome([&] {
            ge.g = G->sc->get_geometry(mesh.name);
            pr.p = G->sc->get_primitive(mesh.name);
        });
        require(e.empty(), "incomplete-model", "the model was loaded without its part '" + mesh.name + "': " + e);
        e = check_part(f, mesh, *ge.g->get(), *pr.p->get(), textures);
        require(e.empty(), "incomplete-model", "the part '" + mesh.name + "' of a model " + e);
        made(GEOM, ge, mesh.name);
        pr.geom = (int)G->m.a.size();
        add_asset(ge);
        made(PRIM, pr, mesh.name);
        prim.push_back((int)G->m.a.size());
        add_asset(pr);
    }
    MAsset x;
    x.m = h;
    made(MODEL, x, wanted);
    for (auto& p : f.parts)
        x.parts.push_back({prim[(size_t)p.first], p.second});
    add_asset(x);
    sim::probe("model.loaded");
}
void model_instance(Rnd& g) // of the newest model, in plain sight
{
    int k = (int)G->m.a.size() - 1;
    MNode n;
    n.parent = 0;
    n.asset = k;
    n.pos = g.v(4) + V3{0, 0, 12};
    std::optional<Inst> h;
    std::string e = outcome([&] {
        h = FrameHandle<T>(G->sc->root).new_instance(*G->m.a[(size_t)k].m);
        h->set_position(units::Meter(n.pos.x), units::Meter(n.pos.y), units::Meter(n.pos.z));
    });
    require(e.empty(), "refused", "a loaded model cannot be placed: " + e);
    n.i = h;
    G->m.n.push_back(n);
}
struct Wanted {
    ModelFile f;
    std::string name, wanted;
};
Wanted want_model(Rnd& g)
{
    Wanted w;
    w.f = gen_model(g, G->loads++);
    w.name = g.coin(0.5) ? "" : NAMES[2 + g.below(7)];
    w.wanted = w.name.empty() ? "a" : w.name;
    put_model(w.f);
    G->seen[MODEL].insert(w.wanted);
    for (auto& n : part_names(w.f))
        G->seen[GEOM].insert(n), G->seen[PRIM].insert(n);
    return w;
}
void op_load(Rnd& g)
{
    Wanted w = want_model(g);
    std::optional<ModelHandle<T>> h;
    fs::path path = w.f.path;
    uint64_t span = G->alloc_span;
    if (G->p_alloc > 0)
        G->alloc_span = 60 + 120 * w.f.meshes.size();
    edit("load_model " + w.f.path + " as '" + w.name + "'", true, g, [&] { h = G->sc->load_model(path, w.name); }, [](Model&) {}, [&] { loaded_model(w.f, *h, w.wanted); });
    G->alloc_span = span;
    if (g.coin(0.6))
        model_instance(g);
}
// the device fails while a model is loaded
void op_load_faults(Rnd& g)
{
    Wanted w = want_model(g);
    static const char* KINDS[] = {"fs.read", "fs.open", "fs.seek", "fs.stat", "fs.close", "fs.short-read", "fs.eintr"};
    const char* kind = KINDS[g.coin(0.5) ? 0 : g.below(7)];
    double p = g.coin() ? 0.1 : 0.5;
    bool nth = g.coin(0.6);
    uint64_t which = g.below(g.coin() ? 4 : 40) + 1;
    Rnd vg{g.next()};
    std::string before = contents();
    sim::op("load_model " + w.f.path + " as '" + w.name + "' while " + kind + (nth ? fmt(" fails the %lluth time", (unsigned long long)which) : fmt(" fails now and then")));
    if (nth) {
        sim::fault_enable(kind, 0.0);
        sim::fault_nth(kind, which);
    } else
        sim::fault_enable(kind, p);
    uint64_t e0 = simfs::errors();
    std::optional<ModelHandle<T>> h;
    std::string e = outcome([&] { h = G->sc->load_model(w.f.path, w.name); });
    uint64_t failures = simfs::errors() - e0;
    bool full = !failures;
    sim::fault_nth(kind, 0);
    sim::fault_disable(kind);
    auto v = gen_view(G->m, vg);
    if (!e.empty()) {
        sim::probe("load.threw");
        require(failures > 0, "refused", "a model was refused though nothing failed: " + e);
        std::string now = contents();
        require(now == before, "half-done", "a model that could not be loaded (" + e + ") left something in the scene");
        std::string x = check_all(G->m, v ? &*v : nullptr, vg);
        if (!x.empty())
            violation("half-done", "after a model could not be loaded (" + e + "): " + x.substr(x.find('|') + 1));
        e = outcome([&] { h = G->sc->load_model(w.f.path, w.name); });
        require(e.empty(), "not-repeatable", "the model is still refused with the device working again: " + e);
        full = true;
    } else
        sim::probe(failures ? "load.survived" : "load.healthy");
    loaded_model(w.f, *h, w.wanted, full);
    model_instance(g);
    v = gen_view(G->m, vg);
    if (v) {
        // look at it from where it can be seen
        std::string x = check_all(G->m, &*v, vg);
        if (!x.empty())
            violation("incomplete-model", "after a model was loaded" + std::string(failures ? " with failures of the device: " : ": ") + x.substr(x.find('|') + 1));
    }
}
// files cut or damaged, in a second scene
void op_load_damaged(Rnd& g, Scene<T>& sc, const Inst& cam)
{
    ModelFile f = gen_model(g, 1000 + G->loads++);
    size_t n = g.below(f.files.size());
    auto it = f.files.begin();
    std::advance(it, (long)n);
    std::string& b = it->second;
    int how = (int)g.below(6);
    std::string what;
    if (how == 0) {
        what = "without " + it->first;
        f.files.erase(it);
    } else if (how <= 2) {
        size_t k = g.below(b.size() + 1);
        b.resize(k);
        what = it->first + fmt(" cut to %zu bytes", k);
    } else if (how == 3) {
        size_t k = g.below(b.size()), m = std::min<size_t>(b.size() - k, g.below(40) + 1);
        b.erase(k, m);
        what = it->first + fmt(" without %zu bytes at %zu", m, k);
    } else if (how == 4 && !b.empty()) {
        int c = (int)g.below(6) + 1;
        what = it->first + fmt(" with %d bytes changed", c);
        static const char D[] = "0123456789-.eE ,";
        for (int i = 0; i < c; ++i) {
            size_t k = g.below(b.size());
            // texts: digits for digits, mostly
            b[k] = std::isdigit((unsigned char)b[k]) || g.coin(0.3) ? D[g.below(16)] : it->first.ends_with(".bin") ? (char)g.below(256) : b[k];
        }
    } else {
        size_t k = g.below(b.size() + 1);
        b.resize(k);
        b.append(g.below(300), '\0');
        what = it->first + fmt(" zeros from %zu", k);
    }
    simfs::mkdirs(f.path.substr(0, f.path.rfind('/')));
    put_model(f);
    sim::op("load_model " + f.path + ", " + what);
    std::ostringstream before, after;
    auto* old = std::cout.rdbuf(before.rdbuf());
    sc.print_contents();
    std::cout.rdbuf(old);
    std::optional<ModelHandle<T>> h;
    std::string e = outcome([&] { h = sc.load_model(f.path); });
    if (!e.empty()) {
        sim::probe("damaged.threw");
        old = std::cout.rdbuf(after.rdbuf());
        sc.print_contents();
        std::cout.rdbuf(old);
        require(before.str() == after.str(), "half-done", "a damaged model that could not be loaded (" + e + ") left something in the scene");
        require(!outcome([&] { sc.get_model("a"); }).empty(), "half-done", "a damaged model that could not be loaded (" + e + ") can be found by its name");
    } else {
        sim::probe("damaged.loaded");
        std::optional<Inst> i;
        e = outcome([&] { i = sc.root.new_instance(*h); });
        require(e.empty(), "refused", "a loaded model cannot be placed: " + e);
        std::unique_ptr<SceneView<T>> v;
        e = outcome([&] { v.reset(new SceneView<T>(sc, Interval(Time::from_et(100), Time::from_et(100)), cam, ObservationMode::TRUE_STATE, 1)); });
        if (e.empty())
            for (int k = 0; k < 8; ++k) {
                V3 o = g.v(20), d = unit(o * -1 + g.v(1.5));
                HitRecord r = v->intersect(Ray<T>(Vec3<float>{(float)o.x, (float)o.y, (float)o.z}, Vec3<float>{(float)d.x, (float)d.y, (float)d.z}), 0.f);
                if (r.hit())
                    sim::probe("damaged.hit");
            }
        v.reset();
        e = outcome([&] { sc.root.delete_instance(*i); sc.delete_model(*h); });
        require(e.empty(), "refused", "a model of a damaged file cannot be deleted: " + e);
    }
    // still usable
    std::unique_ptr<SceneView<T>> v;
    e = outcome([&] { v.reset(new SceneView<T>(sc, Interval(Time::from_et(100), Time::from_et(100)), cam, ObservationMode::TRUE_STATE, 1)); });
    require(e.empty(), "unusable", "after a damaged model no view can be made: " + e);
}

// memory runs out while a view is made, or rendered
void op_view_starved(Rnd& g)
{
    Rnd vg{g.next()};
    auto vs = gen_view(G->m, g);
    uint64_t nth = g.below(g.coin() ? 60 : 600) + 1;
    if (!vs)
        return;
    Expect e = expected(G->m, *vs, sensor_of(G->m, vs->cam));
    sim::op(vs->text() + fmt(" [allocation %llu fails]", (unsigned long long)nth));
    Interval iv(Time::from_et(vs->t0), Time::from_et(vs->t0 + vs->dt));
    Inst cam = *G->m.n[(size_t)vs->cam].i;
    std::unique_ptr<SceneView<T>> v;
    std::string printed = contents();
    sim::alloc_fail_at(nth);
    std::string err = outcome([&] { v.reset(new SceneView<T>(*G->sc, iv, cam, (ObservationMode)vs->mode, (size_t)vs->samples)); });
    bool failed = sim::alloc_failed();
    sim::alloc_fail_at(0);
    require(!simspice::pending(), "spice-state", "an error is left pending in SPICE after a view ran out of memory");
    require(contents() == printed, "half-done", "making a view changed the contents of the scene");
    if (err.empty()) {
        require(!e.fails, "view", "the view succeeds though " + e.why + " (" + vs->text() + ")");
        must(check_view(G->m, *vs, e, *v));
        must(check_rays(G->m, *vs, e, *v, vg, nullptr));
        sim::probe("starved.view.ok");
    } else {
        require(failed || e.fails || e.may_fail, "view", "the view fails: " + err + " (" + vs->text() + ")");
        sim::probe("starved.view.threw");
    }
    v.reset();
    must(check_all(G->m, &*vs, vg, true));
}
void op_render_starved(Rnd& g)
{
    uint64_t nth = g.below(g.coin() ? 30 : 300) + 1;
    size_t k = g.below(8);
    if (G->old.empty())
        return;
    OldView& o = G->old[k % G->old.size()];
    if (!o.frame)
        return;
    sim::op(fmt("render of a view [allocation %llu fails]", (unsigned long long)nth));
    TestRenderer r;
    RenderSpec rs;
    rs.spp = 1;
    configure(r, rs);
    sim::alloc_fail_at(nth);
    std::string e = outcome([&] { r.render(*o.v, *o.fb); });
    bool failed = sim::alloc_failed();
    sim::alloc_fail_at(0);
    sim::probe(e.empty() ? "starved.render.ok" : "starved.render.threw");
    require(e.empty() || failed, "render", "a render fails: " + e);
    if (e.empty()) {
        std::string d = differs(*o.frame, capture(*o.fb));
        require(d.empty(), "render", "a render during which memory ran out says it is complete and is not: " + d);
    }
    bool same = g.coin();
    TestRenderer r2;
    configure(r2, rs);
    e = outcome([&] { (same ? r : r2).render(*o.v, *o.fb); });
    require(e.empty(), "not-repeatable", "a render after one that ran out of memory fails: " + e);
    std::string d = differs(*o.frame, capture(*o.fb));
    require(d.empty(), "not-repeatable", "a render after one that ran out of memory differs: " + d);
}
template <class P> std::vector<double> values(const Image<P>& i)
{
    std::vector<double> r{(double)i.width(), (double)i.height()};
    require(i.size() == (size_t)i.width() * (size_t)i.height(), "image", "an image's size does not match its resolution");
    for (size_t k = 0; k < i.size(); ++k)
        if constexpr (std::is_same_v<P, float>)
            r.push_back(i[k]);
        else
            for (size_t c = 0; c < 3; ++c)
                r.push_back(i[k][c]);
    return r;
}
template <class P> void image_op(Rnd& g)
{
    auto gen = [&](int mx) {
        Image<P> i((int)g.below((uint64_t)mx) + 1, (int)g.below((uint64_t)mx) + 1);
        for (size_t k = 0; k < i.size(); ++k)
            i[k] = P{(float)g.u(0, 4)};
        return i;
    };
    Image<P> a = gen(24), b = gen(24), ker = gen(g.coin(0.3) ? 40 : 7);
    if (g.coin())
        b = Image<P>(a.width(), a.height(), P{0.5f});
    int how = (int)g.below(7);
    uint64_t nth = g.below(4) + 1;
    static const char* WHAT[] = {"assignment", "copy", "sum", "get_channel", "convolve", "making", "clear"};
    sim::op(fmt("image %dx%d: %s [allocation %llu fails]", a.width(), a.height(), WHAT[how], (unsigned long long)nth));
    auto before = values(a);
    auto run = [&](Image<P>& x) -> std::vector<double> {
        switch (how) {
        case 0: x = b; return {};
        case 1: {
            Image<P> c(x);
            sim::alloc_fail_at(0);
            return values(c);
        }
        case 2: {
            Image<P> c = x + b;
            sim::alloc_fail_at(0);
            return values(c);
        }
        case 3: {
            Image<float> c = x.get_channel(0);
            sim::alloc_fail_at(0);
            return values(c);
        }
        case 4: x.convolve(ker); return {};
        case 5: {
            Image<P> c(7, 9, P{2.f});
            sim::alloc_fail_at(0);
            return values(c);
        }
        default: x.clear(); return {};
        }
    };
    Image<P> ref = a;
    std::vector<double> want, got;
    std::string er = outcome([&] { want = run(ref); });
    sim::alloc_fail_at(nth);
    std::string e = outcome([&] { got = run(a); });
    bool failed = sim::alloc_failed();
    sim::alloc_fail_at(0);
    if (e.empty()) {
        require(er.empty() && values(a) == values(ref), "image", std::string("the result of ") + WHAT[how] + " is wrong after memory ran short");
        return;
    }
    require(failed || !er.empty(), "image", std::string(WHAT[how]) + " throws: " + e);
    if (values(a) != before)
        violation("half-done", std::string(WHAT[how]) + " ran out of memory and changed the image");
    sim::probe("starved.image.threw");
    e = outcome([&] { got = run(a); });
    require(e.empty() == er.empty() && values(a) == values(ref) && got == want, "not-repeatable", std::string(WHAT[how]) + " gives another result after it ran out of memory: " + e);
}
void op_image(Rnd& g) { g.coin() ? image_op<float>(g) : image_op<T>(g); }

// the n-th query of the ephemeris fails
void op_query_fails(Rnd& g)
{
    Rnd vg{g.next()};
    auto vs = gen_view(G->m, g);
    if (!vs)
        return;
    Expect e = expected(G->m, *vs, sensor_of(G->m, vs->cam));
    if (e.fails || e.may_fail)
        return must(check_all(G->m, &*vs, vg));
    std::unique_ptr<SceneView<T>> v;
    uint64_t q0 = simspice::queries();
    std::string err = outcome([&] { v.reset(make_view(G->m, *vs)); });
    require(err.empty(), "view", "the view fails: " + err + " (" + vs->text() + ")");
    must(check_view(G->m, *vs, e, *v));
    uint64_t n = simspice::queries() - q0;
    sim::probe("queries", n);
    std::string printed = contents();
    for (int k = 0; n && k < 3; ++k) {
        uint64_t nth = g.below(n) + 1;
        bool random = g.coin(0.2);
        sim::op(vs->text() + (random ? fmt(" [queries fail]") : fmt(" [query %llu of %llu fails]", (unsigned long long)nth, (unsigned long long)n)));
        std::unique_ptr<SceneView<T>> w;
        uint64_t f0 = sim::faults_fired();
        if (random)
            sim::fault_enable("spice.fail", 2.0 / (double)n);
        else
            simspice::fail_nth(nth);
        err = outcome([&] { w.reset(make_view(G->m, *vs)); });
        simspice::fail_nth(0);
        sim::fault_disable("spice.fail");
        bool hit = !random || sim::faults_fired() > f0;
        require(!simspice::pending(), "spice-state", "an error is left pending in SPICE after a failed view");
        if (hit) {
            sim::probe("query.failed");
            require(!err.empty(), "swallowed", "a query of the ephemeris failed and the view was made all the same (" + vs->text() + ")");
        } else {
            require(err.empty(), "view", "the view fails: " + err);
            must(check_view(G->m, *vs, e, *w));
        }
        require(contents() == printed, "half-done", "a failed view changed the contents of the scene");
        must(check_all(G->m, &*vs, vg));
    }
}

struct Ops {
    int frame = 3, inst = 5, pose = 6, del_node = 2, geom = 2, prim = 2, light = 2, point = 2, again = 1, rename = 1, del_asset = 1, load = 1;
    int load_faults = 0, damaged = 0, view_starved = 0, render_starved = 0, image = 0, query = 0, stars = 0, aim = 0, aim_prim = 0, background = 0, aim_light = 0;
    double view = 0.3, old = 0.1;
    bool spice = false;
};
Inst* SECOND_CAM = nullptr;
// ---- stars and unresolved objects ---------------------------------------------------------------
// a view in which everything can be placed, and what it shows
struct Aim {
    ViewSpec v;
    St o; // with the sensor's orientation
    double fx;
    int w, h;
    // the direction in the world in which something must be to appear at a place in the image
    V3 at(Rnd& g) const
    {
        double px = g.coin(0.15) ? g.u(-3, w + 3) : g.below((uint64_t)w - 1) + g.u(-.45, .45), py = g.coin(0.15) ? g.u(-3, h + 3) : g.below((uint64_t)h - 1) + g.u(-.45, .45);
        V3 d = unit(V3{(px - w * .5) / fx, (py - h * .5) / fx, 1});
        if (g.coin(0.05))
            d = d * -1;
        return o.r * d;
    }
};
std::optional<Aim> aim(Rnd& g)
{
    auto v = gen_view(G->m, g);
    if (!v || !G->m.a[(size_t)G->m.n[(size_t)v->cam].asset].alive)
        return std::nullopt;
    Aim a;
    a.v = *v;
    if (g.coin(0.5))
        a.v.samples = 1;
    try {
        std::vector<double> ts = sample_times(a.v);
        a.o = ssb(G->m, v->cam, ts[0], ts[0]);
    } catch (NoData&) {
        return std::nullopt;
    }
    a.o.r = a.o.r * sensor_of(G->m, v->cam);
    auto cam = G->m.a[(size_t)G->m.n[(size_t)v->cam].asset].c->get();
    a.fx = focal_px(*cam), a.w = cam->resolution().x, a.h = cam->resolution().y;
    return a;
}
const char* STARS = "/simfs/data/stars.hrsc";
void op_stars(Rnd& g)
{
    auto a = aim(g);
    if (!a)
        return;
    G->focus = a->v;
    if (expected(G->m, a->v, sensor_of(G->m, a->v.cam)).fails)
        G->focus.reset();
    int how = (int)g.below(5);
    int n = g.coin(0.1) ? 0 : (int)g.below(12) + 1;
    auto true_direction = [&] { return g.coin(0.15) ? g.axis() : aberrate(a->at(g), a->o.v * -1); };
    if (how == 0) {
        std::vector<Star<T>> s;
        std::vector<MStar> ms;
        for (int i = 0; i < n; ++i) {
            V3 d = true_direction() * g.u(0.5, 2);
            T irr{(float)g.u(0.1, 1)};
            irr[g.below(3)] *= 0.5f;
            s.emplace_back(Vec3<double>{d.x, d.y, d.z}, irr);
            ms.push_back({d, irr});
        }
        edit(fmt("set_stars: %d", n), true, g, [&] { G->sc->set_stars(s); }, [&](Model& m) { m.stars = ms, m.dynamic = false; });
    } else if (how <= 3) {
        double now = a->v.t0 + a->v.dt / 2, first = how == 3 ? now + (g.coin(0.2) ? 0 : g.u(-1e8, 1e8)) : now;
        StarCatalog c;
        std::vector<StarData> data;
        double mas = M_PI / 180 / 3600 / 1000, y = now / (365.25 * 86400);
        for (int i = 0; i < n; ++i) {
            V3 d = unit(true_direction());
            StarData s{};
            s.id = (uint64_t)i + 1;
            s.visual_magnitude = (float)g.u(-1, 12);
            s.temperature = (float)g.u(2500, 20000);
            s.solid_angle = std::pow(10.0, g.u(-19, -14));
            double dec = std::asin(std::clamp(d.z, -1.0, 1.0)), ra = std::atan2(d.y, d.x);
            if (std::fabs(dec) < 1.55)
                s.pmRA = (float)g.u(-9000, 9000), s.pmDEC = (float)g.u(-9000, 9000);
            s.DEC = dec - s.pmDEC * mas * y;
            s.RA = ra - s.pmRA * mas * y / std::cos(dec);
            if (s.RA < 0)
                s.RA += 2 * M_PI;
            data.push_back(s);
            c.add_star(s);
        }
        simfs::mkdirs("/simfs/data");
        c.write_star_data(STARS);
        float limit = g.coin(0.3) ? (float)g.u(0, 10) : 100.f;
        std::stable_sort(data.begin(), data.end(), [](auto& p, auto& q) { return p.visual_magnitude < q.visual_magnitude; });
        std::erase_if(data, [&](const StarData& s) { return s.visual_magnitude > limit; });
        auto stars_at = [](const std::vector<StarData>& l, double et) {
            std::vector<MStar> r;
            for (auto& s : l)
                r.push_back({star_direction(s, et), scaled(black_body<T>(s.temperature), s.solid_angle)});
            return r;
        };
        bool dynamic = how == 3;
        if (g.coin(0.3)) { // first with a device that fails
            static const char* KINDS[] = {"fs.read", "fs.open", "fs.short-read", "fs.eintr", "fs.seek", "fs.stat"};
            const char* kind = KINDS[g.below(6)];
            uint64_t nth = g.below(4) + 1;
            sim::fault_enable(kind, 0.0), sim::fault_nth(kind, nth);
            sim::op(fmt("load %d stars while %s fails the %lluth time", n, kind, (unsigned long long)nth));
            std::string e = outcome([&] {
                if (dynamic)
                    G->sc->load_dynamic_stars(STARS, Time::from_et(first), limit);
                else
                    G->sc->load_stars(STARS, Time::from_et(first), limit);
            });
            sim::fault_nth(kind, 0), sim::fault_disable(kind);
            if (e.empty())
                G->m.stars = stars_at(data, first), G->m.catalogue = data, G->m.dynamic = dynamic;
            else
                sim::probe("stars.failed");
            std::string w = check_all(G->m, G->focus ? &*G->focus : nullptr, Rnd{1});
            if (!w.empty())
                violation("half-done", fmt("after loading stars while %s failed ", kind) + (e.empty() ? "(which was not reported): " : "(reported): ") + w.substr(w.find('|') + 1));
        }
        edit(fmt("%s: %d, magnitude limit %g", dynamic ? "load_dynamic_stars" : "load_stars", n, (double)limit), true, g,
             [&] {
                 if (dynamic)
                     G->sc->load_dynamic_stars(STARS, Time::from_et(first), limit);
                 else
                     G->sc->load_stars(STARS, Time::from_et(first), limit);
             },
             [&](Model& m) {
                 m.stars = stars_at(data, first), m.dynamic = dynamic;
                 if (dynamic)
                     m.catalogue = data;
             });
        if (dynamic) {
            if (G->focus)
                must(check_all(G->m, &*G->focus, Rnd{g.next()}));
            edit("update_star_epoch", true, g, [&] { G->sc->update_star_epoch(Time::from_et(now)); }, [&](Model& m) { m.stars = stars_at(data, now); });
        }
    } else {
        double now = a->v.t0 + a->v.dt / 2;
        edit("update_star_epoch", true, g, [&] { G->sc->update_star_epoch(Time::from_et(now)); },
             [&](Model& m) {
                 if (m.dynamic)
                     for (size_t i = 0; i < m.stars.size(); ++i)
                         m.stars[i].dir = star_direction(m.catalogue[i], now);
             });
    }
    if (G->focus)
        must(check_all(G->m, &*G->focus, g, g.coin(0.3)));
    G->focus.reset();
}
// puts an unresolved object where a camera sees it
void op_aim_point(Rnd& g)
{
    auto a = aim(g);
    int i = pick_node(g, [](const MNode& n) { return !n.frame && n.parent == 0 && n.rm != R_ZUP && n.rm != R_ZDOWN && G->m.a[(size_t)n.asset].kind == UNRES; }, 0);
    if (!a || i < 0)
        return;
    double dist = std::pow(10.0, g.u(0, 5));
    V3 d = a->at(g);
    if (a->v.mode == (int)ObservationMode::ABERRATED_STATE)
        d = aberrate(d, a->o.v * -1);
    V3 p = a->o.p + d * dist;
    MNode& n = G->m.n[(size_t)i];
    edit(fmt("node %d: set_position %.6g m before node %d", i, dist, a->v.cam), true, g, [&] { n.i->set_position(units::Meter(p.x), units::Meter(p.y), units::Meter(p.z)); }, [=](Model& m) { m.n[(size_t)i].pm = P_MANUAL, m.n[(size_t)i].pos = p; });
    if (n.pm == P_MANUAL && len(n.vel) > 0)
        edit(fmt("node %d: set_velocity", i), true, g, [&] { n.i->set_velocity(units::MetersPerSecond(0), units::MetersPerSecond(0), units::MetersPerSecond(0)); }, [=](Model& m) { m.n[(size_t)i].vel = V3{}; });
    G->focus = a->v;
    must(check_all(G->m, &a->v, g, g.coin(0.3)));
    G->focus.reset();
}
// puts something in front of a camera
void op_aim_prim(Rnd& g)
{
    auto a = aim(g);
    int i = pick_node(g, [](const MNode& n) { return !n.frame && n.parent == 0 && n.rm != R_ZUP && n.rm != R_ZDOWN && (G->m.a[(size_t)n.asset].kind == PRIM || G->m.a[(size_t)n.asset].kind == LIGHT); }, 0);
    int lamp = -1;
    if (G->light && g.coin(G->borders ? 0.7 : 0.4)) // a border
        if (int b = pick_node(g, [](const MNode& n) { return !n.frame && n.parent == 0 && n.rm != R_ZUP && n.rm != R_ZDOWN && G->m.a[(size_t)n.asset].null; }, 0); b >= 0) {
            i = b;
            lamp = pick_node(g, [](const MNode& n) { return !n.frame && n.parent == 0 && n.rm != R_ZUP && n.rm != R_ZDOWN && G->m.a[(size_t)n.asset].kind == LIGHT && G->m.a[(size_t)n.asset].radius < 100; }, 0);
        }
    if (!a || i < 0)
        return;
    a->v.samples = g.coin(0.7) ? 1 : a->v.samples;
    MNode& n = G->m.n[(size_t)i];
    const MAsset& x = G->m.a[(size_t)n.asset];
    double size = x.kind == PRIM ? G->m.a[(size_t)x.geom].shape.size() : x.radius;
    if (!(size > 0) || size > 100)
        return;
    V3 s{1, 1, 1};
    if (g.coin(G->light && x.kind == LIGHT ? 0.1 : 0.6))
        s = g.coin(0.3) ? V3{1, 1, 1} * g.u(0.5, 2) : V3{g.u(0.4, 2), g.u(0.4, 2), g.u(0.4, 2)};
    double dist = size * std::max({s.x, s.y, s.z}) * g.u(1.4, 4.5) * (a->fx > 100 ? a->fx / 8 * g.u(0.05, 1) : 1);
    V3 d = a->at(g);
    if (a->v.mode == (int)ObservationMode::ABERRATED_STATE)
        d = aberrate(d, a->o.v * -1);
    V3 p = a->o.p + d * dist, ax = g.axis();
    double ang = g.u(-3, 3);
    M3 rot = turn(ax, ang);
    auto set = [&](const std::string& what, std::function<void()> run, std::function<void(MNode&)> apply) { edit(fmt("node %d: %s", i, what.c_str()), true, g, run, [=](Model& m) { apply(m.n[(size_t)i]); }); };
    set(fmt("set_position %.6g m before node %d", dist, a->v.cam), [&] { n.i->set_position(units::Meter(p.x), units::Meter(p.y), units::Meter(p.z)); }, [=](MNode& z) { z.pm = P_MANUAL, z.pos = p; });
    if (n.pm == P_MANUAL && len(n.vel) > 0)
        set("set_velocity", [&] { n.i->set_velocity(units::MetersPerSecond(0), units::MetersPerSecond(0), units::MetersPerSecond(0)); }, [=](MNode& z) { z.vel = V3{}; });
    set("set_rotation", [&] { n.i->set_rotation_local_to_parent(Vec3<double>{ax.x, ax.y, ax.z}, units::Radian(ang)); }, [=](MNode& z) { z.rm = R_MANUAL, z.q = rot; });
    if (G->light && g.coin(0.8) && a->v.samples == 1)
        G->focus_view = a->v;
    if (n.alive)
        set("set_scale", [&] { n.i->set_scale(s.x, s.y, s.z); }, [=](MNode& z) { z.s = s; });
    if (lamp >= 0 && lamp != i) { // right behind it
        MNode& l = G->m.n[(size_t)lamp];
        double R = G->m.a[(size_t)l.asset].radius;
        const double D = dist + 4.5 * size * std::max({s.x, s.y, s.z}), k = std::max(1., D * 4 / a->fx / R);
        V3 q = a->o.p + d * (D + k * R * g.u(1.1, 1.5));
        edit(fmt("node %d: set_position behind node %d", lamp, i), true, g, [&] { l.i->set_position(units::Meter(q.x), units::Meter(q.y), units::Meter(q.z)); }, [=](Model& m) { m.n[(size_t)lamp].pm = P_MANUAL, m.n[(size_t)lamp].pos = q; });
        edit(fmt("node %d: set_velocity", lamp), true, g, [&] { l.i->set_velocity(units::MetersPerSecond(0), units::MetersPerSecond(0), units::MetersPerSecond(0)); }, [=](Model& m) { m.n[(size_t)lamp].vel = V3{}; });
        edit(fmt("node %d: set_scale", lamp), true, g, [&] { l.i->set_scale(k, k, k); }, [=](Model& m) { m.n[(size_t)lamp].s = V3{k, k, k}; });
    }
    must(check_all(G->m, &a->v, g, g.coin(0.3)));
}
// a light where it shines on something, or something in its way
void op_aim_light(Rnd& g)
{
    auto v = gen_view(G->m, g);
    int k = pick_node(g, [](const MNode& n) { return !n.frame && n.parent == 0 && G->m.a[(size_t)n.asset].kind == PRIM; }, 0);
    if (g.coin(0.3))
        if (int b = pick_node(g, [](const MNode& n) { return !n.frame && n.parent == 0 && G->m.a[(size_t)n.asset].null; }, 0); b >= 0)
            k = b;
    int i = pick_node(g, [&](const MNode& n) { return !n.frame && n.parent == 0 && n.rm != R_ZUP && n.rm != R_ZDOWN && (G->m.a[(size_t)n.asset].kind == LIGHT || (g.coin(0.15) && G->m.a[(size_t)n.asset].kind == PRIM)); }, 0);
    if (!v || k < 0 || i < 0 || i == k)
        return;
    v->samples = 1;
    if (G->focus_view && g.coin(0.8))
        v = *G->focus_view;
    double t = sample_times(*v)[0];
    St cam, at;
    try {
        cam = ssb(G->m, v->cam, t, t), at = ssb(G->m, k, t, t);
    } catch (...) { // there is no such pose
        return;
    }
    MNode& n = G->m.n[(size_t)i];
    const MAsset& x = G->m.a[(size_t)n.asset];
    double ksize = G->m.a[(size_t)G->m.n[(size_t)k].asset].kind == PRIM ? G->m.a[(size_t)G->m.a[(size_t)G->m.n[(size_t)k].asset].geom].shape.size() : 1;
    double size = x.kind == PRIM ? G->m.a[(size_t)x.geom].shape.size() : x.radius;
    if (!(size > 0) || size > 100 || ksize > 100)
        return;
    V3 to = unit(cam.p - at.p);
    V3 d = unit(to + g.axis() * g.u(0, 1.3));
    if (g.coin(G->m.a[(size_t)G->m.n[(size_t)k].asset].null ? 0.8 : 0.05))
        d = to * -1;
    if (!(len(to) > 0.5)) // both at the same place
        return;
    V3 p = at.p + d * (x.kind == PRIM ? ksize * g.u(1.5, 4) + size : dot(d, to) < -0.99 ? 9 * ksize + size * g.u(1.2, 3) : ksize + size * g.u(10, 60));
    auto set = [&](const std::string& what, std::function<void()> run, std::function<void(MNode&)> apply) { edit(fmt("node %d: %s", i, what.c_str()), true, g, run, [=](Model& m) { apply(m.n[(size_t)i]); }); };
    set(fmt("set_position so that it shines on node %d", k), [&] { n.i->set_position(units::Meter(p.x), units::Meter(p.y), units::Meter(p.z)); }, [=](MNode& z) { z.pm = P_MANUAL, z.pos = p; });
    if (len(n.vel) > 0)
        set("set_velocity", [&] { n.i->set_velocity(units::MetersPerSecond(0), units::MetersPerSecond(0), units::MetersPerSecond(0)); }, [=](MNode& z) { z.vel = V3{}; });
    if (x.kind == LIGHT)
        set("set_scale", [&] { n.i->set_scale(1, 1, 1); }, [=](MNode& z) { z.s = V3{1, 1, 1}; });
    must(check_all(G->m, &*v, g, g.coin(0.3)));
}
void play(const Ops& o, int n)
{
    int w[] = {o.frame, o.inst, o.pose, o.del_node, o.geom, o.prim, o.light, o.point, o.again, o.rename, o.del_asset, o.load, o.load_faults, o.damaged, o.view_starved, o.render_starved, o.image, o.query, o.stars, o.aim, o.aim_prim, o.background, o.aim_light};
    int sum = 0;
    for (int x : w)
        sum += x;
    for (int i = 0; i < n; ++i) {
        bool keep = sim::keep_op();
        Rnd g{sim::wrand()};
        if (!keep)
            continue;
        int r = (int)g.below((uint64_t)sum), k = 0;
        while (r >= w[k])
            r -= w[k++];
        switch (k) {
        case 0: op_frame(g); break;
        case 1: op_instance(g); break;
        case 2: op_pose(g, o.spice); break;
        case 3: op_delete_node(g); break;
        case 4: op_geometry(g); break;
        case 5: op_primitive(g); break;
        case 6: op_light(g); break;
        case 7: op_point(g); break;
        case 8: op_again(g); break;
        case 9: op_rename(g); break;
        case 10: op_delete_asset(g); break;
        case 11: op_load(g); break;
        case 12: op_load_faults(g); break;
        case 13: op_load_damaged(g, *pool()[1].scene, *SECOND_CAM); break;
        case 14: op_view_starved(g); break;
        case 15: op_render_starved(g); break;
        case 16: op_image(g); break;
        case 17: op_query_fails(g); break;
        case 18: op_stars(g); break;
        case 19: op_aim_point(g); break;
        case 20: op_aim_prim(g); break;
        case 21: op_background(g); break;
        default: op_aim_light(g);
        }
        if (g.coin(o.view)) {
            auto v = gen_view(G->m, g);
            if (v)
                sim::op(v->text());
            must(check_all(G->m, v ? &*v : nullptr, g, g.coin(0.3)));
        }
        if (g.coin(o.old))
            check_old();
        uint64_t h = 0;
        for (auto& x : G->m.n)
            h = hash64(h, (uint64_t)(x.alive * 64 + x.frame * 32 + x.pm * 6 + x.rm) * 64 + (uint64_t)(x.parent + 1));
        for (auto& x : G->m.a)
            h = hash64(h, (uint64_t)(x.alive * 8 + x.kind));
        sim::state(h);
    }
    auto v = gen_view(G->m, *std::make_unique<Rnd>(Rnd{n * 77ull}));
    must(check_all(G->m, v ? &*v : nullptr, Rnd{5}));
    check_old();
    sim::mix(G->m.n.size());
    sim::mix(G->m.a.size());
}
void start(bool spice, float narrow = 1000.f)
{
    world();
    sequential();
    sim::set_race_detect(false);
    for (auto& b : BODIES)
        simspice::add_body(b.name, b.t0, b.t1, b.scale);
    G = new Game;
    G->sc = pool()[0].scene;
    MNode root;
    root.frame = true;
    root.pm = P_SPICE;
    root.rm = R_SPICE;
    root.origin = "SOLAR SYSTEM BARYCENTER";
    root.spice_frame = "J2000";
    G->m.n.push_back(root);
    for (size_t i = 0; i < 2; ++i) { // a wide and a narrow one
        auto& c = pool()[0].cams[i];
        c.configure_sensor_from_pitch(Resolution{8, 8}, units::Micrometer(10.f));
        c.set_focal_length(units::Millimeter(i ? narrow : 0.08f));
    }
    for (auto& c : pool()[0].cams) {
        MAsset x;
        x.c = c;
        made(CAM, x, c.name());
        add_asset(x);
    }
    for (int k = 0; k < NKIND; ++k)
        for (auto* n : NAMES)
            if (*n)
                G->seen[k].insert(n);
    // something to begin with: a camera, a frame or two, shapes
    Rnd g{sim::wrand()};
    double pa = G->p_alloc;
    G->p_alloc = 0;
    for (int i = 0; i < 2; ++i)
        op_frame(g);
    for (int i = 0; i < 3; ++i)
        op_geometry(g), op_primitive(g);
    op_light(g);
    op_instance(g, CAM);
    for (int i = 0; i < 3; ++i)
        op_instance(g, PRIM);
    op_instance(g, LIGHT);
    for (int i = 0; i < 4; ++i)
        op_pose(g, spice);
    G->p_alloc = pa;
}
void g01()
{
    start(false);
    G->p_alloc = sim::wunit() < 0.5 ? 0 : 0.3;
    Ops o;
    o.frame = 1, o.pose = 1, o.geom = 4, o.prim = 4, o.light = 4, o.point = 4, o.again = 3, o.rename = 10, o.del_asset = 6, o.view = 0.05;
    o.inst = 3;
    play(o, sim::wint(15, 70));
}
void g02()
{
    start(false);
    G->render_old = sim::wcoin(0.6);
    G->p_alloc = sim::wunit() < 0.7 ? 0 : 0.3;
    Ops o;
    o.frame = 5, o.inst = 10, o.del_node = 6, o.del_asset = 5, o.load = 2, o.pose = 3, o.old = 0.4;
    play(o, sim::wint(15, 60));
}
void g03()
{
    start(false);
    G->render_old = true;
    G->contents = true;
    G->p_alloc = 0.8;
    G->alloc_span = (uint64_t)sim::wint(4, 40);
    Ops o;
    o.view_starved = 6, o.render_starved = 4, o.image = 3, o.view = 0.1;
    play(o, sim::wint(10, 50));
}
void g04()
{
    start(true);
    Ops o;
    o.frame = 6, o.inst = 8, o.pose = 30, o.view = 0.6, o.spice = true, o.rename = 0, o.again = 0;
    G->p_alloc = sim::wunit() < 0.8 ? 0 : 0.2;
    play(o, sim::wint(10, 60));
}
void s04()
{
    start(true);
    Ops o;
    o.frame = 6, o.inst = 6, o.pose = 16, o.query = 10, o.spice = true, o.view = 0.2, o.rename = 0, o.again = 0, o.load = 0;
    play(o, sim::wint(10, 40));
}
void w01()
{
    start(false);
    auto cam = pool()[1].scene->root.new_instance(pool()[1].cams[0]);
    SECOND_CAM = &cam;
    Ops o;
    bool damage = sim::wcoin(0.4);
    G->p_alloc = sim::wunit() < 0.6 ? 0 : 0.4;
    o = Ops{};
    o.load = G->p_alloc > 0 ? 6 : 1, o.load_faults = damage ? 0 : 14, o.damaged = damage ? 20 : 0, o.view = 0.2;
    o.geom = o.prim = o.light = o.point = o.frame = 1;
    play(o, sim::wint(5, 30));
}
void p01()
{
    start(sim::wcoin());
    G->p_alloc = sim::wunit() < 0.7 ? 0 : 0.3;
    G->alloc_span = 25;
    G->sky = 1;
    G->render_old = sim::wcoin(0.5);
    Ops o;
    o.frame = 2, o.inst = 4, o.pose = 8, o.point = 8, o.light = 4, o.stars = 16, o.aim = 16, o.rename = 0, o.again = 0, o.load = 0, o.geom = 1, o.prim = 1, o.old = 0.2;
    o.spice = false;
    Rnd g{sim::wrand()};
    double pa = G->p_alloc;
    G->p_alloc = 0;
    for (int i = 0; i < 4; ++i)
        op_point(g);
    for (int i = 0; i < 3; ++i)
        op_instance(g, UNRES);
    G->p_alloc = pa;
    play(o, sim::wint(10, 50));
}
void p03()
{
    start(sim::wcoin(0.2), 0.4f);
    G->p_alloc = 0;
    G->sky = 0;
    G->rays = 2;
    G->surfaces = 1;
    G->light = true;
    G->render_old = sim::wcoin(0.3);
    Ops o;
    o.frame = 1, o.inst = 4, o.pose = 2, o.geom = 4, o.prim = 8, o.light = 4, o.point = 0, o.stars = 0, o.aim_prim = 24, o.aim_light = 36, o.background = 3, o.del_node = 2, o.del_asset = 1, o.rename = 0, o.again = 0, o.load = 1, o.old = 0.2;
    Rnd g{sim::wrand()};
    G->borders = g.coin(0.3);
    for (int i = 0; i < (G->borders ? 4 : 2); ++i)
        op_primitive(g), op_light(g);
    for (int i = 0; i < (G->borders ? 6 : 3); ++i)
        op_instance(g, i % 3 < 2 ? PRIM : LIGHT);
    play(o, sim::wint(10, 50));
}
void p02()
{
    start(sim::wcoin(0.3), sim::wcoin() ? 1000.f : 0.4f);
    G->p_alloc = 0;
    G->sky = 0;
    G->rays = 16;
    G->surfaces = 1;
    G->render_old = sim::wcoin(0.3);
    Ops o;
    o.frame = 2, o.inst = 8, o.pose = 8, o.geom = 4, o.prim = 4, o.light = 2, o.point = 0, o.stars = 0, o.aim_prim = 24, o.del_node = 2, o.del_asset = 1, o.rename = 0, o.again = 1, o.load = 1, o.old = 0.2;
    Rnd g{sim::wrand()};
    for (int i = 0; i < 3; ++i)
        op_instance(g, PRIM);
    play(o, sim::wint(10, 50));
}
sim::Prep prep(fill_pool);
sim::Reg r1("g01_names", g01), r2("g02_delete", g02), r3("g03_memory", g03), r4("g04_poses", g04), r5("s04_ephemeris", s04), r6("w01_model", w01), r7("p01_points", p01), r8("p02_surfaces", p02), r9("p03_light", p03);
} // namespace
