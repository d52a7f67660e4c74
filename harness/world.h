// Generated scenes: a Spec describes a camera, objects, lights, point sources and render settings, and can be
// built any number of times, into any scene.
#pragma once
#include "common.h"
#include "huira/huira.hpp"
#include "simfs.h"
#include "simspice.h"
#include <cmath>
#include <optional>

namespace W {
using namespace huira;
using T = RGB;
using Cam = CameraModelHandle<T>;
using Inst = InstanceHandle<T>;

inline void world()
{
    simspice::reset();
    simfs::reset();
    simfs::mkdirs("/simfs/cwd");
    simfs::virtual_cwd(true);
    simfs::set_cwd("/simfs/cwd");
    simspice::kernel("/simfs/data/kernels/lsk/naif0012.tls", "KPL/LSK 37\n");
}
inline float uf(double a, double b) { return (float)(a + (b - a) * sim::wunit()); }
inline T rgb(double a, double b) { return T{uf(a, b), uf(a, b), uf(a, b)}; }
struct V3 {
    double x = 0, y = 0, z = 0;
};
inline V3 v3(double a) { return {uf(-a, a), uf(-a, a), uf(-a, a)}; }

// A PSF given by a table of kernels
template <class S> struct TablePSF : huira::PSF<S> {
    TablePSF(int radius, int banks, uint64_t seed)
    {
        this->cache_.radius = radius;
        this->cache_.banks = banks;
        this->cache_.dim = 2 * radius + 1;
        int n = this->cache_.dim;
        for (int b = 0; b < banks * banks; ++b) {
            Image<S> k(n, n);
            S sum{0};
            for (int i = 0; i < n * n; ++i) {
                uint64_t h = hash64(hash64(seed, (uint64_t)b), (uint64_t)i);
                float d = 1.f + (float)std::abs(i % n - radius) + (float)std::abs(i / n - radius);
                for (size_t c = 0; c < S::size(); ++c)
                    k[(size_t)i][c] = (0.2f + (float)((h >> (c * 16)) & 1023) / 1023.f) / (d * d);
                sum += k[(size_t)i];
            }
            for (int i = 0; i < n * n; ++i)
                k[(size_t)i] = k[(size_t)i] / sum;
            this->cache_.kernels.push_back(k);
        }
    }
    S evaluate(float x, float y) override { return S{std::exp(-(x * x + y * y))}; }
};
// A PSF that goes through the real generation of its kernels
template <class S> struct SmallPSF : huira::PSF<S> {
    float a, b, c;
    SmallPSF(float a_, float b_, float c_, int radius, int banks) : a(a_), b(b_), c(c_)
    {
        this->build_polyphase_cache(radius, banks);
    }
    S evaluate(float x, float y) override
    {
        float r = x * x + a * y * y + b * x * y;
        return S{1.f / (1.f + r), 1.f / (1.f + c * r), 1.f / (2.f + r)};
    }
};

struct CamSpec {
    int w = 16, h = 16;
    float focal_mm = 50, pitch_um = 100; // fx = focal/pitch
    std::optional<float> cx, cy;
    bool explicit_matrix = false;
    float fy_ratio = 1;
    float fstop = 0;
    int psf = 0; // 0 none, 1 table, 2 generated
    int psf_radius = 1, psf_banks = 1;
    uint64_t psf_seed = 0;
    bool convolve = false;
    float glare = 0;
    bool dof = false;
    float focus = 0; // 0: infinity
    float rotation = 0;
    int distortion = 0; // 1 brown 2 opencv 3 owen
    std::array<double, 8> k{};
    bool blender = false;
    int order = 0; // configuration order
    float qe = 1, full_well = 0, gain = 0;
    int bits = 0;
    double fx() const { return focal_mm * 1000.0 / pitch_um; }
};
inline void apply_camera(Cam c, const CamSpec& s)
{
    auto sensor = [&] {
        if (s.explicit_matrix) {
            float f = (float)s.fx();
            c.set_intrinsics(f, f * s.fy_ratio, s.cx.value_or(s.w * 0.5f), s.cy.value_or(s.h * 0.5f), Resolution{s.w, s.h}, units::Millimeter(s.focal_mm));
        } else {
            c.configure_sensor_from_pitch(Resolution{s.w, s.h}, units::Micrometer(s.pitch_um), units::Micrometer(s.pitch_um / s.fy_ratio), s.cx, s.cy);
        }
    };
    auto focal = [&] {
        if (!s.explicit_matrix)
            c.set_focal_length(units::Millimeter(s.focal_mm));
    };
    auto distort = [&] {
        if (s.distortion == 1)
            c.set_brown_conrady_distortion(BrownCoefficients{s.k[0], s.k[1], s.k[2], s.k[3], s.k[4]});
        else if (s.distortion == 2)
            c.set_opencv_distortion(OpenCVCoefficients{s.k[0], s.k[1], s.k[2], s.k[3], s.k[4], s.k[5], s.k[6], s.k[7], 0, 0, 0, 0});
        else if (s.distortion == 3)
            c.set_owen_distortion(OwenCoefficients{s.k[0], s.k[1], s.k[2], s.k[3], s.k[4], s.k[5]});
    };
    auto blender = [&] {
        if (s.blender)
            c.use_blender_convention();
    };
    std::function<void()> steps[4] = {focal, sensor, distort, blender};
    std::vector<int> idx{0, 1, 2, 3};
    int o = s.order;
    for (int n = 4; n > 0; --n) {
        int k = o % n;
        o /= n;
        steps[idx[(size_t)k]]();
        idx.erase(idx.begin() + k);
    }
    c.set_sensor_rotation(units::Radian(s.rotation));
    if (s.fstop > 0)
        c.set_fstop(s.fstop);
    if (s.psf == 1)
        c.set_psf<TablePSF<T>>(s.psf_radius, s.psf_banks, s.psf_seed);
    else if (s.psf == 2)
        c.set_psf<SmallPSF<T>>(1.f + (float)(s.psf_seed % 7) * 0.1f, 0.1f, 0.7f, s.psf_radius, s.psf_banks);
    if (s.psf && s.convolve)
        c.enable_psf_convolution();
    if (s.dof)
        c.enable_depth_of_field();
    if (s.focus > 0)
        c.set_focus_distance(units::Meter(s.focus));
    if (s.glare > 0)
        c.set_veiling_glare(s.glare);
    c.set_sensor_simulate_noise(false);
    if (s.full_well > 0)
        c.set_sensor_full_well_capacity(s.full_well);
    if (s.gain > 0)
        c.set_sensor_gain(s.gain);
    if (s.bits)
        c.set_sensor_bit_depth(s.bits);
    if (s.qe < 1)
        c.set_sensor_quantum_efficiency((double)s.qe);
}
inline std::string describe(const CamSpec& c)
{
    return fmt("camera %dx%d fx=%.3f cx=%.2f cy=%.2f psf=%d r%d b%d conv=%d glare=%.2f dof=%d focus=%g rot=%.2f dist=%d blender=%d explicit=%d order=%d", c.w, c.h, c.fx(),
               c.cx.value_or(c.w * .5f), c.cy.value_or(c.h * .5f), c.psf, c.psf_radius, c.psf_banks, c.convolve, c.glare, c.dof, c.focus, c.rotation, c.distortion, c.blender, c.explicit_matrix, c.order);
}

struct NodeSpec {
    V3 pos, vel, axis{0, 0, 1}, spin;
    double angle = 0, scale = 1;
    int frame = -1; // which subframe it hangs under (-1: root)
    bool moves = false;
};
struct MatSpec {
    int bsdf = 0; // 0 lambert 1 cook-torrance 2 oren-nayar 3 lommel-seeliger 4 mcewen 5 hapke
    T albedo{1}, transmission{0}, emissive{0};
    float rough = 0.5f, metal = 0, alpha = 1;
    int tex = 0; // bit0 albedo, 1 alpha, 2 rough, 4 normal
    uint64_t tseed = 0;
};
struct ObjSpec {
    int kind = 0; // 0 ellipsoid, 1 quad, 2 box, 3 model
    V3 dims{1, 1, 1};
    MatSpec mat;
    int medium = 0;
    float absorb = 0, scatter = 0;
    std::vector<NodeSpec> at;
};
struct LightSpec {
    bool sun = false;
    float radius = 0.1f, power = 100;
    NodeSpec at;
};
struct PointSpec {
    int kind = 0; // 0 star, 1 fixed irradiance, 2 emitter, 3 sphere, 4 asteroid
    V3 dir{0, 0, 1};
    T irr{1};
    float a = 1, b = 0;
    NodeSpec at;
};
struct RenderSpec {
    int spp = 1, bounces = 2, min_spp = 1;
    bool dynamic = false;
    float threshold = 0.1f, clamp = 0;
};
enum { C_DEPTH = 1, C_ALBEDO = 2, C_IDS = 4, C_CAMN = 8, C_WORLDN = 16, C_POWER = 32, C_RESPONSE = 64 };
struct Spec {
    CamSpec cam;
    NodeSpec cam_at;
    std::vector<NodeSpec> frames;
    std::vector<ObjSpec> objs;
    std::vector<LightSpec> lights;
    std::vector<PointSpec> points;
    int background = 0; // 0 black, 1 constant, 2 image
    T bg{0};
    double t0 = 100, dt = 1;
    int temporal = 1;
    int mode = 0;
    RenderSpec rs;
    int channels = C_POWER;
};

// ---- generation ---------------------------------------------------------------
inline void wide_or_tall(int& w, int& h)
{
    if (sim::wcoin(0.4))
        std::swap(w, h);
}
inline CamSpec gen_camera(bool big_tiles)
{
    CamSpec c;
    int k = sim::wint(0, 9);
    if (big_tiles && k < 5) {
        c.w = sim::wint(62, 140);
        c.h = sim::wint(3, 7);
    } else if (k < 8) {
        c.w = sim::wint(17, 52);
        c.h = sim::wint(3, 6);
    } else {
        c.w = sim::wint(3, 20);
        c.h = sim::wint(3, 20);
    }
    wide_or_tall(c.w, c.h);
    c.pitch_um = 100;
    c.focal_mm = (float)(std::max(c.w, c.h) * uf(0.6, 2.5)) * 0.1f;
    if (sim::wcoin(0.3)) {
        c.cx = (float)c.w * uf(0.2, 0.8);
        c.cy = (float)c.h * uf(0.2, 0.8);
    }
    c.explicit_matrix = sim::wcoin(0.2);
    if (sim::wcoin(0.2))
        c.fy_ratio = uf(0.8, 1.25);
    if (sim::wcoin(0.3))
        c.fstop = uf(1, 8);
    if (sim::wcoin(0.4)) {
        c.psf = 1;
        c.psf_radius = sim::wint(1, sim::wcoin(0.2) ? 4 : 2);
        c.psf_banks = sim::wint(1, 3);
        c.psf_seed = sim::wrand();
        c.convolve = sim::wcoin(0.5);
    }
    if (sim::wcoin(0.2))
        c.glare = uf(0.01, 0.5);
    if (sim::wcoin(0.2)) {
        c.dof = sim::wcoin();
        c.focus = uf(0.2, 8);
    }
    if (sim::wcoin(0.3))
        c.rotation = uf(-3, 3);
    if (sim::wcoin(0.3)) {
        c.distortion = sim::wint(1, 3);
        // small enough to be invertible all over the sensor
        double hx = c.w / c.fx() * std::max(0.5, 0.5 + std::fabs(c.cx.value_or(c.w * .5f) / c.w - 0.5));
        double hy = c.h / c.fx() * std::max(0.5, 0.5 + std::fabs(c.cy.value_or(c.h * .5f) / c.h - 0.5)) * 1.25;
        double r2 = hx * hx + hy * hy;
        double lim = 0.03 / (1 + r2 * r2 * r2);
        for (auto& v : c.k)
            v = uf(-lim, lim);
        if (c.distortion == 3)
            for (auto& v : c.k)
                v *= 0.05;
    }
    c.blender = sim::wcoin(0.15);
    c.order = sim::wint(0, 23);
    if (sim::wcoin(0.5)) {
        c.full_well = uf(1e3, 1e6);
        c.gain = uf(0.5, 20);
        c.bits = sim::wint(4, 16);
        c.qe = uf(0.2, 1);
    }
    return c;
}
inline NodeSpec gen_node(const Spec& s, double spread, double zmin, double zmax, bool motion)
{
    NodeSpec n;
    double sign = s.cam.blender ? -1 : 1;
    n.pos = {uf(-spread, spread), uf(-spread, spread), sign * uf(zmin, zmax)};
    n.axis = v3(1);
    if (std::fabs(n.axis.x) + std::fabs(n.axis.y) + std::fabs(n.axis.z) < 0.1)
        n.axis = {0, 0, 1};
    n.angle = uf(-180, 180);
    if (!s.frames.empty() && sim::wcoin(0.4))
        n.frame = sim::wint(0, (int)s.frames.size() - 1);
    if (motion && sim::wcoin(0.5)) {
        n.moves = true;
        n.vel = v3(0.5);
        if (sim::wcoin())
            n.spin = v3(0.5);
    }
    return n;
}
struct GenOpt {
    bool objects = true, lights = true, points = true, big_tiles = false, motion = true, models = true, media = true;
    int max_objs = 4;
};
inline Spec gen_spec(const GenOpt& o)
{
    Spec s;
    s.cam = gen_camera(o.big_tiles);
    bool motion = o.motion && sim::wcoin(0.4);
    s.temporal = motion ? sim::wint(2, 3) : 1;
    s.dt = uf(0.1, 2);
    s.t0 = sim::wint(-1000, 1000);
    s.mode = sim::wint(0, 2);
    int nf = sim::wint(0, 2);
    for (int i = 0; i < nf; ++i) {
        NodeSpec n;
        n.pos = v3(0.3);
        n.axis = {uf(-1, 1), uf(-1, 1), 1};
        n.angle = uf(-20, 20);
        if (i && sim::wcoin())
            n.frame = 0;
        if (motion && sim::wcoin(0.4)) {
            n.moves = true;
            n.vel = v3(0.3);
            if (sim::wcoin(0.3))
                n.spin = v3(0.1);
        }
        s.frames.push_back(n);
    }
    if (sim::wcoin(0.3)) {
        s.cam_at.pos = v3(0.3);
        s.cam_at.angle = uf(-8, 8);
        s.cam_at.axis = {uf(-1, 1), uf(-1, 1), 0.3};
        if (motion) {
            s.cam_at.moves = true;
            s.cam_at.vel = v3(0.1);
            s.cam_at.spin = v3(0.02);
        }
    }
    if (o.objects) {
        int n = sim::wint(0, o.max_objs);
        for (int i = 0; i < n; ++i) {
            ObjSpec ob;
            ob.kind = sim::wint(0, o.models && sim::wcoin(0.2) ? 3 : 2);
            ob.dims = {uf(0.2, 1.5), uf(0.2, 1.5), uf(0.2, 1.5)};
            ob.mat.bsdf = sim::wint(0, 5);
            ob.mat.albedo = rgb(0.1, 0.9);
            ob.mat.rough = uf(0.05, 1);
            ob.mat.metal = sim::wcoin(0.3) ? uf(0, 1) : 0;
            ob.mat.alpha = sim::wcoin(0.3) ? uf(0.3, 1) : 1;
            if (sim::wcoin(0.2))
                ob.mat.transmission = rgb(0, 0.8);
            if (sim::wcoin(0.2))
                ob.mat.emissive = rgb(0, 2);
            if (sim::wcoin(0.3))
                ob.mat.tex = sim::wint(1, 15);
            ob.mat.tseed = sim::wrand();
            if (o.media && sim::wcoin(0.2)) {
                ob.medium = 1;
                ob.absorb = uf(0, 0.5);
                ob.scatter = uf(0.05, 1);
                if (sim::wcoin(0.7))
                    ob.mat.alpha = uf(0.3, 0.6);
            }
            int copies = sim::wcoin(0.25) ? 2 : 1;
            for (int k = 0; k < copies; ++k) {
                NodeSpec n2 = gen_node(s, 2.0, 2, 7, motion);
                if (sim::wcoin(0.2))
                    n2.scale = uf(0.5, 1.5);
                ob.at.push_back(n2);
            }
            if (sim::keep_op()) {
                sim::op(fmt("object kind %d bsdf %d alpha %.2f medium %d tex %d instances %d", ob.kind, ob.mat.bsdf, ob.mat.alpha, ob.medium, ob.mat.tex, copies));
                s.objs.push_back(ob);
            }
        }
    }
    if (o.lights) {
        int n = sim::wint(0, 3);
        for (int i = 0; i < n; ++i) {
            LightSpec l;
            l.sun = sim::wcoin(0.35);
            l.radius = uf(0.05, 0.5);
            l.power = uf(10, 500);
            l.at = gen_node(s, 4, -1, 5, motion);
            if (l.sun)
                l.at.pos = {uf(-1, 1) * 1.5e11, uf(-1, 1) * 1.5e11, -(s.cam.blender ? -1 : 1) * 1e11}, l.at.vel = {}, l.at.frame = -1;
            if (sim::keep_op()) {
                sim::op(fmt("light %s", l.sun ? "sun" : "sphere"));
                s.lights.push_back(l);
            }
        }
    }
    if (o.points) {
        int n = sim::wint(0, 5);
        for (int i = 0; i < n; ++i) {
            PointSpec p;
            p.kind = sim::wint(0, 4);
            double z = s.cam.blender ? -1 : 1;
            double hx = s.cam.w / s.cam.fx() * 0.6, hy = s.cam.h / s.cam.fx() * 0.6;
            p.dir = {uf(-hx, hx), uf(-hy, hy), z};
            p.irr = rgb(1e-9, 1e-6);
            p.a = uf(1, 30);
            p.b = uf(0, 0.5);
            double d = std::pow(10, sim::wint(2, 6));
            p.at.pos = {p.dir.x * d, p.dir.y * d, p.dir.z * d};
            if (motion && sim::wcoin()) {
                p.at.moves = true;
                p.at.vel = v3(d * hx * 0.5);
            }
            if (sim::keep_op()) {
                sim::op(fmt("point source kind %d", p.kind));
                s.points.push_back(p);
            }
        }
    }
    s.background = sim::wint(0, 2);
    s.bg = rgb(0, 1);
    s.rs.spp = sim::wint(1, 3);
    s.rs.bounces = sim::wint(1, 4);
    s.rs.dynamic = sim::wcoin(0.3);
    s.rs.min_spp = sim::wint(1, 2);
    s.rs.threshold = uf(0.001, 0.5);
    s.rs.clamp = sim::wcoin(0.3) ? uf(0.1, 10) : 0;
    s.channels = sim::wcoin(0.7) ? 127 : (int)(sim::wrand(128));
    sim::op(describe(s.cam) + fmt(" spp=%d bounces=%d temporal=%d channels=%d mode=%d", s.rs.spp, s.rs.bounces, s.temporal, s.channels, s.mode));
    return s;
}

// ---- building ---------------------------------------------------------------------
template <class H> void place(const H& h, const NodeSpec& n)
{
    h.set_position(units::Meter(n.pos.x), units::Meter(n.pos.y), units::Meter(n.pos.z));
    if (n.angle != 0)
        h.set_rotation_local_to_parent(Vec3<double>{n.axis.x, n.axis.y, n.axis.z}, units::Degree(n.angle));
    if (n.scale != 1)
        h.set_scale(n.scale);
    if (n.moves) {
        h.set_velocity(units::MetersPerSecond(n.vel.x), units::MetersPerSecond(n.vel.y), units::MetersPerSecond(n.vel.z));
        if (n.spin.x != 0 || n.spin.y != 0 || n.spin.z != 0)
            h.set_angular_velocity(units::RadiansPerSecond(n.spin.x), units::RadiansPerSecond(n.spin.y), units::RadiansPerSecond(n.spin.z));
    }
}
struct Built {
    Scene<T>* scene = nullptr;
    std::optional<Cam> cam;
    std::optional<Inst> cam_inst;
    std::vector<FrameHandle<T>> frames;
    struct Obj {
        std::optional<GeometryHandle<T>> geom;
        std::optional<PrimitiveHandle<T>> prim;
        std::optional<ModelHandle<T>> model;
        std::optional<MaterialHandle<T>> mat;
        std::vector<Inst> inst;
        std::vector<int> frame;
    };
    std::vector<Obj> objs;
    std::vector<LightHandle<T>> lights;
    std::vector<Inst> light_inst;
    std::vector<int> light_frame;
    struct Pt {
        std::optional<UnresolvedObjectHandle<T>> obj;
        std::optional<Inst> inst;
    };
    std::vector<Pt> points;
    std::vector<Star<T>> stars;
};
inline VertexBuffer<T> quad(IndexBuffer& ix, V3 d)
{
    ix = {0, 1, 2, 0, 2, 3};
    VertexBuffer<T> v;
    for (int i = 0; i < 4; ++i) {
        Vertex<T> p;
        float sx = (i == 1 || i == 2) ? 1.f : -1.f, sy = i >= 2 ? 1.f : -1.f;
        p.position = {sx * (float)d.x, sy * (float)d.y, 0.f};
        p.normal = {0, 0, -1};
        p.uv = {(sx + 1) / 2, (sy + 1) / 2};
        p.albedo = T{1.f, 0.5f + 0.1f * (float)i, 1.f};
        v.push_back(p);
    }
    return v;
}
inline VertexBuffer<T> box(IndexBuffer& ix, V3 d)
{
    VertexBuffer<T> v;
    ix.clear();
    for (int a = 0; a < 3; ++a)
        for (int s = -1; s <= 1; s += 2) {
            uint32_t b = (uint32_t)v.size();
            for (int i = 0; i < 4; ++i) {
                float p[3];
                p[a] = (float)s;
                p[(a + 1) % 3] = (i == 1 || i == 2) ? 1.f : -1.f;
                p[(a + 2) % 3] = i >= 2 ? 1.f : -1.f;
                Vertex<T> q;
                q.position = {p[0] * (float)d.x * .5f, p[1] * (float)d.y * .5f, p[2] * (float)d.z * .5f};
                float n[3] = {0, 0, 0};
                n[a] = (float)s;
                q.normal = {n[0], n[1], n[2]};
                q.uv = {(i == 1 || i == 2) ? 1.f : 0.f, i >= 2 ? 1.f : 0.f};
                v.push_back(q);
            }
            for (uint32_t k : {0u, 1u, 2u, 0u, 2u, 3u})
                ix.push_back(b + k);
        }
    return v;
}
inline std::string obj_text(V3 d)
{
    return fmt("mtllib m.mtl\no part\nv %f %f 0\nv %f %f 0\nv %f %f 0\nv %f %f 0\nv 0 0 %f\nvn 0 0 -1\nvt 0 0\nvt 1 0\nvt 1 1\nusemtl mm\n"
               "f 1/1/1 2/2/1 3/3/1\nf 1/1/1 3/3/1 4/1/1\nusemtl nn\nf 1/1/1 2/2/1 5/3/1\nf 3/1/1 4/2/1 5/3/1\n",
               -d.x, -d.y, d.x, -d.y, d.x, d.y, -d.x, d.y, -d.z);
}
inline const char* mtl_text() { return "newmtl mm\nKd 0.8 0.4 0.2\nd 1\nnewmtl nn\nKd 0.2 0.6 0.9\nd 1\n"; }
inline Built build(const Spec& s, Scene<T>& sc, Cam cam)
{
    Built b;
    b.scene = &sc;
    b.cam = cam;
    apply_camera(cam, s.cam);
    for (auto& f : s.frames) {
        FrameHandle<T> h = f.frame >= 0 ? b.frames[(size_t)f.frame].new_subframe() : sc.root.new_subframe();
        place(h, f);
        b.frames.push_back(h);
    }
    auto instance = [&](int frame, const auto& asset) -> Inst { return frame >= 0 ? b.frames[(size_t)frame].new_instance(asset) : sc.root.new_instance(asset); };
    b.cam_inst = instance(-1, cam);
    place(*b.cam_inst, s.cam_at);
    for (auto& o : s.objs) {
        Built::Obj x;
        if (o.kind == 3) {
            simfs::put("/simfs/m/m.obj", obj_text(o.dims));
            simfs::put("/simfs/m/m.mtl", mtl_text());
            x.model = sc.load_model("/simfs/m/m.obj");
        } else {
            IndexBuffer ix;
            if (o.kind == 0)
                x.geom = sc.add_ellipsoid(units::Meter(o.dims.x), units::Meter(o.dims.y), units::Meter(o.dims.z));
            else if (o.kind == 1) {
                auto v = quad(ix, o.dims);
                x.geom = sc.add_mesh(ix, v);
            } else {
                auto v = box(ix, o.dims);
                x.geom = sc.add_mesh(ix, v);
            }
            BSDFHandle<T> bs = o.mat.bsdf == 0   ? sc.new_bsdf_lambertian()
                               : o.mat.bsdf == 1 ? sc.new_bsdf_cook_torrance()
                               : o.mat.bsdf == 2 ? sc.new_bsdf_oren_nayar()
                               : o.mat.bsdf == 3 ? sc.new_bsdf_lommel_seeliger()
                               : o.mat.bsdf == 4 ? sc.new_bsdf_mcewen()
                                                 : sc.new_bsdf_hapke(0.05f, 1.f, 0.2f, 0.3f);
            auto m = sc.new_material(bs);
            m.set_albedo_factor(o.mat.albedo);
            m.set_roughness_factor(o.mat.rough);
            m.set_metallic_factor(o.mat.metal);
            m.set_alpha_factor(o.mat.alpha);
            m.set_transmission_factor(o.mat.transmission);
            m.set_emissive_factor(o.mat.emissive);
            auto texv = [&](uint64_t k) { return 0.3f + 0.7f * (float)(hash64(o.mat.tseed, k) % 1000) / 999.f; };
            if (o.mat.tex & 1) {
                Image<T> im(3, 2, T{0});
                for (int i = 0; i < 6; ++i)
                    im[(size_t)i] = T{texv((uint64_t)i), texv((uint64_t)i + 10), texv((uint64_t)i + 20)};
                m.set_albedo_image(sc.add_texture(std::move(im)));
            }
            if (o.mat.tex & 2) {
                Image<float> im(2, 3, 0.f);
                for (int i = 0; i < 6; ++i)
                    im[(size_t)i] = texv((uint64_t)i + 30);
                m.set_alpha_image(sc.add_texture(std::move(im)));
            }
            if (o.mat.tex & 4) {
                Image<float> im(2, 2, 0.f);
                for (int i = 0; i < 4; ++i)
                    im[(size_t)i] = texv((uint64_t)i + 40);
                m.set_roughness_image(sc.add_texture(std::move(im)));
            }
            if (o.mat.tex & 8) {
                Image<Vec3<float>> im(2, 2, Vec3<float>{0, 0, 1});
                for (int i = 0; i < 4; ++i)
                    im[(size_t)i] = Vec3<float>{texv((uint64_t)i + 50) - .6f, texv((uint64_t)i + 60) - .6f, 1.f};
                m.set_normal_image(sc.add_normal_texture(std::move(im)));
            }
            x.mat = m;
            if (o.medium) {
                auto df = sc.new_constant_density_field(T{o.absorb}, T{o.scatter});
                auto ph = sc.new_isotropic_phase_function();
                x.prim = sc.add_primitive(*x.geom, m, sc.new_medium(df, ph));
            } else {
                x.prim = sc.add_primitive(*x.geom, m);
            }
        }
        for (auto& n : o.at) {
            Inst i = x.model ? instance(n.frame, *x.model) : instance(n.frame, *x.prim);
            place(i, n);
            x.inst.push_back(i);
            x.frame.push_back(n.frame);
        }
        b.objs.push_back(std::move(x));
    }
    for (auto& l : s.lights) {
        LightHandle<T> h = l.sun ? sc.new_sun_light() : sc.new_sphere_light(units::Meter(l.radius), units::Watt(l.power));
        Inst i = instance(l.at.frame, h);
        place(i, l.at);
        b.lights.push_back(h);
        b.light_inst.push_back(i);
        b.light_frame.push_back(l.at.frame);
    }
    for (auto& p : s.points) {
        Built::Pt x;
        if (p.kind == 0 || (p.kind >= 3 && b.light_inst.empty())) {
            b.stars.emplace_back(Vec3<double>{p.dir.x, p.dir.y, p.dir.z}, p.irr);
        } else {
            if (p.kind == 1)
                x.obj = sc.new_unresolved_object(units::SpectralWattsPerMeterSquared<T>(p.irr));
            else if (p.kind == 2)
                x.obj = sc.new_unresolved_emitter(units::Watt(p.a));
            else if (p.kind == 3)
                x.obj = sc.new_unresolved_sphere(units::Meter(p.a), b.light_inst[0], 0.5f);
            else
                x.obj = sc.new_unresolved_asteroid(97.0 + p.a * 0.5, p.b, b.light_inst[0], 0.5f);
            x.inst = instance(-1, *x.obj);
            place(*x.inst, p.at);
        }
        b.points.push_back(x);
    }
    if (!b.stars.empty())
        sc.set_stars(b.stars);
    if (s.background == 1)
        sc.set_background_radiance(s.bg);
    else if (s.background == 2) {
        Image<T> im(4, 3, T{0});
        for (int i = 0; i < 12; ++i)
            im[(size_t)i] = s.bg * (0.1f + 0.07f * (float)i);
        sc.set_background_radiance(im);
    }
    return b;
}
inline SceneView<T>* new_view(const Built& b, const Spec& s)
{
    return new SceneView<T>(*b.scene, Interval(Time::from_et(s.t0), Time::from_et(s.t0 + s.dt)), *b.cam_inst, (ObservationMode)s.mode, (size_t)s.temporal);
}
struct TestRenderer : Renderer<T> {
    using Renderer<T>::get_camera;
    using Renderer<T>::get_primitives;
    using Renderer<T>::get_lights;
};
inline void configure(Renderer<T>& r, const RenderSpec& s)
{
    r.set_samples_per_pixel(s.spp);
    r.set_max_bounces(s.bounces);
    r.set_dynamic_sampling(s.dynamic);
    r.set_min_samples(s.min_spp);
    r.set_variance_threshold(s.threshold);
    if (s.clamp > 0)
        r.set_indirect_clamp(s.clamp);
}
inline void enable(FrameBuffer<T>& fb, int ch)
{
    fb.enable_depth(ch & C_DEPTH);
    fb.enable_albedo(ch & C_ALBEDO);
    fb.enable_geometry_ids(ch & C_IDS);
    fb.enable_camera_normals(ch & C_CAMN);
    fb.enable_world_normals(ch & C_WORLDN);
    fb.enable_received_power(ch & C_POWER);
    if (ch & C_RESPONSE)
        fb.enable_sensor_response();
    else
        fb.enable_sensor_response(false), fb.enable_received_power(ch & C_POWER);
}
// ---- frames -----------------------------------------------------------------------
struct Channel {
    std::string name;
    int w = 0, h = 0;
    int n = 0; // values per pixel
    bool is_float = true;
    std::vector<uint64_t> v; // bit patterns
};
struct Frame {
    std::vector<Channel> ch;
};
inline uint64_t bits_of(float f)
{
    if (std::isnan(f))
        return 0x7fc00000u;
    uint32_t u;
    std::memcpy(&u, &f, 4);
    return u;
}
template <class I, class F> void grab(Frame& fr, const char* name, I& im, int n, bool isf, F f)
{
    Channel c;
    c.name = name;
    c.w = im.width();
    c.h = im.height();
    c.n = n;
    c.is_float = isf;
    c.v.reserve((size_t)c.w * (size_t)c.h * (size_t)n);
    for (int y = 0; y < c.h; ++y)
        for (int x = 0; x < c.w; ++x)
            f(im(x, y), c.v);
    fr.ch.push_back(std::move(c));
}
inline Frame capture(FrameBuffer<T>& fb)
{
    sim::Quiet q;
    sim::RtAlloc ra;
    Frame fr;
    auto one = [](const auto& p, auto& v) { v.push_back(bits_of(p)); };
    auto three = [](const auto& p, auto& v) {
        for (int i = 0; i < 3; ++i)
            v.push_back(bits_of(p[i]));
    };
    auto spec = [](const auto& p, auto& v) {
        for (size_t i = 0; i < 3; ++i)
            v.push_back(bits_of(p[i]));
    };
    if (fb.has_depth())
        grab(fr, "depth", fb.depth(), 1, true, one);
    if (fb.has_albedo())
        grab(fr, "albedo", fb.albedo(), 3, true, spec);
    if (fb.has_geometry_ids())
        grab(fr, "geometry ids", fb.geometry_ids(), 1, false, [](uint64_t p, auto& v) { v.push_back(p); });
    if (fb.has_camera_normals())
        grab(fr, "camera normals", fb.camera_normals(), 3, true, three);
    if (fb.has_world_normals())
        grab(fr, "world normals", fb.world_normals(), 3, true, three);
    if (fb.has_received_power())
        grab(fr, "received power", fb.received_power(), 3, true, spec);
    if (fb.has_sensor_response())
        grab(fr, "sensor response", fb.sensor_response(), 3, true, spec);
    return fr;
}
inline float as_float(uint64_t b)
{
    uint32_t u = (uint32_t)b;
    float f;
    std::memcpy(&f, &u, 4);
    return f;
}
// empty if equal
inline std::string differs(const Frame& a, const Frame& b)
{
    sim::Quiet q;
    sim::RtAlloc ra;
    if (a.ch.size() != b.ch.size())
        return "different channels";
    for (size_t i = 0; i < a.ch.size(); ++i) {
        const Channel &x = a.ch[i], &y = b.ch[i];
        if (x.name != y.name || x.w != y.w || x.h != y.h)
            return "channel " + x.name + " has another shape";
        size_t nd = 0, first = 0;
        for (size_t k = 0; k < x.v.size(); ++k)
            if (x.v[k] != y.v[k]) {
                if (!nd)
                    first = k;
                ++nd;
            }
        if (nd) {
            size_t px = first / (size_t)x.n;
            std::string va = x.is_float ? fmt("%.9g", as_float(x.v[first])) : fmt("%llu", (unsigned long long)x.v[first]);
            std::string vb = x.is_float ? fmt("%.9g", as_float(y.v[first])) : fmt("%llu", (unsigned long long)y.v[first]);
            return fmt("%s at pixel (%d,%d): %s instead of %s (%zu of %zu values differ)", x.name.c_str(), (int)(px % (size_t)x.w), (int)(px / (size_t)x.w), vb.c_str(), va.c_str(), nd, x.v.size());
        }
    }
    return "";
}
inline uint64_t digest(const Frame& f)
{
    sim::Quiet q;
    uint64_t h = 7;
    for (auto& c : f.ch)
        for (uint64_t v : c.v)
            h = hash64(h, v);
    return h;
}
// A pristine scene with cameras, made once before the runs
struct PoolScene {
    Scene<T>* scene;
    std::vector<Cam> cams;
};
inline std::vector<PoolScene>& pool()
{
    static std::vector<PoolScene> p;
    return p;
}
inline void fill_pool()
{
    KeepSignals k;
    Logger::instance().set_level(LogLevel::Error);
    world();
    for (int i = 0; i < 2; ++i) {
        PoolScene p;
        p.scene = new Scene<T>();
        for (int j = 0; j < 2; ++j) {
            Cam c = p.scene->new_camera_model(fmt("cam%d", j));
            c.configure_sensor_from_pitch(Resolution{4, 4}, units::Micrometer(100.f));
            p.cams.push_back(c);
        }
        pool().push_back(p);
    }
}
struct RenderCtx {
    std::unique_ptr<TestRenderer> r;
    std::unique_ptr<FrameBuffer<T>> fb;
};
inline Frame render(const Built& b, const Spec& s, SceneView<T>& v, TestRenderer* r0 = nullptr, FrameBuffer<T>* fb0 = nullptr)
{
    TestRenderer r1;
    TestRenderer& r = r0 ? *r0 : r1;
    configure(r, s.rs);
    if (fb0) {
        enable(*fb0, s.channels);
        r.render(v, *fb0);
        return capture(*fb0);
    }
    FrameBuffer<T> fb = b.cam->make_frame_buffer();
    enable(fb, s.channels);
    r.render(v, fb);
    return capture(fb);
}
inline void sequential()
{
    sim::set_workers(0);
    sim::set_preempt(false);
}
inline void random_schedule(uint64_t rate_lo = 100, uint64_t rate_hi = 20000)
{
    sim::set_preempt(true);
    sim::set_workers(sim::wint(1, 4));
    double e = std::log((double)rate_lo) + sim::wunit() * (std::log((double)rate_hi) - std::log((double)rate_lo));
    sim::set_rate((uint64_t)std::exp(e));
}
} // namespace W
