// D01-D08, N01: rendering under the simulated scheduler.
#include "world.h"
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace W;
using sim::require;

namespace {
sim::Prep prep(fill_pool);

template <class F> auto guarded(const char* what, F f)
{
    try {
        return f();
    } catch (const std::exception& e) {
        sim::violation("escaped-exception", fmt("%s threw: %s", what, e.what()));
    }
}
void note(const Spec& s, const Frame& f)
{
    sim::Quiet q;
    sim::RtAlloc ra;
    bool lit = false, hit = false;
    for (auto& c : f.ch) {
        if (c.name == "received power")
            for (uint64_t v : c.v)
                lit |= v != 0;
        if (c.name == "depth")
            for (uint64_t v : c.v)
                hit |= !std::isinf(as_float(v));
    }
    sim::probe("frames");
    if (lit)
        sim::probe("frames with light");
    if (hit)
        sim::probe("frames with geometry");
    if (s.temporal > 1)
        sim::probe("motion blur");
    if (s.cam.psf)
        sim::probe("psf");
    if (s.cam.focus > 0)
        sim::probe("defocus");
    if (s.rs.dynamic)
        sim::probe("dynamic sampling");
    int tiles = ((s.cam.w + 15) / 16) * ((s.cam.h + 15) / 16);
    sim::probe("path tiles", (uint64_t)tiles);
    if (std::max(s.cam.w, s.cam.h) > 64)
        sim::probe("several star tiles");
    sim::mix(digest(f));
    sim::state(digest(f));
}

// ---- D01 ----------------------------------------------------------------------------
void d01()
{
    world();
    GenOpt o;
    o.big_tiles = sim::wcoin(0.5);
    Spec s = gen_spec(o);
    sim::set_race_detect(false);
    sequential();
    Built b = guarded("building the scene", [&] { return build(s, *pool()[0].scene, pool()[0].cams[0]); });
    std::unique_ptr<SceneView<T>> v(guarded("creating the view", [&] { return new_view(b, s); }));
    Frame ref = guarded("render", [&] { return render(b, s, *v); });
    note(s, ref);
    int n = sim::wint(1, 3);
    for (int i = 0; i < n; ++i) {
        random_schedule();
        sim::op(fmt("render %d", i + 1));
        Frame f = guarded("render", [&] { return render(b, s, *v); });
        std::string d = differs(ref, f);
        require(d.empty(), "schedule-dependent", "the frame depends on the schedule: " + d);
    }
    sequential();
}
sim::Reg r01("d01_schedule", d01);

// ---- D02 ----------------------------------------------------------------------------
void d02()
{
    world();
    GenOpt o;
    Spec s = gen_spec(o), s2;
    sim::set_race_detect(false);
    sequential();
    Built b = guarded("building the scene", [&] { return build(s, *pool()[0].scene, pool()[0].cams[0]); });
    std::unique_ptr<SceneView<T>> v(guarded("creating the view", [&] { return new_view(b, s); }));
    TestRenderer kept;
    std::unique_ptr<FrameBuffer<T>> fb;
    {
        FrameBuffer<T> f0 = b.cam->make_frame_buffer();
        fb = std::make_unique<FrameBuffer<T>>(std::move(f0));
    }
    Frame ref = guarded("render", [&] { return render(b, s, *v); });
    note(s, ref);
    // another view of the same scene, to dirty the frame buffer, and a twin of everything
    std::unique_ptr<SceneView<T>> other, again;
    std::optional<Built> twin;
    std::unique_ptr<SceneView<T>> twin_view;
    int n = sim::wint(2, 6);
    for (int i = 0; i < n; ++i) {
        int k = sim::wint(0, 7);
        uint64_t e = sim::wrand();
        int64_t off = (int64_t)sim::wrand(1000000000ull) * 1000 - 500000000000ll;
        bool garbage = sim::wcoin(0.6), entropy = sim::wcoin(0.6), clock = sim::wcoin(0.6), sched = sim::wcoin(0.3);
        if (!sim::keep_op())
            continue;
        if (entropy)
            sim::set_entropy(e);
        if (garbage)
            sim::set_garbage(e ^ 0x55);
        if (clock)
            sim::set_clock_offset(off);
        if (sched)
            random_schedule();
        else
            sequential();
        static const char* NAMES[] = {"fresh renderer and frame buffer", "reused renderer", "reused frame buffer", "reused both", "frame buffer dirtied by another view", "a second view of the same moment", "a twin scene", "renderer with other settings in between"};
        sim::op(NAMES[k] + fmt(" entropy=%d garbage=%d clock=%d schedule=%d", entropy, garbage, clock, sched));
        Frame f = guarded("render", [&]() -> Frame {
            switch (k) {
            case 0:
                return render(b, s, *v);
            case 1:
                return render(b, s, *v, &kept);
            case 2:
                return render(b, s, *v, nullptr, fb.get());
            case 3:
                return render(b, s, *v, &kept, fb.get());
            case 4: {
                if (!other) {
                    Spec t = s;
                    t.t0 += 50;
                    Built b2 = b;
                    // same camera model, an instance elsewhere
                    b2.cam_inst = b.scene->root.new_instance(*b.cam);
                    NodeSpec n2 = s.cam_at;
                    n2.pos.x += 0.4;
                    n2.pos.z += 0.5;
                    place(*b2.cam_inst, n2);
                    other.reset(new_view(b2, t));
                }
                Spec all = s;
                all.channels = 127;
                all.rs.spp = 1;
                render(b, all, *other, &kept, fb.get());
                return render(b, s, *v, nullptr, fb.get());
            }
            case 5:
                if (!again)
                    again.reset(new_view(b, s));
                return render(b, s, *again);
            case 6:
                if (!twin) {
                    twin = build(s, *pool()[1].scene, pool()[1].cams[0]);
                    twin_view.reset(new_view(*twin, s));
                }
                return render(*twin, s, *twin_view);
            default: {
                Spec t = s;
                t.rs.spp = 2;
                t.rs.bounces = 1;
                t.rs.dynamic = !t.rs.dynamic;
                render(b, t, *v, &kept);
                return render(b, s, *v, &kept);
            }
            }
        });
        std::string d = differs(ref, f);
        require(d.empty(), "not-pure", std::string("rendering the same again (") + NAMES[k] + ") gave another frame: " + d);
    }
    sequential();
}
sim::Reg r02("d02_pure", d02);

// ---- D03 ----------------------------------------------------------------------------
std::vector<Ray<T>> gen_rays(const Spec& s, int n)
{
    std::vector<Ray<T>> v;
    double bundled = sim::wcoin(0.4) ? sim::wunit() : 0;
    for (int i = 0; i < n; ++i) {
        float z = s.cam.blender ? -1.f : 1.f;
        Vec3<float> o{uf(-1, 1), uf(-1, 1), uf(-1, 1)}, d{uf(-.5, .5), uf(-.5, .5), z * uf(0.2, 1)};
        // bundles: neighbours that share their origin, direction or both, or nearly so
        if (i > 0 && bundled > 0 && sim::wcoin(bundled)) {
            const Ray<T>& q = v[v.size() - 1 - sim::wrand(std::min<size_t>(v.size(), 3))];
            int k = sim::wint(0, 4);
            if (k == 0 || k == 2)
                d = q.direction();
            if (k == 1 || k == 2)
                o = q.origin();
            if (k == 3)
                o = q.origin(), d = q.direction() + Vec3<float>{uf(-.01, .01), uf(-.01, .01), 0.f};
            if (k == 4)
                d = q.direction(), o = q.origin() + Vec3<float>{uf(-.02, .02), uf(-.02, .02), uf(-.02, .02)};
        }
        v.emplace_back(o, d);
    }
    return v;
}
std::string catalogue(int n, std::vector<StarData>& out, bool polar)
{
    StarCatalog c;
    for (int i = 0; i < n; ++i) {
        StarData d;
        d.id = (uint64_t)i + 1;
        d.RA = uf(0, 6.28);
        d.DEC = polar ? M_PI / 2 - uf(0.0, 0.0005) : uf(-1.5, 1.5);
        d.pmRA = uf(-500, 500);
        d.pmDEC = uf(-5000, 5000);
        d.solid_angle = std::pow(10.0, -uf(15, 17));
        d.temperature = uf(3000, 20000);
        d.visual_magnitude = (float)i * 0.01f;
        c.add_star(d);
        out.push_back(d);
    }
    std::string path = "/simfs/cat.hrsc";
    c.write_star_data(path);
    return path;
}
void d03()
{
    world();
    int what = sim::wint(0, 9);
    GenOpt o;
    o.big_tiles = sim::wcoin(0.5);
    Spec s = gen_spec(o);
    sim::set_race_detect(true);
    sequential();
    Built b = guarded("building the scene", [&] { return build(s, *pool()[0].scene, pool()[0].cams[0]); });
    std::unique_ptr<SceneView<T>> v(guarded("creating the view", [&] { return new_view(b, s); }));
    if (what < 6) {
        random_schedule();
        sim::op("render");
        Frame f = guarded("render", [&] { return render(b, s, *v); });
        sequential();
        note(s, f);
    } else if (what < 8) {
        auto rays = gen_rays(s, sim::wint(0, 40));
        if (s.objs.empty())
            return;
        random_schedule();
        sim::op(fmt("%zu rays", rays.size()));
        auto hits = v->intersect(rays);
        bool any = false;
        for (auto& h : hits)
            any |= h.hit();
        if (s.lights.empty())
            v->resolve_hits(rays, hits);
        sequential();
        sim::probe(any ? "ray batches with hits" : "ray batches without hits");
        sim::mix(rays.size());
    } else {
        std::vector<StarData> data;
        std::string path = guarded("write_star_data", [&] { return catalogue(sim::wint(0, 60), data, false); });
        random_schedule(20, 2000);
        sim::op(fmt("%zu stars", data.size()));
        guarded("star loading", [&] {
            Scene<T>& sc = *pool()[0].scene;
            sc.load_dynamic_stars(path, Time::from_et(1e8));
            sc.update_star_epoch(Time::from_et(2e9));
            sc.load_stars(path, Time::from_et(3e9));
            return 0;
        });
        sequential();
        sim::probe("star catalogues loaded");
        sim::mix(data.size());
    }
}
sim::Reg r03("d03_races", d03);

// ---- D04 ----------------------------------------------------------------------------
void d04()
{
    world();
    GenOpt o;
    o.big_tiles = sim::wcoin(0.3);
    o.max_objs = 3;
    int n = sim::wint(2, 3), mode = sim::wint(0, 2);
    bool before = sim::wcoin();
    std::vector<Spec> sp;
    sp.push_back(gen_spec(o));
    for (int i = 1; i < n; ++i) {
        if (mode == 2) {
            sp.push_back(gen_spec(o));
        } else {
            Spec t = sp[0];
            if (mode == 1 && sim::wcoin(0.7))
                t.cam = gen_camera(false), t.cam.blender = sp[0].cam.blender;
            if (mode == 1) {
                t.t0 += sim::wint(0, 3);
                t.cam_at.pos.x += uf(-.2, .2);
                t.cam_at.angle += uf(-3, 3);
                t.temporal = sim::wint(1, 3);
            }
            t.rs.spp = sim::wint(1, 3);
            t.rs.bounces = sim::wint(1, 3);
            t.channels = sim::wint(1, 127);
            sp.push_back(t);
        }
    }
    if (mode == 2)
        n = 2, sp.resize(2);
    static const char* MODE[] = {"one view", "views of one scene", "different scenes"};
    sim::op(fmt("%d threads, %s", n, MODE[mode]));
    sim::set_race_detect(true);
    sequential();
    std::vector<Built> b((size_t)n);
    std::vector<std::unique_ptr<SceneView<T>>> v((size_t)n);
    auto make = [&](int i) {
        size_t k = (size_t)i;
        if (mode == 2) {
            b[k] = build(sp[k], *pool()[k].scene, pool()[k].cams[0]);
        } else if (i == 0) {
            b[k] = build(sp[k], *pool()[0].scene, pool()[0].cams[0]);
        } else {
            b[k] = b[0];
            if (mode == 1) {
                if (i == 1) {
                    b[k].cam = pool()[0].cams[1];
                    apply_camera(*b[k].cam, sp[k].cam);
                } else {
                    sp[k].cam = sp[0].cam;
                }
                b[k].cam_inst = b[0].scene->root.new_instance(*b[k].cam);
                place(*b[k].cam_inst, sp[k].cam_at);
            }
        }
        if (mode != 0 || i == 0)
            v[k].reset(new_view(b[k], sp[k]));
    };
    bool in_thread = mode == 2 && sim::wcoin();
    if (!in_thread)
        guarded("building", [&] {
            for (int i = 0; i < n; ++i)
                make(i);
            return 0;
        });
    auto view = [&](size_t i) -> SceneView<T>& { return *v[mode == 0 ? 0 : i]; };
    std::vector<Frame> ref((size_t)n), got((size_t)n);
    auto reference = [&] {
        sequential();
        for (size_t i = 0; i < (size_t)n; ++i)
            ref[i] = guarded("render", [&] { return render(b[i], sp[i], view(i)); });
    };
    if (before && !in_thread)
        reference();
    std::vector<std::string> err((size_t)n);
    random_schedule();
    {
        std::vector<std::thread> th;
        for (size_t i = 0; i < (size_t)n; ++i)
            th.emplace_back([&, i] {
                try {
                    if (in_thread)
                        make((int)i);
                    Frame f = render(b[i], sp[i], view(i));
                    sim::Quiet q;
                    sim::RtAlloc ra;
                    got[i] = std::move(f);
                } catch (const std::exception& e) {
                    sim::Quiet q;
                    sim::RtAlloc ra;
                    err[i] = std::string("!") + e.what();
                }
            });
        for (auto& t : th)
            t.join();
    }
    sequential();
    for (size_t i = 0; i < (size_t)n; ++i)
        require(err[i].empty(), "escaped-exception", fmt("a render in thread %zu threw: %s", i, err[i].c_str()));
    if (!before || in_thread)
        reference();
    for (size_t i = 0; i < (size_t)n; ++i) {
        note(sp[i], ref[i]);
        std::string d = differs(ref[i], got[i]);
        require(d.empty(), "disturbed", fmt("with other renders going on, thread %zu of %d (%s) got another frame than alone: %s", i, n, MODE[mode], d.c_str()));
    }
    sim::probe(MODE[mode]);
}
sim::Reg r04("d04_independent", d04);

// ---- D06 ----------------------------------------------------------------------------
void d06()
{
    world();
    GenOpt o;
    Spec s = gen_spec(o);
    sim::set_race_detect(false);
    sequential();
    Scene<T>& sc = *pool()[0].scene;
    Built b = guarded("building the scene", [&] { return build(s, sc, pool()[0].cams[0]); });
    std::unique_ptr<SceneView<T>> v(guarded("creating the view", [&] { return new_view(b, s); }));
    bool twin = sim::wcoin();
    Frame ref;
    if (!twin)
        ref = guarded("render", [&] { return render(b, s, *v); });
    std::unique_ptr<SceneView<T>> other;
    auto any = [&]() -> Inst* {
        std::vector<Inst*> all{&*b.cam_inst};
        for (auto& x : b.objs)
            for (auto& i : x.inst)
                all.push_back(&i);
        for (auto& i : b.light_inst)
            all.push_back(&i);
        for (auto& p : b.points)
            if (p.inst)
                all.push_back(&*p.inst);
        return all[sim::wrand(all.size())];
    };
    int n = sim::wint(1, 8);
    for (int i = 0; i < n; ++i) {
        int k = sim::wint(0, 19);
        uint64_t r = sim::wrand();
        NodeSpec ns = gen_node(s, 1, 1, 4, true);
        T c = rgb(0, 1);
        if (!sim::keep_op())
            continue;
        sim::op(fmt("edit %d", k));
        auto obj = [&]() -> Built::Obj* { return b.objs.empty() ? nullptr : &b.objs[r % b.objs.size()]; };
        bool done = true;
        try {
            switch (k) {
            case 0:
            case 1:
                place(*any(), ns);
                break;
            case 2:
                any()->set_scale(1.5);
                break;
            case 3:
                any()->set_velocity(units::MetersPerSecond(.3), units::MetersPerSecond(.2), units::MetersPerSecond(-.1));
                break;
            case 4: {
                Inst* x = any();
                sc.root.delete_instance(*x);
                break;
            }
            case 5:
                if (auto* x = obj(); x && !x->inst.empty()) {
                    size_t j = (r >> 8) % x->inst.size();
                    if (x->frame[j] >= 0)
                        b.frames[(size_t)x->frame[j]].delete_instance(x->inst[j]);
                    else
                        sc.root.delete_instance(x->inst[j]);
                }
                break;
            case 6:
                if (auto* x = obj(); x && x->prim)
                    sc.delete_primitive(*x->prim);
                break;
            case 7:
                if (auto* x = obj(); x && x->geom)
                    sc.delete_geometry(*x->geom);
                break;
            case 8:
                if (auto* x = obj(); x && x->model)
                    sc.delete_model(*x->model);
                break;
            case 9:
                if (!b.lights.empty())
                    sc.delete_light(b.lights[r % b.lights.size()]);
                break;
            case 10:
                if (!b.points.empty() && b.points[r % b.points.size()].obj)
                    sc.delete_unresolved_object(*b.points[r % b.points.size()].obj);
                break;
            case 11: {
                auto l = sc.new_sphere_light(units::Meter(0.2), units::Watt(300.f));
                Inst x = sc.root.new_instance(l);
                place(x, ns);
                break;
            }
            case 12: {
                auto u = sc.new_unresolved_object(units::SpectralWattsPerMeterSquared<T>(T{1e-6f}));
                Inst x = sc.root.new_instance(u);
                place(x, ns);
                break;
            }
            case 13:
                if (auto* x = obj(); x && x->prim) {
                    Inst y = sc.root.new_instance(*x->prim);
                    place(y, ns);
                }
                break;
            case 14:
                sc.set_stars({Star<T>(Vec3<double>{0.01, 0, s.cam.blender ? -1. : 1.}, T{1e-5f})});
                break;
            case 15:
                sc.set_background_radiance(c);
                break;
            case 16: {
                // also the view's own frames are moved about
                if (!b.frames.empty())
                    place(b.frames[r % b.frames.size()], ns);
                break;
            }
            case 17:
                if (!b.frames.empty()) {
                    size_t j = r % b.frames.size();
                    int up = s.frames[j].frame;
                    if (up >= 0)
                        b.frames[(size_t)up].delete_subframe(b.frames[j]);
                    else
                        sc.root.delete_subframe(b.frames[j]);
                }
                break;
            case 18: {
                Spec t = s;
                t.t0 += 10;
                t.temporal = 1 + (int)(r % 3);
                other.reset(new_view(b, t));
                render(b, t, *other);
                if (r & 256)
                    other.reset();
                break;
            }
            default:
                if (r & 1)
                    sc.prune_unreferenced_assets();
                else
                    sc.delete_camera_model(*b.cam);
            }
        } catch (const std::exception&) {
            done = false; // an edit of something deleted before
        }
        sim::probe(done ? "edits" : "refused edits");
    }
    Frame f = guarded("render", [&] {
        TestRenderer r;
        configure(r, s.rs);
        FrameBuffer<T> fb = r.get_camera(*v)->make_frame_buffer();
        enable(fb, s.channels);
        r.render(*v, fb);
        return capture(fb);
    });
    if (twin) {
        Built t = guarded("building the twin", [&] { return build(s, *pool()[1].scene, pool()[1].cams[0]); });
        std::unique_ptr<SceneView<T>> w(guarded("creating the view", [&] { return new_view(t, s); }));
        ref = guarded("render", [&] { return render(t, s, *w); });
    }
    note(s, f);
    std::string d = differs(ref, f);
    require(d.empty(), "view-not-fixed", "after edits of the scene an older view renders another frame: " + d);
}
sim::Reg r06("d06_fixed", d06);

// ---- D07 ----------------------------------------------------------------------------
bool same(float a, float b) { return bits_of(a) == bits_of(b); }
bool same(const Vec3<float>& a, const Vec3<float>& b) { return same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z); }
bool same(const HitRecord& a, const HitRecord& b)
{
    if (a.hit() != b.hit())
        return false;
    if (!a.hit())
        return true;
    return same(a.t, b.t) && same(a.u, b.u) && same(a.v, b.v) && a.inst_id == b.inst_id && a.geom_id == b.geom_id && a.prim_id == b.prim_id && same(a.Ng, b.Ng);
}
bool same(const Interaction<T>& a, const Interaction<T>& b)
{
    for (size_t i = 0; i < 3; ++i)
        if (!same(a.vertex_albedo[i], b.vertex_albedo[i]))
            return false;
    return same(a.position, b.position) && same(a.normal_g, b.normal_g) && same(a.normal_s, b.normal_s) && same(a.tangent, b.tangent) && same(a.bitangent, b.bitangent) &&
           same(a.uv.x, b.uv.x) && same(a.uv.y, b.uv.y) && same(a.wo, b.wo);
}
void d07()
{
    world();
    GenOpt o;
    o.points = false;
    Spec s = gen_spec(o);
    if (sim::wcoin(0.7))
        s.lights.clear();
    bool resolve = s.lights.empty(); // lights can be hit, but not resolved
    sim::set_race_detect(true);
    sequential();
    Built b = guarded("building the scene", [&] { return build(s, *pool()[0].scene, pool()[0].cams[0]); });
    std::unique_ptr<SceneView<T>> v(guarded("creating the view", [&] { return new_view(b, s); }));
    struct Job {
        std::vector<Ray<T>> rays;
        std::vector<HitRecord> hits, ref;
        std::vector<Interaction<T>> inter, iref;
        float t = 0.5f;
        std::string err;
    };
    int n = sim::wint(1, 2);
    std::vector<Job> job((size_t)n);
    bool before = sim::wcoin();
    for (auto& j : job) {
        int m = sim::wcoin(0.3) ? sim::wint(0, 3) : sim::wint(4, 60);
        j.t = sim::wcoin() ? 0.5f : uf(0, 1);
        auto all = gen_rays(s, m);
        for (auto& r : all)
            if (sim::keep_op())
                j.rays.push_back(r);
        // some rays aim at the objects
        sim::op(fmt("%zu rays at time %g", j.rays.size(), j.t));
    }
    auto singles = [&] {
        sequential();
        for (auto& j : job) {
            for (auto& r : j.rays) {
                j.ref.push_back(v->intersect(r, j.t));
                j.iref.push_back(resolve && j.ref.back().hit() ? v->resolve_hit(r, j.ref.back(), j.t) : Interaction<T>{});
            }
        }
    };
    if (before)
        guarded("single queries", [&] { return singles(), 0; });
    random_schedule(20, 2000);
    auto work = [&](Job& j) {
        try {
            auto h = v->intersect(j.rays, j.t);
            auto x = v->resolve_hits(j.rays, resolve ? h : std::vector<HitRecord>(h.size()), j.t);
            sim::Quiet q;
            sim::RtAlloc ra;
            j.hits = h;
            j.inter = x;
        } catch (const std::exception& e) {
            sim::Quiet q;
            sim::RtAlloc ra;
            j.err = e.what();
        }
    };
    if (n == 1) {
        work(job[0]);
    } else {
        std::thread a([&] { work(job[0]); });
        work(job[1]);
        a.join();
    }
    sequential();
    if (!before)
        guarded("single queries", [&] { return singles(), 0; });
    size_t nh = 0;
    for (size_t k = 0; k < job.size(); ++k) {
        Job& j = job[k];
        require(j.err.empty(), "escaped-exception", "a batched query threw: " + j.err);
        require(j.hits.size() == j.rays.size(), "batch-size", fmt("%zu rays gave %zu hit records", j.rays.size(), j.hits.size()));
        require(j.inter.size() == j.hits.size(), "batch-size", fmt("%zu hits gave %zu interactions", j.hits.size(), j.inter.size()));
        for (size_t i = 0; i < j.rays.size(); ++i) {
            require(same(j.hits[i], j.ref[i]), "batch-differs",
                    fmt("ray %zu of %zu: the batch says hit=%d t=%.9g inst=%u prim=%u, alone it is hit=%d t=%.9g inst=%u prim=%u", i, j.rays.size(), j.hits[i].hit(), j.hits[i].t, j.hits[i].inst_id, j.hits[i].prim_id,
                        j.ref[i].hit(), j.ref[i].t, j.ref[i].inst_id, j.ref[i].prim_id));
            require(same(j.inter[i], j.iref[i]), "batch-differs",
                    fmt("hit %zu of %zu resolves to (%g %g %g) in the batch and to (%g %g %g) alone, or differs in its normals, tangents, uv or colour", i, j.rays.size(), j.inter[i].position.x, j.inter[i].position.y, j.inter[i].position.z,
                        j.iref[i].position.x, j.iref[i].position.y, j.iref[i].position.z));
            nh += j.ref[i].hit();
            // a hit lies on its ray
            if (resolve && j.ref[i].hit()) {
                Vec3<float> p = j.rays[i].origin() + j.ref[i].t * j.rays[i].direction();
                float e = glm::length(p - j.inter[i].position);
                require(!(e > 1e-2f * (1 + glm::length(p))), "off-ray", fmt("hit %zu resolves %g away from its ray (t=%g)", i, e, j.ref[i].t));
                sim::mix(bits_of(j.ref[i].t));
                sim::state(bits_of(j.ref[i].t) * 31 + j.ref[i].prim_id);
            }
        }
        sim::probe("batches");
    }
    sim::probe("hits", nh);
}
sim::Reg r07("d07_batch", d07);

// ---- D08 ----------------------------------------------------------------------------
void d08_psf()
{
    int radius = sim::wint(1, 3), banks = sim::wint(1, 4);
    float a = uf(0.5, 2), b = uf(-.3, .3), c = uf(.3, 2);
    sim::set_race_detect(false);
    sequential();
    SmallPSF<T> ref(a, b, c, radius, banks);
    sim::set_preempt(true);
    sim::set_workers(sim::wint(1, 4));
    sim::set_rate(200000);
    sim::op(fmt("psf radius %d banks %d", radius, banks));
    SmallPSF<T> got(a, b, c, radius, banks);
    sequential();
    for (int by = 0; by < banks; ++by)
        for (int bx = 0; bx < banks; ++bx) {
            float u = ((float)bx + 0.5f) / (float)banks, w = ((float)by + 0.5f) / (float)banks;
            const Image<T>&k = ref.get_kernel(u, w), &l = got.get_kernel(u, w);
            require(k.width() == l.width() && k.height() == l.height() && k.width() == 2 * radius + 1, "psf-differs", "kernel size");
            double sum = 0;
            for (int y = 0; y < k.height(); ++y)
                for (int x = 0; x < k.width(); ++x)
                    for (size_t i = 0; i < 3; ++i) {
                        require(same(k(x, y)[i], l(x, y)[i]), "psf-differs", fmt("kernel (%d,%d) differs at (%d,%d): %.9g, sequentially %.9g", bx, by, x, y, l(x, y)[i], k(x, y)[i]));
                        sum += l(x, y)[i];
                        sim::mix(bits_of(l(x, y)[i]));
                    }
            require(std::fabs(sum - 3) < 1e-3, "psf-differs", fmt("kernel (%d,%d) sums to %g", bx, by, sum / 3));
        }
    sim::probe("psf built");
}
void d08()
{
    world();
    if (sim::wrand(40) == 0)
        return d08_psf();
    Spec s;
    s.cam.w = sim::wint(8, 120);
    s.cam.h = sim::wint(4, 24);
    s.cam.focal_mm = 1000;
    s.cam.pitch_um = 10;
    s.channels = C_POWER;
    sim::set_race_detect(false);
    sequential();
    std::vector<StarData> data[2];
    std::string path[2];
    // the stars cross a good part of the frame within the time scale of the run
    const double scale = sim::wcoin(0.4) ? 3e9 : std::pow(10.0, 1 + 8.5 * sim::wunit());
    const double pm_max = scale == 3e9 ? 200 : s.cam.w / s.cam.fx() / (M_PI / (180 * 3600e3)) / (scale / (365.25 * 86400)) * 0.3;
    for (int i = 0; i < 2; ++i) {
        int n = sim::wint(0, 60);
        StarCatalog c;
        for (int k = 0; k < n; ++k) {
            StarData d;
            d.id = (uint64_t)k + 1;
            double r = s.cam.w / s.cam.fx() * 0.5 * sim::wunit();
            d.RA = uf(0, 6.28);
            d.DEC = M_PI / 2 - r;
            d.pmRA = (float)(pm_max * uf(-1, 1));
            d.pmDEC = (float)(pm_max * uf(-1, 1));
            d.solid_angle = std::pow(10.0, -uf(15, 17));
            d.temperature = uf(3000, 20000);
            d.visual_magnitude = (float)k * 0.25f;
            if (!sim::keep_op())
                continue;
            data[i].push_back(d);
            c.add_star(d);
        }
        path[i] = fmt("/simfs/cat%d.hrsc", i);
        guarded("write_star_data", [&] { return c.write_star_data(path[i]), 0; });
    }
    Built b = guarded("building", [&] { return build(s, *pool()[0].scene, pool()[0].cams[0]); });
    Built t = guarded("building", [&] { return build(s, *pool()[1].scene, pool()[1].cams[0]); });
    Scene<T>& sc = *pool()[0].scene;
    // the model: which stars, and for which epoch
    int cat = -1;
    bool dynamic = false;
    float limit = 100;
    double epoch = 0;
    std::vector<Star<T>> manual;
    auto expected = [&] {
        std::vector<Star<T>> v;
        if (cat < 0)
            return manual;
        for (auto& d : data[cat])
            if (d.visual_magnitude <= limit) {
                v.emplace_back(d, Time::from_et(epoch));
                // independently
                double y = epoch / (365.25 * 86400), q = M_PI / (180 * 3600e3);
                double de = d.DEC + d.pmDEC * q * y, al = d.RA + d.pmRA * q * y / std::cos(de);
                Vec3<double> e{std::cos(de) * std::cos(al), std::cos(de) * std::sin(al), std::sin(de)}, g = v.back().get_direction();
                double m = std::cos(de) < 1e-7 ? 1 : 1e-7 + std::fabs(d.pmRA * q * 1e-5) * (scale / 3e7);
                require(std::fabs(e.x - g.x) + std::fabs(e.y - g.y) + std::fabs(e.z - g.z) < m, "star-position", fmt("a star at RA %.9g DEC %.9g pm (%g,%g) at year %g points to (%.9g %.9g %.9g)", d.RA, d.DEC, d.pmRA, d.pmDEC, y, g.x, g.y, g.z));
            }
        return v;
    };
    int n = sim::wint(1, 9);
    double drawn = 0;
    for (int i = 0; i < n; ++i) {
        int k = sim::wint(0, 9), c = sim::wint(0, 1);
        double et = uf(-scale, scale);
        if (sim::wcoin(0.3)) // a short step from the one before, or none
            et = drawn + (sim::wcoin() ? scale * 0.1 * uf(-1, 1) : (double)sim::wint(-2, 2));
        drawn = et;
        float lim = sim::wcoin(0.3) ? (float)sim::wint(0, 12) + 0.1f : 100.f;
        bool look = sim::wcoin() || i == n - 1;
        if (sim::keep_op()) {
            random_schedule(20, 2000);
            if (k < 3) {
                sim::op(fmt("load_dynamic_stars cat%d et=%.0f limit=%.1f", c, et, lim));
                guarded("load_dynamic_stars", [&] { return sc.load_dynamic_stars(path[c], Time::from_et(et), lim), 0; });
                cat = c, dynamic = true, epoch = et, limit = lim;
            } else if (k < 7) {
                sim::op(fmt("update_star_epoch et=%.0f", et));
                guarded("update_star_epoch", [&] { return sc.update_star_epoch(Time::from_et(et)), 0; });
                if (dynamic)
                    epoch = et;
            } else if (k == 7) {
                sim::op(fmt("load_stars cat%d et=%.0f limit=%.1f", c, et, lim));
                guarded("load_stars", [&] { return sc.load_stars(path[c], Time::from_et(et), lim), 0; });
                cat = c, dynamic = false, epoch = et, limit = lim;
            } else if (k == 8) {
                sim::op("set_stars");
                manual.clear();
                manual.emplace_back(Vec3<double>{1e-5, -1e-5, 1}, T{1e-7f});
                sc.set_stars(manual);
                cat = -1, dynamic = false;
            } else {
                sim::op("load of a missing catalogue");
                bool threw = false;
                try {
                    if (c)
                        sc.load_dynamic_stars("/simfs/none.hrsc", Time::from_et(et));
                    else
                        sc.load_stars("/simfs/none.hrsc", Time::from_et(et));
                } catch (const std::exception&) {
                    threw = true;
                }
                require(threw, "missing-catalogue", "loading a missing catalogue did not throw");
            }
            sequential();
        }
        if (!look)
            continue;
        auto exp = expected();
        pool()[1].scene->set_stars(exp);
        Frame want = guarded("render", [&] {
            std::unique_ptr<SceneView<T>> w(new_view(t, s));
            return render(t, s, *w);
        });
        Frame got = guarded("render", [&] {
            std::unique_ptr<SceneView<T>> w(new_view(b, s));
            return render(b, s, *w);
        });
        note(s, got);
        std::string d = differs(want, got);
        require(d.empty(), "stars-differ", fmt("the sky (%zu stars, et %.0f) is not that of the stars prepared one by one: %s", exp.size(), epoch, d.c_str()));
        sim::probe("skies compared");
        sim::probe("stars", exp.size());
    }
}
sim::Reg r08("d08_bulk", d08);

// ---- N01 ----------------------------------------------------------------------------
struct Sensor {
    int w, h;
    double qe, full_well, dark, read, gain, exposure;
    float bias;
    int bits;
    bool noise;
    std::vector<float> power;
};
struct Reading {
    int thread, slot; // which frame of which thread
    size_t sensor;
};
constexpr int MAXV = 200; // values of one frame
struct Slots {
    int done[8];
    uint32_t v[8][MAXV];
};
void read_out(const CameraModel<T>& cam, const Sensor& q, FrameBuffer<T>& fb)
{
    size_t k = 0;
    for (int y = 0; y < q.h; ++y)
        for (int x = 0; x < q.w; ++x)
            for (size_t c = 0; c < 3; ++c)
                fb.received_power()(x, y)[c] = q.power[k++];
    cam.readout(fb, units::Second(q.exposure));
}
std::vector<uint32_t> response(FrameBuffer<T>& fb)
{
    std::vector<uint32_t> v;
    for (int y = 0; y < fb.height(); ++y)
        for (int x = 0; x < fb.width(); ++x)
            for (size_t c = 0; c < 3; ++c)
                v.push_back((uint32_t)bits_of(fb.sensor_response()(x, y)[c]));
    return v;
}
void n01()
{
    world();
    sim::set_race_detect(false);
    sequential();
    Scene<T>& sc = *pool()[0].scene;
    std::vector<Sensor> sensors;
    std::vector<std::shared_ptr<CameraModel<T>>> cams;
    int ns = sim::wint(1, 2);
    for (int i = 0; i < ns; ++i) {
        Sensor q;
        q.w = sim::wint(2, 8);
        q.h = sim::wint(2, 8);
        q.qe = uf(.2, 1);
        q.full_well = uf(1e3, 1e5);
        q.dark = sim::wcoin() ? 0 : uf(0, 100);
        q.read = sim::wcoin(.3) ? 0 : uf(.5, 50);
        q.gain = uf(.5, 20);
        q.exposure = uf(.01, 3);
        q.bias = sim::wcoin() ? 0.f : uf(0, 200);
        q.bits = sim::wint(4, 16);
        q.noise = sim::wcoin(0.85);
        for (int k = 0; k < q.w * q.h * 3; ++k)
            q.power.push_back(sim::wcoin(.1) ? 0.f : uf(0, 1) * (float)q.full_well * 4e-19f);
        Cam c = pool()[0].cams[(size_t)i];
        c.configure_sensor_from_pitch(Resolution{q.w, q.h}, units::Micrometer(100.f));
        c.set_sensor_quantum_efficiency(q.qe);
        c.set_sensor_full_well_capacity((float)q.full_well);
        c.set_sensor_dark_current((float)q.dark);
        c.set_sensor_read_noise((float)q.read);
        c.set_sensor_gain((float)q.gain);
        c.set_sensor_bias_level(q.bias);
        c.set_sensor_bit_depth(q.bits);
        c.set_sensor_simulate_noise(q.noise);
        Inst in = sc.root.new_instance(c);
        SceneView<T> v(sc, Interval(Time::from_et(0), Time::from_et(1)), in, ObservationMode::TRUE_STATE, 1);
        TestRenderer r;
        cams.push_back(r.get_camera(v));
        sensors.push_back(q);
    }
    int nt = sim::wint(2, 3), total = 0;
    std::vector<std::vector<size_t>> prog((size_t)nt);
    std::vector<Reading> all;
    for (int t = 0; t < nt; ++t) {
        int k = nt == 2 ? sim::wint(1, 2) : (t == 0 ? sim::wint(1, 2) : 1);
        for (int i = 0; i < k; ++i) {
            size_t which = sim::wrand(sensors.size());
            if (!sim::keep_op())
                continue;
            sim::op(fmt("thread %d reads out sensor %zu (%dx%d, noise %d)", t, which, sensors[which].w, sensors[which].h, sensors[which].noise));
            all.push_back({t, total++, which});
            prog[(size_t)t].push_back(which);
        }
    }
    if (!total)
        return;
    // serial orders, executed in processes of their own
    std::vector<std::vector<int>> orders;
    {
        std::vector<int> idx;
        for (int i = 0; i < total; ++i)
            idx.push_back(i);
        do {
            bool ok = true;
            for (int i = 0; i < total; ++i)
                for (int k = i + 1; k < total; ++k)
                    if (all[(size_t)idx[(size_t)i]].thread == all[(size_t)idx[(size_t)k]].thread && idx[(size_t)i] > idx[(size_t)k])
                        ok = false;
            if (ok)
                orders.push_back(idx);
        } while (std::next_permutation(idx.begin(), idx.end()));
    }
    Slots* sh;
    {
        sim::Quiet q;
        sim::RtAlloc ra;
        sh = (Slots*)sim::shared(sizeof(Slots) * 26);
    }
    auto serial = [&](const std::vector<int>& order, Slots* out, uint64_t entropy) {
        sim::Quiet q;
        pid_t p = (pid_t)syscall(SYS_fork);
        if (p == 0) {
            sim::set_entropy(entropy);
            sim::set_garbage(entropy);
            try {
                for (int i : order) {
                    const Reading& r = all[(size_t)i];
                    FrameBuffer<T> fb = cams[r.sensor]->make_frame_buffer();
                    fb.enable_received_power();
                    fb.enable_sensor_response();
                    read_out(*cams[r.sensor], sensors[r.sensor], fb);
                    auto v = response(fb);
                    memcpy(out->v[i], v.data(), v.size() * 4);
                    out->done[i] = 1;
                }
            } catch (...) {
            }
            syscall(SYS_exit_group, 0);
        }
        int st;
        syscall(SYS_wait4, p, &st, 0, nullptr);
    };
    for (size_t i = 0; i < orders.size(); ++i)
        serial(orders[i], &sh[i], sim::wrand());
    serial(orders[0], &sh[25], sim::wrand());
    auto check_slots = [&](const Slots& a) {
        for (int i = 0; i < total; ++i)
            require(a.done[i] == 1, "readout-failed", fmt("readout %d threw or died", i));
    };
    for (size_t i = 0; i < orders.size(); ++i)
        check_slots(sh[i]);
    for (int i = 0; i < total; ++i)
        require(!memcmp(sh[0].v[i], sh[25].v[i], sizeof sh[0].v[i]), "not-repeatable", fmt("a process repeated with the same readouts in the same order gives another frame %d", i));
    // the real thing
    std::vector<std::vector<uint32_t>> got((size_t)total);
    std::vector<std::string> err((size_t)total);
    {
        random_schedule(5, 500);
        std::vector<std::thread> th;
        for (int t = 0; t < nt; ++t)
            th.emplace_back([&, t] {
                for (auto& r : all) {
                    if (r.thread != t)
                        continue;
                    try {
                        FrameBuffer<T> fb = cams[r.sensor]->make_frame_buffer();
                        fb.enable_received_power();
                        fb.enable_sensor_response();
                        read_out(*cams[r.sensor], sensors[r.sensor], fb);
                        sim::Quiet q;
                        sim::RtAlloc ra;
                        got[(size_t)r.slot] = response(fb);
                    } catch (const std::exception& e) {
                        sim::Quiet q;
                        sim::RtAlloc ra;
                        err[(size_t)r.slot] = std::string("!") + e.what();
                    }
                }
            });
        for (auto& t : th)
            t.join();
        sequential();
    }
    for (int i = 0; i < total; ++i)
        require(err[(size_t)i].empty(), "escaped-exception", "a readout threw: " + err[(size_t)i]);
    int match = -1;
    for (size_t o = 0; o < orders.size() && match < 0; ++o) {
        bool ok = true;
        for (int i = 0; i < total && ok; ++i)
            ok = !memcmp(sh[o].v[i], got[(size_t)i].data(), got[(size_t)i].size() * 4);
        if (ok)
            match = (int)o;
    }
    for (auto& g : got)
        for (uint32_t v : g)
            sim::mix(v);
    require(match >= 0, "not-serialisable", fmt("the frames of %d concurrent readouts are those of none of the %zu serial orders", total, orders.size()));
    sim::probe("readouts", (uint64_t)total);
    sim::probe(match == 0 ? "first serial order" : "another serial order");
    sim::state(hash64((uint64_t)match, got[0].empty() ? 0 : got[0][0]));
    // readouts without noise
    for (size_t k = 0; k < sensors.size(); ++k) {
        Sensor& q = sensors[k];
        pool()[0].cams[k].set_sensor_simulate_noise(false);
        std::vector<uint32_t> first;
        for (int i = 0; i < 2; ++i) {
            FrameBuffer<T> fb = cams[k]->make_frame_buffer();
            fb.enable_received_power();
            fb.enable_sensor_response();
            sim::set_entropy(sim::wrand());
            sim::set_garbage(sim::wrand());
            read_out(*cams[k], q, fb);
            auto v = response(fb);
            if (i)
                require(v == first, "noise-free", "a readout without noise is not repeatable");
            first = v;
            // whatever the pixel, more power never reads lower, and equal power reads equal
            std::vector<std::pair<float, float>> pr;
            for (size_t j = 0; j < q.power.size(); ++j)
                if (j % 3 == 0)
                    pr.emplace_back(q.power[j], as_float(v[j]));
            std::sort(pr.begin(), pr.end());
            for (size_t j = 1; j < pr.size(); ++j)
                require(pr[j].second >= pr[j - 1].second && (pr[j].first != pr[j - 1].first || pr[j].second == pr[j - 1].second), "noise-free",
                        fmt("without noise, power %g reads %g and power %g reads %g", pr[j - 1].first, pr[j - 1].second, pr[j].first, pr[j].second));
        }
    }
}
sim::Reg n01r("n01_noise", n01);

// ---- D05 ----------------------------------------------------------------------------
Vec3<double> rotate(const V3& axis, double deg, Vec3<double> p)
{
    double l = std::sqrt(axis.x * axis.x + axis.y * axis.y + axis.z * axis.z), a = deg * M_PI / 180;
    Vec3<double> k{axis.x / l, axis.y / l, axis.z / l};
    Vec3<double> c{k.y * p.z - k.z * p.y, k.z * p.x - k.x * p.z, k.x * p.y - k.y * p.x};
    double d = (k.x * p.x + k.y * p.y + k.z * p.z) * (1 - std::cos(a)), co = std::cos(a), si = std::sin(a);
    return {p.x * co + c.x * si + k.x * d, p.y * co + c.y * si + k.y * d, p.z * co + c.z * si + k.z * d};
}
struct Source {
    Vec3<double> world0, world1; // direction at the start and at the end
    T irr{0};
    int kind = 0;     // 0 star, 1 object of fixed irradiance, 2 emitter
    double dist = 1;  // of an object
    bool moves = false;
    int what = 0;     // 0 in the frame, 1 far outside, 2 behind
};
void d05()
{
    world();
    sim::set_race_detect(false);
    sequential();
    Spec s;
    s.cam = gen_camera(true);
    CamSpec& c = s.cam;
    if (sim::wcoin(0.5)) { // around the corners of the internal tiles
        c.w = sim::wint(60, 135);
        c.h = sim::wcoin() ? sim::wint(60, 70) : sim::wint(3, 9);
        wide_or_tall(c.w, c.h);
        c.focal_mm = (float)(std::max(c.w, c.h) * uf(1, 3)) * 0.1f;
        c.cx.reset();
        c.cy.reset();
        c.distortion = 0;
    }
    c.glare = 0;
    c.w = std::max(c.w, 3);
    c.h = std::max(c.h, 3);
    if (c.focus > 0)
        c.convolve = false, c.psf = 0;
    c.dof = false;
    if (sim::wcoin(0.4)) {
        s.cam_at.angle = uf(-170, 170);
        s.cam_at.axis = {uf(-1, 1), uf(-1, 1), uf(-1, 1)};
        s.cam_at.pos = v3(0.3);
    }
    s.dt = 1;
    s.t0 = 100;
    bool occluder = sim::wcoin(0.3);
    bool trails = sim::wcoin(0.4);
    s.temporal = trails ? sim::wint(2, 4) : 1;
    s.channels = C_POWER | (occluder || sim::wcoin(0.3) ? C_DEPTH : 0);
    s.rs.spp = 1;
    s.rs.bounces = 1;
    Scene<T>& sc = *pool()[0].scene;
    Built b = guarded("building", [&] { return build(s, sc, pool()[0].cams[0]); });
    TestRenderer probe_r;
    std::shared_ptr<CameraModel<T>> cam;
    {
        std::unique_ptr<SceneView<T>> v(new_view(b, s));
        cam = probe_r.get_camera(*v);
    }
    auto sr = cam->sensor_rotation();
    auto to_world = [&](Vec3<double> d) { return rotate(s.cam_at.axis, s.cam_at.angle, sr * d); };
    auto to_cam = [&](Vec3<double> d) { return sr.inverse() * rotate(s.cam_at.axis, -s.cam_at.angle, d); };
    double fx = c.fx(), fy = c.explicit_matrix ? fx * c.fy_ratio : c.focal_mm * 1000.0 / (c.pitch_um / c.fy_ratio);
    double cx = c.cx.value_or((float)c.w * .5f), cy = c.cy.value_or((float)c.h * .5f);
    double zs = c.blender ? -1 : 1;
    // the direction of a place in the image, ours where the lens does not distort
    auto through = [&](double px, double py) -> Vec3<double> {
        return {(px - cx) / fx, zs * (py - cy) / fy, zs};
    };
    auto project = [&](Vec3<double> d) { return cam->project_point(Vec3<float>{(float)d.x, (float)d.y, (float)d.z}); };
    int reach = c.psf ? c.psf_radius : 1;
    double area = cam->get_projected_aperture_area(Vec3<float>{0, 0, 1});
    int n = sim::wint(1, 12);
    std::vector<Source> src;
    for (int i = 0; i < n; ++i) {
        Source q;
        q.kind = sim::wint(0, 9) < 6 ? 0 : sim::wint(1, 2);
        q.moves = trails && q.kind && sim::wcoin(0.8);
        q.what = sim::wint(0, 9) < 8 ? 0 : sim::wint(1, 2);
        double px, py;
        auto coordinate = [&](int res, bool inner) {
            double lo = inner ? 0.03 : 0, hi = res - 0.6;
            if (res > 64 && sim::wcoin(0.5)) { // at an internal border
                double at = 64.0 * sim::wint(1, (res - 1) / 64);
                return std::clamp(at + uf(-1.5, 1.5), lo, hi);
            }
            if (sim::wcoin(0.2))
                return std::clamp((double)sim::wint(0, res - 1) + uf(-.02, .02), lo, hi);
            return lo + (hi - lo) * sim::wunit();
        };
        px = coordinate(c.w, true), py = coordinate(c.h, true);
        Vec3<double> d = through(px, py);
        if (q.what == 1)
            d = through(sim::wcoin() ? -uf(2, 5) * c.w - 20 : c.w * uf(3, 6) + 20, uf(0, 1) * c.h);
        if (q.what == 2)
            d = -d;
        q.irr = rgb(0.3, 1) * std::pow(10.f, sim::wcoin(0.25) ? -uf(12, 17) : -uf(6, 9));
        q.dist = std::pow(10.0, uf(2, 8));
        Vec3<double> e = d;
        if (q.moves && q.what == 0) {
            double qx = coordinate(c.w, true), qy = coordinate(c.h, true);
            e = through(qx, qy);
        }
        q.world0 = to_world(d);
        q.world1 = to_world(e);
        if (!sim::keep_op())
            continue;
        sim::op(fmt("source kind %d at pixel (%.3f, %.3f)%s%s", q.kind, px, py, q.moves ? " moving" : "", q.what == 0 ? "" : q.what == 1 ? " outside" : " behind"));
        src.push_back(q);
    }
    // an occluder
    if (occluder) {
        auto g = sc.add_ellipsoid(units::Meter(1.), units::Meter(1.), units::Meter(1.));
        auto p = sc.add_primitive(g);
        Inst in = sc.root.new_instance(p);
        Vec3<double> d = to_world(through(uf(0.2, 0.8) * c.w, uf(0.2, 0.8) * c.h));
        double l = std::sqrt(d.x * d.x + d.y * d.y + d.z * d.z), far = uf(2, 4) * fx / std::max(c.w, c.h) * 2;
        in.set_position(units::Meter(d.x / l * far + s.cam_at.pos.x), units::Meter(d.y / l * far + s.cam_at.pos.y), units::Meter(d.z / l * far + s.cam_at.pos.z));
    }
    // sources into the scene
    std::vector<Star<T>> stars;
    for (auto& q : src) {
        if (q.kind == 0) {
            stars.emplace_back(q.world0, q.irr);
            continue;
        }
        auto obj = q.kind == 1 ? sc.new_unresolved_object(units::SpectralWattsPerMeterSquared<T>(q.irr)) : sc.new_unresolved_emitter(units::SpectralWatts<T>(q.irr * (float)(4 * M_PI * q.dist * q.dist)));
        Inst in = sc.root.new_instance(obj);
        auto unit = [&](Vec3<double> v) { return v * (q.dist / std::sqrt(v.x * v.x + v.y * v.y + v.z * v.z)); };
        Vec3<double> p0 = unit(q.world0), p1 = unit(q.world1);
        in.set_position(units::Meter(p0.x + s.cam_at.pos.x), units::Meter(p0.y + s.cam_at.pos.y), units::Meter(p0.z + s.cam_at.pos.z));
        if (q.moves)
            in.set_velocity(units::MetersPerSecond(p1.x - p0.x), units::MetersPerSecond(p1.y - p0.y), units::MetersPerSecond(p1.z - p0.z));
        q.world0 = p0, q.world1 = p1;
    }
    sc.set_stars(stars);
    std::unique_ptr<SceneView<T>> v(guarded("creating the view", [&] { return new_view(b, s); }));
    random_schedule();
    Frame f = guarded("render", [&] { return render(b, s, *v); });
    sequential();
    note(s, f);
    const Channel *pw = nullptr, *dp = nullptr;
    for (auto& ch : f.ch) {
        if (ch.name == "received power")
            pw = &ch;
        if (ch.name == "depth")
            dp = &ch;
    }
    require(pw != nullptr, "no-power", "no received power channel");
    auto at = [&](int x, int y, size_t k) { return (double)as_float(pw->v[((size_t)y * (size_t)c.w + (size_t)x) * 3 + k]); };
    auto blocked = [&](int x, int y) { return dp && x >= 0 && y >= 0 && x < c.w && y < c.h && !std::isinf(as_float(dp->v[(size_t)y * (size_t)c.w + (size_t)x])); };
    // what must be there (lo) and what may be there (hi), in every pixel
    std::vector<double> lo(pw->v.size()), hi(pw->v.size());
    T photon = T::photon_energies();
    bool totals_ok = true; // every source certain
    double total_lo[3] = {0, 0, 0}, total_hi[3] = {0, 0, 0};
    auto add = [&](std::vector<double>& m, int x, int y, size_t k, double val) {
        if (x >= 0 && y >= 0 && x < c.w && y < c.h)
            m[((size_t)y * (size_t)c.w + (size_t)x) * 3 + k] += val;
    };
    bool defocus = c.focus > 0;
    for (auto& q : src) {
        if (q.what)
            continue; // contributes nothing
        bool still = !q.moves;
        int steps = still ? 1 : 400;
        // position along the exposure: straight motion, seen at the temporal samples and along arcs in between
        std::vector<Vec3<double>> smp;
        int ns = still ? 1 : s.temporal;
        for (int i = 0; i < ns; ++i) {
            double t = ns == 1 ? 0 : (double)i / (ns - 1);
            Vec3<double> w = q.world0 + (q.world1 - q.world0) * t;
            double l = std::sqrt(w.x * w.x + w.y * w.y + w.z * w.z);
            smp.push_back(to_cam(w * (1 / l)));
        }
        auto dir = [&](double t) {
            if (ns == 1)
                return smp[0];
            double u = t * (ns - 1);
            int i = std::min((int)u, ns - 2);
            double a = u - i;
            const Vec3<double>&p = smp[(size_t)i], &r = smp[(size_t)i + 1];
            double co = std::min(1.0, p.x * r.x + p.y * r.y + p.z * r.z), om = std::acos(co);
            if (om < 1e-6)
                return p * (1 - a) + r * a;
            return p * (std::sin((1 - a) * om) / std::sin(om)) + r * (std::sin(a * om) / std::sin(om));
        };
        if (still) {
            Vec3<double> d = dir(0);
            Pixel p = project(d);
            if (!c.distortion) {
                double ex = fx * d.x / (zs * d.z) + cx, ey = fy * (zs * d.y) / (zs * d.z) + cy;
                require(std::fabs(ex - p.x) < 2e-3 + 1e-5 * c.w && std::fabs(ey - p.y) < 2e-3 + 1e-5 * c.h, "misplaced", fmt("a direction of pixel (%.4f,%.4f) is projected to (%.4f,%.4f)", ex, ey, p.x, p.y));
            }
            double eps = 3e-3;
            bool surely = p.x > 0.02 && p.y > 0.02 && p.x < (float)c.w - 0.52 && p.y < (float)c.h - 0.52;
            int fxp = (int)std::floor(p.x), fyp = (int)std::floor(p.y);
            bool any_block = false, all_block = true;
            for (int dy = -1; dy <= 1; ++dy)
                for (int dx = -1; dx <= 1; ++dx) {
                    int x = std::clamp(fxp + dx, 0, c.w - 1), y = std::clamp(fyp + dy, 0, c.h - 1);
                    any_block |= blocked(x, y);
                    all_block &= blocked(x, y);
                }
            if (dp && all_block && q.kind == 0) {
                sim::probe("obstructed stars");
                continue;
            }
            if (any_block)
                surely = false;
            double cosz = std::fabs(d.z) / std::sqrt(d.x * d.x + d.y * d.y + d.z * d.z);
            sim::probe(surely ? "static sources" : "borderline sources");
            for (size_t k = 0; k < 3; ++k) {
                double pwr = q.irr[k] * area * cosz;
                if (defocus) {
                    if (!surely)
                        totals_ok = false;
                    continue;
                }
                if (!c.psf) {
                    double rx = p.x - std::floor(p.x), ry = p.y - std::floor(p.y);
                    bool ambx = std::fabs(rx - 0.5) < eps, amby = std::fabs(ry - 0.5) < eps;
                    int x0 = (int)std::floor(p.x + 0.5 - (ambx ? eps : 0)), x1 = (int)std::floor(p.x + 0.5 + (ambx ? eps : 0));
                    int y0 = (int)std::floor(p.y + 0.5 - (amby ? eps : 0)), y1 = (int)std::floor(p.y + 0.5 + (amby ? eps : 0));
                    for (int y = y0; y <= y1; ++y)
                        for (int x = x0; x <= x1; ++x) {
                            add(hi, x, y, k, pwr);
                            if (surely && x0 == x1 && y0 == y1)
                                add(lo, x, y, k, pwr);
                        }
                } else {
                    double rx = p.x - std::floor(p.x), ry = p.y - std::floor(p.y);
                    // near a bank border either kernel may be taken
                    double bx = rx * c.psf_banks, by = ry * c.psf_banks;
                    bool amb = std::fabs(bx - std::round(bx)) < eps * c.psf_banks || std::fabs(by - std::round(by)) < eps * c.psf_banks;
                    auto stamp = [&](std::vector<double>& m, double X, double Y, bool low) {
                        double gx = std::floor(X), gy = std::floor(Y);
                        const Image<T>& K = cam->get_psf_kernel((float)(X - gx), (float)(Y - gy));
                        for (int y = 0; y < K.height(); ++y)
                            for (int x = 0; x < K.width(); ++x) {
                                double val = pwr * K(x, y)[k];
                                bool centre = std::abs(x - c.psf_radius) <= 1 && std::abs(y - c.psf_radius) <= 1;
                                // rings too dim to matter may be left out
                                double ph = 0;
                                for (size_t j = 0; j < 3; ++j)
                                    ph = std::max(ph, (double)q.irr[j] * area / photon[j]);
                                if (low && !centre && ph * 0.2 < 1.0 * 8)
                                    continue;
                                add(m, (int)gx - c.psf_radius + x, (int)gy - c.psf_radius + y, k, val);
                            }
                    };
                    if (!amb) {
                        stamp(hi, p.x, p.y, false);
                        if (surely)
                            stamp(lo, p.x, p.y, true);
                    } else {
                        for (double ax : {-eps, eps})
                            for (double ay : {-eps, eps})
                                stamp(hi, p.x + ax, p.y + ay, false);
                    }
                }
            }
            if (defocus)
                for (size_t k = 0; k < 3; ++k)
                    total_hi[k] += q.irr[k] * area * cosz;
            continue;
        }
        // a trail
        totals_ok &= true;
        bool clean = true;
        double mean_cos = 0;
        std::vector<std::pair<double, double>> path;
        for (int i = 0; i <= steps; ++i) {
            Vec3<double> d = dir((double)i / steps);
            Pixel p = project(d);
            path.emplace_back(p.x, p.y);
            mean_cos += std::fabs(d.z) / std::sqrt(d.x * d.x + d.y * d.y + d.z * d.z) / (steps + 1);
            double m = 0.02;
            if (!(p.x > m && p.y > m && p.x < (float)c.w - 0.52 && p.y < (float)c.h - 0.52))
                clean = false;
            for (int dy = -1; dy <= 1; ++dy)
                for (int dx = -1; dx <= 1; ++dx)
                    if (blocked((int)std::floor(p.x) + dx, (int)std::floor(p.y) + dy))
                        clean = false;
        }
        sim::probe(clean ? "trails" : "partial trails");
        // anywhere along the path, at most everything
        std::set<std::pair<int, int>> near;
        int r = reach + 1;
        std::set<std::pair<int, int>> cells;
        for (auto& [x, y] : path)
            if (!defocus)
                cells.insert({(int)std::round(x), (int)std::round(y)});
        for (auto& [x, y] : cells)
            for (int dy = -r; dy <= r; ++dy)
                for (int dx = -r; dx <= r; ++dx)
                    near.insert({x + dx, y + dy});
        for (auto& [x, y] : near)
            for (size_t k = 0; k < 3; ++k)
                add(hi, x, y, k, q.irr[k] * area);
        for (size_t k = 0; k < 3; ++k)
            total_hi[k] += q.irr[k] * area * mean_cos;
        if (!clean)
            totals_ok = false;
    }
    double scale[3] = {0, 0, 0};
    for (size_t i = 0; i < hi.size(); ++i)
        scale[i % 3] = std::max(scale[i % 3], hi[i]);
    if (!defocus)
        for (int y = 0; y < c.h; ++y)
            for (int x = 0; x < c.w; ++x)
                for (size_t k = 0; k < 3; ++k) {
                    size_t i = ((size_t)y * (size_t)c.w + (size_t)x) * 3 + k;
                    double g = at(x, y, k), tol = 1e-3 * hi[i] + 1e-6 * scale[k] + 1e-36;
                    require(g >= lo[i] - tol && g <= hi[i] + tol, g < lo[i] - tol ? "lost" : "doubled", fmt("pixel (%d,%d) channel %zu has %.6g W, expected %.6g to %.6g (%s)", x, y, k, g, lo[i], hi[i], describe(c).c_str()));
                }
    // totals: trails and defocused images conserve the power
    bool only_trails = true;
    for (auto& q : src)
        if (q.what == 0 && !q.moves)
            only_trails = false;
    if (totals_ok && !c.psf && (defocus ? false : only_trails)) {
        for (size_t k = 0; k < 3; ++k) {
            double sum = 0;
            for (int y = 0; y < c.h; ++y)
                for (int x = 0; x < c.w; ++x)
                    sum += at(x, y, k);
            // half a pixel at the far borders rounds out of the frame
            require(std::fabs(sum - total_hi[k]) <= 0.02 * total_hi[k] + 1e-36, "power", fmt("trails of %.6g W deposit %.6g W in channel %zu (%s)", total_hi[k], sum, k, describe(c).c_str()));
        }
        if (total_hi[0] > 0)
            sim::probe("trail totals checked");
    }
    if (defocus)
        for (size_t k = 0; k < 3; ++k) {
            double sum = 0;
            for (int y = 0; y < c.h; ++y)
                for (int x = 0; x < c.w; ++x)
                    sum += at(x, y, k);
            require(sum <= 1.02 * total_hi[k] + 1e-36, "power", fmt("defocused sources of %.6g W deposit %.6g W in channel %zu (%s)", total_hi[k], sum, k, describe(c).c_str()));
            if (total_hi[k] > 0 && sum > 0.9 * total_hi[k])
                sim::probe("defocused sources whole in the frame");
        }
    // superposition: the image of all is the sum of the images of two halves
    if (sim::wcoin(0.5) && src.size() > 1) {
        std::vector<Frame> part;
        Scene<T>& tw = *pool()[1].scene;
        Built tb = guarded("building", [&] { return build(s, tw, pool()[1].cams[0]); });
        uint64_t split = sim::wrand();
        std::vector<double> sum(pw->v.size());
        for (int half = 0; half < 2; ++half) {
            std::vector<Star<T>> st;
            std::vector<UnresolvedObjectHandle<T>> objs;
            for (size_t i = 0; i < src.size(); ++i) {
                auto& q = src[i];
                if ((int)((split >> i) & 1) != half)
                    continue;
                if (q.kind == 0) {
                    st.emplace_back(q.world0, q.irr);
                    continue;
                }
                auto obj = q.kind == 1 ? tw.new_unresolved_object(units::SpectralWattsPerMeterSquared<T>(q.irr)) : tw.new_unresolved_emitter(units::SpectralWatts<T>(q.irr * (float)(4 * M_PI * q.dist * q.dist)));
                Inst in = tw.root.new_instance(obj);
                in.set_position(units::Meter(q.world0.x + s.cam_at.pos.x), units::Meter(q.world0.y + s.cam_at.pos.y), units::Meter(q.world0.z + s.cam_at.pos.z));
                if (q.moves)
                    in.set_velocity(units::MetersPerSecond(q.world1.x - q.world0.x), units::MetersPerSecond(q.world1.y - q.world0.y), units::MetersPerSecond(q.world1.z - q.world0.z));
                objs.push_back(obj);
            }
            tw.set_stars(st);
            Spec s2 = s;
            s2.channels = C_POWER; // (the twin has no occluder)
            Frame h = guarded("render", [&] {
                std::unique_ptr<SceneView<T>> w(new_view(tb, s2));
                return render(tb, s2, *w);
            });
            for (auto& o : objs)
                tw.delete_unresolved_object(o);
            for (auto& ch : h.ch)
                if (ch.name == "received power")
                    for (size_t i = 0; i < ch.v.size(); ++i)
                        sum[i] += as_float(ch.v[i]);
        }
        double m = 0;
        for (double x : sum)
            m = std::max(m, x);
        if (!occluder) {
            for (size_t i = 0; i < sum.size(); ++i) {
                double g = as_float(pw->v[i]);
                require(std::fabs(g - sum[i]) <= 1e-4 * sum[i] + 1e-6 * m + 1e-36, "superposition",
                        fmt("pixel (%d,%d): all sources together give %.6g W, the two halves %.6g W (%s)", (int)((i / 3) % (size_t)c.w), (int)((i / 3) / (size_t)c.w), g, sum[i], describe(c).c_str()));
            }
            sim::probe("superpositions checked");
        }
    }
}
sim::Reg r05("d05_points", d05);
} // namespace
