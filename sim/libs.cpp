// Third-party libraries under the simulator.
//  - Embree: the real library, kept to the calling thread (no worker threads of its own). It is not safe
//    against running out of memory inside, so memory runs out for a whole call: the call does nothing and
//    reports RTC_ERROR_OUT_OF_MEMORY in the documented way.
//  - FFTW: the real library; its planner is documented as non-reentrant, so two simulated threads
//    inside it at once is a violation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <dlfcn.h>
#include <new>
#include <string>

namespace {
sim::NonReentrant planner("FFTW's planner");
template <class F> F* next(const char* n)
{
    void* p = dlsym(RTLD_NEXT, n);
    return (F*)p;
}
struct Inside {
    explicit Inside(const char* w) { planner.enter(w); }
    ~Inside() { planner.leave(); }
};
} // namespace
extern "C" {
typedef struct RTCDeviceTy* SimRTCDevice;
__attribute__((visibility("default"))) SimRTCDevice rtcNewDevice(const char* cfg)
{
    static auto* f = next<SimRTCDevice(const char*)>("rtcNewDevice");
    std::string c = cfg ? cfg : "";
    c += c.empty() ? "" : ",";
    c += "threads=1,start_threads=0,set_affinity=0";
    return f(c.c_str());
}
static thread_local int embree_error = 0;
#define SIM_EXPORT __attribute__((visibility("default")))
static bool out_of_memory()
{
    if (!sim::alloc_point())
        return false;
    if (!embree_error)
        embree_error = 4;
    sim::probe("embree.out-of-memory");
    return true;
}
SIM_EXPORT int rtcGetDeviceError(void* d)
{
    static auto* f = next<int(void*)>("rtcGetDeviceError");
    sim::LibAlloc l;  // a thread's first question makes its error handler
    int e = f(d);
    if (embree_error) {
        e = embree_error;
        embree_error = 0;
    }
    return e;
}
SIM_EXPORT void rtcSetSceneFlags(void* s, int v)
{
    static auto* f = next<void(void*, int)>("rtcSetSceneFlags");
    sim::LibAlloc l;
    f(s, v);
}
SIM_EXPORT void rtcSetGeometryBoundsFunction(void* g, void* b, void* u)
{
    static auto* f = next<void(void*, void*, void*)>("rtcSetGeometryBoundsFunction");
    sim::LibAlloc l;
    f(g, b, u);
}
SIM_EXPORT void rtcSetGeometryIntersectFunction(void* g, void* b)
{
    static auto* f = next<void(void*, void*)>("rtcSetGeometryIntersectFunction");
    sim::LibAlloc l;
    f(g, b);
}
SIM_EXPORT void rtcSetGeometryUserData(void* g, void* b)
{
    static auto* f = next<void(void*, void*)>("rtcSetGeometryUserData");
    sim::LibAlloc l;
    f(g, b);
}
SIM_EXPORT void rtcSetGeometryUserPrimitiveCount(void* g, unsigned n)
{
    static auto* f = next<void(void*, unsigned)>("rtcSetGeometryUserPrimitiveCount");
    sim::LibAlloc l;
    f(g, n);
}
SIM_EXPORT void rtcSetGeometryMask(void* g, unsigned n)
{
    static auto* f = next<void(void*, unsigned)>("rtcSetGeometryMask");
    sim::LibAlloc l;
    f(g, n);
}
SIM_EXPORT void rtcSetGeometryTimeRange(void* g, float a, float b)
{
    static auto* f = next<void(void*, float, float)>("rtcSetGeometryTimeRange");
    sim::LibAlloc l;
    f(g, a, b);
}
SIM_EXPORT void rtcSetGeometryTransformQuaternion(void* g, unsigned step, const void* q)
{
    static auto* f = next<void(void*, unsigned, const void*)>("rtcSetGeometryTransformQuaternion");
    sim::LibAlloc l;
    f(g, step, q);
}
SIM_EXPORT void* rtcNewScene(void* d)
{
    static auto* f = next<void*(void*)>("rtcNewScene");
    if (out_of_memory())
        return nullptr;
    sim::LibAlloc l;
    return f(d);
}
SIM_EXPORT void* rtcNewGeometry(void* d, int type)
{
    static auto* f = next<void*(void*, int)>("rtcNewGeometry");
    if (out_of_memory())
        return nullptr;
    sim::LibAlloc l;
    return f(d, type);
}
SIM_EXPORT unsigned rtcAttachGeometry(void* s, void* g)
{
    static auto* f = next<unsigned(void*, void*)>("rtcAttachGeometry");
    if (out_of_memory())
        return 0xffffffffu;
    sim::LibAlloc l;
    return f(s, g);
}
SIM_EXPORT void rtcCommitScene(void* s)
{
    static auto* f = next<void(void*)>("rtcCommitScene");
    if (out_of_memory())
        return;
    sim::LibAlloc l;
    f(s);
}
SIM_EXPORT void rtcCommitGeometry(void* s)
{
    static auto* f = next<void(void*)>("rtcCommitGeometry");
    sim::LibAlloc l;
    f(s);
}
SIM_EXPORT void rtcReleaseScene(void* s)
{
    static auto* f = next<void(void*)>("rtcReleaseScene");
    sim::LibAlloc l;
    f(s);
}
SIM_EXPORT void rtcReleaseGeometry(void* s)
{
    static auto* f = next<void(void*)>("rtcReleaseGeometry");
    sim::LibAlloc l;
    f(s);
}
SIM_EXPORT void rtcSetGeometryTimeStepCount(void* g, unsigned n)
{
    static auto* f = next<void(void*, unsigned)>("rtcSetGeometryTimeStepCount");
    if (out_of_memory())
        return;
    sim::LibAlloc l;
    f(g, n);
}
SIM_EXPORT void rtcSetGeometryInstancedScene(void* g, void* s)
{
    static auto* f = next<void(void*, void*)>("rtcSetGeometryInstancedScene");
    sim::LibAlloc l;
    f(g, s);
}
SIM_EXPORT void rtcSetSharedGeometryBuffer(void* g, int type, unsigned slot, int format, const void* ptr, size_t off, size_t stride, size_t n)
{
    static auto* f = next<void(void*, int, unsigned, int, const void*, size_t, size_t, size_t)>("rtcSetSharedGeometryBuffer");
    if (out_of_memory())
        return;
    sim::LibAlloc l;
    f(g, type, slot, format, ptr, off, stride, n);
}
SIM_EXPORT void* rtcSetNewGeometryBuffer(void* g, int type, unsigned slot, int format, size_t stride, size_t n)
{
    static auto* f = next<void*(void*, int, unsigned, int, size_t, size_t)>("rtcSetNewGeometryBuffer");
    if (out_of_memory())
        return nullptr;
    sim::LibAlloc l;
    return f(g, type, slot, format, stride, n);
}
// Assimp: the real library, its own allocations left alone; memory may run out for a whole import
SIM_EXPORT const void* _ZN6Assimp8Importer8ReadFileEPKcj(void* self, const char* path, unsigned flags)
{
    static auto* f = next<const void*(void*, const char*, unsigned)>("_ZN6Assimp8Importer8ReadFileEPKcj");
    if (sim::alloc_point())
        return nullptr;
    sim::LibAlloc l;
    return f(self, path, flags);
}
SIM_EXPORT void _ZN6Assimp8ImporterC1Ev(void* self)
{
    static auto* f = next<void(void*)>("_ZN6Assimp8ImporterC1Ev");
    if (sim::alloc_point())
        throw std::bad_alloc();
    sim::LibAlloc l;
    f(self);
}
SIM_EXPORT void _ZN6Assimp8ImporterD1Ev(void* self)
{
    static auto* f = next<void(void*)>("_ZN6Assimp8ImporterD1Ev");
    sim::LibAlloc l;
    f(self);
}
SIM_EXPORT void _ZN6Assimp8Importer12SetIOHandlerEPNS_8IOSystemE(void* self, void* io)
{
    static auto* f = next<void(void*, void*)>("_ZN6Assimp8Importer12SetIOHandlerEPNS_8IOSystemE");
    sim::LibAlloc l;
    f(self, io);
}
SIM_EXPORT float* fftwf_alloc_real(size_t n)
{
    static auto* f = next<float*(size_t)>("fftwf_alloc_real");
    return sim::alloc_point() ? nullptr : f(n);
}
SIM_EXPORT void* fftwf_alloc_complex(size_t n)
{
    static auto* f = next<void*(size_t)>("fftwf_alloc_complex");
    return sim::alloc_point() ? nullptr : f(n);
}
__attribute__((visibility("default"))) void* fftwf_plan_dft_r2c_2d(int a, int b, float* i, void* o, unsigned fl)
{
    static auto* f = next<void*(int, int, float*, void*, unsigned)>("fftwf_plan_dft_r2c_2d");
    Inside x("fftwf_plan_dft_r2c_2d");
    return f(a, b, i, o, fl);
}
__attribute__((visibility("default"))) void* fftwf_plan_dft_c2r_2d(int a, int b, void* i, float* o, unsigned fl)
{
    static auto* f = next<void*(int, int, void*, float*, unsigned)>("fftwf_plan_dft_c2r_2d");
    Inside x("fftwf_plan_dft_c2r_2d");
    return f(a, b, i, o, fl);
}
__attribute__((visibility("default"))) void fftwf_destroy_plan(void* p)
{
    static auto* f = next<void(void*)>("fftwf_destroy_plan");
    Inside x("fftwf_destroy_plan");
    f(p);
}
__attribute__((visibility("default"))) void fftwf_cleanup(void)
{
    static auto* f = next<void()>("fftwf_cleanup");
    Inside x("fftwf_cleanup");
    f();
}
}
