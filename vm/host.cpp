#include "host.hpp"
#include "../lib/pbt.hpp"
#include <dlfcn.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define POISON(p, n)
#define UNPOISON(p, n)
#endif

VmApi api[CFG_N];
Host host;
volatile sig_atomic_t inVm, sliceOver;
sigjmp_buf sliceJmp;
static const char* cfgName[CFG_N] = { "asan", "ship", "switch", "debug", "ship0", "debugasan" };

void loadApis(const char* dir)
{
    for (int i = 0; i < CFG_N; i++) {
        std::string f = std::string(dir) + "/vm_" + cfgName[i] + ".so";
        if (access(f.c_str(), R_OK)) continue;
        void* h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
        api[i].name = cfgName[i];
#define GET(field, sym) if (!(*(void**)&api[i].field = dlsym(h, sym))) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
        GET(Create, "VM_Create") GET(Free, "VM_Free") GET(Call, "VM_Call") GET(ArgPtr, "VM_ArgPtr")
        GET(IntToFloat, "VM_IntToFloat") GET(FloatToInt, "VM_FloatToInt") GET(RangeValid, "VM_MemoryRangeValid")
        GET(Profile, "VM_VmProfile_f") GET(Debug, "VM_Debug")
    }
}

// ---- guarded regions: any 32-bit offset (times 8) from an allocation stays inside PROT_NONE space
static const size_t RES = (size_t)40 << 30, MID = (size_t)20 << 30, PG = 4096;
struct Region { uint8_t* base; uint8_t* cur; size_t len; bool used; };
static std::vector<Region> regions;

static void* guardAlloc(size_t size, AllocMode mode)
{
    if (size > ((size_t)1 << 30)) return nullptr;
    Region* r = nullptr;
    for (auto& x : regions) if (!x.used) { r = &x; break; }
    if (!r) {
        void* b = mmap(nullptr, RES, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (b == MAP_FAILED) { perror("reserve"); abort(); }
        regions.push_back(Region{ (uint8_t*)b, nullptr, 0, false });
        r = &regions.back();
    }
    size_t len = (size + PG - 1) / PG * PG; if (!len) len = PG;
    r->cur = r->base + MID; r->len = len; r->used = true;
    if (mprotect(r->cur, len, PROT_READ | PROT_WRITE)) { perror("mprotect"); abort(); }
    memset(r->cur, 0xA5, len);
    if (mode == A_GUARD_LO) { POISON(r->cur, len); UNPOISON(r->cur, size); return r->cur; }
    uint8_t* p = r->cur + len - size;
    return (uint8_t*)((uintptr_t)p & ~(uintptr_t)3);
}
static bool guardFree(void* p)
{
    for (auto& r : regions)
        if (r.used && (uint8_t*)p >= r.cur && (uint8_t*)p < r.cur + r.len) {
            UNPOISON(r.cur, r.len);
            madvise(r.cur, r.len, MADV_DONTNEED);
            mprotect(r.cur, r.len, PROT_NONE);
            r.used = false;
            return true;
        }
    return false;
}

extern "C" __attribute__((visibility("default"))) void* Com_malloc(size_t size, vm_t* vm, vmMallocType_t type)
{
    int no = host.allocNo++;
    if (type < 0 || type >= VM_ALLOC_TYPE_MAX) host.trouble += "Com_malloc with an unknown type; ";
    if (no < 64 && (host.failMask >> no & 1)) { host.allocs.push_back({ nullptr, size, vm, (int)type, false }); return nullptr; }
    void* p;
    if (host.mode == A_MALLOC) {
        if (size > ((size_t)1 << 30)) p = nullptr;
        else { p = malloc(size ? size : 1); if (p) memset(p, host.fill, size); }
    } else p = guardAlloc(size, host.mode);
    host.allocs.push_back({ p, size, vm, (int)type, p != nullptr });
    return p;
}
extern "C" __attribute__((visibility("default"))) void Com_free(void* p, vm_t* vm, vmMallocType_t type)
{
    if (!p) return;
    for (size_t i = host.allocs.size(); i-- > 0;) {
        Alloc& a = host.allocs[i];
        if (a.p != p) continue;
        if (!a.live) { host.trouble += "Com_free of a block that was already freed; "; return; }
        if (a.type != (int)type) host.trouble += "Com_free with another type than Com_malloc; ";
        if (a.vm != vm && type != VM_ALLOC_DEBUG) host.trouble += "Com_free with another vm than Com_malloc; ";
        a.live = false;
        if (!guardFree(p)) free(p);
        return;
    }
    host.trouble += "Com_free of a pointer Com_malloc never returned; ";
}
extern "C" __attribute__((visibility("default"))) void Com_Error(vmErrorCode_t level, const char* error)
{
    int was = inVm; inVm = 0;   // no jump out of the allocator
    if (!error) host.trouble += "Com_Error without a text; ";
    if (host.errs.size() < 10000) host.errs.push_back({ (int)level, error ? error : "" });
    if (host.onError) host.onError((int)level);
    if (was && sliceOver) siglongjmp(sliceJmp, 1);
    inVm = was;
}
intptr_t sysEntry(vm_t* vm, intptr_t* args) { return host.sys(vm, args); }

void Host::reset()
{
    for (auto& a : allocs) if (a.live) { if (!guardFree(a.p)) free(a.p); }
    allocs.clear(); errs.clear(); trouble.clear(); failMask = 0; allocNo = 0; mode = A_MALLOC; fill = 0xA5;
    sys = nullptr; onError = nullptr;
}
uint8_t* Host::data(const vm_t* vm) const
{
    for (size_t i = allocs.size(); i-- > 0;) if (allocs[i].live && allocs[i].vm == vm && allocs[i].type == VM_ALLOC_DATA_SEC) return (uint8_t*)allocs[i].p;
    return nullptr;
}
size_t Host::dataSize(const vm_t* vm) const
{
    for (size_t i = allocs.size(); i-- > 0;) if (allocs[i].live && allocs[i].vm == vm && allocs[i].type == VM_ALLOC_DATA_SEC) return allocs[i].size;
    return 0;
}

RoImage::RoImage(const std::vector<uint8_t>& b, bool readonly)
{
    size_t len = (b.size() + PG - 1) / PG * PG; if (!len) len = PG;
    mapLen = len + 2 * PG;
    map = (uint8_t*)mmap(nullptr, mapLen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (map == MAP_FAILED) { perror("mmap"); abort(); }
    mprotect(map + PG, len, PROT_READ | PROT_WRITE);
    p = map + PG + len - b.size();
    memset(map + PG, 0x5A, len);
    if (!b.empty()) memcpy(p, b.data(), b.size());
    if (readonly) mprotect(map + PG, len, PROT_READ);
}
RoImage::~RoImage() { munmap(map, mapLen); }
