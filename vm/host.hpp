// Host side of the VM under test: configurations loaded as shared objects, Com_* callbacks,
// guarded memory for what the VM allocates, and the call bookkeeping the oracles read.
#pragma once
extern "C" {
#include "vm.h"
}
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <string>
#include <vector>
#include <functional>

struct VmApi {
    std::string name;
    int (*Create)(vm_t*, const char*, const uint8_t*, int, intptr_t (*)(vm_t*, intptr_t*));
    void (*Free)(vm_t*);
    intptr_t (*Call)(vm_t*, int, ...);
    void* (*ArgPtr)(intptr_t, vm_t*);
    float (*IntToFloat)(int32_t);
    int32_t (*FloatToInt)(float);
    int (*RangeValid)(intptr_t, size_t, const vm_t*);
    void (*Profile)(const vm_t*);
    void (*Debug)(int);
};
enum { CFG_ASAN, CFG_SHIP, CFG_SWITCH, CFG_DEBUG, CFG_SHIP0, CFG_DEBUGASAN, CFG_N };
extern VmApi api[CFG_N];
void loadApis(const char* dir);

struct Alloc { void* p; size_t size; vm_t* vm; int type; bool live; };
struct ErrRec { int level; std::string text; };

enum AllocMode { A_MALLOC, A_GUARD_LO, A_GUARD_HI };  // plain / start page-aligned + poison / end-aligned

struct Host {
    std::vector<Alloc>  allocs;
    std::vector<ErrRec> errs;
    std::string         trouble;      // protocol violation seen by the callbacks
    AllocMode           mode = A_MALLOC;
    uint64_t            failMask = 0; // bit n: n-th allocation of this case fails
    int                 allocNo = 0;
    int                 fill = 0xA5;  // what fresh plain allocations contain
    std::function<intptr_t(vm_t*, intptr_t*)> sys;
    std::function<void(int)> onError;
    void reset();                     // frees leftovers, clears everything
    int  live() const { int n = 0; for (auto& a : allocs) n += a.live; return n; }
    uint8_t* data(const vm_t* vm) const;   // VM data memory as allocated (latest, live)
    size_t   dataSize(const vm_t* vm) const;
};
extern Host host;
// a run of hostile bytecode is cut off by a timer signal that jumps out of the interpreter (only while inVm)
extern volatile sig_atomic_t inVm, sliceOver;
extern sigjmp_buf sliceJmp;
intptr_t sysEntry(vm_t* vm, intptr_t* args);

// a byte image placed so that any access past its end (or, lo, before its start) faults; read only
struct RoImage {
    uint8_t* p = nullptr; uint8_t* map = nullptr; size_t mapLen = 0;
    RoImage(const std::vector<uint8_t>& bytes, bool readonly = true);
    ~RoImage();
};
