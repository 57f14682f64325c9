// Property checks of the interpreter (V..).  See DESIGN.md.
#include "../lib/pbt.hpp"
#include "gen.hpp"
#include "host.hpp"
#include "model.hpp"
#include <algorithm>
#include <cmath>
#include <memory>
using namespace q3;
using pbt::Ctx;

static const char* statusName[] = { "returned", "error", "fuel", "undetermined" };

// ------------------------------------------------------------------ system call behaviour
// A system call -1-id has arity id & 15 and a behaviour chosen by id; the same function drives the
// model and the host, over an abstract view of one VM.
struct View {
    std::function<bool(uint32_t, uint32_t)> valid;         // static (program visible) range?
    std::function<uint32_t(uint32_t)>       rd;
    std::function<void(uint32_t, uint32_t)> wr;
    std::function<int32_t(const int32_t*)>  recurse;       // nested call, 13 arguments
};
static int32_t sysBehave(int id, const int32_t* a, int n, View& v, int nestLeft)
{
    uint32_t h = 2166136261u ^ (uint32_t)id;
    for (int i = 0; i < n; i++) h = (h ^ (uint32_t)a[i]) * 16777619u;
    switch (id) {
    case 1: return a[0];
    case 2: if (v.valid((uint32_t)a[0], 4)) return (int32_t)v.rd((uint32_t)a[0]); return a[1];
    case 3: if (v.valid((uint32_t)a[0], 4)) { v.wr((uint32_t)a[0], (uint32_t)a[1] ^ (uint32_t)a[2]); return 1; } return 0;
    case 4: { float x, y; memcpy(&x, a, 4); memcpy(&y, a + 1, 4); (void)y; return a[2] - a[3]; }
    case 20: case 21: case 22: case 23:
        if (nestLeft > 0) {
            int32_t args[13]; for (int i = 0; i < 13; i++) args[i] = i < n ? a[i] : (int32_t)(h >> i);
            return v.recurse(args) ^ id;
        }
        return (int32_t)h;
    default: return (int32_t)(h ^ (h >> 13));
    }
}

struct Trace { std::vector<int32_t> w; void add(int32_t x) { if (w.size() < 200000) w.push_back(x); } };

static uint32_t staticEnd(const Prog& p) { return (uint32_t)(p.data.size() + p.lit.size()) + (uint32_t)std::max(0, p.bss - 0x10000); }

// Runs a call on the model, recording system calls.
struct ModelVm {
    Prog  p;
    Model m;
    Trace tr;
    int   maxNest, nest = 0, nestSeen = 0, sysCalls = 0, nestedErrors = 0;
    uint32_t sEnd;
    explicit ModelVm(const Prog& pr, int maxNest_ = 0) : p(pr), m(p), maxNest(maxNest_), sEnd(staticEnd(pr))
    {
        m.sys = [this](Model& mm, int id, uint32_t at, int32_t& r) -> Status { return onSys(mm, id, at, r); };
    }
    Status onSys(Model& mm, int id, uint32_t at, int32_t& r)
    {
        int n = id & 15; int32_t a[16];
        sysCalls++;
        for (int i = 0; i < n; i++) { if (at + 4 * i + 4 > mm.P) return mm.undet("argument above memory"); a[i] = (int32_t)mm.rd(at + 4 * i); }
        tr.add(id); for (int i = 0; i < n; i++) tr.add(a[i]);
        View v; Status st = RET;
        v.valid = [&](uint32_t x, uint32_t l) { return x != 0 && x < sEnd && x + l <= sEnd; };
        v.rd = [&](uint32_t x) { return mm.rd(x); };
        v.wr = [&](uint32_t x, uint32_t y) { mm.wr(x, y); };
        v.recurse = [&](const int32_t* args) { int32_t rr = 0; nest++; nestSeen++; st = mm.call(args, rr); nest--; if (st == ERR) rr = -1; if (mm.errKind == E_OPSTACK) { nestedErrors++; mm.errKind = 0; } if (st == RET && mm.resultTainted) { mm.why = "unspecified result"; st = UNDET; } return rr; };
        r = sysBehave(id, a, n, v, maxNest - nest);
        if (st == ERR) { nestedErrors++; mm.errKind = 0; st = RET; }
        tr.add(r);
        return st;
    }
};

// The real VM, driven by the same behaviour.
struct RealVm {
    const VmApi* A;
    vm_t  vm;
    Prog  p;
    Trace tr;
    int   maxNest, nest = 0;
    uint32_t sEnd;
    bool  loaded = false;
    std::vector<uint8_t> img;
    std::unique_ptr<RoImage> ro;
    std::string bad;
    static std::vector<RealVm*> all;

    RealVm(const VmApi& a, const Prog& pr, int maxNest_ = 0, bool roImage = false) : A(&a), p(pr), maxNest(maxNest_), sEnd(staticEnd(pr))
    {
        memset(&vm, 0, sizeof vm);
        img = p.image();
        if (roImage) ro.reset(new RoImage(img));
        all.push_back(this);
        host.sys = [](vm_t* v, intptr_t* args) -> intptr_t {
            for (auto r : RealVm::all) if (&r->vm == v) return r->onSys(args);
            return 0;
        };
    }
    ~RealVm() { if (loaded) A->Free(&vm); all.erase(std::find(all.begin(), all.end(), this)); }
    int create(const char* name = "prog.qvm")
    {
        int r = A->Create(&vm, name, ro ? ro->p : img.data(), (int)img.size(), sysEntry);
        loaded = r == 0;
        return r;
    }
    void release() { A->Free(&vm); loaded = false; }
    intptr_t call(const int32_t a[13])
    {
        return A->Call(&vm, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12]);
    }
    intptr_t onSys(intptr_t* args)
    {
        int id = (int)args[0]; int n = id & 15; int32_t a[16];
        for (int i = 0; i < n; i++) {
            a[i] = (int32_t)args[1 + i];
            if ((intptr_t)a[i] != args[1 + i]) bad = "a system call argument is not the sign-extended 32-bit value";
        }
        tr.add(id); for (int i = 0; i < n; i++) tr.add(a[i]);
        View v;
        v.valid = [&](uint32_t x, uint32_t l) { return x != 0 && x < sEnd && x + l <= sEnd; };
        auto ptr = [&](uint32_t x) {
            uint8_t* q = (uint8_t*)A->ArgPtr((intptr_t)(int32_t)x, &vm);
            if (A->RangeValid((intptr_t)(int32_t)x, 4, &vm) != 0) bad = "VM_MemoryRangeValid refuses a range of the data section";
            return q;
        };
        v.rd = [&](uint32_t x) { uint32_t w; memcpy(&w, ptr(x), 4); return w; };
        v.wr = [&](uint32_t x, uint32_t y) { memcpy(ptr(x), &y, 4); };
        v.recurse = [&](const int32_t* aa) { nest++; int32_t r = (int32_t)call(aa); nest--; return r; };
        int32_t r = sysBehave(id, a, n, v, maxNest - nest);
        tr.add(r);
        return r;
    }
};
std::vector<RealVm*> RealVm::all;

static const VmApi& pickCfg(Ctx& x)
{
    std::vector<int> ok;
    for (int i = 0; i < CFG_N; i++) if (api[i].Create && i != CFG_DEBUG && i != CFG_DEBUGASAN) ok.push_back(i);
    const VmApi& a = api[x.src.pick(ok)];
    x.label("cfg:" + a.name);
    return a;
}
static void keyOf(Ctx& x, const Prog& p) { auto b = p.image(); x.key ^= pbt::mix(pbt::hashBytes(b.data(), b.size())); }

static std::string traceStr(const Trace& t, size_t from, size_t n)
{
    std::string s; for (size_t i = from; i < t.w.size() && i < from + n; i++) s += std::to_string(t.w[i]) + " "; return s;
}
// Compare what both sides showed so far: system calls and static memory.
static void compareState(Ctx& x, ModelVm& m, RealVm& r, const char* when)
{
    if (!r.bad.empty()) { x.fail("%s (%s)", r.bad.c_str(), when); return; }
    if (m.tr.w != r.tr.w) {
        size_t i = 0; while (i < m.tr.w.size() && i < r.tr.w.size() && m.tr.w[i] == r.tr.w[i]) i++;
        x.say("trace of the model: %s\ntrace of the VM (%s): %s\n", traceStr(m.tr, 0, 200).c_str(), r.A->name.c_str(), traceStr(r.tr, 0, 200).c_str());
        x.fail("%s: system call trace differs at word %zu: expected ..%s got ..%s", when, i, traceStr(m.tr, i, 8).c_str(), traceStr(r.tr, i, 8).c_str());
        return;
    }
    uint8_t* d = host.data(&r.vm);
    if (!d) { x.fail("%s: the data section is gone", when); return; }
    for (uint32_t a = 0; a < m.sEnd; a++)
        if (d[a] != m.m.mem[a]) { x.fail("%s: memory at address %u is 0x%02x, expected 0x%02x (config %s)", when, a, d[a], m.m.mem[a], r.A->name.c_str()); return; }
}
static void randArgs(pbt::Src& s, int32_t a[13]) { for (int i = 0; i < 13; i++) a[i] = s.below(3) ? s.i32() : 0; }
static std::string argStr(const int32_t a[13]) { std::string r; for (int i = 0; i < 13; i++) r += (i ? "," : "") + std::to_string(a[i]); return r; }

static bool createOk(Ctx& x, RealVm& r)
{
    int c = r.create();
    if (c != 0) { x.fail("VM_Create refused a well-formed program: returned %d, errors %zu (config %s)", c, host.errs.size(), r.A->name.c_str()); return false; }
    return true;
}
// execute one call on both sides and compare everything; false = stop the case
static bool stepBoth(Ctx& x, ModelVm& m, RealVm& r, const int32_t a[13], const char* when)
{
    int32_t want = 0; m.m.steps = 0;
    Status st = m.m.call(a, want);
    if (st == FUEL || st == UNDET) { x.label(std::string("stop:") + (st == FUEL ? "fuel" : m.m.why)); return false; }
    size_t e0 = host.errs.size();
    int32_t got = (int32_t)r.call(a);
    size_t errs = host.errs.size() - e0;
    if (st == ERR) {
        x.label("ended in a reported error");
        if (got != -1) x.fail("%s: expected the call to fail with -1, it returned %d (model error kind %d)", when, got, m.m.errKind);
        else if (!errs) x.fail("%s: the call failed but reported no error", when);
    } else {
        bool expectErr = m.m.errKind == E_OPSTACK || m.m.errors || m.nestedErrors;
        if (!m.m.resultTainted && got != want) x.fail("%s: VM_Call(%s) returned %d, expected %d (config %s)", when, argStr(a).c_str(), got, want, r.A->name.c_str());
        if (errs && !expectErr) x.fail("%s: unexpected error %d '%s' (config %s)", when, host.errs.back().level, host.errs.back().text.c_str(), r.A->name.c_str());
        if (!errs && expectErr) x.fail("%s: an error was expected but none was reported", when);
    }
    if (!x.failed) compareState(x, m, r, when);
    m.m.errKind = 0; m.m.errors = 0; m.nestedErrors = 0;
    return !x.failed;
}

// ================================================================== V01 opcode semantics
static void v01(Ctx& x)
{
    host.reset();
    GenOpts o; o.sysMax = 15; if (x.src.below(4) == 0) o.maxDepth = 5;
    Gen g(x.src, o); Prog p = g.make();
    if (x.src.exhausted) { x.discarded = true; return; }
    keyOf(x, p);
    if (x.describe) x.say("%zu instructions, %zu data, %zu lit, %d bss bytes\n%s", p.code.size(), p.data.size(), p.lit.size(), p.bss, p.listing().c_str());
    const VmApi& A = pickCfg(x);
    ModelVm m(p); RealVm r(A, p);
    if (!createOk(x, r)) return;
    int n = x.src.range(1, 2); long steps = 0;
    for (int i = 0; i < n; i++) {
        int32_t a[13]; randArgs(x.src, a);
        x.say("call %d: VM_Call(%s)\n", i, argStr(a).c_str());
        if (!stepBoth(x, m, r, a, i ? "second call" : "first call")) { if (!i && !x.failed) x.discarded = true; break; }
        steps += m.m.steps;
    }
    for (int op = 0; op < NOPS; op++) {
        if (m.m.opUsed >> op & 1) x.label(std::string("op ") + opName[op]);
        if (isBranch(op) && (m.m.takenMask >> op & 1)) x.label(std::string("taken ") + opName[op]);
    }
    if (m.m.opMax > 64) x.label("operand stack > 64");
    if (m.sysCalls) x.label("system calls");
    x.nontrivial = steps >= 40 && __builtin_popcountll(m.m.opUsed) >= 12;
}

#include "more.hpp"

int main(int argc, char** argv)
{
    const char* dir = getenv("VM_SO_DIR");
    loadApis(dir ? dir : ".");
    std::vector<pbt::Check> cs;
    cs.push_back({ "V01", v01, 150000, 3000000,
        "Random well-formed programs (functions, loops, jump tables, recursion, system calls, deep operand stacks) executed through VM_Create/VM_Call "
        "in four builds of the interpreter and in an independent model; return value, system-call trace and all static memory must agree. "
        "Non-trivial: >= 40 executed instructions using >= 12 different opcodes; distinct by image hash.", "",
        { "the reference model is a correct reading of the opcode documentation", "host floats are IEEE single precision" } });
    registerMore(cs);
    return pbt::main_(argc, argv, cs);
}
