#include <csetjmp>
#include <csignal>
#include <sys/time.h>
#include <sys/stat.h>
#include <unistd.h>

// ================================================================== V02 containment
// Arbitrary bytecode, run under a CPU-time slice; the slice ends the run with a jump out of the
// interpreter (a non-terminating program is allowed, an escaping one is not).
static void onSlice(int) { if (inVm) { inVm = 0; siglongjmp(sliceJmp, 1); } sliceOver = 1; }
struct HostSide {   // callbacks run with inVm off; a slice that ended meanwhile is honoured on the way back
    int was;
    HostSide() : was(inVm) { inVm = 0; }
    ~HostSide() {}
    void leave() { if (sliceOver) siglongjmp(sliceJmp, 1); inVm = was; }
};
static void slice(long us)
{
    sliceOver = 0;
    itimerval t{}; t.it_value.tv_sec = us / 1000000; t.it_value.tv_usec = us % 1000000;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
static const VmApi* cA; static vm_t* cVm; static uint32_t cP; static std::string* cBad; static int cNest; static long cSys, cErrs;
static intptr_t containSys(vm_t* vm, intptr_t* a)
{
    HostSide hs;
    intptr_t r = 0;
    uint8_t* d = host.data(vm);
    if (++cSys > 2000) { siglongjmp(sliceJmp, 2); }
    if (vm != cVm) *cBad = "system call with another vm pointer";
    for (int i = 0; i < 16; i++) if (a[i] != (intptr_t)(int32_t)a[i]) *cBad = "system call argument is not a 32-bit value";
    auto inside = [&](void* p, size_t n) { return (uint8_t*)p >= d && (uint8_t*)p + n <= d + host.dataSize(vm); };
    switch (a[0] & 7) {
    case 0: {  // print a string
        char* s = (char*)cA->ArgPtr(a[1], vm);
        if (!s) break;
        if (!inside(s, 1)) { *cBad = "VM_ArgPtr points outside the VM memory"; break; }
        size_t left = d + host.dataSize(vm) - (uint8_t*)s;
        size_t n = strnlen(s, left);
        if (n == left) *cBad = "a string argument is not terminated inside the memory the VM allocated";
        r = (intptr_t)n; break; }
    case 1: case 5:
        if (cA->RangeValid(a[1], (size_t)a[3], vm) == 0) {
            void* p = cA->ArgPtr(a[1], vm);
            if (!inside(p, 0) || (size_t)a[3] > host.dataSize(vm) || !inside(p, (size_t)a[3])) *cBad = "VM_MemoryRangeValid accepts a range outside the VM memory";
            else memset(p, (int)a[2], (size_t)a[3]);
        }
        r = a[1]; break;
    case 2:
        if (cA->RangeValid(a[1], (size_t)a[3], vm) == 0 && cA->RangeValid(a[2], (size_t)a[3], vm) == 0) {
            void *p = cA->ArgPtr(a[1], vm), *q = cA->ArgPtr(a[2], vm);
            if ((size_t)a[3] > host.dataSize(vm) || !inside(p, (size_t)a[3]) || !inside(q, (size_t)a[3])) *cBad = "VM_MemoryRangeValid accepts a range outside the VM memory";
            else memmove(p, q, (size_t)a[3]);
        }
        r = a[1]; break;
    case 3: case 4:
        if (cNest < 3) { cNest++; inVm = 1; r = cA->Call(vm, (int)a[1], (int)a[2], (int)a[3], (int)a[4], 5, 6, 7, 8, 9, 10, 11, 12, 13); inVm = 0; cNest--; }
        break;
    default: r = a[1] ^ a[2];
    }
    hs.leave();
    return r;
}

static int32_t nasty(pbt::Src& s, uint32_t P)
{
    switch (s.below(8)) {
    case 0: return (int32_t)(P + (uint32_t)s.range(-80, 80));
    case 1: return s.range(-80, 80);
    case 2: return (int32_t)(0u - P + (uint32_t)s.range(-80, 80));
    case 3: return (int32_t)(0x80000000u + (uint32_t)s.range(-80, 80));
    case 4: return (int32_t)(P * (uint32_t)s.range(1, 200) + (uint32_t)s.range(-8, 8));
    case 5: return (int32_t)s.below(P);
    default: return s.i32();
    }
}
static void soup(pbt::Src& s, Prog& p, int n, uint32_t P)
{
    int at = (int)p.code.size(), total = at + n;
    for (int i = 0; i < n; i++) {
        int op; int32_t a = 0;
        switch (s.below(10)) {
        case 0: case 1: case 2: op = CONST; break;
        case 3: op = LOCAL; break;
        case 4: { static const int m[] = { LOAD1, LOAD2, LOAD4, STORE1, STORE2, STORE4, ARG, BLOCK_COPY, CALL, JUMP, ENTER, LEAVE }; op = m[s.below(12)]; break; }
        case 5: op = CALL; break;
        default: op = 1 + (int)s.below(NOPS - 1);
        }
        switch (op) {
        case CONST: a = s.below(3) ? nasty(s, P) : s.below(2) ? -1 - (int32_t)s.below(9) : (int32_t)s.below(total + 2); break;
        case LOCAL: case ENTER: case LEAVE: a = s.below(3) ? nasty(s, P) : 4 * (int32_t)s.below(40); break;
        case BLOCK_COPY: a = nasty(s, P); break;
        case ARG: a = (int32_t)s.below(256); break;
        default: if (isBranch(op)) a = s.below(4) ? std::min(total - 1, at + i + 1 + (int)s.below(4)) : (int32_t)s.below(total);
        }
        p.code.push_back({ (uint8_t)op, a });
    }
}
static void attack(Gen& g, uint32_t P)
{
    pbt::Src& s = g.s; auto C = [&](int32_t v) { g.p.code.push_back({ CONST, v }); };
    auto E = [&](int op, int32_t a = 0) { g.p.code.push_back({ (uint8_t)op, a }); };
    switch (s.below(12)) {
    case 0: C(nasty(s, P)); C(s.i32()); E(STORE1 + (int)s.below(3)); break;
    case 1: C(nasty(s, P)); E(LOAD1 + (int)s.below(3)); E(POP); break;
    case 2: C(nasty(s, P)); C(nasty(s, P)); E(BLOCK_COPY, nasty(s, P)); break;
    case 3: E(ENTER, nasty(s, P)); break;
    case 4: E(LEAVE, nasty(s, P)); break;
    case 5: E(ENTER, nasty(s, P)); C(-1 - (int32_t)s.below(8)); E(CALL); E(POP); break;
    case 6: C(s.i32()); E(ENTER, nasty(s, P)); E(ARG, (int32_t)s.below(256)); break;
    case 7: C(s.i32()); C(s.below(2) ? 0 : s.below(2) ? -1 : s.range(-3, 3)); E(DIVI + (int)s.below(4)); E(POP); break;
    case 8: { // hostile system call arguments
        int n = 4; for (int i = 0; i < n; i++) { C(nasty(s, P)); E(ARG, 8 + 4 * i); }
        C(-1 - (int32_t)s.below(8)); E(CALL); E(POP); break; }
    case 9: E(LOCAL, g.cur ? g.cur->frame : 0); C(s.below(2) ? (int32_t)s.below(300) : nasty(s, P)); E(STORE4); break;  // return address
    case 10: E(ENTER, nasty(s, P)); C((int32_t)s.below(30)); E(CALL); break;
    default: C((int32_t)0x80000000); C(-1); E(s.below(2) ? DIVI : MODI); E(POP); break;
    }
}
static Prog hostileProgram(Ctx& x)
{
    pbt::Src& s = x.src; Prog p;
    int kind = (int)s.below(4);
    static const int tiny[] = { 0, 1, 2, 3, 4, 8, 16, 60, 64, 68, 100, 256, 1000, 4096, 65536, 65537, 70000, 131072 };
    if (kind <= 1) {
        p.bss = tiny[s.below(18)]; int nd = (int)s.below(3) ? 0 : 4 * (int)s.below(20); for (int i = 0; i < nd; i++) p.data.push_back((uint8_t)s.below(256));
        uint32_t P = p.memSize();
        if (s.below(3)) p.code.push_back({ ENTER, s.below(4) ? 4 * (int32_t)s.below(60) : nasty(s, P) });
        soup(s, p, s.range(1, 60), P);
        x.label("soup"); if (P < 256) x.label("memory < 256 bytes");
    } else {
        GenOpts o; o.sysMax = 15; o.maxStmts = 4;
        Gen g(s, o); g.budget = 300;
        uint32_t P = 0x20000;
        g.plantIn = (int)s.below(6);
        std::function<void(Gen&)> pl = [&](Gen& gg) { int n = gg.s.range(1, 3); for (int i = 0; i < n; i++) attack(gg, P); gg.plantIn = (int)gg.s.below(8); };
        g.plant = pl;
        p = g.make();
        if (s.below(3) == 0) { p.bss = tiny[s.below(18)]; x.label("shrunk memory"); }
        if (kind == 3) { int n = s.range(1, 5); x.label("mutated program");
            for (int i = 0; i < n; i++) { Ins& I = p.code[s.below((uint32_t)p.code.size())]; if (s.below(2)) I.op = (uint8_t)s.below(NOPS); 
                if (isBranch(I.op)) I.arg = (int32_t)s.below((uint32_t)p.code.size()); else if (s.below(2)) I.arg = I.op == ARG ? (int)s.below(256) : nasty(s, P); if (I.op == ARG) I.arg &= 255; } }
        else x.label("attack fragments");
        for (auto& I : p.code) if (isBranch(I.op) && (uint32_t)I.arg >= p.code.size()) I.arg = 0;
    }
    return p;
}
static void containedRun(Ctx& x, const Prog& p, const VmApi& A, AllocMode mode, bool knownLoads)
{
    std::string bad;
    std::vector<uint8_t> img = p.image();
    host.mode = mode;
    RoImage ro(img);
    // volatile: they must survive siglongjmp
    static uint8_t cage[sizeof(vm_t) + 512]; memset(cage, 0xC3, sizeof cage);
    vm_t* vm = (vm_t*)(cage + 256); memset(vm, 0, sizeof *vm);
    int rc = A.Create(vm, "p.qvm", ro.p, (int)img.size(), containSys);
    if (rc != 0) {
        if (knownLoads) x.fail("a program with valid opcodes and branch targets was refused (config %s): %s", A.name.c_str(), host.errs.empty() ? "" : host.errs.back().text.c_str());
        x.label("refused"); if (host.live()) x.fail("refused image leaks %d allocations", host.live());
        return;
    }
    cA = &A; cVm = vm; cBad = &bad; cNest = 0; cSys = 0; cP = p.memSize();
    struct Blk { void* p; size_t n; uint64_t h; }; std::vector<Blk> blk;
    for (auto& a : host.allocs) if (a.live && a.type != VM_ALLOC_DATA_SEC && a.type != VM_ALLOC_DEBUG) blk.push_back({ a.p, a.size, pbt::hashBytes(a.p, a.size) });
    cErrs = 0;
    host.onError = [](int) { HostSide h; if (++cErrs > 20000) siglongjmp(sliceJmp, 3); h.leave(); };
    signal(SIGVTALRM, onSlice);
    static volatile int calls; calls = 0;
    slice(6000);
    int how = sigsetjmp(sliceJmp, 1);
    if (how == 0) {
        for (int k = 0; k < 2; k++) { inVm = 1; A.Call(vm, k, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); inVm = 0; calls = calls + 1; }
    }
    inVm = 0;
    slice(0);
    host.onError = nullptr;
    x.label(how == 0 ? "ran to the end" : how == 1 ? "stopped by the time slice" : "stopped by the call limit");
    if (cErrs) x.label("reported an error");
    if (cSys) x.label("made system calls");
    if (!bad.empty()) x.fail("%s (config %s)", bad.c_str(), A.name.c_str());
    for (auto& b : blk) if (pbt::hashBytes(b.p, b.n) != b.h) x.fail("running bytecode changed the code or the jump table (config %s)", A.name.c_str());
    for (int i = 0; i < 256; i++) if (cage[i] != 0xC3 || cage[256 + sizeof(vm_t) + i] != 0xC3) x.fail("bytes around the vm structure changed");
    if (mode == A_GUARD_HI)
        for (auto& a : host.allocs) if (a.live && a.type != VM_ALLOC_DEBUG) {
            uint8_t* pg = (uint8_t*)((uintptr_t)a.p & ~(uintptr_t)4095);
            for (uint8_t* q = pg; q < (uint8_t*)a.p; q++) if (*q != 0xA5) { x.fail("a byte %ld below an allocation (type %d) was overwritten (config %s)", (long)((uint8_t*)a.p - q), a.type, A.name.c_str()); break; }
            for (uint8_t* q = (uint8_t*)a.p + a.size; (uintptr_t)q & 4095; q++) if (*q != 0xA5) { x.fail("a byte above an allocation (type %d) was overwritten", a.type); break; }
        }
    if (memcmp(ro.p, img.data(), img.size())) x.fail("the image was modified");
    vm->callLevel = 0;   // after a jump out of the interpreter
    A.Free(vm);
    if (host.live()) x.fail("%d allocations leaked", host.live());
    if (!host.trouble.empty()) x.fail("%s", host.trouble.c_str());
}
static void v02(Ctx& x)
{
    host.reset();
    Prog p = hostileProgram(x);
    if (x.src.exhausted) { x.discarded = true; return; }
    keyOf(x, p);
    if (x.describe) x.say("memory %u bytes (bss %d)\n%s", p.memSize(), p.bss, p.listing(200).c_str());
    bool lo = x.src.below(2) && api[CFG_ASAN].Create;
    const VmApi& A = lo ? api[CFG_ASAN] : pickCfg(x);
    if (lo) x.label("cfg:asan, poisoned surroundings"); else x.label("guard pages");
    pbt::note("running bytecode under config %s", A.name.c_str());
    containedRun(x, p, A, lo ? A_GUARD_LO : A_GUARD_HI, true);
    x.nontrivial = p.code.size() >= 3;
}

// ================================================================== V03 loader: any bytes
enum Verdict { MUST_ACCEPT, MUST_REJECT, EITHER };
static Verdict judge(const std::vector<uint8_t>& f, const char** why)
{
    *why = "";
#define REJ(c, w) if (c) { *why = w; return MUST_REJECT; }
    REJ(f.size() <= 32, "no longer than a header");
    REJ(f.size() > 0x400000, "larger than the maximum image size");
    int64_t h[8]; for (int i = 0; i < 8; i++) h[i] = (int32_t)get32(&f[4 * i]);
    int64_t L = (int64_t)f.size(), ic = h[1], co = h[2], cl = h[3], dO = h[4], dl = h[5], ll = h[6], bl = h[7];
    REJ((uint32_t)h[0] != 0x12721444u, "bad magic number");
    REJ(ic <= 0 || co < 0 || cl <= 0 || dO < 0 || dl < 0 || ll < 0 || bl < 0, "negative or empty header field");
    REJ(co + cl > L, "code section outside the file");
    REJ(dO + dl + ll > L, "data section outside the file");
    int64_t pc = co; std::vector<int64_t> br;
    for (int64_t i = 0; i < ic; i++) {
        REJ(pc >= co + cl, "fewer instructions than announced");
        int op = f[pc]; REJ(op >= NOPS, "unknown opcode");
        int n = operandBytes(op);
        REJ(pc + 1 + n > co + cl, "truncated operand");
        if (isBranch(op)) br.push_back((int32_t)get32(&f[pc + 1]));
        pc += 1 + n;
    }
    for (auto b : br) REJ(b < 0 || b >= ic, "branch to a non-existent instruction");
    if (bl > 10485760) { *why = "huge bss"; return EITHER; }
    if (dl + ll + bl < 64) { *why = "no room for a stack"; return EITHER; }
    if (co < 32 || dO < 32) { *why = "section overlaps the header"; return EITHER; }
    if (pc < co + cl) { *why = "code after the last instruction"; return EITHER; }
    return MUST_ACCEPT;
#undef REJ
}
static int32_t fieldValue(pbt::Src& s, int32_t old, int32_t len)
{
    switch (s.below(8)) {
    case 0: return old + s.range(-5, 5);
    case 1: return len + s.range(-5, 5);
    case 2: return s.range(-4, 40);
    case 3: return (int32_t)(0x7fffffffu - s.below(64));
    case 4: return (int32_t)(0x80000000u + s.below(64));
    case 5: return (int32_t)(0x7fffffffu - (uint32_t)old + (uint32_t)s.range(-40, 40));
    case 6: return (int32_t)(1u << s.below(32));
    default: return s.i32();
    }
}
static std::vector<uint8_t> randomImage(Ctx& x, Prog* out)
{
    pbt::Src& s = x.src;
    Prog p;
    if (s.below(3) == 0) { GenOpts o; o.maxStmts = 2; o.maxDepth = 2; Gen g(s, o); g.budget = 120; p = g.make(); }
    else { p.bss = s.below(2) ? 0x10000 : (int)s.below(300); int nd = (int)s.below(24); for (int i = 0; i < nd; i++) p.data.push_back((uint8_t)s.below(256));
           int nl = (int)s.below(12); for (int i = 0; i < nl; i++) p.lit.push_back((uint8_t)s.below(256)); soup(s, p, s.range(1, 12), 4096); }
    p.gap0 = s.below(3) ? 0 : (int)s.below(20); p.gap1 = s.below(3) ? 0 : (int)s.below(20); p.tail = s.below(3) ? 0 : (int)s.below(20); p.dataFirst = s.below(4) == 0;
    std::vector<uint8_t> f = p.image();
    if (out) *out = p;
    return f;
}
static void v03(Ctx& x)
{
    host.reset();
    pbt::Src& s = x.src;
    std::vector<uint8_t> f; bool nullPtr = false; int32_t len;
    int kind = (int)s.below(12);
    if (kind == 0) { int n = (int)s.below(80); for (int i = 0; i < n; i++) f.push_back((uint8_t)s.below(256)); if (s.below(2) && f.size() >= 4) set32(f, 0, 0x12721444); x.label("random bytes"); }
    else {
        f = randomImage(x, nullptr);
        int n = kind == 1 ? 0 : s.range(1, 3);
        if (!n) x.label("unmodified");
        for (int i = 0; i < n; i++) switch (s.below(6)) {
        case 0: case 1: { int k = (int)s.below(8); set32(f, 4 * k, (uint32_t)fieldValue(s, (int32_t)get32(&f[4 * k]), (int32_t)f.size())); x.label("header field changed"); break; }
        case 2: if (f.size() > 33) { f.resize(f.size() - 1 - s.below(std::min<uint32_t>(40, (uint32_t)f.size() - 1))); while (f.size() < 32) f.push_back(0); x.label("truncated"); } break;
        case 3: { size_t at = s.below((uint32_t)f.size()); f[at] = (uint8_t)s.below(256); x.label("byte changed"); break; }
        case 4: { int32_t co = (int32_t)get32(&f[8]), cl = (int32_t)get32(&f[12]); if (co >= 0 && cl > 0 && co + (int64_t)cl <= (int64_t)f.size()) { f[co + s.below(cl)] = s.below(2) ? (uint8_t)s.below(256) : (uint8_t)s.below(NOPS); x.label("code byte changed"); } break; }
        default: { set32(f, 4, get32(&f[4]) + (uint32_t)s.range(-3, 6)); x.label("instruction count changed"); break; }
        }
    }
    if (s.below(40) == 0) { f.resize(0x400000 + s.range(-2, 3)); x.label("image around the size limit"); }
    len = (int32_t)f.size();
    if (s.below(60) == 0) { nullPtr = true; x.label("null image"); }
    bool shortLen = false;
    if (s.below(30) == 0) { len = s.range(-40, 32); if (len > (int32_t)f.size()) len = (int32_t)f.size(); shortLen = true; x.label("length below a header"); }
    if (x.src.exhausted) { x.discarded = true; return; }
    x.key = pbt::mix(pbt::hashBytes(f.data(), f.size()) + (uint64_t)len);
    if (x.describe) { x.say("%zu bytes, length argument %d:", f.size(), len); for (size_t i = 0; i < f.size() && i < 300; i++) x.say("%s%02x", i % 4 ? "" : " ", f[i]); x.say("\n"); }
    const char* why; Verdict v = nullPtr || shortLen ? MUST_REJECT : judge(f, &why);
    if (nullPtr || shortLen) why = "null image or length";
    bool lo = s.below(2);
    const VmApi& A = lo ? api[CFG_ASAN] : pickCfg(x);
    host.mode = lo ? A_GUARD_LO : A_GUARD_HI;
    x.label(v == MUST_ACCEPT ? "well-formed" : v == EITHER ? "either" : std::string("malformed: ") + why);
    pbt::note("VM_Create of a %s image (%s), config %s", v == MUST_ACCEPT ? "well-formed" : v == EITHER ? "borderline" : "malformed", why, A.name.c_str());
    RoImage ro(f);
    vm_t vm; memset(&vm, 0x77, sizeof vm);
    host.sys = [](vm_t*, intptr_t*) -> intptr_t { return 0; };
    int rc = A.Create(&vm, s.below(8) ? "x.qvm" : std::string(100, 'n').c_str(), nullPtr ? nullptr : ro.p, len, sysEntry);
    if (memcmp(ro.p, f.data(), f.size())) x.fail("VM_Create modified the image");
    if (rc != 0 && rc != -1) x.fail("VM_Create returned %d", rc);
    if (v == MUST_ACCEPT && rc != 0) x.fail("a well-formed image was refused: %s", host.errs.empty() ? "(no error)" : host.errs.back().text.c_str());
    if (v == MUST_REJECT && rc == 0) x.fail("a malformed image was accepted: %s", why);
    if (rc != 0) {
        if (host.errs.empty()) x.fail("VM_Create failed without reporting an error");
        if (host.live()) x.fail("VM_Create failed and left %d allocations", host.live());
        intptr_t c = A.Call(&vm, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
        if (c != -1) x.fail("VM_Call on a VM that failed to load returned %ld", (long)c);
    } else if (!host.errs.empty()) x.fail("VM_Create succeeded but reported error %d", host.errs.back().level);
    A.Free(&vm);
    if (host.live()) x.fail("%d allocations left after VM_Free", host.live());
    if (!host.trouble.empty()) x.fail("%s", host.trouble.c_str());
    x.nontrivial = f.size() > 32 && get32(f.data()) == 0x12721444;
    host.reset();
}

// ================================================================== V04 loader: fidelity
static void v04(Ctx& x)
{
    host.reset();
    pbt::Src& s = x.src; Prog p;
    // sizes concentrate around powers of two
    auto size = [&](int max) { int r = (int)s.below(4); if (r == 0) return 0; if (r == 1) return (int)s.below(64); int k = 1 << s.below(11); k += s.range(-3, 3); return k < 0 ? 0 : k > max ? max : k; };
    int nd = size(2000) & (s.below(4) ? ~3 : ~0), nl = size(2000);
    for (int i = 0; i < nd; i++) p.data.push_back((uint8_t)s.below(256));
    for (int i = 0; i < nl; i++) p.lit.push_back((uint8_t)s.below(256));
    switch (s.below(4)) { case 0: p.bss = 0x10000; break; case 1: p.bss = 0x10000 + (int)s.below(70000); break;
        case 2: { int tot = 1 << s.range(17, 21); p.bss = tot - nd - nl + s.range(-3, 3); break; } default: p.bss = 0x10000 + size(2000); }
    p.gap0 = s.below(2) ? 0 : (int)s.below(100); p.gap1 = s.below(2) ? 0 : (int)s.below(100); p.tail = s.below(2) ? 0 : (int)s.below(100); p.dataFirst = s.below(2);
    uint32_t total = (uint32_t)(nd + nl + p.bss), P = p.memSize();
    // program: vmMain(op, addr, value): 0 load1, 1 store1, 2 load4
    auto E = [&](int op, int32_t a = 0) { p.code.push_back({ (uint8_t)op, a }); };
    int pre = (int)s.below(6);  // the entry point is instruction 0
    E(ENTER, 72); for (int i = 0; i < pre; i++) E(IGNORE);
    auto arg = [&](int i) { E(LOCAL, 72 + 8 + 4 * i); E(LOAD4); };
    arg(0); E(CONST, 1); int b1 = (int)p.code.size(); E(EQ, 0); arg(0); E(CONST, 2); int b2 = (int)p.code.size(); E(EQ, 0);
    arg(1); E(LOAD1); E(LEAVE, 72);
    p.code[b1].arg = (int)p.code.size(); arg(1); arg(2); E(STORE1); E(CONST, 7); E(LEAVE, 72);
    p.code[b2].arg = (int)p.code.size(); arg(1); E(LOAD4); E(LEAVE, 72);
    std::vector<uint8_t> f = p.image();
    if (x.src.exhausted) { x.discarded = true; return; }
    keyOf(x, p);
    x.say("data %d lit %d bss %d -> memory %u; gaps %d %d %d, data first %d\n", nd, nl, p.bss, P, p.gap0, p.gap1, p.tail, p.dataFirst);
    const VmApi& A = pickCfg(x);
    host.sys = [](vm_t*, intptr_t*) -> intptr_t { return 0; };
    auto img = std::unique_ptr<RoImage>(new RoImage(f));
    vm_t vm; memset(&vm, 0x55, sizeof vm);
    if (A.Create(&vm, "m.qvm", img->p, (int)f.size(), sysEntry) != 0) { x.fail("a well-formed image was refused"); return; }
    img.reset();   // the image may be released after loading
    uint8_t* d = host.data(&vm);
    for (int i = 0; i < nd && !x.failed; i++) if (d[i] != p.data[i]) x.fail("data byte %d is 0x%02x, the image has 0x%02x", i, d[i], p.data[i]);
    for (int i = 0; i < nl && !x.failed; i++) if (d[nd + i] != p.lit[i]) x.fail("literal byte %d is 0x%02x, the image has 0x%02x", i, d[nd + i], p.lit[i]);
    for (uint32_t i = nd + nl; i < P && !x.failed; i++) if (d[i]) x.fail("uninitialised byte %u of %u is 0x%02x, not zero", i, P, d[i]);
    auto call = [&](int op, uint32_t a, int v) { return (int32_t)A.Call(&vm, op, (int)a, v, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); };
    // the whole announced memory below the stack is usable, byte by byte distinct
    std::vector<uint32_t> at; uint32_t lim = total > 0x10000 ? total - 0x10000 : 0;
    if (lim == 0) lim = std::min<uint32_t>(total, 64);
    for (int i = 0; i < 12; i++) { uint32_t a; switch (s.below(4)) { case 0: a = s.below(lim); break; case 1: a = lim - 1 - s.below(std::min(lim, 8u)); break; case 2: a = s.below(std::min(lim, 8u)); break; default: a = (1u << s.below(21)) % lim; } at.push_back(a); }
    std::vector<uint8_t> mem(d, d + lim);
    for (uint32_t a : at) {
        if (x.failed) break;
        int r = call(0, a, 0); if (r != mem[a]) x.fail("bytecode reads %d at address %u, expected %d", r, a, mem[a]);
        uint8_t v = (uint8_t)(mem[a] + 1 + s.below(255)); call(1, a, v); mem[a] = v;
        for (uint32_t i = 0; i < lim; i++) if (d[i] != mem[i]) { x.fail("after storing at %u, byte %u is 0x%02x, expected 0x%02x", a, i, d[i], mem[i]); break; }
    }
    for (uint32_t a : at) { if (x.failed) break; int r = call(0, a, 0); if (r != mem[a]) x.fail("bytecode reads back %d at %u, expected %d", r, a, mem[a]); 
        a &= ~3u; if (a + 4 <= lim) { r = call(2, a, 0); if (r != (int32_t)get32(&mem[a])) x.fail("LOAD4 at %u is %d, expected little-endian %d", a, r, (int32_t)get32(&mem[a])); } }
    if (A.ArgPtr(1, &vm) != d + 1 || (P > 5 && A.ArgPtr((intptr_t)P - 1, &vm) != d + P - 1)) x.fail("VM_ArgPtr does not address the data section linearly");
    if (!host.errs.empty()) x.fail("error reported: %s", host.errs.back().text.c_str());
    A.Free(&vm);
    x.nontrivial = nd + nl > 0;
    if (total == P) x.label("memory exactly a power of two"); if (total == P / 2 + 1) x.label("one byte above a power of two");
    if (nd & 3) x.label("data length not a multiple of 4");
}

// ================================================================== V05 invalid transfers
static const char* plantName[] = { "jump out of range", "call out of range", "corrupted return address", "undefined instruction", "division by zero", "extra value at return", "block copy out of range" };
static void plantFragment(Gen& g, int kind, int count)
{
    pbt::Src& s = g.s; auto C = [&](int32_t v) { g.p.code.push_back({ CONST, v }); };
    auto E = [&](int op, int32_t a = 0) { g.p.code.push_back({ (uint8_t)op, a }); };
    auto beyond = [&]() -> int32_t { switch (s.below(4)) { case 0: return count + (int32_t)s.below(3); case 1: return count + (int32_t)s.below(100000); case 2: return 0x7fffffff - (int32_t)s.below(3); default: return (int32_t)(1u << (20 + s.below(11))); } };
    switch (kind) {
    case 0: C(s.below(3) ? beyond() : -1 - (int32_t)s.below(1000000)); E(JUMP); break;
    case 1: C(beyond()); E(CALL); E(POP); break;
    case 2: E(LOCAL, g.cur->frame); C(s.below(2) ? (int32_t)(0x1000000u + s.below(0x7f000000u)) : -2 - (int32_t)s.below(1000000)); E(STORE4); if (!g.cur->isVoid) C(5); else E(PUSH); E(LEAVE, g.cur->frame); break;
    case 3: E(UNDEF); break;
    case 4: C(s.i32()); C(0); E(DIVI + (int)s.below(4)); E(POP); break;
    case 5: { int n = s.range(1, 3); for (int i = 0; i < n; i++) C(s.i32()); if (g.cur == &g.fns[0]) { C(3); E(LEAVE, g.cur->frame); } else for (int i = 0; i < n; i++) E(POP); break; }
    default: { uint32_t P = 0; { Prog q; q.data.resize(g.nData); q.lit.resize(g.nLit); q.bss = g.p.bss; P = q.memSize(); }
        int32_t good = g.bssAt, n = 1 + (int32_t)s.below(8);
        switch (s.below(6)) {
        case 0: C((int32_t)(P + s.below(100))); C(good); E(BLOCK_COPY, n); break;
        case 1: C(good); C((int32_t)(P + s.below(100000))); E(BLOCK_COPY, n); break;
        case 2: C(good); C((int32_t)P - 8); E(BLOCK_COPY, 9 + (int32_t)s.below(1000)); break;
        case 3: C((int32_t)P - 8); C(good); E(BLOCK_COPY, 9 + (int32_t)s.below(1000)); break;
        case 4: C(good); C(good + 8); E(BLOCK_COPY, (int32_t)(P + s.below(1000))); break;
        default: C(good); C(good + 8); E(BLOCK_COPY, -1 - (int32_t)s.below(1000000)); } } break;
    }
}
// a program with a guarded fault: runs it only when vmMain's first argument is `magic`
static Prog faulty(Ctx& x, GenOpts o, int32_t magic, int* kindOut)
{
    pbt::Src& s = x.src; Gen g(s, o); int kind = (int)s.below(7); *kindOut = kind;
    g.plantIn = (int)s.below(5); int depth = (int)s.below(3);
    g.plant = [&](Gen& gg) {
        bool inMain = gg.cur == &gg.fns[0];
        int skip = gg.newLabel();
        // arguments of other functions are arbitrary: the flag lives in static memory
        gg.e(CONST, gg.bssAt + gg.bssLen - 4); gg.e(LOAD4); gg.e(CONST, magic); gg.el(NE, skip);
        for (int i = 0; i < depth; i++) gg.e(CONST, 99 + i);
        if (kind != 5 || inMain) plantFragment(gg, kind, 5000);
        for (int i = 0; i < depth; i++) gg.e(POP);
        gg.place(skip);
        gg.plantIn = (int)gg.s.below(10);
    };
    Prog p = g.make();
    // prologue of vmMain: store argument 0 into the flag word (after ENTER)
    std::vector<Ins> pro = { { CONST, g.bssAt + g.bssLen - 4 }, { LOCAL, g.fns[0].frame + 8 }, { LOAD4, 0 }, { STORE4, 0 } };
    p.code.insert(p.code.begin() + 1, pro.begin(), pro.end());
    for (size_t i = 5; i < p.code.size(); i++) if (isBranch(p.code[i].op)) p.code[i].arg += 4;
    for (auto& f : g.fix) { int i = f.first + (f.first >= 1 ? 4 : 0); int t = g.labelAt[f.second]; p.code[i].arg = t + (t >= 1 ? 4 : 0); }
    for (auto& t : g.tables) { int l = g.labelAt[t.second]; set32(p.data, t.first, (uint32_t)(l + (l >= 1 ? 4 : 0))); }
    return p;
}
static bool rightCode(int kind, int level)
{
    switch (kind) {
    case E_BADINS: return level == VM_BAD_INSTRUCTION;
    case E_JUMP: case E_CALL: case E_LEAVE: return level == VM_PC_OUT_OF_RANGE || level == VM_JUMP_TO_INVALID_INSTRUCTION;
    case E_OPSTACK: return level == VM_STACK_ERROR;
    default: return level < 0;
    }
}
static void v05(Ctx& x)
{
    host.reset();
    pbt::Src& s = x.src;
    if (s.below(4) == 0) {  // faults that must already stop VM_Create
        GenOpts o; o.maxStmts = 3; Gen g(s, o); g.budget = 200; Prog p = g.make();
        int kind = (int)s.below(5); std::vector<uint8_t> f;
        std::vector<int> br; for (size_t i = 0; i < p.code.size(); i++) if (isBranch(p.code[i].op)) br.push_back((int)i);
        int32_t n = (int32_t)p.code.size();
        if (kind == 0 && br.empty()) kind = 1;
        switch (kind) {
        case 0: { int32_t t[] = { n, n + 1, n + (int32_t)s.below(100000), -1, -1 - (int32_t)s.below(100000), 0x7fffffff, (int32_t)0x80000000 }; p.code[s.pick(br)].arg = t[s.below(7)]; f = p.image(); x.label("load: branch out of range"); break; }
        case 1: p.code[s.below(n)].op = (uint8_t)(NOPS + s.below(256 - NOPS)); f = p.image(); x.label("load: unknown opcode"); break;
        case 2: f = p.image(); set32(f, 4, (uint32_t)(n + 1 + (int32_t)s.below(s.below(2) ? 3 : 1000))); x.label("load: more instructions announced"); break;
        case 3: { p.code.push_back({ (uint8_t)(s.below(2) ? CONST : ARG), 7 }); int cut = operandBytes(p.code.back().op) == 1 ? 1 : s.range(1, 4); f = p.image(); set32(f, 12, get32(&f[12]) - cut); x.label("load: operand cut off"); break; }
        default: { p.code.push_back({ (uint8_t)(EQ + s.below(16)), 0 }); p.code.back().arg = n + 1; f = p.image(); x.label("load: branch one past the end"); }
        }
        if (x.src.exhausted) { x.discarded = true; return; }
        x.key = pbt::hashBytes(f.data(), f.size());
        x.say("load-time fault %d in a program of %d instructions\n%s", kind, n, p.listing(60).c_str());
        const VmApi& A = pickCfg(x);
        vm_t vm; memset(&vm, 0, sizeof vm); host.sys = [](vm_t*, intptr_t*) -> intptr_t { return 0; };
        int rc = A.Create(&vm, "f.qvm", f.data(), (int)f.size(), sysEntry);
        if (rc != -1) x.fail("VM_Create accepted it (returned %d, config %s)", rc, A.name.c_str());
        else if (host.errs.empty()) x.fail("no error was reported");
        A.Free(&vm); x.nontrivial = true;
        if (host.live()) x.fail("%d allocations left", host.live());
        return;
    }
    GenOpts o; o.maxStmts = 4; o.sysMax = 31; int32_t magic = s.below(2) ? 2 : s.i32(); int kind;
    Prog p = faulty(x, o, magic, &kind);
    bool fallOff = s.below(12) == 0;
    if (fallOff) { // execution runs past the last instruction
        while (!p.code.empty() && p.code.back().op == UNDEF) p.code.pop_back();
        if (p.code.back().op == LEAVE) { p.code.pop_back(); x.label("runs off the end"); } }
    if (x.src.exhausted || p.code.size() >= 5000) { x.discarded = true; return; }
    keyOf(x, p);
    x.say("planted: %s, armed by first argument %d\n%s", plantName[kind], magic, p.listing().c_str());
    const VmApi& A = pickCfg(x);
    ModelVm m(p, 1); RealVm r(A, p, 1);
    if (!createOk(x, r)) return;
    int n = s.range(1, 4);
    for (int i = 0; i < n; i++) {
        int32_t a[13]; randArgs(s, a); if (s.below(3)) a[0] = magic;
        x.say("VM_Call(%s)\n", argStr(a).c_str());
        int32_t want = 0; m.m.steps = 0; size_t ev = host.errs.size();
        Status st = m.m.call(a, want); int k = m.m.errKind; int copies = m.m.errors;
        if (st == FUEL || st == UNDET) { x.label(std::string("stop:") + (st == FUEL ? "fuel" : m.m.why)); if (!i) x.discarded = true; return; }
        pbt::note("VM_Call number %d with a planted %s", i, plantName[kind]);
        int32_t got = (int32_t)r.call(a);
        std::vector<ErrRec> es(host.errs.begin() + ev, host.errs.end());
        bool any = st == ERR || k == E_OPSTACK || copies || m.nestedErrors;
        if (any && es.empty()) x.fail("call %d: %s was not reported (returned %d, config %s)", i, plantName[kind], got, A.name.c_str());
        if (!any && !es.empty()) x.fail("call %d: unexpected error %d %s", i, es[0].level, es[0].text.c_str());
        if (any && r.vm.lastError == VM_NO_ERROR) x.fail("call %d: an error was reported but lastError is 0", i);
        if (any && !es.empty() && (int)r.vm.lastError != es.back().level) x.fail("call %d: lastError is %d, the last reported error %d", i, (int)r.vm.lastError, es.back().level);
        for (auto& e : es) if (e.level >= 0) x.fail("error level %d is not an error code", e.level);
        if (st == ERR) {
            x.label(fallOff ? "error: ran off the end" : std::string("error: ") + plantName[kind]); x.nontrivial = true;
            if (got != -1) x.fail("call %d: %s: VM_Call returned %d instead of -1 (config %s)", i, plantName[kind], got, A.name.c_str());
            if (!es.empty() && !rightCode(k, es.back().level)) x.fail("call %d: %s reported as error %d", i, plantName[kind], es.back().level);
        } else {
            if (k == E_OPSTACK) { x.label("error: operand stack"); x.nontrivial = true; bool f = false; for (auto& e : es) f |= e.level == VM_STACK_ERROR; if (!f) x.fail("unbalanced operand stack not reported"); }
            else if (!m.m.resultTainted && got != want) x.fail("call %d returned %d, expected %d", i, got, want);
        }
        if (copies) { x.label("error: block copy"); x.nontrivial = true; int c = 0; for (auto& e : es) c += e.level == VM_BLOCKCOPY_OUT_OF_RANGE; if (!c) x.fail("out-of-range block copy not reported as such"); }
        if (!x.failed) compareState(x, m, r, "after the call");
        if (x.failed) return;
        m.m.errKind = 0; m.m.errors = 0; m.nestedErrors = 0;
    }
}

// ================================================================== V06 call histories
static void v06(Ctx& x)
{
    host.reset();
    pbt::Src& s = x.src;
    GenOpts o; o.maxStmts = 4; o.sysMax = 31; o.maxFuncs = 3; int32_t magic = 2; int kind;
    Prog p = faulty(x, o, magic, &kind);
    if (x.src.exhausted) { x.discarded = true; return; }
    keyOf(x, p);
    x.say("faults when the first argument is 2 (%s)\n%s", plantName[kind], p.listing().c_str());
    const VmApi& A = pickCfg(x);
    int nestMax = (int)s.below(4);
    ModelVm m(p, nestMax); RealVm r(A, p, nestMax);
    if (!createOk(x, r)) return;
    int n = s.range(2, 10), okCalls = 0, failed = 0;
    for (int i = 0; i < n; i++) {
        int32_t a[13]; randArgs(s, a);
        bool arm = s.below(3) == 0; if (arm) a[0] = magic; else if (a[0] == magic) a[0] = 3;
        int rep = arm && s.below(8) == 0 ? s.range(100, 1300) : 1;
        if (rep > 1) { x.label("burst of calls"); for (int k = 1; k < 13; k++) a[k] = 0; }
        x.say("VM_Call(%s)%s\n", argStr(a).c_str(), rep > 1 ? " repeated" : "");
        for (int k = 0; k < rep; k++) {
            int before = m.nestSeen; size_t e0 = host.errs.size();
            if (rep > 1 && k == 1 && m.m.steps > 2000) break;
            if (!stepBoth(x, m, r, a, ("call " + std::to_string(i)).c_str())) { if (i == 0 && k == 0 && !x.failed) x.discarded = true; return; }
            if (host.errs.size() > e0) failed++; else okCalls++;
            if (m.nestSeen > before) x.label("nested calls");
            if (host.errs.size() > 5000) host.errs.clear();
            if (m.tr.w.size() > 20000) { m.tr.w.clear(); r.tr.w.clear(); }
        }
    }
    if (failed) x.label("history with failing calls");
    x.nontrivial = okCalls >= 2;
}

// ================================================================== V07 system calls
static void v07(Ctx& x)
{
    host.reset();
    pbt::Src& s = x.src; Prog p;
    auto E = [&](int op, int32_t a = 0) { p.code.push_back({ (uint8_t)op, a }); };
    int frame = 72 + 4 * (int)s.below(50);
    struct SC { int32_t num; int arity; int32_t arg[16]; int from[16]; int keep; int32_t ret; };
    std::vector<SC> cs; int n = s.range(1, 8);
    p.bss = 0x10000 + 256;
    E(ENTER, frame);
    for (int i = 0; i < n; i++) {
        SC c; switch (s.below(4)) { case 0: c.num = (int32_t)0x80000000 + (int32_t)s.below(3); break; case 1: c.num = -1 - (int32_t)s.below(0x7fffffff); break; default: c.num = -1 - (int32_t)s.below(20); }
        c.arity = (int)s.below(16); c.keep = s.below(3) ? 0 : s.range(1, 20); c.ret = s.i32();
        for (int k = 0; k < c.keep; k++) E(CONST, 1000 + k);
        std::vector<int> order; for (int k = 0; k < c.arity; k++) order.push_back(k);
        if (s.below(3) == 0) for (int k = c.arity - 1; k > 0; k--) std::swap(order[k], order[s.below(k + 1)]);
        for (int k : order) {
            c.from[k] = -1;
            switch (s.below(5)) {
            case 0: { float f = s.f32(); memcpy(&c.arg[k], &f, 4); E(CONST, c.arg[k]); break; }
            case 1: { int32_t v = s.range(-100000, 100000); float f = (float)v; memcpy(&c.arg[k], &f, 4); E(CONST, v); E(CVIF); break; }
            case 2: { int w = (int)s.below(13); c.from[k] = w; E(LOCAL, frame + 8 + 4 * w); E(LOAD4); break; }
            default: c.arg[k] = s.i32(); E(CONST, c.arg[k]);
            }
            E(ARG, 8 + 4 * k);
        }
        E(CONST, c.num); E(CALL);
        // the result goes to bss, kept operands are folded into it
        for (int k = 0; k < c.keep; k++) E(BXOR);
        E(LOCAL, 72 > frame - 4 ? 68 : 68); E(POP);
        // store: address below the value is needed, so spill through ARG slot 60
        E(ARG, 8); E(CONST, 4 * i); E(LOCAL, 8); E(LOAD4); E(STORE4);
        cs.push_back(c);
    }
    E(CONST, 1234); E(LEAVE, frame);
    if (x.src.exhausted) { x.discarded = true; return; }
    keyOf(x, p);
    x.say("%d system calls, frame %d\n%s", n, frame, p.listing().c_str());
    const VmApi& A = pickCfg(x);
    int32_t a[13]; for (int i = 0; i < 13; i++) a[i] = s.i32();
    for (auto& c : cs) for (int k = 0; k < c.arity; k++) if (c.from[k] >= 0) c.arg[k] = a[c.from[k]];
    size_t at = 0; std::string bad; vm_t* pv = nullptr; bool wide = s.below(2);
    RealVm r(A, p); pv = &r.vm;
    host.sys = [&](vm_t* vm, intptr_t* args) -> intptr_t {
        if (vm != pv) bad = "wrong vm pointer";
        if (at >= cs.size()) { bad = "more system calls than the bytecode makes"; return 0; }
        SC& c = cs[at];
        if (args[0] != (intptr_t)(-1 - c.num)) bad = "system call " + std::to_string(c.num) + " arrived with identifier " + std::to_string((long)args[0]);
        for (int k = 0; k < c.arity; k++) {
            if (args[1 + k] != (intptr_t)c.arg[k]) { bad = "argument " + std::to_string(k + 1) + " of " + std::to_string(c.arity) + " is " + std::to_string((long)args[1 + k]) + ", expected " + std::to_string(c.arg[k]); break; }
            float f; memcpy(&f, &c.arg[k], 4); float g = A.IntToFloat((int32_t)args[1 + k]);
            if (memcmp(&f, &g, 4) && !std::isnan(f)) bad = "VM_IntToFloat changes the bits";
            if (!std::isnan(f) && A.FloatToInt(f) != c.arg[k]) bad = "VM_FloatToInt changes the bits";
        }
        at++;
        return wide ? (intptr_t)c.ret + ((intptr_t)(at * 77) << 32) : (intptr_t)c.ret;   // only 32 bits reach the bytecode
    };
    if (!createOk(x, r)) return;
    int32_t got = (int32_t)r.call(a);
    if (got != 1234) x.fail("VM_Call returned %d, expected 1234", got);
    if (!bad.empty()) x.fail("%s (config %s)", bad.c_str(), A.name.c_str());
    if (at != cs.size() && !x.failed) x.fail("%zu of %zu system calls were made", at, cs.size());
    uint8_t* d = host.data(&r.vm);
    for (size_t i = 0; i < cs.size() && !x.failed; i++) {
        int32_t w = cs[i].ret; for (int k = 0; k < cs[i].keep; k++) w ^= 1000 + k;
        if ((int32_t)get32(d + 4 * i) != w) x.fail("the bytecode saw result %d for call %zu, expected %d (config %s)", (int32_t)get32(d + 4 * i), i, w, A.name.c_str());
    }
    if (!host.errs.empty()) x.fail("error reported: %s", host.errs.back().text.c_str());
    bool many = false; for (auto& c : cs) many |= c.arity > 8; if (many) x.label("more than 8 arguments");
    for (auto& c : cs) if (c.keep) x.label("operands below the call");
    x.nontrivial = n >= 2;
}

// ================================================================== V08 host helpers
static void v08(Ctx& x)
{
    host.reset();
    pbt::Src& s = x.src; Prog p;
    int k = (int)s.below(6); p.bss = k == 0 ? 256 : k == 1 ? 0x10000 : k == 2 ? 0x10001 : (int)(1u << s.range(8, 22)) + s.range(-2, 2);
    auto E = [&](int op, int32_t a = 0) { p.code.push_back({ (uint8_t)op, a }); };
    // vmMain(op, addr, value)
    E(ENTER, 72); auto arg = [&](int i) { E(LOCAL, 72 + 8 + 4 * i); E(LOAD4); };
    arg(1); arg(2); int sz = (int)s.below(3); E(STORE1 + sz); E(CONST, 1); E(LEAVE, 72);
    uint32_t P = p.memSize();
    const VmApi& A = pickCfg(x); bool lo = s.below(2); const VmApi& B = lo ? api[CFG_ASAN] : A; host.mode = lo ? A_GUARD_LO : A_GUARD_HI;
    RealVm r(B, p); if (!createOk(x, r)) return;
    uint8_t* d = host.data(&r.vm);
    x.key = pbt::mix(P); int n = s.range(4, 40);
    x.say("memory of %u bytes\n", P);
    for (int i = 0; i < n && !x.failed; i++) {
        intptr_t a; size_t len;
        switch (s.below(6)) { case 0: a = (intptr_t)s.below(P); break; case 1: a = (intptr_t)P + s.range(-70, 70); break; case 2: a = s.range(-70, 70); break; case 3: a = (intptr_t)s.i32(); break;
            case 4: a = (intptr_t)P * s.range(1, 1000) + s.range(-5, 5); a = (int32_t)a; break; default: a = (intptr_t)(int32_t)(0x80000000u + s.below(P)); }
        switch (s.below(8)) { case 0: len = s.below(64); break; case 1: len = (size_t)(intptr_t)(-(intptr_t)s.below(100) - 1); break; case 2: len = P - (size_t)a + (size_t)(intptr_t)s.range(-3, 3); break; case 3: len = (size_t)(intptr_t)s.i32(); break;
            case 4: len = ((size_t)s.word() << 32) + s.below(100); break; case 5: len = (size_t)0 - (size_t)a + s.below(3); break; case 6: len = ((size_t)1 << 32) - (size_t)a + s.below(64); break; default: len = s.below(P); }
        x.key = pbt::mix(x.key + (uint64_t)a * 31 + len);
        size_t e0 = host.errs.size();
        int v = B.RangeValid(a, len, &r.vm);
        bool inside = a > 0 && (uint64_t)a < P && len <= P && (uint64_t)a + len <= P, edge = inside && (uint64_t)a + len == P;
        x.say("range(%ld, %lu) = %d\n", (long)a, (unsigned long)len, v);
        if (v != 0 && v != -1) x.fail("VM_MemoryRangeValid returned %d", v);
        if (v == 0 && !inside) x.fail("VM_MemoryRangeValid accepts address %ld, length %lu in a memory of %u bytes (config %s)", (long)a, (unsigned long)len, P, B.name.c_str());
        if (v != 0 && inside && !edge) x.fail("VM_MemoryRangeValid refuses address %ld, length %lu in a memory of %u bytes", (long)a, (unsigned long)len, P);
        if (v != 0 && a != 0 && host.errs.size() == e0) x.fail("an invalid range (%ld,%lu) was not reported to Com_Error", (long)a, (unsigned long)len);
        if (v == 0 && host.errs.size() != e0) x.fail("a valid range was reported to Com_Error");
        if (v != 0 && a != 0 && host.errs.back().level != VM_DATA_OUT_OF_RANGE) x.fail("an invalid range was reported as error %d", host.errs.back().level);
        x.label(inside ? "range inside" : v ? "range outside" : "?");
        uint8_t* q = (uint8_t*)B.ArgPtr(a, &r.vm);
        if (a == 0) { if (q) x.fail("VM_ArgPtr(0) is not NULL"); }
        else if (a > 0 && (uint64_t)a < P) { if (q != d + a) x.fail("VM_ArgPtr(%ld) is offset %ld", (long)a, (long)(q - d)); }
        else if (q && (q < d || q >= d + P)) x.fail("VM_ArgPtr(%ld) points %ld bytes from the start of a memory of %u bytes", (long)a, (long)(q - d), P);
        // stores near the end never remove the terminator of a string argument
        if (s.below(2)) {
            int32_t sa = (int32_t)(P - 1 - s.below(8)); if (s.below(4) == 0) sa = (int32_t)a;
            int32_t args[13] = { 0, sa, (int32_t)0xffffffff }; r.call(args);
            for (uint32_t b = P > 12 ? P - 12 : 1; b < P; b++) { char* str = (char*)B.ArgPtr(b, &r.vm); size_t left = d + host.dataSize(&r.vm) - (uint8_t*)str; if (strnlen(str, left) == left) { x.fail("after a store at %d a string starting at %u has no terminator inside the VM's allocation", sa, b); break; } }
        }
    }
    if (B.RangeValid(1, 1, nullptr) != -1) x.fail("VM_MemoryRangeValid with a NULL vm is not -1");
    if (B.ArgPtr(1, nullptr) != nullptr) x.fail("VM_ArgPtr with a NULL vm is not NULL");
    for (int i = 0; i < 20; i++) { int32_t b = s.i32(); float f; memcpy(&f, &b, 4); float g = B.IntToFloat(b); if (std::isnan(f) ? !std::isnan(g) : memcmp(&f, &g, 4)) x.fail("VM_IntToFloat(0x%08x) is another bit pattern", b); if (!std::isnan(f) && B.FloatToInt(f) != b) x.fail("VM_FloatToInt is not the inverse for 0x%08x", b); }
    if (!r.bad.empty()) x.fail("%s", r.bad.c_str());
    x.nontrivial = n >= 4;
}

// ================================================================== V09 isolation
static void v09(Ctx& x)
{
    host.reset();
    pbt::Src& s = x.src; int nv = s.range(2, 4);
    std::vector<std::unique_ptr<ModelVm>> ms; std::vector<std::unique_ptr<RealVm>> rs; std::vector<bool> dead;
    std::vector<Prog> ps; int kind;
    const VmApi& A = pickCfg(x);
    for (int i = 0; i < nv; i++) {
        GenOpts o; o.maxStmts = 3; o.maxFuncs = 3; o.sysMax = 31;
        Prog p; if (i && s.below(3) == 0) p = ps[s.below((uint32_t)i)]; else p = faulty(x, o, 2, &kind);
        if (i && s.below(3) == 0) p.bss += 4096 * (int)s.below(60);
        ps.push_back(p); keyOf(x, p);
        ms.emplace_back(new ModelVm(p, 1)); rs.emplace_back(new RealVm(A, p, 1)); dead.push_back(false);
        x.say("VM %d\n%s", i, p.listing(120).c_str());
    }
    if (x.src.exhausted) { x.discarded = true; return; }
    // a system call of one VM may run a call on another VM first
    int cross = -1; std::function<void()> hop; bool hopping = false; int hops = 0;
    for (int i = 0; i < nv; i++) if (!createOk(x, *rs[i])) return;
    auto inner = host.sys;
    auto step = [&](int i, const int32_t* a) -> bool {
        if (dead[i]) return true;
        int32_t want = 0; ms[i]->m.steps = 0; Status st = ms[i]->m.call(a, want);
        if (st == FUEL || st == UNDET) { dead[i] = true; return true; }   // leave this VM alone from here on
        size_t e0 = host.errs.size();
        int32_t got = (int32_t)rs[i]->call(a);
        if (st == ERR ? got != -1 : (!ms[i]->m.resultTainted && got != want)) { x.fail("VM %d returned %d, alone it returns %d (config %s)", i, got, st == ERR ? -1 : want, A.name.c_str()); return false; }
        (void)e0; ms[i]->m.errKind = 0; ms[i]->m.errors = 0; ms[i]->nestedErrors = 0;
        compareState(x, *ms[i], *rs[i], ("VM " + std::to_string(i)).c_str());
        return !x.failed;
    };
    int32_t hopArgs[13] = { 0 };
    host.sys = [&](vm_t* vm, intptr_t* args) -> intptr_t {
        intptr_t keepArgs[16]; memcpy(keepArgs, args, sizeof keepArgs);
        if (cross >= 0 && !hopping && vm != &rs[cross]->vm && hops < 6) {
            hopping = true; hops++; step(cross, hopArgs); hopping = false;
            if (memcmp(keepArgs, args, sizeof keepArgs)) x.fail("arguments of a system call changed while another VM ran");
        }
        return inner(vm, args);
    };
    int n = s.range(3, 12), done = 0;
    for (int k = 0; k < n && !x.failed; k++) {
        int i = (int)s.below(nv); int32_t a[13]; randArgs(s, a); if (s.below(4) == 0) a[0] = 2;
        cross = -1; if (s.below(2)) { cross = (int)s.below(nv); if (cross == i) cross = -1; randArgs(s, hopArgs); if (s.below(4) == 0) hopArgs[0] = 2; }
        hops = 0;
        if (cross >= 0) x.label("a VM called from another VM's system call");
        if (s.below(10) == 0 && !dead[i]) {  // reload: a fresh instance starts from the image again
            cross = -1; rs[i]->release(); ms[i].reset(new ModelVm(ps[i], 1)); rs[i]->tr.w.clear();
            if (!createOk(x, *rs[i])) return; x.label("reloaded"); x.say("reload VM %d\n", i);
        }
        x.say("VM %d: VM_Call(%s)%s\n", i, argStr(a).c_str(), cross >= 0 ? " with cross calls" : "");
        if (!step(i, a)) return;
        for (int j = 0; j < nv; j++) if (!dead[j] && !x.failed) compareState(x, *ms[j], *rs[j], ("VM " + std::to_string(j) + " after a call on VM " + std::to_string(i)).c_str());
        done += !dead[i];
    }
    int alive = 0; for (int i = 0; i < nv; i++) alive += !dead[i];
    x.nontrivial = done >= 2 && alive >= 2;
}

// ================================================================== V10 allocation faults
static void v10(Ctx& x)
{
    host.reset();
    pbt::Src& s = x.src; int nv = s.range(1, 3);
    struct V { vm_t vm; Prog p; std::vector<uint8_t> img; bool live = false, fresh = false; }; std::vector<std::unique_ptr<V>> v;
    GenOpts o; o.maxStmts = 2; o.maxFuncs = 2; o.syscalls = false; o.maxDepth = 2;
    for (int i = 0; i < nv; i++) { v.emplace_back(new V); memset(&v.back()->vm, 0, sizeof(vm_t)); Gen g(s, o); g.budget = 150; v.back()->p = g.make(); v.back()->img = v.back()->p.image(); x.key ^= pbt::hashBytes(v.back()->img.data(), v.back()->img.size()); }
    if (x.src.exhausted) { x.discarded = true; return; }
    std::vector<int> ok; for (int i = 0; i < CFG_N; i++) if (api[i].Create && i != CFG_DEBUGASAN) ok.push_back(i);
    const VmApi& A = api[s.pick(ok)]; x.label("cfg:" + A.name);
    host.sys = [](vm_t*, intptr_t*) -> intptr_t { return 0; };
    int n = s.range(2, 14); bool sawFault = false;
    for (int k = 0; k < n && !x.failed; k++) {
        int i = (int)s.below(nv); V& w = *v[i]; int op = (int)s.below(5);
        if (op <= 2 && !w.live) {
            size_t first = host.allocs.size(); size_t e0 = host.errs.size(); int live0 = host.live();
            host.allocNo = 0; host.failMask = s.below(3) ? (1ull << s.below(4)) | (s.below(4) == 0 ? 1ull << s.below(4) : 0) : 0;
            bool badImg = s.below(5) == 0; std::vector<uint8_t> img = w.img; if (badImg) { int h = (int)s.below(3); if (h == 0) img[0] ^= 1; else if (h == 1) set32(img, 4, get32(&img[4]) + 7); else img[get32(&img[8]) + 0] = 200; }
            x.say("create VM %d, failing allocations mask %llx%s\n", i, (unsigned long long)host.failMask, badImg ? ", bad image" : "");
            x.key = pbt::mix(x.key + host.failMask * 7 + badImg + i * 3);
            int rc = A.Create(&w.vm, "a.qvm", img.data(), (int)img.size(), sysEntry);
            bool faulted = false; int perType[8] = { 0 };
            for (size_t q = first; q < host.allocs.size(); q++) { faulted |= host.allocs[q].p == nullptr; if (host.allocs[q].type < VM_ALLOC_DEBUG && ++perType[host.allocs[q].type] > 1) x.fail("allocation type %d was requested twice for one VM", host.allocs[q].type);
                if (host.allocs[q].vm != &w.vm && host.allocs[q].type != VM_ALLOC_DEBUG) x.fail("Com_malloc was given another vm"); }
            bool dbgOnly = true; for (size_t q = first; q < host.allocs.size(); q++) if (!host.allocs[q].p && host.allocs[q].type != VM_ALLOC_DEBUG) dbgOnly = false;
            host.failMask = 0;
            if (faulted && !dbgOnly) { sawFault = true; x.label("an allocation failed"); }
            bool shouldFail = (faulted && !dbgOnly) || badImg;
            if (shouldFail) {
                if (rc != -1) x.fail("VM_Create returned %d although %s", rc, badImg ? "the image is bad" : "an allocation failed");
                if (host.errs.size() == e0) x.fail("VM_Create failed silently");
                if (faulted && !dbgOnly && !badImg) { bool f = false; for (size_t q = e0; q < host.errs.size(); q++) f |= host.errs[q].level == VM_MALLOC_FAILED; if (!f) x.fail("a failed allocation was not reported as VM_MALLOC_FAILED"); }
                if (host.errs.size() > e0 && (int)w.vm.lastError != host.errs.back().level) x.fail("after a failed VM_Create lastError is %d, the last reported error %d (config %s)", (int)w.vm.lastError, host.errs.back().level, A.name.c_str());
                if (host.live() != live0) x.fail("a failed VM_Create changed the number of live allocations from %d to %d", live0, host.live());
                if (s.below(2)) { size_t e1 = host.errs.size(); if (A.Call(&w.vm, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0) != -1 || host.errs.size() == e1) x.fail("VM_Call after a failed VM_Create is not refused"); }
                if (s.below(2)) A.Free(&w.vm);
            } else { if (rc != 0) x.fail("VM_Create failed without a reason: %s", host.errs.empty() ? "" : host.errs.back().text.c_str()); else w.live = w.fresh = true; }
        } else if (op == 3 && w.live) {
            ModelVm m(w.p); int32_t a[13] = { (int32_t)s.below(5) }; int32_t want; Status st = m.m.call(a, want);
            if (st == RET && !m.m.errKind && !m.m.errors) { // static memory may differ from a fresh VM: only liveness is checked here
                if (w.fresh) { int32_t g1 = (int32_t)A.Call(&w.vm, a[0], 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); if (!m.m.resultTainted && g1 != want) x.fail("VM_Call returned %d, expected %d", g1, want); }
                A.Free(&w.vm); w.live = false; if (A.Create(&w.vm, "a.qvm", w.img.data(), (int)w.img.size(), sysEntry) != 0) x.fail("re-creating a VM failed"); else { w.live = true; w.fresh = false;
                int32_t got = (int32_t)A.Call(&w.vm, a[0], 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); if (!m.m.resultTainted && got != want) x.fail("a re-created VM returned %d, expected %d", got, want); } }
        } else if (op == 4) {
            x.say("free VM %d\n", i); bool wl = w.live; int l0 = host.live(); A.Free(&w.vm); w.live = false; int l1 = host.live(); if (wl && l1 >= l0) x.fail("VM_Free released nothing");
            if (s.below(3) == 0) { A.Free(&w.vm); x.label("double VM_Free"); if (host.live() != l1) x.fail("a second VM_Free released something"); }
            if (s.below(3) == 0 && A.Call(&w.vm, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0) != -1) x.fail("VM_Call after VM_Free is not refused");
        }
        if (!host.trouble.empty()) x.fail("%s", host.trouble.c_str());
    }
    for (auto& w : v) A.Free(&w->vm);
    if (host.live()) x.fail("%d allocations leaked at the end", host.live());
    if (!host.trouble.empty()) x.fail("%s", host.trouble.c_str());
    x.nontrivial = sawFault;
}

// ================================================================== V11 configurations agree
static void v11(Ctx& x)
{
    host.reset();
    pbt::Src& s = x.src; GenOpts o; o.sysMax = 31; int kind = -1; o.maxStmts = 5;
    Prog p; if (s.below(3) == 0) p = faulty(x, o, 2, &kind); else { Gen g(s, o); p = g.make(); }
    if (x.src.exhausted) { x.discarded = true; return; }
    keyOf(x, p);
    if (x.describe) x.say("%s", p.listing().c_str());
    int32_t a[2][13]; for (int i = 0; i < 2; i++) { randArgs(s, a[i]); if (s.below(3) == 0) a[i][0] = 2; }
    x.say("VM_Call(%s), VM_Call(%s)\n", argStr(a[0]).c_str(), argStr(a[1]).c_str());
    ModelVm m(p, 1); int32_t want[2] = { 0, 0 }; Status st[2]; int calls = 0; bool taint[2] = { false, false };
    for (; calls < 2; calls++) { st[calls] = m.m.call(a[calls], want[calls]); taint[calls] = m.m.resultTainted; if (st[calls] == FUEL || st[calls] == UNDET) break; m.m.steps = 0; }
    if (!calls) { x.discarded = true; return; }
    struct Res { int32_t r[2]; std::vector<int> errs; Trace t; std::vector<uint8_t> mem; }; Res ref; std::string refName;
    int dbg = (int)s.below(3);
    for (int c = 0; c < CFG_N; c++) {
        if (!api[c].Create || c == CFG_DEBUGASAN) continue;
        host.reset(); Res q{};
        {
            RealVm r(api[c], p, 1);
            api[c].Debug(dbg);
            pbt::note("config %s", api[c].name.c_str());
            if (!createOk(x, r)) return;
            host.errs.clear();
            for (int i = 0; i < calls; i++) { q.r[i] = (int32_t)r.call(a[i]); if (st[i] == RET && taint[i]) q.r[i] = 0; }
            for (auto& e : host.errs) q.errs.push_back(e.level);
            q.t = r.tr; uint8_t* d = host.data(&r.vm); q.mem.assign(d, d + r.sEnd);
            if (dbg && s.below(4) == 0) api[c].Profile(&r.vm);
        }
        if (host.live()) x.fail("%d allocations leaked in config %s", host.live(), api[c].name.c_str());
        if (refName.empty()) { ref = q; refName = api[c].name; continue; }
        for (int i = 0; i < calls; i++) if (q.r[i] != ref.r[i]) x.fail("call %d returns %d in config %s and %d in config %s", i, ref.r[i], refName.c_str(), q.r[i], api[c].name.c_str());
        if (q.errs != ref.errs) x.fail("reported errors differ between %s (%zu) and %s (%zu)", refName.c_str(), ref.errs.size(), api[c].name.c_str(), q.errs.size());
        if (q.t.w != ref.t.w) x.fail("system call traces differ between %s and %s", refName.c_str(), api[c].name.c_str());
        if (q.mem != ref.mem) x.fail("static memory differs between %s and %s", refName.c_str(), api[c].name.c_str());
    }
    for (int i = 0; i < calls && !x.failed; i++) if (st[i] == RET && !taint[i] && ref.r[i] != want[i]) x.fail("all configurations return %d, the model %d", ref.r[i], want[i]);
    if (st[0] == ERR) x.label("error run");
    x.nontrivial = p.code.size() > 30;
}

// ================================================================== V12 API histories and misuse
static void v12(Ctx& x)
{
    host.reset();
    pbt::Src& s = x.src; int nv = 2;
    std::vector<int> ok; for (int i = 0; i < CFG_N; i++) if (api[i].Create && i != CFG_DEBUG && i != CFG_DEBUGASAN) ok.push_back(i);
    const VmApi& A = api[s.pick(ok)]; x.label("cfg:" + A.name);
    // vmMain(cmd, n): counter += n; cmd 1: system call 0; cmd 2: undefined instruction; returns counter
    Prog p; p.bss = 0x10000 + 64; auto E = [&](int op, int32_t a = 0) { p.code.push_back({ (uint8_t)op, a }); };
    E(ENTER, 72); E(CONST, 4); E(CONST, 4); E(LOAD4); E(LOCAL, 84); E(LOAD4); E(ADD); E(STORE4);
    E(LOCAL, 80); E(LOAD4); E(CONST, 2); int b = (int)p.code.size(); E(EQ, 0);
    E(LOCAL, 80); E(LOAD4); E(CONST, 1); int c = (int)p.code.size(); E(NE, 0);
    E(CONST, 11); E(ARG, 8); E(CONST, -1); E(CALL); E(POP);
    p.code[c].arg = (int)p.code.size(); E(CONST, 4); E(LOAD4); E(LEAVE, 72);
    p.code[b].arg = (int)p.code.size(); E(UNDEF);
    std::vector<uint8_t> good = p.image(), badImg = good; set32(badImg, 4, get32(&good[4]) + 1);
    struct V { vm_t vm; int state = 0; int32_t counter = 0; int last = 0; } v[2];   // state 0 zeroed/freed, 1 loaded
    for (auto& w : v) memset(&w.vm, 0, sizeof w.vm);
    int n = s.range(3, 25), loads = 0, misuse = 0; int freeInside = -1, nestedInside = 0, inSys = 0, freeDeep = 0;
    std::string sysBad;
    host.sys = [&](vm_t* vm, intptr_t* args) -> intptr_t {
        inSys++;
        if (args[0] != 0 || args[1] != 11) sysBad = "wrong system call arguments";
        if (freeInside >= 0) { size_t e = host.errs.size(); int l = host.live(); A.Free(&v[freeInside].vm);
            if (vm == &v[freeInside].vm) { if (host.live() != l) sysBad = "VM_Free released a running VM"; if (host.errs.size() == e || host.errs.back().level != VM_FREE_ON_RUNNING_VM) sysBad = "VM_Free on a running VM was not reported"; else if (vm->lastError != VM_FREE_ON_RUNNING_VM) sysBad = "lastError not set by VM_Free on a running VM"; }
            else { v[freeInside].state = 0; } }
        if (freeDeep > 0) { if (--freeDeep == 0) { size_t e = host.errs.size(); int l = host.live(); A.Free(vm); if (host.live() != l) sysBad = "VM_Free released a VM that runs a nested call";
                else if (host.errs.size() == e || host.errs.back().level != VM_FREE_ON_RUNNING_VM) sysBad = "VM_Free on a VM in a nested call was not reported"; return 0; }
            for (auto& w : v) if (&w.vm == vm) { w.counter += 1; int32_t want = w.counter + 1 * (freeDeep - 1); if (A.Call(vm, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0) != want) sysBad = "a nested call returned a wrong value"; } }
        if (nestedInside) { nestedInside = 0; for (auto& w : v) if (&w.vm == vm) { w.counter += 5; if (A.Call(vm, 0, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0) != w.counter) sysBad = "a nested call returned a wrong value";
            size_t e = host.errs.size(); int l = host.live(); A.Free(vm); if (host.live() != l || host.errs.size() == e) sysBad = "VM_Free after a nested call released the running VM"; } }
        return 0;
    };
    for (int k = 0; k < n && !x.failed; k++) {
        V& w = v[s.below(nv)]; int wi = (int)(&w - v); int op = (int)s.below(13); size_t e0 = host.errs.size(); int live0 = host.live();
        auto err = [&](int level, const char* what) { if (host.errs.size() == e0) x.fail("%s was not reported", what); else if (host.errs.back().level != level) x.fail("%s reported as %d, expected %d", what, host.errs.back().level, level); misuse++; };
        auto noerr = [&](const char* what) { if (host.errs.size() != e0) x.fail("%s reported error %d", what, host.errs.back().level); };
        switch (op) {
        case 0: case 1: if (w.state) break; x.say("create %d\n", wi);
            if (A.Create(&w.vm, "h.qvm", good.data(), (int)good.size(), sysEntry) != 0) x.fail("VM_Create failed"); noerr("VM_Create"); if (w.vm.lastError != VM_NO_ERROR) x.fail("lastError after a successful VM_Create is %d", (int)w.vm.lastError); w.state = 1; w.counter = 0; loads++; break;
        case 2: if (w.state) break; { x.say("create %d from a bad image\n", wi); const std::vector<uint8_t>& im = badImg; int len = s.below(2) ? (int)im.size() : (int)s.below(33);
            if (A.Create(&w.vm, "h.qvm", im.data(), len, sysEntry) != -1) x.fail("VM_Create accepted a bad image"); if (host.errs.size() == e0) x.fail("a bad image was not reported");
            else if ((int)w.vm.lastError != host.errs.back().level) x.fail("after a failed VM_Create lastError is %d, reported was %d", (int)w.vm.lastError, host.errs.back().level);
            if (host.live() != live0) x.fail("allocations left by a failed VM_Create"); misuse++; } break;
        case 3: x.say("create NULL\n"); if (A.Create(nullptr, "h.qvm", good.data(), (int)good.size(), sysEntry) != -1) x.fail("VM_Create(NULL) succeeded"); err(VM_INVALID_POINTER, "VM_Create with a NULL vm"); break;
        case 4: if (w.state) break; x.say("create %d without system calls\n", wi); if (A.Create(&w.vm, "h.qvm", good.data(), (int)good.size(), nullptr) != -1) x.fail("VM_Create without system calls succeeded"); err(VM_NO_SYSCALL_CALLBACK, "a missing system call callback");
            if (w.vm.lastError != VM_NO_SYSCALL_CALLBACK) x.fail("lastError is %d after a missing callback", (int)w.vm.lastError); if (host.live() != live0) x.fail("allocations left"); break;
        case 5: { int32_t d = s.range(-9, 9); x.say("call %d, cmd 0, add %d\n", wi, d); intptr_t r = A.Call(&w.vm, 0, d, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
            if (!w.state) { if (r != -1) x.fail("VM_Call on an unloaded VM returned %ld", (long)r); err(VM_NOT_LOADED, "VM_Call on an unloaded VM"); if (w.vm.lastError != VM_NOT_LOADED) x.fail("lastError is %d after VM_Call on an unloaded VM", (int)w.vm.lastError); }
            else { w.counter += d; if (r != w.counter) x.fail("VM_Call returned %ld, expected %d", (long)r, w.counter); noerr("VM_Call"); } break; }
        case 6: if (!w.state) break; x.say("call %d, undefined instruction\n", wi); w.counter += 1; if (A.Call(&w.vm, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0) != -1) x.fail("a failing call did not return -1"); err(VM_BAD_INSTRUCTION, "an undefined instruction"); if (w.vm.lastError != VM_BAD_INSTRUCTION) x.fail("lastError not set"); break;
        case 7: x.say("call NULL\n"); if (A.Call(nullptr, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0) != -1) x.fail("VM_Call(NULL) is not -1"); err(VM_INVALID_POINTER, "VM_Call with a NULL vm"); break;
        case 8: x.say("free %d\n", wi); A.Free(&w.vm); noerr("VM_Free"); if (w.state && host.live() == live0) x.fail("VM_Free released nothing"); w.state = 0; break;
        case 9: x.say("free NULL\n"); A.Free(nullptr); noerr("VM_Free(NULL)"); break;
        case 10: if (!w.state) break; { freeInside = (int)s.below(nv); x.say("call %d, which frees VM %d from the system call\n", wi, freeInside); w.counter += 3; int calls0 = inSys;
            intptr_t r = A.Call(&w.vm, 1, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); if (r != w.counter) x.fail("VM_Call returned %ld, expected %d", (long)r, w.counter); if (inSys == calls0) x.fail("no system call was made"); freeInside = -1; misuse++; break; }
        case 12: if (!w.state) break; { freeDeep = s.range(2, 4); int d = freeDeep; x.say("call %d, which frees itself in %d nested calls\n", wi, d); w.counter += 2; intptr_t r = A.Call(&w.vm, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); if (r != w.counter) x.fail("VM_Call with nested calls returned %ld, expected %d", (long)r, w.counter);
            if (freeDeep) x.fail("a system call did not happen"); freeDeep = 0; x.label("free in a nested call"); misuse++; break; }
        default: if (!w.state) break; x.say("call %d with a nested call\n", wi); nestedInside = 1; w.counter += 2; { intptr_t r = A.Call(&w.vm, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); if (r != w.counter) x.fail("VM_Call with a nested call returned %ld, expected %d", (long)r, w.counter); } x.label("nested call");
        }
        if (!sysBad.empty()) x.fail("%s (config %s)", sysBad.c_str(), A.name.c_str());
        if (!host.trouble.empty()) x.fail("%s", host.trouble.c_str());
        x.key = pbt::mix(x.key + op * 16 + wi);
        for (auto& e : host.errs) if (e.text.empty()) x.fail("an error without text");
    }
    for (auto& w : v) A.Free(&w.vm);
    if (host.live()) x.fail("%d allocations leaked", host.live());
    x.nontrivial = loads >= 1 && misuse >= 1;
}

struct Res14 { int32_t r = 0; std::vector<int> errs; std::vector<int32_t> w; std::vector<uint8_t> mem; };
#include "more2.hpp"

static void registerMore(std::vector<pbt::Check>& cs)
{
    cs.push_back({ "V02", v02, 90000, 2500000,
        "Hostile bytecode: random instruction soup, well-formed programs with attack fragments (wild addresses, frames, sizes, jumps, divisions, system call arguments, overwritten return addresses) or mutated instructions, "
        "memory sizes from 1 byte up, nested calls from hostile stacks. Every allocation of the VM sits in a 40 GB reservation without access rights (any 32-bit offset faults), or is surrounded by poisoned memory in an ASan build; "
        "code, jump table, image, surroundings and the vm structure must be unchanged, the process must survive. Non-trivial: >= 3 instructions; distinct by image hash.", "",
        { "non-terminating bytecode is cut off after 6 ms of CPU time and counts as contained up to there", "the host callbacks validate ranges the way src/main.c does" } });
    cs.push_back({ "V03", v03, 120000, 4000000,
        "Byte strings as images: random bytes, well-formed images (random section order and gaps) with mutated header fields, truncations, code bytes and counts, placed read-only against an inaccessible page. An independent predicate says accept / reject / either. "
        "Non-trivial: longer than a header and with the right magic number; distinct by content hash.", "", {} });
    cs.push_back({ "V04", v04, 25000, 300000,
        "Well-formed images with section sizes around powers of two, gaps and either section order; memory content, size, addressability (reads and writes by bytecode, at all edges) are compared with the image. Non-trivial: non-empty data or literals; distinct by image hash.", "", {} });
    cs.push_back({ "V05", v05, 150000, 2500000,
        "Well-formed programs with one planted fault (jump, call, return, branch, opcode, operand, division, block copy, unbalanced stack) at a random place, armed by an argument; the model says where the run must stop. Non-trivial: the fault was reached (or must be refused at load); distinct by image hash.", "", {} });
    cs.push_back({ "V06", v06, 40000, 700000,
        "Histories of 2-10 calls (some bursts of >100 failing calls) on one VM, with nested calls from system calls up to depth 3 and failing calls interleaved; every result, trace and static memory compared with the model. Non-trivial: >= 2 successful calls; distinct by image hash.", "", {} });
    cs.push_back({ "V07", v07, 200000, 5000000,
        "Sequences of system calls with 0-15 arguments of all kinds, any negative number, operands below the call on the stack, 64-bit return values. Non-trivial: >= 2 calls; distinct by image hash.", "", {} });
    cs.push_back({ "V08", v08, 150000, 4000000,
        "Address/length pairs around 0, the memory size, 2^31, 2^32 and 2^64 for memory sizes around powers of two, against interval arithmetic in 64 bits; a range ending exactly at the end of memory is left open. Non-trivial: >= 4 pairs; distinct by pair sequence.", "", {} });
    cs.push_back({ "V09", v09, 20000, 600000,
        "2-4 VMs, interleaved and cross-called histories, failing calls and reloads included; each VM must behave exactly like its own model run alone. Non-trivial: >= 2 VMs still comparable and >= 2 calls; distinct by images.", "", {} });
    cs.push_back({ "V10", v10, 120000, 3000000,
        "Histories of create / call / free on up to 3 VMs with every subset of allocations failing; allocation log must show one allocation per type, all released exactly once with the same type and vm, failures reported. Non-trivial: an allocation failed; distinct by images and fault masks.", "", {} });
    cs.push_back({ "V11", v11, 60000, 1500000,
        "The same program (a third with faults) run in five builds: computed gotos (gcc -O2, -O0, clang+ASan), switch dispatch, DEBUG_VM; results, errors, traces and static memory must be equal to each other and the model. Non-trivial: > 30 instructions; distinct by image hash.", "", {} });
    cs.push_back({ "V12", v12, 250000, 6000000,
        "Histories of 3-25 API calls on two VM structures including every documented misuse (NULL, missing callback, unloaded, freed, free while running, nested). A small state model predicts result, error code, lastError and allocations. Non-trivial: at least one load and one misuse; distinct by operation sequence.", "", {} });
    cs.push_back({ "V13", v13, 40000, 1200000,
        "Hostile bytecode as in V02, run twice in the same build with the same arguments and system call results, but with different junk in the host stack and in fresh heap memory. Returned values, system call arguments, errors and final VM memory must be identical. "
        "Non-trivial: >= 3 instructions, ran to the end both times, something observable; distinct by image hash.", "", { "runs cut off by the time slice or the call limit are not compared" } });
    cs.push_back({ "V14", v14, 80000, 2500000,
        "Programs (a quarter with a planted fault) loaded by a DEBUG_VM build under ASan together with a generated map file: well-formed lines, mangled, truncated or random bytes, long names, values out of range, failing symbol allocations; all debug levels, VM_VmProfile_f. "
        "No memory error, no leak, and the same result, system calls, errors and memory as the normal build. Non-trivial: a map file of more than 4 bytes; distinct by image and map.", "", {} });
    cs.push_back({ "V15", v15, 40000, 1200000,
        "Well-formed programs with a well-formed map file (symbols of functions and labels in ascending order, other segments between them, long names, different white space; file names with directories and dots) in two DEBUG_VM builds. The number of symbols, each line of the trace at the levels 1 and 2 "
        "and the profile after some calls (nested ones included) must be what the model's run prescribes. Non-trivial: >= 2 symbols and a trace or more than 20 counted instructions; distinct by image and map.", "", {} });
}
