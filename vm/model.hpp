// Reference model of the Q3VM bytecode, written from the opcode documentation (README, the
// specification in the repository, the comments in the opcode enum), not from the interpreter.
// Anything the documentation leaves open makes the run UNDET (undetermined): such cases are not
// compared.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace q3 {

enum Op : uint8_t {
    UNDEF, IGNORE, BREAK, ENTER, LEAVE, CALL, PUSH, POP, CONST, LOCAL, JUMP,
    EQ, NE, LTI, LEI, GTI, GEI, LTU, LEU, GTU, GEU, EQF, NEF, LTF, LEF, GTF, GEF,
    LOAD1, LOAD2, LOAD4, STORE1, STORE2, STORE4, ARG, BLOCK_COPY,
    SEX8, SEX16, NEGI, ADD, SUB, DIVI, DIVU, MODI, MODU, MULI, MULU,
    BAND, BOR, BXOR, BCOM, LSH, RSHI, RSHU, NEGF, ADDF, SUBF, DIVF, MULF, CVIF, CVFI, NOPS
};
static const char* const opName[] = { "UNDEF", "IGNORE", "BREAK", "ENTER", "LEAVE", "CALL", "PUSH", "POP", "CONST", "LOCAL",
    "JUMP", "EQ", "NE", "LTI", "LEI", "GTI", "GEI", "LTU", "LEU", "GTU", "GEU", "EQF", "NEF", "LTF", "LEF", "GTF", "GEF",
    "LOAD1", "LOAD2", "LOAD4", "STORE1", "STORE2", "STORE4", "ARG", "BLOCK_COPY", "SEX8", "SEX16", "NEGI", "ADD", "SUB",
    "DIVI", "DIVU", "MODI", "MODU", "MULI", "MULU", "BAND", "BOR", "BXOR", "BCOM", "LSH", "RSHI", "RSHU", "NEGF", "ADDF",
    "SUBF", "DIVF", "MULF", "CVIF", "CVFI" };
inline int operandBytes(int op)
{
    if (op == ENTER || op == LEAVE || op == CONST || op == LOCAL || op == BLOCK_COPY || (op >= EQ && op <= GEF)) return 4;
    return op == ARG ? 1 : 0;
}
inline bool isBranch(int op) { return op >= EQ && op <= GEF; }

struct Ins { uint8_t op; int32_t arg; };

inline void put32(std::vector<uint8_t>& v, uint32_t x) { for (int i = 0; i < 4; i++) v.push_back(uint8_t(x >> (8 * i))); }
inline void set32(std::vector<uint8_t>& v, size_t at, uint32_t x) { for (int i = 0; i < 4; i++) v[at + i] = uint8_t(x >> (8 * i)); }
inline uint32_t get32(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }

struct Prog {
    std::vector<Ins>     code;
    std::vector<uint8_t> data, lit;
    int32_t              bss = 0;
    // file layout knobs
    int  gap0 = 0, gap1 = 0, tail = 0; bool dataFirst = false;
    std::vector<uint8_t> codeBytes() const
    {
        std::vector<uint8_t> c;
        for (auto& i : code) {
            c.push_back(i.op);
            int n = operandBytes(i.op);
            if (n == 4) put32(c, i.arg); else if (n == 1) c.push_back((uint8_t)i.arg);
        }
        return c;
    }
    std::vector<uint8_t> image() const
    {
        std::vector<uint8_t> c = codeBytes(), f(32, 0), d(data);
        d.insert(d.end(), lit.begin(), lit.end());
        auto gap = [&](int n) { for (int i = 0; i < n; i++) f.push_back(0xEE); };
        gap(gap0);
        size_t co, dO;
        if (dataFirst) { dO = f.size(); f.insert(f.end(), d.begin(), d.end()); gap(gap1); co = f.size(); f.insert(f.end(), c.begin(), c.end()); }
        else { co = f.size(); f.insert(f.end(), c.begin(), c.end()); gap(gap1); dO = f.size(); f.insert(f.end(), d.begin(), d.end()); }
        gap(tail);
        set32(f, 0, 0x12721444); set32(f, 4, (uint32_t)code.size());
        set32(f, 8, (uint32_t)co); set32(f, 12, (uint32_t)c.size());
        set32(f, 16, (uint32_t)dO); set32(f, 20, (uint32_t)data.size());
        set32(f, 24, (uint32_t)lit.size()); set32(f, 28, (uint32_t)bss);
        return f;
    }
    uint32_t memSize() const
    {
        uint64_t n = data.size() + lit.size() + (uint64_t)bss; uint32_t p = 1;
        while (p < n) p <<= 1;
        return p;
    }
    std::string listing(size_t max = 4000) const
    {
        std::string s; char b[64];
        for (size_t i = 0; i < code.size() && i < max; i++) {
            int op = code[i].op;
            if (op < NOPS && operandBytes(op)) snprintf(b, sizeof b, "%zu: %s %d\n", i, opName[op], code[i].arg);
            else if (op < NOPS) snprintf(b, sizeof b, "%zu: %s\n", i, opName[op]);
            else snprintf(b, sizeof b, "%zu: opcode %d\n", i, op);
            s += b;
        }
        if (code.size() > max) s += "...\n";
        return s;
    }
};

enum Status { RET, ERR, FUEL, UNDET };
enum ErrKind { E_NONE, E_BADINS, E_JUMP, E_CALL, E_LEAVE, E_BRANCH, E_DIV, E_OPSTACK };

struct Model {
    const Prog*          prog;
    std::vector<uint8_t> mem;
    uint32_t             P;
    int64_t              ps;          // current program stack pointer between calls
    std::map<uint32_t, int> ret;      // where return addresses live, and what they mean
    long                 fuel = 20000, steps = 0;
    int                  errKind = E_NONE;
    int                  errors = 0;  // out-of-range block copies seen (reported, not fatal)
    bool                 resultTainted = false;
    const char*          why = "";    // reason of UNDET
    int                  depthMax = 0, nest = 0, opMax = 0;
    uint64_t             opUsed = 0;
    uint64_t             takenMask = 0, notTakenMask = 0;
    std::function<Status(Model&, int id, uint32_t argAddr, int32_t& r)> sys;  // argAddr: address of argument 1
    enum Ev { BEGIN, STEP, ENTERED, LEFT, SYS, SYSRET, END };
    std::function<void(int ev, int64_t v, size_t opStack)> obs;               // what a debugger would see

    explicit Model(const Prog& p) : prog(&p), P(p.memSize()), ps(P)
    {
        mem.assign(P, 0);
        std::copy(p.data.begin(), p.data.end(), mem.begin());
        std::copy(p.lit.begin(), p.lit.end(), mem.begin() + p.data.size());
    }
    uint32_t rd(uint32_t a) const { return get32(&mem[a]); }
    void wr(uint32_t a, uint32_t v) { for (int i = 0; i < 4; i++) mem[a + i] = uint8_t(v >> (8 * i)); kill(a, 4); }
    void kill(uint32_t a, uint32_t n) { if (!ret.empty()) for (auto i = ret.lower_bound(a < 3 ? 0 : a - 3); i != ret.end() && i->first < a + n;) i = ret.erase(i); }
    Status undet(const char* w) { why = w; return UNDET; }

    Status call(const int32_t args[13], int32_t& result)
    {
        int64_t entry = ps, sp = ps;
        Status s = run(args, result, sp);
        ps = entry;
        return s;
    }

private:
    static float asF(uint32_t x) { float f; memcpy(&f, &x, 4); return f; }
    static uint32_t asI(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }

    Status run(const int32_t args[13], int32_t& result, int64_t sp)
    {
        std::vector<uint64_t> st;   // bit 32: unspecified value
        const std::vector<Ins>& C = prog->code;
        sp -= 8 + 4 * 13;
        if (sp < 0) return undet("no room for the call");
        for (int i = 0; i < 13; i++) wr((uint32_t)sp + 8 + 4 * i, (uint32_t)args[i]);
        wr((uint32_t)sp + 4, 0); wr((uint32_t)sp, 0xffffffff); ret[(uint32_t)sp] = -1;
        size_t pc = 0;
        nest++; struct G { int& n; std::function<void(int, int64_t, size_t)>& o; ~G() { if (o) o(END, 0, 0); n--; } } g{ nest, obs };
        if (obs) obs(BEGIN, 0, 0);
        auto inMem = [&](uint32_t a, uint32_t n) { return a < P && a % n == 0; };
#define NEED(n) if (st.size() < (n)) return undet("operand stack underflow")
#define POPV() (tmp = st.back(), st.pop_back(), tainted |= tmp >> 32 != 0, (uint32_t)tmp)
        uint64_t tmp; bool tainted = false; resultTainted = false;
        for (;;) {
            if (++steps > fuel) return FUEL;
            if (pc >= C.size()) { errKind = E_BADINS; return ERR; }
            const Ins I = C[pc]; int op = I.op; uint32_t arg = (uint32_t)I.arg;
            if (obs) obs(STEP, (int64_t)pc, st.size());
            pc++;
            if (st.size() > 250) return undet("operand stack too deep");
            if ((int)st.size() > opMax) opMax = (int)st.size();
            opUsed |= 1ull << (op & 63);
            switch (op) {
            case UNDEF: errKind = E_BADINS; return ERR;
            case IGNORE: case BREAK: break;
            case ENTER:
                if ((int32_t)arg < 0 || arg % 4) return undet("odd frame");
                sp -= arg; if (sp < 4096 && sp < (int64_t)(prog->data.size() + prog->lit.size() + 64)) return undet("stack too deep");
                if ((int64_t)P - sp > depthMax) depthMax = (int)((int64_t)P - sp);
                if (obs) obs(ENTERED, (int64_t)pc - 1, st.size());
                break;
            case LEAVE: {
                if ((int32_t)arg < 0 || arg % 4) return undet("odd frame");
                sp += arg; if (sp + 4 > P) return undet("frame above the stack");
                auto it = ret.find((uint32_t)sp);
                if (it == ret.end()) {
                    int32_t v = (int32_t)rd((uint32_t)sp);
                    if (v == -1 || (v >= 0 && v < (1 << 24))) return undet("return through an overwritten address");
                    errKind = E_LEAVE; return ERR;
                }
                if (obs) obs(LEFT, it->second, st.size());
                if (it->second == -1) {
                    if (st.size() != 1) { if (st.empty()) return undet("nothing returned"); errKind = E_OPSTACK; result = (int32_t)st.back(); return RET; }
                    result = (int32_t)st.back(); resultTainted = st.back() >> 32 != 0;
                    return RET;
                }
                pc = (size_t)it->second; break; }
            case CALL: {
                NEED(1);
                int32_t t = (int32_t)POPV();
                if (sp < 0 || sp + 8 > P) return undet("no frame");
                wr((uint32_t)sp, (uint32_t)pc); ret[(uint32_t)sp] = (int)pc;
                if (t < 0) {
                    if (obs) obs(SYS, -1 - t, st.size());
                    int64_t save = ps; ps = sp - 4; int32_t r = 0;
                    Status s = sys ? sys(*this, -1 - t, (uint32_t)sp + 8, r) : RET;
                    ps = save;
                    if (s != RET) return s;
                    auto it = ret.find((uint32_t)sp);
                    if (it == ret.end()) return undet("system call overwrote the return address");
                    st.push_back((uint32_t)r);
                    if (obs) obs(SYSRET, (int64_t)pc, st.size());
                } else if ((size_t)t >= C.size()) { errKind = E_CALL; return ERR; }
                else pc = (size_t)t;
                break; }
            case PUSH: st.push_back(1ull << 32); break;
            case POP: NEED(1); st.pop_back(); break;
            case CONST: st.push_back(arg); break;
            case LOCAL: st.push_back((uint32_t)(sp + (int32_t)arg)); break;
            case JUMP: {
                NEED(1); uint32_t t = POPV();
                if (t >= C.size()) { errKind = E_JUMP; return ERR; }
                pc = t; break; }
            case LOAD1: case LOAD2: case LOAD4: {
                NEED(1); uint32_t a = POPV(), n = op == LOAD1 ? 1 : op == LOAD2 ? 2 : 4;
                if (!inMem(a, n)) return undet("address outside the memory or misaligned");
                uint32_t v = mem[a]; if (n > 1) v |= mem[a + 1] << 8; if (n == 4) v = rd(a);
                st.push_back(v); break; }
            case STORE1: case STORE2: case STORE4: {
                NEED(2); uint32_t v = POPV(), a = POPV(), n = op == STORE1 ? 1 : op == STORE2 ? 2 : 4;
                if (!inMem(a, n)) return undet("address outside the memory or misaligned");
                for (uint32_t i = 0; i < n; i++) mem[a + i] = uint8_t(v >> (8 * i));
                kill(a, n); break; }
            case ARG: {
                NEED(1); uint32_t v = POPV(); int64_t a = sp + (arg & 255);
                if (a < 0 || a + 4 > P || a % 4) return undet("argument outside the stack");
                wr((uint32_t)a, v); break; }
            case BLOCK_COPY: {
                NEED(2); uint32_t s = POPV(), d = POPV(), n = arg;
                if (s >= P || d >= P || n > P || s + n > P || d + n > P) { errors++; break; }
                if (s + n == P || d + n == P) return undet("block copy ending exactly at the end of memory");
                if (s < d + n && d < s + n && s != d) return undet("overlapping block copy");
                for (uint32_t i = 0; i < n; i++) mem[d + i] = mem[s + i];
                kill(d, n); break; }
            default:
                if (isBranch(op)) {
                    NEED(2); uint32_t b = POPV(), a = POPV(); bool t; float fa = asF(a), fb = asF(b);
                    switch (op) {
                    case EQ: t = a == b; break; case NE: t = a != b; break;
                    case LTI: t = (int32_t)a < (int32_t)b; break; case LEI: t = (int32_t)a <= (int32_t)b; break;
                    case GTI: t = (int32_t)a > (int32_t)b; break; case GEI: t = (int32_t)a >= (int32_t)b; break;
                    case LTU: t = a < b; break; case LEU: t = a <= b; break;
                    case GTU: t = a > b; break; case GEU: t = a >= b; break;
                    case EQF: t = fa == fb; break; case NEF: t = fa != fb; break;
                    case LTF: t = fa < fb; break; case LEF: t = fa <= fb; break;
                    case GTF: t = fa > fb; break; default: t = fa >= fb; break;
                    }
                    (t ? takenMask : notTakenMask) |= 1ull << op;
                    if (t) pc = arg;
                    break;
                }
                if (op >= NOPS) return undet("no such opcode");
                if (op == SEX8 || op == SEX16 || op == NEGI || op == BCOM || op == NEGF || op == CVIF || op == CVFI) {
                    NEED(1); uint32_t a = POPV(), r = 0;
                    switch (op) {
                    case SEX8: r = (uint32_t)(int32_t)(int8_t)a; break;
                    case SEX16: r = (uint32_t)(int32_t)(int16_t)a; break;
                    case NEGI: r = 0u - a; break;
                    case BCOM: r = ~a; break;
                    case NEGF: if (std::isnan(asF(a))) return undet("NaN"); r = a ^ 0x80000000u; break;
                    case CVIF: r = asI((float)(int32_t)a); break;
                    case CVFI: { float f = asF(a); if (!(f > -2147483904.0f && f < 2147483648.0f)) return undet("float too large for int"); r = (uint32_t)(int32_t)f; break; }
                    }
                    st.push_back(r); break;
                }
                NEED(2); uint32_t b = POPV(), a = POPV(), r = 0;
                switch (op) {
                case ADD: r = a + b; break; case SUB: r = a - b; break;
                case MULI: case MULU: r = a * b; break;
                case DIVI: case MODI:
                    if (!b) { errKind = E_DIV; return ERR; }
                    if (a == 0x80000000u && b == 0xffffffffu) return undet("INT_MIN / -1");
                    r = op == DIVI ? (uint32_t)((int32_t)a / (int32_t)b) : (uint32_t)((int32_t)a % (int32_t)b); break;
                case DIVU: case MODU:
                    if (!b) { errKind = E_DIV; return ERR; }
                    r = op == DIVU ? a / b : a % b; break;
                case BAND: r = a & b; break; case BOR: r = a | b; break; case BXOR: r = a ^ b; break;
                case LSH: case RSHI: case RSHU:
                    if (b > 31) return undet("shift count out of range");
                    r = op == LSH ? a << b : op == RSHU ? a >> b : (uint32_t)((int32_t)a >> (int)b); break;
                case ADDF: case SUBF: case DIVF: case MULF: {
                    volatile float x = asF(a), y = asF(b), z;
                    if (op == ADDF) z = x + y; else if (op == SUBF) z = x - y; else if (op == MULF) z = x * y; else z = x / y;
                    float zz = z; if (std::isnan(zz)) return undet("NaN"); r = asI(zz); break; }
                }
                st.push_back(r);
            }
            if (tainted) return undet("unspecified value used");
        }
#undef NEED
#undef POPV
    }
};

}  // namespace q3
