// Generator of well-formed bytecode programs (terminating, inside the documented domain).
#pragma once
#include "model.hpp"
#include "../lib/pbt.hpp"
#include <set>
#include <functional>

namespace q3 {

struct GenOpts {
    int  maxFuncs = 4, maxStmts = 7, maxDepth = 3;
    bool syscalls = true, recursion = true;
    bool noMisaligned = true;
    int  mainArity = 13;
    int  sysMax = 15;             // system call ids -1 .. -1-sysMax have arity = k & 15
    bool floats = true;
    bool deep = true;             // sometimes a very deep operand stack
    bool breaks = true;
};

struct Gen {
    pbt::Src& s;
    const GenOpts o;
    Prog      p;
    std::vector<int> labelAt;                     // label -> instruction index
    std::vector<std::pair<int, int>> fix;         // instruction -> label
    struct Fn { int label, arity, frame, nloc; bool isVoid, isRec; };
    std::vector<Fn> fns;
    int  nData = 0, nLit = 0, bssAt = 0, bssLen = 0;   // bytes
    std::vector<std::pair<int, int>> tables;      // data word offset -> label (jump tables)
    size_t budget = 900;
    const Fn* cur = nullptr;
    int  loopVars = 0;                            // locals reserved for loop counters

    Gen(pbt::Src& src, GenOpts opt) : s(src), o(opt) {}

    int  newLabel() { labelAt.push_back(-1); return (int)labelAt.size() - 1; }
    void place(int l) { labelAt[l] = (int)p.code.size(); }
    void noise()
    {
        uint32_t n = s.below(24);
        if (n == 23) p.code.push_back({ IGNORE, 0 });
        else if (n == 22 && o.breaks) p.code.push_back({ BREAK, 0 });
        else if (n == 21) { p.code.push_back({ PUSH, 0 }); p.code.push_back({ POP, 0 }); }
    }
    void e(int op, int32_t a = 0) { p.code.push_back({ (uint8_t)op, a }); noise(); }
    void el(int op, int label) { fix.push_back({ (int)p.code.size(), label }); p.code.push_back({ (uint8_t)op, 0 }); noise(); }

    static int localOff(int i) { return 72 + 4 * i; }       // outgoing arguments: 8..68
    int argOff(int i) const { return cur->frame + 8 + 4 * i; }

    // an address operand of `size` bytes: global (constant or indexed), local, incoming argument
    void address(int size, bool forStore, int depth)
    {
        switch (s.below(5)) {
        case 0: e(LOCAL, localOff((int)s.below(cur->nloc)) + (size < 4 ? (int)s.below(4 / size) * size : 0)); return;
        case 1: if (cur->arity) { e(LOCAL, argOff((int)s.below(cur->arity)) + (size < 4 ? (int)s.below(4 / size) * size : 0)); return; } /* fall through */
        case 2: { int n = writable(); e(CONST, (int)s.below(n / size) * size + writableAt()); return; }
        case 3: {  // computed index into a power-of-two window of the bss
            int w = 1; while (w * 2 <= bssLen / size) w *= 2;
            intExpr(depth > 0 ? depth - 1 : 0); e(CONST, w - 1); e(BAND);
            if (size > 1) { if (s.below(2)) { e(CONST, size == 2 ? 1 : 2); e(LSH); } else { e(CONST, size); e(MULI); } }
            e(CONST, bssAt); e(ADD); return; }
        default: if (!forStore && nData + nLit >= 4) { e(CONST, (int)s.below((nData + nLit) / size) * size); return; }
                 e(CONST, bssAt + (int)s.below(bssLen / size) * size);
        }
    }
    int writable() const { return wLen; }
    int writableAt() const { return wAt; }
    int wLen = 0, wAt = 0, tabArea = 0;

    void intExpr(int d)
    {
        if (p.code.size() > budget || d <= 0) {
            switch (s.below(4)) {
            case 0: case 1: e(CONST, s.i32()); return;
            case 2: e(LOCAL, localOff((int)s.below(cur->nloc))); e(LOAD4); return;
            default: e(CONST, bssAt + (int)s.below(bssLen / 4) * 4); e(LOAD4); return;
            }
        }
        switch (s.below(o.floats ? 16 : 13)) {
        case 0: case 1: e(CONST, s.i32()); return;
        case 2: { int z = 1 << s.below(3); address(z, false, d); e(z == 1 ? LOAD1 : z == 2 ? LOAD2 : LOAD4);
                  if (z == 1 && s.below(2)) e(SEX8); if (z == 2 && s.below(2)) e(SEX16); return; }
        case 3: { static const int un[] = { SEX8, SEX16, NEGI, BCOM }; intExpr(d - 1); e(un[s.below(4)]); return; }
        case 4: case 5: case 6: { static const int bi[] = { ADD, SUB, MULI, MULU, BAND, BOR, BXOR };
                  intExpr(d - 1); intExpr(d - 1); e(bi[s.below(7)]); return; }
        case 7: { static const int sh[] = { LSH, RSHI, RSHU };
                  intExpr(d - 1); if (s.below(2)) e(CONST, (int)s.below(32)); else { intExpr(d - 1); e(CONST, 31); e(BAND); }
                  e(sh[s.below(3)]); return; }
        case 8: { static const int dv[] = { DIVI, DIVU, MODI, MODU };
                  int op = dv[s.below(4)];
                  intExpr(d - 1);
                  if (s.below(2)) { int32_t k = s.i32(); if (k == 0 || k == -1) k = 7; e(CONST, k); }
                  else { intExpr(d - 1); e(CONST, 0x7ffffffe); e(BAND); e(CONST, 1); e(BOR); }
                  e(op); return; }
        case 9: case 10: callExpr(d); return;
        case 11: {  // conditional value with whatever is already on the stack left below
            int op = EQ + (int)s.below(10); int l1 = newLabel(), l2 = newLabel();
            cmpOperands(d - 1);
            el(op, l1);
            intExpr(d - 1); el(CONST, l2); e(JUMP);
            place(l1); intExpr(d - 1); place(l2); noise(); return; }
        case 12: { intExpr(d - 1); e(CONST, 1 << s.below(31)); e(s.below(2) ? BAND : BXOR); return; }
        case 13: fltExpr(d - 1); e(CVFI); return;
        case 14: fltExpr(d - 1); return;   // raw bits
        default: { int op = EQF + (int)s.below(6); int l1 = newLabel(), l2 = newLabel();
            fltCmp(d - 1); el(op, l1); e(CONST, 0); el(CONST, l2); e(JUMP); place(l1); e(CONST, 1); place(l2); return; }
        }
    }
    void fltExpr(int d)
    {
        if (p.code.size() > budget || d <= 0) {
            if (s.below(2)) { float f = s.f32(); int32_t x; memcpy(&x, &f, 4); e(CONST, x); }
            else { e(CONST, s.range(-5000, 5000)); e(CVIF); }
            return;
        }
        switch (s.below(5)) {
        case 0: fltExpr(0); return;
        case 1: intExpr(d - 1); e(CVIF); return;
        case 2: fltExpr(d - 1); e(NEGF); return;
        default: { static const int f[] = { ADDF, SUBF, MULF, DIVF }; fltExpr(d - 1); fltExpr(d - 1); e(f[s.below(4)]); return; }
        }
    }
    // pushes one value: call of a later function or a system call
    void callExpr(int d)
    {
        std::vector<int> cand;
        int me = (int)(cur - &fns[0]);
        for (int i = me + 1; i < (int)fns.size(); i++) cand.push_back(i);
        bool sys = o.syscalls && (cand.empty() || s.below(3) == 0);
        if (!sys && cand.empty()) { intExpr(0); return; }
        int arity, f = -1, id = 0;
        if (sys) { id = (int)s.below(o.sysMax + 1); arity = id & 15; }
        else { f = cand[s.below((uint32_t)cand.size())]; arity = fns[f].arity; }
        // evaluate arguments left to right; a nested call would clobber the slots, so nested
        // calls are hoisted into a local first when the call has arguments
        for (int i = 0; i < arity; i++) { argExpr(d - 1); e(ARG, 8 + 4 * i); }
        if (sys) { e(CONST, -1 - id); e(CALL); return; }
        if (s.below(5) == 0) {  // through a computed address: index xor-ed twice
            el(CONST, fns[f].label); int k = (int)s.below(1 << 12); e(CONST, k); e(BXOR); e(CONST, k); e(BXOR); e(CALL);
        } else { el(CONST, fns[f].label); e(CALL); }
        if (fns[f].isVoid) { e(POP); intExpr(0); }
    }
    void argExpr(int d)  // no calls inside: outgoing slots are live
    {
        if (d <= 0) { intExpr(0); return; }
        switch (s.below(4)) {
        case 0: intExpr(0); return;
        case 1: intExpr(0); intExpr(0); { static const int bi[] = { ADD, SUB, MULI, BAND, BOR, BXOR }; e(bi[s.below(6)]); } return;
        case 2: fltExpr(0); return;
        default: { int z = 1 << s.below(3); e(LOCAL, localOff((int)s.below(cur->nloc))); e(z == 1 ? LOAD1 : z == 2 ? LOAD2 : LOAD4); }
        }
    }
    std::function<void(Gen&)> plant; int plantIn = -1;   // emit a planted fragment as the n-th statement
    void fltCmp(int d)
    {
        switch (s.below(6)) {
        case 5: { static const int32_t sp[] = { 0x7fc00000, 0x7f800000, (int32_t)0xff800000, 0x7fa00001, (int32_t)0xffc00000 };   // NaN, inf
            int side = (int)s.below(3); if (side == 0) e(CONST, sp[s.below(5)]); else fltExpr(d);
            if (side) e(CONST, sp[s.below(5)]); else fltExpr(d); return; }
        case 0: { float f = s.f32(); int32_t x; memcpy(&x, &f, 4); e(CONST, x); e(CONST, x); return; }
        case 1: { e(CONST, 0); e(CONST, (int32_t)0x80000000); return; }                       // 0 and -0
        case 2: { int32_t k = s.range(-3, 3); e(CONST, k); e(CVIF); e(CONST, s.range(-3, 3)); e(CVIF); return; }
        default: fltExpr(d); fltExpr(d);
        }
    }
    // two integer operands of a comparison: often equal or adjacent
    void cmpOperands(int d)
    {
        switch (s.below(4)) {
        case 0: { int32_t k = s.i32(); e(CONST, k); e(CONST, (int32_t)((uint32_t)k + (uint32_t)s.range(-1, 1))); return; }
        case 1: { int l = (int)s.below(cur->nloc); e(LOCAL, localOff(l)); e(LOAD4); e(LOCAL, localOff(l)); e(LOAD4);
                  if (s.below(2)) { e(CONST, s.range(-1, 1)); e(ADD); } return; }
        default: intExpr(d); intExpr(d);
        }
    }
    void stmt(int d)
    {
        if (plantIn >= 0 && plantIn-- == 0 && plant) { plant(*this); return; }
        if (p.code.size() > budget) return;
        switch (s.below(14)) {
        case 0: case 1: case 2: case 3: { int z = s.below(3) ? 4 : 1 << s.below(3); address(z, true, o.maxDepth - 1);
            intExpr(o.maxDepth); e(z == 1 ? STORE1 : z == 2 ? STORE2 : STORE4); return; }
        case 4: { e(LOCAL, localOff((int)s.below(cur->nloc))); intExpr(o.maxDepth); e(STORE4); return; }
        case 5: case 6: { int l1 = newLabel(), l2 = newLabel(); int op = EQ + (int)s.below(o.floats ? 16 : 10);
            if (op >= EQF) fltCmp(2); else cmpOperands(2);
            el(op, l1); body(d - 1, 2); el(CONST, l2); e(JUMP); place(l1); noise(); body(d - 1, 2); place(l2); noise(); return; }
        case 7: if (d > 0 && loopVars < 2) {  // counted loop
            int v = cur->nloc + loopVars; loopVars++;
            int top = newLabel(); e(LOCAL, localOff(v)); e(CONST, s.range(1, 5)); e(STORE4);
            place(top); noise(); body(d - 1, 3);
            e(LOCAL, localOff(v)); e(LOCAL, localOff(v)); e(LOAD4); e(CONST, 1); e(SUB); e(STORE4);
            e(LOCAL, localOff(v)); e(LOAD4); e(CONST, 0);
            static const int cmp[] = { NE, GTI, GTU }; el(cmp[s.below(3)], top);
            loopVars--; return; } /* fall through */
        case 8: { // block copy between disjoint ranges
            int n = (int)s.below(bssLen / 2 - 1) + 1; int half = bssLen / 2;
            int a = bssAt + (int)s.below(half - n + 1), b = bssAt + half + (int)s.below(half - n + 1);
            if (s.below(3) == 0 && nData + nLit > 0) { n = (int)s.below((nData + nLit < half ? nData + nLit : half)) + 1; b = (int)s.below(nData + nLit - n + 1); a = bssAt + (int)s.below(half - n + 1); e(CONST, a); e(CONST, b); }
            else if (s.below(2)) { e(CONST, a); e(CONST, b); } else { e(CONST, b); e(CONST, a); }
            e(BLOCK_COPY, n); return; }
        case 9: case 10: callExpr(2); if (s.below(2)) { int l = newLabel(); e(CONST, 3); el(EQ, l); place(l); noise(); } else e(POP); return;
        case 11: if (d > 0) { // switch through a jump table in the data section
            int n = (int)s.range(2, 4); int base = (int)tables.size(); std::vector<int> ls; int end = newLabel();
            if ((base + n) * 4 > tabArea) return;
            for (int i = 0; i < n; i++) { ls.push_back(newLabel()); tables.push_back({ (base + i) * 4, ls.back() }); }
            int w = n == 4 ? 4 : 2;
            intExpr(1); e(CONST, w - 1); e(BAND); e(CONST, 2); e(LSH); e(CONST, base * 4); e(ADD); e(LOAD4); e(JUMP);
            for (int i = 0; i < n; i++) { place(ls[i]); noise(); body(d - 1, 1); if (i + 1 < n && s.below(4)) { el(CONST, end); e(JUMP); } }
            place(end); noise(); return; } return;
        case 12: if (o.deep) { // deep operand stack
            int n = s.below(8) ? (int)s.range(2, 12) : (int)s.range(20, 230);
            e(LOCAL, localOff((int)s.below(cur->nloc)));
            for (int i = 0; i < n; i++) { if (s.below(8) == 0) { e(LOCAL, localOff((int)s.below(cur->nloc))); e(LOAD4); } else p.code.push_back({ CONST, s.i32() }); }
            static const int bi[] = { ADD, SUB, BXOR, BAND, BOR, MULI };
            for (int i = 0; i < n - 1; i++) p.code.push_back({ (uint8_t)bi[s.below(6)], 0 });
            e(STORE4); return; } return;
        default: { int l = newLabel(); e(CONST, s.i32()); e(CONST, s.i32()); el(EQ + (int)s.below(10), l); body(d - 1, 1); place(l); noise(); return; }
        }
    }
    void body(int d, int n) { n = (int)s.below(n + 1); if (d < 0) n = n > 1 ? 1 : n; for (int i = 0; i < n; i++) stmt(d); }

    void function(int i)
    {
        cur = &fns[i]; const Fn& f = *cur; loopVars = 0;
        place(f.label); e(ENTER, f.frame);
        for (int k = 0; k < f.nloc + 2; k++) {
            p.code.push_back({ LOCAL, localOff(k) });
            if (f.arity && s.below(2)) { p.code.push_back({ LOCAL, argOff((int)s.below(f.arity)) }); p.code.push_back({ LOAD4, 0 }); }
            else p.code.push_back({ CONST, s.i32() });
            p.code.push_back({ STORE4, 0 });
        }
        if (f.isRec) {  // bounded recursion on argument 0
            int stop = newLabel();
            e(LOCAL, argOff(0)); e(LOAD4); e(CONST, 0); el(LEI, stop);
            e(LOCAL, argOff(0)); e(LOAD4); e(CONST, 12); el(GTI, stop);
            e(LOCAL, argOff(0)); e(LOAD4); e(CONST, 1); e(SUB); e(ARG, 8);
            for (int a = 1; a < f.arity; a++) { argExpr(1); e(ARG, 8 + 4 * a); }
            if (s.below(2)) { int k = s.range(1, 3); for (int j = 0; j < k; j++) e(CONST, s.i32());  // operands kept across the call
                el(CONST, f.label); e(CALL); for (int j = 0; j < k; j++) e(s.below(2) ? ADD : BXOR);
                e(LOCAL, localOff(0)); e(LOAD4); e(ADD);
                e(CONST, bssAt); e(LOAD4); e(ADD); }
            else { el(CONST, f.label); e(CALL); }
            e(LOCAL, localOff(0)); e(LOAD4); e(BXOR);
            if (f.isVoid) { e(POP); p.code.push_back({ PUSH, 0 }); }
            p.code.push_back({ LEAVE, f.frame });
            place(stop); noise();
        }
        int n = s.range(1, o.maxStmts);
        for (int k = 0; k < n; k++) stmt(2);
        if (s.below(6) == 0) { // early return
            int l = newLabel(); intExpr(1); e(CONST, 0); el(NE, l); if (f.isVoid) p.code.push_back({ PUSH, 0 }); else intExpr(1); p.code.push_back({ LEAVE, f.frame }); place(l); noise(); }
        if (f.isVoid) p.code.push_back({ PUSH, 0 });
        else intExpr(o.maxDepth);
        p.code.push_back({ LEAVE, f.frame });
    }

    Prog make()
    {
        int nf = s.range(1, o.maxFuncs);
        nData = 4 * s.range(0, 24); nLit = s.below(3) ? 0 : (int)s.below(40);
        for (int i = 0; i < nData; i += 4) put32(p.data, (uint32_t)s.i32());
        for (int i = 0; i < nLit; i++) p.lit.push_back((uint8_t)s.below(256));
        bssAt = (nData + nLit + 3) & ~3; bssLen = 8 * s.range(2, s.below(4) ? 12 : 200);
        if (nLit & 3) p.lit.resize(bssAt - nData, 0);
        nLit = (int)p.lit.size();
        tabArea = 4 * (int)s.below(nData / 4 + 1);   // jump tables live here, never written by a store
        wAt = s.below(2) ? bssAt : tabArea; wLen = bssAt + bssLen - wAt;
        p.bss = bssLen + 0x10000;
        for (int i = 0; i < nf; i++) {
            Fn f; f.label = newLabel(); f.arity = i ? (int)s.below(7) : o.mainArity;
            f.nloc = s.range(1, 6); f.isVoid = i && s.below(5) == 0; f.isRec = i && o.recursion && f.arity && s.below(4) == 0;
            f.frame = 72 + 4 * (f.nloc + 2); if (s.below(4) == 0) f.frame += 4 * (int)s.below(64);
            fns.push_back(f);
        }
        for (int i = 0; i < nf; i++) function(i);
        if (s.below(2)) { int n = s.range(1, 4); for (int i = 0; i < n; i++) p.code.push_back({ UNDEF, 0 }); }
        for (auto& f : fix) p.code[f.first].arg = labelAt[f.second];
        // a block copy may read a jump table; the store generator never writes words of a table
        for (auto& t : tables) set32(p.data, t.first, (uint32_t)labelAt[t.second]);
        return p;
    }
};

}  // namespace q3
