// ================================================================== V13 nothing of the host leaks in
__attribute__((noinline)) static void scribble(uint32_t v)
{
    volatile uint32_t junk[4096];
    for (int i = 0; i < 4096; i++) junk[i] = v * (uint32_t)(2 * i + 1);
    asm volatile("" ::"r"(junk) : "memory");
}
struct LeakRun { std::vector<int64_t> log; std::vector<uint8_t> mem; int how = 0; };
static LeakRun* lrun; static uint32_t lJunk; static const VmApi* lA; static vm_t* lVm; static int lNest, lSys;
static intptr_t leakSys(vm_t* vm, intptr_t* a)
{
    HostSide hs; intptr_t r;
    if (++lSys > 500) siglongjmp(sliceJmp, 2);
    uint64_t h = 77; for (int i = 0; i < 16; i++) { lrun->log.push_back(a[i]); h = pbt::mix(h ^ (uint64_t)a[i]); }
    if ((a[0] & 3) == 2 && lNest < 2) { lNest++; scribble(lJunk); inVm = 1; r = lA->Call(vm, (int)a[1], (int)a[2], 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); inVm = 0; lNest--; lrun->log.push_back(r); }
    else if ((a[0] & 3) == 1 && lA->RangeValid(a[1], 8, vm) == 0) { memset(lA->ArgPtr(a[1], vm), (int)a[2], 8); r = 1; }
    else r = (int32_t)h;
    scribble(lJunk);
    hs.leave();
    return r;
}
static void v13(Ctx& x)
{
    host.reset();
    Prog p = hostileProgram(x);
    if (x.src.exhausted) { x.discarded = true; return; }
    keyOf(x, p);
    int32_t arg = x.src.range(0, 6);
    if (x.describe) x.say("memory %u bytes (bss %d), VM_Call(%d, ...) twice\n%s", p.memSize(), p.bss, arg, p.listing(200).c_str());
    const VmApi& A = pickCfg(x); lA = &A;
    std::vector<uint8_t> img = p.image();
    static LeakRun q[2];
    for (int k = 0; k < 2; k++) {
        host.reset(); host.fill = k ? 0x5B : 0xA5; lJunk = k ? 0x01010101u : 0xC0DE1235u; q[k] = LeakRun(); lrun = &q[k]; lNest = lSys = 0;
        vm_t vm; memset(&vm, 0, sizeof vm); lVm = &vm; static vm_t* pv; pv = &vm;
        if (A.Create(pv, "p.qvm", img.data(), (int)img.size(), leakSys) != 0) { q[k].how = 9; continue; }
        host.onError = [](int l) { HostSide h; lrun->log.push_back(l); if (lrun->log.size() > 40000) siglongjmp(sliceJmp, 3); h.leave(); };
        signal(SIGVTALRM, onSlice);
        slice(8000);
        static volatile int c; c = 0;
        int how = sigsetjmp(sliceJmp, 1);
        if (how == 0) for (; c < 2; c = c + 1) { scribble(lJunk); inVm = 1; intptr_t r = A.Call(pv, arg, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); inVm = 0; lrun->log.push_back(r); lrun->log.push_back(-7777); }
        inVm = 0; slice(0); host.onError = nullptr;
        q[k].how = how;
        uint8_t* d = host.data(pv); q[k].mem.assign(d, d + p.memSize());
        pv->callLevel = 0; A.Free(pv);
    }
    if (q[0].how || q[1].how) { x.label(q[0].how == 9 ? "refused" : "cut off"); if (q[0].how == 9) x.discarded = true; return; }
    x.label("compared");
    if (q[0].log != q[1].log) {
        size_t i = 0; while (i < q[0].log.size() && i < q[1].log.size() && q[0].log[i] == q[1].log[i]) i++;
        x.fail("two runs that differ only in what the host stack and heap held before observe different values at event %zu: %ld and %ld (config %s)", i, i < q[0].log.size() ? (long)q[0].log[i] : 0L, i < q[1].log.size() ? (long)q[1].log[i] : 0L, A.name.c_str());
    }
    else if (q[0].mem != q[1].mem) {
        size_t i = 0; while (q[0].mem[i] == q[1].mem[i]) i++;
        x.fail("two runs that differ only in what the host stack and heap held before leave different VM memory at %zu: %02x and %02x (config %s)", i, q[0].mem[i], q[1].mem[i], A.name.c_str());
    }
    x.nontrivial = p.code.size() >= 3 && (q[0].log.size() > 4 || lSys);
}

// ================================================================== V14 debug build and map files
static void v14(Ctx& x)
{
    host.reset();
    pbt::Src& s = x.src;
    if (!api[CFG_DEBUGASAN].Create) { x.discarded = true; return; }
    const VmApi& A = api[CFG_DEBUGASAN];
    static int dirOf; static std::string dir;
    if (dirOf != getpid()) { const char* t = getenv("VM_SCRATCH"); if (!t) { x.discarded = true; return; } dirOf = getpid(); dir = std::string(t) + "/" + std::to_string(dirOf); mkdir(dir.c_str(), 0755); if (chdir(dir.c_str())) abort(); }
    GenOpts o; o.sysMax = 31; o.maxStmts = 3; int kind = -1;
    Prog p; if (s.below(4) == 0) p = faulty(x, o, 2, &kind); else { Gen g(s, o); p = g.make(); }
    // map file
    std::string map; int how = (int)s.below(6);
    auto sym = [&] { std::string n; int l = s.below(8) ? s.range(1, 20) : s.range(100, 1500); for (int i = 0; i < l; i++) n += (char)('a' + s.below(26)); return n; };
    auto hex = [&](uint32_t v) { char b[32]; snprintf(b, sizeof b, s.below(4) ? "%8x" : "0x%X", v); return std::string(b); };
    int lines = how == 5 ? 0 : s.range(0, 12);
    for (int i = 0; i < lines; i++) {
        uint32_t v = s.below(3) ? s.below((uint32_t)p.code.size() + 2) : (uint32_t)s.i32();
        map += std::to_string(s.below(3) ? 0 : s.below(5)) + " " + hex(v) + " " + sym() + (s.below(8) ? "\n" : " ");
    }
    if (how == 3) { int n = s.range(1, 40); for (int i = 0; i < n; i++) { static const char* f[] = { "/*", "*/", "//", "\"", "\n", "0 ", "0 0 ", " ", "zz", "\t", "0 1 a", "\r\n", "-1" }; size_t at = map.empty() ? 0 : s.below((uint32_t)map.size()); map.insert(at, f[s.below(13)]); } x.label("mangled map"); }
    if (how == 4) { int n = s.range(1, 60); map.clear(); for (int i = 0; i < n; i++) map += (char)s.below(256); x.label("random bytes"); }
    if (how == 2 && !map.empty()) { map.resize(s.below((uint32_t)map.size())); x.label("truncated map"); }
    if (x.src.exhausted) { x.discarded = true; return; }
    x.key = pbt::hashBytes(map.data(), map.size(), pbt::hashBytes(p.image().data(), p.image().size()));
    x.say("map file: %s\n", how == 5 ? "(none)" : map.c_str());
    if (x.describe) x.say("%s", p.listing(200).c_str());
    unlink((dir + "/prog.map").c_str());
    if (how != 5) { FILE* f = fopen((dir + "/prog.map").c_str(), "wb"); fwrite(map.data(), 1, map.size(), f); fclose(f); }
    else x.label("no map");
    int32_t a[13]; randArgs(s, a); if (s.below(3) == 0) a[0] = 2;
    ModelVm m(p, 1); int32_t want = 0; Status st = m.m.call(a, want); bool taint = m.m.resultTainted;
    if (st == FUEL || st == UNDET) { x.discarded = true; return; }
    if (s.below(6) == 0) { host.failMask = 1ull << (3 + s.below(5)); x.label("symbol allocation fails"); }
    uint64_t fm = host.failMask; int dbg = (int)s.below(3);
    Res14 ref; 
    for (int c = 0; c < 2; c++) {
        host.reset(); if (c == 1) host.failMask = fm;
        const VmApi& B = c ? A : api[CFG_SHIP]; Res14 q;
        {
            RealVm r(B, p, 1);
            B.Debug(dbg);
            pbt::note("config %s", B.name.c_str());
            if (r.create() != 0) { x.fail("VM_Create failed in config %s: %s", B.name.c_str(), host.errs.empty() ? "" : host.errs.back().text.c_str()); return; }
            size_t e0 = host.errs.size();
            q.r = (int32_t)r.call(a); if (taint) q.r = 0;
            for (size_t i = e0; i < host.errs.size(); i++) q.errs.push_back(host.errs[i].level);
            q.w = r.tr.w; uint8_t* d = host.data(&r.vm); q.mem.assign(d, d + r.sEnd);
            B.Profile(&r.vm); if (s.below(2)) B.Profile(&r.vm);
        }
        if (host.live()) x.fail("%d allocations leaked in config %s", host.live(), B.name.c_str());
        if (!host.trouble.empty()) x.fail("%s (config %s)", host.trouble.c_str(), B.name.c_str());
        if (!c) { ref = q; continue; }
        if (q.r != ref.r) x.fail("the debug build returns %d, the normal build %d", q.r, ref.r);
        if (q.errs.size() != ref.errs.size()) x.fail("the debug build reports %zu errors, the normal build %zu", q.errs.size(), ref.errs.size());
        if (q.w != ref.w) x.fail("system call traces differ between the debug and the normal build");
        if (q.mem != ref.mem) x.fail("static memory differs between the debug and the normal build");
    }
    x.nontrivial = how != 5 && map.size() > 4;
}

// ================================================================== V15 symbols, trace and profile of the debug build
static std::string captured(const std::function<void()>& f)
{
    fflush(stdout);
    static int fd = -1, of = -1; if (of != getpid()) { char n[] = "out-XXXXXX"; fd = mkstemp(n); unlink(n); of = getpid(); }
    if (fd < 0 || ftruncate(fd, 0)) abort();
    lseek(fd, 0, SEEK_SET);
    int keep = dup(1); dup2(fd, 1); f(); fflush(stdout); dup2(keep, 1); close(keep);
    std::string r((size_t)lseek(fd, 0, SEEK_END), 0);
    if (pread(fd, &r[0], r.size(), 0) != (ssize_t)r.size()) abort();
    return r;
}
static std::vector<std::string> linesOf(const std::string& t) { std::vector<std::string> r; std::string l; for (char c : t) if (c == '\n') { r.push_back(l); l.clear(); } else l += c; if (!l.empty()) r.push_back(l); return r; }

static void v15(Ctx& x)
{
    host.reset();
    pbt::Src& s = x.src;
    int cfg = s.below(2) ? CFG_DEBUGASAN : CFG_DEBUG;
    if (!api[cfg].Create) { x.discarded = true; return; }
    const VmApi& A = api[cfg];
    static int dirOf; static std::string dir;
    if (dirOf != getpid()) {
        const char* t = getenv("VM_SCRATCH"); if (!t) { x.discarded = true; return; }
        dirOf = getpid(); dir = std::string(t) + "/p" + std::to_string(dirOf);
        mkdir(dir.c_str(), 0755); mkdir((dir + "/sub").c_str(), 0755); mkdir((dir + "/d.1").c_str(), 0755); mkdir((dir + "/sub/e").c_str(), 0755);
    }
    if (chdir((dir + "/sub").c_str())) abort();
    GenOpts o; o.sysMax = 31; o.maxStmts = 4; Gen g(s, o); Prog p = g.make();
    if (s.exhausted) { x.discarded = true; return; }
    // the map: symbols of code in ascending order, those of other segments between them
    std::vector<std::pair<int64_t, std::string>> sym; std::set<std::string> used; std::string map;
    bool dense = s.below(4) == 0, allFns = s.below(4) != 0;
    auto newName = [&] { std::string n; do { n.clear(); int l = s.below(12) ? s.range(1, 14) : s.range(60, 900); for (int i = 0; i < l; i++) n += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$."[s.below(i ? 65 : 53)]; if (n[0] >= '0' && n[0] <= '9') n[0] = '_'; } while (!used.insert(n).second && !s.exhausted); return n; };
    auto line = [&](int seg, uint32_t v, const std::string& n) { char b[64]; snprintf(b, sizeof b, s.below(8) ? "%i %8x " : s.below(2) ? "%i\t0x%X  " : "  %i %08X ", seg, v); map += b + n + (s.below(12) ? "\n" : s.below(2) ? "\r\n" : "\n\n"); };
    for (size_t i = 0; i < p.code.size(); i++) {
        bool fn = p.code[i].op == ENTER, first = i == 0;
        if (i && p.code[i - 1].op == ENTER) continue;
        if (first ? s.below(12) != 0 : fn ? allFns || s.below(3) != 0 : dense && s.below(6) == 0) { sym.push_back({ (int64_t)i, newName() }); line(0, (uint32_t)i, sym.back().second); }
        if (s.below(40) == 0) line(1 + (int)s.below(3), (uint32_t)s.i32(), newName());
    }
    if (s.below(3) == 0) line(1 + (int)s.below(3), s.below(65536), newName());
    if (s.exhausted) { x.discarded = true; return; }
    static const char* const nm[][2] = { { "prog.qvm", "prog.map" }, { "prog", "prog.map" }, { "./prog.qvm", "./prog.map" }, { "../d.1/a.qvm", "../d.1/a.map" }, { "../d.1/b", "../d.1/b.map" }, { "e/my.game.qvm", "e/my.game.map" } };
    int nk = (int)s.below(6); const char* vmName = nm[nk][0];
    x.label(std::string("name ") + vmName);
    { FILE* f = fopen(nm[nk][1], "wb"); if (!f) abort(); fwrite(map.data(), 1, map.size(), f); fclose(f); }
    x.key = pbt::hashBytes(map.data(), map.size(), pbt::hashBytes(p.image().data(), p.image().size()));
    x.say("VM %s, map file %s:\n%s", vmName, nm[nk][1], map.c_str());
    if (x.describe) x.say("%s", p.listing(200).c_str());
    // what the model says
    ModelVm m(p, 2); RealVm r(A, p, 2);
    auto at = [&](int64_t pc) { size_t i = 0; while (i + 1 < sym.size() && sym[i + 1].first <= pc) i++; return i; };
    std::vector<long> count(sym.size()); std::vector<size_t> cur; std::vector<std::string> want; int level = 0; bool tooMuch = false;
    auto symText = [&](int64_t pc) { if (sym.empty()) return std::string("NO SYMBOLS"); size_t i = at(pc); return pc < 0 ? std::string("*") : sym[i].first == pc ? sym[i].second : sym[i].second + (pc < sym[i].first ? "+-" : "+"); };
    m.m.obs = [&](int ev, int64_t v, size_t st) {
        std::string ind(2 * (size_t)std::max(0, m.m.nest), ' '); auto put = [&](const std::string& t) { if (want.size() < 4000) want.push_back(ind + std::to_string(st) + t); else tooMuch = true; };
        switch (ev) {
        case Model::BEGIN: cur.push_back(sym.empty() ? 0 : at(0)); break;
        case Model::END: cur.pop_back(); break;
        case Model::STEP: if (level > 1) put(std::string(" OP_") + opName[p.code[(size_t)v].op]); if (!sym.empty()) count[cur.back()]++; break;
        case Model::ENTERED: if (!sym.empty()) cur.back() = at(v + 1); if (level) put("---> " + symText(v)); break;
        case Model::LEFT: if (!sym.empty() && v >= 0) cur.back() = at(v); if (level) put("<--- " + symText(v)); break;
        case Model::SYS: if (level) put("---> systemcall(" + std::to_string(v) + ")"); break;
        case Model::SYSRET: if (level) put("<--- " + symText(v)); break;
        }
    };
    A.Debug(0);
    std::string made = captured([&] { r.create(vmName); });
    if (!r.loaded) { x.fail("VM_Create refused a well-formed program"); return; }
    std::string wantLoad = std::to_string(sym.size()) + " symbols parsed from " + nm[nk][1] + "\n";
    if (!map.empty() && made.find("\n" + wantLoad) == std::string::npos) { x.fail("expected '%s' in the output of VM_Create:\n%s", wantLoad.c_str(), made.c_str()); return; }
    int n = s.range(1, 4); long total = 0; int checked = 0;
    for (int i = 0; i < n; i++) {
        int32_t a[13]; randArgs(s, a); level = (int)s.below(4) % 3;
        x.say("VM_Debug(%d), VM_Call(%s)\n", level, argStr(a).c_str());
        int32_t res = 0; m.m.steps = 0; m.m.fuel = level > 1 ? 2000 : 20000; want.clear();
        Status st = m.m.call(a, res);
        if (st != RET || m.m.errKind || m.m.errors || m.nestedErrors || tooMuch) { if (!i) x.discarded = true; return; }
        int32_t got = 0; std::string out = captured([&] { A.Debug(level); got = (int32_t)r.call(a); A.Debug(0); });
        if (!m.m.resultTainted && got != res) { x.fail("call %d returned %d, expected %d", i, got, res); return; }
        auto L = linesOf(out);
        for (size_t k = 0; k < std::max(L.size(), want.size()); k++) {
            std::string w = k < want.size() ? want[k] : "(nothing)", h = k < L.size() ? L[k] : "(nothing)", z = w;
            bool ok = w == h;
            if (!ok && w.back() == '*') ok = h.compare(0, w.size() - 1, w, 0, w.size() - 1) == 0;          // left the VM: no symbol
            if (!ok && w.back() == '+') { ok = h.compare(0, w.size(), w) == 0 && h.size() > w.size(); for (size_t q = w.size(); ok && q < h.size(); q++) ok = h[q] >= '0' && h[q] <= '9'; if (ok && h[w.size()] == '0') ok = false; }
            if (!ok && w.size() > 2 && w.compare(w.size() - 2, 2, "+-") == 0) ok = h.compare(0, w.size(), w) == 0;
            if (!ok) { x.fail("call %d, line %zu of the trace at level %d is '%s', expected '%s'", i, k, level, h.c_str(), w.c_str()); return; }
        }
        checked += level > 0 && !want.empty();
        if (s.below(2) && i + 1 < n) continue;
        for (int rep = 0; rep < 2; rep++) {
            if (rep && s.below(4)) break;
            out = captured([&] { A.Profile(&r.vm); });
            L = linesOf(out);
            if (sym.empty()) { if (!L.empty()) x.fail("a profile without symbols"); break; }
            std::vector<std::string> w; float tot = 0; for (long c : count) tot += (float)c;
            for (size_t k = 0; k < sym.size(); k++) { char b[64]; snprintf(b, sizeof b, "%2i%% %9i ", tot > 0 ? (int)(100 * (float)count[k] / tot) : 0, (int)count[k]); w.push_back(b + sym[k].second); total += count[k]; }
            char b[64]; snprintf(b, sizeof b, "    %9.0f total", tot);
            if (L.empty() || L.back() != b) { x.fail("profile after call %d ends with '%s', expected '%s'", i, L.empty() ? "" : L.back().c_str(), b); return; }
            L.pop_back();
            long prev = -1; for (auto& l : L) { long c = atol(l.c_str() + l.find('%') + 1); if (c < prev) { x.fail("the profile is not in ascending order: %s", out.c_str()); return; } prev = c; }
            auto S = L; std::sort(S.begin(), S.end()); std::sort(w.begin(), w.end());
            if (S != w) { for (size_t k = 0; k < std::max(S.size(), w.size()); k++) if (k >= S.size() || k >= w.size() || S[k] != w[k]) { x.fail("profile after call %d: got '%s', expected '%s'\n%s", i, k < S.size() ? S[k].c_str() : "", k < w.size() ? w[k].c_str() : "", out.c_str()); break; } return; }
            std::fill(count.begin(), count.end(), 0);
            x.label("profile");
        }
    }
    if (!host.trouble.empty()) x.fail("%s", host.trouble.c_str());
    x.nontrivial = sym.size() >= 2 && (checked || total > 20);
}
