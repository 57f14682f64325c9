#include "pbt.hpp"
#include <algorithm>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

static const int CPU_LIMIT = 20;  // CPU seconds one case may burn: 3-4 orders above its need

struct Label { char name[56]; volatile uint64_t n; };
static const int MAXLABELS = 400;
struct Shared {
    volatile uint32_t stop;
    volatile uint64_t done[64], discards[64];
    volatile uint32_t cur[64];
    char note[64][512];
    Label labels[64][MAXLABELS];
};
static Shared* sh;
static int     slot;
static volatile uint64_t* keys;  // one per case

void note(const char* fmt, ...)
{
    if (!sh) return;
    va_list ap; va_start(ap, fmt);
    vsnprintf(sh->note[slot], sizeof sh->note[slot], fmt, ap);
    va_end(ap);
}

static void addLabel(int w, const std::string& s)
{
    for (int i = 0; i < MAXLABELS; i++) {
        Label& l = sh->labels[w][i];
        if (!l.name[0]) { snprintf(l.name, sizeof l.name, "%s", s.c_str()); l.n = 1; return; }
        if (!strncmp(l.name, s.c_str(), sizeof l.name - 1)) { l.n = l.n + 1; return; }
    }
}
static void* shmap(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return p;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// CPU-time watchdog: a hang of the code under test shows as SIGVTALRM/SIGPROF.
static void arm(int s)
{
    itimerval t{}; t.it_value.tv_sec = s; setitimer(ITIMER_PROF, &t, nullptr); alarm((unsigned)s * 6);
}
static uint64_t seedOf(uint64_t seed, const std::string& id, uint64_t i)
{
    return mix(mix(seed * 1000003 + hashBytes(id.data(), id.size())) + i);
}

struct Outcome { bool failed = false; std::string msg, desc; std::vector<uint32_t> rec; bool discarded = false; };

static std::string sigText(int st)
{
    char b[128];
    if (WIFSIGNALED(st)) {
        int g = WTERMSIG(st);
        if (g == SIGPROF || g == SIGXCPU || g == SIGALRM) snprintf(b, sizeof b, "did not terminate within %d CPU seconds", CPU_LIMIT);
        else snprintf(b, sizeof b, "the process running the code under test died with signal %d (%s)", g, strsignal(g));
    } else snprintf(b, sizeof b, "the process running the code under test exited with status %d", WEXITSTATUS(st));
    return b;
}
static std::string errFile;
static void quiet()
{
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    int e = errFile.empty() ? n : open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (e >= 0) dup2(e, 2);
}
static std::string slurp(const std::string& f, size_t max)
{
    std::string r; FILE* p = fopen(f.c_str(), "rb"); if (!p) return r;
    char buf[4096]; size_t n;
    while (r.size() < max && (n = fread(buf, 1, sizeof buf, p)) > 0) r.append(buf, n);
    fclose(p); if (r.size() > max) r.resize(max); return r;
}

// Run one case in a child, from a choice vector (or from its seed) and report.
static Outcome runOne(const Check& c, const std::vector<uint32_t>* choices, uint64_t seed, bool describe)
{
    int p[2]; if (pipe(p)) exit(3);
    static int serial = 0;
    char ef[128]; snprintf(ef, sizeof ef, "/tmp/pbt.%d.%d.err", (int)getpid(), serial++);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        errFile = ef; quiet();
        slot = 63; sh->note[63][0] = 0;
        arm(CPU_LIMIT);
        Ctx* x = new Ctx; x->describe = describe; x->src.s = seed; x->src.in = choices;
        c.fn(*x);
        std::string out;
        out += x->failed ? 'F' : x->discarded ? 'D' : 'P';
        uint32_t n = x->src.rec.size(); out.append((char*)&n, 4); out.append((char*)x->src.rec.data(), n * 4);
        n = x->msg.size(); out.append((char*)&n, 4); out += x->msg;
        n = x->desc.size(); out.append((char*)&n, 4); out += x->desc;
        size_t o = 0; while (o < out.size()) { ssize_t k = write(p[1], out.data() + o, out.size() - o); if (k <= 0) break; o += k; }
        _exit(0);
    }
    close(p[1]);
    std::string in; char buf[65536]; ssize_t k;
    while ((k = read(p[0], buf, sizeof buf)) > 0) in.append(buf, k);
    close(p[0]);
    int st; waitpid(pid, &st, 0);
    Outcome o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && in.size() >= 13) {
        size_t q = 0; o.failed = in[q] == 'F'; o.discarded = in[q] == 'D'; q++;
        uint32_t n; memcpy(&n, &in[q], 4); q += 4; o.rec.resize(n); if (n) memcpy(o.rec.data(), &in[q], n * 4); q += n * 4;
        memcpy(&n, &in[q], 4); q += 4; o.msg.assign(in, q, n); q += n;
        memcpy(&n, &in[q], 4); q += 4; o.desc.assign(in, q, n);
    } else {
        o.failed = true;
        o.msg = sigText(st);
        if (sh->note[63][0]) { o.msg += " while: "; o.msg += sh->note[63]; }
        std::string e = slurp(ef, 1500);
        if (!e.empty()) o.msg += "\n" + e;
        if (choices) o.rec = *choices;
        else {  // regenerate the choices without running the code under test is not possible: replay by seed
            Src s; s.s = seed; for (int i = 0; i < 60000; i++) o.rec.push_back(s.raw());
        }
    }
    unlink(ef);
    return o;
}

static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

static std::vector<uint32_t> shrink(const Check& c, std::vector<uint32_t> best, int budget, double secs, int* used)
{
    double t0 = now(); int n = 0;
    auto fails = [&](const std::vector<uint32_t>& v) -> bool {
        if (n >= budget || now() - t0 > secs) return false;
        n++;
        Outcome o = runOne(c, &v, 0, false);
        return o.failed;
    };
    auto trim = [&](std::vector<uint32_t>& v) { while (!v.empty() && v.back() == 0) v.pop_back(); };
    // cut the tail first (zeros are supplied past the end)
    for (size_t len = best.size(); len > 0;) {
        size_t cut = len / 2; bool ok = false;
        while (cut > 0) {
            std::vector<uint32_t> v(best.begin(), best.begin() + (len - cut));
            if (fails(v)) { best = v; len = best.size(); ok = true; break; }
            cut /= 2; if (cut < len / 64) break;
        }
        if (!ok) break;
    }
    trim(best);
    bool progress = true;
    while (progress && n < budget && now() - t0 < secs) {
        progress = false;
        for (size_t k : { (size_t)64, (size_t)16, (size_t)8, (size_t)4, (size_t)2, (size_t)1 })
            for (size_t i = 0; i + k <= best.size();) {
                std::vector<uint32_t> v(best); v.erase(v.begin() + i, v.begin() + i + k);
                if (fails(v)) { best = v; progress = true; } else i += k > 4 ? k / 2 : k;
                if (n >= budget || now() - t0 > secs) break;
            }
        for (size_t i = 0; i < best.size() && n < budget && now() - t0 < secs; i++) {
            if (!best[i]) continue;
            std::vector<uint32_t> v(best); v[i] = 0;
            if (fails(v)) { best = v; progress = true; continue; }
            v = best; v[i] = best[i] / 2;
            if (v[i] != best[i] && fails(v)) { best = v; progress = true; i--; continue; }
            if (best[i] > 1) { v = best; v[i]--; if (fails(v)) { best = v; progress = true; } }
        }
        trim(best);
    }
    *used = n;
    return best;
}

// the cases start, start+stride, .. last in one process: does one of them fail?
static int runSeq(const Check& c, uint64_t seed, uint32_t start, uint32_t stride, uint32_t last)
{
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        slot = 63; quiet();
        for (uint32_t i = start; i <= last; i += stride) {
            arm(CPU_LIMIT);
            Ctx x; x.src.s = seedOf(seed, c.id, i);
            c.fn(x);
            if (x.failed) _exit(7);
        }
        _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

static int replay(const Check& c, const char* path)
{
    std::string s = slurp(path, 50 << 20);
    size_t q = s.find("\nsequence:");
    if (q != std::string::npos) {
        unsigned long long sd; unsigned a, b, l;
        if (sscanf(s.c_str() + q + 10, "%llu %u %u %u", &sd, &a, &b, &l) != 4) return 3;
        int f = runSeq(c, sd, a, b, l); printf("%s\n", f ? "FAILS" : "passes"); return f;
    }
    q = s.find("\nchoices:");
    if (q == std::string::npos) { fprintf(stderr, "no choices in %s\n", path); return 3; }
    q += 9;
    std::vector<uint32_t> v; const char* p = s.c_str() + q; char* e;
    for (;;) { unsigned long x = strtoul(p, &e, 10); if (e == p) break; v.push_back((uint32_t)x); p = e; }
    Outcome o = runOne(c, &v, 0, true);
    printf("%s\n%s\n%s\n", o.failed ? "FAILS" : "passes", o.msg.c_str(), o.desc.c_str());
    return o.failed ? 1 : 0;
}

int main_(int argc, char** argv, const std::vector<Check>& checks)
{
    std::string id, rep, evid, outdir; uint64_t seed = 1; bool thorough = false; long nOverride = 0; long only = -1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--replay") rep = val();
        else if (a == "--evidence") evid = val();
        else if (a == "--out") outdir = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--tier") thorough = val() == "thorough";
        else if (a == "--cases") nOverride = atol(val().c_str());
        else if (a == "--case") only = atol(val().c_str());
        else id = a;
    }
    const Check* c = nullptr;
    for (auto& k : checks) if (k.id == id) c = &k;
    if (!c) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 3; }
    sh = (Shared*)shmap(sizeof(Shared));
    keys = (uint64_t*)shmap(8);
    if (!rep.empty()) return replay(*c, rep.c_str());
    if (only >= 0) {
        Outcome o = runOne(*c, nullptr, seedOf(seed, id, only), true);
        printf("%s %s\n%s\n", o.failed ? "FAILS" : o.discarded ? "discarded" : "passes", o.msg.c_str(), o.desc.c_str());
        return o.failed;
    }
    double t0 = now();
    uint32_t N = nOverride ? nOverride : thorough ? c->thorough : c->quick;
    keys = (uint64_t*)shmap((size_t)N * 8 + 8);
    const int W = 8;
    pid_t pids[W]; uint32_t next[W];
    fflush(stdout);
    auto spawn = [&](int w, uint32_t start) {
        pid_t pid = fork();
        if (pid) { pids[w] = pid; return; }
        slot = w;
        quiet();
        for (uint32_t i = start; i < N && !sh->stop; i += W) {
            sh->cur[w] = i; sh->note[w][0] = 0;
            arm(CPU_LIMIT);
            Ctx x; x.src.s = seedOf(seed, id, i);
            c->fn(x);
            sh->done[w]++;
            if (x.discarded) sh->discards[w]++;
            for (auto& l : x.labels) addLabel(w, l);
            if (x.nontrivial && !x.discarded) keys[i] = x.key ? x.key : 1;
            if (x.failed) _exit(7);
        }
        _exit(0);
    };
    for (int w = 0; w < W; w++) { next[w] = w; spawn(w, w); }
    std::set<uint32_t> bad; int alive = W;
    while (alive > 0) {
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) break;
        for (int w = 0; w < W; w++) if (pids[w] == p) {
            pids[w] = -1; alive--;
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { bad.insert((uint32_t)sh->cur[w]); sh->stop = 1; }
        }
    }
    uint64_t done = 0, disc = 0; std::map<std::string, uint64_t> lab;
    for (int w = 0; w < W; w++) {
        done += sh->done[w]; disc += sh->discards[w];
        for (int i = 0; i < MAXLABELS && sh->labels[w][i].name[0]; i++) lab[sh->labels[w][i].name] += sh->labels[w][i].n;
    }
    std::set<uint64_t> uniq; std::vector<uint32_t> sampleIdx;
    for (uint32_t i = 0; i < N; i++) if (keys[i] && uniq.insert((uint64_t)keys[i]).second && sampleIdx.size() < 3) sampleIdx.push_back(i);
    uint64_t distinct = uniq.size();
    std::vector<std::string> samples;
    int violations = 0; std::string replayPath;
    for (uint32_t b : bad) {
        // reproduce 3x from the seed before believing it
        int rep3 = 0; Outcome o;
        for (int k = 0; k < 3; k++) { o = runOne(*c, nullptr, seedOf(seed, id, b), false); rep3 += o.failed; }
        if (rep3 == 0) {
            // not in isolation: does it depend on what ran before it in the same process?
            int seq = 0;
            for (int k = 0; k < 3; k++) seq += runSeq(*c, seed, b % W, W, b);
            if (seq < 3) { fprintf(stderr, "case %u failed once, reproduced 0/3 alone and %d/3 in sequence: not reported\n", b, seq); continue; }
            replayPath = outdir + "/" + id + "-seed" + std::to_string(seed) + "-case" + std::to_string(b) + ".replay";
            FILE* fp = fopen(replayPath.c_str(), "w");
            if (fp) {
                fprintf(fp, "property: %s\nThe failure needs the cases before it in the same process (state leaks between them).\n"
                            "replay: ./check %s --replay %s\n\nsequence: %llu %d %d %u\n", id.c_str(), id.c_str(), replayPath.c_str(), (unsigned long long)seed, (int)(b % W), W, b);
                fclose(fp);
            }
            printf("VIOLATION property=%s replay=%s\n", id.c_str(), replayPath.c_str());
            violations++;
            break;
        }
        int used = 0;
        std::vector<uint32_t> v = o.rec;
        // a crashing case yields raw (unreduced) choices: equal to the reduced ones on replay
        v = shrink(*c, v, 3000, thorough ? 120 : 45, &used);
        rep3 = 0; Outcome f;
        for (int k = 0; k < 3; k++) { f = runOne(*c, &v, 0, true); rep3 += f.failed; }
        if (rep3 == 0) { f = o; v = o.rec; }
        replayPath = outdir + "/" + id + "-seed" + std::to_string(seed) + "-case" + std::to_string(b) + ".replay";
        FILE* fp = fopen(replayPath.c_str(), "w");
        if (fp) {
            fprintf(fp, "property: %s\nseed: %llu\ncase: %u\nshrink steps: %d\nreplay: ./check %s --replay %s\n\n%s\n\n%s\n\nchoices:", id.c_str(),
                    (unsigned long long)seed, b, used, id.c_str(), replayPath.c_str(), f.msg.c_str(), f.desc.c_str());
            for (auto x : v) fprintf(fp, " %u", x);
            fprintf(fp, "\n"); fclose(fp);
        }
        printf("%s\n%s\n", f.msg.c_str(), f.desc.substr(0, 4000).c_str());
        printf("VIOLATION property=%s replay=%s\n", id.c_str(), replayPath.c_str());
        violations++;
        break;
    }
    for (uint32_t i : sampleIdx) {
        Outcome o = runOne(*c, nullptr, seedOf(seed, id, i), true);
        if (!o.desc.empty()) samples.push_back("case " + std::to_string(i) + ": " + o.desc.substr(0, 1500));
    }
    double wall = now() - t0;
    if (!evid.empty()) {
        FILE* f = fopen(evid.c_str(), "w");
        if (f) {
            fprintf(f, "{\"property\": %s, \"tier\": \"%s\", \"seed\": %llu, \"level\": \"exploration\",\n \"coverage\": {\"evaluations\": %llu, "
                       "\"distinct_nontrivial\": %llu, \"discarded\": %llu,\n  \"rule\": %s,\n  \"samples\": [", jstr(id).c_str(),
                    thorough ? "thorough" : "quick", (unsigned long long)seed, (unsigned long long)done, (unsigned long long)distinct,
                    (unsigned long long)disc, jstr(c->rule).c_str());
            for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\n   %s", i ? "," : "", jstr(samples[i]).c_str());
            fprintf(f, "],\n  \"classes\": {");
            bool first = true;
            for (auto& l : lab) { fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(l.first).c_str(), (unsigned long long)l.second); first = false; }
            fprintf(f, "}},\n \"assumptions\": [");
            for (size_t i = 0; i < c->assumptions.size(); i++) fprintf(f, "%s%s", i ? ", " : "", jstr(c->assumptions[i]).c_str());
            fprintf(f, "],\n \"wall_s\": %.2f, \"violations\": %d}\n", wall, violations);
            fclose(f);
        }
    }
    printf("%s: %llu cases, %llu distinct non-trivial, %llu discarded, %.1f s\n", id.c_str(), (unsigned long long)done,
           (unsigned long long)distinct, (unsigned long long)disc, wall);
    for (auto& l : lab) printf("  %-44s %llu\n", l.first.c_str(), (unsigned long long)l.second);
    if (violations) return 1;
    return 0;
}

}  // namespace pbt
