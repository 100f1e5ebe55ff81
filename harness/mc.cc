#include "mc.h"

#include <algorithm>
#include <atomic>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <map>
#include <set>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

static double wall() {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static void realSleepMs(int ms) {
    struct timespec ts = {ms / 1000, (ms % 1000) * 1000000L};
    syscall(SYS_nanosleep, &ts, nullptr);
}

std::string fmt(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    char buf[4096];
    vsnprintf(buf, sizeof(buf), f, ap);
    va_end(ap);
    return buf;
}

uint64_t hashBytes(const void* p, size_t n, uint64_t h) {
    const uint8_t* b = (const uint8_t*)p;
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ULL; }
    return h;
}
void CaseCtx::observe(const void* p, size_t n) { obs = hashBytes(p, n, obs); }
void CaseCtx::note(const char* f, ...) {
    if (!verbose) return;
    va_list ap;
    va_start(ap, f);
    vprintf(f, ap);
    printf("\n");
    fflush(stdout);
    va_end(ap);
}

uint64_t seqCount(uint64_t k, int maxLen, int minLen) {
    uint64_t n = 0, p = 1;
    for (int l = 0; l <= maxLen; ++l) {
        if (l >= minLen) n += p;
        p *= k;
    }
    return n;
}
std::vector<int> seqDecode(uint64_t idx, uint64_t k, int maxLen, int minLen) {
    uint64_t p = 1;
    for (int l = 0; l <= maxLen; ++l) {
        if (l >= minLen) {
            if (idx < p) {
                std::vector<int> r(l);
                for (int i = l; i-- > 0;) { r[i] = idx % k; idx /= k; }
                return r;
            }
            idx -= p;
        }
        p *= k;
    }
    return {};
}

static const uint64_t HS = 1ULL << 22;
static const int MAXW = 64;
static const int MAXV = 512;
static const int MSGLEN = 1600;

struct ViolRec {
    std::atomic<int> ready;
    uint64_t space, idx;
    char msg[MSGLEN];
    char desc[MSGLEN];
};
struct Shared {
    std::atomic<uint64_t> next;
    std::atomic<uint64_t> done, skipped, nontrivial, transitions, validated;
    std::atomic<int> nviol;
    std::atomic<int> stop;
    ViolRec viol[MAXV];
    struct Slot {
        std::atomic<uint64_t> idx;
        std::atomic<uint64_t> beat;
        std::atomic<int> busy;
        std::atomic<uint64_t> end;      // end of the chunk being worked on
        char desc[MSGLEN];
    } slot[MAXW];
    std::atomic<int> nsamples;
    char samples[8][MSGLEN];
    std::atomic<uint64_t> distinct, statesN;
    std::atomic<uint64_t> hs[HS];      // distinct outcomes (obs hash)
    std::atomic<uint64_t> hst[HS];     // distinct states
};

static bool insertHash(std::atomic<uint64_t>* t, uint64_t h) {
    if (!h) h = 1;
    uint64_t i = (h * 11400714819323198485ULL) >> 42;
    for (int probe = 0; probe < 64; ++probe, i = (i + 1) & (HS - 1)) {
        uint64_t cur = t[i].load(std::memory_order_relaxed);
        if (cur == h) return false;
        if (cur == 0) {
            uint64_t exp = 0;
            if (t[i].compare_exchange_strong(exp, h)) return true;
            if (exp == h) return false;
        }
    }
    return false;   // table crowded here: under-count, never over-count
}

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

Check::Check(int argc, char** argv, const std::string& prop, const std::string& level,
             const std::string& rule)
    : prop_(prop), level_(level), rule_(rule) {
    const char* t = getenv("VERIF_TIER");
    tier_ = (t && std::string(t) == "thorough") ? "thorough" : "quick";
    const char* s = getenv("VERIF_SEED");
    seed_ = s ? atoi(s) : 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--replay" && i + 1 < argc) replayId_ = argv[++i];
        else if (a == "--only" && i + 1 < argc) only_ = argv[++i];
        else if (a == "--tier" && i + 1 < argc) tier_ = argv[++i];
        else if (a == "--budget" && i + 1 < argc) budget_ = atof(argv[++i]);
    }
    thorough_ = tier_ == "thorough";
}

void Check::add(const Space& s) { spaces_.push_back(s); }

static void setDesc(char* dst, const std::string& s) {
    size_t n = std::min(s.size(), (size_t)MSGLEN - 1);
    memcpy(dst, s.data(), n);
    dst[n] = 0;
}

// Runs one case; returns true if it held.
static bool runCase(const Space& sp, uint64_t idx, CaseCtx& ctx, std::string& msg) {
    try {
        sp.fn(idx, ctx);
        return true;
    } catch (Violation& v) {
        msg = v.msg;
    } catch (std::exception& e) {
        msg = std::string("uncaught exception: ") + e.what();
    } catch (...) {
        msg = "uncaught exception";
    }
    return false;
}

static void limitCore() {
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}

static std::string sigText(int st) {
    if (WIFSIGNALED(st)) return fmt("crash: %s", strsignal(WTERMSIG(st)));
    return fmt("abnormal exit with status %d", WEXITSTATUS(st));
}

// Runs one case alone in a fresh child.  0 held, 1 violated, msg filled.
static int isolated(const Space& sp, uint64_t idx, std::string& msg, std::string& desc,
                    uint64_t* obs, double hang) {
    struct Out { int res; uint64_t obs; char msg[MSGLEN]; char desc[MSGLEN]; };
    Out* o = (Out*)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(o, 0, sizeof(*o));
    o->res = -1;
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (!p) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        limitCore();
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        dup2(dn, 2);
        if (sp.workerInit) sp.workerInit();
        CaseCtx c;
        std::string m;
        bool ok = runCase(sp, idx, c, m);
        o->obs = c.obs;
        setDesc(o->msg, m);
        setDesc(o->desc, c.desc);
        o->res = ok ? 0 : 1;
        _exit(0);
    }
    double t0 = wall();
    int st = 0;
    bool killed = false;
    while (waitpid(p, &st, WNOHANG) == 0) {
        realSleepMs(2);
        if (wall() - t0 > hang) {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            killed = true;
            break;
        }
    }
    int r;
    if (killed) { msg = "the case does not terminate (hang)"; r = 1; }
    else if (o->res < 0) { msg = sigText(st); r = 1; }
    else { r = o->res; msg = o->msg; }
    desc = o->desc;
    if (obs) *obs = o->obs;
    munmap(o, sizeof(Out));
    return r;
}

int Check::replay(const std::string& id) {
    size_t c = id.rfind(':');
    std::string sn = id.substr(0, c);
    uint64_t idx = strtoull(id.c_str() + c + 1, nullptr, 10);
    for (auto& sp : spaces_) {
        if (sp.name != sn) continue;
        printf("replaying %s case %llu of %llu\n", sn.c_str(), (unsigned long long)idx,
               (unsigned long long)sp.size);
        fflush(stdout);
        if (sp.workerInit) sp.workerInit();
        CaseCtx ctx;
        ctx.verbose = true;
        std::string msg;
        bool ok = runCase(sp, idx, ctx, msg);
        printf("case: %s\n", ctx.desc.c_str());
        printf("%s%s\n", ok ? "HELD" : "VIOLATED: ", msg.c_str());
        fflush(stdout);
        _exit(ok ? 0 : 1);
    }
    fprintf(stderr, "no such space %s\n", sn.c_str());
    return 2;
}

struct Known { std::string prop, match, text; };
static std::vector<Known> loadKnown() {
    // one finding per line: property <TAB> exact signature prefix <TAB> description
    std::vector<Known> r;
    FILE* f = fopen("known_findings.tsv", "r");
    if (!f) return r;
    char line[4096];
    while (fgets(line, sizeof(line), f)) {
        if (line[0] == '#') continue;
        std::string s(line);
        while (!s.empty() && (s.back() == '\n')) s.pop_back();
        size_t a = s.find('\t');
        if (a == std::string::npos) continue;
        size_t b = s.find('\t', a + 1);
        if (b == std::string::npos) continue;
        std::string pr = s.substr(0, a);
        if (pr.compare(0, 6, "fixed:") == 0) continue;
        r.push_back(Known{pr, s.substr(a + 1, b - a - 1), s.substr(b + 1)});
    }
    fclose(f);
    return r;
}

int Check::run() {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (!replayId_.empty()) return replay(replayId_);
    double t0 = wall();
    int nw = 8;
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                               MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 2; }

    std::vector<Known> known = loadKnown();
    std::set<std::string> knownPrinted;
    struct Found { std::string space, msg, desc; uint64_t idx; };
    std::vector<Found> found;
    bool complete = true;
    std::string spaceJson;
    uint64_t totalCases = 0, unstable = 0;

    for (size_t si = 0; si < spaces_.size(); ++si) {
        Space& sp = spaces_[si];
        if (!only_.empty() && sp.name.find(only_) == std::string::npos) { complete = false; continue; }
        if (!found.empty()) { complete = false; break; }
        sh->next = 0;
        sh->stop = 0;
        sh->nviol = 0;
        memset((void*)sh->viol, 0, sizeof(sh->viol));
        for (int w = 0; w < MAXW; ++w) { sh->slot[w].busy = 0; sh->slot[w].beat = 0; sh->slot[w].end = 0; sh->slot[w].idx = 0; }
        uint64_t done0 = sh->done, skip0 = sh->skipped, dist0 = sh->distinct;
        double ts = wall();

        auto spawn = [&](int w) -> pid_t {
            fflush(stdout);
            fflush(stderr);
            pid_t p = fork();
            if (p) return p;
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            limitCore();
            int dn = open("/dev/null", O_WRONLY);
            if (!getenv("MC_STDERR")) dup2(dn, 2);
            dup2(dn, 1);
            if (sp.workerInit) sp.workerInit();
            uint64_t chunk = sp.size > 100000 ? 64 : sp.size > 5000 ? 8 : 1;
            auto& slot = sh->slot[w];
            // A respawned worker first finishes its predecessor's chunk.
            uint64_t rb = slot.idx + 1, re = slot.end;
            for (;;) {
                uint64_t b, e;
                if (rb < re) {
                    b = rb;
                    e = re;
                    rb = re;
                } else {
                    b = sh->next.fetch_add(chunk);
                    if (b >= sp.size) break;
                    e = b + chunk;
                }
                slot.end = e;
                for (uint64_t i = b; i < e && i < sp.size; ++i) {
                    if (sh->stop.load()) _exit(0);
                    slot.idx = i;
                    slot.busy = 1;
                    slot.beat++;
                    CaseCtx ctx;
                    std::string msg;
                    bool ok = runCase(sp, i, ctx, msg);
                    slot.busy = 0;
                    if (ctx.skipped) { sh->skipped++; continue; }
                    sh->done++;
                    sh->transitions += ctx.transitions;
                    sh->validated += ctx.validated;
                    bool fresh = insertHash(sh->hs, hashBytes(&ctx.obs, 8, si + 77));
                    if (fresh && ctx.nontrivial) sh->distinct++;
                    if (ctx.nontrivial) sh->nontrivial++;
                    for (uint64_t s : ctx.states)
                        if (insertHash(sh->hst, s)) sh->statesN++;
                    if (fresh && ctx.nontrivial && !ctx.desc.empty() && sh->nsamples.load() < (int)std::min<size_t>(8, 2 * (si + 1)) && i % 97 == (si * 31) % 97) {
                        int k = sh->nsamples.fetch_add(1);
                        if (k < 8) setDesc(sh->samples[k], sp.name + ": " + ctx.desc);
                    }
                    if (!ok) {
                        int k = sh->nviol.fetch_add(1);
                        if (k < MAXV) {
                            sh->viol[k].space = si;
                            sh->viol[k].idx = i;
                            setDesc(sh->viol[k].msg, msg);
                            setDesc(sh->viol[k].desc, ctx.desc);
                            sh->viol[k].ready = 1;
                        }
                        // The case may have left the process in a bad state.
                        slot.busy = 0;
                        _exit(3);
                    }
                }
            }
            _exit(0);
        };

        std::vector<pid_t> pids(nw);
        std::vector<uint64_t> lastBeat(nw, 0);
        std::vector<double> lastT(nw, wall());
        for (int w = 0; w < nw; ++w) pids[w] = spawn(w);
        int alive = nw;
        int handled = 0;
        int crashes = 0;
        std::vector<Found> cand;
        bool timedOut = false;
        auto process = [&](const Found& f) {
            // Confirm in isolation, twice.
            std::string m1, d1, m2, d2;
            uint64_t o1 = 0, o2 = 0;
            int r1 = isolated(sp, f.idx, m1, d1, &o1, sp.hangSecs * 2);
            int r2 = isolated(sp, f.idx, m2, d2, &o2, sp.hangSecs * 2);
            if (!r1 || !r2) {
                ++unstable;
                printf("UNSTABLE %s:%llu %s (replay: %d/%d)\n", sp.name.c_str(),
                       (unsigned long long)f.idx, f.msg.c_str(), r1, r2);
                return;
            }
            std::string m = m1.empty() ? f.msg : m1;
            for (auto& k : known) {
                if (k.prop == prop_ && m.compare(0, k.match.size(), k.match) == 0) {
                    if (knownPrinted.insert(k.match).second)
                        printf("KNOWN-FINDING: property=%s %s\n", prop_.c_str(), k.text.c_str());
                    return;
                }
            }
            Found g = f;
            g.msg = m;
            if (!d1.empty()) g.desc = d1;
            found.push_back(g);
            sh->stop = 1;
        };
        while (alive) {
            realSleepMs(3);
            for (int w = 0; w < nw; ++w) {
                if (!pids[w]) continue;
                int st = 0;
                pid_t r = waitpid(pids[w], &st, WNOHANG);
                if (r == 0) {
                    uint64_t b = sh->slot[w].beat.load();
                    if (b != lastBeat[w] || !sh->slot[w].busy.load()) {
                        lastBeat[w] = b;
                        lastT[w] = wall();
                    } else if (wall() - lastT[w] > sp.hangSecs) {
                        kill(pids[w], SIGKILL);
                        waitpid(pids[w], &st, 0);
                        Found f{sp.name, "the case does not terminate (hang)", "", sh->slot[w].idx.load()};
                        cand.push_back(f);
                        sh->done++;
                        ++crashes;
                        pids[w] = 0;
                        --alive;
                        if (!sh->stop.load() && crashes < 40) { pids[w] = spawn(w); lastT[w] = wall(); ++alive; }
                    }
                    continue;
                }
                pids[w] = 0;
                --alive;
                bool respawn = false;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                } else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
                    respawn = true;
                } else {
                    Found f{sp.name, sigText(st), "", sh->slot[w].idx.load()};
                    cand.push_back(f);
                    sh->done++;
                    respawn = true;
                }
                if (respawn) {
                    ++crashes;
                    if (!sh->stop.load() && crashes < 5000) { pids[w] = spawn(w); lastT[w] = wall(); ++alive; }
                }
            }
            for (; handled < MAXV && handled < sh->nviol.load(); ++handled) {
                for (int spin = 0; spin < 1000 && !sh->viol[handled].ready.load(); ++spin) realSleepMs(1);
                Found f{sp.name, sh->viol[handled].msg, sh->viol[handled].desc, sh->viol[handled].idx};
                if (found.empty()) process(f);
            }
            for (auto& f : cand) if (found.empty()) process(f);
            cand.clear();
            if (budget_ > 0 && wall() - t0 > budget_ && !sh->stop.load()) {
                sh->stop = 1;
                timedOut = true;
            }
        }
        if (sh->nviol.load() > MAXV && found.empty()) {
            printf("note: %d violating cases in %s, first %d examined\n", sh->nviol.load(),
                   sp.name.c_str(), MAXV);
        }
        uint64_t done = sh->done - done0, skip = sh->skipped - skip0;
        bool full = !timedOut && found.empty() && done + skip >= sp.size;
        if (!full) complete = false;
        totalCases += sp.size;
        printf("[%s] %s: %llu of %llu cases run, %llu pruned, %llu distinct outcomes, %.1fs%s\n",
               prop_.c_str(), sp.name.c_str(), (unsigned long long)done,
               (unsigned long long)sp.size, (unsigned long long)skip,
               (unsigned long long)(sh->distinct - dist0), wall() - ts, full ? "" : " (not complete)");
        if (!spaceJson.empty()) spaceJson += ", ";
        spaceJson += "{\"name\": " + jstr(sp.name) + ", \"size\": " + std::to_string(sp.size) +
                     ", \"executed\": " + std::to_string(done) + ", \"pruned\": " + std::to_string(skip) +
                     ", \"complete\": " + (full ? "true" : "false") + "}";
        if (timedOut) break;
    }
    for (auto& k : known) {
        (void)k;
    }

    // Evidence.
    mkdir("evidence", 0755);
    std::string ev = "evidence/" + prop_ + ".json";
    FILE* f = fopen(ev.c_str(), "w");
    if (f) {
        uint64_t states = sh->statesN.load();
        if (!states) states = sh->distinct.load();
        fprintf(f, "{\n \"property\": %s,\n \"tier\": %s,\n \"seed\": %d,\n \"level\": %s,\n",
                jstr(prop_).c_str(), jstr(tier_).c_str(), seed_, jstr(level_).c_str());
        fprintf(f, " \"coverage\": {\n");
        if (level_ == "model_checking") {
            fprintf(f, "  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n",
                    (unsigned long long)states, (unsigned long long)sh->transitions.load(),
                    (unsigned long long)sh->validated.load());
        }
        fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n",
                (unsigned long long)sh->done.load(), (unsigned long long)sh->distinct.load());
        if (level_ != "model_checking")
            fprintf(f, "  \"operations_executed\": %llu,\n", (unsigned long long)sh->transitions.load());
        fprintf(f, "  \"rule\": %s,\n  \"exhaustive\": %s,\n  \"unstable\": %llu,\n",
                jstr(rule_).c_str(), complete ? "true" : "false", (unsigned long long)unstable);
        fprintf(f, "  \"spaces\": [%s],\n", spaceJson.c_str());
        for (auto& e : extra_) fprintf(f, "  %s: %s,\n", jstr(e.first).c_str(), e.second.c_str());
        fprintf(f, "  \"samples\": [");
        int ns = std::min(8, sh->nsamples.load());
        for (int i = 0; i < ns; ++i) fprintf(f, "%s%s", i ? ", " : "", jstr(sh->samples[i]).c_str());
        if (!ns) fprintf(f, "%s", jstr(spaces_.empty() ? "none" : spaces_[0].name + ": case 0").c_str());
        fprintf(f, "]\n },\n \"assumptions\": [");
        for (size_t i = 0; i < assumptions_.size(); ++i)
            fprintf(f, "%s%s", i ? ", " : "", jstr(assumptions_[i]).c_str());
        fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %zu\n}\n", wall() - t0, found.size());
        fclose(f);
    }
    if (!found.empty()) {
        mkdir("replays", 0755);
        std::string id = found[0].space + ":" + std::to_string(found[0].idx);
        std::string fn = id;
        for (auto& c : fn) if (c == ':' || c == '/' || c == ' ') c = '_';
        std::string path = "replays/" + prop_ + "-" + fn + ".txt";
        FILE* r = fopen(path.c_str(), "w");
        if (r) {
            fprintf(r, "property: %s\ncase: %s\ndescription: %s\nviolation: %s\n"
                       "replay: ./check %s --tier %s --replay '%s'\n",
                    prop_.c_str(), id.c_str(), found[0].desc.c_str(), found[0].msg.c_str(),
                    prop_.c_str(), tier_.c_str(), id.c_str());
            fclose(r);
        }
        printf("violated: %s\n  case: %s\n", found[0].msg.c_str(), found[0].desc.c_str());
        printf("VIOLATION property=%s replay=/verif/%s\n", prop_.c_str(), path.c_str());
        return 1;
    }
    printf("[%s] held on %llu executions, %llu distinct outcomes, %.1fs%s\n", prop_.c_str(),
           (unsigned long long)sh->done.load(), (unsigned long long)sh->distinct.load(),
           wall() - t0, complete ? " (exhaustive within bounds)" : " (bounds not completed)");
    return 0;
}

} // namespace mc
