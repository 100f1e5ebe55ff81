// BUILD: unit internal_helper.cc fileops_posix.cc murmurhash3.cc
#include "internal_helper.h"
#include "mc.h"
#include "simfs.h"
#include <libjungle/record.h>
#include <libjungle/status.h>
#include <cstddef>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <map>
using namespace jungle;

static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static int ref(const std::string& a, const std::string& b) {
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; ++i) { uint8_t x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; }
    return a.size() < b.size() ? -1 : a.size() > b.size();
}
// Exactly sized heap copy: any overread is seen.
struct H { char* p; size_t n; H(const std::string& s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); } ~H() { free(p); } };

// Ownership model of two buffers.
struct B { std::string content; int owner = 0; int src = 0; };     // src: 0 none/own, 1 static text, 2 the other buffer

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P36", "model_checking",
                  "every pair of short byte strings for the comparisons; every program of ownership operations to the stated depth vs. an ownership model");
    const std::string alpha("\x00\x01\x7f\x80\xff", 5);
    int L = chk.thorough() ? 4 : 3;
    uint64_t n = mc::seqCount(5, L, 0);
    auto str = [=](uint64_t i) { std::string s; for (int c : mc::seqDecode(i, 5, L, 0)) s += alpha[c]; return s; };
    chk.add("compare", n, [=](uint64_t idx, mc::CaseCtx& ctx) {
        std::string a = str(idx);
        H ha(a);
        SizedBuf sa(ha.n, ha.p);
        for (uint64_t j = 0; j < n; ++j) {
            std::string b = str(j);
            H hb(b);
            SizedBuf sb(hb.n, hb.p);
            int r = ref(a, b);
            MC_CHECK(sgn(SizedBuf::cmp(sa, sb)) == r, "cmp of '%s' and '%s' is %d", HexDump::rStr(a).c_str(), HexDump::rStr(b).c_str(), SizedBuf::cmp(sa, sb));
            MC_CHECK((sa == sb) == (r == 0) && (sa != sb) == (r != 0), "(in)equality of #%llu and #%llu is wrong", (unsigned long long)idx, (unsigned long long)j);
            MC_CHECK((sa < sb) == (r < 0) && (sa <= sb) == (r <= 0) && (sa > sb) == (r > 0) && (sa >= sb) == (r >= 0),
                     "an ordering operator is wrong for #%llu and #%llu", (unsigned long long)idx, (unsigned long long)j);
            Record ra, rb; ra.kv.key = sa; rb.kv.key = sb;
            MC_CHECK(Record::Less()(&ra, &rb) == (r < 0), "record ordering is wrong");
            ctx.transitions++;
        }
        SizedBuf e;
        MC_CHECK(sgn(SizedBuf::cmp(sa, e)) == (a.empty() ? 0 : 1) && (e < sa) == !a.empty() && (e == sa) == a.empty() && e.empty(), "comparison with an empty buffer is wrong");
        MC_CHECK(sa.toString() == a && sa.empty() == a.empty() && sa.size == a.size(), "content is wrong");
        ctx.observe(a);
        ctx.state();
        ctx.desc = "all comparisons of " + HexDump::rStr(a);
    });
    // Long and size-straddling comparisons: difference at every position.
    chk.add("compare-long", 40 * 40, [](uint64_t idx, mc::CaseCtx& ctx) {
        size_t la = idx % 40, lb = idx / 40;
        std::string a(la, 'x');
        for (size_t d = 0; d <= lb; ++d) {
            std::string b(lb, 'x');
            if (d < lb) b[d] = (char)0xfe;
            int r = ref(a, b);
            SizedBuf sa(a), sb(b);
            MC_CHECK(sgn(SizedBuf::cmp(sa, sb)) == r && (sa < sb) == (r < 0) && (sa <= sb) == (r <= 0) && (sa == sb) == (r == 0), "lengths %zu and %zu, difference at %zu", la, lb, d);
            ctx.transitions++;
        }
        ctx.observe(idx);
    });
    // Ownership programs.
    enum { ALLOC0, ALLOC3, ALLOCN, SET, SETSTR, REFER, MOVE, COPY, ASSIGN, FREE, CLEAR, GROW, SHRINK, CTOR, FORCEDEL, NK };
    int d = chk.thorough() ? 6 : 5;
    chk.add("ownership", mc::seqCount(NK * 2, d), [=](uint64_t idx, mc::CaseCtx& ctx) {
        auto seq = mc::seqDecode(idx, NK * 2, d);
        static std::string text("st\0tic", 6);
        // Leave illegal programs (those that would leak or dangle by misuse) out.
        B m[2];
        for (int s : seq) {
            int w = s % 2, o = s / 2;
            B &x = m[w], &y = m[1 - w];
            bool ownX = x.owner, ownY = y.owner;
            switch (o) {
            case ALLOC0: case ALLOC3: case ALLOCN: case SET: case SETSTR: case CLEAR: case FORCEDEL: if (ownX || (y.src == 2)) { ctx.skipped = true; return; } break;
            case REFER: if (ownX || y.src == 2 || y.src == 0 && !y.owner && y.content.size()) { ctx.skipped = true; return; } break;
            case MOVE: case COPY: if (ownY || x.src == 2 || y.src == 2) { ctx.skipped = true; return; } break;
            case ASSIGN: if (ownX || y.src == 2 || x.src == 2) { ctx.skipped = true; return; } break;
            case FREE: if (y.src == 2) { ctx.skipped = true; return; } break;
            case GROW: case SHRINK: if (y.src == 2) { ctx.skipped = true; return; } break;
            case CTOR: if (ownX || y.src == 2 || x.src == 2) { ctx.skipped = true; return; } break;
            }
            // Effect on the model only.
            switch (o) {
            case ALLOC0: x = B(); break;
            case ALLOC3: x = B(); x.content = "abc"; x.owner = 1; break;
            case ALLOCN: x = B(); x.content = std::string(7, 0); x.owner = 1; break;
            case SET: case SETSTR: x = B(); x.content = text; x.src = 1; break;
            case REFER: x = B(); x.content = y.content; x.src = y.owner ? 2 : y.src; break;
            case MOVE: y = x; x = B(); break;
            case COPY: y = B(); y.content = x.content; y.owner = !x.content.empty(); break;
            case ASSIGN: case CTOR: x = y; y = B(); break;
            case FREE: if (x.owner) x = B(); break;
            case CLEAR: x = B(); break;
            case GROW: if (x.owner == 1) x.content.resize(12); break;
            case SHRINK: if (x.owner == 1) x.content.resize(2); break;
            case FORCEDEL: x = B(); x.content = "new"; x.owner = 2; break;
            }
        }
        // Run it for real, in step with the model.
        m[0] = B(); m[1] = B();
        // Results of the checks below are collected without allocating.
        const char* bad = nullptr;
        size_t before = __sanitizer_get_current_allocated_bytes();
        {
            SizedBuf b[2];
            for (int s : seq) {
                int w = s % 2, o = s / 2;
                SizedBuf &X = b[w], &Y = b[1 - w];
                B &x = m[w], &y = m[1 - w];
                bool r;
                size_t old = x.content.size();
                switch (o) {
                case ALLOC0: X.alloc((size_t)0); x = B(); break;
                case ALLOC3: X.alloc("abc"); x = B(); x.content = "abc"; x.owner = 1; break;
                case ALLOCN: X.alloc((size_t)7); x = B(); x.content.assign(7, '\0'); x.owner = 1; break;
                case SET: X.set(text.size(), (void*)text.data()); x = B(); x.content.assign(text); x.src = 1; break;
                case SETSTR: X.set(text); x = B(); x.content.assign(text); x.src = 1; break;
                case REFER: X.referTo(Y); x = B(); x.content.assign(y.content); x.src = y.owner ? 2 : y.src; break;
                case MOVE: X.moveTo(Y); y = x; x = B(); break;
                case COPY: X.copyTo(Y); y = B(); y.content.assign(x.content); y.owner = !x.content.empty(); break;
                case ASSIGN: X = Y; Y.clear(); x = y; y = B(); break;
                case CTOR: { SizedBuf t(Y); Y.clear(); t.moveTo(X); x = y; y = B(); break; }
                case FREE: r = X.free(); if (r != (x.owner != 0)) bad = "free() reports something else than what it did"; if (x.owner) x = B(); break;
                case CLEAR: X.clear(); x = B(); break;
                case GROW: X.resize(12); if (x.owner == 1) { x.content.resize(12); if (X.size == 12) memset(X.data + old, 0, 12 > old ? 12 - old : 0); } break;
                case SHRINK: X.resize(2); if (x.owner == 1) x.content.resize(2); break;
                case FORCEDEL: X.set(3, new uint8_t[3]{'n', 'e', 'w'}); X.setNeedToDelete(); x = B(); x.content = "new"; x.owner = 2; break;
                }
                for (int i = 0; i < 2; ++i) {
                    bool own = b[i].flags & (SizedBufFlags::NEED_TO_FREE | SizedBufFlags::NEED_TO_DELETE);
                    if (own != (m[i].owner != 0)) bad = "a buffer disagrees about owning its memory";
                    if (b[i].size != m[i].content.size() || memcmp(b[i].data, m[i].content.data(), b[i].size)) bad = "a buffer holds other bytes than the model";
                    if (!b[i].size && !m[i].src && b[i].data && m[i].owner == 0) bad = "an empty buffer still points somewhere";
                }
                ctx.transitions++;
                if (bad) break;
            }
            if (!bad) { b[0].free(); b[1].free(); }
        }
        size_t states = m[0].content.size() * 16 + m[1].content.size();
        m[0].content = std::string(); m[1].content = std::string();
        size_t after = __sanitizer_get_current_allocated_bytes();
        MC_CHECK(!bad, "%s", bad);
        MC_CHECK(after == before, "memory leaked: %zu bytes", after - before);
        ctx.observe(states);
        ctx.state();
    });
    // Records and pairs: every shape through every copying operation.
    static std::vector<std::string> shapes = {"", "a", std::string("\0", 1), std::string(300, 'z')};
    uint64_t ns = shapes.size();
    chk.add("records", ns * ns * ns * 3 * 5, [=](uint64_t idx, mc::CaseCtx& ctx) {
        std::string k = shapes[idx % ns], v = shapes[idx / ns % ns], mt = shapes[idx / ns / ns % ns];
        Record::Type ty = (Record::Type)(idx / (ns * ns * ns) % 3);
        int op = idx / (ns * ns * ns * 3);
        auto same = [&](const Record& r, const char* w) {
            MC_CHECK(r.kv.key.toString() == k && r.kv.value.toString() == v && r.meta.toString() == mt && r.type == ty && r.seqNum == 77, "%s: the record differs", w);
            MC_CHECK(r.isIns() == (ty == 0) && r.isDel() == (ty == 1) && r.isCmd() == (ty == 2), "type predicates are wrong");
            MC_CHECK(r.size() == k.size() + v.size() + mt.size() && r.kv.size() == k.size() + v.size() && r.empty() == (k.empty() && v.empty()), "size of the record is wrong");
        };
        size_t before = __sanitizer_get_current_allocated_bytes();
        {
            Record a(77, ty);
            if (op == 4) { a.kv.alloc(k, v); } else { a.kv.key.alloc(k); a.kv.value.alloc(v); }
            a.meta.alloc(mt);
            Record::Holder h(a);
            same(a, "allocation");
            Record b;
            Record::Holder hb(b);
            MC_CHECK(b.seqNum == Record::NIL_SEQNUM && b.isIns() && b.empty(), "a new record is not empty");
            if (op == 0) {
                a.moveTo(b);
                same(b, "move");
                MC_CHECK(a.empty() && a.meta.empty() && a.seqNum == Record::NIL_SEQNUM, "a moved record is not empty");
                MC_CHECK(!a.kv.key.data && !a.kv.value.data && !a.meta.data, "a moved record still refers to memory");
            } else if (op == 1) {
                a.copyTo(b);
                same(b, "copy"); same(a, "copy source");
                if (k.size()) { b.kv.key.data[0] ^= 1; }
                if (v.size()) { b.kv.value.data[0] ^= 1; }
                if (mt.size()) { b.meta.data[0] ^= 1; }
                same(a, "changing the copy");
            } else if (op == 2) {
                Status s = b.clone(a);
                MC_CHECK(s.ok(), "clone returned %s", s.toString().c_str());
                same(b, "clone"); same(a, "clone source");
                Status s2 = b.clone(a);
                MC_CHECK(s2.ok() == (k.empty() && v.empty()) , "cloning into a filled record returned %s", s2.toString().c_str());
                if (s2.ok()) { /* the meta of the first clone was replaced */ if (mt.size()) ctx.nontrivial = true; }
                if (s2.ok() && mt.size()) { ctx.skipped = true; return; }
            } else if (op == 3) {
                SizedBuf fk(k), fv(v); KV c, e(k, v), f(fk, fv);
                a.kv.copyTo(c);
                KV::Holder hc(c);
                MC_CHECK(c.key.toString() == k && c.value.toString() == v && e.key.toString() == k && e.value.toString() == v && f.value.toString() == v && c.size() == a.kv.size(), "pair differs");
                KV g;
                c.moveTo(g);
                KV::Holder hg(g);
                MC_CHECK(g.key.toString() == k && g.value.toString() == v && c.size() == 0, "moved pair differs");
                KV shallow(g);
                MC_CHECK(shallow.key.data == g.key.data && shallow.value.data == g.value.data, "copy constructor should share memory");
                shallow.clear();
            } else {
                Record c(a);
                same(c, "shallow copy");
                c.clear();
                same(a, "clearing a shallow copy");
            }
            ctx.transitions++;
        }
        if (op == 2 && k.empty() && v.empty() && mt.size()) return;
        size_t after = __sanitizer_get_current_allocated_bytes();
        MC_CHECK(after == before, "memory leaked: %zu bytes", after - before);
        ctx.observe(idx);
    });
    // Text helpers of the same header files.
    chk.add("hex", 3 * 16 * 17, [](uint64_t idx, mc::CaseCtx& ctx) {
        const char* digits = "0123456789abcdefg";
        const char* up = "0123456789ABCDEFG";
        char a = (idx % 3 ? digits : up)[idx / 3 % 16], b = (idx % 3 == 2 ? up : digits)[idx / 48];
        for (std::string pre : {"", "00", "7f"}) {
            std::string s = pre + a + b;
            SizedBuf r = HexDump::hexStr2bin(s);
            SizedBuf::Holder h(r);
            if (b == 'g' || b == 'G') { MC_CHECK(r.empty(), "'%s' is accepted as hexadecimal", s.c_str()); continue; }
            std::string want;
            for (size_t i = 0; i < s.size(); i += 2) want += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
            MC_CHECK(r.toString() == want, "'%s' converts wrongly", s.c_str());
            SizedBuf odd = HexDump::hexStr2bin(s + "1");
            MC_CHECK(odd.empty(), "an odd number of digits is accepted");
            ctx.transitions++;
        }
        ctx.observe(idx);
    });
    chk.add("strings", mc::seqCount(3, 6, 0), [](uint64_t idx, mc::CaseCtx& ctx) {
        std::string s;
        for (int c : mc::seqDecode(idx, 3, 6, 0)) s += "a ,"[c];
        for (std::string dl : {",", "a", ",,", "a,"}) {
            std::vector<std::string> want, got = StrHelper::tokenize(s, dl);
            size_t p = 0, q;
            while ((q = s.find(dl, p)) != std::string::npos) { want.push_back(s.substr(p, q - p)); p = q + dl.size(); }
            if (p < s.size()) want.push_back(s.substr(p));
            MC_CHECK(got == want, "tokenize('%s','%s') gives %zu parts, expected %zu", s.c_str(), dl.c_str(), got.size(), want.size());
            std::string rep;
            p = 0;
            while ((q = s.find(dl, p)) != std::string::npos) { rep += s.substr(p, q - p) + "<>"; p = q + dl.size(); }
            rep += s.substr(p);
            MC_CHECK(StrHelper::replace(s, dl, "<>") == rep, "replace in '%s' is wrong", s.c_str());
            ctx.transitions += 2;
        }
        std::string t = s;
        while (t.size() && t[0] == ' ') t.erase(0, 1);
        while (t.size() && t.back() == ' ') t.pop_back();
        MC_CHECK(StrHelper::trim(s) == t, "trim('%s') is '%s'", s.c_str(), StrHelper::trim(s).c_str());
        for (std::string dir : {"", "/", "/x/"}) MC_CHECK(FileMgr::filePart(dir + s) == s, "file part of '%s%s' is wrong", dir.c_str(), s.c_str());
        ctx.observe(s);
    });
    chk.add("primes", 1010, [](uint64_t idx, mc::CaseCtx& ctx) {
        auto prime = [](size_t v) { if (v < 2) return false; for (size_t i = 2; i * i <= v; ++i) if (v % i == 0) return false; return true; };
        size_t want = idx;
        while (!prime(want)) ++want;
        if (want > 997) want = 997;
        MC_CHECK(PrimeNumber::getUpper(idx) == want, "smallest prime from %llu is %zu, got %zu", (unsigned long long)idx, want, PrimeNumber::getUpper(idx));
        ctx.observe(want);
        ctx.transitions++;
    });
    // Every status keeps its identity and has a name of its own.
    chk.add("status", 1, [](uint64_t, mc::CaseCtx& ctx) {
        std::map<std::string, int> seen;
        for (int v = 0; v >= (int)Status::SEQINDEX_UNAVAILABLE; --v) {
            Status s(v), t((Status::Value)v);
            MC_CHECK((int)s == v && s == (Status::Value)v && s.getValue() == (Status::Value)v && (int)t == v, "status %d lost its value", v);
            MC_CHECK(s.ok() == (v == 0) && (bool)s == (v == 0), "status %d is %s", v, s.ok() ? "taken for success" : "not success");
            std::string name = s.toString();
            MC_CHECK(name != "UNKNOWN_STATUS" && !name.empty(), "status %d has no name", v);
            MC_CHECK(!seen.count(name), "statuses %d and %d share the name %s", v, seen[name], name.c_str());
            seen[name] = v;
            ctx.transitions++;
        }
        MC_CHECK(Status().ok() && Status(Status::ERROR).toString() == "ERROR" && !Status(Status::ERROR).ok(), "OK/ERROR");
        MC_CHECK(seen["KEY_NOT_FOUND"] == Status::KEY_NOT_FOUND && seen["CHECKSUM_ERROR"] == Status::CHECKSUM_ERROR && seen["OPERATION_STOPPED"] == Status::OPERATION_STOPPED
                 && seen["INVALID_MODE"] == Status::INVALID_MODE && seen["SNAPSHOT_NOT_FOUND"] == Status::SNAPSHOT_NOT_FOUND, "a status has another status' name");
    });
    return chk.run();
}
