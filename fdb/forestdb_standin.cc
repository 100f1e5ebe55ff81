// Stand-in for ForestDB, written from Jungle's use of it.  Semantics:
//  * one shared object per open file; handles and snapshots are views of it;
//  * reads see the last committed index only (Jungle sets do_not_search_wal),
//    reads by offset see every appended document;
//  * every commit leaves a marker (newest first) carrying the sequence number
//    of the store at that time; a snapshot opens exactly one marker;
//  * a file is a sequence of checksummed document and commit blocks; loading
//    takes the longest valid prefix ending in a commit block; documents whose
//    body does not match their checksum read as FDB_RESULT_CHECKSUM_ERROR.
// It does its I/O through libc so that the fault injector sees it.
#include "libforestdb/forestdb.h"

#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <vector>

#include <assert.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

extern "C" void fdbsim_reset();

namespace {

struct SpinLock {
    std::atomic_flag f = ATOMIC_FLAG_INIT;
    void lock() { while (f.test_and_set(std::memory_order_acquire)) { __builtin_ia32_pause(); } }
    void unlock() { f.clear(std::memory_order_release); }
};
typedef std::lock_guard<SpinLock> Guard;

struct Cmp {
    fdb_custom_cmp_variable func = nullptr;
    void* param = nullptr;
    bool operator()(const std::string& a, const std::string& b) const {
        if (func) return func((void*)a.data(), a.size(), (void*)b.data(), b.size(), param) < 0;
        return a < b;
    }
};

struct Doc {
    uint64_t offset;
    std::string key, meta, body;
    uint64_t seq;
    bool deleted;
    bool corrupt;
};
typedef std::shared_ptr<Doc> DocP;
typedef std::map<std::string, DocP, Cmp> KeyIndex;
struct Index {
    explicit Index(Cmp c) : byKey(c) {}
    KeyIndex byKey;
    std::map<uint64_t, DocP> bySeq;
    uint64_t liveBytes = 0;
    uint64_t seqnum = 0;
};
typedef std::shared_ptr<Index> IndexP;

struct Marker {
    uint64_t seqnum;
    size_t pos;            // number of documents in the log at that commit
};

struct File {
    std::string path;
    int fd = -1;
    int refs = 0;
    Cmp cmp;
    SpinLock lock;
    std::vector<DocP> log;                   // every document appended
    std::map<uint64_t, DocP> byOffset;
    size_t logCommitted = 0;
    IndexP committed;                        // last committed index
    std::vector<Marker> markers;             // oldest first
    uint64_t curSeq = 0;                     // including uncommitted
    uint64_t appendOff = 0;
    uint64_t writtenOff = 0;
    std::string pending;
    bool failed = false;
};

SpinLock g_lock;
std::map<std::string, File*> g_files;

uint32_t crc(const void* d, size_t n, uint32_t c = 0x811c9dc5u) {
    const uint8_t* p = (const uint8_t*)d;
    for (size_t i = 0; i < n; ++i) { c = (c ^ p[i]) * 16777619u; }
    return c;
}

struct BlockHdr {       // 48 bytes
    uint32_t magic;     // 'D' document, 'C' commit
    uint32_t flags;
    uint64_t seq;
    uint32_t klen, mlen, blen;
    uint32_t dataCrc;
    uint64_t self;      // own offset
    uint32_t pad;
    uint32_t hdrCrc;
};
const uint32_t MAGIC_D = 0xd0c0d0c1, MAGIC_C = 0xc0ffee02;

void applyDoc(Index& ix, const DocP& d) {
    auto e = ix.byKey.find(d->key);
    if (e != ix.byKey.end()) {
        auto s = ix.bySeq.find(e->second->seq);
        if (s != ix.bySeq.end() && s->second == e->second) ix.bySeq.erase(s);
        ix.liveBytes -= sizeof(BlockHdr) + e->second->key.size() + e->second->meta.size()
                        + e->second->body.size();
        ix.byKey.erase(e);
    }
    if (!d->deleted) {
        ix.byKey[d->key] = d;
        ix.bySeq[d->seq] = d;
        ix.liveBytes += sizeof(BlockHdr) + d->key.size() + d->meta.size() + d->body.size();
    }
    if (d->seq > ix.seqnum) ix.seqnum = d->seq;
}

IndexP indexAt(File* f, size_t pos, uint64_t seqnum) {
    if (pos == f->logCommitted) return f->committed;
    IndexP ix = std::make_shared<Index>(f->cmp);
    for (size_t i = 0; i < pos; ++i) applyDoc(*ix, f->log[i]);
    ix->seqnum = seqnum;
    return ix;
}

bool flushPending(File* f) {
    size_t done = 0;
    while (done < f->pending.size()) {
        ssize_t r = pwrite(f->fd, f->pending.data() + done, f->pending.size() - done,
                           f->writtenOff + done);
        if (r <= 0) return false;
        done += r;
    }
    f->writtenOff += f->pending.size();
    f->pending.clear();
    return true;
}

bool load(File* f) {
    struct stat st;
    if (fstat(f->fd, &st) != 0) return false;
    std::string buf(st.st_size, 0);
    size_t done = 0;
    while (done < buf.size()) {
        ssize_t r = pread(f->fd, &buf[done], buf.size() - done, done);
        if (r < 0) return false;
        if (r == 0) break;
        done += r;
    }
    buf.resize(done);
    f->committed = std::make_shared<Index>(f->cmp);
    std::vector<DocP> tail;
    size_t off = 0;
    uint64_t tail_seq = 0;
    while (off + sizeof(BlockHdr) <= buf.size()) {
        BlockHdr h;
        memcpy(&h, &buf[off], sizeof(h));
        if (crc(&h, sizeof(h) - 4) != h.hdrCrc || h.self != off) break;
        if (h.magic == MAGIC_D) {
            size_t dl = (size_t)h.klen + h.mlen + h.blen;
            if (off + sizeof(h) + dl > buf.size()) break;
            DocP d = std::make_shared<Doc>();
            const char* p = &buf[off + sizeof(h)];
            d->offset = off;
            d->corrupt = crc(p, dl) != h.dataCrc;
            d->key.assign(p, h.klen);
            d->meta.assign(p + h.klen, h.mlen);
            d->body.assign(p + h.klen + h.mlen, h.blen);
            d->seq = h.seq;
            d->deleted = h.flags & 1;
            tail.push_back(d);
            off += sizeof(h) + dl;
        } else if (h.magic == MAGIC_C) {
            off += sizeof(h);
            for (auto& d : tail) {
                f->log.push_back(d);
                f->byOffset[d->offset] = d;
                applyDoc(*f->committed, d);
            }
            tail.clear();
            tail_seq = h.seq;
            f->committed->seqnum = tail_seq;
            f->logCommitted = f->log.size();
            f->markers.push_back(Marker{tail_seq, f->log.size()});
            f->appendOff = off;
        } else {
            break;
        }
    }
    f->writtenOff = f->appendOff;
    f->curSeq = tail_seq;
    return true;
}

void append(File* f, BlockHdr& h, const char* a, size_t al, const char* b, size_t bl,
            const char* c, size_t cl) {
    h.self = f->appendOff;
    uint32_t x = crc(a, al);
    x = crc(b, bl, x);
    x = crc(c, cl, x);
    h.dataCrc = x;
    h.pad = 0;
    h.hdrCrc = crc(&h, sizeof(h) - 4);
    f->pending.append((const char*)&h, sizeof(h));
    f->pending.append(a, al);
    f->pending.append(b, bl);
    f->pending.append(c, cl);
    f->appendOff += sizeof(h) + al + bl + cl;
}

void* dup(const std::string& s) {
    if (s.empty()) return nullptr;
    void* p = malloc(s.size());
    memcpy(p, s.data(), s.size());
    return p;
}

void fill(fdb_doc* o, const Doc& d, bool with_key, bool with_body) {
    if (with_key) {
        o->keylen = d.key.size();
        o->key = dup(d.key);
    }
    o->metalen = d.meta.size();
    o->meta = dup(d.meta);
    o->bodylen = d.body.size();
    o->body = with_body ? dup(d.body) : nullptr;
    o->seqnum = d.seq;
    o->offset = d.offset;
    o->deleted = d.deleted;
    o->size_ondisk = sizeof(BlockHdr) + d.key.size() + d.meta.size() + d.body.size();
}

} // namespace

struct _fdb_file_handle {
    File* file;
};
struct _fdb_kvs_handle {
    File* file;
    fdb_file_handle* root;
    bool snapshot;
    IndexP index;       // snapshot only
};
struct _fdb_iterator {
    IndexP index;
    bool bySeq;
    bool hasMin, hasMax;
    std::string minKey, maxKey;
    uint64_t minSeq, maxSeq;
    // position: -1 before begin, 0 on element, 1 past the end
    int state;
    KeyIndex::iterator k;
    std::map<uint64_t, DocP>::iterator s;

    bool atEnd() const { return bySeq ? s == index->bySeq.end() : k == index->byKey.end(); }
    bool inRange() const {
        if (atEnd()) return false;
        if (bySeq) return s->first >= minSeq && s->first <= maxSeq;
        const Cmp& c = kc();
        if (hasMin && c(k->first, minKey)) return false;
        if (hasMax && c(maxKey, k->first)) return false;
        return true;
    }
    const Cmp& kc() const { return cmp; }
    Cmp cmp;
    void toMin() {
        if (bySeq) s = index->bySeq.lower_bound(minSeq);
        else k = hasMin ? index->byKey.lower_bound(minKey) : index->byKey.begin();
        state = inRange() ? 0 : 1;
    }
    bool toMax() {
        if (bySeq) {
            s = index->bySeq.upper_bound(maxSeq);
            if (s == index->bySeq.begin()) { state = -1; return false; }
            --s;
        } else {
            k = hasMax ? index->byKey.upper_bound(maxKey) : index->byKey.end();
            if (k == index->byKey.begin()) { state = -1; return false; }
            --k;
        }
        state = inRange() ? 0 : -1;
        return state == 0;
    }
    const DocP& doc() const { return bySeq ? s->second : k->second; }
};

extern "C" {

void fdbsim_reset() {
    Guard l(g_lock);
    g_files.clear();     // leaked on purpose: handles of a crashed instance may remain
}

fdb_config fdb_get_default_config(void) {
    fdb_config c;
    memset(&c, 0, sizeof(c));
    return c;
}
fdb_kvs_config fdb_get_default_kvs_config(void) {
    fdb_kvs_config c;
    c.create_if_missing = true;
    return c;
}

fdb_status fdb_open_custom_cmp(fdb_file_handle** out, const char* filename, fdb_config*,
                               size_t n, char**, fdb_custom_cmp_variable* functions,
                               void** user_params) {
    Guard l(g_lock);
    auto e = g_files.find(filename);
    File* f = nullptr;
    if (e != g_files.end()) {
        f = e->second;
    } else {
        int fd = open(filename, O_RDWR | O_CREAT, 0644);
        if (fd < 0) return FDB_RESULT_OPEN_FAIL;
        f = new File();
        f->path = filename;
        f->fd = fd;
        if (n) {
            f->cmp.func = functions[0];
            f->cmp.param = user_params ? user_params[0] : nullptr;
        }
        if (!load(f)) {
            close(fd);
            delete f;
            return FDB_RESULT_OPEN_FAIL;
        }
        g_files[filename] = f;
    }
    f->refs++;
    *out = new fdb_file_handle{f};
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_open(fdb_file_handle** out, const char* filename, fdb_config* config) {
    return fdb_open_custom_cmp(out, filename, config, 0, nullptr, nullptr, nullptr);
}

static void unref(File* f) {
    Guard l(g_lock);
    if (--f->refs == 0) {
        auto e = g_files.find(f->path);
        if (e != g_files.end() && e->second == f) g_files.erase(e);
        close(f->fd);
        delete f;
    }
}

fdb_status fdb_close(fdb_file_handle* h) {
    unref(h->file);
    delete h;
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_kvs_open(fdb_file_handle* h, fdb_kvs_handle** out, const char*, fdb_kvs_config*) {
    {
        Guard l(g_lock);
        h->file->refs++;
    }
    *out = new fdb_kvs_handle{h->file, h, false, nullptr};
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_kvs_close(fdb_kvs_handle* h) {
    if (!h) return FDB_RESULT_INVALID_ARGS;
    unref(h->file);
    delete h;
    return FDB_RESULT_SUCCESS;
}

static fdb_status put(fdb_kvs_handle* h, fdb_doc* doc, bool del) {
    if (h->snapshot) return FDB_RESULT_RONLY_VIOLATION;
    if (!doc->key || !doc->keylen) return FDB_RESULT_INVALID_ARGS;
    File* f = h->file;
    Guard l(f->lock);
    DocP d = std::make_shared<Doc>();
    d->offset = f->appendOff;
    d->key.assign((char*)doc->key, doc->keylen);
    if (doc->metalen) d->meta.assign((char*)doc->meta, doc->metalen);
    if (doc->bodylen && !del) d->body.assign((char*)doc->body, doc->bodylen);
    if (doc->flags & FDB_CUSTOM_SEQNUM) {
        doc->flags &= ~FDB_CUSTOM_SEQNUM;
        d->seq = doc->seqnum;
        if (d->seq > f->curSeq) f->curSeq = d->seq;
    } else {
        d->seq = doc->seqnum = ++f->curSeq;
    }
    d->deleted = del;
    d->corrupt = false;
    BlockHdr bh;
    memset(&bh, 0, sizeof(bh));
    bh.magic = MAGIC_D;
    bh.flags = del ? 1 : 0;
    bh.seq = d->seq;
    bh.klen = d->key.size();
    bh.mlen = d->meta.size();
    bh.blen = d->body.size();
    append(f, bh, d->key.data(), d->key.size(), d->meta.data(), d->meta.size(),
           d->body.data(), d->body.size());
    doc->offset = d->offset;
    f->log.push_back(d);
    f->byOffset[d->offset] = d;
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_set(fdb_kvs_handle* h, fdb_doc* doc) { return put(h, doc, false); }
fdb_status fdb_del(fdb_kvs_handle* h, fdb_doc* doc) { return put(h, doc, true); }

static IndexP view(fdb_kvs_handle* h) {
    if (h->snapshot) return h->index;
    Guard l(h->file->lock);
    return h->file->committed;
}

static fdb_status get(fdb_kvs_handle* h, fdb_doc* doc, bool body) {
    IndexP ix = view(h);
    if (!doc->key || !doc->keylen) return FDB_RESULT_INVALID_ARGS;
    auto e = ix->byKey.find(std::string((char*)doc->key, doc->keylen));
    if (e == ix->byKey.end()) return FDB_RESULT_KEY_NOT_FOUND;
    if (e->second->corrupt) return FDB_RESULT_CHECKSUM_ERROR;
    fill(doc, *e->second, false, body);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get(fdb_kvs_handle* h, fdb_doc* doc) { return get(h, doc, true); }
fdb_status fdb_get_metaonly(fdb_kvs_handle* h, fdb_doc* doc) { return get(h, doc, false); }

fdb_status fdb_get_nearest(fdb_kvs_handle* h, const void* key, size_t keylen, fdb_doc* doc,
                           fdb_get_nearest_opt_t opt) {
    IndexP ix = view(h);
    std::string k((const char*)key, keylen);
    KeyIndex::iterator e;
    switch (opt) {
    case FDB_GET_GREATER: e = ix->byKey.upper_bound(k); break;
    case FDB_GET_GREATER_OR_EQUAL: e = ix->byKey.lower_bound(k); break;
    case FDB_GET_SMALLER:
        e = ix->byKey.lower_bound(k);
        if (e == ix->byKey.begin()) return FDB_RESULT_KEY_NOT_FOUND;
        --e;
        break;
    default:
        e = ix->byKey.upper_bound(k);
        if (e == ix->byKey.begin()) return FDB_RESULT_KEY_NOT_FOUND;
        --e;
        break;
    }
    if (e == ix->byKey.end()) return FDB_RESULT_KEY_NOT_FOUND;
    if (e->second->corrupt) return FDB_RESULT_CHECKSUM_ERROR;
    fill(doc, *e->second, true, true);
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_get_byoffset_raw(fdb_kvs_handle* h, fdb_doc* doc) {
    File* f = h->file;
    Guard l(f->lock);
    auto e = f->byOffset.find(doc->offset);
    if (e == f->byOffset.end()) return FDB_RESULT_READ_FAIL;
    if (e->second->corrupt) return FDB_RESULT_CHECKSUM_ERROR;
    fill(doc, *e->second, true, true);
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_sync_file(fdb_file_handle* h) {
    File* f = h->file;
    Guard l(f->lock);
    if (!flushPending(f)) return FDB_RESULT_WRITE_FAIL;
    if (fsync(f->fd) != 0) return FDB_RESULT_FSYNC_FAIL;
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_commit(fdb_file_handle* h, fdb_commit_opt_t) {
    File* f = h->file;
    Guard l(f->lock);
    // Documents first, commit block only once they are safe.
    if (!f->pending.empty()) {
        if (!flushPending(f)) return FDB_RESULT_WRITE_FAIL;
        if (fsync(f->fd) != 0) return FDB_RESULT_FSYNC_FAIL;
    }
    BlockHdr bh;
    memset(&bh, 0, sizeof(bh));
    bh.magic = MAGIC_C;
    bh.seq = f->curSeq;
    append(f, bh, nullptr, 0, nullptr, 0, nullptr, 0);
    if (!flushPending(f)) return FDB_RESULT_WRITE_FAIL;
    if (fsync(f->fd) != 0) return FDB_RESULT_FSYNC_FAIL;

    // Copy-on-write if somebody still looks at the current index.
    if (f->committed.use_count() > 1) {
        IndexP c = std::make_shared<Index>(f->cmp);
        c->byKey = f->committed->byKey;
        c->bySeq = f->committed->bySeq;
        c->liveBytes = f->committed->liveBytes;
        c->seqnum = f->committed->seqnum;
        f->committed = c;
    }
    for (; f->logCommitted < f->log.size(); ++f->logCommitted) {
        applyDoc(*f->committed, f->log[f->logCommitted]);
    }
    f->committed->seqnum = f->curSeq;
    f->markers.push_back(Marker{f->curSeq, f->log.size()});
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_snapshot_open(fdb_kvs_handle* in, fdb_kvs_handle** out, fdb_seqnum_t seqnum) {
    File* f = in->file;
    IndexP ix;
    {
        Guard l(f->lock);
        if (in->snapshot) {
            ix = in->index;
            if (seqnum < ix->seqnum) {
                // Older marker than the given snapshot.
                ix.reset();
                for (size_t i = f->markers.size(); i-- > 0;) {
                    if (f->markers[i].seqnum == seqnum) {
                        ix = indexAt(f, f->markers[i].pos, seqnum);
                        break;
                    }
                }
            }
        } else {
            for (size_t i = f->markers.size(); i-- > 0;) {
                if (f->markers[i].seqnum == seqnum) {
                    ix = indexAt(f, f->markers[i].pos, seqnum);
                    break;
                }
            }
            if (!ix && seqnum == 0) ix = std::make_shared<Index>(f->cmp);
        }
        if (!ix) return FDB_RESULT_NO_DB_INSTANCE;
    }
    {
        Guard l(g_lock);
        f->refs++;
    }
    *out = new fdb_kvs_handle{f, in->root, true, ix};
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_get_kvs_seqnum(fdb_kvs_handle* h, fdb_seqnum_t* out) {
    if (h->snapshot) {
        *out = h->index->seqnum;
    } else {
        Guard l(h->file->lock);
        *out = h->file->curSeq;
    }
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_get_kvs_info(fdb_kvs_handle* h, fdb_kvs_info* info) {
    IndexP ix = view(h);
    memset(info, 0, sizeof(*info));
    info->last_seqnum = ix->seqnum;
    info->doc_count = ix->byKey.size();
    info->space_used = ix->liveBytes;
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_get_file_info(fdb_file_handle* h, fdb_file_info* info) {
    File* f = h->file;
    Guard l(f->lock);
    memset(info, 0, sizeof(*info));
    info->filename = f->path.c_str();
    info->doc_count = f->committed->byKey.size();
    info->space_used = f->committed->liveBytes + sizeof(BlockHdr);
    info->file_size = f->appendOff + sizeof(BlockHdr);
    info->num_live_nodes = f->committed->byKey.size() / 16 + 1;
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_get_all_snap_markers(fdb_file_handle* h, fdb_snapshot_info_t** out, uint64_t* num) {
    File* f = h->file;
    Guard l(f->lock);
    size_t n = f->markers.size();
    *num = n;
    if (!n) {
        *out = nullptr;
        return FDB_RESULT_SUCCESS;
    }
    fdb_snapshot_info_t* m = (fdb_snapshot_info_t*)calloc(n, sizeof(fdb_snapshot_info_t));
    for (size_t i = 0; i < n; ++i) {
        m[i].marker = n - 1 - i;
        m[i].num_kvs_markers = 1;
        m[i].kvs_markers = (fdb_kvs_commit_marker_t*)calloc(1, sizeof(fdb_kvs_commit_marker_t));
        m[i].kvs_markers[0].seqnum = f->markers[n - 1 - i].seqnum;
    }
    *out = m;
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_free_snap_markers(fdb_snapshot_info_t* m, uint64_t num) {
    for (uint64_t i = 0; i < num; ++i) free(m[i].kvs_markers);
    free(m);
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_iterator_init(fdb_kvs_handle* h, fdb_iterator** out, const void* min_key,
                             size_t min_keylen, const void* max_key, size_t max_keylen,
                             fdb_iterator_opt_t) {
    fdb_iterator* it = new fdb_iterator();
    it->index = view(h);
    it->bySeq = false;
    it->cmp = h->file->cmp;
    it->hasMin = min_key && min_keylen;
    it->hasMax = max_key && max_keylen;
    if (it->hasMin) it->minKey.assign((const char*)min_key, min_keylen);
    if (it->hasMax) it->maxKey.assign((const char*)max_key, max_keylen);
    it->minSeq = 0;
    it->maxSeq = ~0ULL;
    it->toMin();
    *out = it;
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_iterator_sequence_init(fdb_kvs_handle* h, fdb_iterator** out,
                                      fdb_seqnum_t min_seq, fdb_seqnum_t max_seq,
                                      fdb_iterator_opt_t) {
    fdb_iterator* it = new fdb_iterator();
    it->index = view(h);
    it->bySeq = true;
    it->cmp = h->file->cmp;
    it->hasMin = it->hasMax = false;
    it->minSeq = min_seq;
    it->maxSeq = (max_seq == 0) ? ~0ULL : max_seq;
    it->toMin();
    *out = it;
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_iterator_seek(fdb_iterator* it, const void* key, size_t keylen,
                             fdb_iterator_seek_opt_t dir) {
    if (it->bySeq) return FDB_RESULT_INVALID_ARGS;
    std::string k((const char*)key, keylen);
    KeyIndex::iterator e;
    if (dir == FDB_ITR_SEEK_HIGHER) {
        if (it->hasMin && it->cmp(k, it->minKey)) k = it->minKey;
        e = it->index->byKey.lower_bound(k);
    } else {
        if (it->hasMax && it->cmp(it->maxKey, k)) k = it->maxKey;
        e = it->index->byKey.upper_bound(k);
        if (e == it->index->byKey.begin()) { it->k = e; it->state = -1; return FDB_RESULT_ITERATOR_FAIL; }
        --e;
    }
    it->k = e;
    if (!it->inRange()) {
        it->state = (dir == FDB_ITR_SEEK_HIGHER) ? 1 : -1;
        return FDB_RESULT_ITERATOR_FAIL;
    }
    it->state = 0;
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_iterator_seek_byseq(fdb_iterator* it, fdb_seqnum_t seqnum,
                                   fdb_iterator_seek_opt_t dir) {
    if (!it->bySeq) return FDB_RESULT_INVALID_ARGS;
    auto& m = it->index->bySeq;
    if (dir == FDB_ITR_SEEK_HIGHER) {
        if (seqnum < it->minSeq) seqnum = it->minSeq;
        it->s = m.lower_bound(seqnum);
    } else {
        if (seqnum > it->maxSeq) seqnum = it->maxSeq;
        it->s = m.upper_bound(seqnum);
        if (it->s == m.begin()) { it->state = -1; return FDB_RESULT_ITERATOR_FAIL; }
        --it->s;
    }
    if (!it->inRange()) {
        it->state = (dir == FDB_ITR_SEEK_HIGHER) ? 1 : -1;
        return FDB_RESULT_ITERATOR_FAIL;
    }
    it->state = 0;
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_iterator_seek_to_min(fdb_iterator* it) {
    it->toMin();
    return it->state == 0 ? FDB_RESULT_SUCCESS : FDB_RESULT_ITERATOR_FAIL;
}
fdb_status fdb_iterator_seek_to_max(fdb_iterator* it) {
    return it->toMax() ? FDB_RESULT_SUCCESS : FDB_RESULT_ITERATOR_FAIL;
}

fdb_status fdb_iterator_next(fdb_iterator* it) {
    if (it->state == 1) return FDB_RESULT_ITERATOR_FAIL;
    if (it->state == -1) {
        it->toMin();
        return it->state == 0 ? FDB_RESULT_SUCCESS : FDB_RESULT_ITERATOR_FAIL;
    }
    if (it->bySeq) ++it->s; else ++it->k;
    it->state = it->inRange() ? 0 : 1;
    return it->state == 0 ? FDB_RESULT_SUCCESS : FDB_RESULT_ITERATOR_FAIL;
}

fdb_status fdb_iterator_prev(fdb_iterator* it) {
    if (it->state == -1) return FDB_RESULT_ITERATOR_FAIL;
    if (it->state == 1) {
        return it->toMax() ? FDB_RESULT_SUCCESS : FDB_RESULT_ITERATOR_FAIL;
    }
    if (it->bySeq) {
        if (it->s == it->index->bySeq.begin()) { it->state = -1; return FDB_RESULT_ITERATOR_FAIL; }
        --it->s;
    } else {
        if (it->k == it->index->byKey.begin()) { it->state = -1; return FDB_RESULT_ITERATOR_FAIL; }
        --it->k;
    }
    it->state = it->inRange() ? 0 : -1;
    return it->state == 0 ? FDB_RESULT_SUCCESS : FDB_RESULT_ITERATOR_FAIL;
}

static fdb_status iget(fdb_iterator* it, fdb_doc** doc, bool body) {
    if (it->state != 0) return FDB_RESULT_ITERATOR_FAIL;
    if (it->doc()->corrupt) return FDB_RESULT_CHECKSUM_ERROR;
    if (!*doc) *doc = (fdb_doc*)calloc(1, sizeof(fdb_doc));
    fill(*doc, *it->doc(), true, body);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_get(fdb_iterator* it, fdb_doc** doc) { return iget(it, doc, true); }
fdb_status fdb_iterator_get_metaonly(fdb_iterator* it, fdb_doc** doc) {
    return iget(it, doc, false);
}
fdb_status fdb_iterator_close(fdb_iterator* it) {
    if (!it) return FDB_RESULT_INVALID_ARGS;
    delete it;
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_traverse_index(fdb_kvs_handle* h, void* start_key, size_t start_keylen,
                              fdb_index_traversal_callback cb, void* ctx) {
    IndexP ix = view(h);
    auto e = (start_key && start_keylen)
                 ? ix->byKey.lower_bound(std::string((char*)start_key, start_keylen))
                 : ix->byKey.begin();
    for (; e != ix->byKey.end(); ++e) {
        std::string k = e->first;
        if (cb(h, (void*)k.data(), k.size(), e->second->offset, ctx) == FDB_IT_STOP) break;
    }
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_doc_free(fdb_doc* doc) {
    if (!doc) return FDB_RESULT_SUCCESS;
    free(doc->key);
    free(doc->meta);
    free(doc->body);
    free(doc);
    return FDB_RESULT_SUCCESS;
}

void fdb_set_log_callback_ex_global(fdb_log_callback_ex, void*) {}
size_t fdb_get_buffer_cache_used(void) { return 0; }
void fdb_print_cache_stats(void) {}
fdb_status fdb_shutdown(void) { return FDB_RESULT_SUCCESS; }
const char* fdb_error_msg(fdb_status) { return "fdb"; }

} // extern "C"
