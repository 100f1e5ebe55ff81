prop='P12'
edits=[('src/global_batch.cc','        pair.db->p->logMgr->setVisibleSeqBarrier(max_seq);\n','        if (max_seq) pair.db->p->logMgr->setVisibleSeqBarrier(max_seq);\n')]
needs='a reader that looks between two records of a global batch being written to an instance that holds no record yet'
breaks='a reader sees a part of a global batch'
demo=r'''#include "demo.h"
static DB* db1 = nullptr;
static bool armed = false;
static int seen = 0;
static int cmp(void* a, size_t la, void* b, size_t lb, void*) {
    if (armed) {
        armed = false;           // Look at the instance in the middle of the batch.
        for (const char* k: {"a", "b"}) {
            SizedBuf v;
            if (db1->get(SizedBuf(k), v)) { seen++; v.free(); }
        }
        armed = true;
    }
    int r = memcmp(a, b, la < lb ? la : lb);
    return r ? r : (la < lb ? -1 : la > lb);
}
int main() {
    initJungle();
    DBConfig c = conf(1, 64);
    c.cmpFunc = cmp;
    DB* db2 = nullptr;
    OKAY(DB::open(&db1, "db1", c));
    OKAY(DB::open(&db2, "db2", conf(1, 64)));
    std::list<Record> l;
    for (const char* k: {"a", "b", "c", "d"}) {
        Record r; r.kv.key = SizedBuf(k); r.kv.value = SizedBuf(k);
        l.push_back(r);
    }
    GlobalBatch g;
    g.addBatch(db1, l); g.addBatch(db2, l);
    armed = true;
    OKAY(g.execute());
    armed = false;
    REQ(get(db1, "a") == "a" && get(db2, "d") == "d");
    REQ(seen == 0, "a part of the batch was seen %d times", seen);
    OKAY(DB::close(db1)); OKAY(DB::close(db2)); jungle::shutdown();
    return 0;
}
'''
