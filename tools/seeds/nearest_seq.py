prop='P07'
edits=[('src/table_mgr.cc','                update_cur_nearest = (rec_out.seqNum > cur_nearest.seqNum);\n','                update_cur_nearest = (rec_out.seqNum < cur_nearest.seqNum);\n')]
needs='two versions of the same key in two tables, then a nearest search'
breaks='a nearest search returns the older version of a key'
demo=r'''#include "demo.h"
int main() {
    initJungle();
    DB* db = nullptr;
    OKAY(DB::open(&db, "db", conf()));
    put(db, "b", "old"); put(db, "d", "x");
    OKAY(db->sync(false)); OKAY(db->flushLogs(FlushOptions()));
    OKAY(db->compactL0(CompactOptions(), 0));
    put(db, "b", "new");
    OKAY(db->sync(false)); OKAY(db->flushLogs(FlushOptions()));
    for (int o = 0; o < 2; ++o) {
        Record r; Record::Holder h(r);
        OKAY(db->getNearestRecordByKey(SizedBuf(o ? "c" : "a"), r, o ? SearchOptions::SMALLER : SearchOptions::GREATER));
        REQ(str(r.kv.value) == "new", "%s", str(r.kv.value).c_str());
    }
    OKAY(DB::close(db)); jungle::shutdown();
    return 0;
}
'''
