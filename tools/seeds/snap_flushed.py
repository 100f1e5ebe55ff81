prop='P05'
edits=[('src/log_mgr.cc','''            s = l_info->file->get(chk_local, key, rec_out_local, true, true);
''','''            s = l_info->file->get(chk_local, key, rec_out_local, false, true);
''')]
needs='a snapshot taken over unflushed logs, then the logs are flushed, then a point lookup on the snapshot'
breaks='a point lookup on a snapshot misses the records that were flushed after the snapshot was taken'
demo=r'''#include "demo.h"
int main() {
    initJungle();
    DB* db = nullptr;
    OKAY(DB::open(&db, "db", conf()));
    put(db, "a", "1"); put(db, "b", "2");
    DB* snap = nullptr;
    OKAY(db->openSnapshot(&snap));
    put(db, "a", "9");
    OKAY(db->sync(false)); OKAY(db->flushLogs(FlushOptions()));
    REQ(get(snap, "a") == "1", "%s", get(snap, "a").c_str());
    REQ(get(snap, "b") == "2", "%s", get(snap, "b").c_str());
    REQ(get(db, "a") == "9");
    OKAY(DB::close(snap)); OKAY(DB::close(db)); jungle::shutdown();
    return 0;
}
'''
