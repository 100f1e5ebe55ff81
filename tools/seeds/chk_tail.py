prop='P06'
edits=[('src/memtable.cc','''    if ( last_entry != checkpoints.rend() &&
         *last_entry == maxSeqNum) {
''','''    if ( last_entry != checkpoints.rend() &&
         *last_entry + 1 >= maxSeqNum) {
''')]
needs='two checkpoints exactly one record apart in the same log file'
breaks='the second checkpoint is acknowledged but not recorded: after a flush its view cannot be opened'
demo=r'''#include "demo.h"
int main() {
    initJungle();
    DB* db = nullptr;
    OKAY(DB::open(&db, "db", conf()));
    uint64_t c1 = 0, c2 = 0;
    put(db, "a", "1"); OKAY(db->checkpoint(c1));
    put(db, "a", "2"); OKAY(db->checkpoint(c2));
    put(db, "a", "3");
    OKAY(db->sync(false));
    OKAY(db->flushLogs(FlushOptions()));
    std::list<uint64_t> l; OKAY(db->getCheckpoints(l));
    bool h1 = false, h2 = false; for (uint64_t x : l) { h1 |= x == c1; h2 |= x == c2; }
    REQ(h1 && h2);
    DB* snap = nullptr;
    OKAY(db->openSnapshot(&snap, c2));
    REQ(get(snap, "a") == "2", "%s", get(snap, "a").c_str());
    OKAY(DB::close(snap)); OKAY(DB::close(db)); jungle::shutdown();
    return 0;
}
'''
