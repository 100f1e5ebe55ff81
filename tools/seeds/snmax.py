prop='P04'
edits=[('src/memtable_iterator.cc','''    if (max_local > mTable->maxSeqNum)
        max_local = mTable->maxSeqNum;

    maxSeq = max_local;
''','''    if (max_local > mTable->maxSeqNum)
        max_local = mTable->maxSeqNum;

    maxSeq = (mTable->flushedSeqNum != NOT_INITIALIZED &&
              max_local > mTable->flushedSeqNum)
             ? max_local : mTable->maxSeqNum.load();
''')]
needs='a sequence-number iterator with an upper bound inside a log file that is not flushed at all'
breaks='the upper bound of a sequence-number range is ignored within a log file'
demo=r'''#include "demo.h"
int main() {
    initJungle();
    DB* db = nullptr;
    OKAY(DB::open(&db, "db", conf()));
    for (int i = 1; i <= 6; ++i) put(db, "k" + std::to_string(i), "v");
    Iterator it; OKAY(it.initSN(db, 2, 4));
    int n = 0;
    do { Record r; Record::Holder h(r); if (!it.get(r).ok()) break;
         REQ(r.seqNum >= 2 && r.seqNum <= 4, "seq %d", (int)r.seqNum); n++; } while (it.next().ok());
    REQ(n == 3, "%d", n);
    it.close();
    OKAY(DB::close(db)); jungle::shutdown();
    return 0;
}
'''
