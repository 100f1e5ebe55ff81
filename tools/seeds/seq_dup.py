prop='P02'
edits=[('src/log_mgr.cc','                return Status::INVALID_SEQNUM;\n            }\n            prev_seq = rr.seqNum;\n','                return Status::INVALID_SEQNUM;\n            }\n')]
needs='a batch whose explicit sequence numbers are all new but repeat each other'
breaks='a batch with a repeated sequence number is partly written before it is refused'
demo=r'''#include "demo.h"
int main() {
    initJungle();
    DB* db = nullptr;
    OKAY(DB::open(&db, "db", conf()));
    put(db, "a", "1");
    std::list<Record> l;
    for (const char* k : {"x", "y"}) { Record r; r.kv.key = SizedBuf(k); r.kv.value = SizedBuf("v"); r.seqNum = 7; l.push_back(r); }
    REQ(!db->setRecordBatch(l).ok());
    REQ(get(db, "x") == "<KEY_NOT_FOUND>", "%s", get(db, "x").c_str());
    OKAY(DB::close(db)); jungle::shutdown();
    return 0;
}
'''
