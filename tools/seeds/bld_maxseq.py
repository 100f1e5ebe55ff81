prop='P18'
edits=[('src/jungle_builder.cc','    curMaxSeqnum = std::max(curMaxSeqnum, doc.seqnum);\n','    curMaxSeqnum = doc.seqnum;\n')]
needs='a bulk build into several tables where the last record does not hold the biggest sequence number'
breaks='the new instance hands out sequence numbers it already holds'
demo=r'''#include "demo.h"
#include <libjungle/jungle_builder.h>
int main() {
    initJungle();
    DBConfig c = conf(1, 64);
    c.nextLevelExtension = true;
    c.maxL1TableSize = 4096;
    {   builder::Builder b;
        OKAY(b.init("db", c));
        std::string val(2000, 'v');
        for (int i = 0; i < 12; ++i) {
            char k[16]; snprintf(k, sizeof k, "k%03d", i);
            std::string ks(k);
            Record r; r.kv.key = SizedBuf(ks); r.kv.value = SizedBuf(val);
            r.seqNum = 100 - i;
            OKAY(b.set(r));
        }
        OKAY(b.commit());
        OKAY(b.close());
    }
    DB* db = nullptr;
    OKAY(DB::open(&db, "db", c));
    put(db, "new", "x");
    uint64_t s = 0;
    OKAY(db->getMaxSeqNum(s));
    REQ(s > 100, "%lu", (unsigned long)s);
    OKAY(DB::close(db)); jungle::shutdown();
    return 0;
}
'''
