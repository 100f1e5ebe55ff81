prop='P08'
edits=[('src/table_file.cc','            userMetaToRawMeta(rec.meta, i_meta, raw_meta_static);\n            doc.meta = raw_meta_static.data;\n            doc.metalen = raw_meta_static.size;\n','            userMetaToRawMeta(rec.meta, i_meta, raw_meta_static);\n            doc.meta = raw_meta_static.data;\n            doc.metalen = std::min(raw_meta_static.size, (uint32_t)255);\n')]
needs='user metadata of about 250 to 500 bytes that is flushed to a table'
breaks='the tail of the metadata is cut off once the record is flushed'
demo=r'''#include "demo.h"
int main() {
    initJungle();
    DB* db = nullptr;
    OKAY(DB::open(&db, "db", conf()));
    for (size_t n : {0, 10, 200, 300, 495, 520, 2000}) {
        Record r; std::string m(n, 'm'), k = "k" + std::to_string(n);
        r.kv.key = SizedBuf(k); r.kv.value = SizedBuf("v"); r.meta = SizedBuf(m);
        OKAY(db->setRecordByKey(r));
    }
    OKAY(db->sync(false)); OKAY(db->flushLogs(FlushOptions()));
    for (size_t n : {0, 10, 200, 300, 495, 520, 2000}) {
        Record r; Record::Holder h(r);
        OKAY(db->getRecordByKey(SizedBuf("k" + std::to_string(n)), r));
        REQ(str(r.meta) == std::string(n, 'm'), "meta size %zu became %zu", n, (size_t)r.meta.size);
    }
    OKAY(DB::close(db)); jungle::shutdown();
    return 0;
}
'''
