prop='P15'
edits=[('src/table_file.cc','    TC( decompressValue(parent_db, db_config, rec_out, i_meta_out) );\n','')]
needs='compression, and a nearest search that is answered by a table'
breaks='a nearest search returns the compressed bytes as the value'
demo=r'''#include "demo.h"
int main() {
    initJungle();
    DBConfig c = conf();
    c.compOpt.cbGetMaxSize = [](DB*, const Record& r) -> ssize_t { return r.kv.value.size + 8; };
    c.compOpt.cbCompress = [](DB*, const Record& r, SizedBuf& o) -> ssize_t {
        size_t n = r.kv.value.size / 2;       // "aabbcc" -> "abc"
        for (size_t i = 0; i < n; ++i) o.data[i] = r.kv.value.data[2 * i];
        return n;
    };
    c.compOpt.cbDecompress = [](DB*, const SizedBuf& s, SizedBuf& o) -> ssize_t {
        for (size_t i = 0; i < s.size; ++i) o.data[2 * i] = o.data[2 * i + 1] = s.data[i];
        return 2 * s.size;
    };
    DB* db = nullptr;
    OKAY(DB::open(&db, "db", c));
    put(db, "b", "xxyyzz");
    OKAY(db->sync(false)); OKAY(db->flushLogs(FlushOptions()));
    REQ(get(db, "b") == "xxyyzz");
    for (int o = 0; o < 2; ++o) {
        Record r; Record::Holder h(r);
        OKAY(db->getNearestRecordByKey(SizedBuf(o ? "c" : "a"), r, o ? SearchOptions::SMALLER : SearchOptions::GREATER));
        REQ(str(r.kv.value) == "xxyyzz", "%s", str(r.kv.value).c_str());
    }
    OKAY(DB::close(db)); jungle::shutdown();
    return 0;
}
'''
