prop='P17'
edits=[('src/db_manifest.cc','        std::string kvs_name = entry.second;\n','        std::string kvs_name = entry.second.substr(0, 255);\n')]
needs='a key-value store with a name longer than 255 bytes, and a reopen'
breaks='the key-value store is not found again under its name, and a new empty one takes its place'
demo=r'''#include "demo.h"
int main() {
    initJungle();
    std::string n1 = std::string(255, 'n') + "1", n2 = std::string(255, 'n') + "2";
    for (int round = 0; round < 2; ++round) {
        DBGroup* g = nullptr;
        DB *a = nullptr, *b = nullptr;
        OKAY(DBGroup::open(&g, "db", conf()));
        OKAY(g->openDB(&a, n1));
        OKAY(g->openDB(&b, n2));
        if (!round) { put(a, "k", "one"); put(b, "k", "two"); OKAY(a->sync(false)); OKAY(b->sync(false)); }
        REQ(get(a, "k") == "one", "%s", get(a, "k").c_str());
        REQ(get(b, "k") == "two", "%s", get(b, "k").c_str());
        OKAY(DB::close(a)); OKAY(DB::close(b)); OKAY(DBGroup::close(g));
    }
    jungle::shutdown();
    return 0;
}
'''
