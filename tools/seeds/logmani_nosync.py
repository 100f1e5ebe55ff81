prop='P20'
edits=[('src/log_mgr.cc','        EP( mani->store(call_fsync) );\n','        EP( mani->store(false) );\n')]
needs='a new log file since the last synced manifest, sync(true), then a power loss'
breaks='sync(true) does not make the log manifest durable: after a power loss acknowledged records are missing'
demo=r'''#include "demo.h"
#include "plsim.h"
int main() {
    if (fork() == 0) {
        initJungle();
        pl::start("live", "img");
        DB* db = nullptr;
        OKAY(DB::open(&db, "live", conf(1, 4)));
        for (int i = 0; i < 10; ++i) { put(db, "k" + std::to_string(i), "v"); OKAY(db->sync(true)); }
        pl::finish();
        _exit(0);
    }
    int st; wait(&st); REQ(st == 0);
    initJungle();
    DB* db = nullptr;
    OKAY(DB::open(&db, "img", conf(1, 4)));
    for (int i = 0; i < 10; ++i) REQ(get(db, "k" + std::to_string(i)) == "v", "k%d", i);
    OKAY(DB::close(db)); jungle::shutdown();
    return 0;
}
'''
