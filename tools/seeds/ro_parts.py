prop='P16'
edits=[('src/table_mgr.cc','            !db_config->readOnly &&\n            numL0Partitions != db_config->numL0Partitions) {\n','            numL0Partitions != db_config->numL0Partitions) {\n')]
needs='a read-only open with another number of level-0 partitions than the instance has'
breaks='a read-only open modifies the files of the instance'
demo=r'''#include "demo.h"
#include <dirent.h>
#include <map>
#include <fstream>
#include <sstream>
static std::map<std::string, std::string> files(const char* d) {
    std::map<std::string, std::string> r;
    DIR* p = opendir(d);
    while (dirent* e = readdir(p)) {
        std::string n(e->d_name);
        if (n[0] == '.' || n.find("system_logs") == 0) continue;
        std::ifstream f(std::string(d) + "/" + n); std::stringstream s; s << f.rdbuf();
        r[n] = s.str();
    }
    closedir(p);
    return r;
}
int main() {
    initJungle();
    DB* db = nullptr;
    OKAY(DB::open(&db, "db", conf(1)));
    put(db, "b", "x"); put(db, "c", "y");
    OKAY(db->sync(false)); OKAY(db->flushLogs(FlushOptions()));
    OKAY(DB::close(db));
    auto before = files("db");
    DBConfig c = conf(4);
    c.readOnly = true;
    OKAY(DB::open(&db, "db", c));
    REQ(get(db, "b") == "x");
    OKAY(DB::close(db));
    REQ(files("db") == before, "files changed");
    jungle::shutdown();
    return 0;
}
'''
