prop='P03'
edits=[('src/iterator.cc','''            avl_remove(&p->curWindow, &item->an);
            item->flags = ItrInt::ItrItem::none;
            if (item->logItr) {
                s = item->logItr->get(item->lastRec);
            }
            if (item->tableItr) {
                s = item->tableItr->get(item->lastRec);
            }

            if (s == Status::CHECKSUM_ERROR || s == Status::FILE_CORRUPTION) {
                // Intolerable error.
                // NOTE: `lastRec` is not valid anymore,
                //       do not put this item back to the window.
                p->fatalError = s;
                cur_key.free();

                // To make next `get()` call return error,
                // return this function without error.
                return Status();
            }

            avl_cmp_func* cmp_func = (p->type == ItrInt::BY_SEQ)
                                     ? (ItrInt::ItrItem::cmpSeq)
                                     : (ItrInt::ItrItem::cmpKey);
            avl_node* avl_ret = avl_insert(&p->curWindow, &item->an, cmp_func);

            assert(avl_ret == &item->an);
            (void)avl_ret;
            cursor = avl_last(&p->curWindow);
''','''            avl_remove(&p->curWindow, &item->an);
            if (item->logItr) {
                s = item->logItr->get(item->lastRec);
            }
            if (item->tableItr) {
                s = item->tableItr->get(item->lastRec);
            }

            if (s == Status::CHECKSUM_ERROR || s == Status::FILE_CORRUPTION) {
                // Intolerable error.
                // NOTE: `lastRec` is not valid anymore,
                //       do not put this item back to the window.
                p->fatalError = s;
                cur_key.free();

                // To make next `get()` call return error,
                // return this function without error.
                return Status();
            }

            avl_cmp_func* cmp_func = (p->type == ItrInt::BY_SEQ)
                                     ? (ItrInt::ItrItem::cmpSeq)
                                     : (ItrInt::ItrItem::cmpKey);
            avl_node* avl_ret = avl_insert(&p->curWindow, &item->an, cmp_func);

            assert(avl_ret == &item->an);
            (void)avl_ret;
            cursor = avl_last(&p->curWindow);
''')]
needs='records split between tables and logs; iterate to the end of one source, step back over it, then forward again'
breaks='after stepping back, a forward iteration skips records of a source that had been exhausted before'
demo=r'''#include "demo.h"
int main() {
    initJungle();
    DB* db = nullptr;
    DBConfig c = conf();
    OKAY(DB::open(&db, "db", c));
    put(db, "a", "1"); put(db, "c", "3");
    OKAY(db->sync(false)); OKAY(db->flushLogs(FlushOptions()));
    put(db, "b", "2"); put(db, "d", "4"); put(db, "e", "5");
    auto key = [&](Iterator& it) { Record r; Record::Holder h(r); Status s = it.get(r);
        return s ? str(r.kv.key) : std::string("-"); };
    for (int fwd = 0; fwd <= 5; ++fwd) for (int back = 0; back <= fwd; ++back) {
        Iterator it;
        OKAY(it.init(db));
        int pos = 0;
        for (int i = 0; i < fwd; ++i) if (it.next().ok()) pos++;
        for (int i = 0; i < back; ++i) if (it.prev().ok()) pos--;
        std::string got = key(it);
        while (it.next().ok()) got += key(it);
        REQ(got == std::string("abcde").substr(pos), "fwd %d back %d got %s", fwd, back, got.c_str());
        it.close();
    }
    OKAY(DB::close(db)); jungle::shutdown();
    return 0;
}
'''
