prop='P35'
kind='unit'; srcs=['internal_helper.cc','crc32.cc','fileops_posix.cc','fileops_directio.cc']
edits=[('src/internal_helper.cc','''        // Rollback.
        pos( pos() - sizeof(uint32_t) );
''','''        // Rollback.
        if (!supportAppend) pos( pos() - s_buf.size );
''')]
needs='a putSb into a fixed-size buffer with room for the length prefix but not for the data'
breaks='a rejected putSb does not restore the position: what is written next lands elsewhere'
demo=r'''#include "demo.h"
#include "internal_helper.h"
int main() {
    SizedBuf b(16);
    RwSerializer w(b);
    OKAY(w.putU32(7));
    SizedBuf big(20);
    REQ(!w.putSb(big).ok());
    REQ(w.pos() == 4, "pos %zu", w.pos());
    OKAY(w.putU32(8));
    RwSerializer r(b); Status s;
    REQ(r.getU32(s) == 7); REQ(r.getU32(s) == 8);
    b.free(); big.free();
    return 0;
}
'''
