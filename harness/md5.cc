#include "common.h"
#include <cstring>
#include "candy/gbd/md5/md5.cpp"
using md5::md5_t;
#define M(f) OFF(M_##f, offsetof(md5_t, f))
M(A) M(B) M(C) M(D) M(message_length) M(stored_size) M(stored) M(finished) M(signature) M(str)
extern "C" {
void w_md5_init(md5_t* m) { m->initialise(); }
void w_md5_block(md5_t* m, const unsigned char* b) { m->process_block(b); }
void w_md5_process(md5_t* m, const void* p, unsigned n) { m->process(p, n); }
void w_md5_finish(md5_t* m, void* s) { m->finish(s); }
void w_md5_text(const void* s, char* t) { md5::sig_to_string(s, t, MD5_STRING_SIZE); }
void w_md5_result(md5_t* m, void* s) { m->get_result(s); }
}
