#include "common.h"
#include <assert.h>
#include <cstdint>
#include <algorithm>
#include "candy/mtl/Stamp.h"
#include "candy/mtl/BoundedQueue.h"
#include "candy/mtl/Heap.h"
typedef Stamp<uint32_t> S32; typedef Stamp<uint8_t> S8; typedef Candy::bqueue<uint32_t> BQ;
OFF(S32_stamped, offsetof(S32, stamped)) OFF(S32_stamp, offsetof(S32, stamp)) OFF(S8_stamped, offsetof(S8, stamped)) OFF(S8_stamp, offsetof(S8, stamp))
OFF(Q_first, offsetof(BQ, first)) OFF(Q_last, offsetof(BQ, last)) OFF(Q_size, offsetof(BQ, queuesize)) OFF(Q_sum, offsetof(BQ, sumofqueue)) OFF(Q_elems, offsetof(BQ, elems))
extern "C" bool ext_lt(int a, int b);
struct ExtLt { bool operator()(int a, int b) const { return ext_lt(a, b); } };
typedef Glucose::Heap<ExtLt> H;
OFF(H_heap, offsetof(H, heap)) OFF(H_indices, offsetof(H, indices))
extern "C" {
#define STAMP(T, N) \
void w_##N##_clear(T* s) { s->clear(); } \
void w_##N##_set(T* s, unsigned i) { s->set(i); } \
void w_##N##_unset(T* s, unsigned i) { s->unset(i); } \
bool w_##N##_get(T* s, unsigned i) { return (*s)[i]; } \
bool w_##N##_is(T* s, unsigned i) { return s->isStamped(i); } \
void w_##N##_grow(T* s, size_t n) { s->grow(n); } \
void w_##N##_grow1(T* s) { s->grow(); }
STAMP(S32, s32) STAMP(S8, s8)
void w_bq_push(BQ* q, uint32_t x) { q->push(x); }
void w_bq_pop(BQ* q) { q->pop(); }
uint32_t w_bq_peek(BQ* q) { return q->peek(); }
void w_bq_clear(BQ* q) { q->fastclear(); }
unsigned w_bq_sum(BQ* q) { return q->getsum(); }
unsigned w_bq_avg(BQ* q) { return q->getavg(); }
bool w_bq_valid(BQ* q) { return q->isvalid(); }
unsigned w_bq_size(BQ* q) { return q->size(); }
unsigned w_bq_max(BQ* q) { return q->maxSize(); }

void w_heap_up(H* h, int i) { h->percolateUp(i); }
void w_heap_down(H* h, int i) { h->percolateDown(i); }
void w_heap_insert(H* h, int n) { h->insert(n); }
int w_heap_removeMin(H* h) { return h->removeMin(); }
void w_heap_update(H* h, int n) { h->update(n); }
void w_heap_decrease(H* h, int n) { h->decrease(n); }
void w_heap_increase(H* h, int n) { h->increase(n); }
void w_heap_grow(H* h, unsigned n) { h->grow(n); }
void w_heap_clear(H* h) { h->clear(); }
void w_heap_build(H* h, std::vector<int>* ns) { h->build(*ns); }
bool w_heap_in(H* h, int n) { return h->inHeap(n); }
bool w_heap_empty(H* h) { return h->empty(); }
int w_heap_size(H* h) { return h->size(); }
int w_heap_at(H* h, int n) { return (*h)[n]; }
}
