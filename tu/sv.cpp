// thin entry points; every body is /repo's
#include <new>
#include <pv/sharedVector.h>
using namespace epics::pvData;
#define SV(N, T) \
typedef shared_vector<T> V##N; typedef shared_vector<const T> C##N; \
extern "C" void sv_ctor0_##N(V##N *v) { new(v) V##N(); } \
extern "C" void sv_ctorn_##N(V##N *v, size_t n) { new(v) V##N(n); } \
extern "C" void sv_ctorv_##N(V##N *v, size_t n, T e) { new(v) V##N(n, e); } \
extern "C" void sv_ctorp_##N(V##N *v, T *p, size_t o, size_t n) { new(v) V##N(p, o, n); } \
extern "C" void sv_copy_##N(V##N *v, const V##N& o) { new(v) V##N(o); } \
extern "C" void sv_move_##N(V##N *v, V##N& o) { new(v) V##N(std::move(o)); } \
extern "C" void sv_dtor_##N(V##N *v) { v->~V##N(); } \
extern "C" V##N *sv_assign_##N(V##N *v, const V##N& o) { return &(*v = o); } \
extern "C" V##N *sv_massign_##N(V##N *v, V##N& o) { return &(*v = std::move(o)); } \
extern "C" void sv_swap_##N(V##N *v, V##N& o) { v->swap(o); } \
extern "C" void sv_clear_##N(V##N *v) { v->clear(); } \
extern "C" bool sv_unique_##N(const V##N *v) { return v->unique(); } \
extern "C" size_t sv_size_##N(const V##N *v) { return v->size(); } \
extern "C" bool sv_empty_##N(const V##N *v) { return v->empty(); } \
extern "C" size_t sv_capacity_##N(const V##N *v) { return v->capacity(); } \
extern "C" void sv_slice_##N(V##N *v, size_t o, size_t n) { v->slice(o, n); } \
extern "C" void sv_reserve_##N(V##N *v, size_t n) { v->reserve(n); } \
extern "C" void sv_resize_##N(V##N *v, size_t n) { v->resize(n); } \
extern "C" void sv_resizev_##N(V##N *v, size_t n, T e) { v->resize(n, e); } \
extern "C" void sv_mkunique_##N(V##N *v) { v->make_unique(); } \
extern "C" void sv_push_##N(V##N *v, T e) { v->push_back(e); } \
extern "C" void sv_pop_##N(V##N *v) { v->pop_back(); } \
extern "C" T *sv_data_##N(const V##N *v) { return v->data(); } \
extern "C" T *sv_begin_##N(const V##N *v) { return v->begin(); } \
extern "C" T *sv_end_##N(const V##N *v) { return v->end(); } \
extern "C" T sv_at_##N(const V##N *v, size_t i) { return v->at(i); } \
extern "C" T sv_idx_##N(const V##N *v, size_t i) { return (*v)[i]; } \
extern "C" T sv_front_##N(const V##N *v) { return v->front(); } \
extern "C" T sv_back_##N(const V##N *v) { return v->back(); } \
extern "C" void sv_freeze_##N(C##N *r, V##N& v) { new(r) C##N(freeze(v)); } \
extern "C" void sv_thaw_##N(V##N *r, C##N& v) { new(r) V##N(thaw(v)); } \
extern "C" void sv_tovoid_##N(shared_vector<void> *r, const V##N& v) { new(r) shared_vector<void>(static_shared_vector_cast<void>(v)); } \
extern "C" void sv_fromvoid_##N(V##N *r, const shared_vector<void>& v) { new(r) V##N(static_shared_vector_cast<T>(v)); }
SV(i8, int8) SV(i32, int32) SV(f64, double)
