// Harness TU for the sequencer contracts: only forwards to the real code in /repo.
#include <stdexcept>
#include <cstdint>
#include <cstddef>
#include <vector>
#include <klepsydra/high_performance/disruptor4cpp/single_producer_sequencer.h>
#include <klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h>
#include <klepsydra/high_performance/disruptor4cpp/wait_strategies/busy_spin_wait_strategy.h>
using namespace disruptor4cpp;
#ifndef KN
#define KN 8
#endif
typedef busy_spin_wait_strategy WS;
typedef single_producer_sequencer<KN, WS> SP;
typedef multi_producer_sequencer<KN, WS> MP;
extern "C" {
std::size_t c_sizeof_sequence() { return sizeof(sequence); }
std::size_t c_N() { return KN; }
std::size_t c_sizeof_sp() { return sizeof(SP); }
std::size_t c_sizeof_mp() { return sizeof(MP); }
void *a_seq_value(sequence *s) { return &s->sequence_; }
int64_t h_seq_get(sequence *s) { return s->get(); }
void h_seq_set(sequence *s, int64_t v) { s->set(v); }
bool h_seq_cas(sequence *s, int64_t a, int64_t b) { return s->compare_and_set(a, b); }
int64_t h_seq_add(sequence *s, int64_t n) { return s->add_and_get(n); }
int64_t h_seq_inc(sequence *s) { return s->increment_and_get(); }
int64_t h_min1(std::vector<sequence *> *v) { return util::get_minimum_sequence(*v); }
int64_t h_min2(std::vector<sequence *> *v, int64_t m) { return util::get_minimum_sequence(*v, m); }
int64_t h_min1c(std::vector<const sequence *> *v) { return util::get_minimum_sequence(*v); }
int64_t h_min2c(std::vector<const sequence *> *v, int64_t m) { return util::get_minimum_sequence(*v, m); }
#define SEQ(P, T)                                                                        \
    void *a_##P##_gating(T *s) { return &s->gating_sequences_; }                         \
    void *a_##P##_cursor(T *s) { return &s->cursor_; }                                   \
    int64_t h_##P##_next(T *s, int n) { return s->next(n); }                             \
    int64_t h_##P##_next1(T *s) { return s->next(); }                                    \
    int64_t h_##P##_try_next(T *s, int n) { return s->try_next(n); }                     \
    int64_t h_##P##_try_next1(T *s) { return s->try_next(); }                            \
    bool h_##P##_has(T *s, int n) { return s->has_available_capacity(n); }               \
    int64_t h_##P##_remaining(T *s) { return s->remaining_capacity(); }                  \
    void h_##P##_claim(T *s, int64_t v) { s->claim(v); }                                 \
    void h_##P##_publish(T *s, int64_t v) { s->publish(v); }                             \
    void h_##P##_publish2(T *s, int64_t lo, int64_t hi) { s->publish(lo, hi); }          \
    bool h_##P##_is_available(T *s, int64_t v) { return s->is_available(v); }            \
    int64_t h_##P##_get_cursor(T *s) { return s->get_cursor(); }                         \
    int64_t h_##P##_minimum(T *s) { return s->get_minimum_sequence(); }                  \
    std::size_t h_##P##_bufsize(T *s) { return s->get_buffer_size(); }                   \
    int64_t h_##P##_highest(T *s, int64_t lo, int64_t av) { return s->get_highest_published_sequence(lo, av); } \
    void h_##P##_add(T *s, std::vector<sequence *> *v) { s->add_gating_sequences(*v); }                         \
    void h_##P##_ctor(void *p) { new (p) T(); }                                          \
    bool h_##P##_remove(T *s, sequence *q) { return s->remove_gating_sequence(*q); }
SEQ(sp, SP)
SEQ(mp, MP)
void *a_sp_next_value(SP *s) { return &s->next_value_; }
void *a_sp_cached(SP *s) { return &s->cached_value_; }
void *a_mp_cache(MP *s) { return &s->gating_sequence_cache_; }
void *a_mp_avail(MP *s) { return &s->available_buffer_; }
}
