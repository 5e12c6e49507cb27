// Harness TU for the barrier / wait strategy contracts: only forwards to the real code in /repo.
#include <stdexcept>
#include <cstdint>
#include <cstddef>
#include <vector>
#include <chrono>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>
using namespace disruptor4cpp;
typedef blocking_wait_strategy W_blocking;
typedef busy_spin_wait_strategy W_busy;
typedef lite_blocking_wait_strategy W_lite;
typedef sleeping_wait_strategy<200> W_sleeping;
typedef sleeping_wait_strategy<0> W_sleeping0;
typedef timeout_blocking_wait_strategy<1000000> W_timeout;
typedef yielding_wait_strategy<100> W_yielding;
typedef phased_backoff_wait_strategy<1000, 2000, W_blocking> W_phased;
typedef fixed_sequence_group<sequence> G;
extern "C" {
std::size_t c_sizeof_sequence() { return sizeof(sequence); }
std::size_t c_sizeof_group() { return sizeof(G); }
void *a_seq_value(sequence *s) { return &s->sequence_; }
void *a_group_vec(G *g) { return &g->sequences_; }
int64_t h_group_get(G *g) { return g->get(); }
void h_group_create_n(void *p, const std::vector<sequence *> *v) { new (p) G(G::create(*v)); }
void h_group_create_c(void *p, const std::vector<const sequence *> *v) { new (p) G(G::create(*v)); }
void h_group_create1(void *p, const sequence *s) { new (p) G(G::create(*s)); }
#define STRAT(W)                                                                                                       \
    typedef single_producer_sequencer<8, W_##W> SP_##W;                                                                \
    typedef sequence_barrier<SP_##W> B_##W;                                                                            \
    std::size_t c_sizeof_bar_##W() { return sizeof(B_##W); }                                                           \
    std::size_t c_sizeof_ws_##W() { return sizeof(W_##W); }                                                            \
    void *a_bar_dep_##W(B_##W *b) { return &b->dependent_sequence_; }                                                  \
    void *a_bar_alerted_##W(B_##W *b) { return &b->alerted_; }                                                         \
    void h_bar_ctor_##W(void *p, SP_##W *s, W_##W *w, sequence *c, std::vector<sequence *> *v) { new (p) B_##W(*s, *w, *c, *v); } \
    int64_t h_wait_##W(W_##W *w, int64_t q, sequence *c, G *g, B_##W *b) { return w->wait_for(q, *c, *g, *b); }        \
    void h_signal_##W(W_##W *w) { w->signal_all_when_blocking(); }                                                     \
    int64_t h_bar_wait_##W(B_##W *b, int64_t q) { return b->wait_for(q); }                                             \
    void h_bar_alert_##W(B_##W *b) { b->alert(); }                                                                     \
    void h_bar_clear_##W(B_##W *b) { b->clear_alert(); }                                                               \
    bool h_bar_is_alerted_##W(B_##W *b) { return b->is_alerted(); }                                                    \
    void h_bar_check_##W(B_##W *b) { b->check_alert(); }                                                               \
    int64_t h_bar_cursor_##W(B_##W *b) { return b->get_cursor(); }
STRAT(blocking)
STRAT(busy)
STRAT(lite)
STRAT(sleeping)
STRAT(sleeping0)
STRAT(timeout)
STRAT(yielding)
STRAT(phased)
void *a_lite_flag(W_lite *w) { return &w->signal_needed_; }
// barriers as the sequencers make them
typedef multi_producer_sequencer<8, W_blocking> MP_blocking;
typedef sequence_barrier<MP_blocking> BM_blocking;
#define NEWBAR(x, S, B)                                                                                                \
    std::size_t c_sizeof_sqr_##x() { return sizeof(S); }                                                               \
    void *a_sqr_cursor_##x(S *s) { return &s->cursor_; }                                                               \
    void *a_sqr_ws_##x(S *s) { return &s->wait_strategy_; }                                                            \
    void *a_nb_dep_##x(B *b) { return &b->dependent_sequence_; }                                                       \
    void *a_nb_alerted_##x(B *b) { return &b->alerted_; }                                                              \
    const void *h_nb_sqr_##x(B *b) { return &b->sequencer_; }                                                          \
    const void *h_nb_cursor_##x(B *b) { return &b->cursor_sequence_; }                                                 \
    const void *h_nb_ws_##x(B *b) { return &b->wait_strategy_; }                                                       \
    B *h_new0_##x(S *s) { return s->new_barrier().release(); }                                                         \
    B *h_newn_##x(S *s, std::vector<sequence *> *v) { return s->new_barrier(*v).release(); }
NEWBAR(sp, SP_blocking, B_blocking)
NEWBAR(mp, MP_blocking, BM_blocking)
}
