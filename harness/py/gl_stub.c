/* stands in for libamino-gl.so in the Python check: records what it is given */
#include <stdlib.h>
#include <string.h>
struct dvec { size_t len; double *data; size_t inc; };
struct rec { int create, destroy, run, async, stop, lock, unlock, w, h; char title[64]; void *win, *sg, *last; size_t n; double q[32]; int cfg, running; };
struct rec amino_gl_rec;
#define R amino_gl_rec
void aa_gl_init(void) {}
void *aa_rx_win_default_create(const char *t, int w, int h)
{ R.create++; R.w = w; R.h = h; strncpy(R.title, t, 63); R.win = malloc(8); return R.win; }
void aa_rx_win_destroy(void *w) { R.destroy++; R.last = w; free(w); }
void aa_rx_win_set_bconfig(void *w, const struct dvec *q)
{ R.cfg++; R.last = w; R.n = q->len; for (size_t i = 0; i < q->len && i < 32; i++) R.q[i] = q->data[i * q->inc]; }
void aa_rx_win_run(void) { R.run++; R.running = 1; }
void aa_rx_win_run_async(void) { R.async++; R.running = 1; }
void aa_rx_win_stop(void *w) { R.stop++; R.last = w; R.running = 0; }
void aa_rx_win_set_sg(void *w, void *sg) { R.last = w; R.sg = sg; }
int aa_rx_win_is_running(void *w) { R.last = w; return R.running; }
void aa_rx_win_lock(void *w) { R.lock++; R.last = w; }
void aa_rx_win_unlock(void *w) { R.unlock++; R.last = w; }
