// A small stand-in for the library: a store in memory that counts what is alive.
#define _GNU_SOURCE
#include <possum.h>
#include <pthread.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
#define N 64
static struct { char key[64]; size_t klen; char val[256]; size_t vlen; int used; } kv[N];
int demo_handles, demo_readers, demo_writers, demo_misuse, demo_fail, demo_wait_for_drop, demo_reading;
struct obj { int kind, live; };
struct vw { struct obj o; int fd; };
struct val { int slot; };
struct reader { struct obj o; struct val vals[8]; int n; };

static int find(const char *k, size_t n) {
  for (int i = 0; i < N; i++)
    if (kv[i].used && kv[i].klen == n && !memcmp(kv[i].key, k, n)) return i;
  return -1;
}
static void put(const char *k, size_t n, const char *v, size_t m) {
  int i = find(k, n);
  if (i < 0) for (i = 0; kv[i].used; i++);
  memcpy(kv[i].key, k, n); kv[i].klen = n; memcpy(kv[i].val, v, m); kv[i].vlen = m; kv[i].used = 1;
}
static void use(const void *p) { if (!p || !((struct obj *)p)->live) demo_misuse++; }
static int fail(void) { if (demo_fail > 0 && --demo_fail == 0) return 1; return 0; }
#define L pthread_mutex_lock(&mu)
#define U pthread_mutex_unlock(&mu)

PossumHandle *possum_new(const char *path) { struct obj *o = calloc(1, sizeof *o); o->live = 1; L; demo_handles++; U; return (void *)o; }
void possum_drop(PossumHandle *h) { L; use(h); ((struct obj *)h)->live = 0; demo_handles--; U; }
PossumError possum_start_new_value(PossumWriter *w, PossumValueWriter **v) {
  L; use(w); U;
  if (fail()) return IoError;
  struct vw *x = calloc(1, sizeof *x); x->o.live = 1; x->fd = memfd_create("value", 0); *v = (void *)x; return NoError;
}
RawFileHandle possum_value_writer_fd(PossumValueWriter *v) { return ((struct vw *)v)->fd; }
PossumError possum_writer_rename(PossumWriter *w, const PossumValue *v, PossumBuf k) { return NoError; }
PossumError possum_reader_new(const PossumHandle *h, PossumReader **r) {
  L; use(h); U;
  if (fail()) return SqliteError;
  struct reader *x = calloc(1, sizeof *x); x->o.live = 1; L; demo_readers++; U; *r = (void *)x; return NoError;
}
PossumError possum_reader_add(PossumReader *r, PossumBuf k, const PossumValue **v) {
  struct reader *x = (void *)r;
  L; use(r); int i = find(k.ptr, k.size); U;
  if (fail()) return SqliteError;
  if (i < 0) return NoSuchKey;
  x->vals[x->n].slot = i; *v = (void *)&x->vals[x->n++]; return NoError;
}
PossumError possum_reader_begin(PossumReader *r) { L; use(r); U; return fail() ? SqliteError : NoError; }
void possum_reader_end(PossumReader *r) { L; use(r); ((struct obj *)r)->live = 0; demo_readers--; U; }
static size_t rd(int i, PossumBuf *b, uint64_t off) {
  size_t n = off < kv[i].vlen ? kv[i].vlen - off : 0;
  if (n > b->size) n = b->size;
  if (n) memcpy((char *)b->ptr, kv[i].val + off, n);
  return n;
}
PossumError possum_value_read_at(const PossumValue *v, PossumBuf *b, PossumOffset off) {
  if (fail()) return IoError;
  b->size = rd(((struct val *)v)->slot, b, off); return NoError;
}
static PossumStat st(int i) { PossumStat s; memset(&s, 0, sizeof s); s.size = kv[i].vlen; s.last_used.secs = 1700000000 + i; s.last_used.nanos = 123456789; return s; }
void possum_value_stat(const PossumValue *v, PossumStat *s) { *s = st(((struct val *)v)->slot); }
static PossumError list(PossumBuf p, PossumItem **out, size_t *len) {
  PossumItem *a = calloc(sizeof *a, N); size_t n = 0;
  for (int i = 0; i < N; i++)
    if (kv[i].used && kv[i].klen >= p.size && !memcmp(kv[i].key, p.ptr, p.size)) {
      size_t m = kv[i].klen - p.size; char *k = malloc(m ? m : 1); memcpy(k, kv[i].key + p.size, m);
      a[n].key.ptr = k; a[n].key.size = m; a[n].stat = st(i); n++;
    }
  *out = a; *len = n; return NoError;
}
PossumError possum_reader_list_items(const PossumReader *r, PossumBuf p, PossumItem **o, size_t *n) { L; use(r); U; return fail() ? SqliteError : list(p, o, n); }
PossumError possum_writer_commit(PossumWriter *w) { L; use(w); ((struct obj *)w)->live = 0; demo_writers--; U; return fail() ? SqliteError : NoError; }
PossumError possum_writer_stage(PossumWriter *w, PossumBuf k, PossumValueWriter *v) {
  struct vw *x = (void *)v; char b[256];
  L; use(w); use(v); x->o.live = 0; U;
  ssize_t n = pread(x->fd, b, sizeof b, 0);
  close(x->fd);
  if (fail()) return IoError;
  L; put(k.ptr, k.size, b, n < 0 ? 0 : n); U; return NoError;
}
PossumError possum_set_instance_limits(PossumHandle *h, const PossumLimits *l) { L; use(h); U; return fail() ? SqliteError : NoError; }
PossumError possum_cleanup_snapshots(const PossumHandle *h) { L; use(h); U; return fail() ? IoError : NoError; }
size_t possum_single_write_buf(PossumHandle *h, PossumBuf k, PossumBuf v) { if (fail()) return -1; L; use(h); put(k.ptr, k.size, v.ptr, v.size); U; return v.size; }
PossumWriter *possum_new_writer(PossumHandle *h) { struct obj *o = calloc(1, sizeof *o); o->live = 1; L; use(h); demo_writers++; U; return (void *)o; }
bool possum_single_stat(const PossumHandle *h, PossumBuf k, PossumStat *s) { L; use(h); int i = find(k.ptr, k.size); U; if (i < 0) return 0; *s = st(i); return 1; }
PossumError possum_list_items(const PossumHandle *h, PossumBuf p, PossumItem **o, size_t *n) { L; use(h); U; return fail() ? SqliteError : list(p, o, n); }
PossumError possum_single_read_at(const PossumHandle *h, PossumBuf k, PossumBuf *b, uint64_t off) {
  L; use(h); demo_reading = 1; int i = find(k.ptr, k.size); U;
  if (demo_wait_for_drop) { // A slow read: the handle must stay.
    for (int t = 0; t < 50 && ((struct obj *)h)->live; t++) usleep(10000);
    L; use(h); U;
  }
  if (fail()) return IoError;
  if (i < 0) return NoSuchKey;
  b->size = rd(i, b, off); return NoError;
}
PossumError possum_single_delete(const PossumHandle *h, PossumBuf k, PossumStat *s) {
  L; use(h); int i = find(k.ptr, k.size); if (i >= 0) kv[i].used = 0; U;
  if (i < 0) return NoSuchKey;
  *s = st(i); return NoError;
}
PossumError possum_handle_move_prefix(PossumHandle *h, PossumBuf f, PossumBuf t) { L; use(h); U; return NoError; }
PossumError possum_handle_delete_prefix(PossumHandle *h, PossumBuf p) { L; use(h); U; return NoError; }
