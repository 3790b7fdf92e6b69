// The functions of possum.h, each of which packs its arguments and calls the model in Go.
#include <possum.h>
#include <string.h>
#include <pthread.h>
#include "api.h"

extern void gomcApi(struct api_call *);

// Memory of listings and copies of the path, which the caller must free exactly once.
#define MAXTRACK 4096
static struct { void *p; size_t n; int freed; } track[MAXTRACK];
static int ntrack, double_frees;
static size_t path_size;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

void *__real_malloc(size_t);
void __real_free(void *);

static void add(void *p, size_t n) {
  if (ntrack < MAXTRACK) {
    track[ntrack].p = p;
    track[ntrack].n = n;
    track[ntrack].freed = 0;
    ntrack++;
  }
}

void *gomc_alloc(size_t n) {
  void *p = __real_malloc(n + 1);
  memset(p, 0xA5, n + 1);
  pthread_mutex_lock(&mu);
  add(p, n);
  pthread_mutex_unlock(&mu);
  return p;
}

void *__wrap_malloc(size_t n) {
  void *p = __real_malloc(n);
  if (path_size != 0 && n == path_size) {
    pthread_mutex_lock(&mu);
    add(p, n);
    pthread_mutex_unlock(&mu);
  }
  return p;
}

void __wrap_free(void *p) {
  pthread_mutex_lock(&mu);
  // What was freed keeps its place until the execution ends, so addresses are not used twice.
  for (int i = ntrack - 1; i >= 0; i--)
    if (track[i].p == p) {
      if (track[i].freed)
        double_frees++;
      track[i].freed = 1;
      memset(p, 0xDD, track[i].n);
      pthread_mutex_unlock(&mu);
      return;
    }
  pthread_mutex_unlock(&mu);
  __real_free(p);
}

void gomc_mem_reset(size_t psize) {
  pthread_mutex_lock(&mu);
  for (int i = 0; i < ntrack; i++)
    __real_free(track[i].p);
  ntrack = 0;
  double_frees = 0;
  path_size = psize;
  pthread_mutex_unlock(&mu);
}

// Numbers of live and of doubly freed pieces of memory.
void gomc_mem_stat(int *live, int *doubly) {
  pthread_mutex_lock(&mu);
  *live = 0;
  for (int i = 0; i < ntrack; i++)
    *live += !track[i].freed;
  *doubly = double_frees;
  pthread_mutex_unlock(&mu);
}

#define CALL(f) struct api_call c; memset(&c, 0, sizeof c); c.fn = f
#define GO gomcApi(&c)
#define BUF(to, b) c.to = (void *)(b).ptr, c.to##_size = (b).size

PossumHandle *possum_new(const char *path) {
  CALL(FN_NEW);
  c.key = (void *)path;
  c.key_size = strlen(path);
  GO;
  return c.out;
}

PossumError possum_start_new_value(PossumWriter *writer, PossumValueWriter **value) {
  CALL(FN_START_NEW_VALUE);
  c.obj = writer;
  GO;
  if (c.code == NoError) *value = c.out;
  return c.code;
}

RawFileHandle possum_value_writer_fd(PossumValueWriter *value) {
  CALL(FN_VALUE_WRITER_FD);
  c.obj = value;
  GO;
  return (RawFileHandle)c.n;
}

PossumError possum_writer_rename(PossumWriter *writer, const PossumValue *value, PossumBuf new_key) {
  CALL(FN_WRITER_RENAME);
  c.obj = writer;
  c.obj2 = (void *)value;
  BUF(key, new_key);
  GO;
  return c.code;
}

PossumError possum_reader_add(PossumReader *reader, PossumBuf key, const PossumValue **value) {
  CALL(FN_READER_ADD);
  c.obj = reader;
  BUF(key, key);
  GO;
  if (c.code == NoError) *value = c.out;
  return c.code;
}

PossumError possum_reader_begin(PossumReader *reader) {
  CALL(FN_READER_BEGIN);
  c.obj = reader;
  GO;
  return c.code;
}

void possum_reader_end(PossumReader *reader) {
  CALL(FN_READER_END);
  c.obj = reader;
  GO;
}

PossumError possum_value_read_at(const PossumValue *value, PossumBuf *buf, PossumOffset offset) {
  CALL(FN_VALUE_READ_AT);
  c.obj = (void *)value;
  BUF(val, *buf);
  c.num = offset;
  GO;
  if (c.code == NoError) buf->size = c.n;
  return c.code;
}

void possum_value_stat(const PossumValue *value, PossumStat *out_stat) {
  CALL(FN_VALUE_STAT);
  c.obj = (void *)value;
  GO;
  *out_stat = c.stat;
}

PossumError possum_reader_list_items(const PossumReader *reader, PossumBuf prefix, PossumItem **out_items,
                                     size_t *out_len) {
  CALL(FN_READER_LIST_ITEMS);
  c.obj = (void *)reader;
  BUF(key, prefix);
  GO;
  if (c.code == NoError) {
    *out_items = c.out;
    *out_len = c.n;
  }
  return c.code;
}

PossumError possum_writer_commit(PossumWriter *writer) {
  CALL(FN_WRITER_COMMIT);
  c.obj = writer;
  GO;
  return c.code;
}

PossumError possum_writer_stage(PossumWriter *writer, PossumBuf key, PossumValueWriter *value) {
  CALL(FN_WRITER_STAGE);
  c.obj = writer;
  c.obj2 = value;
  BUF(key, key);
  GO;
  return c.code;
}

void possum_drop(PossumHandle *handle) {
  CALL(FN_DROP);
  c.obj = handle;
  GO;
}

PossumError possum_set_instance_limits(PossumHandle *handle, const PossumLimits *limits) {
  CALL(FN_SET_INSTANCE_LIMITS);
  c.obj = handle;
  c.num = limits->max_value_length_sum;
  c.n = limits->disable_hole_punching;
  GO;
  return c.code;
}

PossumError possum_cleanup_snapshots(const PossumHandle *handle) {
  CALL(FN_CLEANUP_SNAPSHOTS);
  c.obj = (void *)handle;
  GO;
  return c.code;
}

size_t possum_single_write_buf(PossumHandle *handle, PossumBuf key, PossumBuf value) {
  CALL(FN_SINGLE_WRITE_BUF);
  c.obj = handle;
  BUF(key, key);
  BUF(val, value);
  GO;
  return c.n;
}

PossumWriter *possum_new_writer(PossumHandle *handle) {
  CALL(FN_NEW_WRITER);
  c.obj = handle;
  GO;
  return c.out;
}

bool possum_single_stat(const PossumHandle *handle, PossumBuf key, PossumStat *out_stat) {
  CALL(FN_SINGLE_STAT);
  c.obj = (void *)handle;
  BUF(key, key);
  GO;
  if (c.n) *out_stat = c.stat;
  return c.n;
}

PossumError possum_list_items(const PossumHandle *handle, PossumBuf prefix, PossumItem **out_list,
                              size_t *out_list_len) {
  CALL(FN_LIST_ITEMS);
  c.obj = (void *)handle;
  BUF(key, prefix);
  GO;
  if (c.code == NoError) {
    *out_list = c.out;
    *out_list_len = c.n;
  }
  return c.code;
}

PossumError possum_single_read_at(const PossumHandle *handle, PossumBuf key, PossumBuf *buf, uint64_t offset) {
  CALL(FN_SINGLE_READ_AT);
  c.obj = (void *)handle;
  BUF(key, key);
  BUF(val, *buf);
  c.num = offset;
  GO;
  if (c.code == NoError) buf->size = c.n;
  return c.code;
}

PossumError possum_single_delete(const PossumHandle *handle, PossumBuf key, PossumStat *stat) {
  CALL(FN_SINGLE_DELETE);
  c.obj = (void *)handle;
  BUF(key, key);
  GO;
  if (c.code == NoError && stat) *stat = c.stat;
  return c.code;
}

PossumError possum_reader_new(const PossumHandle *handle, PossumReader **reader) {
  CALL(FN_READER_NEW);
  c.obj = (void *)handle;
  GO;
  if (c.code == NoError) *reader = c.out;
  return c.code;
}

PossumError possum_handle_move_prefix(PossumHandle *handle, PossumBuf from, PossumBuf to) {
  CALL(FN_MOVE_PREFIX);
  c.obj = handle;
  BUF(key, from);
  BUF(val, to);
  GO;
  return c.code;
}

PossumError possum_handle_delete_prefix(PossumHandle *handle, PossumBuf prefix) {
  CALL(FN_DELETE_PREFIX);
  c.obj = handle;
  BUF(key, prefix);
  GO;
  return c.code;
}
