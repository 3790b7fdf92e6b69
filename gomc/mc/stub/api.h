#include <stddef.h>
enum {
  FN_NEW = 1, FN_START_NEW_VALUE, FN_VALUE_WRITER_FD, FN_WRITER_RENAME, FN_READER_ADD, FN_READER_BEGIN,
  FN_READER_END, FN_VALUE_READ_AT, FN_VALUE_STAT, FN_READER_LIST_ITEMS, FN_WRITER_COMMIT, FN_WRITER_STAGE,
  FN_DROP, FN_SET_INSTANCE_LIMITS, FN_CLEANUP_SNAPSHOTS, FN_SINGLE_WRITE_BUF, FN_NEW_WRITER, FN_SINGLE_STAT,
  FN_LIST_ITEMS, FN_SINGLE_READ_AT, FN_SINGLE_DELETE, FN_READER_NEW, FN_MOVE_PREFIX, FN_DELETE_PREFIX
};
struct api_call {
  int fn;
  void *obj, *obj2;
  void *key, *val;
  size_t key_size, val_size;
  uint64_t num;
  PossumError code;
  void *out;
  size_t n;
  PossumStat stat;
};
void *gomc_alloc(size_t);
void gomc_mem_reset(size_t);
void gomc_mem_stat(int *, int *);
