// tmpfile: an in-memory file without system calls (the interpreter makes one for every call it evaluates)
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
struct MemF { char *p; size_t n, cap, pos; };
static ssize_t mf_read(void *c, char *b, size_t n) {
  MemF *m = (MemF *)c;
  if (m->pos >= m->n) return 0;
  if (n > m->n - m->pos) n = m->n - m->pos;
  memcpy(b, m->p + m->pos, n); m->pos += n;
  return (ssize_t)n;
}
static ssize_t mf_write(void *c, const char *b, size_t n) {
  MemF *m = (MemF *)c;
  if (m->pos + n > m->cap) { m->cap = (m->pos + n) * 2 + 64; m->p = (char *)realloc(m->p, m->cap); }
  if (m->pos > m->n) memset(m->p + m->n, 0, m->pos - m->n);
  memcpy(m->p + m->pos, b, n); m->pos += n;
  if (m->pos > m->n) m->n = m->pos;
  return (ssize_t)n;
}
static int mf_seek(void *c, off64_t *o, int w) {
  MemF *m = (MemF *)c;
  off64_t t = *o + (w == SEEK_CUR ? (off64_t)m->pos : w == SEEK_END ? (off64_t)m->n : 0);
  if (t < 0) return -1;
  m->pos = (size_t)t; *o = t;
  return 0;
}
static int mf_close(void *c) { free(((MemF *)c)->p); free(c); return 0; }
extern "C" FILE *__wrap_tmpfile(void) {
  cookie_io_functions_t io = {mf_read, mf_write, mf_seek, mf_close};
  return fopencookie(calloc(1, sizeof(MemF)), "w+", io);
}
