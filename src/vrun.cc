#include <execinfo.h>
// vrun: run every program of a batch on the real interpreter (one forked
// process per program) and on the reference machine, and compare.
//
//   vrun PROGRAMS RESULT.json [--maxviol N] [--slow-ms N] [--fast-ms N]
//
// PROGRAMS: records separated by 0x1E; a record is the program text, optionally
// followed by 0x1F and the expected output (then the reference is not used).
// In an expected output byte 0x01 matches any text up to the end of the line; an
// expected output that begins with 0x02 matches any output that ends in the rest.
// A second 0x1F separates the expected text on standard output.
// A program that begins with 0x1D and a letter is a text for the reader: S the data of a string, P one
// datum given to pscm_parse, F the data of a file; what was read is printed, "!" is a failure.
#include "pscm_api.h"
#include "throw.h"
#include "ref.hh"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <set>
#include <unordered_set>
#include <dirent.h>
#include <setjmp.h>
#include <sys/prctl.h>
#include <malloc.h>

SCM *eval(SCM *ast) { return pscm_eval(ast); }

// What the worker and the driver share: the programs of a batch and what they printed.
static const size_t PROG_MAX = 1 << 22, OUT_MAX = 1 << 23, MAXB = 64, ONE_OUT = 1 << 16;
struct Slot { uint32_t prog, out, len, dout, dlen, nalloc, ncoll; volatile uint32_t done; };
struct Shm {
  volatile uint32_t n, cur; // size of the batch; the program running
  volatile uint32_t used;
  Slot s[MAXB];
  char prog[PROG_MAX];
  char out[OUT_MAX];
};
static Shm *shm;
static SCM_List *volatile g_l; // volatile: must not live in the stack image that continuations restore

#include "memtmp.cc"

// results of the top-level forms / standard output of the program, in plain buffers
static char g_res[ONE_OUT], g_disp[ONE_OUT];
static uint32_t g_nres, g_ndisp;
static ssize_t ck_write(void *, const char *b, size_t n) {
  if (n < ONE_OUT - 1 - g_nres) { memcpy(g_res + g_nres, b, n); g_nres += (uint32_t)n; }
  return (ssize_t)n;
}
static ssize_t ck_owrite(void *, const char *b, size_t n) {
  if (n < ONE_OUT - 1 - g_ndisp) { memcpy(g_disp + g_ndisp, b, n); g_ndisp += (uint32_t)n; }
  return (ssize_t)n;
}

// where results and the program's standard output go; made before pscm_init so
// that the interpreter's port for standard output is this one too
static FILE *g_f, *g_of;
static void openOutputs() {
  cookie_io_functions_t io = {nullptr, ck_write, nullptr, nullptr};
  g_f = fopencookie(nullptr, "w", io);
  io.write = ck_owrite;
  g_of = fopencookie(nullptr, "w", io);
}
static int g_devnull = -1;
static char *g_himark; // end of the highest block the collector's heap has handed out
void *real_gc_alloc(TypeTag, size_t) __asm__("__real__Z8gc_alloc7TypeTagm");
void *wrap_gc_alloc(TypeTag t, size_t n) __asm__("__wrap__Z8gc_alloc7TypeTagm");
// A program may start with \x1c SCHEDULE \x1c: when collections are forced.  SCHEDULE is
// C (never; allocations are counted), A (at every allocation), or a list of the
// numbers of the allocations at which to collect.
static int g_sched;               // 0: no schedule, 'C', 'A', 'L', 'M' (memory is measured)
static int64_t g_live;            // bytes in blocks that were handed out and not reclaimed
static uint32_t g_loops;          // of mode N
static uint32_t g_nalloc, g_at[16], g_nat, g_ncoll;
static SweepFn g_sweep[GC_TYPE_COUNT];
// What is reclaimed is filled with a pattern, so that any later use shows.
static std::map<char *, size_t> *g_blocks; // handed out and not reclaimed
static void badHeap(const char *what) {
  if (g_nres + 40 < ONE_OUT) g_nres += (uint32_t)snprintf(g_res + g_nres, 40, "!! %s\n", what);
}
static void poison(GCBlock *b) {
  if (b->size < 16) return;
  char *p = (char *)block_to_obj(b);
  static const char pat[16] = {(char)0xdb, (char)0xdb, (char)0xdb, (char)0xdb, (char)0xdb, (char)0xdb, (char)0xdb, (char)0xdb, (char)0xdb, (char)0xdb, (char)0xdb, (char)0xdb, (char)0xdb, (char)0xdb, (char)0xdb, (char)0xdb};
  if (!memcmp(p, pat, 16)) return;
  if (g_sweep[b->type_tag]) g_sweep[b->type_tag](b);
  g_live -= 16 + (int64_t)b->size;
  if (g_blocks) g_blocks->erase(p);
  memset(p, 0xdb, b->size);
}
static const char *takeSchedule(const char *prog) {
  g_blocks = nullptr;
  g_sched = 0; g_nalloc = g_nat = g_ncoll = 0;
  if (prog[0] != '\x1c') return prog;
  g_sched = prog[1] == 'R' ? 'A' : prog[1] == 'C' || prog[1] == 'A' || prog[1] == 'M' || prog[1] == 'N' ? prog[1] : 'L';
  g_live = 0;
  g_blocks = g_sched == 'L' ? new std::map<char *, size_t> : nullptr;
  if (g_sched == 'N') { g_loops = (uint32_t)atoi(prog + 2); return strchr(prog + 1, '\x1c') + 1; }
  prog++;
  for (; *prog != '\x1c'; prog++)
    if (g_sched == 'L' && isdigit(*prog) && g_nat < 16) { g_at[g_nat++] = (uint32_t)strtoul(prog, (char **)&prog, 10); prog--; }
  for (int i = 0; i < GC_TYPE_COUNT; i++) { g_sweep[i] = sweep_fns[i]; sweep_fns[i] = poison; }
  return prog + 1;
}
static void __attribute__((noinline)) collect() { g_ncoll++; run_gc(); }
void *wrap_gc_alloc(TypeTag t, size_t n) {
  if (g_sched) {
    g_nalloc++;
    bool hit = g_sched == 'A';
    if (g_sched == 'L') for (uint32_t i = 0; i < g_nat; i++) hit |= g_at[i] == g_nalloc;
    if (hit) collect();
  }
  char *p = (char *)real_gc_alloc(t, n);
  if (p + n > g_himark) g_himark = p + n;
  if (g_blocks) {
    size_t size = obj_to_block(p)->size;
    if (size < n) badHeap("a block is too small");
    auto next = g_blocks->lower_bound(p - 15);
    if (next != g_blocks->end() && next->first < p + size + 16) badHeap("a block in use is handed out");
    if (next != g_blocks->begin() && (--next)->first + next->second + 16 > p) badHeap("a block in use is handed out");
    for (size_t i = 0; i < n; i++) if (p[i]) { badHeap("a block is not cleared"); break; }
    (*g_blocks)[p] = size;
  }
  if (g_sched) g_live += 16 + (int64_t)obj_to_block(p)->size;
  return p;
}

// the files and descriptors a program left behind
static void cleanFiles(const char *prog) {
  if (!strstr(prog, "file") && !(prog[0] == '\x1d' && (prog[1] == 'F' || prog[1] == 'L' || prog[1] == 'V' || prog[1] == 'A' || prog[1] == 'W'))) return;
  close_range(3, ~0U, 0);
  DIR *d = opendir(".");
  if (!d) return;
  while (struct dirent *e = readdir(d)) {
    if (e->d_type == DT_REG) unlink(e->d_name);
    else if (e->d_type == DT_DIR && e->d_name[0] != '.') {
      if (DIR *s = opendir(e->d_name)) {
        while (struct dirent *g = readdir(s)) if (g->d_type == DT_REG) unlink((std::string(e->d_name) + "/" + g->d_name).c_str());
        closedir(s);
      }
    }
  }
  closedir(d);
}
// A program may start with \x1dW NAME \x19 TEXT \x19 ... \x1d: files that are there when it starts.
template <class F> static const char *takeFiles(const char *prog, F f) {
  if (prog[0] != '\x1d' || prog[1] != 'W') return prog;
  const char *p = prog + 2, *end = strchr(p, '\x1d');
  while (p < end) {
    const char *e = strchr(p, '\x19'), *x = strchr(e + 1, '\x19');
    if (!x || x > end) x = end;
    f(std::string(p, e), std::string(e + 1, x));
    p = x + (x < end);
  }
  return end + 1;
}
// a value that is nested too deeply to be printed is an error of print
static SCM *showBody(void *v) { print_ast((SCM *)v, true); return scm_nil(); }
static SCM *showHandler(void *, SCM *, SCM *) { printf("..."); return scm_nil(); }
static void show(SCM *v) { scm_c_catch(scm_bool_true(), showBody, v, showHandler, nullptr); }
static SCM *parseBody(void *t) { g_l = parse_string((const char *)t); return scm_bool_true(); }
static SCM *parseHandler(void *, SCM *, SCM *) { return nullptr; }
// where the reader says that a datum and the parts of it are
static void where(SCM *v) {
  static const char *abbr[] = {"quote", "quasiquote", "unquote", "unquote-splicing"};
  if (is_pair(v) && is_sym(cast<SCM_List>(v)->data)) {
    SCM_List *l = cast<SCM_List>(v);
    for (auto a : abbr) if (!strcmp(cast<SCM_Symbol>(l->data)->data, a) && l->next && !l->next->next && !l->next->is_dotted) { printf("'"); where(l->next->data); return; }
  }
  // single objects, and keywords, have no place of their own
  if (is_nil(v) || is_bool(v) || (is_sym(v) && cast<SCM_Symbol>(v)->data[0] == ':')) { printf("?"); return; }
  const char *l = get_source_location_str(v);
  printf("%s", l ? l : "-");
  if (is_pair(v)) {
    printf("(");
    for (SCM_List *p = cast<SCM_List>(v); p; p = p->next) { if (p != cast<SCM_List>(v)) printf(p->is_dotted ? " . " : " "); where(p->data); }
    printf(")");
  }
  if (is_vector(v)) {
    printf("#(");
    for (size_t i = 0; i < cast<SCM_Vector>(v)->length; i++) { if (i) printf(" "); where(cast<SCM_Vector>(v)->elements[i]); }
    printf(")");
  }
}
// \x1dV PLACES \x19 TEXT \x19 FILE \x19 TEXT...: the message of an error in the text has to begin with one of the places (file:line:column)
static const char *g_places;
static void place(const char *m) {
  char at[64], file[40];
  int l = 0, c = 0;
  if (sscanf(m, "%39[^:]:%d:%d: ", file, &l, &c) == 3 && (snprintf(at, sizeof at, " %s:%d:%d ", file, l, c), strstr(g_places, at))) printf("ok\n");
  else printf("%s\n", m);
}
static void runPlaces(const char *prog, FILE *f) {
  static char places[1 << 16];
  const char *e = strchr(prog, '\x19');
  snprintf(places, sizeof places, " %.*s ", (int)(e - prog), prog);
  g_places = places;
  std::string name = "text.scm";
  FILE *of = stdout;
  while (e) {
    const char *n = strchr(e + 1, '\x19');
    FILE *o = fopen(name.c_str(), "w");
    fwrite(e + 1, 1, n ? n - e - 1 : strlen(e + 1), o);
    fclose(o);
    if (!n) break;
    e = strchr(n + 1, '\x19');
    name.assign(n + 1, e - n - 1);
  }
  g_l = pscm_parse_file("text.scm");
  while (g_l) {
    SCM *x = g_l->data;
    g_l = g_l->next;
    SCM *v = pscm_eval(x);
    fflush(of);
    stdout = f;
    if (!v) { const char *m = pscm_get_last_error_message(); place(m ? m : ""); }
    else if (is_str(v)) place(cast<SCM_String>(v)->data);
    fflush(f);
    stdout = of;
  }
}
static char *g_guard;
static const size_t GUARDED = 16384;
static void guardInit() {
  g_guard = (char *)mmap(nullptr, GUARDED + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (g_guard == MAP_FAILED) g_guard = nullptr;
  else mprotect(g_guard + GUARDED, 4096, PROT_NONE);
}
static void runReader(const char *prog, FILE *f) {
  // the text ends where a page that cannot be read starts
  const char *text = prog + 2;
  size_t n = strlen(text) + 1;
  if (prog[1] != 'F' && prog[1] != 'L' && n <= GUARDED && g_guard) text = (const char *)memcpy(g_guard + GUARDED - n, text, n);
  bool ok = true, places = prog[1] == 'K' || prog[1] == 'L';
  g_l = nullptr;
  FILE *se = stderr;
  char *said = nullptr;
  size_t nsaid = 0;
  if (places) stderr = open_memstream(&said, &nsaid); // where the text cannot be read is said there
  if (prog[1] == 'P') { SCM *v = pscm_parse(text); if (v) g_l = make_list(v); else ok = false; }
  else if (prog[1] == 'F' || prog[1] == 'L') {
    FILE *o = fopen("text.scm", "w");
    fputs(text, o);
    fclose(o);
    g_l = pscm_parse_file("text.scm");
    ok = g_l != nullptr;
  }
  else ok = scm_c_catch(scm_bool_true(), parseBody, (void *)text, parseHandler, nullptr) != nullptr;
  stdout = f;
  if (places) { fclose(stderr); stderr = se; }
  if (!ok && places) {
    char *e = strstr(said, ": parse error");
    if (e) { *e = 0; char *b = strrchr(said, '\n'); printf("! %s\n", b ? b + 1 : said); }
    else printf("!\n");
  }
  else if (!ok) printf("!\n");
  else for (; g_l; g_l = g_l->next) { if (prog[1] == 'K' || prog[1] == 'L') where(g_l->data); else show(g_l->data); printf("\n"); }
  free(said);
  fflush(f);
}

// ---- histories of calls of the embedding interface (see Machine::runApi)
static const char *volatile g_step; // the next step
static char g_kind;
static SCM *hostEval(SCM *code) { // an embedding whose procedures use the interpreter themselves
  SCM *v = pscm_eval_string(cast<SCM_String>(code)->data);
  return v ? v : wrap(make_sym("null"));
}
static void report(SCM *v) {
  FILE *of = stdout;
  fflush(of);
  stdout = g_f;
  if (!v) {
    const char *k = pscm_get_last_error_key(), *m = pscm_get_last_error_message();
    printf("!%s", k ? k : "?");
    if (k && m && !builtinKey(k)) printf(" %s", m);
  } else show(v);
  printf("\n");
  fflush(g_f);
  stdout = of;
}
static void writeText(const char *t) {
  FILE *o = fopen("text.scm", "w");
  fputs(t, o);
  fclose(o);
}
#include "host.hh"
static void runApi(const char *prog) {
  hostTypes();
  pscm_c_define_gsubr("host-eval", 1, 0, 0, (SCM * (*)(void)) hostEval);
  g_step = prog;
  while (g_step) {
    const char *e = strchr(g_step, '\x1b'), *x = strchr(g_step, '\x1a');
    if (!e) e = g_step + strlen(g_step);
    if (!x || x > e) x = e;
    static char text[65536];
    size_t n = (size_t)(x - g_step - 1);
    memcpy(text, g_step + 1, n);
    text[n] = 0;
    g_kind = g_step[0];
    g_step = *e ? e + 1 : nullptr;
    if (hostStep(g_kind, text)) continue;
    switch (g_kind) {
    case 's': { // any outcome but a failure that is not reported
      pscm_eval_string("(throw 'nothing)");
      SCM *v = pscm_eval_string(text);
      const char *k = pscm_get_last_error_key();
      if (v || !k || strcmp(k, "nothing")) report(v);
      else { fputs("!silent\n", g_f); fflush(g_f); }
      break;
    }
    case 'S': report(pscm_eval_string(text)); break;
    case 'T': {
      g_l = make_list(pscm_parse(text));
      if (g_l->data) report(pscm_eval(g_l->data));
      report(g_l->data ? pscm_eval(g_l->data) : nullptr);
      break;
    }
    case 'E': case 'e': { SCM *a = pscm_parse(text); report(a ? pscm_eval(a) : nullptr); break; }
    case 'F': case 'f': if (strcmp(text, "missing")) { writeText(text); report(pscm_eval_file("text.scm")); } else report(pscm_eval_file("missing")); break;
    case 'P': report(pscm_parse(text)); break;
    case 'G': {
      const char *file = "text.scm";
      if (strcmp(text, "missing")) writeText(text); else file = "missing";
      g_l = pscm_parse_file(file);
      if (!g_l) { report(nullptr); break; }
      FILE *of = stdout;
      stdout = g_f;
      for (; g_l; g_l = g_l->next) { show(g_l->data); printf(" "); }
      printf("\n");
      fflush(g_f);
      stdout = of;
      break;
    }
    case 'N': {
      bool r[6] = {!pscm_eval(nullptr), !pscm_eval_string(nullptr), !pscm_eval_file(nullptr), !pscm_parse(nullptr), !pscm_parse_file(nullptr), !pscm_parse(nullptr)};
      for (bool b : r) fputs(b ? "!\n" : "not null\n", g_f);
      fflush(g_f);
      break;
    }
    }
  }
}

// Evaluate the body again and again: once the memory in use after a collection is
// the same after n and after 2n rounds, it stays so for ever.
static void __attribute__((noinline)) clearStack() { volatile char a[65536]; memset((void *)a, 0, sizeof a); asm volatile("" ::"r"(a) : "memory"); }
static void __attribute__((noinline)) rounds(const char *body, int n) {
  for (int i = 0; i < n; i++) {
    for (g_l = parse_string(body); g_l; ) { SCM *e = g_l->data; g_l = g_l->next; pscm_eval(e); }
    if (i % 4 == 3) run_gc();
  }
}
static void measure(int64_t *m) {
  fflush(stdout);
  g_l = nullptr;
  clearStack();
  run_gc();
  m[0] = g_live;
  m[1] = (int64_t)mallinfo2().uordblks;
}
static void runMemory(const char *prog, FILE *f) {
  std::string pre(prog), body;
  size_t b = pre.find('\x1b');
  if (b != std::string::npos) { body = pre.substr(b + 1); pre.resize(b); }
  rounds(pre.c_str(), 1);
  const int N = 64;
  int64_t m[4][2];
  rounds(body.c_str(), 24);
  for (int i = 0; i < 4; i++) { rounds(body.c_str(), N); measure(m[i]); g_ndisp = 0; }
  // what leaks grows in every interval; less than 4 bytes per round counts as constant: the counters and caches of libc
  char line[200];
  for (int k = 0; k < 2; k++) {
    int64_t d = std::min({m[1][k] - m[0][k], m[2][k] - m[1][k], m[3][k] - m[2][k]});
    if (getenv("VRUN_DEBUG")) fprintf(stderr, "%s: %ld %ld %ld %ld\n", k ? "malloc" : "heap", (long)m[0][k], (long)m[1][k], (long)m[2][k], (long)m[3][k]);
    fprintf(f, "%s %s\n", k ? "malloc" : "heap", d >= 4 * N ? "grows" : "bounded");
  }
  fflush(f);
}

// A loop in the program itself, collected when the interpreter decides to: the
// memory taken from the system does not grow.
static void runLong(const char *prog, FILE *f) {
  std::string pre(prog), body;
  size_t b = pre.find('\x1b');
  if (b != std::string::npos) { body = pre.substr(b + 1); pre.resize(b); }
  rounds(pre.c_str(), 1);
  body = "(do ((loop-count 0 (+ loop-count 1))) ((= loop-count " + std::to_string(g_loops) + ")) " + body + ")";
  size_t heap0 = (size_t)(g_heap_end - g_heap_start);
  char *brk[4];
  for (int i = 0; i < 4; i++) {
    g_l = parse_string(body.c_str());
    SCM *v = pscm_eval(g_l->data);
    if (!v) fprintf(f, "the loop ended early\n");
    fflush(stdout); g_ndisp = 0;
    brk[i] = (char *)sbrk(0);
  }
  if (getenv("VRUN_DEBUG")) fprintf(stderr, "heap: %zu -> %zu, malloc: %ld %ld %ld\n", heap0, (size_t)(g_heap_end - g_heap_start), (long)(brk[1] - brk[0]), (long)(brk[2] - brk[0]), (long)(brk[3] - brk[0]));
  fprintf(f, "heap %s\nmalloc %s\n", (size_t)(g_heap_end - g_heap_start) > 2 * heap0 ? "grows" : "bounded", brk[3] - brk[1] > (8 << 20) ? "grows" : "bounded");
  fflush(f);
}

static void runOne(const char *prog, int ms) {
  prog = takeSchedule(prog);
  cleanFiles(prog);
  prog = takeFiles(prog, [](const std::string &name, const std::string &text) {
    if (name.find('/') != std::string::npos) mkdir(name.substr(0, name.find('/')).c_str(), 0755);
    if (FILE *o = fopen(name.c_str(), "w")) { fputs(text.c_str(), o); fclose(o); }
  });
  struct itimerval it = {{0, 0}, {ms / 1000, (ms % 1000) * 1000}};
  setitimer(ITIMER_REAL, &it, nullptr);
  FILE *f = g_f, *of = g_of;
  g_nres = g_ndisp = 0;
  stdout = of;
  long m;
  gc_set_stack_top(&m);
  if (prog[0] == '\x1d' && prog[1] == 'A') { runApi(prog + 2); return; }
  if (prog[0] == '\x1d' && prog[1] == 'V') { runPlaces(prog + 2, f); return; }
  if (prog[0] == '\x1d') { runReader(prog, f); return; }
  if (g_sched == 'N') { runLong(prog, f); return; }
  if (g_sched == 'M') { runMemory(prog, f); return; }
  g_l = parse_string(prog);
  while (g_l) {
    SCM *e = g_l->data;
    g_l = g_l->next;
    SCM *v = pscm_eval(e);
    fflush(of);
    stdout = f;
    if (!v) {
      const char *k = pscm_get_last_error_key();
      printf("!%s\n", k ? k : "?");
    } else {
      show(v);
      printf("\n");
    }
    fflush(f);
    stdout = of;
  }
}

// ---- putting a process back into its initial state without forking again ----
// The binary is static: its whole mutable state is .data/.bss, the brk heap and
// the collector's heap.  After a program these are copied back.  Any mismatch
// found this way is decided by a second run in a process of its own.
extern "C" char __data_start, _end;
struct Region { char *at; size_t n; char *copy; };
static Region g_reg[3];
static char *g_brk0, *g_gcstart, *g_gcend, *g_him0;
static char *anon(size_t n) { return (char *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
static char *g_heap0;
static void snapshot() {
  char *p = (char *)malloc(100000);
  free(p);
  g_gcstart = g_heap_start; g_gcend = g_heap_end; g_him0 = g_himark;
  g_brk0 = (char *)sbrk(0);
  g_reg[0] = {&__data_start, (size_t)(&_end - &__data_start), nullptr};
  g_reg[1] = {g_heap0, (size_t)(p + 64 - g_heap0), nullptr};
  g_reg[2] = {g_gcstart, (size_t)(g_him0 - g_gcstart), nullptr};
  for (auto &r : g_reg) r.copy = anon(r.n + 1);
  if (getenv("VRUN_DEBUG")) fprintf(stderr, "regions %p+%zu %p+%zu %p+%zu brk %p\n", g_reg[0].at, g_reg[0].n, g_reg[1].at, g_reg[1].n, g_reg[2].at, g_reg[2].n, g_brk0);
  for (auto &r : g_reg) memcpy(r.copy, r.at, r.n);
}
// false: the process must be given up
static bool restore() {
  if (getenv("VRUN_DEBUG")) fprintf(stderr, "restore %p %p %p %p him %p %p\n", g_heap_start, g_gcstart, g_heap_end, g_gcend, g_himark, g_him0);
  if (g_heap_start != g_gcstart || g_heap_end != g_gcend || g_himark > g_him0 + (3 << 20) || g_himark + 65536 > g_gcend) return false;
  memset(g_him0, 0, (size_t)(g_himark + 65536 - g_him0));
  bool grown = (char *)sbrk(0) != g_brk0;
  Region r[3] = {g_reg[0], g_reg[1], g_reg[2]};
  char *b = g_brk0;
  memcpy(r[0].at, r[0].copy, r[0].n);
  memcpy(r[1].at, r[1].copy, r[1].n);
  memcpy(r[2].at, r[2].copy, r[2].n);
  if (grown && brk(b)) return false;
  return true;
}

struct Outcome { std::string out, disp; int status = 0; bool done = false; bool timeout = false; uint32_t nalloc = 0, ncoll = 0; };

#ifdef VRUN_ASAN
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:detect_stack_use_after_return=0:handle_segv=0:handle_abort=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=2000:quarantine_size_mb=8:detect_odr_violation=0";
}
#endif
static int g_req[2], g_rep[2];
static void worker(int ms) {
  signal(SIGALRM, SIG_DFL);
  if (getenv("VRUN_DEBUG")) signal(SIGSEGV, [](int) { void *b[60]; int n = backtrace(b, 60); backtrace_symbols_fd(b, n, 2); signal(SIGSEGV, SIG_DFL); raise(SIGSEGV); });
  if (g_devnull >= 0 && !getenv("VRUN_DEBUG")) { dup2(g_devnull, 0); dup2(g_devnull, 1); dup2(g_devnull, 2); }
  bool one = shm->n == shm->cur + 1;
#ifndef VRUN_ASAN
  if (!one) snapshot();
#endif
  for (;;) {
    runOne(shm->prog + shm->s[shm->cur].prog, ms);
    Slot &s = shm->s[shm->cur];
    if (shm->used + g_nres + g_ndisp < OUT_MAX) {
      s.out = shm->used; s.len = g_nres;
      memcpy(shm->out + shm->used, g_res, g_nres); shm->used = shm->used + g_nres;
      s.dout = shm->used; s.dlen = g_ndisp;
      memcpy(shm->out + shm->used, g_disp, g_ndisp); shm->used = shm->used + g_ndisp;
      s.nalloc = g_nalloc; s.ncoll = g_ncoll;
      s.done = 1;
    }
    shm->cur = shm->cur + 1;
    #ifdef VRUN_ASAN
    _exit(0);
#endif
    if (shm->cur >= shm->n || !restore()) _exit(0);
  }
}
// The zygote: a process holding nothing but the initialised interpreter; it forks
// the workers (the driver, with its large heap, never forks).
static void zygote() {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int ms;
  while (read(g_req[0], &ms, sizeof ms) == (ssize_t)sizeof ms) {
    pid_t p = fork();
    if (p == 0) worker(ms);
    int st = -1;
    if (p > 0) while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (write(g_rep[1], &st, sizeof st) != (ssize_t)sizeof st) _exit(1);
  }
  _exit(0);
}

static std::vector<Outcome> runBatch(const std::vector<std::string> &progs, int ms) {
  size_t at = 0;
  for (size_t i = 0; i < progs.size(); i++) {
    shm->s[i] = Slot();
    shm->s[i].prog = (uint32_t)at;
    memcpy(shm->prog + at, progs[i].c_str(), progs[i].size() + 1);
    at += progs[i].size() + 1;
  }
  shm->n = (uint32_t)progs.size();
  shm->used = 0;
  shm->cur = 0;
  std::vector<Outcome> os(progs.size());
  while (shm->cur < shm->n) {
    uint32_t first = shm->cur;
    int st = -1;
    if (write(g_req[1], &ms, sizeof ms) != (ssize_t)sizeof ms || read(g_rep[0], &st, sizeof st) != (ssize_t)sizeof st) { fprintf(stderr, "zygote died\n"); exit(3); }
    if (shm->cur < shm->n && (shm->cur == first || st != 0)) { // it died in shm->cur
      os[shm->cur].status = st;
      os[shm->cur].timeout = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
      shm->cur = shm->cur + 1;
    }
  }
  for (size_t i = 0; i < progs.size(); i++) {
    Slot &s = shm->s[i];
    os[i].done = s.done;
    os[i].nalloc = s.nalloc; os[i].ncoll = s.ncoll;
    if (s.done) { os[i].out.assign(shm->out + s.out, s.len); os[i].disp.assign(shm->out + s.dout, s.dlen); }
  }
  return os;
}
static Outcome runImpl(const std::string &prog, int ms) { return runBatch({prog}, ms)[0]; }

static bool lineMatch(const std::string &e, const std::string &g) {
  if (e == "\x02") return g != "!silent"; // anything
  if (e.size() && e[0] == '!' && g.size() && g[0] == '!') {
    std::string a = e.substr(1), b = g.substr(1);
    if (a == "*") return true;
    if (a == "\x01") return builtinKey(b);
    return a == b || (builtinKey(a) && builtinKey(b));
  }
  size_t w = e.find('\x01');
  if (w == std::string::npos) return e == g;
  if (g.compare(0, w, e, 0, w) != 0) return false;
  if (g.size() > w && g[w] == '!') return false; // an error is never an acceptable unspecified value
  return true;
}
static bool match(const std::string &e0, const std::string &g0) {
  std::string e = e0, g = g0;
  if (e.size() && e[0] == '\x02' && e[1] != '\n') { // anything, ending in these lines
    e = e.substr(1);
    size_t n = 0, p = g.size();
    for (char c : e) n += c == '\n';
    while (p > 0) { if (g[p - 1] == '\n' && n-- == 0) break; p--; }
    g = g.substr(p);
  }
  size_t i = 0, j = 0;
  while (i < e.size() || j < g.size()) {
    size_t ie = e.find('\n', i), je = g.find('\n', j);
    if (ie == std::string::npos) ie = e.size();
    if (je == std::string::npos) je = g.size();
    if (i > e.size() || j > g.size()) return false;
    if ((i >= e.size()) != (j >= g.size())) return false;
    if (!lineMatch(e.substr(i, ie - i), g.substr(j, je - j))) return false;
    i = ie + 1; j = je + 1;
  }
  return true;
}
// addresses differ between schedules
static std::string noAddr(const std::string &s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    o += s[i];
    if (s[i] == 'x' && i && s[i - 1] == '0') while (i + 1 < s.size() && isxdigit((unsigned char)s[i + 1])) i++;
  }
  return o;
}
static std::string js(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
static std::string stat2s(const Outcome &o) {
  char b[64];
  if (o.timeout) return "timeout";
  if (WIFSIGNALED(o.status)) snprintf(b, 64, "signal %d", WTERMSIG(o.status));
  else if (!o.done) snprintf(b, 64, "exited early %d", WEXITSTATUS(o.status));
  else return "ok";
  return b;
}

static sigjmp_buf g_slow;
static void slowRef(int) { // stops between two steps, or after some more seconds wherever it is
  if (!ref::tooSlow) ref::tooSlow = 1; else siglongjmp(g_slow, 1);
}
// what the reader is to deliver
static std::string readerExp(ref::Machine &m, const std::string &prog) {
  std::string text = prog.substr(2), out;
  try {
    std::vector<ref::V> v = m.readall(text);
    if (prog[1] == 'P' && v.size() != 1) return "!\n";
    if (prog[1] == 'F' && v.empty()) return "!\n";
    for (ref::V x : v) { out += m.show(x, true) + "\n"; m.steps++; }
  } catch (ref::ReadFail &) { return "!\n"; }
  return out;
}

int main(int argc, char **argv) {
  mallopt(M_MMAP_MAX, 0); mallopt(M_TOP_PAD, 4 << 20);
  g_heap0 = (char *)(((uintptr_t)&_end + 4095) & ~(uintptr_t)4095);
  if (FILE *mf = fopen("/proc/self/maps", "r")) {
    char l[512];
    while (fgets(l, sizeof l, mf)) if (strstr(l, "[heap]")) { g_heap0 = (char *)strtoull(l, nullptr, 16); break; }
    fclose(mf);
  }
  if (!getenv("VRUN_NOASLR")) {
    int p = personality(0xffffffff);
    if (p != -1 && personality((unsigned long)p | ADDR_NO_RANDOMIZE) != -1) { setenv("VRUN_NOASLR", "1", 1); execv("/proc/self/exe", argv); }
  }
  if (argc < 3) return 2;
  int maxviol = 5, slow = 15000, fast = 2500;
  for (int i = 3; i + 1 < argc; i += 2) {
    if (!strcmp(argv[i], "--maxviol")) maxviol = atoi(argv[i + 1]);
    if (!strcmp(argv[i], "--slow-ms")) slow = atoi(argv[i + 1]);
    if (!strcmp(argv[i], "--fast-ms")) fast = atoi(argv[i + 1]);
    if (!strcmp(argv[i], "--stack-kb")) { // a small stack is used up sooner
      struct rlimit rs;
      getrlimit(RLIMIT_STACK, &rs);
      rs.rlim_cur = (rlim_t)atoi(argv[i + 1]) << 10;
      setrlimit(RLIMIT_STACK, &rs);
    }
  }
  g_devnull = open("/dev/null", O_RDWR);
  shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  rl.rlim_cur = rl.rlim_max = 3ull << 30;
#ifndef VRUN_ASAN
  setrlimit(RLIMIT_AS, &rl);
#endif
  long mark;
  gc_set_stack_top(&mark);
  gc_register_root((SCM **)&g_l, "vrun");
  openOutputs();
  guardInit();
  FILE *realout = stdout;
  stdout = g_of;
  pscm_init();
  scm_current_output_port();
  stdout = realout;
  if (pipe(g_req) || pipe(g_rep)) return 2;
  pid_t zp = fork();
  if (zp == 0) { close(g_req[1]); close(g_rep[0]); zygote(); }
  close(g_req[0]); close(g_rep[1]);
  FILE *f = fopen(argv[1], "rb");
  if (!f) { perror(argv[1]); return 2; }
  FILE *res = fopen(argv[2], "w");
  std::string all;
  { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) all.append(b, n); fclose(f); }

  std::unordered_set<size_t> states;
  uint64_t evals = 0, programs = 0, compared = 0, skipped = 0, steps = 0, callcc = 0, conts = 0, throws = 0, winds = 0, errs = 0, flaky = 0;
  uint64_t gcprogs = 0, gcallocs = 0, schedules = 0, collections = 0;
  std::map<std::string, uint64_t> why;
  std::set<size_t> outcomes;
  std::string viol, samples;
  int nviol = 0;
  size_t pos = 0;
  std::vector<std::string> recs;
  while (pos < all.size()) {
    size_t e = all.find('\x1e', pos);
    if (e == std::string::npos) e = all.size();
    if (e > pos) recs.push_back(all.substr(pos, e - pos));
    pos = e + 1;
  }
  all.clear(); all.shrink_to_fit();
  size_t sampleEvery = recs.size() / 3 + 1;
  bool capped = false;
  struct Item { size_t i; std::string prog, exp, disp; bool cmpOut; };
  std::vector<Item> batch;
  size_t bytes = 0;
  auto flush = [&] {
    std::vector<std::string> ps;
    for (auto &it : batch) ps.push_back(it.prog);
    std::vector<Outcome> os;
    if (ps.size()) os = runBatch(ps, fast);
    for (size_t k = 0; k < batch.size() && !capped; k++) {
      Item &it = batch[k];
      Outcome &o = os[k];
      collections += o.ncoll;
      auto ok = [&](const Outcome &o) {
        if (it.prog[0] == '\x1c' && it.prog[1] != 'L' && it.prog[1] != 'R') return o.done && noAddr(it.exp) == noAddr(o.out) && noAddr(it.disp) == noAddr(o.disp);
        return o.done && match(it.exp, o.out) && (!it.cmpOut || o.disp == it.disp);
      };
      bool good = ok(o);
      if (!good) {
        Outcome o2 = runImpl(it.prog, slow);
        bool good2 = ok(o2);
        if (good2) { flaky++; if (getenv("VRUN_FLAKY")) fprintf(stderr, "FLAKY %s\n%s---\n%s\n", it.prog.c_str(), o.out.c_str(), o2.out.c_str()); }
        else {
          nviol++;
          if (viol.size()) viol += ",\n";
          viol += "{\"program\":" + js(it.prog) + ",\"expected\":" + js(it.exp) + ",\"got\":" + js(o2.out) + ",\"expected_stdout\":" + js(it.disp) + ",\"got_stdout\":" + js(o2.disp) + ",\"status\":" + js(stat2s(o2)) + "}";
          if (nviol >= maxviol) capped = true;
        }
      } else if (it.i % sampleEvery == sampleEvery / 2) {
        if (samples.size()) samples += ",";
        samples += js(it.prog + " => " + it.exp);
      }
    }
    batch.clear(); bytes = 0;
  };
  for (size_t i = 0; i < recs.size() && !capped; i++) {
    programs++;
    std::string prog = recs[i], exp, disp;
    if (prog.size() >= PROG_MAX / 2) { skipped++; why["too long"]++; continue; }
    bool cmpOut = false;
    if (prog[0] == '\x1c' && prog[1] == 'E') { // every schedule with up to K collections, and the one with all of them
      int K = prog[2] - '0';
      size_t lim = K > 1 ? (size_t)atoi(prog.c_str() + 4) : 0;
      prog = prog.substr(prog.find('\x1c', 1) + 1);
      Outcome base = runImpl("\x1c""C\x1c" + prog, slow);
      if (!base.done) { skipped++; why[stat2s(base)]++; continue; }
      uint32_t N = base.nalloc;
      gcprogs++; gcallocs += N;
      states.insert(std::hash<std::string>()(prog));
      auto sched = [&](const std::string &sc) {
        std::string p = "\x1c" + sc + "\x1c" + prog;
        compared++; schedules++;
        if (batch.size() >= MAXB || bytes + p.size() + 1 > PROG_MAX / 2) flush();
        bytes += p.size() + 1;
        batch.push_back({i, p, base.out, base.disp, true});
      };
      outcomes.insert(std::hash<std::string>()(base.out));
      sched("A");
      if (K >= 1) for (uint32_t a = 1; a <= N && !capped; a++) sched(std::to_string(a));
      if (K >= 2 && N <= lim) for (uint32_t a = 1; a < N && !capped; a++) for (uint32_t b = a + 1; b <= N && !capped; b++) sched(std::to_string(a) + "," + std::to_string(b));
      continue;
    }
    size_t us = prog.find('\x1f');
    if (us != std::string::npos) {
      exp = prog.substr(us + 1); prog.resize(us);
      us = exp.find('\x1f');
      if (us != std::string::npos) { disp = exp.substr(us + 1); exp.resize(us); cmpOut = true; }
    }
    else {
      ref::Machine *m = new ref::Machine();
      bool ok = true;
      m->onTop = [&] { states.insert(std::hash<std::string>()(prog) * 1000003u + m->topIndex * 7919u + std::hash<std::string>()(m->out)); };
      struct itimerval it = {{10, 0}, {4, 0}}, off = {{0, 0}, {0, 0}};
      ref::tooSlow = 0;
      if (sigsetjmp(g_slow, 1)) { skipped++; why["reference too slow"]++; continue; }
      signal(SIGALRM, slowRef);
      setitimer(ITIMER_REAL, &it, nullptr);
      try {
        const char *body = prog[0] == '\x1c' ? strchr(prog.c_str() + 1, '\x1c') + 1 : prog.c_str();
        if (body[0] == '\x1d' && body[1] == 'A') { exp = m->runApi(body + 2); states.insert(std::hash<std::string>()(prog)); evals++; }
        else if (prog[0] == '\x1d' && prog[1] != 'W') { exp = readerExp(*m, prog); states.insert(std::hash<std::string>()(prog)); evals++; }
        else {
          const char *p = prog.c_str();
          if (*p == '\x1c') p = strchr(p + 1, '\x1c') + 1;
          p = takeFiles(p, [&](const std::string &name, const std::string &text) {
            m->files[name] = std::make_shared<ref::FileT>();
            m->files[name]->data = text;
          });
          exp = m->runProgram(p);
        }
      }
      catch (ref::Unsupported &u) { ok = false; why[u.why]++; }
      catch (ref::StepLimit &) { ok = false; why["step limit"]++; }
      setitimer(ITIMER_REAL, &off, nullptr);
      cmpOut = !m->throws; disp = m->disp;
      steps += m->steps; evals += m->evals; callcc += m->callcc; conts += m->contcalls; throws += m->throws; winds += m->windsrun;
      delete m;
      if (!ok) { skipped++; continue; }
    }
    compared++;
    outcomes.insert(std::hash<std::string>()(exp));
    if (exp.find('!') != std::string::npos) errs++;
    if (batch.size() >= MAXB || bytes + prog.size() + 1 > PROG_MAX / 2) flush();
    bytes += prog.size() + 1;
    batch.push_back({i, prog, exp, disp, cmpOut});
  }
  if (!capped) flush();
  std::string ws;
  for (auto &p : why) { if (ws.size()) ws += ","; ws += js(p.first) + ":" + std::to_string(p.second); }
  std::string oh;
  for (size_t h : outcomes) { if (oh.size()) oh += ","; char b[32]; snprintf(b, 32, "\"%zx\"", h); oh += b; }
  std::string extra;
  if (gcprogs) extra = "\"extra\":{\"programs_under_collection\":" + std::to_string(gcprogs) + ",\"allocation_points\":" + std::to_string(gcallocs) + ",\"schedules\":" + std::to_string(schedules) + ",\"collections\":" + std::to_string(collections) + "},";
  fprintf(res,
          "{\"programs\":%llu,\"compared\":%llu,\"skipped\":%llu,\"steps\":%llu,\"states\":%llu,\"evals\":%llu,\"callcc\":%llu,\"contcalls\":%llu,\"throws\":%llu,"
          "\"winds\":%llu,\"errs\":%llu,\"flaky\":%llu,%s\"capped\":%s,\"why\":{%s},\"outcomes\":[%s],\"samples\":[%s],\"violations\":[%s]}\n",
          (unsigned long long)programs, (unsigned long long)compared, (unsigned long long)skipped, (unsigned long long)steps,
          (unsigned long long)states.size(), (unsigned long long)evals, (unsigned long long)callcc, (unsigned long long)conts, (unsigned long long)throws, (unsigned long long)winds, (unsigned long long)errs,
          (unsigned long long)flaky, extra.c_str(), capped ? "true" : "false", ws.c_str(), oh.c_str(), samples.c_str(), viol.c_str());
  fclose(res);
  return 0;
}
