// vcli: run the command line program itself on every record of a batch, and compare with the
// reference machine.
//
//   vcli PROGRAM RECORDS RESULT.json [--maxviol N]
//
// Records are separated by 0x1E.  A record is a list of parts separated by 0x1F:
//   I <text>                     an interactive session: what is typed
//   B <text> <input>             a script given as FILE; the text of standard input
//   A <args> <file>...           arguments separated by 0x1D, and files name=text
// and is judged by what the program prints, its exit status and whether it reports errors.
#include <limits.h>
#include "ref.hh"
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <set>
#include <unordered_set>

static std::string js(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
static std::vector<std::string> split(const std::string &s, char c) {
  std::vector<std::string> r;
  size_t p = 0;
  for (;;) { size_t e = s.find(c, p); r.push_back(s.substr(p, e == std::string::npos ? e : e - p)); if (e == std::string::npos) return r; p = e + 1; }
}

// ---- what is expected: pieces of text; a gap stands for any text
struct Piece { bool gap; std::string lit; };
struct Expect {
  std::vector<Piece> out;
  int status = 0;       // -1: any failure
  bool errors = false;  // something must be reported on the error output
  int marks = -1;       // number of " --> "
  std::map<std::string, std::string> files; // what the files written contain in the end
  void lit(const std::string &s) { if (out.size() && !out.back().gap) out.back().lit += s; else out.push_back({false, s}); }
  void gap() { if (out.empty() || !out.back().gap) out.push_back({true, ""}); }
  std::string show() const { std::string r; for (auto &p : out) r += p.gap ? std::string("\x01") : p.lit; for (auto &f : files) r += "\n[" + f.first + ": " + f.second + "]"; return r + "\n[status " + std::to_string(status) + (errors ? ", errors reported" : "") + "]"; }
};
static bool matchFrom(const std::vector<Piece> &ps, size_t i, const std::string &s, size_t p) {
  for (; i < ps.size(); i++) {
    if (ps[i].gap) {
      if (i + 1 == ps.size()) return true;
      const std::string &l = ps[i + 1].lit;
      for (size_t q = s.find(l, p); q != std::string::npos; q = s.find(l, q + 1)) if (matchFrom(ps, i + 2, s, q + l.size())) return true;
      return false;
    }
    if (s.compare(p, ps[i].lit.size(), ps[i].lit)) return false;
    p += ps[i].lit.size();
  }
  return p == s.size();
}
struct Got { std::string out, err; int status = 0; std::map<std::string, std::string> files; };
static bool good(const Expect &e, const Got &g) {
  if (!WIFEXITED(g.status)) return false;
  int st = WEXITSTATUS(g.status);
  if (e.status < 0 ? st == 0 || st > 2 : st != e.status) return false;
  if (e.errors && g.err.empty()) return false;
  if (e.marks >= 0) {
    int n = 0;
    for (size_t p = g.out.find(" --> "); p != std::string::npos; p = g.out.find(" --> ", p + 1)) n++;
    if (n != e.marks) return false;
  }
  for (auto &f : e.files) { auto i = g.files.find(f.first); if (i == g.files.end() || i->second != f.second) return false; }
  return matchFrom(e.out, 0, g.out, 0);
}

// ---- the reference: forms one after the other
struct Exit { int status; };
struct Front {
  ref::Machine m;
  Expect e;
  ref::V in; // standard input
  static inline std::unique_ptr<ref::Machine> scratch; // tells whether a text is complete
  Front() {
    in = ref::newPort(m, true, false);
    m.curIn = in;
    m.defprim("exit", 0, 1, [](ref::Machine &mm, ref::Args &a) -> ref::V {
      if (a.empty()) throw Exit{0};
      if (a[0]->t == ref::INT) { if (a[0]->i < 0 || a[0]->i > 255) throw ref::Unsupported{"exit status"}; throw Exit{(int)a[0]->i}; }
      if (a[0]->t == ref::FLO && a[0]->d >= 0 && a[0]->d <= 255 && a[0]->d == (int)a[0]->d) throw Exit{(int)a[0]->d};
      throw ref::Unsupported{"exit status"};
    });
  }
  // the text a value is shown as; false: unspecified
  bool text(ref::V v, bool wr, std::string &s) {
    using namespace ref;
    if (v->t == VALUES || m.hasUnspec(v)) return false;
    switch (v->t) { case CLO: case PRIM: case CONT: case MACRO: case HASH: case PROM: case PORT: case EOFO: case VARIABLE: case MODULE: return false; default: break; }
    s = m.show(v, wr);
    return true;
  }
  // one form; session: the value follows an arrow
  void form(ref::V f, bool session) {
    size_t d0 = m.disp.size();
    uint64_t t0 = m.throws;
    ref::V v = m.run(f);
    m.evals++;
    std::string shown = m.disp.substr(d0), s;
    bool noisy = m.throws != t0 || !v, known = v && text(v, !session, s);
    if (!v) { e.errors = true; m.wind = nullptr; }
    if (session) {
      e.gap();
      if (!noisy) e.lit(shown);
      if (noisy) e.gap();
      e.lit(" --> ");
      if (known) e.lit(s + "\n"); else e.gap();
      e.marks++;
      return;
    }
    if (noisy) e.gap(); else e.lit(shown);
    if (known) e.lit(s + "\n");
    else if (v) e.gap();
  }
  void session(const std::string &typed) {
    e.marks = 0;
    std::string buf;
    in->p->data = typed;
    size_t &p = in->p->pos; // the program may read from it, too
    try {
      while (p < typed.size()) {
        size_t n = typed.find('\n', p);
        n = n == std::string::npos ? typed.size() : n + 1;
        bool first = buf.empty();
        buf += typed.substr(p, n - p);
        p = n;
        std::vector<ref::V> fs;
        if (!scratch || scratch->heap.size() > 200000) scratch.reset(new ref::Machine());
        try { scratch->readall(buf); fs = m.readall(buf); }
        catch (ref::ReadEof &) { continue; }
        catch (ref::ReadFail &) {
          // what precedes the error may be evaluated or not, and it may be noticed only later
          if (!first) throw ref::Unsupported{"an error after the first line"};
          ref::Machine::RD r{buf, 0};
          m.ws(r);
          bool some = false;
          try { m.read(r); some = true; } catch (ref::ReadFail &) {}
          if (some) throw ref::Unsupported{"an error after a form"};
          e.errors = true;
          e.gap();
          buf.clear();
          continue;
        }
        for (ref::V f : fs) form(f, true);
        if (in->p->poisoned || in->p->closed) throw ref::Unsupported{"standard input after a malformed datum"};
        buf.clear();
      }
      e.gap();
    } catch (Exit &x) { e.gap(); e.status = x.status; }
  }
  void script(const std::string &text, const std::string &input) {
    in->p->data = input;
    std::vector<ref::V> fs;
    try { fs = m.readall(text); } catch (ref::ReadFail &) { e.status = -1; e.errors = true; return; }
    try { for (ref::V f : fs) form(f, false); }
    catch (Exit &x) {
      // what the form displayed before it asked for the end
      e.gap(); e.status = x.status;
    }
  }
  // what the options say: the first thing wrong or informative decides
  void args(const std::vector<std::string> &as, std::map<std::string, std::string> &files) {
    if (as.empty()) { session(""); return; }
    std::string file;
    bool have = false, debug = false;
    auto fail = [&] { e.status = -1; e.errors = true; e.gap(); };
    for (size_t i = 0; i < as.size(); i++) {
      const std::string &a = as[i];
      if (a == "--debug") { debug = true; continue; }
      if (a == "-h" || a == "--help") { e.gap(); e.lit("--help"); e.gap(); return; }
      if (a == "-v" || a == "--version") { e.gap(); e.lit("pscm"); e.gap(); return; }
      std::string f = a;
      if (a == "-s" || a == "--test") { if (i + 1 >= as.size()) return fail(); f = as[++i]; }
      if (have) return fail();
      file = f; have = true;
    }
    if (!have) return fail();
    if (!files.count(file)) return fail();
    script(files[file], "");
if (debug) { e.out.clear(); e.gap(); } // its output is not specified
  }
};

// ---- the program
static const char *g_exe;
static int g_in, g_out, g_err, g_null;
static void put(int fd, const std::string &s) {
  if (ftruncate(fd, 0)) exit(2);
  lseek(fd, 0, SEEK_SET);
  for (size_t p = 0; p < s.size();) { ssize_t n = write(fd, s.data() + p, s.size() - p); if (n <= 0) exit(2); p += (size_t)n; }
  lseek(fd, 0, SEEK_SET);
}
static std::string get(int fd) {
  std::string s;
  char b[65536];
  ssize_t n;
  lseek(fd, 0, SEEK_SET);
  while ((n = read(fd, b, sizeof b)) > 0 && s.size() < (8u << 20)) s.append(b, (size_t)n);
  return s;
}
static Got runCli(const std::vector<std::string> &args, const std::string &input, int secs, const std::map<std::string, std::string> &files) {
  Got g;
  for (auto &p : files) unlink(p.first.c_str());
  put(g_in, input); put(g_out, ""); put(g_err, "");
  pid_t p = vfork();
  if (p == 0) {
    dup2(g_in, 0); dup2(g_out, 1); dup2(g_err, 2);
    alarm((unsigned)secs);
    const char *av[16] = {g_exe};
    for (size_t i = 0; i < args.size() && i < 14; i++) av[i + 1] = args[i].c_str();
    execv(g_exe, (char **)av);
    _exit(127);
  }
  if (p < 0) { perror("vfork"); exit(2); }
  while (waitpid(p, &g.status, 0) < 0) if (errno != EINTR) exit(2);
  g.out = get(g_out); g.err = get(g_err);
  for (auto &p : files) { int fd = open(p.first.c_str(), O_RDONLY); if (fd >= 0) { g.files[p.first] = get(fd); close(fd); unlink(p.first.c_str()); } }
  return g;
}

static std::string filesOf(const Got &g) { std::string r; for (auto &f : g.files) r += "[" + f.first + ": " + f.second + "]\n"; return r; }
static void slowRef(int) { ref::tooSlow = 1; }

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  g_exe = argv[1];
  int maxviol = 5;
  for (int i = 4; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--maxviol")) maxviol = atoi(argv[i + 1]);
  g_in = memfd_create("in", MFD_CLOEXEC); g_out = memfd_create("out", MFD_CLOEXEC); g_err = memfd_create("err", MFD_CLOEXEC);
  if (g_in < 0 || g_out < 0 || g_err < 0) { perror("memfd"); return 2; }
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  rl.rlim_cur = rl.rlim_max = 3ull << 30;
  setrlimit(RLIMIT_AS, &rl);
  FILE *f = fopen(argv[2], "rb"), *res = fopen(argv[3], "w");
  if (!f || !res) { perror("files"); return 2; }
  std::string all;
  { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) all.append(b, n); fclose(f); }
  std::vector<std::string> recs;
  for (auto &r : split(all, '\x1e')) if (r.size()) recs.push_back(r);
  uint64_t compared = 0, skipped = 0, steps = 0, errs = 0, flaky = 0, evals = 0;
  std::map<std::string, uint64_t> why;
  std::set<size_t> outcomes;
  std::unordered_set<size_t> states;
  std::string viol, samples;
  int nviol = 0;
  size_t i = 0, sampleEvery = recs.size() / 3 + 1;
  for (; i < recs.size() && nviol < maxviol; i++) {
    std::vector<std::string> part = split(recs[i].substr(1), '\x1f');
    std::vector<std::string> args;
    std::string input;
    timespec ts0;
    clock_gettime(CLOCK_MONOTONIC, &ts0);
    Front *fr = new Front();
    struct itimerval it = {{0, 0}, {20, 0}}, off = {{0, 0}, {0, 0}};
    ref::tooSlow = 0;
    signal(SIGALRM, slowRef);
    setitimer(ITIMER_REAL, &it, nullptr);
    std::map<std::string, std::string> files;
    bool ok = true;
    try {
      if (recs[i][0] == 'I') { input = part[0]; fr->session(input); }
      else if (recs[i][0] == 'B') { files["script.scm"] = part[0]; args = {"script.scm"}; input = part.size() > 1 ? part[1] : ""; fr->script(part[0], input); }
      else {
        if (part[0].size()) args = split(part[0], '\x1d');
        for (size_t j = 1; j < part.size(); j++) { size_t q = part[j].find('='); files[part[j].substr(0, q)] = part[j].substr(q + 1); }
        fr->args(args, files);
      }
    }
    catch (ref::Unsupported &u) { ok = false; why[u.why]++; }
    catch (ref::StepLimit &) { ok = false; why["step limit"]++; }
    catch (std::bad_alloc &) { ok = false; why["memory"]++; if (getenv("VCLI_DEBUG")) fprintf(stderr, "MEM %s\n", recs[i].substr(0, 300).c_str()); }
    setitimer(ITIMER_REAL, &off, nullptr);
    Expect e = fr->e;
    for (auto &p : fr->m.files) if (p.first.find('/') == std::string::npos && !files.count(p.first)) e.files[p.first] = p.second->data;
    steps += fr->m.steps; evals += fr->m.evals;
    delete fr;
    if (!ok) { skipped++; continue; }
    for (auto &p : files) { FILE *o = fopen(p.first.c_str(), "wb"); if (!o) return 2; fwrite(p.second.data(), 1, p.second.size(), o); fclose(o); }
    compared++;
    states.insert(std::hash<std::string>()(recs[i]));
    outcomes.insert(std::hash<std::string>()(e.show()));
    if (e.errors) errs++;
    timespec t1, t2;
    clock_gettime(CLOCK_MONOTONIC, &t1);
    Got g = runCli(args, input, 20, e.files);
    clock_gettime(CLOCK_MONOTONIC, &t2);
    if (getenv("VCLI_DEBUG") && (t2.tv_sec - ts0.tv_sec) + 1e-9 * (t2.tv_nsec - ts0.tv_nsec) > 0.5) fprintf(stderr, "SLOW model %.2f program %.2f: %s\n", (t1.tv_sec - ts0.tv_sec) + 1e-9 * (t1.tv_nsec - ts0.tv_nsec), (t2.tv_sec - t1.tv_sec) + 1e-9 * (t2.tv_nsec - t1.tv_nsec), js(recs[i].substr(0, 150)).c_str());
    if (!good(e, g)) {
      Got h = runCli(args, input, 60, e.files);
      if (good(e, h)) flaky++;
      else {
        nviol++;
        if (viol.size()) viol += ",\n";
        std::string st = WIFSIGNALED(h.status) ? "signal " + std::to_string(WTERMSIG(h.status)) : "status " + std::to_string(WEXITSTATUS(h.status));
        viol += "{\"program\":" + js(recs[i]) + ",\"expected\":" + js(e.show()) + ",\"got\":" + js(h.out) + ",\"expected_stdout\":\"\",\"got_stdout\":" + js(filesOf(h) + h.err.substr(0, 2000)) + ",\"status\":" + js(st) + "}";
      }
    } else if (i % sampleEvery == sampleEvery / 2) { if (samples.size()) samples += ","; samples += js(recs[i] + " => " + e.show()); }
    for (auto &p : files) unlink(p.first.c_str());
  }
  std::string ws, oh;
  for (auto &p : why) { if (ws.size()) ws += ","; ws += js(p.first) + ":" + std::to_string(p.second); }
  for (size_t h : outcomes) { if (oh.size()) oh += ","; char b[32]; snprintf(b, 32, "\"%zx\"", h); oh += b; }
  typedef unsigned long long U;
  fprintf(res, "{\"programs\":%llu,\"compared\":%llu,\"skipped\":%llu,\"steps\":%llu,\"states\":%llu,\"errs\":%llu,\"flaky\":%llu,\"capped\":%s,\"why\":{%s},\"outcomes\":[%s],\"samples\":[%s],\"violations\":[%s]}\n",
          (U)i, (U)compared, (U)skipped, (U)steps, (U)states.size(), (U)errs, (U)flaky, i < recs.size() ? "true" : "false", ws.c_str(), oh.c_str(), samples.c_str(), viol.c_str());
  fclose(res);
  return 0;
}
