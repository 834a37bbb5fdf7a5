// Reference semantics for the Scheme dialect of pscm (R4RS/R5RS core + the
// Guile 1.8 procedures pscm documents).  A small-step abstract machine:
//   configuration = (control, environment, continuation, wind list, store)
// Continuations are immutable linked frames, so re-entry is trivially right.
// It shares no code with the implementation under test.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

static bool builtinKey(const std::string &k) {
  // keys of the errors of the interpreter itself
  static const std::set<std::string> ks = {"error", "wrong-type-arg", "wrong-number-of-args", "out-of-range", "misc-error",
                                           "unbound-variable", "numerical-overflow", "read-error", "syntax-error", "system-error", "parse-error"};
  return ks.count(k) > 0;
}
namespace ref {

enum T : uint8_t { NIL, BOOL, INT, RAT, FLO, CHR, STR, SYM, PAIR, VEC, PRIM, CLO, CONT, MACRO, HASH, PROM,
                   UNSPEC, EOFO, PORT, VALUES, VARIABLE, UNDEF, MODULE, SMOB };

struct Obj;
typedef Obj *V;
struct Env;
struct K;
struct Wind;
struct Machine;
struct Mod;

typedef std::vector<V> Args;
typedef V (*PrimFn)(Machine &, Args &);
typedef V (*HostFn)(Machine &, K *, V);

struct HashT {
  std::vector<std::pair<V, V>> e; // (key . handle pair) in insertion order
};
struct FileT { std::string data; int readers = 0, writers = 0; bool dirty = false; }; // dirty: something may not have reached the file yet
struct PortT {
  bool input = false, output = false, closed = false;
  bool poisoned = false; // a datum on it was malformed
  bool std = false;      // the standard output
  std::string data;
  size_t pos = 0;
  std::shared_ptr<FileT> file;
  V soft = nullptr, peeked = nullptr;
};

struct Obj {
  T t;
  bool flag = false;        // PROM forced; CLO has-rest; BOOL value
  bool dirty = false;
  int64_t i = 0, j = 0;     // INT / RAT num,den / CHR / PRIM arity min,max
  double d = 0;
  V a = nullptr, b = nullptr; // PAIR; CLO params/body; PROM value/expr
  std::string s;
  std::vector<V> v;
  Env *env = nullptr;
  K *k = nullptr;
  Wind *w = nullptr;
  PrimFn fn = nullptr;
  std::shared_ptr<HashT> h;
  std::shared_ptr<PortT> p;
  Mod *mod = nullptr; // MODULE; CONT: the current module
  std::shared_ptr<std::array<int64_t, 4>> smob; // SMOB: its data (i: its type)
};

struct Env {
  std::vector<std::pair<V, V>> b;
  Env *up;
  Mod *mod = nullptr; // the top level of a module (that of the initial module is a null Env)
};

// A module: its own bindings, the names it exports (none: everything is visible), the modules it
// uses (latest first), the names that load a module when they are looked up, and its binder.
struct Mod {
  V obj = nullptr, name = nullptr;
  Env *env = nullptr;
  std::unordered_map<V, V> tab;
  std::vector<V> own; // the names in tab
  std::unordered_set<V> exports;
  std::deque<Mod *> uses;
  std::deque<std::pair<V, std::vector<V>>> autoload;
  V binder = nullptr;
  bool failed = false, searching = false;
};

struct Wind {
  V in, out;
  Wind *next;
  int depth;
  K *k; // continuation of the dynamic-wind form: its dynamic context
};

enum KK : uint8_t { K_HALT, K_IF, K_SEQ, K_ARGS, K_SET, K_DEF, K_AND, K_OR, K_COND, K_COND_ARROW, K_CASE, K_LET, K_LETSTAR,
                    K_LETREC, K_DO_INIT, K_DO_TEST, K_DO_STEP, K_DW_IN, K_DW_BODY, K_DW_OUT, K_CATCH, K_UNWIND, K_REWIND,
                    K_MAP, K_FOREACH, K_CWV, K_FORCE, K_QQ, K_MACRO, K_MACDEF, K_DROP, K_CWOS, K_HASHFOLD, K_DOBODY, K_VECQQ, K_SOFTCH, K_CWF, K_LOAD, K_USE, K_DEFMODULE, K_AUTOLOAD, K_BINDER, K_MODMAP, K_HOST, K_WITHMOD };

struct K {
  KK kind;
  int depth;
  K *next;
  V x = nullptr, y = nullptr, z = nullptr, acc = nullptr, f = nullptr;
  Env *env = nullptr;
  Wind *w = nullptr, *w2 = nullptr;
  K *k2 = nullptr;
  int64_t n = 0, m = 0;
  HostFn host = nullptr; // K_HOST
  std::shared_ptr<std::vector<V>> vec;
};

struct SchemeErr { V key, args; };
struct Unsupported { std::string why; };
struct ReadFail : Unsupported { ReadFail(const char *w) : Unsupported{std::string("malformed: ") + w} {} };
struct ReadEof : ReadFail { ReadEof() : ReadFail("ends early") {} }; // the text ends before the datum does
struct StepLimit {};

inline volatile int tooSlow = 0; // set by a timer
struct Machine {
  std::deque<Obj> heap;
  std::deque<Env> envs;
  std::deque<K> ks;
  std::deque<Wind> winds;
  std::deque<Mod> modules;
  std::map<std::string, Mod *> modtab;
  std::unordered_set<V> builtins, macros; // macros: names the initial module has defined as macros
  Mod *root = nullptr, *cur = nullptr; // the initial and the current module
  int inBinder = 0;
  uint64_t loads = 0, uses = 0;
  std::unordered_map<std::string, V> syms;
  V nil, tru, fls, unspec, eofo, undef;
  Env *global;
  std::unordered_map<V, V> gtab;
  Wind *wind = nullptr;
  std::string out, disp;
  uint64_t steps = 0, limit = 2000000;
  uint64_t evals = 0, callcc = 0, contcalls = 0, throws = 0, windsrun = 0;
  int gens = 0;
  V curIn = nullptr, curOut = nullptr, stdoutPort = nullptr; // null: the standard ones
  std::map<std::string, std::shared_ptr<FileT>> files; // files the program has written

  // machine registers
  bool evalMode = true;
  V cx = nullptr;
  Env *ce = nullptr;
  K *ck = nullptr;
  V cv = nullptr;

  Machine() { init(); }

  V mk(T t) { heap.emplace_back(); heap.back().t = t; return &heap.back(); }
  V num(int64_t i) { V o = mk(INT); o->i = i; return o; }
  V rat(__int128 n, __int128 d) {
    if (d == 0) throw err("error");
    if (d < 0) { n = -n; d = -d; }
    __int128 a = n < 0 ? -n : n, b = d;
    while (b) { __int128 t = a % b; a = b; b = t; }
    if (a) { n /= a; d /= a; }
    if (n > INT64_MAX || n < INT64_MIN || d > INT64_MAX) throw Unsupported{"overflow"};
    if (d == 1) return num((int64_t)n);
    V o = mk(RAT); o->i = (int64_t)n; o->j = (int64_t)d; return o;
  }
  V flo(double d) { V o = mk(FLO); o->d = d; return o; }
  V chr(int c) { V o = mk(CHR); o->i = c & 255; return o; }
  V str(const std::string &s) { V o = mk(STR); o->s = s; return o; }
  V boolv(bool b) { return b ? tru : fls; }
  V sym(const std::string &s) {
    auto it = syms.find(s);
    if (it != syms.end()) return it->second;
    V o = mk(SYM); o->s = s; syms[s] = o; return o;
  }
  V cons(V a, V b) { V o = mk(PAIR); o->a = a; o->b = b; return o; }
  V list(const std::vector<V> &xs, V tail = nullptr) {
    V r = tail ? tail : nil;
    for (size_t i = xs.size(); i-- > 0;) r = cons(xs[i], r);
    return r;
  }
  SchemeErr err(const char *key, V args = nullptr) { return SchemeErr{sym(key), args ? args : list({unspec})}; }
  // Recursion without end is an error; what handles it has some room of its own.
  bool reserve = false;
  K *mkk(KK kind, K *next) {
    ks.emplace_back(); K *k = &ks.back(); k->kind = kind; k->next = next; k->depth = next ? next->depth + 1 : 0;
    if (k->depth < 8000) reserve = false;
    else if (k->depth > (reserve ? 14000 : 10000)) { reserve = true; throw err("error"); }
    return k;
  }
  Env *mkenv(Env *up) { envs.emplace_back(); envs.back().up = up; return &envs.back(); }

  static bool truthy(V v) { return !(v->t == BOOL && !v->flag); }
  static bool isnum(V v) { return v->t == INT || v->t == RAT || v->t == FLO; }
  static bool isproc(V v) { return v->t == CLO || v->t == PRIM || v->t == CONT; }

  // ---- environment
  V *lookup(Env *e, V s) {
    for (; e && !e->mod; e = e->up)
      for (auto &p : e->b)
        if (p.first == s) return &p.second;
    return find(e ? e->mod : root, s);
  }
  // the variable a name stands for in a module: that of the module, else one of the modules it uses,
  // else a global one (for the initial module, a built-in name comes before those of used modules)
  V *find(Mod *m, V s) {
    if (m != root) {
      auto own = m->tab.find(s);
      if (own != m->tab.end()) return &own->second;
      if (V *p = inUses(m, s)) return p;
    }
    auto it = gtab.find(s);
    if (it != gtab.end()) {
      if (m == root && root->uses.size() && builtins.count(s) && inUses(m, s)) throw Unsupported{"a built-in name in the initial module"};
      return &it->second;
    }
    return m == root ? inUses(m, s) : nullptr;
  }
  V *inUses(Mod *m, V s) {
    for (Mod *u : m->uses) if (V *p = visible(u, s)) return p;
    return nullptr;
  }
  V *visible(Mod *u, V s) {
    if (u->exports.empty()) {
      auto own = u->tab.find(s);
      return own != u->tab.end() ? &own->second : nullptr;
    }
    if (!u->exports.count(s) || u->searching) return nullptr;
    if (builtins.count(s) && !u->tab.count(s)) throw Unsupported{"export of a built-in name"};
    u->searching = true;
    V *p = find(u, s);
    u->searching = false;
    return p;
  }
  bool lazy(Mod *m, V s) { for (auto &a : m->autoload) for (V x : a.second) if (x == s) return true; return false; }
  Env *top() { return cur == root ? nullptr : cur->env; }
  bool isTop(Env *e) { return !e || e->mod; }
  void defineTop(Env *e, V s, V v) {
    if (!e) { if (v->t == MACRO) macros.insert(s); gtab[s] = v; return; }
    if (!e->mod->tab.count(s)) e->mod->own.push_back(s);
    e->mod->tab[s] = v;
  }
  void define(Env *e, V s, V v) { if (isTop(e)) defineTop(e, s, v); else bind(e, s, v); }
  Mod *newModule(V name) {
    modules.emplace_back();
    Mod *m = &modules.back();
    m->name = name;
    m->obj = mk(MODULE); m->obj->mod = m;
    m->env = mkenv(nullptr); m->env->mod = m;
    if (name) modtab[show(name, true)] = m;
    return m;
  }
  // the module of that name, loaded from its file when it is first asked for
  void resolve(V name, K *k) {
    V l = name;
    std::string file;
    for (; l->t == PAIR && l->a->t == SYM; l = l->b) file += (file.empty() ? "" : "/") + l->a->s;
    if (l->t != NIL || file.empty()) throw Unsupported{"name of a module"};
    uses++;
    auto it = modtab.find(show(name, true));
    if (it != modtab.end()) {
      if (it->second->failed) throw Unsupported{"a module whose load failed"};
      ret(it->second->obj, k); return;
    }
    file += ".scm";
    std::string path;
    auto lp = gtab.find(sym("%load-path"));
    if (lp != gtab.end())
      for (l = lp->second; l->t == PAIR && path.empty(); l = l->b)
        if (l->a->t == STR) {
          std::string d = l->a->s + (l->a->s.size() && l->a->s.back() != '/' ? "/" : "") + file;
          if (files.count(d)) path = d;
        }
    if (path.empty()) path = file;
    auto f = files.find(path);
    if (f == files.end()) throw Unsupported{"a module without a file"};
    if (f->second->dirty) throw Unsupported{"a file open for output is read"};
    loads++;
    Mod *m = newModule(name);
    std::vector<V> fs;
    try { fs = readall(f->second->data); } catch (ReadFail &) { m->failed = true; throw err("error"); }
    K *n = mkk(K_LOAD, k);
    n->vec = std::make_shared<std::vector<V>>(fs); n->n = 0; n->x = cur->obj; n->y = m->obj;
    cur = m;
    ret(unspec, n);
  }
  void moduleOptions(Mod *m, V opts, K *k) {
    while (opts->t == PAIR) {
      V kw = opts->a;
      opts = opts->b;
      if (kw->t != SYM) throw Unsupported{"option of define-module"};
      if (kw->s == ":use-module" && opts->t == PAIR) {
        K *f = mkk(K_DEFMODULE, k);
        f->x = opts->b; f->y = m->obj;
        resolve(opts->a, f);
        return;
      }
      if (kw->s == ":export" || kw->s == ":autoload") {
        V from = nullptr;
        if (kw->s == ":autoload") { if (opts->t != PAIR) throw Unsupported{"option of define-module"}; from = opts->a; opts = opts->b; }
        std::vector<V> names;
        if (opts->t == PAIR && (opts->a->t == PAIR || opts->a->t == NIL)) { for (V l = opts->a; l->t == PAIR; l = l->b) names.push_back(l->a); opts = opts->b; }
        else for (; opts->t == PAIR && opts->a->t == SYM && opts->a->s[0] != ':'; opts = opts->b) names.push_back(opts->a);
        if (from) m->autoload.push_front({from, names});
        else for (V n : names) exportName(m, n);
        continue;
      }
      throw Unsupported{"option of define-module"};
    }
    cur = m;
    ret(unspec, k);
  }
  void exportName(Mod *m, V s) {
    if (s->t != SYM || ((lazy(m, s) || m->binder) && !find(m, s))) throw Unsupported{"export"};
    m->exports.insert(s);
  }
  void bind(Env *e, V s, V v) {
    for (auto &p : e->b) if (p.first == s) { p.second = v; return; }
    e->b.push_back({s, v});
  }

  // ---- the host (refhost.hh)
  std::vector<std::pair<std::string, int64_t>> smobTypes;
  std::map<std::string, PrimFn> hostFns;
  bool hostHandler = false;
  V hostPrim(const char *n, int mn, int mx, PrimFn f);
  V smob(int64_t type, int64_t a, int64_t b, int64_t c);
  std::string showSmob(V v, bool wr);
  bool equalSmob(V a, V b);
  void applySmob(V f, Args &a, K *k);
  void initHost();
  bool hostStep(char kind, const std::string &t);

  void init();
  void defprim(const char *n, int mn, int mx, PrimFn f) {
    V o = mk(PRIM); o->s = n; o->i = mn; o->j = mx; o->fn = f;
    gtab[sym(n)] = o;
    builtins.insert(sym(n));
  }

  // ---- reader
  struct RD { const std::string &s; size_t p; int depth = 0; };
  void atomEnd(RD &r);
  void ws(RD &r) {
    for (;;) {
      while (r.p < r.s.size() && isspace((unsigned char)r.s[r.p])) r.p++;
      if (r.p < r.s.size() && r.s[r.p] == ';') { while (r.p < r.s.size() && r.s[r.p] != '\n') r.p++; continue; }
      return;
    }
  }
  V read(RD &r);
  V atom(const std::string &t);
  std::vector<V> readall(const std::string &s) {
    RD r{s, 0};
    std::vector<V> v;
    for (;;) { ws(r); if (r.p >= s.size()) break; v.push_back(read(r)); }
    return v;
  }

  // ---- printer
  bool prQuasi = false, prUnq = false;
  std::string show(V v, bool wr);
  int showDepth = 0;
  std::string numstr(V v);
  int visited = 0; // nodes seen by the traversal in progress (circular data)
  bool hasUnspec(V v, int depth = 0) {
    if (!depth) visited = 0;
    if (depth > 2000 || ++visited > 500000) throw Unsupported{"circular print"};
    switch (v->t) {
    case UNSPEC: case UNDEF: return true;
    case PAIR: for (; v->t == PAIR; v = v->b) { if (++visited > 500000) throw Unsupported{"circular print"}; if (hasUnspec(v->a, depth + 1)) return true; } return hasUnspec(v, depth + 1);
    case VEC: for (V x : v->v) if (hasUnspec(x, depth + 1)) return true; return false;
    case VALUES: for (V x : v->v) if (hasUnspec(x, depth + 1)) return true; return false;
    default: return false;
    }
  }

  // ---- equality
  bool eqv(V a, V b);
  bool eq(V a, V b) { return eqv(a, b); }
  bool equal(V a, V b, int depth = 0);
  int numcmp(V a, V b);

  // ---- machine
  void ret(V v, K *k) { evalMode = false; cv = v; ck = k; }
  void ev(V x, Env *e, K *k) { evalMode = true; cx = x; ce = e; ck = k; }
  void evseq(V body, Env *e, K *k) {
    if (body->t != PAIR) { ret(unspec, k); return; }
    if (body->b->t == PAIR) { K *n = mkk(K_SEQ, k); n->x = body->b; n->env = e; ev(body->a, e, n); }
    else ev(body->a, e, k);
  }
  void stepEval();
  void autoload(Mod *m, V s, K *k);
  void stepRet();
  void apply(V f, Args &a, K *k);
  void doThrow(V key, V args, K *k);
  void rewindTo(Wind *target, K *k, V val);
  void unwindNext(K *frame);
  void qq(V x, int depth, Env *e, K *k);
  void expandLet(V form, Env *e, K *k);
  V run(V form);
  std::function<void()> onTop;
  std::string runProgram(const std::string &src);
  std::string runApi(const std::string &src);
  void outcome(V v, bool withMessage);
  size_t topIndex = 0;
  std::vector<V> forms;
  bool applying_error = false;
  K *throwAt = nullptr;
  std::vector<V> apiForms;
  size_t apiAt = 0;
  char apiKind = 0;
};

// ------------------------------------------------------------------ reader
inline V Machine::atom(const std::string &t) {
  // number?
  size_t i = 0;
  bool neg = false;
  if (i < t.size() && (t[i] == '-' || t[i] == '+')) { neg = t[i] == '-'; i++; }
  bool digits = i < t.size(), dot = false, slash = false, ex = false, anyd = false, bad = false;
  for (size_t j = i; j < t.size(); j++) {
    if (isdigit((unsigned char)t[j])) anyd = true;
    else if (t[j] == '.' && !dot && !slash && !ex) dot = true;
    else if (t[j] == '/' && !slash && !dot && !ex && anyd) slash = true;
    else if ((t[j] == 'e' || t[j] == 'E') && anyd && !ex && !slash) {
      ex = true;
      if (j + 1 < t.size() && (t[j + 1] == '-' || t[j + 1] == '+')) j++;
      if (j + 1 >= t.size() || !isdigit((unsigned char)t[j + 1])) { bad = true; break; }
    }
    else { bad = true; break; }
  }
  if (digits && anyd && !bad) {
    if (dot || ex) return flo(strtod(t.c_str(), nullptr));
    if (slash) {
      size_t sl = t.find('/');
      if (sl + 1 < t.size()) {
        errno = 0;
        strtoll(t.substr(i, sl - i).c_str(), nullptr, 10); long long dn = strtoll(t.substr(sl + 1).c_str(), nullptr, 10);
        if (errno) throw Unsupported{"bignum"};
        if (!dn) throw ReadFail("zero denominator");
        return rat((neg ? -1 : 1) * atoll(t.substr(i, sl - i).c_str()), dn);
      }
    } else {
      errno = 0;
      int64_t v = strtoll(t.c_str(), nullptr, 10);
      if (errno) throw Unsupported{"bignum"};
      return num(v);
    }
  }
  return sym(t);
}
// What ends a number, symbol or character literal.  A quote, backquote or comma does so here, but the
// reports do not say whether it does: a text in which one directly follows an atom is left open.
inline bool isDelim(char c) { return isspace((unsigned char)c) || strchr("()\";'`,", c) != nullptr; } // and the end of the text
inline void Machine::atomEnd(RD &r) {
  if (r.p < r.s.size() && strchr("'`,", r.s[r.p])) throw Unsupported{"reader: quote after an atom"};
}
inline V Machine::read(RD &r) {
  ws(r);
  const std::string &s = r.s;
  if (r.p >= s.size()) throw ReadEof();
  struct Deep { int &n; Deep(int &d) : n(d) { if (++n > 9000) { --n; throw Unsupported{"reader: depth"}; } } ~Deep() { --n; } } deep(r.depth);
  char c = s[r.p];
  if (c == ')') throw ReadFail("unbalanced )");
  if (c == '(' || (c == '#' && r.p + 1 < s.size() && s[r.p + 1] == '(')) {
    bool vec = c == '#';
    r.p += vec ? 2 : 1;
    std::vector<V> xs;
    V tail = nil;
    for (;;) {
      ws(r);
      if (r.p >= s.size()) throw ReadEof();
      if (s[r.p] == ')') { r.p++; break; }
      if (s[r.p] == '.' && (r.p + 1 >= s.size() || isDelim(s[r.p + 1]))) {
        if (r.p + 1 < s.size() && strchr("'`,", s[r.p + 1])) throw Unsupported{"reader: quote after a dot"};
        if (vec || xs.empty()) throw ReadFail("dot");
        r.p++;
        ws(r);
        if (r.p < s.size() && s[r.p] == ')') throw ReadFail("nothing after the dot");
        tail = read(r); ws(r);
        if (r.p >= s.size()) throw ReadEof();
        if (s[r.p] != ')') throw ReadFail("more after the tail");
        r.p++; break;
      }
      xs.push_back(read(r));
    }
    if (vec) { V o = mk(VEC); o->v = xs; return o; }
    return list(xs, tail);
  }
  if (c == '\'') { r.p++; V x = read(r); return list({sym("quote"), x}); }
  if (c == '`') { r.p++; V x = read(r); return list({sym("quasiquote"), x}); }
  if (c == ',') {
    r.p++;
    if (r.p < s.size() && s[r.p] == '@') { r.p++; V x = read(r); return list({sym("unquote-splicing"), x}); }
    V x = read(r); return list({sym("unquote"), x});
  }
  if (c == '"') {
    std::string o; r.p++;
    bool open = false;
    for (;;) {
      if (r.p >= s.size()) throw ReadEof();
      if (s[r.p] == '"') break;
      if (s[r.p] == '\\') {
        if (++r.p >= s.size()) throw ReadEof();
        char e = s[r.p];
        if (e == 'n') o += '\n'; else if (e == 't') o += '\t'; else if (e == 'r') o += '\r';
        else if (e == '"' || e == '\\') o += e;
        else if (e >= '0' && e <= '3' && r.p + 2 < s.size() && s[r.p + 1] >= '0' && s[r.p + 1] <= '7' && s[r.p + 2] >= '0' && s[r.p + 2] <= '7') {
          o += (char)((e - '0') * 64 + (s[r.p + 1] - '0') * 8 + (s[r.p + 2] - '0')); r.p += 2;
        }
        else open = true;
        r.p++;
      } else o += s[r.p++];
    }
    if (open) throw Unsupported{"reader: escape in a string"};
    r.p++;
    return str(o);
  }
  if (c == '#') {
    if (r.p + 1 >= s.size()) throw ReadFail("lone #");
    char d = s[r.p + 1];
    size_t q = r.p + 2;
    if (d == '\\') {
      if (q >= s.size()) throw ReadEof();
      if ((s[q] & 0x80) && q + 1 < s.size() && !isDelim(s[q + 1])) throw Unsupported{"reader: non-ASCII character"};
      q++;
      if (!isspace((unsigned char)s[q - 1])) while (q < s.size() && !isDelim(s[q])) q++;
      std::string n = s.substr(r.p + 2, q - r.p - 2);
      r.p = q;
      if (!isspace((unsigned char)n[0])) atomEnd(r);
      if (n.size() == 1) return chr((unsigned char)n[0]);
      for (auto &x : n) x = (char)tolower((unsigned char)x);
      if (n == "space") return chr(' ');
      if (n == "newline") return chr('\n');
      if (n == "tab" || n == "ht") return chr('\t');
      if (n == "nul") return chr(0);
      static const char *guile[] = {"null", "return", "backspace", "delete", "del", "rubout", "esc", "escape", "alarm", "linefeed", "page", "cr", "lf", "sp", "nl", "np", "bs", "vt", "altmode"};
      for (auto g : guile) if (n == g) throw Unsupported{"reader: character name"};
      if (isdigit((unsigned char)n[0]) || n[0] == 'x' || n[0] == 'u') throw Unsupported{"reader: character code"};
      throw ReadFail("character name");
    }
    if (d == 't' || d == 'f') {
      if (q < s.size() && !isDelim(s[q])) {
        if (!s.compare(r.p, 5, "#true") || !s.compare(r.p, 6, "#false") || isdigit((unsigned char)s[q])) throw Unsupported{"reader: #"};
        throw ReadFail("boolean");
      }
      r.p = q; atomEnd(r);
      return boolv(d == 't');
    }
    if (d == '{') {
      int n = 1;
      std::string name;
      for (; q < s.size(); q++) {
        if (s[q] == '\\') { if (++q >= s.size()) throw ReadEof(); }
        else if (s[q] == '{') n++;
        else if (s[q] == '}' && !--n) break;
        name += s[q];
      }
      if (q >= s.size()) throw ReadEof();
      if (q + 1 >= s.size() || s[q + 1] != '#') throw ReadFail("#{ without }#");
      V o = sym(name); r.p = q + 2;
      if (r.p < s.size() && !isDelim(s[r.p])) throw Unsupported{"reader: text after #{}#"};
      atomEnd(r);
      return o;
    }
    if (d == ':') {
      r.p++;
      if (q >= s.size() || isDelim(s[q])) throw ReadFail("keyword");
    }
    else if (strchr("xbodei|;!'`,&<*", tolower(d)) || isdigit((unsigned char)d)) throw Unsupported{"reader: #"};
    else throw ReadFail("#");
  }
  size_t q = r.p;
  while (q < s.size() && !isDelim(s[q])) q++;
  std::string t = s.substr(r.p, q - r.p);
  r.p = q;
  bool ill = false, open = false;
  for (char x : t) {
    if (strchr("[]{}#", x)) ill = true;
    else if (x == '\\' || x == '|' || (unsigned char)x > 126 || (unsigned char)x < 33) open = true;
  }
  atomEnd(r);
  if (open || !t.compare(0, 2, ".#")) throw Unsupported{"reader: character in a symbol"};
  if (ill) throw ReadFail("character in a symbol");
  if (t == ".") throw ReadFail("dot");
  V v = atom(t);
  if (v->t == SYM && ((t[0] == '.' && t != "...") || t[0] == '@')) throw Unsupported{"reader: symbol"};
  if (v->t == FLO && std::isinf(v->d)) throw Unsupported{"reader: infinity"};
  return v;
}

// ----------------------------------------------------------------- printer
inline std::string Machine::numstr(V v) {
  char b[128];
  if (v->t == INT) snprintf(b, sizeof b, "%lld", (long long)v->i);
  else if (v->t == RAT) snprintf(b, sizeof b, "%lld/%lld", (long long)v->i, (long long)v->j);
  else if (!(v->d >= -0x1p63 && v->d < 0x1p63)) { snprintf(b, sizeof b, "%.14g", v->d); if (std::isnan(v->d) || std::isinf(v->d)) throw Unsupported{"print of nan"}; }
  else if (v->d == std::floor(v->d)) snprintf(b, sizeof b, "%.1f", v->d);
  else {
    snprintf(b, sizeof b, "%.14g", v->d);
    if (!strpbrk(b, ".e")) strcat(b, ".0");
  }
  return b;
}
inline std::string Machine::show(V v, bool wr) {
  struct Deep { int &n; Deep(int &d) : n(d) { if (++n > 2000) { --n; throw Unsupported{"circular print"}; } } ~Deep() { --n; } } deep(showDepth);
  switch (v->t) {
  case NIL: return "()";
  case BOOL: return v->flag ? "#t" : "#f";
  case INT: case RAT: case FLO: return numstr(v);
  case CHR:
    if (!wr) return std::string(1, (char)v->i);
    if (v->i == ' ') return "#\\space";
    if (v->i == '\n') return "#\\newline";
    if (v->i == '\t') return "#\\ht";
    if (v->i == 0) return "#\\nul";
    return std::string("#\\") + (char)v->i;
  case STR: {
    if (!wr) return v->s;
    std::string o = "\"";
    for (unsigned char c : v->s) {
      if (c == '\\') o += "\\\\"; else if (c == '"') o += "\\\""; else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t";
      else if (c == '\r') o += "\\r";
      else if (c >= 32 && c < 127) o += (char)c;
      else { char b[8]; snprintf(b, 8, "\\%03o", c); o += b; }
    }
    return o + "\"";
  }
  case SYM: {
    if (!wr) return (v->s.size() > 1 && v->s[0] == ':') ? "#" + v->s : v->s;
    const std::string &n = v->s;
    bool plain = !n.empty();
    for (char c : n) {
      if (!c) throw Unsupported{"a name with a null character"};
      if (!isalnum((unsigned char)c) && !strchr("!$%&*+-./:<=>?@^_~|", c)) plain = false;
    }
    size_t i = plain && (n[0] == '+' || n[0] == '-');
    if (plain && n != "1+" && n != "1-" && n != "...") {
      if (i < n.size() && (isdigit((unsigned char)n[i]) || (n[i] == '.' && i + 1 < n.size() && isdigit((unsigned char)n[i + 1])))) plain = false;
      else if (n == ".") plain = false;
      else if (n[0] == '.') throw Unsupported{"a name that starts with a dot"};
    }
    if (!plain && n.find(1) == std::string::npos) {
      std::string o = "#{";
      for (char c : n) { if (strchr("{}\\", c)) o += '\\'; o += c; }
      return o + "}#";
    }
    return n.size() > 1 && n[0] == ':' ? "#" + n : n;
  }
  case PAIR: {
    std::string o = "(";
    bool first = true;
    int guard = 0;
    // the printer abbreviates (quote x) inside a quasiquotation, but not inside an unquote
    if (v->a->t == SYM && v->b->t == PAIR && v->b->b->t == NIL) {
      bool q0 = prQuasi, u0 = prUnq;
      const std::string &n = v->a->s;
      if (n == "quote" && prQuasi && !prUnq) return "'" + show(v->b->a, true);
      if (n == "quasiquote") prQuasi = true;
      if (n == "unquote") prUnq = true;
      if (n == "quasiquote" || n == "unquote") {
        o += n + " " + show(v->b->a, true) + ")";
        prQuasi = q0; prUnq = u0;
        return o;
      }
    }
    for (; v->t == PAIR; v = v->b) {
      if (++guard > 100000) throw Unsupported{"circular print"};
      if (!first) o += " ";
      first = false;
      o += show(v->a, true); // pscm: elements of a list always print in write form
    }
    if (v->t != NIL) o += " . " + show(v, true);
    return o + ")";
  }
  case VEC: {
    std::string o = "#(";
    for (size_t i = 0; i < v->v.size(); i++) { if (i) o += " "; o += show(v->v[i], wr); }
    return o + ")";
  }
  case SMOB: return showSmob(v, wr);
  default: throw Unsupported{"print opaque"};
  }
}

// ---------------------------------------------------------------- equality
inline int Machine::numcmp(V a, V b) { // -1,0,1; 2 = unordered
  if (a->t == FLO || b->t == FLO) {
    auto f = [](V x) { return x->t == INT ? (double)x->i : x->t == RAT ? (double)x->i / (double)x->j : x->d; };
    double x = f(a), y = f(b);
    if (x != x || y != y) return 2;
    if (x == y && (a->t == INT) != (b->t == INT) && (a->t == FLO || b->t == FLO) && std::fabs(x) < 1e30) { // exactly
      __int128 p = a->t == INT ? (__int128)a->i : (__int128)x, q = b->t == INT ? (__int128)b->i : (__int128)y;
      return p < q ? -1 : p > q ? 1 : 0;
    }
    return x < y ? -1 : x > y ? 1 : 0;
  }
  __int128 an = a->i, ad = a->t == RAT ? a->j : 1, bn = b->i, bd = b->t == RAT ? b->j : 1;
  __int128 l = an * bd, r = bn * ad;
  return l < r ? -1 : l > r ? 1 : 0;
}
inline bool Machine::eqv(V a, V b) {
  if (a == b) return true;
  if ((a->t == RAT && b->t == FLO) || (a->t == FLO && b->t == RAT)) throw Unsupported{"eqv of a fraction and a float"};
  if (isnum(a) && isnum(b)) return numcmp(a, b) == 0; // pscm: documented 1 ~ 1.0
  if (a->t != b->t) return false;
  if (a->t == CHR) return a->i == b->i;
  if (a->t == STR) return a->s == b->s; // pscm: strings compare by content
  return false;
}
inline bool Machine::equal(V a, V b, int depth) {
  if (depth > 5000) throw Unsupported{"deep equal"};
  if (a == b && a->t == SMOB && a->i == 0) throw Unsupported{"equality of a host object with itself"}; // whether the host is asked is open
  if (eqv(a, b)) return true;
  if (a->t != b->t) return false;
  if (a->t == PAIR) {
    for (int n = 0;; a = a->b, b = b->b) {
      if (a == b) return true;
      if (a->t != PAIR || b->t != PAIR) return equal(a, b, depth + 1);
      if (++n > 200000) throw Unsupported{"circular equal"};
      if (!equal(a->a, b->a, depth + 1)) return false;
    }
  }
  if (a->t == SMOB) return equalSmob(a, b);
  if (a->t == VEC) {
    if (a->v.size() != b->v.size()) return false;
    for (size_t i = 0; i < a->v.size(); i++) if (!equal(a->v[i], b->v[i], depth + 1)) return false;
    return true;
  }
  return false;
}

// ------------------------------------------------------------------ machine
// a name without a variable: load the module that is to define it
inline void Machine::autoload(Mod *m, V s, K *k) {
  for (auto it = m->autoload.begin(); it != m->autoload.end(); ++it)
    for (V x : it->second) if (x == s) {
      V name = it->first;
      m->autoload.erase(it);
      K *f = mkk(K_AUTOLOAD, k); f->x = s; f->y = m->obj;
      resolve(name, f); return;
    }
  throw err("error");
}
inline void Machine::stepEval() {
  V x = cx;
  Env *e = ce;
  K *k = ck;
  if (x->t == SYM) {
    if (x->s.size() && x->s[0] == ':') { ret(x, k); return; }
    V *p = lookup(e, x);
    if (!p) {
      while (e && !e->mod) e = e->up;
      Mod *m = e ? e->mod : root;
      if (m->binder && !inBinder) {
        inBinder++;
        K *f = mkk(K_BINDER, k); f->x = x; f->env = e;
        Args a{m->obj, x, tru};
        apply(m->binder, a, f); return;
      }
      autoload(m, x, k); return;
    }
    if ((*p)->t == UNDEF) throw err("error");
    ret(*p, k);
    return;
  }
  if (x->t == NIL) { ret(x, k); return; }
  if (x->t != PAIR) { ret(x, k); return; }
  V op = x->a;
  if (op->t == SYM) {
    const std::string &n = op->s;
    auto len = [&](V l) { int c = 0; for (; l->t == PAIR; l = l->b) c++; return c; };
    auto need = [&](bool c) { if (!c) throw err("error"); };
    V r = x->b;
    if (n == "quote") { need(len(r) == 1); ret(r->a, k); return; }
    if (n == "if") {
      need(len(r) == 2 || len(r) == 3);
      K *f = mkk(K_IF, k); f->x = r->b; f->env = e; ev(r->a, e, f); return;
    }
    if (n == "lambda") {
      need(len(r) >= 2);
      V c = mk(CLO); c->a = r->a; c->b = r->b; c->env = e; ret(c, k); return;
    }
    if (n == "set!") {
      need(len(r) == 2);
      K *f = mkk(K_SET, k); f->x = r->a; f->env = e; ev(r->b->a, e, f); return;
    }
    if (n == "define" || n == "define-public") {
      need(len(r) >= 2);
      if (r->a->t == PAIR) {
        V c = mk(CLO); c->a = r->a->b; c->b = r->b; c->env = e;
        if (r->a->a->t != SYM && n == "define-public") throw Unsupported{"define-public, curried"};
        K *f = mkk(K_DEF, k); f->x = r->a->a; f->env = e; f->n = n == "define-public"; ret(c, f); return;
      }
      K *f = mkk(K_DEF, k); f->x = r->a; f->env = e; f->n = n == "define-public"; ev(r->b->a, e, f); return;
    }
    if (n == "begin") { if (r->t != PAIR) { ret(unspec, k); return; } evseq(r, e, k); return; }
    if (n == "and") {
      if (r->t != PAIR) { ret(tru, k); return; }
      if (r->b->t != PAIR) { ev(r->a, e, k); return; }
      K *f = mkk(K_AND, k); f->x = r->b; f->env = e; ev(r->a, e, f); return;
    }
    if (n == "or") {
      if (r->t != PAIR) { ret(fls, k); return; }
      if (r->b->t != PAIR) { ev(r->a, e, k); return; }
      K *f = mkk(K_OR, k); f->x = r->b; f->env = e; ev(r->a, e, f); return;
    }
    if (n == "cond") {
      if (r->t != PAIR) { ret(unspec, k); return; }
      V cl = r->a;
      if (cl->a->t == SYM && cl->a->s == "else") { evseq(cl->b, e, k); return; }
      K *f = mkk(K_COND, k); f->x = r; f->env = e; ev(cl->a, e, f); return;
    }
    if (n == "case") {
      need(len(r) >= 1);
      K *f = mkk(K_CASE, k); f->x = r->b; f->env = e; ev(r->a, e, f); return;
    }
    if (n == "let") {
      need(len(r) >= 2);
      K *f = mkk(K_LET, k);
      f->env = e; f->acc = nil;
      V bs;
      if (r->a->t == SYM) { f->y = r->a; bs = r->b->a; f->z = r->b->b; }
      else { f->y = nullptr; bs = r->a; f->z = r->b; }
      f->x = bs; f->f = bs;
      if (bs->t != PAIR) { cv = nullptr; f->n = -1; // no bindings
        Env *ne = mkenv(e);
        if (f->y) { V c = mk(CLO); c->a = nil; c->b = f->z; c->env = ne; bind(ne, f->y, c); Env *ne2 = mkenv(ne); evseq(f->z, ne2, k); }
        else evseq(f->z, ne, k);
        return; }
      ev(bs->a->b->a, e, f); return;
    }
    if (n == "let*") {
      need(len(r) >= 2);
      V bs = r->a;
      if (bs->t != PAIR) { evseq(r->b, mkenv(e), k); return; }
      K *f = mkk(K_LETSTAR, k); f->x = bs; f->z = r->b; f->env = e; ev(bs->a->b->a, e, f); return;
    }
    if (n == "letrec") {
      need(len(r) >= 2);
      Env *ne = mkenv(e);
      for (V b = r->a; b->t == PAIR; b = b->b) bind(ne, b->a->a, undef);
      if (r->a->t != PAIR) { evseq(r->b, ne, k); return; }
      K *f = mkk(K_LETREC, k); f->x = r->a; f->z = r->b; f->env = ne; f->acc = nil; ev(r->a->a->b->a, ne, f); return;
    }
    if (n == "do") {
      need(len(r) >= 2);
      K *f = mkk(K_DO_INIT, k); f->x = r->a; f->y = r->a; f->z = r->b; f->env = e; f->acc = nil;
      if (r->a->t != PAIR) { Env *ne = mkenv(e); K *t = mkk(K_DO_TEST, k); t->y = nil; t->z = r->b; t->env = ne; t->w = nullptr; ev(r->b->a->a, ne, t); return; }
      ev(r->a->a->b->a, e, f); return;
    }
    if (n == "delay") { need(len(r) == 1); V p = mk(PROM); p->b = r->a; p->env = e; ret(p, k); return; }
    if (n == "quasiquote") { need(len(r) == 1); qq(r->a, 1, e, k); return; }
    if (n == "define-macro") {
      need(len(r) >= 2);
      V m = mk(MACRO); m->env = e;
      if (r->a->t == PAIR) { V c = mk(CLO); c->a = r->a->b; c->b = r->b; c->env = e; m->a = c; 
        define(e, r->a->a, m); ret(unspec, k); return; }
      need(len(r) == 2 && r->a->t == SYM);
      K *f = mkk(K_MACDEF, k); f->x = r->a; f->env = e; ev(r->b->a, e, f); return;
    }
    if (n == "define-module") {
      need(len(r) >= 1 && r->a->t == PAIR);
      if (!isTop(e)) throw Unsupported{"define-module in a body"};
      auto it = modtab.find(show(r->a, true));
      moduleOptions(it != modtab.end() ? it->second : newModule(r->a), r->b, k); return;
    }
    if (n == "use-modules") {
      if (!isTop(e)) throw Unsupported{"use-modules in a body"};
      if (r->t != PAIR) { ret(unspec, k); return; }
      K *f = mkk(K_USE, k); f->x = r->b; f->y = cur->obj; resolve(r->a, f); return;
    }
    if (n == "export" || n == "re-export") {
      if (!isTop(e)) throw Unsupported{"export in a body"};
      if (cur == root) throw Unsupported{"export of the initial module"};
      for (; r->t == PAIR; r = r->b) exportName(cur, r->a);
      ret(unspec, k); return;
    }
    V *p = lookup(e, op);
    if (p && (*p)->t == MACRO) {
      Args a; for (V l = r; l->t == PAIR; l = l->b) a.push_back(l->a);
      K *f = mkk(K_MACRO, k); f->env = e; apply((*p)->a, a, f); return;
    }
  }
  // pscm evaluates (5) to 5; the reports make it an error
  if (x->b->t == NIL && (op->t == INT || op->t == FLO || op->t == STR || op->t == CHR || op->t == BOOL || op->t == NIL)) throw Unsupported{"constant operator"};
  // application: operator first, then operands left to right
  K *f = mkk(K_ARGS, k);
  f->x = x->b; f->env = e; f->acc = nil; f->f = nullptr;
  ev(op, e, f);
}

inline void Machine::qq(V x, int depth, Env *e, K *k) {
  // structural: compute via continuation frames; evaluated left to right
  if (x->t == PAIR && x->a->t == SYM && x->a->s == "unquote" && x->b->t == PAIR && x->b->b->t == NIL) {
    if (depth == 1) { ev(x->b->a, e, k); return; }
    K *f = mkk(K_QQ, k); f->n = 10; f->x = x->a; qq(x->b->a, depth - 1, e, f); return; // rebuild (unquote <r>)
  }
  if (x->t == PAIR && x->a->t == SYM && x->a->s == "quasiquote" && x->b->t == PAIR && x->b->b->t == NIL) {
    K *f = mkk(K_QQ, k); f->n = 10; f->x = x->a; qq(x->b->a, depth + 1, e, f); return;
  }
  if (x->t == PAIR) {
    V a = x->a;
    if (a->t == PAIR && a->a->t == SYM && a->a->s == "unquote-splicing" && a->b->t == PAIR && depth == 1) {
      K *f = mkk(K_QQ, k); f->n = 1; f->x = x->b; f->m = depth; f->env = e; ev(a->b->a, e, f); return;
    }
    if (a->t == PAIR && a->a->t == SYM && a->a->s == "unquote-splicing" && a->b->t == PAIR) {
      K *f = mkk(K_QQ, k); f->n = 2; f->x = x->b; f->m = depth; f->env = e;
      K *g = mkk(K_QQ, f); g->n = 10; g->x = a->a; qq(a->b->a, depth - 1, e, g); return;
    }
    K *f = mkk(K_QQ, k); f->n = 2; f->x = x->b; f->m = depth; f->env = e; qq(a, depth, e, f); return;
  }
  if (x->t == VEC) {
    V l = nil; for (size_t i = x->v.size(); i-- > 0;) l = cons(x->v[i], l);
    K *f = mkk(K_VECQQ, k); qq(l, depth, e, f); return;
  }
  ret(x, k);
}

inline void Machine::apply(V f, Args &a, K *k) {
  if (f->t == PRIM) {
    if ((int64_t)a.size() < f->i || (f->j >= 0 && (int64_t)a.size() > f->j)) throw err(f->i != f->j ? "\x01" : "wrong-number-of-args"); // which error a variadic primitive reports is open
    ck = k; evalMode = false;
    V r = f->fn(*this, a);
    if (r) ret(r, k); // else: the primitive arranged the next configuration itself
    return;
  }
  if (f->t == CLO) {
    Env *e = mkenv(f->env);
    V p = f->a;
    size_t i = 0;
    while (p->t == PAIR) {
      if (i >= a.size()) throw err("error");
      e->b.push_back({p->a, a[i++]});
      p = p->b;
    }
    if (p->t == SYM) {
      V rest = nil;
      for (size_t j = a.size(); j-- > i;) rest = cons(a[j], rest);
      e->b.push_back({p, rest});
    } else if (i != a.size()) throw err("error");
    evseq(f->b, e, k);
    return;
  }
  if (f->t == SMOB) { applySmob(f, a, k); return; }
  if (f->t == CONT) {
    contcalls++;
    cur = f->mod;
    V cval;
    if (a.size() == 1) cval = a[0];
    else { cval = mk(VALUES); cval->v = a; }
    rewindTo(f->w, f->k, cval);
    return;
  }
  throw err("error");
}

// travel from the current wind list to `target`, then return val to k
inline void Machine::rewindTo(Wind *target, K *k, V val) {
  K *f = mkk(K_UNWIND, nullptr);
  f->w2 = target; f->k2 = k; f->acc = val;
  unwindNext(f);
}
inline void Machine::unwindNext(K *f) {
  Wind *target = f->w2;
  // common ancestor
  auto dep = [](Wind *w) { return w ? w->depth : 0; };
  Wind *c = wind, *t = target;
  while (dep(c) > dep(t)) c = c->next;
  while (dep(t) > dep(c)) t = t->next;
  while (c != t) { c = c->next; t = t->next; }
  if (wind != c) { // leave innermost
    Wind *top = wind;
    wind = top->next;
    windsrun++;
    // the guard runs in the dynamic context of its own dynamic-wind form
    K *n = mkk(K_UNWIND, top->k); n->w2 = target; n->k2 = f->k2; n->acc = f->acc; n->f = f->f; n->x = f->x; n->n = f->n;
    throwAt = n; Args none; apply(top->out, none, n); return;
  }
  if (wind != target) { // enter outermost missing
    Wind *n = target;
    while (n->next != wind) n = n->next;
    windsrun++;
    K *g = mkk(K_REWIND, n->k); g->w = n; g->w2 = target; g->k2 = f->k2; g->acc = f->acc; g->f = f->f; g->x = f->x; g->n = f->n;
    throwAt = g; Args none; apply(n->in, none, g); return;
  }
  if (f->f) { // throw: call handler
    Args a; a.push_back(f->x);
    for (V l = f->acc; l->t == PAIR; l = l->b) a.push_back(l->a);
    throwAt = f->k2; apply(f->f, a, f->k2); return;
  }
  ret(f->acc, f->k2);
}

inline void Machine::doThrow(V key, V args, K *k) {
  throws++;
  bool mod = false;
  for (K *c = k; c; c = c->next) {
    if (c->kind == K_LOAD) { cur = c->x->mod; c->y->mod->failed = true; } // the load fails
    if (c->kind == K_BINDER) inBinder = 0;
    if (c->kind == K_WITHMOD) { cur = c->x->mod; mod = true; }
    if (c->kind == K_CATCH && c->n == 2 && mod && wind != c->w) throw Unsupported{"a lazy handler around a dynamic-wind in another module"};
    if (c->kind == K_CATCH && key->s == "\x01" && c->x->t != BOOL && (c->x->t != SYM || builtinKey(c->x->s))) throw Unsupported{"key of an error"};
    if (c->kind == K_CATCH && c->n == 2) { // a lazy catch
      if (c->x == key || c->x->t == BOOL) out += "{" + std::string(key->s == "\x01" || key->s == "error" ? "lazy" : key->s) + "}\n";
      continue;
    }
    if (c->kind == K_CATCH && (c->x == key || (c->x->t == BOOL && c->x->flag))) {
      K *f = mkk(K_UNWIND, nullptr);
      f->w2 = c->w; f->k2 = c->next; f->acc = args; f->f = c->y; f->x = key;
      unwindNext(f);
      return;
    }
  }
  // uncaught: the API boundary behaves as a catch-all; winders are left too
  K *h = mkk(K_HALT, nullptr); h->n = 1; h->x = key; h->acc = args;
  rewindTo(nullptr, h, key);
}

inline void Machine::stepRet() {
  K *k = ck;
  V v = cv;
  switch (k->kind) {
  case K_HALT: return;
  case K_IF:
    if (truthy(v)) ev(k->x->a, k->env, k->next);
    else if (k->x->b->t == PAIR) ev(k->x->b->a, k->env, k->next);
    else ret(unspec, k->next);
    return;
  case K_SEQ: evseq(k->x, k->env, k->next); return;
  case K_ARGS: {
    // acc = reversed list of evaluated (operator and operands)
    V acc = cons(v, k->acc);
    if (k->acc->t == NIL && v->t != PRIM && v->t != CLO && v->t != CONT && v->t != SMOB)
      // the call is an error; whether the operands are evaluated first is open
      for (V o = k->x; o->t == PAIR; o = o->b) if (o->a->t == PAIR && !(o->a->a->t == SYM && o->a->a->s == "quote")) throw Unsupported{"operands of a non-procedure"};
    if (k->x->t == PAIR) {
      K *n = mkk(K_ARGS, k->next); n->x = k->x->b; n->env = k->env; n->acc = acc; ev(k->x->a, k->env, n);
      return;
    }
    Args a;
    for (V l = acc; l->t == PAIR; l = l->b) a.push_back(l->a);
    V f = a.back(); a.pop_back();
    std::reverse(a.begin(), a.end());
    apply(f, a, k->next);
    return;
  }
  case K_SET: {
    V *p = lookup(k->env, k->x);
    if (!p) throw Unsupported{"set! of an undefined variable"};
    if (builtins.count(k->x) && modtab.size()) throw Unsupported{"set! of a built-in name"};
    *p = v; ret(unspec, k->next); return;
  }
  case K_DEF:
    define(k->env, k->x, v);
    if (k->n) {
      if (!isTop(k->env)) throw Unsupported{"define-public in a body"};
      if (k->env) exportName(k->env->mod, k->x);
    }
    ret(unspec, k->next); return;
  case K_AND:
    if (!truthy(v)) { ret(v, k->next); return; }
    if (k->x->b->t != PAIR) { ev(k->x->a, k->env, k->next); return; }
    { K *f = mkk(K_AND, k->next); f->x = k->x->b; f->env = k->env; ev(k->x->a, k->env, f); }
    return;
  case K_OR:
    if (truthy(v)) { ret(v, k->next); return; }
    if (k->x->b->t != PAIR) { ev(k->x->a, k->env, k->next); return; }
    { K *f = mkk(K_OR, k->next); f->x = k->x->b; f->env = k->env; ev(k->x->a, k->env, f); }
    return;
  case K_COND: {
    V cl = k->x->a;
    if (truthy(v)) {
      if (cl->b->t != PAIR) { ret(v, k->next); return; }
      if (cl->b->a->t == SYM && cl->b->a->s == "=>") { K *f = mkk(K_COND_ARROW, k->next); f->acc = v; ev(cl->b->b->a, k->env, f); return; }
      evseq(cl->b, k->env, k->next); return;
    }
    V r = k->x->b;
    if (r->t != PAIR) { ret(unspec, k->next); return; }
    if (r->a->a->t == SYM && r->a->a->s == "else") { evseq(r->a->b, k->env, k->next); return; }
    K *f = mkk(K_COND, k->next); f->x = r; f->env = k->env; ev(r->a->a, k->env, f); return;
  }
  case K_COND_ARROW: { Args a{k->acc}; apply(v, a, k->next); return; }
  case K_CASE: {
    for (V c = k->x; c->t == PAIR; c = c->b) {
      V cl = c->a;
      if (cl->a->t == SYM && cl->a->s == "else") { evseq(cl->b, k->env, k->next); return; }
      for (V d = cl->a; d->t == PAIR; d = d->b)
        if (eqv(d->a, v)) { evseq(cl->b, k->env, k->next); return; }
    }
    ret(unspec, k->next); return;
  }
  case K_LET: {
    V acc = cons(v, k->acc);
    V rest = k->x->b;
    if (rest->t == PAIR) {
      K *f = mkk(K_LET, k->next); f->x = rest; f->f = k->f; f->y = k->y; f->z = k->z; f->env = k->env; f->acc = acc;
      ev(rest->a->b->a, k->env, f); return;
    }
    std::vector<V> vals; for (V l = acc; l->t == PAIR; l = l->b) vals.insert(vals.begin(), l->a);
    Env *base = k->env;
    std::vector<V> ps; for (V b = k->f; b->t == PAIR; b = b->b) ps.push_back(b->a->a);
    if (k->y) {
      base = mkenv(k->env);
      V c = mk(CLO); c->a = list(ps); c->b = k->z; c->env = base;
      bind(base, k->y, c);
    }
    Env *ne = mkenv(base);
    for (size_t i = 0; i < ps.size(); i++) ne->b.push_back({ps[i], vals[i]});
    evseq(k->z, ne, k->next); return;
  }
  case K_LETSTAR: {
    Env *ne = mkenv(k->env);
    ne->b.push_back({k->x->a->a, v});
    if (k->x->b->t == PAIR) { K *f = mkk(K_LETSTAR, k->next); f->x = k->x->b; f->z = k->z; f->env = ne; ev(f->x->a->b->a, ne, f); return; }
    evseq(k->z, ne, k->next); return;
  }
  case K_LETREC: {
    // assignments in order (letrec* order; pscm evaluates and binds one by one)
    bind(k->env, k->x->a->a, v);
    if (k->x->b->t == PAIR) { K *f = mkk(K_LETREC, k->next); f->x = k->x->b; f->z = k->z; f->env = k->env; ev(f->x->a->b->a, k->env, f); return; }
    evseq(k->z, k->env, k->next); return;
  }
  case K_DO_INIT: {
    V acc = cons(v, k->acc);
    V rest = k->x->b;
    if (rest->t == PAIR) { K *f = mkk(K_DO_INIT, k->next); f->x = rest; f->y = k->y; f->z = k->z; f->env = k->env; f->acc = acc; ev(rest->a->b->a, k->env, f); return; }
    std::vector<V> vals; for (V l = acc; l->t == PAIR; l = l->b) vals.insert(vals.begin(), l->a);
    Env *ne = mkenv(k->env);
    size_t i = 0; for (V b = k->y; b->t == PAIR; b = b->b) ne->b.push_back({b->a->a, vals[i++]});
    K *t = mkk(K_DO_TEST, k->next); t->y = k->y; t->z = k->z; t->env = ne; ev(k->z->a->a, ne, t); return;
  }
  case K_DO_TEST: {
    if (truthy(v)) { if (k->z->a->b->t != PAIR) ret(unspec, k->next); else evseq(k->z->a->b, k->env, k->next); return; }
    K *b = mkk(K_DOBODY, k->next); b->y = k->y; b->z = k->z; b->env = k->env;
    evseq(k->z->b, k->env, b); return;
  }
  case K_DOBODY: {
    // body done: evaluate steps
    K *s = mkk(K_DO_STEP, k->next); s->x = k->y; s->y = k->y; s->z = k->z; s->env = k->env; s->acc = nil; s->n = 0;
    // find first
    if (k->y->t != PAIR) { Env *ne = mkenv(k->env->up); K *t = mkk(K_DO_TEST, k->next); t->y = k->y; t->z = k->z; t->env = ne; ev(k->z->a->a, ne, t); return; }
    V b = k->y->a;
    ev(b->b->b->t == PAIR ? b->b->b->a : b->a, k->env, s); return;
  }
  case K_DO_STEP: {
    V acc = cons(v, k->acc);
    V rest = k->x->b;
    if (rest->t == PAIR) {
      K *s = mkk(K_DO_STEP, k->next); s->x = rest; s->y = k->y; s->z = k->z; s->env = k->env; s->acc = acc;
      V b = rest->a; ev(b->b->b->t == PAIR ? b->b->b->a : b->a, k->env, s); return;
    }
    std::vector<V> vals; for (V l = acc; l->t == PAIR; l = l->b) vals.insert(vals.begin(), l->a);
    Env *ne = mkenv(k->env->up);
    size_t i = 0; for (V b = k->y; b->t == PAIR; b = b->b) ne->b.push_back({b->a->a, vals[i++]});
    K *t = mkk(K_DO_TEST, k->next); t->y = k->y; t->z = k->z; t->env = ne; ev(k->z->a->a, ne, t); return;
  }
  case K_DW_IN: { // in guard returned; install and run the thunk
    winds.emplace_back();
    Wind *w = &winds.back();
    w->in = k->x; w->out = k->z; w->next = wind; w->depth = (wind ? wind->depth : 0) + 1; w->k = k->next;
    wind = w;
    K *b = mkk(K_DW_BODY, k->next); b->w = w;
    Args none; apply(k->y, none, b); return;
  }
  case K_DW_BODY: {
    wind = k->w->next;
    K *o = mkk(K_DW_OUT, k->next); o->acc = v;
    windsrun++;
    Args none; apply(k->w->out, none, o); return;
  }
  case K_DW_OUT: ret(k->acc, k->next); return;
  case K_CATCH: ret(v, k->next); return;
  case K_HOST: if (V r = k->host(*this, k, v)) ret(r, k->next); return;
  case K_WITHMOD: cur = k->x->mod; ret(v, k->next); return;
  case K_UNWIND: unwindNext(k); return;
  case K_REWIND: wind = k->w; unwindNext(k); return;
  case K_MAP: {
    // x = list of lists (remaining), acc = reversed results, f = proc
    V acc = k->n ? cons(v, k->acc) : k->acc;
    Args a; std::vector<V> rest; bool done = false;
    for (V l = k->x; l->t == PAIR; l = l->b) { if (l->a->t != PAIR) { done = true; break; } a.push_back(l->a->a); rest.push_back(l->a->b); }
    if (done) { V r = nil; for (V l = acc; l->t == PAIR; l = l->b) r = cons(l->a, r); ret(r, k->next); return; }
    K *n = mkk(K_MAP, k->next); n->x = list(rest); n->acc = acc; n->f = k->f; n->n = 1;
    apply(k->f, a, n); return;
  }
  case K_FOREACH: {
    Args a; std::vector<V> rest; bool done = false;
    for (V l = k->x; l->t == PAIR; l = l->b) { if (l->a->t != PAIR) { done = true; break; } a.push_back(l->a->a); rest.push_back(l->a->b); }
    if (done) { ret(unspec, k->next); return; }
    K *n = mkk(K_FOREACH, k->next); n->x = list(rest); n->f = k->f; n->n = 1;
    apply(k->f, a, n); return;
  }
  case K_CWV: {
    Args a;
    if (v->t == VALUES) a = v->v; else a.push_back(v);
    apply(k->f, a, k->next); return;
  }
  case K_FORCE: {
    if (!k->x->flag) { k->x->flag = true; k->x->a = v; }
    ret(k->x->a, k->next); return;
  }
  case K_QQ: {
    if (k->n == 10) { ret(list({k->x, v}), k->next); return; }
    K *f = mkk(K_QQ, k->next); f->acc = v; f->n = k->n + 20;
    qq(k->x, (int)k->m, k->env, f); // f receives the tail
    if (false) return;
    return;
  }
  case K_VECQQ: { V o = mk(VEC); for (V l = v; l->t == PAIR; l = l->b) o->v.push_back(l->a); ret(o, k->next); return; }
  case K_MACDEF: {
    if (v->t != CLO) throw err("error");
    V m = mk(MACRO); m->a = v;
    define(k->env, k->x, m);
    ret(unspec, k->next); return;
  }
  case K_MACRO: ev(v, k->env, k->next); return;
  case K_LOAD: {
    if ((size_t)k->n >= k->vec->size()) { cur = k->x->mod; ret(k->y, k->next); return; }
    K *f = mkk(K_LOAD, k->next); f->vec = k->vec; f->n = k->n + 1; f->x = k->x; f->y = k->y;
    ev((*k->vec)[(size_t)k->n], top(), f); return;
  }
  case K_USE: {
    k->y->mod->uses.push_front(v->mod);
    if (k->x->t != PAIR) { ret(unspec, k->next); return; }
    K *f = mkk(K_USE, k->next); f->x = k->x->b; f->y = k->y; resolve(k->x->a, f); return;
  }
  case K_DEFMODULE: k->y->mod->uses.push_front(v->mod); moduleOptions(k->y->mod, k->x, k->next); return;
  case K_AUTOLOAD: {
    k->y->mod->uses.push_front(v->mod);
    V *p = find(k->y->mod, k->x);
    if (!p) { autoload(k->y->mod, k->x, k->next); return; }
    ret(*p, k->next); return;
  }
  case K_BINDER: {
    inBinder = 0;
    if (truthy(v)) { ret(v->t == VARIABLE && v->a ? v->a : v, k->next); return; }
    autoload(k->env ? k->env->mod : root, k->x, k->next); return;
  }
  case K_MODMAP: {
    V acc = k->n ? cons(v, k->acc) : k->acc;
    if (k->x->t != PAIR) { V r = nil; for (V l = acc; l->t == PAIR; l = l->b) r = cons(l->a, r); ret(r, k->next); return; }
    K *n = mkk(K_MODMAP, k->next); n->x = k->x->b; n->acc = acc; n->f = k->f; n->n = 1;
    Args a{k->x->a->a, k->x->a->b}; apply(k->f, a, n); return;
  }
  case K_DROP: ret(k->acc, k->next); return;
  case K_SOFTCH: { // the get-char procedure of a soft port returned
    V c = v->t == CHR ? v : eofo;
    if (v->t != CHR && v->t != EOFO && truthy(v)) throw Unsupported{"what a soft port delivers"};
    if (k->n) k->x->p->peeked = c;
    ret(c, k->next); return;
  }
  case K_CWF: {
    if (k->x->p->closed) { ret(v, k->next); return; }
    k->x->p->closed = true; (k->n ? k->x->p->file->readers : k->x->p->file->writers)--; if (!k->n) k->x->p->file->dirty = false;
    ret(v, k->next); return;
  }
  case K_CWOS: ret(str(k->x->p->data), k->next); return;
  case K_HASHFOLD: {
    size_t i = (size_t)k->n;
    if (i >= k->vec->size()) { ret(v, k->next); return; }
    K *n = mkk(K_HASHFOLD, k->next); n->f = k->f; n->vec = k->vec; n->n = k->n + 1;
    V h = (*k->vec)[i];
    Args a{h->a, h->b, v}; apply(k->f, a, n); return;
  }
  default: throw Unsupported{"frame"};
  }
}

inline V Machine::run(V form) {
  K *h = mkk(K_HALT, nullptr);
  ev(form, top(), h);
  for (;;) {
    if (++steps > limit || tooSlow) throw StepLimit{};
    K *at = ck;
    try {
      if (evalMode) stepEval();
      else {
        if (ck->kind == K_HALT) {
          if (ck->n == 1) return nullptr;
          return cv;
        }
        if (ck->kind == K_QQ && ck->n >= 20) {
          K *k = ck; V tail = cv;
          if (k->n == 21) { // splice acc in front of tail
            std::vector<V> xs; V l = k->acc;
            for (; l->t == PAIR; l = l->b) xs.push_back(l->a);
            if (xs.empty() && tail->t == NIL && l->t != NIL) { ret(l, k->next); continue; }
            if (l->t != NIL) throw err("error");
            ret(list(xs, tail), k->next);
          } else ret(cons(k->acc, tail), k->next);
          continue;
        }
        stepRet();
      }
    } catch (SchemeErr &er) {
      V key = er.key, args = er.args;
      for (;;) { // what is called in response may fail at once
        throwAt = nullptr;
        try { doThrow(key, args, at); break; } catch (SchemeErr &again) { key = again.key; args = again.args; if (throwAt) at = throwAt; }
      }
    }
  }
}

// Evaluate a whole program the way `pscm FILE` does: form after form, the
// result of each printed; a continuation captured in an earlier form returns
// to the loop, which goes on with the next form not yet read.
// one line: the value of a form, or what is reported about its failure
inline void Machine::outcome(V v, bool withMessage) {
  if (!v) {
    bool sys = ck->x->t == SYM && (ck->x->s == "\x01" || ck->x->s == "error");
    out += "!"; out += (ck->x->t == SYM ? ck->x->s : "?");
    if (withMessage && !sys && ck->acc) { // the message is the first argument, or else the second, that is a string
      V a = ck->acc;
      if (a->t == PAIR && a->a->t == STR) out += " " + a->a->s;
      else if (a->t == PAIR && a->b->t == PAIR && a->b->a->t == STR) out += " " + a->b->a->s;
    }
    out += "\n"; wind = nullptr;
  }
  else if (v->t == VALUES) { out += "\x01\n"; }
  else if (hasUnspec(v)) out += "\x01\n";
  else {
    switch (v->t) { case CLO: case PRIM: case CONT: case MACRO: case HASH: case PROM: case PORT: case EOFO: case VARIABLE: case MODULE: out += "\x01\n"; break;
    default: out += show(v, true) + "\n"; }
  }
}
inline std::string Machine::runProgram(const std::string &src) {
  forms = readall(src);
  topIndex = 0;
  while (topIndex < forms.size()) {
    V f = forms[topIndex];
    topIndex++;
    evals++;
    if (onTop) onTop();
    outcome(run(f), false);
  }
  return out;
}

// A history of calls of the embedding interface: steps separated by \x1b, each a letter and a text
// (and, after \x1a, the text the model evaluates in its place).
//   S evaluate a string   E parse and evaluate   T parse once and evaluate twice   F evaluate a file
//   P parse               G parse a file         N a null argument                 s e f: any outcome
inline std::string Machine::runApi(const std::string &src) {
  std::vector<std::string> steps_;
  for (size_t i = 0; i <= src.size();) {
    size_t e = src.find('\x1b', i);
    if (e == std::string::npos) e = src.size();
    steps_.push_back(src.substr(i, e - i));
    i = e + 1;
  }
  topIndex = 0;
  initHost();
  while (topIndex < steps_.size()) {
    std::string st = steps_[topIndex++];
    evals++;
    if (onTop) onTop();
    char k = st[0];
    std::string t = st.substr(1);
    size_t m = t.find('\x1a');
    if (m != std::string::npos) t = t.substr(m + 1);
    if (hostStep(k, t)) continue;
    if (islower((unsigned char)k)) { out += "\x02\n"; continue; }
    if (k == 'N') { for (int i = 0; i < 6; i++) out += "!\n"; continue; }
    if (k == 'F' && t == "missing") { out += "!\x01\n"; continue; }
    if (k == 'G' && t == "missing") { out += "!\x01\n"; continue; }
    std::vector<V> xs;
    bool bad = false;
    try { xs = readall(t); } catch (ReadFail &) { bad = true; } catch (ReadEof &) { bad = true; } catch (SchemeErr &) { bad = true; }
    if (hostHandler && (bad || xs.size() != 1 || (k != 'S' && k != 'E'))) throw Unsupported{"step with an error handler"};
    if (bad || ((k == 'S' || k == 'E' || k == 'T' || k == 'P') && xs.size() != 1)) { out += "!\x01\n"; continue; }
    if (k == 'P') { out += show(xs[0], true) + "\n"; steps++; continue; }
    if (k == 'G' && xs.empty()) { throw Unsupported{"an empty file"}; }
    if (k == 'F' && xs.empty()) { throw Unsupported{"an empty file"}; }
    if (k == 'G') { for (V x : xs) out += show(x, true) + " "; out += "\n"; steps++; continue; }
    apiForms = xs; // a continuation that is entered again goes on with the step it is used in
    apiAt = 0;
    apiKind = k;
    if (k == 'T') apiForms.push_back(xs[0]);
    while (apiAt < apiForms.size()) {
      V f = apiForms[apiAt++];
      V v = run(f);
      if (apiKind == 'F' && apiAt < apiForms.size()) { if (!v) { throw Unsupported{"a failing form in the middle of a file"}; } continue; }
      if (!v && hostHandler) out += "{error ok}\n";
      outcome(v, true);
    }
  }
  return out;
}

} // namespace ref
#include "refprims.hh"
#include "refhost.hh"
