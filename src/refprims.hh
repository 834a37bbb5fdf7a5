// Primitive procedures of the reference machine.  Included by ref.hh.
#pragma once
namespace ref {

#define P(name, mn, mx) M.defprim(name, mn, mx, [](Machine &m, Args &a) -> V
#define EP )

inline SchemeErr bad(Machine &m) { return m.err("error"); }
inline V needPair(Machine &m, V v) { if (v->t != PAIR) throw bad(m); return v; }
inline int64_t needInt(Machine &m, V v) {
  if (v->t == FLO && v->d == std::floor(v->d)) throw Unsupported{"integral float as index"};
  if (v->t != INT) throw bad(m);
  return v->i;
}
inline std::string &needStr(Machine &m, V v) { if (v->t != STR) throw bad(m); return v->s; }
inline int needChr(Machine &m, V v) { if (v->t != CHR) throw bad(m); return (int)v->i; }
inline V needNum(Machine &m, V v) { if (!Machine::isnum(v)) throw bad(m); return v; }
inline double toD(V x) { return x->t == INT ? (double)x->i : x->t == RAT ? (double)x->i / (double)x->j : x->d; }
// proper list -> vector, error when not a proper list
inline std::vector<V> needList(Machine &m, V l) {
  std::vector<V> r;
  for (; l->t == PAIR; l = l->b) { r.push_back(l->a); if (r.size() > 200000) throw Unsupported{"circular list"}; }
  if (l->t != NIL) throw bad(m);
  return r;
}

inline V arith(Machine &m, char op, V x, V y) {
  needNum(m, x); needNum(m, y);
  if (x->t == FLO || y->t == FLO) {
    double p = toD(x), q = toD(y);
    switch (op) {
    case '+': return m.flo(p + q);
    case '-': return m.flo(p - q);
    case '*': return m.flo(p * q);
    default: if (q == 0) throw Unsupported{"float /0"}; return m.flo(p / q);
    }
  }
  __int128 a = x->i, b = x->t == RAT ? x->j : 1, c = y->i, d = y->t == RAT ? y->j : 1;
  switch (op) {
  case '+': return m.rat(a * d + c * b, b * d);
  case '-': return m.rat(a * d - c * b, b * d);
  case '*': return m.rat(a * c, b * d);
  default: if (c == 0) throw bad(m); return m.rat(a * d, b * c);
  }
}

inline V foldArith(Machine &m, Args &a, char op, int64_t unit) {
  V r = m.num(unit);
  for (V x : a) r = arith(m, op, r, x);
  return r;
}

inline bool numType(V x) { return x->t == INT || x->t == RAT || x->t == FLO; }
template <class F> V chain(Machine &m, Args &a, F ok) {
  if (a.size() == 1 && !numType(a[0])) throw Unsupported{"comparison of one argument"};
  for (size_t i = 0; i + 1 < a.size(); i++) {
    int c = m.numcmp(needNum(m, a[i]), needNum(m, a[i + 1]));
    if (c == 2 || !ok(c)) {
      // Whether the arguments after a failed comparison are looked at is not specified
      for (V x : a) if (!numType(x)) throw Unsupported{"argument after a failed comparison"};
      return m.fls;
    }
  }
  return m.tru;
}

inline V memGeneric(Machine &m, V x, V l, int mode) {
  int n = 0;
  for (; l->t == PAIR; l = l->b) {
    if (++n > 200000) throw Unsupported{"circular"};
    if (mode == 2 ? m.equal(x, l->a) : m.eqv(x, l->a)) return l;
  }
  if (l->t != NIL) throw Unsupported{"improper list"};
  return m.fls;
}
inline V assGeneric(Machine &m, V x, V l, int mode) {
  int n = 0;
  for (V t = l; t->t != NIL; t = t->b) if (t->t != PAIR || ++n > 200000) throw Unsupported{"improper list"};
  for (; l->t == PAIR; l = l->b) {
    if (l->a->t != PAIR) throw Unsupported{"alist entry"};
    if (mode == 0 && x->t == STR && l->a->a->t == STR && x != l->a->a && x->s == l->a->a->s) throw Unsupported{"assq of equal strings"};
    if (mode == 2 ? m.equal(x, l->a->a) : m.eqv(x, l->a->a)) return l->a;
  }
  if (l->t != NIL) throw Unsupported{"improper list"};
  return m.fls;
}
// Orders in which the two ways of folding the case differ are open
inline int cicmp(const std::string &x, const std::string &y) {
  auto fold = [](std::string s, int (*f)(int)) { for (auto &c : s) c = (char)f((unsigned char)c); return s; };
  auto sg = [](int v) { return v < 0 ? -1 : v > 0; };
  int a = sg(fold(x, tolower).compare(fold(y, tolower))), b = sg(fold(x, toupper).compare(fold(y, toupper)));
  if (a != b) throw Unsupported{"order of a letter and a character between the cases"};
  return a;
}
inline std::string lower(std::string s) { for (auto &c : s) c = (char)tolower((unsigned char)c); return s; }

inline V hashFind(Machine &m, V h, V k, bool eql) {
  for (auto &e : h->h->e) if (eql ? m.equal(e.first, k) : m.eqv(e.first, k)) return e.second;
  return nullptr;
}
inline V needHash(Machine &m, V v) { if (v->t != HASH) throw bad(m); return v; }
inline V hset(Machine &m, Args &a, bool eql) {
  V h = needHash(m, a[0]);
  V e = hashFind(m, h, a[1], eql);
  if (e) e->b = a[2]; else h->h->e.push_back({a[1], m.cons(a[1], a[2])});
  return a[2];
}
inline V href(Machine &m, Args &a, bool eql) {
  V e = hashFind(m, needHash(m, a[0]), a[1], eql);
  return e ? e->b : (a.size() > 2 ? a[2] : m.fls);
}
inline V hhandle(Machine &m, Args &a, bool eql) { V e = hashFind(m, needHash(m, a[0]), a[1], eql); return e ? e : m.fls; }
inline V hcreate(Machine &m, Args &a, bool eql) {
  V e = hashFind(m, needHash(m, a[0]), a[1], eql);
  if (!e) { e = m.cons(a[1], a[2]); a[0]->h->e.push_back({a[1], e}); }
  return e;
}
inline V hremove(Machine &m, Args &a, bool eql) {
  V h = needHash(m, a[0]);
  for (size_t i = 0; i < h->h->e.size(); i++)
    if (eql ? m.equal(h->h->e[i].first, a[1]) : m.eqv(h->h->e[i].first, a[1])) { h->h->e.erase(h->h->e.begin() + (long)i); break; }
  return m.unspec;
}

// ---- ports.  A port is a source or a sink of characters.
inline PortT &inPort(Machine &m, Args &a, size_t at) {
  V v = a.size() > at ? a[at] : m.curIn;
  if (!v) throw Unsupported{"standard input"};
  if (v->t != PORT || !v->p->input) throw bad(m);
  if (v->p->closed) throw bad(m);
  if (v->p->poisoned) throw Unsupported{"port after a malformed datum"};
  return *v->p;
}
// reads one datum from a port's text; EOF object at the end
inline V portRead(Machine &m, PortT &p) {
  Machine::RD r{p.data, p.pos};
  m.ws(r);
  p.pos = r.p;
  if (r.p >= p.data.size()) return m.eofo;
  p.poisoned = true; // where a failing read leaves the port is open
  try {
    V v = m.read(r);
    p.pos = r.p;
    p.poisoned = false;
    return v;
  } catch (ReadEof &) { throw Unsupported{"the port ends within a datum"}; }
  catch (ReadFail &) { throw bad(m); }
}
inline PortT *outPort(Machine &m, Args &a, size_t at) {
  V v = a.size() > at ? a[at] : m.curOut;
  if (!v) { if (m.stdoutPort && m.stdoutPort->p->closed) throw bad(m); return nullptr; } // standard output
  if (v->t != PORT || !v->p->output) throw bad(m);
  if (v->p->closed) throw bad(m);
  return v->p.get();
}
// proc: which procedure of a soft port takes it
inline V emit(Machine &m, Args &a, size_t at, const std::string &s, size_t proc) {
  PortT *p = outPort(m, a, at);
  if (!p || p->std) m.disp += s;
  else if (p->soft) {
    V f = p->soft->v[proc];
    if (!Machine::truthy(f)) return m.unspec;
    K *n = m.mkk(K_DROP, m.ck); n->acc = m.unspec;
    Args b; if (proc < 2) b.push_back(proc ? m.str(s) : m.chr((unsigned char)s[0]));
    m.apply(f, b, n);
    return nullptr;
  }
  else if (p->file) {
    if (proc == 2) p->file->dirty = false;
    else {
      if (p->file->readers) throw Unsupported{"a file open for input is written"};
      p->file->data += s; p->file->dirty = true;
    }
  }
  else p->data += s;
  return m.unspec;
}
inline V newPort(Machine &m, bool in, bool out) { V o = m.mk(PORT); o->p = std::make_shared<PortT>(); o->p->input = in; o->p->output = out; return o; }
inline V openFile(Machine &m, V name, bool in) {
  const std::string &n = needStr(m, name);
  if (n.find('/') != std::string::npos || n.empty() || n.size() > 50) throw Unsupported{"file name"};
  if (in && !m.files.count(n)) throw bad(m);
  auto &f = m.files[n];
  V o = newPort(m, in, !in);
  if (in) {
    if (!f) throw bad(m);
    if (f->dirty) throw Unsupported{"a file open for output is read"};
    f->readers++;
    o->p->data = f->data;
  } else {
    if (f && (f->writers || f->readers)) throw Unsupported{"a file is opened again for output"};
    if (!f) f = std::make_shared<FileT>();
    f->data.clear();
    f->writers++;
  }
  o->p->file = f;
  return o;
}
inline V closePort(Machine &m, V v, bool in) {
  if (v->t != PORT || !(in ? v->p->input : v->p->output)) throw bad(m);
  if (v->p->closed) return m.unspec;
  if (v->p->soft && v->p->soft->v.size() > 4 && Machine::truthy(v->p->soft->v[4])) {
    v->p->closed = true;
    if (v->p->input && v->p->output) throw Unsupported{"closing one side of a soft port"};
    K *n = m.mkk(K_DROP, m.ck); n->acc = m.unspec; Args b; m.apply(v->p->soft->v[4], b, n); return nullptr;
  }
  v->p->closed = true;
  if (v->p->file) { (in ? v->p->file->readers : v->p->file->writers)--; if (!in) v->p->file->dirty = false; }
  return m.unspec;
}
// a character from a port: peek leaves it there
inline V getChar(Machine &m, Args &a, bool peek) {
  PortT &p = inPort(m, a, 0);
  if (p.soft) {
    if (p.peeked) { V c = p.peeked; if (!peek) p.peeked = nullptr; return c; }
    if (!Machine::truthy(p.soft->v[3])) return m.eofo;
    V self = a.empty() ? m.curIn : a[0];
    K *n = m.mkk(K_SOFTCH, m.ck); n->x = self; n->n = peek;
    Args b; m.apply(p.soft->v[3], b, n); return nullptr;
  }
  if (p.pos >= p.data.size()) return m.eofo;
  return m.chr((unsigned char)p.data[peek ? p.pos : p.pos++]);
}

inline void Machine::init() {
  Machine &M = *this;
  nil = mk(NIL); tru = mk(BOOL); tru->flag = true; fls = mk(BOOL); unspec = mk(UNSPEC); eofo = mk(EOFO); undef = mk(UNDEF);
  global = nullptr;
  cv = unspec;
  root = cur = newModule(nullptr);
  gtab[sym("%load-path")] = nil;

  // ------------------------------------------------------------- numbers
  P("+", 0, -1) { return foldArith(m, a, '+', 0); } EP;
  P("*", 0, -1) { return foldArith(m, a, '*', 1); } EP;
  P("-", 1, -1) {
    if (a.size() == 1 && a[0]->t == FLO) return m.flo(-a[0]->d);
    if (a.size() == 1) return arith(m, '-', m.num(0), a[0]);
    V r = needNum(m, a[0]);
    for (size_t i = 1; i < a.size(); i++) r = arith(m, '-', r, a[i]);
    return r;
  } EP;
  P("/", 0, -1) {
    if (a.empty()) throw Unsupported{"(/)"};
    if (a.size() == 1) return arith(m, '/', m.num(1), a[0]);
    V r = needNum(m, a[0]);
    for (size_t i = 1; i < a.size(); i++) r = arith(m, '/', r, a[i]);
    return r;
  } EP;
  P("=", 0, -1) { return chain(m, a, [](int c) { return c == 0; }); } EP;
  P("<", 0, -1) { return chain(m, a, [](int c) { return c < 0; }); } EP;
  P(">", 0, -1) { return chain(m, a, [](int c) { return c > 0; }); } EP;
  P("<=", 0, -1) { return chain(m, a, [](int c) { return c <= 0; }); } EP;
  P(">=", 0, -1) { return chain(m, a, [](int c) { return c >= 0; }); } EP;
  auto maxmin = [&](const char *n, PrimFn f) { defprim(n, 1, -1, f); };
  maxmin("max", [](Machine &m, Args &a) -> V {
    V r = needNum(m, a[0]); bool fl = r->t == FLO;
    for (V x : a) { needNum(m, x); if (x->t == FLO) fl = true; if (m.numcmp(x, r) > 0) r = x; }
    return fl && r->t != FLO ? m.flo(toD(r)) : r;
  });
  maxmin("min", [](Machine &m, Args &a) -> V {
    V r = needNum(m, a[0]); bool fl = r->t == FLO;
    for (V x : a) { needNum(m, x); if (x->t == FLO) fl = true; if (m.numcmp(x, r) < 0) r = x; }
    return fl && r->t != FLO ? m.flo(toD(r)) : r;
  });
  P("abs", 1, 1) {
    V x = needNum(m, a[0]);
    if (x->t == FLO) return m.flo(std::fabs(x->d));
    if (x->i >= 0) return x;
    return arith(m, '-', m.num(0), x);
  } EP;
  P("quotient", 2, 2) {
    int64_t x = needInt(m, a[0]), y = needInt(m, a[1]);
    if (!y) throw bad(m);
    if (x == INT64_MIN) throw Unsupported{"min"};
    return m.num(x / y);
  } EP;
  P("remainder", 2, 2) {
    int64_t x = needInt(m, a[0]), y = needInt(m, a[1]);
    if (!y) throw bad(m);
    if (x == INT64_MIN) throw Unsupported{"min"};
    return m.num(x % y);
  } EP;
  P("modulo", 2, 2) {
    int64_t x = needInt(m, a[0]), y = needInt(m, a[1]);
    if (!y) throw bad(m);
    if (x == INT64_MIN) throw Unsupported{"min"};
    int64_t r = x % y;
    if (r && ((r < 0) != (y < 0))) r += y;
    return m.num(r);
  } EP;
  P("gcd", 0, -1) {
    uint64_t g = 0;
    for (V x : a) { int64_t i = needInt(m, x); uint64_t u = i < 0 ? 0 - (uint64_t)i : (uint64_t)i; while (u) { uint64_t t = g % u; g = u; u = t; } }
    return m.num((int64_t)g);
  } EP;
  P("lcm", 0, -1) {
    __int128 l = 1;
    for (V x : a) {
      int64_t i = needInt(m, x);
      if (!i) { l = 0; continue; }
      if (!l) continue;
      __int128 u = i < 0 ? -(__int128)i : i, g = l, h = u;
      while (h) { __int128 t = g % h; g = h; h = t; }
      l = l / g * u;
      if (l > INT64_MAX) throw Unsupported{"overflow"};
    }
    return m.num((int64_t)l);
  } EP;
  P("sqrt", 1, 1) {
    V x = needNum(m, a[0]);
    double d = toD(x);
    if (d < 0) throw Unsupported{"sqrt neg"};
    // whether the root of a perfect square is exact is left open by the reports; pscm returns it inexact
    if (x->t == RAT) throw Unsupported{"sqrt rat"};
    return m.flo(std::sqrt(d));
  } EP;
  P("expt", 2, 2) {
    V b = needNum(m, a[0]), e = needNum(m, a[1]);
    if (e->t == INT && b->t != FLO) {
      int64_t n = e->i < 0 ? -e->i : e->i;
      if (n > 200) throw Unsupported{"expt size"};
      V r = m.num(1);
      for (int64_t i = 0; i < n; i++) r = arith(m, '*', r, b);
      if (e->i < 0) r = arith(m, '/', m.num(1), r);
      return r;
    }
    double v = std::pow(toD(b), toD(e));
    if (v != v || std::isinf(v)) throw Unsupported{"expt"};
    return m.flo(v);
  } EP;
  P("zero?", 1, 1) { return m.boolv(m.numcmp(needNum(m, a[0]), m.num(0)) == 0); } EP;
  P("positive?", 1, 1) { return m.boolv(m.numcmp(needNum(m, a[0]), m.num(0)) == 1); } EP;
  P("negative?", 1, 1) { return m.boolv(m.numcmp(needNum(m, a[0]), m.num(0)) == -1); } EP;
  P("odd?", 1, 1) { return m.boolv(needInt(m, a[0]) & 1); } EP;
  P("even?", 1, 1) { return m.boolv(!(needInt(m, a[0]) & 1)); } EP;
  P("number?", 1, 1) { return m.boolv(isnum(a[0])); } EP;
  P("complex?", 1, 1) { return m.boolv(isnum(a[0])); } EP;
  P("real?", 1, 1) { return m.boolv(isnum(a[0])); } EP;
  P("rational?", 1, 1) { return m.boolv(a[0]->t == INT || a[0]->t == RAT); } EP; // pscm documents: floats are not
  P("integer?", 1, 1) { if (a[0]->t == FLO) throw Unsupported{"integer? flo"}; return m.boolv(a[0]->t == INT); } EP;
  P("exact?", 1, 1) { if (!isnum(a[0])) throw Unsupported{"exact? nonnum"}; return m.boolv(a[0]->t != FLO); } EP;
  P("inexact?", 1, 1) { if (!isnum(a[0])) throw Unsupported{"inexact? nonnum"}; return m.boolv(a[0]->t == FLO); } EP;
  P("number->string", 1, 2) {
    V x = needNum(m, a[0]);
    int64_t rx = a.size() > 1 ? needInt(m, a[1]) : 10;
    if (rx < 2 || rx > 36) throw bad(m);
    if (rx == 10) return m.str(m.numstr(x));
    if (x->t != INT) throw Unsupported{"radix of no integer"};
    auto conv = [&](int64_t v) {
      bool neg = v < 0; uint64_t u = neg ? 0 - (uint64_t)v : (uint64_t)v; std::string s;
      do { s = "0123456789abcdefghijklmnopqrstuvwxyz"[u % (uint64_t)rx] + s; u /= (uint64_t)rx; } while (u);
      return (neg ? "-" : "") + s;
    };
    std::string s = conv(x->i);
    if (x->t == RAT) s += "/" + conv(x->j);
    return m.str(s);
  } EP;
  P("string->number", 1, 2) {
    std::string s = needStr(m, a[0]);
    int64_t rx = a.size() > 1 ? needInt(m, a[1]) : 10;
    if (rx < 2 || rx > 36) throw bad(m);
    if (rx == 10) {
      if (s.find('#') != std::string::npos) throw Unsupported{"# in a number"};
      size_t sl = s.find('/');
      if (sl != std::string::npos && s.find_first_not_of("0", sl + 1) == std::string::npos) return m.fls; // no denominator or zero
      V v = m.atom(s); return isnum(v) ? v : m.fls;
    }
    size_t i = 0; bool neg = false;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    if (i == s.size()) return m.fls;
    __int128 v = 0;
    for (; i < s.size(); i++) {
      int d = isdigit((unsigned char)s[i]) ? s[i] - '0' : isalpha((unsigned char)s[i]) ? tolower(s[i]) - 'a' + 10 : 99;
      if (s[i] == '.' || s[i] == '/') throw Unsupported{"radix fraction"};
      if (d >= rx) return m.fls;
      v = v * rx + d;
      if (v > INT64_MAX) throw Unsupported{"overflow"};
    }
    return m.num((int64_t)(neg ? -v : v));
  } EP;

  // ------------------------------------------------------- pairs and lists
  P("cons", 2, 2) { return m.cons(a[0], a[1]); } EP;
  P("car", 1, 1) { return needPair(m, a[0])->a; } EP;
  P("cdr", 1, 1) { return needPair(m, a[0])->b; } EP;
  P("cadr", 1, 1) { return needPair(m, needPair(m, a[0])->b)->a; } EP;
  P("cddr", 1, 1) { return needPair(m, needPair(m, a[0])->b)->b; } EP;
  P("caddr", 1, 1) { return needPair(m, needPair(m, needPair(m, a[0])->b)->b)->a; } EP;
  P("set-car!", 2, 2) { needPair(m, a[0])->a = a[1]; return m.unspec; } EP;
  P("set-cdr!", 2, 2) { needPair(m, a[0])->b = a[1]; return m.unspec; } EP;
  P("list", 0, -1) { return m.list(a); } EP;
  P("length", 1, 1) { return m.num((int64_t)needList(m, a[0]).size()); } EP;
  P("reverse", 1, 1) { auto v = needList(m, a[0]); V r = m.nil; for (V x : v) r = m.cons(x, r); return r; } EP;
  P("append", 0, -1) {
    if (a.empty()) return m.nil;
    V r = a.back();
    for (size_t i = a.size() - 1; i-- > 0;) r = m.list(needList(m, a[i]), r);
    return r;
  } EP;
  P("list-head", 2, 2) {
    int64_t k = needInt(m, a[1]); if (k < 0) throw bad(m);
    std::vector<V> v; V l = a[0];
    for (int64_t i = 0; i < k; i++) { needPair(m, l); v.push_back(l->a); l = l->b; }
    return m.list(v);
  } EP;
  P("list-tail", 2, 2) {
    int64_t k = needInt(m, a[1]); if (k < 0) throw bad(m);
    V l = a[0];
    for (int64_t i = 0; i < k; i++) l = needPair(m, l)->b;
    return l;
  } EP;
  P("list-ref", 2, 2) {
    int64_t k = needInt(m, a[1]); if (k < 0) throw bad(m);
    V l = a[0];
    for (int64_t i = 0; i < k; i++) l = needPair(m, l)->b;
    return needPair(m, l)->a;
  } EP;
  P("last-pair", 1, 1) {
    V l = a[0];
    if (l->t == NIL) return l;
    needPair(m, l);
    for (int i = 0; l->b->t == PAIR; i++) { if (i > 200000) throw bad(m); l = l->b; }
    return l;
  } EP;
  P("memq", 2, 2) { return memGeneric(m, a[0], a[1], 0); } EP;
  P("memv", 2, 2) { return memGeneric(m, a[0], a[1], 1); } EP;
  P("member", 2, 2) { return memGeneric(m, a[0], a[1], 2); } EP;
  P("assq", 2, 2) { return assGeneric(m, a[0], a[1], 0); } EP;
  P("assv", 2, 2) { return assGeneric(m, a[0], a[1], 1); } EP;
  P("assoc", 2, 2) { return assGeneric(m, a[0], a[1], 2); } EP;
  P("acons", 3, 3) { return m.cons(m.cons(a[0], a[1]), a[2]); } EP;
  P("assoc-ref", 2, 2) { V p = assGeneric(m, a[1], a[0], 2); return p->t == PAIR ? p->b : m.fls; } EP;
  auto asset = [](Machine &m, Args &a, int mode) -> V {
    V p = assGeneric(m, a[1], a[0], mode);
    if (p->t != PAIR) return m.cons(m.cons(a[1], a[2]), a[0]);
    std::vector<V> v = needList(m, a[0]);
    for (auto &x : v) if (x == p) { x = m.cons(a[1], a[2]); break; }
    return m.list(v);
  };
  static auto assetS = asset;
  P("assoc-set!", 3, 3) { return assetS(m, a, 2); } EP;
  P("assq-set!", 3, 3) { return assetS(m, a, 0); } EP;
  P("assoc-remove!", 2, 2) {
    V p = assGeneric(m, a[1], a[0], 2);
    if (p->t != PAIR) return a[0];
    std::vector<V> v = needList(m, a[0]), r; bool done = false;
    for (V x : v) { if (x == p && !done) { done = true; continue; } r.push_back(x); }
    return m.list(r);
  } EP;
  P("pair?", 1, 1) { return m.boolv(a[0]->t == PAIR); } EP;
  P("null?", 1, 1) { return m.boolv(a[0]->t == NIL); } EP;
  P("list?", 1, 1) {
    V l = a[0], h = l;
    for (;;) {
      if (h->t == NIL) return m.tru; if (h->t != PAIR) return m.fls; h = h->b;
      if (h->t == NIL) return m.tru; if (h->t != PAIR) return m.fls; h = h->b;
      l = l->b; if (l == h) return m.fls;
    }
  } EP;

  // ------------------------------------------------------------- vectors
  P("vector", 0, -1) { V o = m.mk(VEC); o->v = a; return o; } EP;
  P("make-vector", 1, 2) {
    int64_t n = needInt(m, a[0]); if (n < 0) throw bad(m); if (n > 100000) throw Unsupported{"size"};
    V o = m.mk(VEC); o->v.assign((size_t)n, a.size() > 1 ? a[1] : m.unspec); return o;
  } EP;
  P("vector?", 1, 1) { return m.boolv(a[0]->t == VEC); } EP;
  P("vector-length", 1, 1) { if (a[0]->t != VEC) throw bad(m); return m.num((int64_t)a[0]->v.size()); } EP;
  P("vector-ref", 2, 2) {
    if (a[0]->t != VEC) throw bad(m); int64_t i = needInt(m, a[1]);
    if (i < 0 || i >= (int64_t)a[0]->v.size()) throw bad(m); return a[0]->v[(size_t)i];
  } EP;
  P("vector-set!", 3, 3) {
    if (a[0]->t != VEC) throw bad(m); int64_t i = needInt(m, a[1]);
    if (i < 0 || i >= (int64_t)a[0]->v.size()) throw bad(m); a[0]->v[(size_t)i] = a[2]; return m.unspec;
  } EP;
  P("vector->list", 1, 1) { if (a[0]->t != VEC) throw bad(m); return m.list(a[0]->v); } EP;
  P("list->vector", 1, 1) { V o = m.mk(VEC); o->v = needList(m, a[0]); return o; } EP;

  // --------------------------------------------- characters and strings
  P("char?", 1, 1) { return m.boolv(a[0]->t == CHR); } EP;
  P("char->integer", 1, 1) { return m.num(needChr(m, a[0])); } EP;
  P("integer->char", 1, 1) { int64_t i = needInt(m, a[0]); if (i < 0) throw bad(m); if (i > 255) throw Unsupported{"wide char"}; return m.chr((int)i); } EP;
  P("char-upcase", 1, 1) { return m.chr(toupper(needChr(m, a[0]))); } EP;
  P("char-downcase", 1, 1) { return m.chr(tolower(needChr(m, a[0]))); } EP;
  P("char-alphabetic?", 1, 1) { return m.boolv(isalpha(needChr(m, a[0]))); } EP;
  P("char-numeric?", 1, 1) { return m.boolv(isdigit(needChr(m, a[0]))); } EP;
  P("char-whitespace?", 1, 1) { return m.boolv(isspace(needChr(m, a[0]))); } EP;
  P("char-upper-case?", 1, 1) { return m.boolv(isupper(needChr(m, a[0]))); } EP;
  P("char-lower-case?", 1, 1) { return m.boolv(islower(needChr(m, a[0]))); } EP;
#define CHCMP(nm, op)                                                                          \
  P("char" nm, 2, 2) { return m.boolv(needChr(m, a[0]) op needChr(m, a[1])); } EP;             \
  P("char-ci" nm, 2, 2) { return m.boolv(cicmp(std::string(1, (char)needChr(m, a[0])), std::string(1, (char)needChr(m, a[1]))) op 0); } EP; \
  P("string" nm, 2, 2) { return m.boolv(needStr(m, a[0]).compare(needStr(m, a[1])) op 0); } EP;         \
  P("string-ci" nm, 2, 2) { return m.boolv(cicmp(needStr(m, a[0]), needStr(m, a[1])) op 0); } EP
  CHCMP("=?", ==); CHCMP("<?", <); CHCMP(">?", >); CHCMP("<=?", <=); CHCMP(">=?", >=);
  P("string?", 1, 1) { return m.boolv(a[0]->t == STR); } EP;
  P("string-length", 1, 1) { return m.num((int64_t)needStr(m, a[0]).size()); } EP;
  P("string-ref", 2, 2) {
    auto &s = needStr(m, a[0]); int64_t i = needInt(m, a[1]);
    if (i < 0 || i >= (int64_t)s.size()) throw bad(m); return m.chr((unsigned char)s[(size_t)i]);
  } EP;
  P("string-set!", 3, 3) {
    auto &s = needStr(m, a[0]); int64_t i = needInt(m, a[1]); int c = needChr(m, a[2]);
    if (i < 0 || i >= (int64_t)s.size()) throw bad(m); s[(size_t)i] = (char)c; return m.unspec;
  } EP;
  P("string", 0, -1) { std::string s; for (V x : a) s += (char)needChr(m, x); return m.str(s); } EP;
  P("make-string", 1, 2) {
    int64_t n = needInt(m, a[0]); if (n < 0) throw bad(m); if (n > 100000) throw Unsupported{"size"};
    if (a.size() < 2 && n) { V s = m.str(std::string((size_t)n, ' ')); return s; }
    return m.str(std::string((size_t)n, a.size() > 1 ? (char)needChr(m, a[1]) : ' '));
  } EP;
  P("substring", 3, 3) {
    auto &s = needStr(m, a[0]); int64_t i = needInt(m, a[1]), j = needInt(m, a[2]);
    if (i < 0 || j < i || j > (int64_t)s.size()) throw bad(m); return m.str(s.substr((size_t)i, (size_t)(j - i)));
  } EP;
  P("string-append", 0, -1) { std::string r; for (V x : a) r += needStr(m, x); return m.str(r); } EP;
  P("string->list", 1, 1) { V r = m.nil; auto &s = needStr(m, a[0]); for (size_t i = s.size(); i-- > 0;) r = m.cons(m.chr((unsigned char)s[i]), r); return r; } EP;
  P("list->string", 1, 1) { std::string s; for (V x : needList(m, a[0])) s += (char)needChr(m, x); return m.str(s); } EP;
  P("symbol?", 1, 1) { return m.boolv(a[0]->t == SYM); } EP;
  P("symbol->string", 1, 1) { if (a[0]->t != SYM) throw bad(m); return m.str(a[0]->s); } EP;
  P("string->symbol", 1, 1) { return m.sym(needStr(m, a[0])); } EP;
  P("gensym", 0, 0) { V o = m.mk(SYM); char b[32]; snprintf(b, 32, " g%d", m.gens++); o->s = b; return o; } EP;

  // --------------------------------------------------------- equivalence
  P("eq?", 2, 2) { return m.boolv(m.eqv(a[0], a[1])); } EP;
  P("eqv?", 2, 2) { return m.boolv(m.eqv(a[0], a[1])); } EP;
  P("equal?", 2, 2) { return m.boolv(m.equal(a[0], a[1])); } EP;
  P("not", 1, 1) { return m.boolv(!truthy(a[0])); } EP;
  P("boolean?", 1, 1) { return m.boolv(a[0]->t == BOOL); } EP;
  P("procedure?", 1, 1) { return m.boolv(isproc(a[0])); } EP;

  // ---------------------------------------------------------- hash tables
  P("make-hash-table", 0, 1) { if (a.size() && needInt(m, a[0]) < 0) throw bad(m); V o = m.mk(HASH); o->h = std::make_shared<HashT>(); return o; } EP;
#define HASHV(pre, e)                                              \
  P(pre "-set!", 3, 3) { return hset(m, a, e); } EP;               \
  P(pre "-ref", 2, 2) { return href(m, a, e); } EP;                \
  P(pre "-get-handle", 2, 2) { return hhandle(m, a, e); } EP;      \
  P(pre "-create-handle!", 3, 3) { return hcreate(m, a, e); } EP;  \
  P(pre "-remove!", 2, 2) { return hremove(m, a, e); } EP
  HASHV("hash", true); HASHV("hashq", false); HASHV("hashv", false);
  P("hash-fold", 3, 3) {
    needHash(m, a[2]);
    K *n = m.mkk(K_HASHFOLD, m.ck); n->f = a[0]; n->n = 0;
    n->vec = std::make_shared<std::vector<V>>(); for (auto &e : a[2]->h->e) n->vec->push_back(e.second);
    m.ret(a[1], n); return nullptr;
  } EP;

  // -------------------------------------------------------------- control
  P("apply", 2, -1) {
    Args b(a.begin() + 1, a.end() - 1);
    for (V x : needList(m, a.back())) b.push_back(x);
    m.apply(a[0], b, m.ck); return nullptr;
  } EP;
  // When an argument that is no procedure is noticed (before or after the first effect) is open
  static auto needCallable = [](V f) { if (f->t != CLO && f->t != PRIM && f->t != CONT && f->t != SMOB) throw Unsupported{"not a procedure"}; };
  auto mapf = [](Machine &m, Args &a, KK kind) -> V {
    if (a.size() > 1 && a[1]->t == NIL) needCallable(a[0]);
    std::vector<V> ls(a.begin() + 1, a.end());
    size_t n0 = needList(m, ls[0]).size();
    for (V l : ls) if (needList(m, l).size() != n0) throw Unsupported{"unequal lists"};
    K *n = m.mkk(kind, m.ck); n->x = m.list(ls); n->f = a[0]; n->acc = m.nil; n->n = 0;
    m.ret(m.unspec, n); return nullptr;
  };
  static auto mapS = mapf;
  P("map", 2, -1) { return mapS(m, a, K_MAP); } EP;
  P("map-in-order", 2, -1) { return mapS(m, a, K_MAP); } EP;
  P("for-each", 2, -1) { return mapS(m, a, K_FOREACH); } EP;
  auto callcc = [](Machine &m, Args &a) -> V {
    m.callcc++;
    V c = m.mk(CONT); c->k = m.ck; c->w = m.wind; c->mod = m.cur;
    Args b{c}; m.apply(a[0], b, m.ck); return nullptr;
  };
  defprim("call/cc", 1, 1, callcc);
  defprim("call-with-current-continuation", 1, 1, callcc);
  P("values", 0, -1) { if (a.size() == 1) return a[0]; V o = m.mk(VALUES); o->v = a; return o; } EP;
  P("call-with-values", 2, 2) { needCallable(a[1]); K *n = m.mkk(K_CWV, m.ck); n->f = a[1]; Args b; m.apply(a[0], b, n); return nullptr; } EP;
  P("dynamic-wind", 3, 3) {
    for (V x : a) needCallable(x);
    K *n = m.mkk(K_DW_IN, m.ck); n->x = a[0]; n->y = a[1]; n->z = a[2];
    m.windsrun++;
    Args b; m.apply(a[0], b, n); return nullptr;
  } EP;
  P("catch", 3, 3) {
    if (a[0]->t != SYM && !(a[0]->t == BOOL && a[0]->flag)) throw Unsupported{"catch key"};
    K *n = m.mkk(K_CATCH, m.ck); n->x = a[0]; n->y = a[2]; n->w = m.wind;
    Args b; m.apply(a[1], b, n); return nullptr;
  } EP;
  P("throw", 1, -1) {
    if (a[0]->t != SYM) throw Unsupported{"throw key"};
    Args r(a.begin() + 1, a.end());
    throw SchemeErr{a[0], m.list(r)};
  } EP;
  P("force", 1, 1) {
    if (a[0]->t != PROM) throw bad(m);
    if (a[0]->flag) return a[0]->a;
    K *n = m.mkk(K_FORCE, m.ck); n->x = a[0]; m.ev(a[0]->b, a[0]->env, n); return nullptr;
  } EP;
  P("eval", 1, 1) { m.ev(a[0], m.top(), m.ck); return nullptr; } EP;
  P("defined?", 1, 1) { if (a[0]->t != SYM) throw bad(m); if (m.cur->binder || m.lazy(m.cur, a[0])) throw Unsupported{"defined?"}; return m.boolv(m.find(m.cur, a[0])); } EP;
  P("current-module", 0, 0) { return m.cur->obj; } EP;
  P("set-current-module", 1, 1) { if (a[0]->t != MODULE) throw bad(m); V o = m.cur->obj; m.cur = a[0]->mod; return o; } EP;
  P("resolve-module", 1, 1) { m.resolve(a[0], m.ck); return nullptr; } EP;
  P("module?", 1, 1) { return m.boolv(a[0]->t == MODULE); } EP;
  static auto modname = [](Machine &m, Args &a) {
    if (a[0]->t != MODULE || a[1]->t != SYM) throw bad(m);
    V *p = m.find(a[0]->mod, a[1]);
    if (p && m.gtab.count(a[1]) && p == &m.gtab[a[1]] && (m.builtins.count(a[1]) || m.macros.count(a[1]))) throw Unsupported{"module-ref of a built-in name"};
    if (!p && (a[0]->mod->binder || m.lazy(a[0]->mod, a[1]))) throw Unsupported{"module-ref"};
    return p;
  };
  P("module-bound?", 2, 2) { return m.boolv(modname(m, a)); } EP;
  P("module-ref", 2, 3) {
    V *p = modname(m, a);
    if (!p && a.size() < 3) throw m.err("error");
    return p ? *p : a[2];
  } EP;
  P("module-use!", 2, 2) {
    if (a[0]->t != MODULE) throw bad(m);
    if (a[1]->t == MODULE) { a[0]->mod->uses.push_front(a[1]->mod); return m.unspec; }
    if (a[1]->t != PAIR) throw bad(m);
    K *n = m.mkk(K_USE, m.ck); n->x = m.nil; n->y = a[0];
    m.resolve(a[1], n); return nullptr;
  } EP;
  P("module-map", 2, 2) {
    needCallable(a[0]);
    if (a[1]->t != MODULE) throw bad(m);
    if (a[1]->mod == m.root) throw Unsupported{"module-map of the initial module"};
    V l = m.nil;
    for (V s : a[1]->mod->own) l = m.cons(m.cons(s, a[1]->mod->tab[s]), l);
    K *n = m.mkk(K_MODMAP, m.ck); n->x = l; n->f = a[0]; n->acc = m.nil; n->n = 0;
    m.ret(m.unspec, n); return nullptr;
  } EP;
  P("set-module-binder!", 2, 2) {
    if (a[0]->t != MODULE) throw bad(m);
    needCallable(a[1]);
    if (a[0]->mod == m.root) throw Unsupported{"binder of the initial module"};
    a[0]->mod->binder = a[1]; return m.unspec;
  } EP;
  P("noop", 0, -1) { return m.unspec; } EP;
  P("gc", 0, 0) { return m.unspec; } EP;

  // ------------------------------------------------------------ variables
  P("make-variable", 1, 1) { V o = m.mk(VARIABLE); o->a = a[0]; return o; } EP;
  P("make-undefined-variable", 0, 0) { V o = m.mk(VARIABLE); o->a = nullptr; return o; } EP;
  P("variable?", 1, 1) { return m.boolv(a[0]->t == VARIABLE); } EP;
  P("variable-ref", 1, 1) { if (a[0]->t != VARIABLE || !a[0]->a) throw bad(m); return a[0]->a; } EP;
  P("variable-set!", 2, 2) { if (a[0]->t != VARIABLE) throw bad(m); a[0]->a = a[1]; return m.unspec; } EP;
  P("variable-bound?", 1, 1) { if (a[0]->t != VARIABLE) throw bad(m); return m.boolv(a[0]->a != nullptr); } EP;

  // ---------------------------------------------------------------- ports
  P("open-input-string", 1, 1) { V o = newPort(m, true, false); o->p->data = needStr(m, a[0]); return o; } EP;
  P("open-output-string", 0, 0) { return newPort(m, false, true); } EP;
  P("get-output-string", 1, 1) { if (a[0]->t != PORT || !a[0]->p->output || a[0]->p->file || a[0]->p->soft || a[0]->p->std) throw bad(m); return m.str(a[0]->p->data); } EP;
  P("open-input-file", 1, 1) { return openFile(m, a[0], true); } EP;
  P("open-output-file", 1, 1) { return openFile(m, a[0], false); } EP;
  P("input-port?", 1, 1) { return m.boolv(a[0]->t == PORT && a[0]->p->input); } EP;
  P("output-port?", 1, 1) { return m.boolv(a[0]->t == PORT && a[0]->p->output); } EP;
  P("eof-object?", 1, 1) { return m.boolv(a[0]->t == EOFO); } EP;
  P("read-char", 0, 1) { return getChar(m, a, false); } EP;
  P("peek-char", 0, 1) { return getChar(m, a, true); } EP;
  P("char-ready?", 0, 1) { PortT &p = inPort(m, a, 0); if (p.soft || p.pos >= p.data.size()) throw Unsupported{"char-ready?"}; return m.tru; } EP;
  P("read", 0, 1) { PortT &p = inPort(m, a, 0); if (p.soft) throw Unsupported{"read from a soft port"}; return portRead(m, p); } EP;
  P("write", 1, 2) { return emit(m, a, 1, m.show(a[0], true), 1); } EP;
  P("display", 1, 2) { return emit(m, a, 1, m.show(a[0], false), 1); } EP;
  P("newline", 0, 1) { return emit(m, a, 0, "\n", 0); } EP;
  P("write-char", 1, 2) { std::string s(1, (char)needChr(m, a[0])); return emit(m, a, 1, s, 0); } EP;
  P("force-output", 0, 1) {
    if (a.size() && a[0]->t == PORT && a[0]->p->closed) throw Unsupported{"flushing a closed port"};
    PortT *p = outPort(m, a, 0); return p ? emit(m, a, 0, "", 2) : m.unspec; } EP;
  P("close-input-port", 1, 1) { return closePort(m, a[0], true); } EP;
  P("close-output-port", 1, 1) { return closePort(m, a[0], false); } EP;
  auto cop = [](Machine &m) -> V {
    if (m.curOut) return m.curOut;
    if (!m.stdoutPort) { m.stdoutPort = newPort(m, false, true); m.stdoutPort->p->std = true; }
    return m.stdoutPort;
  };
  static auto copS = cop;
  P("current-output-port", 0, 0) { return copS(m); } EP;
  P("set-current-output-port", 1, 1) {
    if (a[0]->t != PORT || !a[0]->p->output) throw bad(m);
    V old = copS(m);
    m.curOut = a[0] == m.stdoutPort ? nullptr : a[0];
    return old;
  } EP;
  P("current-input-port", 0, 0) { if (!m.curIn) throw Unsupported{"standard input"}; return m.curIn; } EP;
  P("set-current-input-port", 1, 1) {
    if (a[0]->t != PORT || !a[0]->p->input) throw bad(m);
    V old = m.curIn ? m.curIn : newPort(m, true, false); if (!m.curIn) old->p->poisoned = true; m.curIn = a[0]; return old;
  } EP;
  P("make-soft-port", 2, 2) {
    if (a[0]->t != VEC || a[0]->v.size() < 5 || a[0]->v.size() > 6) throw bad(m);
    const std::string &md = needStr(m, a[1]);
    bool r = md.find('r') != std::string::npos, w = md.find('w') != std::string::npos;
    if (!r && !w) throw bad(m);
    V o = newPort(m, r, w); o->p->soft = a[0]; return o;
  } EP;
  P("call-with-output-string", 1, 1) {
    needCallable(a[0]);
    V p = newPort(m, false, true);
    K *n = m.mkk(K_CWOS, m.ck); n->x = p; Args b{p}; m.apply(a[0], b, n); return nullptr;
  } EP;
  P("call-with-input-string", 2, 2) {
    needCallable(a[1]);
    V p = newPort(m, true, false); p->p->data = needStr(m, a[0]);
    Args b{p}; m.apply(a[1], b, m.ck); return nullptr;
  } EP;
  auto cwf = [](Machine &m, Args &a, bool in) -> V {
    needCallable(a[1]);
    V p = openFile(m, a[0], in);
    K *n = m.mkk(K_CWF, m.ck); n->x = p; n->n = in; Args b{p}; m.apply(a[1], b, n); return nullptr;
  };
  static auto cwfS = cwf;
  P("call-with-input-file", 2, 2) { return cwfS(m, a, true); } EP;
  P("call-with-output-file", 2, 2) { return cwfS(m, a, false); } EP;
  auto ld = [](Machine &m, Args &a) -> V {
    const std::string &n = needStr(m, a[0]);
    auto it = m.files.find(n);
    if (n.find('/') != std::string::npos) throw Unsupported{"file name"};
    if (it == m.files.end()) throw bad(m);
    if (it->second->dirty) throw Unsupported{"a file open for output is read"};
    std::vector<V> fs;
    try { fs = m.readall(it->second->data); } catch (ReadFail &) { throw bad(m); }
    if (fs.empty()) return m.unspec;
    m.evseq(m.list(fs), m.top(), m.ck); return nullptr;
  };
  defprim("load", 1, 1, ld);
  defprim("primitive-load", 1, 1, ld);
}
#undef P
#undef EP
} // namespace ref
