// What the host functions of host.hh do, for the reference machine.
#pragma once
namespace ref {
static const int64_t HOST_TAG = 0x1000000;
inline V Machine::hostPrim(const char *n, int mn, int mx, PrimFn f) { V o = mk(PRIM); o->s = n; o->i = mn; o->j = mx; o->fn = f; return o; }
inline void hostLine(Machine &m, const std::string &head, const Args &a, size_t from = 0) {
  m.out += "{" + head;
  for (size_t i = from; i < a.size(); i++) m.out += " " + m.show(a[i], true);
  m.out += "}\n";
}
inline V hostName(Machine &m, V v) { if (v->t == SYM) return v; if (v->t == STR) return m.sym(v->s); throw m.err("error"); }
// give the module of that name to k
inline void hostResolve(Machine &m, V name, K *k) {
  std::vector<V> xs;
  try { xs = m.readall(hostName(m, name)->s); } catch (ReadFail &) { throw m.err("error"); }
  if (xs.size() != 1 || xs[0]->t != PAIR) throw m.err("error");
  if (m.show(xs[0], true) == "(pscm-user)") { m.ret(m.root->obj, k); return; }
  std::string file;
  for (V l = xs[0]; l->t == PAIR; l = l->b) { if (l->a->t != SYM) throw Unsupported{"name of a module"}; file += (file.empty() ? "" : "/") + l->a->s; }
  if (!m.modtab.count(m.show(xs[0], true)) && !m.files.count(file + ".scm")) { m.ret(m.newModule(xs[0])->obj, k); return; }
  m.resolve(xs[0], k);
}
inline K *hostK(Machine &m, HostFn f, V x = nullptr, V y = nullptr) { K *k = m.mkk(K_HOST, m.ck); k->host = f; k->x = x; k->y = y; return k; }
inline V hostFind(Machine &m, Mod *mod, V s) {
  V *p = m.find(mod, s);
  if (!p) { if (m.lazy(mod, s) || mod->binder) throw Unsupported{"a host lookup loads"}; throw m.err("error"); }
  if ((*p)->t == MACRO) throw Unsupported{"a macro as a value"};
  return *p;
}
inline V hostCatchAll(Machine &m, Args &) { if (m.hostHandler) m.out += "{error ok}\n"; return m.sym("null"); }
inline int64_t hostInt(Machine &m, V v) { if (v->t != INT) throw m.err("error"); return v->i; }
inline V Machine::smob(int64_t type, int64_t a, int64_t b, int64_t c) {
  if (type < 0 || type >= (int64_t)smobTypes.size()) throw err("error");
  V o = mk(SMOB); o->i = type; o->smob = std::make_shared<std::array<int64_t, 4>>(std::array<int64_t, 4>{type == 2 ? a & 15 : a, b, c, 0}); return o;
}
inline std::string Machine::showSmob(V v, bool wr) {
  int64_t n = (*v->smob)[0];
  if (v->i == 0 || v->i == 2) return std::string("#<") + (wr ? "w" : "d") + std::to_string(n) + ">";
  if (v->i >= 3 && smobTypes[(size_t)v->i].second) throw Unsupported{"a pointer is shown"};
  return "#<" + smobTypes[(size_t)v->i].first + " " + std::to_string(n) + ">";
}
inline bool Machine::equalSmob(V a, V b) {
  if (a->i != b->i) return false;
  if (a->i != 0) return a == b;
  out += "{equal " + std::to_string((*a->smob)[0]) + " " + std::to_string((*b->smob)[0]) + "}\n";
  return (*a->smob)[0] % 10 == (*b->smob)[0] % 10;
}
inline void Machine::applySmob(V f, Args &a, K *k) {
  if (!(f->i == 0 ? a.size() <= 3 : f->i == 2 && a.size() == 1)) throw err("error");
  Args all{f};
  all.insert(all.end(), a.begin(), a.end());
  hostLine(*this, "apply", all);
  if (a.size() < 3) { ret(list(all), k); return; }
  Args b{a[1], a[2]};
  apply(a[0], b, k);
}
inline void Machine::initHost() {
  static std::map<std::string, V> first; // the built-in ones, whatever the program defines
  for (const char *n : {"make-variable", "make-undefined-variable", "current-output-port", "current-input-port", "boolean?", "null?", "pair?", "procedure?", "not", "variable?", "eq?", "eqv?", "equal?", "append"}) first[n] = gtab[sym(n)];
  static auto builtin = [](const char *n) { V f = first[n]; if (!f) throw Unsupported{n}; return f; };
  smobTypes = {{"alpha", 0}, {"beta", 0}, {"gamma", 8}};
  auto F = [&](const char *n, PrimFn f) { hostFns[n] = f; };
  PrimFn rec = [](Machine &m, Args &a) -> V { hostLine(m, "rec", a); return m.list(a); };
  for (const char *n : {"rec0", "rec1", "rec2", "rec3", "recv"}) F(n, rec);
  F("id", [](Machine &, Args &a) -> V { return a[0]; });
  F("mark", [](Machine &, Args &a) -> V { return a[0]; });
  F("flat", [](Machine &m, Args &) -> V { return m.boolv(true); });
  F("thr", [](Machine &m, Args &a) -> V { if (a[0]->t != SYM) throw m.err("error"); m.out += "{thr}\n"; throw SchemeErr{a[0], m.list({a[1], a[1]})}; });
  F("ithr", [](Machine &m, Args &a) -> V { if (a[0]->t != SYM) throw m.err("error"); throw SchemeErr{a[0], m.list({a[1]})}; });
  F("err", [](Machine &m, Args &a) -> V { hostLine(m, "err", a); throw m.err("error"); });
  F("cb", [](Machine &m, Args &a) -> V {
    hostLine(m, "cb", a, 1);
    K *k = hostK(m, [](Machine &mm, K *, V v) -> V { Args b{v}; hostLine(mm, "back", b); return v; });
    Args b(a.begin() + 1, a.end());
    m.apply(a[0], b, k); return nullptr;
  });
  F("app", [](Machine &m, Args &a) -> V {
    Args b;
    V l = a[1];
    for (; l->t == PAIR; l = l->b) b.push_back(l->a);
    if (l->t != NIL) throw m.err("error");
    m.apply(a[0], b, m.ck); return nullptr;
  });
  F("catch", [](Machine &m, Args &a) -> V {
    if (a[0]->t != SYM && !(a[0]->t == BOOL && a[0]->flag)) throw Unsupported{"catch key"};
    K *n = m.mkk(K_CATCH, m.ck); n->x = a[0]; n->w = m.wind;
    n->y = m.hostPrim("handler", 0, -1, [](Machine &mm, Args &b) -> V {
      mm.out += "{handler}\n";
      if (b[0]->s == "\x01" || b[0]->s == "error") return mm.sym("caught-error");
      return mm.list(b);
    });
    Args b; m.apply(a[1], b, n); return nullptr;
  });
  F("lazy", [](Machine &m, Args &a) -> V {
    if (a[0]->t != SYM && !(a[0]->t == BOOL && a[0]->flag)) throw Unsupported{"catch key"};
    K *n = m.mkk(K_CATCH, m.ck); n->x = a[0]; n->w = m.wind; n->n = 2;
    Args b; m.apply(a[1], b, n); return nullptr;
  });
  F("def", [](Machine &m, Args &a) -> V { m.defineTop(m.top(), hostName(m, a[0]), a[1]); return a[1]; });
  F("look", [](Machine &m, Args &a) -> V { return hostFind(m, m.cur, hostName(m, a[0])); });
  F("mod", [](Machine &m, Args &a) -> V {
    hostResolve(m, a[0], hostK(m, [](Machine &mm, K *k, V v) -> V {
      K *n = mm.mkk(K_WITHMOD, k->next); n->x = mm.cur->obj;
      mm.cur = v->mod;
      Args b; mm.apply(k->x, b, n); return nullptr;
    }, a[1]));
    return nullptr;
  });
  F("mlook", [](Machine &m, Args &a) -> V { hostResolve(m, a[0], hostK(m, [](Machine &mm, K *k, V v) -> V { return hostFind(mm, v->mod, hostName(mm, k->x)); }, a[1])); return nullptr; });
  F("mdef", [](Machine &m, Args &a) -> V {
    hostResolve(m, a[0], hostK(m, [](Machine &mm, K *k, V v) -> V { mm.defineTop(v->mod == mm.root ? nullptr : v->mod->env, hostName(mm, k->x), k->y); return k->y; }, a[1], a[2]));
    return nullptr;
  });
  F("use", [](Machine &m, Args &a) -> V { hostResolve(m, a[0], hostK(m, [](Machine &mm, K *, V v) -> V { mm.cur->uses.push_front(v->mod); return mm.nil; })); return nullptr; });
  F("conv", [](Machine &m, Args &a) -> V {
    std::string k = hostName(m, a[0])->s;
    V v = a[1];
    if (k == "int" && v->t == INT) { if (v->i != (int32_t)v->i) throw Unsupported{"an int that is too large"}; return m.num(v->i); }
    if (k == "big" && v->t == INT) { if (v->i != (int32_t)v->i) throw Unsupported{"an int that is too large"}; return m.num(v->i * (1LL << 32)); }
    if (k == "dbl" && m.isnum(v)) return m.flo(v->t == FLO ? v->d : v->t == INT ? (double)v->i : (double)v->i / (double)v->j);
    if (k == "chr" && v->t == CHR) return m.chr((int)v->i);
    if ((k == "str" || k == "strz" || k == "cstr") && v->t == STR) return m.str(v->s);
    if ((k == "sym" || k == "symn") && v->t == STR) return m.sym(v->s);
    if (k == "symstr" && v->t == SYM) return m.str(v->s);
    if (k == "bool" && v->t == BOOL) return v;
    if (k == "l1") return m.list({v});
    if (k == "l3") return m.list({v, m.nil, v});
    if (k == "cons") return m.cons(v, v);
    if (k == "ev") {
      K *n = m.mkk(K_CATCH, m.ck); n->x = m.tru; n->w = m.wind; n->y = m.hostPrim("null", 0, -1, hostCatchAll);
      m.ev(v, m.top(), n); return nullptr;
    }
    if (k == "parse" && v->t == STR) {
      std::vector<V> xs;
      try { xs = m.readall(v->s); } catch (ReadFail &) { xs.clear(); }
      if (xs.size() == 1) return xs[0];
      Args none; return hostCatchAll(m, none);
    }
    if (k == "var") return v;
    auto call = [&](const char *n, Args b) { m.apply(builtin(n), b, m.ck); return (V) nullptr; };
    auto direct = [&](const char *n, Args b) { return builtin(n)->fn(m, b); };
    if (k == "mkvar") return call("make-variable", {v});
    if (k == "undef") return call("make-undefined-variable", {});
    if (k == "curout") return call("current-output-port", {});
    if (k == "curin") return call("current-input-port", {});
    if (k == "preds") { std::vector<V> l; for (const char *n : {"boolean?", "null?", "pair?", "procedure?", "not", "variable?"}) l.push_back(direct(n, {v})); return m.list(l); }
    if (k == "eqs" && v->t == PAIR && v->b->t == PAIR) { std::vector<V> l; for (const char *n : {"eq?", "eqv?", "equal?"}) l.push_back(direct(n, {v->a, v->b->a})); return m.list(l); }
    if (k == "app2" && v->t == PAIR) return call("append", {v->a, v->b->t == PAIR ? v->b->a : m.nil});
    if (k == "es" && v->t == STR) { // every expression of the text
      std::vector<V> xs;
      try { xs = m.readall(v->s); } catch (ReadFail &) { throw Unsupported{"a text that cannot be read"}; }
      if (xs.empty()) throw Unsupported{"an empty text"};
      std::vector<V> b{m.sym("begin")};
      b.insert(b.end(), xs.begin(), xs.end());
      m.ev(m.list(b), m.top(), m.ck); return nullptr;
    }
    throw m.err("error");
  });
  static V out_, in_, force_; // the built-in ones, whatever the program defines
  out_ = gtab[sym("set-current-output-port")]; in_ = gtab[sym("set-current-input-port")]; force_ = gtab[sym("force-output")];
  F("port", [](Machine &m, Args &a) -> V { m.apply(out_, a, m.ck); return nullptr; });
  F("inport", [](Machine &m, Args &a) -> V { m.apply(in_, a, m.ck); return nullptr; });
  F("force", [](Machine &m, Args &a) -> V { if (a[0]->t != PORT) throw Unsupported{"force-output"}; m.apply(force_, a, hostK(m, [](Machine &mm, K *, V) -> V { return mm.nil; })); return nullptr; });
  F("mk", [](Machine &m, Args &a) -> V { int64_t t = hostInt(m, a[0]), d = hostInt(m, a[1]); return m.smob(t >= 0 && t < 3 ? t : t - HOST_TAG, d, 0, 0); });
  F("mk3", [](Machine &m, Args &a) -> V { int64_t t = hostInt(m, a[0]), x = hostInt(m, a[1]), y = hostInt(m, a[2]), z = a.size() > 3 ? hostInt(m, a[3]) : 0; if (t != 0 && t != 1) throw Unsupported{"mk3"}; return m.smob(t, x, y, z); });
  F("get", [](Machine &m, Args &a) -> V { if (a[0]->t != SMOB) throw m.err("error"); std::vector<V> l; for (int64_t i : *a[0]->smob) l.push_back(m.num(i)); return m.list(l); });
  F("set", [](Machine &m, Args &a) -> V {
    int64_t w = hostInt(m, a[1]), n = hostInt(m, a[2]);
    if (a[0]->t != SMOB) throw m.err("error");
    (*a[0]->smob)[w >= 0 && w < 3 ? (size_t)w : 3] = w == 0 && a[0]->i == 2 ? n & 15 : n;
    return a[0];
  });
  F("isa", [](Machine &m, Args &a) -> V { return m.boolv(a[1]->t == SMOB && a[1]->i == hostInt(m, a[0]) % 3); });
  F("chk", [](Machine &m, Args &a) -> V { if (!(a[1]->t == SMOB && a[1]->i == hostInt(m, a[0]) % 3)) throw m.err("error"); return a[1]; });
  defprim("scm-make-smob-type", 2, 2, [](Machine &m, Args &a) -> V {
    if (a[0]->t != STR || a[1]->t != INT || m.smobTypes.size() >= 256) throw m.err("error");
    m.smobTypes.push_back({a[0]->s, a[1]->i}); return m.num(HOST_TAG + (int64_t)m.smobTypes.size() - 1);
  });
  defprim("scm-make-smob", 2, 2, [](Machine &m, Args &a) -> V {
    if (a[0]->t != INT || a[1]->t != INT) throw m.err("error");
    int64_t t = a[0]->i - HOST_TAG;
    if (t == 2) throw Unsupported{"a pointer from the program"};
    return m.smob(t, a[1]->i, 0, 0);
  });
  defprim("scm-smob-data", 1, 1, [](Machine &m, Args &a) -> V { if (a[0]->t != SMOB || m.smobTypes[(size_t)a[0]->i].second) throw m.err("error"); return m.num((*a[0]->smob)[0]); });
  defprim("scm-smob?", 1, 1, [](Machine &m, Args &a) -> V { return m.boolv(a[0]->t == SMOB); });
}
static inline std::string hostWord(const std::string &t, size_t &p) {
  std::string b;
  int depth = 0;
  while (p < t.size() && (depth || t[p] != ' ')) { if (t[p] == '(') depth++; if (t[p] == ')') depth--; b += t[p++]; }
  if (p < t.size()) p++;
  return b;
}
inline bool Machine::hostStep(char kind, const std::string &t) {
  size_t p = 0;
  auto quote = [&](V v) { return list({sym("quote"), v}); };
  auto call = [&](const char *fn, std::vector<V> args) { // the value of a host function applied to values
    std::vector<V> f{quote(hostPrim(fn, 0, -1, hostFns[fn]))};
    for (V a : args) f.push_back(quote(a));
    return run(list(f));
  };
  auto eval1 = [&](const std::string &text) -> V { // null: it failed, and that was reported
    std::vector<V> xs;
    try { xs = readall(text); } catch (ReadFail &) { xs.clear(); }
    if (xs.size() != 1) throw Unsupported{"text of a host step"};
    return run(xs[0]);
  };
  auto result = [&](V v) { if (!v && hostHandler) out += "{error ok}\n"; outcome(v, true); };
  switch (kind) {
  case 'D': { std::string n = hostWord(t, p); V v = eval1(t.substr(p)); if (v) defineTop(top(), sym(n), v); result(v); return true; }
  case 'L': result(call("look", {sym(t)})); return true;
  case 'R': {
    std::string n = hostWord(t, p), f = hostWord(t, p);
    int req = atoi(hostWord(t, p).c_str()), opt = atoi(hostWord(t, p).c_str()), rst = atoi(hostWord(t, p).c_str());
    if (!hostFns.count(f)) throw Unsupported{"host function " + f};
    V o = hostPrim("", req, rst ? -1 : req + opt, hostFns[f]);
    o->s = n;
    defineTop(top(), sym(n), o);
    result(tru);
    return true;
  }
  case 'C': {
    std::string n = hostWord(t, p);
    V f = eval1(n), a = f ? eval1(t.substr(p)) : nullptr;
    result(a ? call("app", {f, a}) : nullptr);
    return true;
  }
  case 'M': {
    char op = t.size() ? t[0] : 0;
    p = t.size() > 1 && t[1] == ' ' ? 2 : 1;
    std::string n = hostWord(t, p);
    if (op == 'c') { outcome(cur->obj, true); return true; }
    if (op == 'u') { V v = call("use", {str(n)}); if (!v) { if (hostHandler) out += "{error ok}\n"; wind = nullptr; } return true; }
    if (op == 'l') { result(call("mlook", {str(n), str(t.substr(p))})); return true; }
    V m = run(list({quote(hostPrim("resolve", 1, 1, [](Machine &mm, Args &a) -> V { hostResolve(mm, a[0], mm.ck); return nullptr; })), quote(str(n))}));
    if (!m) { result(m); return true; }
    Mod *old = cur;
    if (op == 's') { cur = m->mod; outcome(nil, true); return true; }
    if (op == 'd') { std::string x = hostWord(t, p); V v = eval1(t.substr(p)); if (v) defineTop(m->mod == root ? nullptr : m->mod->env, sym(x), v); result(v); return true; }
    if (op == 'w' || op == 'n') { cur = m->mod; V v = eval1(t.substr(p)); cur = old; result(v); return true; }
    return true;
  }
  case 'H': hostHandler = t == "1"; return true;
  case 'O': case 'I': { V v = eval1(t); v = v ? call(kind == 'O' ? "port" : "inport", {v}) : nullptr; result(v ? nil : v); return true; }
  }
  return false;
}
} // namespace ref
