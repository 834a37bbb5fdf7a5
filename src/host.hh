// The host of the histories of P21: native procedures, object types and operations of the embedding
// interface, as an embedding would write them.  refhost.hh holds what each of them is to do.
#include "smob.h"
#include "error.h"

static void line(const char *head, SCM_List *l, const char *end = "}\n") { // a line of the results
  FILE *of = stdout;
  stdout = g_f;
  printf("{%s", head);
  for (; l; l = l->next) { printf(" "); print_ast(l->data, true); }
  printf("%s", end);
  fflush(g_f);
  stdout = of;
}
static SCM_List *mklist(std::initializer_list<SCM *> xs) {
  SCM_List *h = nullptr, **t = &h;
  for (SCM *x : xs) { *t = make_list(x); t = &(*t)->next; }
  return h;
}
static SCM *toList(SCM_List *l) { // a fresh list of the arguments
  SCM_List *h = nullptr, *t = nullptr;
  for (; l; l = l->next) { SCM_List *n = make_list(l->data); if (t) t->next = n; else h = n; t = n; }
  return h ? wrap(h) : scm_nil();
}
static SCM *rec0() { line("rec", nullptr); return scm_nil(); }
static SCM *rec1(SCM *a) { SCM_List *l = mklist({a}); line("rec", l); return wrap(l); }
static SCM *rec2(SCM *a, SCM *b) { SCM_List *l = mklist({a, b}); line("rec", l); return wrap(l); }
static SCM *rec3(SCM *a, SCM *b, SCM *c) { SCM_List *l = mklist({a, b, c}); line("rec", l); return scm_list3(a, b, c); }
static SCM *recv(SCM_List *l) { line("rec", l); return toList(l); }
static SCM *hid(SCM *a) { return a; }
static SCM *hthr(SCM *key, SCM *a) { if (!is_sym(key)) eval_error("a key is needed"); line("thr", nullptr); return scm_throw(key, scm_list2(a, a)); }
static SCM *hithr(SCM *key, SCM *a) { if (!is_sym(key)) eval_error("a key is needed"); return pscm_ithrow(key, scm_list1(a), 1); }
static SCM *herr(SCM *a) { line("err", mklist({a})); eval_error("host error %d", 5); return a; }
static SCM *hcb(SCM_List *l) { // calls its first argument with the others
  int n = 0;
  for (SCM_List *x = l->next; x; x = x->next) n++;
  line("cb", l->next);
  SCM *f = l->data, *r;
  SCM_List *x = l->next;
  if (n == 0) r = scm_call_0(f);
  else if (n == 1) r = scm_call_1(f, x->data);
  else if (n == 2) r = scm_call_2(f, x->data, x->next->data);
  else if (n == 3) r = scm_call_3(f, x->data, x->next->data, x->next->next->data);
  else r = scm_apply_0(f, toList(x));
  line("back", mklist({f == l->data && x == l->next ? r : scm_nil()}));
  return r;
}
static SCM *happ(SCM *f, SCM *args) { return scm_apply_0(f, args); }
static SCM *thunkBody(void *f) { return scm_call_0((SCM *)f); }
static SCM *catchHandler(void *d, SCM *key, SCM *args) {
  line((const char *)d, nullptr);
  if (is_sym(key) && builtinKey(cast<SCM_Symbol>(key)->data)) return wrap(make_sym("caught-error"));
  return scm_cons(key, args && is_pair(args) ? args : scm_nil());
}
static SCM *hcatch(SCM *tag, SCM *thunk) { return scm_internal_catch(tag, thunkBody, thunk, catchHandler, (void *)"handler"); }
static SCM *lazyHandler(void *, SCM *key, SCM *) { line(is_sym(key) && !builtinKey(cast<SCM_Symbol>(key)->data) ? cast<SCM_Symbol>(key)->data : "lazy", nullptr); return scm_nil(); }
static SCM *hlazy(SCM *tag, SCM *thunk) { return scm_internal_lazy_catch(tag, thunkBody, thunk, lazyHandler, nullptr); }
static const char *nameOf(SCM *s) { if (!is_sym(s) && !is_str(s)) eval_error("a name is needed"); return is_sym(s) ? cast<SCM_Symbol>(s)->data : cast<SCM_String>(s)->data; }
static SCM *hdef(SCM *name, SCM *v) { return pscm_variable_ref(pscm_c_define(nameOf(name), v)); }
static SCM *hlook(SCM *name) { return pscm_variable_ref(pscm_c_lookup(nameOf(name))); }
static SCM *hmod(SCM *name, SCM *thunk) { return scm_c_call_with_current_module(pscm_c_resolve_module(nameOf(name)), thunkBody, thunk); }
static SCM *hmlook(SCM *name, SCM *v) { return pscm_variable_ref(pscm_c_module_lookup(pscm_c_resolve_module(nameOf(name)), nameOf(v))); }
static SCM *hmdef(SCM *name, SCM *v, SCM *x) { return pscm_variable_ref(pscm_c_module_define(pscm_c_resolve_module(nameOf(name)), nameOf(v), x)); }
static SCM *huse(SCM *name) { pscm_c_use_module(nameOf(name)); return scm_nil(); }
static SCM *hconv(SCM *kind, SCM *v) {
  std::string k = nameOf(kind);
  if (k == "int" && is_num(v)) return int_to_scm(scm_to_int(v));
  if (k == "big" && is_num(v)) return long_to_scm((long)scm_to_int(v) << 32);
  if (k == "dbl" && (is_num(v) || is_float(v) || is_ratio(v))) return scm_from_double(scm_to_double(v));
  if (k == "chr" && is_char(v)) return scm_from_char(scm_to_char(v));
  if (k == "str") { size_t n; char *p = scm_to_locale_stringn(v, &n); SCM *r = scm_from_locale_stringn(p, n); memset(p, 'X', n); free(p); return r; }
  if (k == "strz") { char *p = scm_to_locale_stringn(v, nullptr); SCM *r = scm_from_locale_stringn(p, (size_t)-1); memset(p, 'X', strlen(p)); free(p); return r; }
  if (k == "cstr" && is_str(v)) { SCM_String *s = cast<SCM_String>(v); return scm_from_c_string(s->data, (int)s->len); }
  if (k == "sym") { char *p = scm_to_locale_stringn(v, nullptr); SCM *r = scm_from_locale_symbol(p); memset(p, 'X', strlen(p)); free(p); return r; }
  if (k == "symn") { size_t n; char *p = scm_to_locale_stringn(v, &n); SCM *r = scm_from_locale_symboln(p, n); memset(p, 'X', n); free(p); return r; }
  if (k == "symstr") return scm_symbol_to_string(v);
  if (k == "bool" && is_bool(v)) return bool_to_scm(scm_to_bool(v));
  if (k == "l1") return scm_list1(v);
  if (k == "l3") return scm_list3(v, scm_nil(), v);
  if (k == "cons") return scm_cons(v, v);
  if (k == "ev") { SCM *r = pscm_eval(v); return r ? r : wrap(make_sym("null")); }
  if (k == "parse" && is_str(v)) { SCM *r = pscm_parse(cast<SCM_String>(v)->data); return r ? r : wrap(make_sym("null")); }
  if (k == "var") return pscm_variable_ref(pscm_make_variable(v));
  if (k == "novar") return pscm_variable_ref(pscm_make_undefined_variable());
  if (k == "mkvar") return pscm_make_variable(v);
  if (k == "undef") return pscm_make_undefined_variable();
  if (k == "curout") return pscm_current_output_port();
  if (k == "curin") return pscm_current_input_port();
  if (k == "preds") return toList(mklist({scm_c_is_boolean(v), scm_c_is_null(v), scm_c_is_pair(v), scm_c_is_procedure(v), scm_c_not(v), scm_variable_p(v)}));
  if (k == "eqs" && is_pair(v)) { SCM_List *l = cast<SCM_List>(v); if (l->next) return toList(mklist({scm_c_is_eq(l->data, l->next->data), scm_c_is_eqv(l->data, l->next->data), scm_c_is_equal(l->data, l->next->data)})); }
  if (k == "app2" && is_pair(v)) { SCM_List *l = cast<SCM_List>(v); return scm_append(mklist({l->data, l->next ? l->next->data : scm_nil()})); }
  if (k == "es" && is_str(v)) return scm_c_eval_string(cast<SCM_String>(v)->data);
  eval_error("no such conversion");
  return nullptr;
}
static SCM *hport(SCM *port) { SCM *old = pscm_set_current_output_port(port); return old; }
static SCM *hinport(SCM *port) { SCM *old = pscm_set_current_input_port(port); return old; }
static SCM *hforce(SCM *port) { pscm_force_output(port); return scm_nil(); }

// Three types of objects: "alpha" has every operation of its own, "beta" none, "gamma" holds a pointer.
static long g_type[3];
static int64_t g_data[16] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15};
static int64_t smobNum(SCM *s) { return is_smob_type(s, g_type[2]) ? *(int64_t *)scm_smob_data(s) : (int64_t)(intptr_t)scm_smob_data(s); }
static void sPrint(SCM *s, SCM *, scm_print_state *p) { printf("#<%c%ld>", p->writingp ? 'w' : 'd', (long)smobNum(s)); }
static SCM *sEqual(SCM *a, SCM *b) {
  FILE *of = stdout; stdout = g_f; printf("{equal %ld %ld}\n", (long)smobNum(a), (long)smobNum(b)); fflush(g_f); stdout = of;
  return bool_to_scm(smobNum(a) % 10 == smobNum(b) % 10);
}
static SCM *sApply0(SCM *s) { line("apply", mklist({s})); return scm_list1(s); }
static SCM *sApply1(SCM *s, SCM *a) { line("apply", mklist({s, a})); return scm_list2(s, a); }
static SCM *sApply2(SCM *s, SCM *a, SCM *b) { line("apply", mklist({s, a, b})); return scm_list3(s, a, b); }
static SCM *sApply3(SCM *s, SCM *a, SCM *b, SCM *c) { line("apply", mklist({s, a, b, c})); return scm_call_2(a, b, c); }
static int needInt(SCM *v) { if (!is_num(v)) eval_error("a number is needed"); return scm_to_int(v); }
static SCM *hmk(SCM *type, SCM *n) {
  int t = needInt(type), d = needInt(n);
  if (t == 2) return scm_make_smob(g_type[2], &g_data[d & 15]);
  return scm_make_smob_with_data(t == 0 || t == 1 ? g_type[t] : t, d);
}
static SCM *hmk3(SCM_List *l) {
  int t = needInt(l->data), a = needInt(l->next->data), b = needInt(l->next->next->data);
  if (!l->next->next->next) return scm_make_smob_with_data2(g_type[t], a, b);
  return scm_make_smob_with_data3(g_type[t], a, b, needInt(l->next->next->next->data));
}
static SCM *hget(SCM *s) {
  scm_smob_data(s);
  return wrap(mklist({long_to_scm(smobNum(s)), long_to_scm(scm_smob_data2(s)), long_to_scm(scm_smob_data3(s)), long_to_scm(scm_smob_flags(s))}));
}
static SCM *hset(SCM *s, SCM *which, SCM *v) {
  int w = needInt(which), n = needInt(v);
  if (w == 0) scm_set_smob_data(s, is_smob_type(s, g_type[2]) ? (void *)&g_data[n & 15] : (void *)(intptr_t)n);
  else if (w == 1) scm_set_smob_data2(s, n);
  else if (w == 2) scm_set_smob_data3(s, n);
  else scm_set_smob_flags(s, n);
  return s;
}
static SCM *hisa(SCM *t, SCM *s) { return bool_to_scm(is_smob_type(s, g_type[needInt(t) % 3])); }
static SCM *hchk(SCM *t, SCM *s) { scm_assert_smob_type(g_type[needInt(t) % 3], s); return s; }

// How far down the stack the calls of "mark" were made: "flat" tells whether the later ones are no further down
static char *g_mark[64];
static SCM *hmark(SCM *n) { int i = needInt(n); if (i >= 0 && i < 64) g_mark[i] = (char *)__builtin_frame_address(0); return n; }
static SCM *hflat(SCM *from, SCM *to) { // counting down: the first half of the interval comes later
  int a = needInt(from), b = needInt(to), m = (a + b) / 2;
  char *late = nullptr, *early = nullptr;
  for (int i = a; i < m; i++) if (g_mark[i] && (!late || g_mark[i] < late)) late = g_mark[i];
  for (int i = m; i < b; i++) if (g_mark[i] && (!early || g_mark[i] < early)) early = g_mark[i];
  bool ok = late && early && late >= early;
  memset(g_mark, 0, sizeof g_mark);
  return bool_to_scm(ok);
}

static const struct { const char *name; SCM *(*fn)(void); } g_host[] = {
#define F(n, f) {n, (SCM * (*)(void)) f}
  F("rec0", rec0), F("rec1", rec1), F("rec2", rec2), F("rec3", rec3), F("recv", recv), F("id", hid), F("thr", hthr), F("ithr", hithr), F("err", herr), F("cb", hcb), F("app", happ),
  F("catch", hcatch), F("lazy", hlazy), F("def", hdef), F("look", hlook), F("mod", hmod), F("mlook", hmlook), F("mdef", hmdef), F("use", huse), F("conv", hconv), F("port", hport), F("inport", hinport), F("force", hforce),
  F("mk", hmk), F("mk3", hmk3), F("get", hget), F("set", hset), F("isa", hisa), F("chk", hchk),
  F("mark", hmark), F("flat", hflat),
#undef F
};
static void hostTypes() {
  g_type[0] = scm_make_smob_type("alpha", 0);
  scm_set_smob_print(g_type[0], sPrint);
  scm_set_smob_equalp(g_type[0], sEqual);
  scm_set_smob_apply(g_type[0], sApply0, sApply1, sApply2, sApply3);
  g_type[1] = scm_make_smob_type("beta", 0);
  g_type[2] = scm_make_smob_type("gamma", sizeof(int64_t));
  scm_set_smob_print(g_type[2], sPrint);
  scm_set_smob_equalp(g_type[2], nullptr);
  scm_set_smob_apply(g_type[2], nullptr, sApply1, nullptr, nullptr);
}
static void onError(const char *message) { // what is passed is what can be asked for afterwards
  const char *m = pscm_get_last_error_message(), *k = pscm_get_last_error_key();
  fprintf(g_f, "{error %s}\n", !strcmp(message, m ? m : k ? k : "unknown error") ? "ok" : message);
  fflush(g_f);
}
struct Code { const char *text; SCM *v; };
static SCM *codeBody(void *c) { return ((Code *)c)->v = pscm_eval_string(((Code *)c)->text); }
static void codeInit(void *c) { codeBody(c); }
struct Call { SCM *f, *args; };
static SCM *callBody(void *c) { return scm_apply_0(((Call *)c)->f, ((Call *)c)->args); }
static const char *word(const char *&t, char *b) { // the next word of a step; a name in parentheses is one word
  int depth = 0;
  while (*t && (depth || *t != ' ')) { if (*t == '(') depth++; if (*t == ')') depth--; *b++ = *t++; }
  *b = 0;
  if (*t) t++;
  return b;
}
static bool hostStep(char kind, const char *t) {
  char name[200], w[4][64];
  switch (kind) {
  case 'D': { word(t, name); SCM *v = pscm_eval_string(t); report(v ? pscm_variable_ref(pscm_c_define(name, v)) : v); return true; }
  case 'L': { SCM *v = pscm_c_lookup(t); report(v ? pscm_variable_ref(v) : v); return true; }
  case 'R': { // NAME FUNCTION REQUIRED OPTIONAL REST
    word(t, name);
    for (auto &x : w) word(t, x);
    for (auto &h : g_host) if (!strcmp(h.name, w[0])) { SCM *p = pscm_c_define_gsubr(name, atoi(w[1]), atoi(w[2]), atoi(w[3]), h.fn); report(scm_c_is_procedure(p)); return true; }
    report(wrap(make_sym("no-such-function")));
    return true;
  }
  case 'C': { // the host calls a procedure
    word(t, name);
    SCM *f = pscm_eval_string(name), *args = f ? pscm_eval_string(t) : nullptr;
    Call c = {f, args};
    report(args ? scm_c_catch(scm_bool_true(), callBody, &c, scm_api_catch_handler, nullptr) : nullptr);
    return true;
  }
  case 'M': {
    char op = *t;
    t += op != 0;
    t += *t == ' ';
    word(t, name);
    SCM *m = op == 'c' ? pscm_c_current_module() : op == 'u' || op == 'n' ? nullptr : pscm_c_resolve_module(name);
    if (op == 'u') { pscm_c_use_module(name); return true; }
    if (op == 'c') { report(m); return true; }
    if (op == 'n') { Code c = {t, nullptr}; m = scm_c_define_module(name, codeInit, &c); report(c.v); if (!is_module(m)) report(m); return true; }
    if (!m) { report(m); return true; }
    if (op == 's') { report(pscm_c_set_current_module(m) ? scm_nil() : nullptr); return true; }
    if (op == 'l') { SCM *v = pscm_c_module_lookup(m, t); report(v ? pscm_variable_ref(v) : v); return true; }
    if (op == 'd') { char x[64]; word(t, x); SCM *v = pscm_eval_string(t); report(v ? pscm_variable_ref(pscm_c_module_define(m, x, v)) : v); return true; }
    if (op == 'w') { Code c = {t, nullptr}; scm_c_call_with_current_module(m, codeBody, &c); report(c.v); return true; }
    return true;
  }
  case 'H': pscm_set_error_handler(*t == '1' ? onError : nullptr); return true;
  case 'O': { SCM *p = pscm_eval_string(t); report(p && pscm_set_current_output_port(p) ? scm_nil() : nullptr); return true; }
  case 'I': { SCM *p = pscm_eval_string(t); report(p && pscm_set_current_input_port(p) ? scm_nil() : nullptr); return true; }
  }
  return false;
}
