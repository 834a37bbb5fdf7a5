SEEDS = [{'id': 'p08-hashv-handle-key',
  'prop': 'P08',
  'edits': [('src/c/hash_table.cc', 'hashv-create-handle!", 3, 0, 0, scm_c_hash_create_handle_eqv)', 'hashv-create-handle!", 3, 0, 0, scm_c_hash_create_handle_equal)')],
  'demo': "(define h (make-hash-table 1))\n(define k (list 1 2))\n(hashv-set! h k 'first)\n(hashv-create-handle! h (list 1 2) 'second)\n(hashv-ref h k)\n(hash-fold (lambda (k v n) (+ n 1)) 0 h)\n",
  'needs': 'a table of the hashv operations with two pairs in one bucket as keys that are equal but not eqv, the second one inserted by hashv-create-handle!',
  'breaks': 'the operation takes the entry of another key'},
 {'id': 'p08-remove-later',
  'prop': 'P08',
  'edits': [('src/c/hash_table.cc', '          prev->next = l->next;\n        } else {', '          prev->next = l->next ? l->next->next ? l->next : nullptr : nullptr;\n        } else {')],
  'demo': "(define h (make-hash-table 1))\n(hash-set! h 'a 1)\n(hash-set! h 'b 2)\n(hash-set! h 'c 3)\n(hash-remove! h 'b)\n(hash-ref h 'a)\n(hash-ref h 'c)\n",
  'needs': 'three keys in one bucket and the removal of the second-last one',
  'breaks': 'the last entry of the bucket is lost'},
 {'id': 'p09-assoc-remove-all',
  'prop': 'P09',
  'edits': [('src/c/alist.cc',
             '        // Skip this pair (remove it) - only remove first match\n        removed = true;',
             '        // Skip this pair (remove it) - only remove first match\n        removed = pair->next != nullptr;')],
  'demo': "(assoc-remove! (list (cons 'a 1) (cons 'a 2)) 'a)\n(assoc-remove! (list (list 'a) (cons 'a 2) (cons 'b 3)) 'a)\n",
  'needs': 'an association list with a key twice whose first entry is a list of one element',
  'breaks': 'a second entry of the key is removed too'},
 {'id': 'p16-output-growth',
  'prop': 'P16',
  'edits': [('src/c/port.cc',
             '    if (port->output_len + 1 >= port->output_capacity) {\n      port->output_capacity *= 2;',
             '    if (port->output_len + 1 >= port->output_capacity) {\n      port->output_capacity = port->output_capacity < 1024 ? port->output_capacity * 2 : 2048;')],
  'demo': '(define p (open-output-string))\n'
          '(do ((i 0 (+ i 1))) ((= i 9000)) (write-char (integer->char (+ 97 (remainder i 26))) p))\n'
          '(string-length (get-output-string p))\n'
          '(substring (get-output-string p) 8980 9000)\n',
  'needs': 'a string port that is given more than 2048 characters one by one',
  'breaks': 'the buffer stops growing and memory behind it is overwritten'},
 {'id': 'p15-write-high-char',
  'prop': 'P15',
  'edits': [('src/c/print.cc', '            if (c >= 32 && c < 127) {\n              printf("%c", c);', '            if (c >= 32) {\n              printf("%c", c);')],
  'demo': '(define s (string #\\a (integer->char 127) #\\b))\n(write s)\n(newline)\n',
  'needs': 'a string that contains the delete character',
  'breaks': 'the character is written as it is instead of escaped'},
 {'id': 'p15-write-control',
  'prop': 'P15',
  'edits': [('src/c/print.cc', '              printf("\\\\%03o", (unsigned char)c);', '              printf("\\\\%o", (unsigned char)c);')],
  'demo': '(write (string #\\a (integer->char 1) #\\b))\n(newline)\n(write (string #\\a (integer->char 1) #\\7))\n(newline)\n',
  'needs': 'a string with a control character that is followed by a digit',
  'breaks': 'the escape swallows the digit when it is read back'},
 {'id': 'p14-comment-eof',
  'prop': 'P14',
  'edits': [('src/c/parse.cc',
             "      while (*p->pos && *p->pos != '\\n') {\n        p->pos++;\n        p->column++;\n      }\n    } else {",
             "      while (*p->pos && *p->pos != '\\n' && *p->pos != '\\r') {\n        p->pos++;\n        p->column++;\n      }\n    } else {")],
  'demo': '1 ; one\\\n2\n(string-length "abc") ; a return here\r (car \'(z))\n3\n',
  'needs': 'a comment with a carriage return inside',
  'breaks': 'the rest of the comment is read as data'},
 {'id': 'p04-args-pair-last',
  'prop': 'P04',
  'edits': [('src/c/throw.cc',
             '        tail->next = make_list(current->data);\n        tail = tail->next;\n        if (!current->next) break;\n        current = current->next;\n      }\n    } else {',
             '        tail->next = make_list(current->data);\n'
             '        tail = tail->next;\n'
             '        if (!current->next || tail == arg_list->next && is_nil(current->next->data)) break;\n'
             '        current = current->next;\n'
             '      }\n'
             '    } else {')],
  'demo': "(catch 'k (lambda () (throw 'k 1 2 3)) (lambda (k . a) a))\n(catch 'k (lambda () (throw 'k 1 '() 3)) (lambda (k . a) a))\n",
  'needs': 'a throw whose second argument is the empty list',
  'breaks': 'the handler gets only the first argument'},
 {'id': 'p07-heap-bounds',
  'prop': 'P07',
  'edits': [('src/c/gc.cc', '    if (seg->start < g_heap_start) g_heap_start = seg->start;\n', '')],
  'demo': "(define l '())\n"
          '(do ((i 0 (+ i 1))) ((= i 20)) (set! l (cons (vector->list (make-vector 20000 (list i))) l)) #t)\n'
          '(gc)\n'
          "(define m '())\n"
          "(do ((i 0 (+ i 1))) ((= i 20)) (set! m (cons (vector->list (make-vector 20000 (list 'new i))) m)) #t)\n"
          '(gc)\n'
          '(map (lambda (v) (car (list-ref v 19999))) l)\n'
          '(map (lambda (v) (cadr (list-ref v 77))) m)\n',
  'needs': 'a heap that grew by a segment below the first one',
  'breaks': 'objects in the new segment are not seen from the roots and reclaimed'},
 {'id': 'p05-file-last-value',
  'prop': 'P05',
  'edits': [('src/c/pscm_api.cc', '      last_result = pscm_eval(current->data);\n', '      SCM *result = pscm_eval(current->data);\n      if (result) {\n        last_result = result;\n      }\n')],
  'needs': 'a file evaluated by the host whose last form fails and an earlier form does not',
  'breaks': 'the host gets the value of an earlier form instead of NULL, as if nothing had failed',
  'files': {'demo.sh': '#!/bin/bash\n'
                       "# Compiles the host program beside this file with the interpreter's sources and runs it.\n"
                       'd=$(cd "$(dirname "$0")" && pwd); r=$PWD\n'
                       't=$(mktemp -d) || exit 2\n'
                       'trap \'rm -rf "$t"\' EXIT\n'
                       'cp "$d/host.cc" "$t/" && cd "$t" || exit 2\n'
                       'ls "$r"/src/c/*.cc host.cc | grep -v /repl.cc | xargs -P 8 -I@ sh -c \'clang++-18 -std=c++20 -O0 -w -include limits.h -I "$1/src/c" -I "$1/src" -c "$2" -o "$(basename "$2" .cc).o"\' - "$r" @ || '
                       'exit 2\n'
                       'clang++-18 *.o -o host || exit 2\n'
                       'timeout 60 ./host > out.txt 2> err.txt < /dev/null || exit 1\n'
                       'diff "$d/expected.txt" out.txt\n',
            'expected.txt': 'good 3\nbad null\n',
            'host.cc': '#include "pscm_api.h"\n'
                       '#include <stdio.h>\n'
                       'static void put(const char *n, const char *t) { FILE *f = fopen(n, "w"); fputs(t, f); fclose(f); }\n'
                       'int main() {\n'
                       '  int top; gc_set_stack_top(&top);\n'
                       '  pscm_init();\n'
                       '  put("good.scm", "(define a 1)\\n(+ a 2)\\n");\n'
                       '  put("bad.scm", "(define a 1)\\n(+ a 2)\\n(car 5)\\n");\n'
                       '  SCM *v = pscm_eval_file("good.scm");\n'
                       '  printf("good %d\\n", v ? (int)(long)v->value : -1);\n'
                       '  v = pscm_eval_file("bad.scm");\n'
                       '  printf("bad %s\\n", v ? "value" : "null");\n'
                       '}\n'}},
 {'id': 'p06-module-uses',
  'prop': 'P06',
  'edits': [('src/c/gc.cc', '  trace_ptr(mod->uses,               stack); // SCM_List*\n', '  trace_ptr(mod->uses ? mod->uses->data : nullptr, stack);\n')],
  'demo': '(define-module (lib) #:export (v f))\n'
          "(define v 'shown)\n"
          '(define (f x) (list x v))\n'
          '(define-module (app) #:use-module (lib))\n'
          "(define (junk n) (do ((i 0 (+ i 1)) (l '() (cons (list i) l))) ((= i n) (length l))))\n"
          '(gc)\n'
          '(junk 500)\n'
          '(f v)\n'
          '(gc)\n'
          '(junk 500)\n'
          '(f v)\n',
  'needs': 'a collection after a module was used by another, then allocations, then a name of the used module',
  'breaks': 'the list of used modules is reclaimed while it is needed'},
 {'id': 'p06-autoload-specs',
  'prop': 'P06',
  'edits': [('src/c/gc.cc', '  trace_ptr(mod->autoload_specs,     stack); // SCM_List*\n', '')],
  'demo': '(define p (open-output-file "lazy.scm"))\n'
          '(display "(define-module (lazy))(define-public v \'lazy-v)" p)\n'
          '(close-output-port p)\n'
          '(define-module (app) #:autoload (lazy) (v w))\n'
          "(define (junk n) (do ((i 0 (+ i 1)) (l '() (cons (list i) l))) ((= i n) (length l))))\n"
          '(gc)\n'
          '(junk 500)\n'
          'v\n',
  'needs': 'a collection between the definition of a module with autoloaded names and the first use of one of them',
  'breaks': 'the names are reclaimed and the module is never loaded'},
 {'id': 'p17-autoload-prefix',
  'prop': 'P17',
  'edits': [('src/c/module.cc', '              cast<SCM_Symbol>(s->data)->len == sym->len &&\n', '              cast<SCM_Symbol>(s->data)->len >= sym->len &&\n')],
  'demo': '(define p (open-output-file "lazy.scm"))\n'
          '(display "(define-module (lazy))(define-public fetch \'lazy-fetch)(define-public fetch-all \'lazy-all)" p)\n'
          '(close-output-port p)\n'
          '(define-module (app) #:autoload (lazy) (fetch-all))\n'
          "(catch #t (lambda () fetch) (lambda (k . r) 'unbound))\n"
          'fetch-all\n',
  'needs': 'a free name that is a proper prefix of an autoloaded name',
  'breaks': 'the use of another name loads the module and finds names the autoload does not list'},
 {'id': 'p21-equal-types',
  'prop': 'P21',
  'edits': [('src/c/eq.cc', '      if (s1->tag != s2->tag) {\n        return false;\n      }\n', '      if (s1->tag != s2->tag && !(s1->data == s2->data)) {\n        return false;\n      }\n')],
  'needs': 'two objects of different host types with the same data, the first type with a comparison of its own',
  'breaks': 'the comparison callback is called with an object of another type',
  'files': {'demo.sh': '#!/bin/bash\n'
                       "# Compiles the host program beside this file with the interpreter's sources and runs it.\n"
                       'd=$(cd "$(dirname "$0")" && pwd); r=$PWD\n'
                       't=$(mktemp -d) || exit 2\n'
                       'trap \'rm -rf "$t"\' EXIT\n'
                       'cp "$d/host.cc" "$t/" && cd "$t" || exit 2\n'
                       'ls "$r"/src/c/*.cc host.cc | grep -v /repl.cc | xargs -P 8 -I@ sh -c \'clang++-18 -std=c++20 -O0 -w -include limits.h -I "$1/src/c" -I "$1/src" -c "$2" -o "$(basename "$2" .cc).o"\' - "$r" @ || '
                       'exit 2\n'
                       'clang++-18 *.o -o host || exit 2\n'
                       'timeout 60 ./host > out.txt 2> err.txt < /dev/null || exit 1\n'
                       'diff "$d/expected.txt" out.txt\n',
            'expected.txt': '1 0 0\n',
            'host.cc': '#include "pscm_api.h"\n'
                       '#include "smob.h"\n'
                       '#include <stdio.h>\n'
                       'static SCM *same(SCM *a, SCM *b) { return scm_smob_data(a) == scm_smob_data(b) ? scm_bool_true() : scm_bool_false(); }\n'
                       'int main() {\n'
                       '  int top; gc_set_stack_top(&top);\n'
                       '  pscm_init();\n'
                       '  long meter = scm_make_smob_type("meter", 0), litre = scm_make_smob_type("litre", 0);\n'
                       '  scm_set_smob_equalp(meter, same); scm_set_smob_equalp(litre, same);\n'
                       '  SCM *a = scm_make_smob_with_data(meter, 5), *b = scm_make_smob_with_data(meter, 5), *c = scm_make_smob_with_data(litre, 5), *d = scm_make_smob_with_data(litre, 6);\n'
                       '  pscm_c_define("a", a); pscm_c_define("b", b); pscm_c_define("c", c); pscm_c_define("d", d);\n'
                       '  printf("%d %d %d\\n", is_true(pscm_eval_string("(equal? a b)")), is_true(pscm_eval_string("(equal? a c)")), is_true(pscm_eval_string("(equal? a d)")));\n'
                       '}\n'}},
 {'id': 'p22-substring-order',
  'prop': 'P22',
  'edits': [('src/c/string.cc', '  if (end_idx < start_idx || end_idx > s->len) {', '  if (end_idx < 0 || end_idx > s->len) {')],
  'demo': '(substring "hello" 1 3)\n(catch #t (lambda () (substring "hello" 3 1)) (lambda (k . a) k))\n\'alive\n',
  'needs': 'a substring whose end is before its start',
  'breaks': 'memory of a negative size is copied and the process dies'},
 {'id': 'p22-write-null',
  'prop': 'P22',
  'edits': [('src/c/list.cc', '  if (count > 0) {\n    eval_error("list-head: list too short");\n    return nullptr;\n  }\n', '  if (count > 0 && !current) {\n    return nullptr;\n  }\n')],
  'demo': "(catch #t (lambda () (list-head '(1 2) 5)) (lambda (k . a) k))\n'alive\n",
  'needs': 'list-head of a list that is too short',
  'breaks': 'the primitive returns no value and reports no error'},
 {'id': 'p16-peek-soft',
  'prop': 'P16',
  'edits': [('src/c/port.cc',
             '    if (ch != EOF) {\n      ungetc(ch, port->file);\n    }\n    return ch;\n  } else if (port->port_type == PORT_STRING_INPUT) {',
             '    if (ch != EOF && ch < 128) {\n      ungetc(ch, port->file);\n    }\n    return ch;\n  } else if (port->port_type == PORT_STRING_INPUT) {')],
  'demo': '(define o (open-output-file "data"))\n'
          '(write-char #\\a o)\n'
          '(write-char (integer->char 233) o)\n'
          '(write-char #\\b o)\n'
          '(close-output-port o)\n'
          '(define p (open-input-file "data"))\n'
          '(char->integer (read-char p))\n'
          '(char=? (peek-char p) (read-char p))\n'
          '(read-char p)\n'
          '(eof-object? (read-char p))\n',
  'needs': 'a file with a character above 127 that is peeked',
  'breaks': 'peeking consumes the character'},
 {'id': 'p10-ci-min',
  'prop': 'P10',
  'edits': [('src/c/string.cc',
             '    if (c1 != c2) {\n      return scm_bool_false();\n    }\n  }\n  return scm_bool_true();',
             '    if (c1 != c2 && (s1->data[i] | 32) != (s2->data[i] | 32)) {\n      return scm_bool_false();\n    }\n  }\n  return scm_bool_true();')],
  'demo': '(string-ci=? "aB" "Ab")\n(string-ci=? "a[" "A{")\n(string-ci=? "x@" "x`")\n',
  'needs': 'string-ci=? of strings with characters between the upper and the lower case letters',
  'breaks': 'characters that are no letters are taken for the two cases of one letter'}]
