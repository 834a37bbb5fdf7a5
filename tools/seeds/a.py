SEEDS = [
 dict(id="p01-named-let-temps", prop="P01", edits=[("src/c/let.cc", '"__temp_%d", temp_counter++)', '"__temp_%d", temp_counter++ % 4)')],
      demo="(define (f n) (let loop ((a n) (b (+ n 1)) (c (+ n 2)) (d (+ n 3)) (e (+ n 4))) (list a b c d e)))\n(f 1)\n",
      needs="a named let with at least five bindings", breaks="the initial values of the fifth and later loop variables replace those of the first ones"),
 dict(id="p19-nil-not-kept", prop="P19", edits=[("src/c/delay.cc", "  promise->is_forced = true;\n  return result;", "  promise->is_forced = !is_nil(result);\n  return result;")],
      demo="(define n 0)\n(define p (delay (begin (set! n (+ n 1)) '())))\n(force p)\n(force p)\nn\n",
      needs="a promise whose value is the empty list, forced twice", breaks="the expression of the promise is evaluated again"),
 dict(id="p02-foreach-heap-state", prop="P02", edits=[("src/c/for_each.cc", "  // Iterate through all lists simultaneously\n  // Continue while at least one list has elements\n", "  // The lists are advanced in a copy, so that the arguments stay as they are\n  SCM_List **given = arg_lists;\n  arg_lists = (SCM_List **)malloc(sizeof(SCM_List *) * (arg_count + 1));\n  memcpy(arg_lists, given, sizeof(SCM_List *) * arg_count);\n\n")],
      demo="(define k #f)\n(define n 0)\n(define log '())\n(define (t x) (set! log (cons x log)))\n(for-each (lambda (x y) (t (list x (call/cc (lambda (c) (if (= x 1) (set! k c)) y))))) '(1 2 3) '(a b c))\n(set! n (+ n 1))\n(if (< n 2) (k 'again) 'end)\n(reverse log)\n",
      needs="a continuation captured during a for-each and re-entered after the for-each went on", breaks="the re-entered traversal skips the elements that were visited since the capture"),
 dict(id="p03-out-guard-inside", prop="P03", edits=[("src/c/dynwind.cc", "  // Restore old wind chain\n  g_wind_chain = old_wind_chain;\n", "  // Restore old wind chain\n"), ("src/c/dynwind.cc", "  return result;\n}\n\nvoid init", "  g_wind_chain = old_wind_chain;\n  return result;\n}\n\nvoid init")],
      demo="(define log '())\n(define (t x) (set! log (cons x log)))\n(call/cc (lambda (k) (dynamic-wind (lambda () (t 'in)) (lambda () 'body) (lambda () (t 'out) (if (< (length log) 3) (k 'left))))))\n(reverse log)\n",
      needs="an after thunk that itself leaves through a continuation", breaks="the after thunk is run a second time when it escapes"),
 dict(id="p04-key-prefix", prop="P04", edits=[("src/c/throw.cc", "    return strcmp(tag_sym->data, key_sym->data) == 0;", "    return strncmp(tag_sym->data, key_sym->data, tag_sym->len) == 0;")],
      demo="(catch 'io-error (lambda () (catch 'io (lambda () (throw 'io-error 1)) (lambda (k . a) (list 'inner k a)))) (lambda (k . a) (list 'outer k a)))\n",
      needs="two keys one of which is a prefix of the other, with the catch of the prefix inside", breaks="the handler of another key receives the throw"),
 dict(id="p18-nested-vector", prop="P18", edits=[("src/c/quasiquote.cc", "  if (is_vector(p)) {\n    SCM_Vector *vec", "  if (is_vector(p) && depth == 1) {\n    SCM_Vector *vec")],
      demo="(define x 5)\n`(a `(b #(c ,(d ,x))))\n`#(1 ,x)\n", needs="a vector inside a nested quasiquotation with an unquote for the outer level", breaks="the unquote in the vector is not replaced"),
 dict(id="p20-thunk-extra-args", prop="P20", edits=[("src/c/procedure.cc", "    // No rest parameter - check for too many arguments\n    if (args_iter) {", "    // No rest parameter - check for too many arguments\n    if (args_iter && args_l) {")],
      demo="(define (f) 'called)\n(catch #t (lambda () (apply f '(1 2))) (lambda (k . a) (list 'error)))\n(catch #t (lambda () (map f '(1 2))) (lambda (k . a) (list 'error)))\n",
      needs="a procedure without parameters that is called with arguments through apply, map or another primitive", breaks="the surplus arguments are ignored and the body runs"),
]
