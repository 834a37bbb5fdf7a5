SEEDS = [
 dict(id="p12-shared-tail", prop="P12", edits=[("src/c/eq.cc", "    // For equal?, recursively compare elements using equal?\n    if (!", "    // Equal from here on if the rest is shared\n    if (l1->next && l1->next == l2->next) {\n      return true;\n    }\n    if (!")],
      demo="(define t (list 3 4))\n(equal? (cons 1 t) (cons 1 t))\n(equal? (cons 1 t) (cons 2 t))\n(equal? (cons 'a (cons 1 t)) (cons 'a (cons 2 t)))\n", needs="two lists that differ and share their tail", breaks="equal? is true of different lists"),
 dict(id="p11-index-int", prop="P11", edits=[("src/c/vector.cc", "  SCM_Vector *v = cast<SCM_Vector>(vec);\n  int64_t idx = (int64_t)k->value;\n  \n  if (idx < 0 || (size_t)idx >= v->length) {\n    eval_error(\"vector-set!", "  SCM_Vector *v = cast<SCM_Vector>(vec);\n  int idx = (int)(int64_t)k->value;\n  \n  if (idx < 0 || (size_t)idx >= v->length) {\n    eval_error(\"vector-set!")],
      demo="(define v (vector 1 2 3))\n(catch #t (lambda () (vector-set! v 4294967297 'x)) (lambda (k . a) k))\nv\n", needs="vector-set! with an index of more than 32 bits", breaks="an element is overwritten instead of an error"),
 dict(id="p13-lcm-overflow", prop="P13", edits=[("src/c/number.cc", "    result = (result / g) * val;", "    result = result * val / g;")],
      demo="(lcm 4 6)\n(lcm 4000000000000 6000000000000)\n(lcm 3037000500 6074001000)\n", needs="arguments of lcm whose product does not fit although their multiple does", breaks="the result is wrong"),
]
SEEDS = [s for s in SEEDS if s["needs"]]
