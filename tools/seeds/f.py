SEEDS = [
 {'id': 'p26-or-context', 'prop': 'P26',
  'edits': [('src/c/eval.cc', "      auto ret = eval_or(env, l, &ast);\n      if (ret) {\n        RETURN_WITH_CONTEXT(ret);\n      }", "      auto ret = eval_or(env, l, &ast);\n      if (ret) {\n        pop_eval_stack();\n        return ret;\n      }")],
  'demo': "(define v (vector 1))\n(catch #t (lambda () (vector-ref v\n   (or #f 7 8))) (lambda (k . r) (car r)))\n",
  'needs': 'an error in a call one of whose operands is an or that did not come to its last expression', 'breaks': 'the error is said to be in the or'},
 {'id': 'p26-dot-column', 'prop': 'P26',
  'edits': [('src/c/parse.cc', "      // Try to parse as dotted pair first\n      p->pos++;\n      p->column++;\n", "      // Try to parse as dotted pair first\n      p->pos++;\n")],
  'demo': "(catch #t (lambda () (list '(a . b) (car 5))) (lambda (k . r) (car r)))\n",
  'needs': 'a dotted pair before the failing expression on its line', 'breaks': 'the column is one too low'},
 {'id': 'p26-escape-column', 'prop': 'P26',
  'edits': [('src/c/parse.cc', "        len++; p->pos++; p->column++;  // consume escaped character", "        len++; p->pos++;  // consume escaped character")],
  'demo': "(define a\\.b 1)\n(catch #t (lambda () (list a\\.b a\\.b (car 5))) (lambda (k . r) (car r)))\n",
  'needs': 'a symbol with an escaped character before the failing expression on its line', 'breaks': 'the column is one too low for each such character'},
]
