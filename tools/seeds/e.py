SEEDS = [
 {'id': 'p24-or-last', 'prop': 'P24',
  'edits': [('src/c/eval.cc', "  // Evaluate expressions until we find one that's truthy\n  while (current && current->next) {", "  // Evaluate expressions until we find one that's truthy\n  while (current) {")],
  'demo': "(define (all-even? n) (or (= n 0) (all-even? (- n 2))))\n(all-even? 10)\n(all-even? 300000)\n",
  'needs': 'a loop through the last expression of an or that runs longer than the stack allows for nested calls',
  'breaks': 'the last expression of an or is no longer in tail position: long loops run out of stack'},
 {'id': 'p24-cond-arrow', 'prop': 'P24',
  'edits': [('src/c/cond.cc', "        *ast = scm_list2(proc, scm_list2(scm_sym_quote(), pred));\n        return nullptr; // Signal to continue evaluation", "        return eval_with_env(env, scm_list2(proc, scm_list2(scm_sym_quote(), pred)));")],
  'demo': "(define (down n) (cond ((= n 0) 'done) ((- n 1) => down)))\n(down 10)\n(down 300000)\n",
  'needs': 'a loop through the receiver of a cond clause with => that runs longer than the stack allows for nested calls',
  'breaks': 'the call of the receiver is no longer a tail call'},
 {'id': 'p25-print-last', 'prop': 'P25',
  'edits': [('src/c/print.cc', "  // Find the last node\n  SCM_List *last = l;\n  while (last->next) {\n    last = last->next;\n  }\n  \n  // Check if the last node is marked as dotted pair's cdr\n  return last->is_dotted;", "  // The last node is marked as dotted pair's cdr\n  return l->next->next ? _is_dotted_pair(l->next) : l->next->is_dotted;")],
  'demo': "(define (lng n l) (if (= n 0) l (lng (- n 1) (append l l))))\n(string-length (call-with-output-string (lambda (p) (write (lng 18 '(1 2)) p))))\n",
  'needs': 'printing a list of several hundred thousand elements', 'breaks': 'the depth of the recursion is the length of the list: the process dies'},
 {'id': 'p25-equal-tail', 'prop': 'P25',
  'edits': [('src/c/eq.cc', "    // Move to next node\n    l1 = l1->next;\n    l2 = l2->next;\n    \n    // Check if we've reached the end\n    if (!l1 && !l2) {\n      return true;\n    }\n    if (!l1 || !l2) {\n      return false;\n    }\n", "    // Move to next node\n    l1 = l1->next;\n    l2 = l2->next;\n    \n    // Check if we've reached the end\n    if (!l1 || !l2) {\n      return !l1 && !l2;\n    }\n    return _list_equal(wrap(l1), wrap(l2));\n")],
  'demo': "(define (lng n l) (if (= n 0) l (lng (- n 1) (append l l))))\n(define a (lng 18 '(1 2)))\n(define b (lng 18 '(1 2)))\n(equal? a b)\n(equal? a (append b '(3)))\n",
  'needs': 'equal? of two lists of several hundred thousand elements', 'breaks': 'equal? recurs along the list and fails for lack of stack'},
 {'id': 'p25-list-args', 'prop': 'P25',
  'edits': [('src/c/list.cc', "  SCM_List dummy = make_list_dummy();\n  SCM_List *tail = &dummy;\n  SCM_List *current = args;\n  \n  while (current) {\n    SCM_List *node = make_list(current->data);\n    tail->next = node;\n    tail = node;\n    current = current->next;\n  }\n  \n  if (dummy.next) {\n    return wrap(dummy.next);\n  }\n  return scm_nil();\n}\n\nSCM *scm_list(SCM_List *args) {", "  SCM_List *node = make_list(args->data);\n  SCM *rest = scm_list_impl(args->next);\n  if (is_pair(rest)) {\n    node->next = cast<SCM_List>(rest);\n  }\n  return wrap(node);\n}\n\nSCM *scm_list(SCM_List *args) {")],
  'demo': "(define (lng n l) (if (= n 0) l (lng (- n 1) (append l l))))\n(length (apply list (lng 18 '(1 2))))\n",
  'needs': 'list called with several hundred thousand arguments', 'breaks': 'the arguments are copied by recursion, the process dies'},
]
