SESSION = """#!/bin/bash
# Types the text beside this file into the program; compares what follows the arrows and the exit status.
d=$(cd "$(dirname "$0")" && pwd); b=$PWD/_build/pscm_cc
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cd "$t" || exit 2
timeout 60 "$b" < "$d/typed.txt" > out.txt 2> err.txt; echo "status $?" >> out.txt
grep -o -e ' --> .*' -e '^status .*' out.txt | diff "$d/expected.txt" -
"""
SEEDS = [
 dict(id="p23-grow-buffer", prop="P23", edits=[("src/c/repl.cc", "        char *new_buffer = (char *)realloc(input_buffer, total_size);\n", "        char *new_buffer = (char *)calloc(1, total_size);\n")],
      files={"demo.sh": SESSION, "typed.txt": "(length (list 1\n" + " 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20\n" * 100 + "))\n(+ 1 2)\n", "expected.txt": " --> 1901\n --> 3\nstatus 0\n"}, needs="an expression of more than 4096 characters typed on several lines", breaks="its beginning is lost"),
 dict(id="p23-exit-byte", prop="P23", edits=[("src/c/exit.cc", "      status = (int)(intptr_t)args->data->value;", "      status = (int8_t)(intptr_t)args->data->value > 0 ? (int)(intptr_t)args->data->value : 0;")],
      files={"demo.sh": SESSION, "typed.txt": "(+ 1 1)\n(exit 200)\n(+ 1 2)\n", "expected.txt": " --> 2\nstatus 200\n"}, needs="an exit status above 127", breaks="the program ends with status 0"),
]
