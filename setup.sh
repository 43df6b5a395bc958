#!/bin/bash
# Nothing is installed: every check compiles what it needs from /repo and harness/ itself.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
for t in gcc objcopy python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
echo '#include <gsl/gsl_rng.h>
int main(void){return gsl_rng_mt==0;}' > .setup_test.c
gcc -fsanitize=address -o .setup_test .setup_test.c -lgsl -lgslcblas -lm && ASAN_OPTIONS=detect_leaks=0 ./.setup_test
rm -f .setup_test .setup_test.c
echo setup ok
