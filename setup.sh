#!/bin/bash
# nothing to install: the checks are Python over the pre-installed clang, z3 and cvc5
set -e
mkdir -p build evidence
python3-vt -c "import z3, cvc5; print('z3', z3.get_version_string(), 'cvc5', cvc5.__version__)"
clang++ --version | head -1
