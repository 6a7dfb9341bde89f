#!/bin/bash
# brief result of one property
cd /verif && ./setup.sh && for p in "$@"; do BRIEF=1 ./bin/govc -prop $p -v -noreplay | grep -v "^    proved\|^   loop\|externals:" | cut -c1-${W:-300}; done
