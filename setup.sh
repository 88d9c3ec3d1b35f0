#!/bin/bash
# Checks that the tools the monitors are built with are here. Every check builds
# its own monitors from the current working tree of /repo.
set -e
g++ --version | head -1
clang++ --version | head -1
python3 --version
test -f /repo/include/hyperjet/hyperjet.h
test -d /usr/include/eigen3/Eigen
mkdir -p /verif/evidence
echo 'int main(){}' > /tmp/hv_setup_$$.cpp
g++ -fsanitize=address,undefined /tmp/hv_setup_$$.cpp -lquadmath -o /tmp/hv_setup_$$ && /tmp/hv_setup_$$
rm -f /tmp/hv_setup_$$ /tmp/hv_setup_$$.cpp
