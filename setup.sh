#!/bin/bash
# Warms up the build cache, so that each check only has to compile what depends on /repo.
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p .build
(cd harness && go build -o ../.build/setup . && go build -race -o ../.build/setup .) || exit 1
rm -f .build/setup
