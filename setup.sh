#!/bin/bash
# Builds the framework once. The checks build what is missing or outdated themselves.
cd "$(dirname "$(realpath "$0")")" || exit 2
. ./env.sh
for id in C01 C12; do
    make_view "$(layer_of $id)" || exit 1
    build_bin "$(layer_of $id)" "${id,,}" || exit 1
done
echo "ready"
