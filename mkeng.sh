#!/bin/bash
# mkeng.sh REPO OUT.bc: the library and the histories of c_clients.c
CLIENTS="$(dirname "$(readlink -f "$0")")/c_clients.c" exec bash "$(dirname "$(readlink -f "$0")")/mkir.sh" "$@"
