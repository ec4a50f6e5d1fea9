#!/bin/bash
# exit 0: the property holds for this scenario; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
bison -d -o "$W/midorisql.tab.c" src/parser/midorisql.y 2>/dev/null; flex --header-file="$W/midorisql.yy.h" -o "$W/midorisql.yy.c" src/parser/midorisql.l
gcc -std=gnu11 -w -g -I include "$D/demo.c" $(find src -name '*.c' ! -path '*/main/*' ! -name 'midorisql.*') \
  -I "$W" "$W/midorisql.tab.c" "$W/midorisql.yy.c" -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=free -o "$W/demo" || exit 3
cd "$W" && timeout 60 ./demo
