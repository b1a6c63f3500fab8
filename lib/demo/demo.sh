#!/bin/bash
# exits 0 when the demonstrated property holds on the tree in the cwd
here=$(cd "$(dirname "$0")" && pwd)
N=/opt/vp/build/nginx
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
inc="-I $here"
for d in core event event/modules event/quic os/unix http http/modules http/v2 http/v3 stream; do
    inc="$inc -I $N/src/$d"
done
inc="$inc -I $N/objs"
for d in $PWD/nginx-*/src $PWD/nginx-*/src/media $PWD/nginx-*/src/media/* $PWD/nginx-*/src/http; do
    [ -d "$d" ] && inc="$inc -I $d"
done
gcc -g -O1 -w -fsanitize=address $inc -I "$PWD" -o "$t/demo" "$here/demo.c" \
    -lz -lcrypto -lm > "$t/log" 2>&1 || { cat "$t/log"; exit 3; }
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$t/demo"
