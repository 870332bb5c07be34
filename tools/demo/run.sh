#!/bin/bash
# run.sh PKG RUN [REPO]: runs the *_demo_test.go beside this script inside package PKG of the repository in the current
# directory, through a build overlay (nothing is written there), against a throwaway PostgreSQL when DEMO_PG=1.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
WORK=$(mktemp -d /tmp/demo.XXXXXX); chmod 755 "$WORK"
cleanup() {
  [ -n "$PGUP" ] && aspg "$PGBIN/pg_ctl" -D "$WORK/pg/data" -m immediate -w stop >/dev/null 2>&1
  rm -rf "$WORK"
}
aspg() { (cd / && exec setpriv --reuid=postgres --regid=postgres --init-groups "$@"); }
trap cleanup EXIT
if [ -n "$DEMO_PG" ]; then
  PGBIN=$(ls -d /usr/lib/postgresql/*/bin | tail -1)
  mkdir "$WORK/pg"; chown postgres: "$WORK/pg"
  aspg "$PGBIN/initdb" -D "$WORK/pg/data" -U postgres -A trust -E UTF8 --locale=C.UTF-8 --no-sync >"$WORK/initdb" 2>&1 || cat "$WORK/initdb" >&2
  aspg "$PGBIN/pg_ctl" -D "$WORK/pg/data" -l "$WORK/pg/server.log" -w -t 60 \
    -o "-k $WORK/pg -c listen_addresses= -c fsync=off -c synchronous_commit=off -c full_page_writes=off" start >"$WORK/start" 2>&1 || cat "$WORK/start" >&2
  PGUP=1
  "$PGBIN/createdb" -h "$WORK/pg" -U postgres syncv3
  export POSTGRES_HOST="$WORK/pg" POSTGRES_USER=postgres POSTGRES_DB=syncv3 PGHOST="$WORK/pg" PGUSER=postgres
fi
export SYNCV3_DEBUG=1 SYNCV3_SECRET=itsasecret
pkg="$1"; shift
python3 - "$here" "$repo" "$pkg" "$WORK/overlay.json" <<'PY'
import json, os, sys
here, repo, pkg, out = sys.argv[1:]
r = {}
for f in os.listdir(here):
    if f.endswith("_test.go"):
        r[os.path.join(repo, pkg, "zz_" + f)] = os.path.join(here, f)
json.dump({"Replace": r}, open(out, "w"))
PY
go test -overlay "$WORK/overlay.json" -vet=off -count=1 -timeout 200s $DEMO_FLAGS -run "$1" "./$pkg"
