#!/bin/bash
# tools/build.sh TARGET...   builds into /verif/.build from /repo's current working tree
# targets: fast (harness, reduced Argon2)  race (same, race detector)  pgp (fast, with the checks of the pgp package)  real (harness, real Argon2)  cli (mnemonikey, reduced Argon2)
set -u
VERIF=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false" GONOSUMDB='*' GOFLAGS
B=$VERIF/.build
mkdir -p "$B" || exit 2
exec 9>"$B/.lock"; flock 9

crypto_fast() {
  local src ver
  ver=$(sed -n 's#^[[:space:]]*golang.org/x/crypto \(v[^ ]*\).*#\1#p' "$REPO/go.mod" | head -1)
  src=$(go env GOMODCACHE)/golang.org/x/crypto@${ver:-v0.4.0}
  if [ "$(cat "$B/crypto-fast/.from" 2>/dev/null)" = "$src" ]; then return 0; fi
  rm -rf "$B/crypto-fast" "$B/crypto-fast.tmp"
  mkdir -p "$B/crypto-fast.tmp"
  cp -r "$src/." "$B/crypto-fast.tmp/"
  [ -f "$B/crypto-fast.tmp/argon2/argon2.go" ] || { echo "no golang.org/x/crypto in the module cache" >&2; return 1; }
  chmod -R u+w "$B/crypto-fast.tmp"
  python3 - "$B/crypto-fast.tmp/argon2/argon2.go" <<'P' || return 1
import sys
p=sys.argv[1]; s=open(p).read()
i=s.index('h0 := initHash('); j=s.index('\n', i)
s=s[:j]+'\n\t// reduced cost: all parameters are hashed into h0 above\n\ttime, memory = 1, 2*syncPoints*uint32(threads)\n'+s[j:]
open(p,'w').write(s)
P
  echo "$src" > "$B/crypto-fast.tmp/.from"
  mv "$B/crypto-fast.tmp" "$B/crypto-fast"
}

modfile() { # modfile NAME fast|real
  sed "s#=> /repo#=> $REPO#" "$VERIF/harness/go.mod" > "$B/$1.mod.new"
  if [ "$2" = real ]; then sed -i '/=> \.\.\/\.build\/crypto-fast/d' "$B/$1.mod.new"; fi
  cmp -s "$B/$1.mod.new" "$B/$1.mod" || cp "$B/$1.mod.new" "$B/$1.mod"
  cat "$VERIF/harness/go.sum" "$REPO/go.sum" 2>/dev/null | sort -u > "$B/$1.sum"
}

# A clock that can be set: the same toolchain, with time.Now shifted by the environment variable
# VERIF_CLOCK when it is set. Without it the time is the real one. If this cannot be built, the
# checks that need it run at the real time only.
clock() {
  local root
  root=$(go env GOROOT)
  mkdir -p "$B/clock"
  python3 - "$root" "$B/clock" <<'P' || return 1
import sys, json, os
root, d = sys.argv[1:]
def put(name, text):
    p = os.path.join(d, name)
    if not os.path.exists(p) or open(p).read() != text:
        open(p, 'w').write(text)
    return p
src = root + '/src/time/time.go'
s = open(src).read()
head = 'func Now() Time {\n'
if s.count(head) != 1:
    sys.exit(1)
s = s.replace(head, 'func Now() Time { return shiftedNow(realNow()) }\n\nfunc realNow() Time {\n')
a = put('time.go.txt', s)
b = put('clock.go.txt', '''package time

import "syscall"

// shiftedNow: VERIF_CLOCK is +NANOSECONDS or -NANOSECONDS (a shift) or =NANOSECONDS (stopped at that Unix time).
func shiftedNow(t Time) Time {
	s, ok := syscall.Getenv("VERIF_CLOCK")
	if !ok || len(s) < 2 {
		return t
	}
	var n int64
	for i := 1; i < len(s); i++ {
		n = n*10 + int64(s[i]-'0')
	}
	switch s[0] {
	case '=':
		return Unix(0, n)
	case '-':
		n = -n
	}
	return t.Add(Duration(n))
}
''')
put('overlay.json', json.dumps({"Replace": {src: a, root + '/src/time/verif_clock.go': b}}))
P
}
OVER=()
if clock; then OVER=(-overlay "$B/clock/overlay.json"); fi
clocked() { # clocked NAME build-arguments: with the settable clock if possible
  local name=$1; shift
  rm -f "$B/$name.clock"
  if [ ${#OVER[@]} -gt 0 ] && go build "${OVER[@]}" "$@" 2>/dev/null; then touch "$B/$name.clock"; else go build "$@"; fi
}

rc=0
for t in "$@"; do
  case $t in
  fast) crypto_fast && modfile fast fast && (cd "$VERIF/harness" && clocked hfast -modfile="$B/fast.mod" -o "$B/hfast" .) ;;
  race) crypto_fast && modfile race fast && (cd "$VERIF/harness" && go build -race -modfile="$B/race.mod" -o "$B/hrace" .) ;;
  pgp) crypto_fast && modfile pgp fast && (cd "$VERIF/harness" && go build -tags pgpapi -modfile="$B/pgp.mod" -o "$B/hpgp" .) ;;
  real) modfile real real && (cd "$VERIF/harness" && go build -modfile="$B/real.mod" -o "$B/hreal" .) ;;
  cli)
    crypto_fast && { cat "$REPO/go.mod"; echo; echo "replace golang.org/x/crypto => $B/crypto-fast"; } > "$B/cli.mod" && cp "$REPO/go.sum" "$B/cli.sum" &&
      (cd "$REPO" && clocked mnemonikey -modfile="$B/cli.mod" -o "$B/mnemonikey" ./cmd/mnemonikey) ;;
  *) echo "unknown target $t" >&2; false ;;
  esac || rc=2
done
exit $rc
