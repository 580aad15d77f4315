#!/bin/bash
# run.sh <ID> [--replay FILE] : builds the checker against /repo's current tree in a scratch
# directory and runs one check.  Exit 0 held / 1 VIOLATION / 2 error of the check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${BPASS_REPO:-/repo}
id=${1:?usage: run.sh ID [--replay FILE]}; shift
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
umask 022
W=$(mktemp -d /tmp/bpassmc.XXXXXX) || exit 2
chmod 711 "$W" # the stand-ins for remote users must get to their files
trap 'chmod -R u+rwx "$W" 2>/dev/null; rm -rf "$W"' EXIT
trap 'exit 2' INT TERM
fail() { echo "error: $*" >&2; exit 2; }

# --- dependencies with the two stand-ins (never repository code) ---------------------------
xc=$(cd "$repo" && GOFLAGS=-mod=readonly go list -m -f '{{.Dir}}' golang.org/x/crypto) || fail "x/crypto not found"
mkdir "$W/xcrypto" && cp -r "$xc/." "$W/xcrypto/" && chmod -R u+w "$W/xcrypto" || fail "copy of x/crypto"
find "$W/xcrypto/scrypt" -name '*.go' -delete
cp "$here/mc/stubs/scrypt/scrypt.go.txt" "$W/xcrypto/scrypt/scrypt.go" || fail "scrypt stub"
rl=$(cd "$repo" && GOFLAGS=-mod=readonly go list -m -f '{{.Dir}}' github.com/aarondl/readline) || fail "readline not found"
mkdir "$W/readline" && cp "$rl/complete_helper.go" "$rl/runes.go" "$W/readline/" && chmod u+w "$W/readline/"* && cp "$here/mc/stubs/readline/readline.go.txt" "$W/readline/readline.go" \
  && printf 'module github.com/aarondl/readline\n\ngo 1.18\n' > "$W/readline/go.mod" || fail "readline stub"

# modfile for the program itself, with the stand-ins
cp "$repo/go.mod" "$W/repo.mod" && cp "$repo/go.sum" "$W/repo.sum" || fail "go.mod"
printf '\nreplace golang.org/x/crypto => %s/xcrypto\nreplace github.com/aarondl/readline => %s/readline\n' "$W" "$W" >> "$W/repo.mod"
# unmodified dependencies
cp "$repo/go.mod" "$W/real.mod" && cp "$repo/go.sum" "$W/real.sum"

# modfile for the checker
{
  echo "module bpassmc"; echo; echo "go 1.25"; echo
  echo "require github.com/aarondl/bpass v0.0.0"
  sed -n '/^require/,/^)/p' "$repo/go.mod"
  echo "replace github.com/aarondl/bpass => $repo"
  echo "replace golang.org/x/crypto => $W/xcrypto"
  echo "replace github.com/aarondl/readline => $W/readline"
} > "$W/mc.mod"
cp "$repo/go.sum" "$W/mc.sum"
# some checks call package-internal functions: the checker is then built as a test binary of the
# package, with one extra file laid over it
inpkg=
case $id in
C18) inpkg=.; infile=main_test.go.txt;;
esac
if [ -n "$inpkg" ]; then
  mkdir "$W/ov"; printf '{"Replace":{"%s/%s/zz_verif_mc_test.go":"%s/ov/main_test.go"' "$repo" "$inpkg" "$W" > "$W/ov.json"
  for f in "$here"/mc/checks/*.go "$here"/mc/core/*.go "$here"/mc/ref/*.go "$here/mc/inpkg/$infile"; do
    d=${f#"$here"/mc/}
    case $d in inpkg/*) o=$W/ov/main_test.go;; *)
      o=$W/ov/$d; mkdir -p "${o%/*}"
      printf ',"%s/zzmc/%s":"%s"' "$repo" "$d" "$o" >> "$W/ov.json";;
    esac
    { echo '//go:build go1.25'; echo; sed 's#"bpassmc/#"github.com/aarondl/bpass/zzmc/#' "$f"; } > "$o"
  done
  echo '}}' >> "$W/ov.json"
  ( cd "$repo" && go test -c -vet=off -overlay "$W/ov.json" -modfile="$W/repo.mod" -o "$W/mc" "./$inpkg" ) || fail "the checker does not build into this tree"
else
( cd "$here/mc" && go build -modfile="$W/mc.mod" -o "$W/mc" . ) || fail "the checker does not build against this tree"
fi

# the program itself with the stand-ins, for the checks that run it
case $id in
C0[124-8]|C1[12]) ;; # library only
*)
  ( cd "$repo" && GOFLAGS= go build -modfile="$W/repo.mod" -o "$W/bpass" . ) || fail "bpass does not build"
  mkdir -p "$W/tools" && cp "$here/mc/stubs/xclip.c.txt" "$W/tools/xclip.c" && gcc -O1 -o "$W/tools/xclip" "$W/tools/xclip.c" || fail "xclip stand-in"
  cp "$here/mc/stubs/ftrace.c.txt" "$W/tools/ftrace.c" && gcc -O1 -o "$W/tools/ftrace" "$W/tools/ftrace.c" || fail "file tracer"
  export MC_BPASS="$W/bpass" MC_TOOLS="$W/tools"
esac
# helpers built with the unmodified dependencies
if [ "$id" = C10 ] || [ "$id" = warm ]; then
  mkdir -p "$W/realcrypt" && cp "$here/mc/helpers/realcrypt/main.go.txt" "$W/realcrypt/main.go"
  {
    echo "module realcrypt"; echo; echo "go 1.25"; echo
    echo "require github.com/aarondl/bpass v0.0.0"
    sed -n '/^require/,/^)/p' "$repo/go.mod"
    echo "replace github.com/aarondl/bpass => $repo"
  } > "$W/realcrypt/go.mod"
  cp "$repo/go.sum" "$W/realcrypt/go.sum"
  ( cd "$W/realcrypt" && go build -o "$W/realcrypt.bin" . ) || fail "realcrypt does not build"
  export MC_REALCRYPT="$W/realcrypt.bin"
fi
[ "$id" = warm ] && exit 0   # setup: only shows that everything builds
export MC_SCRATCH="$W" MC_VERIF="$here" MC_REPO="$repo"
"$W/mc" "$id" "$@"
rc=$?
case $rc in 0|1) exit $rc;; *) exit 2;; esac
