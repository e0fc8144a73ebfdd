# Builds the driver outside the tree and runs it.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
for d in /opt/veriftools/go1.27.3/bin /opt/veriftools/go*/bin /usr/local/go/bin; do
	if [ -x "$d/go" ]; then PATH=$d:$PATH; break; fi
done
export PATH VERIF_DIR="${VERIF_DIR:-$here}"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
tmp=$(mktemp -d /tmp/verif-drv-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/sim/go.mod" "$tmp/drv.mod" && cp "$here/sim/go.sum" "$tmp/drv.sum" || exit 2
(cd "$here/sim" && go build -modfile="$tmp/drv.mod" -o "$tmp/driver" ./driver) || { echo "the driver does not build" >&2; exit 2; }
"$tmp/driver" "$@" &
child=$!
trap 'kill -TERM $child 2>/dev/null' TERM INT HUP
wait $child
rc=$?
exit $rc
