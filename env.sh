# toolchain settings shared by the commands of MANIFEST.json
export VERIF_DIR="${VERIF_DIR:-$(pwd)}"
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  if [ -x "$d/go" ]; then export PATH="$d:$PATH"; break; fi
done
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off GOGC=400
DXA="$VERIF_DIR/bin/dxa"
build_dxa() { (cd "$VERIF_DIR/analyzer" && go build -o "$DXA" .); }
