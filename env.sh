# Sourced by check.sh and setup.sh: the toolchain, and how to build the harness
# against a working tree of go-ini/ini.
export HOME=${HOME:-/root}
if [ -d /opt/veriftools/go1.27.3 ]; then
  export GOROOT=/opt/veriftools/go1.27.3
  export PATH="$GOROOT/bin:$PATH"
fi
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}

# verif_build REPO OUTDIR ID: builds vrun (and vrun-race when the property needs it)
verif_build() {
  local repo=$1 out=$2 id=$3 race
  mkdir -p "$out/mod" "$out/s"
  sed "s#=> /repo#=> $repo#" "$V/harness/go.mod" > "$out/mod/go.mod"
  cp "$V/harness/go.sum" "$out/mod/go.sum"
  printf 'module github.com/go-ini/ini\n\ngo 1.27.3\n' > "$out/mod/ini.mod"
  : > "$out/mod/ini.sum"
  printf '{"Replace": {"%s/go.mod": "%s/mod/ini.mod", "%s/go.sum": "%s/mod/ini.sum"}}' "$repo" "$out" "$repo" "$out" > "$out/mod/overlay.json"
  case " C21 C22 " in
  *" $id "*)
    # The library's locks with hooks, and the same with the race detector.
    mkdir -p "$out/src"
    ( cd "$V/harness" && go run -modfile="$out/mod/go.mod" ./cmd/vinstr "$repo" "$out/src" "$out/mod/overlay.json" ) || return 1
    ( cd "$V/harness" && go build -race -modfile="$out/mod/go.mod" -overlay "$out/mod/overlay.json" -o "$out/vrun-race" ./cmd/vrun ) || return 1
    ;;
  esac
  ( cd "$V/harness" && go build -modfile="$out/mod/go.mod" -overlay "$out/mod/overlay.json" -o "$out/vrun" ./cmd/vrun ) || return 1
}
