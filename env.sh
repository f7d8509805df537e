# Go toolchain, offline; sourced by the scripts here
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOROOT=/opt/veriftools/go1.27.3
export PATH="$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
vsim_build() { # builds the driver into a scratch file named by $vsim
  vsim_dir="$(mktemp -d -t vsim-drv-XXXXXX)" || exit 2
  trap 'rm -rf "$vsim_dir"' EXIT
  vsim="$vsim_dir/vsim"
  (cd "$here/sim" && go build -o "$vsim" ./cmd/vsim) || { echo "check: the simulator does not build" >&2; exit 2; }
}
