#!/bin/bash
# ./check.sh ID quick|thorough    decide one property on /repo's current working tree
# ./check.sh replay FILE          re-execute a recorded violation on /repo's current working tree
# ./check.sh setup                warm the build cache
set -u
here=$(cd "$(dirname "$0")" && pwd) || exit 2
cd "$here/mc" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off HOME="${HOME:-/root}"
work=$(mktemp -d "${TMPDIR:-/tmp}/mcbuild.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
what=$1
needs() { # properties which need an additional build
	case "$what" in
	setup) return 0 ;;
	replay) grep -q "\"property\": \"$1\"" "$file" 2>/dev/null ;;
	*) [ "$what" = "$1" ] ;;
	esac
}
file="${2:-}"
built=
if needs C24 || needs C25; then
	# instrumented copies of the packages, for the controlled scheduler and for the initial state of package-level data
	mkdir -p "$work/io" "$work/ir"
	if (cd "$here/inst" && go build -o "$work/inst" .) 2>"$work/err" &&
		VERIF_GOSTMTS=$("$work/inst" /repo "$work/io" "$here/inst" 2>>"$work/err") &&
		go build -overlay "$work/io/overlay.json" -tags inst -o "$work/mc" . 2>>"$work/err"; then
		export VERIF_GOSTMTS="${VERIF_GOSTMTS%% *}"
		built=1
	else
		echo "the instrumented build failed:" >&2
		head -20 "$work/err" >&2
	fi
	if needs C25; then
		if [ -x "$work/inst" ] && "$work/inst" /repo "$work/ir" "$here/inst" -race >/dev/null 2>>"$work/err" &&
			CGO_ENABLED=1 go build -race -overlay "$work/ir/overlay.json" -tags inst -o "$work/mcrace" . 2>>"$work/err" ||
			CGO_ENABLED=1 go build -race -o "$work/mcrace" . 2>>"$work/err"; then
			export VERIF_MC_RACE="$work/mcrace"
		else
			echo "the build with the race detector failed:" >&2
			tail -5 "$work/err" >&2
		fi
	fi
fi
if [ -z "$built" ] || [ "$what" = setup ]; then
	# an unused exported helper may be missing: only its own property needs it
	if ! go build -o "$work/mc" . 2>"$work/err" && { needs C29 || ! go build -tags nobits -o "$work/mc" . 2>>"$work/err"; }; then
		cat "$work/err" >&2
		echo "the checks do not build against this tree" >&2
		exit 2
	fi
fi
if needs C26; then
	if ! (cd /repo && GOFLAGS= go build -o "$work/cli" ./cmd) 2>"$work/err"; then
		cat "$work/err" >&2
		echo "the command line does not build" >&2
		exit 2
	fi
	export VERIF_CLI="$work/cli" VERIF_SCRATCH="$work"
fi
case "$what" in
setup) exit 0 ;;
replay) case "$file" in /*) ;; *) file="$here/$file" ;; esac; "$work/mc" replay "$file" ;;
*) "$work/mc" run "$what" "${2:-quick}" ;;
esac
exit $?
