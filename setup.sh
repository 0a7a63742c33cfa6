#!/bin/sh
# Parses the specification; the checks build everything else from /repo's working tree when they run.
cd "$(dirname "$0")/spec" || exit 1
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for f in *.tla mc/*.tla; do
	[ -f "$f" ] || continue
	out=$(java -DTLA-Library="$PWD" -cp $CP tla2sany.SANY "$f" 2>&1)
	case "$out" in
		*"*** Errors"*|*"Fatal errors"*|*"Could not find"*) echo "$out"; exit 1;;
	esac
done
echo "specification parsed"
