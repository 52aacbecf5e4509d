#!/bin/sh
# Nothing to compile: the framework is pure Python and imports the package from /repo at run time.
exec "$(dirname "$0")/check" --selftest-import
