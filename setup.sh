#!/bin/sh
# builds the MIR fact extractor and checks that it reads the crate
cd "$(dirname "$0")" || exit 2
exec python3 -c "from amx import facts; P = facts.load(); print(len(P.fns), 'functions')"
