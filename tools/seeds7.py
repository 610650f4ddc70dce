import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
only = sys.argv[1:]
def S(sid, *a, **k):
    if not only or sid in only:
        seed(sid, *a, **k)

S("C29-zero-listed", "C29", [("gridnav/scenario.cc", "!(opt == 0 && cost == GridNav::Cost(-1))", "!(opt == 0)")],
  "a scenario that lists a cost of zero for an entry that has a path of a positive cost",
  "the wrong optimal cost is accepted",
  script=r'''#!/bin/bash
# run in /repo after the build
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
printf 'type octile\nheight 1\nwidth 3\nmap\n...\n' > "$out/m"
printf 'version 1.0\n0\tm\t3\t1\t0\t0\t2\t0\t0\n' > "$out/s"
if "$PWD/gridnav/scenario_solver" astar -maproot "$out" < "$out/s" > "$out/o" 2>&1; then
	echo "FAIL: accepted: $(grep altrow "$out/o")"
	exit 1
fi
printf 'version 1.0\n0\tm\t3\t1\t0\t0\t2\t0\t2\n' > "$out/s"
"$PWD/gridnav/scenario_solver" astar -maproot "$out" < "$out/s" > "$out/o" 2>&1 || { echo "FAIL: $(tail -1 "$out/o")"; exit 1; }
''')

S("C21-bound-scale", "C21", [("visnav/polymap.cc", "		bound->scale(sx, sy);	", "		bound->scale(sx, sx);	")],
  "a map with a boundary that is scaled by different factors in x and y",
  "cells between the old and the new boundary are wrongly free or obstructed",
  libs="visnav/visgraph.a graphics/image.o utils/utils.a",
  demo=r'''
#include "visnav/polymap.hpp"
#include <cstdio>
int main() {
	// a room of 2x2 cells in a frame
	bool blk[16];
	for (int i = 0; i < 16; i++)
		blk[i] = i / 4 % 3 == 0 || i % 4 % 3 == 0;
	PolyMap m(blk, 4, 4);
	m.scale(1, 3);
	if (m.obstructed(geom2d::Pt(1.5, 7.5)) || m.max().y != 9) {
		printf("FAIL: max y %g\n", m.max().y);
		return 1;
	}
	return 0;
}
''')
