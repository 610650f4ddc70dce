import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
only = sys.argv[1:]
def S(sid, *a, **k):
    if not only or sid in only:
        seed(sid, *a, **k)

S("C10-navg-dead", "C10", [("search/bugsy.hpp", """		if (bestinfo.f < Cost(0))
			return;

		navg++;
""", """		navg++;
		if (bestinfo.f < Cost(0))
			return;

""")],
  "Bugsy with -hhat or -dhat, and an expansion that has no successor before others that have errors to average",
  "the averages count expansions that have no error of their own, so the corrections are too small",
  demo=r'''#include "gdom.hpp"
int main() {
	typedef Gdom<int> D;
	D d(4);
	d.arc(0, 1, 1); d.arc(0, 2, 2); d.arc(2, 3, 3);
	d.goals[3] = 1;
	SearchAlgorithm<D> *a = demoalg<D>({"bugsy", "-wf", "1", "-wt", "0", "-hhat"});
	D::State s0 = d.initialstate();
	a->search(d, s0);
	EXPECT(d.trace.size() == 3, "%d expansions", (int) d.trace.size());
	fflush(stdout);
	freopen("out", "w", stdout);
	a->output(stdout);
	fclose(stdout);
	stdout = stderr;
	FILE *f = fopen("out", "r");
	char l[1000];
	double e = -1;
	const char *key = "mean single-step h error\"\t\"";
	while (fgets(l, sizeof(l), f))
		if (strstr(l, key)) e = strtod(strstr(l, key) + strlen(key), NULL);
	fclose(f);
	EXPECT(e == 2, "the mean of the errors 1 and 3 is %g", e);
	return 0;
}
''')

S("C28-seed-fourway", "C28", [("gridnav/mkseedinst.cc", """		if (eightway)
			m.seteightway();

""", "")],
  "mkseedinst -eightway with a seed whose map can be solved only with diagonal moves",
  "a seed of which the eight-way instance can be solved is passed over",
  script=r'''#!/bin/bash
# run in /repo after the build
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
# Some seed gives a map of two columns in which the start and the goal meet at a corner only...
for s in $(seq 1 40); do
	a=$("$PWD/gridnav/mkseedinst" -width 3 -height 2 -prob 0.4 -seed $s -eightway 2>/dev/null | head -1)
	[ "$a" = "" ] && exit 2
	# the instance before the one that is chosen cannot be solved
	t=$(echo $a | cut -d' ' -f2)
	for ((i = s; i < t; i++)); do
		(echo "seed $i 3 2 0.4"; echo Eightway; echo Unit; echo "0 0"; echo "2 0") > "$out/inst"
		if timeout 20 "$PWD/gridnav/gridnav_solver" astar < "$out/inst" 2>/dev/null | grep '"final sol cost"' | grep -qv '"-1'; then
			echo "FAIL: seed $i can be solved, but $t is given from $s on"
			exit 1
		fi
	done
done
exit 0
''')

S("C28-goal-blocked", "C28", [("gridnav/randinst.cc", """map.index(xs[i], ys[i])""", """map.index(xs[0], ys[0])""")],
  "randinst, when the random location of the goal, but not that of the start, is blocked",
  "the goal may be a blocked cell",
  script=r'''#!/bin/bash
# run in /repo after the build
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
printf '2 2\nBoard:\n #\n# \nUnit\nFour-way\n' > "$out/map"
for s in $(seq 1 60); do
	l=$("$PWD/gridnav/randinst" -m "$out/map" -s $s | tail -1)
	set -- $l
	[ $# = 4 ] || exit 2
	for p in "$1 $2" "$3 $4"; do
		# the first line of the board is the row with y = 1
		case "$p" in "0 1"|"1 0") ;; *) echo "FAIL: seed $s gives $l"; exit 1;; esac
	done
done
exit 0
''')

S("C29-goal-start", "C29", [("search/main.hpp", """	if (srch->res.path.size() > 0) {""", """	if (srch->res.ops.size() > 0) {""")],
  "an instance whose start is its goal",
  "an instance that is solved without a move is reported with the cost of one that has no solution",
  script=r'''#!/bin/bash
# run in /repo after the build
out=$(printf '1 2\nBoard:\n  \nUnit\nFour-way\n0 0 0 0\n' | "$PWD/gridnav/gridnav_solver" astar) || exit 1
echo "$out" | grep '"final sol cost"'
echo "$out" | grep -q '"final sol length".*"1"' || exit 1
echo "$out" | grep -q '"final sol cost".*"0.000000"' || { echo "FAIL: the cost is not 0"; exit 1; }
''')

S("C29-scen-map", "C29", [("gridnav/scenario.cc", """	if (!lastmap || lastmap->file != path) {
		if (lastmap)
			delete lastmap;
		lastmap = new GridMap(path);
	}
	return lastmap;""", """	if (!lastmap || lastmap->file.compare(0, path.size(), path) != 0) {
		if (lastmap)
			delete lastmap;
		lastmap = new GridMap(path);
	}
	return lastmap;""")],
  "a scenario with an entry whose map's name begins the name of the map before it",
  "an entry is solved on the map of the one before it",
  script=r'''#!/bin/bash
# run in /repo after the build
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
printf 'type octile\nheight 1\nwidth 3\nmap\n...\n' > "$out/m"
printf 'type octile\nheight 1\nwidth 3\nmap\n.@.\n' > "$out/m1"
printf 'version 1.0\n0\tm1\t3\t1\t0\t0\t2\t0\t0\n0\tm\t3\t1\t0\t0\t2\t0\t2\n' > "$out/s"
"$PWD/gridnav/scenario_solver" astar -maproot "$out" < "$out/s" > "$out/o" 2>&1 || { echo "FAIL: $(tail -1 "$out/o")"; exit 1; }
grep -c '^#altrow' "$out/o"
''')

S("C29-lvl-last", "C29", [("plat2d/main.cc", """	for (int i = 1; i < argc; i++) {
		if (i < argc - 1 && strcmp(argv[i], "-lvl") == 0)
			lvl = argv[++i];""", """	for (int i = 1; i < argc; i++) {
		if (i < argc - 2 && strcmp(argv[i], "-lvl") == 0)
			lvl = argv[++i];""")],
  "-lvl FILE as the last arguments",
  "the level is read from the standard input instead of the file",
  script=r'''#!/bin/bash
# run in /repo after the build
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
s=$PWD/plat2d/plat2d_solver
cd "$out" || exit 2
printf '1 4 3 0\n####\n#ud#\n####\n' > l
"$s" astar -lvl l < /dev/null > o 2>&1 || { echo "FAIL: $(tail -1 o)"; exit 1; }
grep -q '"level"' o || { echo "FAIL: no level"; exit 1; }
''')
