// seq.hpp: every sequence of operations up to a depth, on a fresh structure.
#pragma once
#include "mc.hpp"

namespace mc {

// seqs calls run(ops) for every sequence of 1 to depth operations numbered
// 0..nops-1.  run must replay the whole sequence on a fresh structure and
// return false if the last operation is not permitted in the state it would
// be applied in, in which case no longer sequence begins with it.
template <class F>
static void seqrec(std::vector<int> &s, int nops, int depth, F &run) {
	if (!run(s))
		return;
	if ((int) s.size() == depth)
		return;
	for (int i = 0; i < nops; i++) {
		s.push_back(i);
		seqrec(s, nops, depth, run);
		s.pop_back();
	}
}

template <class F>
static void seqs(int nops, int depth, uint64_t chunk, uint64_t nchunks, F run) {
	std::vector<int> s;
	uint64_t k = 0;
	for (int i = 0; i < nops; i++)
		for (int j = 0; j < nops; j++, k++) {
			if (k % nchunks != chunk)
				continue;
			s.assign(1, i);
			if (j == 0 && !run(s))
				continue;
			if (depth < 2)
				continue;
			if (j != 0 && !run(s))	// replayed to know if it is permitted
				continue;
			s.push_back(j);
			seqrec(s, nops, depth, run);
		}
}

}
