// families.hpp: bounded families of graphs, enumerated completely.
#pragma once
#include "graph.hpp"

// digraphs calls f on every directed graph with n vertices in which each arc
// leaving a non-goal vertex is absent (cost 0) or has one of the given costs.
// Successor lists are in increasing vertex order, or decreasing when rev.
template <class F>
void digraphs(int n, unsigned goals, const std::vector<int> &costs, bool rev,
		uint64_t chunk, uint64_t nchunks, F f) {
	std::vector<std::pair<int,int>> arcs;
	for (int i = 0; i < n; i++)
		for (int j = 0; j < n; j++)
			if (i != j && !(goals >> i & 1) && j != 0)
				arcs.push_back({i, rev ? n - 1 - j : j});
	// arcs into the start are kept too: they make cycles through the root
	if (rev) {
		arcs.clear();
		for (int i = 0; i < n; i++)
			for (int j = n - 1; j > 0; j--)
				if (i != j && !(goals >> i & 1))
					arcs.push_back({i, j});
	}
	for (int i = 1; i < n; i++)
		if (!(goals >> i & 1))
			arcs.push_back({i, 0});
	mc::Product p;
	p.add(costs.size() + 1, arcs.size());
	uint64_t N = p.size();
	Graph g;
	for (uint64_t k = chunk; k < N; k += nchunks) {
		p.set(k);
		g.init(n);
		for (int i = 0; i < n; i++)
			g.goal[i] = goals >> i & 1;
		for (size_t a = 0; a < arcs.size(); a++)
			if (p[a])
				g.arc(arcs[a].first, arcs[a].second, costs[p[a] - 1]);
		g.solve();
		f(g);
	}
}

// ugraphs: undirected graphs (each edge can be undone at the same cost).
template <class F>
void ugraphs(int n, unsigned goals, const std::vector<int> &costs, bool rev,
		uint64_t chunk, uint64_t nchunks, F f) {
	std::vector<std::pair<int,int>> es;
	for (int i = 0; i < n; i++)
		for (int j = i + 1; j < n; j++)
			es.push_back({i, j});
	if (rev)
		std::reverse(es.begin(), es.end());
	mc::Product p;
	p.add(costs.size() + 1, es.size());
	uint64_t N = p.size();
	Graph g;
	for (uint64_t k = chunk; k < N; k += nchunks) {
		p.set(k);
		g.init(n);
		for (int i = 0; i < n; i++)
			g.goal[i] = goals >> i & 1;
		for (size_t a = 0; a < es.size(); a++)
			if (p[a]) {
				g.arc(es[a].first, es[a].second, costs[p[a] - 1]);
				g.arc(es[a].second, es[a].first, costs[p[a] - 1]);
			}
		g.solve();
		f(g);
	}
}

// layered: vertex 0 is the start, then `layers` layers of width w, then one
// goal.  Each layer-to-layer arc has one of the costs (0 means absent);
// a node of layer 1 is reached from the start with one of the costs.
template <class F>
void layered(int w, int layers, const std::vector<int> &costs, bool shortcuts,
		uint64_t chunk, uint64_t nchunks, F f) {
	int n = 2 + w * layers;
	std::vector<std::pair<int,int>> arcs;
	for (int j = 0; j < w; j++)
		arcs.push_back({0, 1 + j});
	for (int l = 0; l + 1 < layers; l++)
		for (int i = 0; i < w; i++)
			for (int j = 0; j < w; j++)
				arcs.push_back({1 + l * w + i, 1 + (l + 1) * w + j});
	for (int i = 0; i < w; i++)
		arcs.push_back({1 + (layers - 1) * w + i, n - 1});
	// shortcuts inside a layer make longer, cheaper routes
	for (int l = 0; shortcuts && l < layers; l++)
		for (int i = 0; i + 1 < w; i++)
			arcs.push_back({1 + l * w + i, 1 + l * w + i + 1});
	mc::Product p;
	p.add(costs.size(), arcs.size());
	uint64_t N = p.size();
	Graph g;
	for (uint64_t k = chunk; k < N; k += nchunks) {
		p.set(k);
		g.init(n);
		g.goal[n - 1] = 1;
		for (size_t a = 0; a < arcs.size(); a++)
			if (costs[p[a]] > 0)
				g.arc(arcs[a].first, arcs[a].second, costs[p[a]]);
		g.solve();
		f(g);
	}
}

// gridgraph makes a w x h grid with 4-way unit-cost moves from the first cell
// to the last one.  Cells whose bit is set in blocked are blocked.
static inline void gridgraph(Graph &g, int w, int h, const std::vector<char> &blocked, bool manhattan,
		int costx = 1, int costy = 1) {
	g.init(w * h);
	g.goal[w * h - 1] = 1;
	static const int dx[] = { 0, 1, 0, -1 }, dy[] = { -1, 0, 1, 0 };
	for (int y = 0; y < h; y++)
		for (int x = 0; x < w; x++) {
			int v = y * w + x;
			g.d[v] = (w - 1 - x) + (h - 1 - y);
			g.h[v] = manhattan ? (w - 1 - x) * costx + (h - 1 - y) * costy : 0;
			if (blocked.size() && blocked[v])
				continue;
			for (int k = 0; k < 4; k++) {
				int nx = x + dx[k], ny = y + dy[k];
				if (nx < 0 || ny < 0 || nx >= w || ny >= h)
					continue;
				if (blocked.size() && blocked[ny * w + nx])
					continue;
				g.arc(v, ny * w + nx, dx[k] ? costx : costy);
			}
		}
	g.solve();
}

// heuristics calls f for every admissible assignment of h from
// {0, dist/2, dist} (the first nopt of {0, dist, dist/2}) to the reachable
// non-goal vertices; dead ends get 0 or 7.
template <class F>
void heuristics(Graph &g, unsigned nopt, F f) {
	auto r = g.reachable();
	mc::Product p;
	std::vector<int> vs;
	std::vector<std::vector<int>> opts;
	for (int i = 0; i < g.n; i++) {
		g.h[i] = 0;
		if (!r[i] || g.goal[i])
			continue;
		std::vector<int> o(1, 0);
		if (g.dist[i] >= GInf) {
			if (nopt > 1)
				o.push_back(7);
		} else {
			if (nopt > 1)
				o.push_back(g.dist[i]);
			if (nopt > 2 && g.dist[i] / 2 > 0)
				o.push_back(g.dist[i] / 2);
		}
		vs.push_back(i);
		opts.push_back(o);
		p.add(o.size());
	}
	p.set(0);
	do {
		for (size_t k = 0; k < vs.size(); k++)
			g.h[vs[k]] = opts[k][p[k]];
		f(g);
	} while (p.next());
}

// sdist sets d to the number of steps to the goal (0 for dead ends).
static inline void sdist(Graph &g) {
	for (int i = 0; i < g.n; i++)
		g.d[i] = g.steps[i] >= GInf ? 0 : g.steps[i];
}

// hash functions: distinct, all equal, two classes
static inline const uint64_t *hashes(int mode) {
	static uint64_t tab[3][Graph::Max];
	static bool init;
	if (!init) {
		init = true;
		for (int i = 0; i < Graph::Max; i++) {
			tab[0][i] = i;
			tab[1][i] = 42;
			tab[2][i] = (i & 1) * 7919;
		}
	}
	return tab[mode];
}

// medium calls f for every member of four families of graphs of 16 to 60 vertices: rings with two kinds of
// chords, combs whose teeth are shortcuts, chains of diamonds (the only ones without cycles), and grids with a wall;
// each with h = 0, h*, and three mixtures by vertex.  sym makes every arc lead both ways.
template <class F>
void medium(bool sym, uint64_t chunk, uint64_t nchunks, F f) {
	uint64_t k = 0;
	auto give = [&](Graph &g) {
		g.solve();
		sdist(g);
		auto dist = g.dist;
		for (int pat = 0; pat < 5; pat++) {
			if (k++ % nchunks != chunk)
				continue;
			for (int i = 0; i < g.n; i++) {
				int x = dist[i] >= GInf ? 3 : dist[i];
				g.h[i] = g.goal[i] ? 0 : pat == 0 ? 0 : pat == 1 ? x : pat == 2 ? (i % 2) * x : pat == 3 ? x / 2 : (i % 3) * x / 2;
			}
			f(g);
		}
	};
	// An operator is the vertex it leads to, so there are no parallel arcs.
	auto one = [](Graph &g, int a, int b, int c) {
		for (auto &x : g.adj[a])
			if (x.to == b)
				return;
		if (a != b)
			g.arc(a, b, c);
	};
	auto arc = [&](Graph &g, int a, int b, int c) {
		one(g, a, b, c);
		if (sym)
			one(g, b, a, c);
	};
	Graph g;
	for (int n : { 16, 33, 60 })
	for (int s1 : { 2, 5 })
	for (int s2 : { 3, 7 })
	for (int c : { 0, 1, 2, 3, 4, 5 })
	for (int goal : { n / 2, n - 1 }) {
		static const int costs[][3] = { { 1, 1, 1 }, { 1, 3, 4 }, { 2, 3, 9 }, { 4, 1, 1 }, { 1, 5, 6 }, { 3, 4, 2 } };
		g.init(n);
		g.goal[goal] = 1;
		for (int i = 0; i < n; i++) {
			arc(g, i, (i + 1) % n, costs[c][0]);
			if (i % 3 == 0 && (i + s1) % n != i)
				arc(g, i, (i + s1) % n, costs[c][1]);
			if (i % 2 == 0)
				arc(g, i, (i * s2 + 2) % n == i ? (i + 4) % n : (i * s2 + 2) % n, costs[c][2]);
		}
		give(g);
	}
	for (int len : { 7, 19 })
	for (int c1 : { 1, 2 })
	for (int c2 : { 1, 5 })
	for (int c3 : { 3, 7 })
	for (int every : { 2, 3 }) {	// 0..len-1 the back, len..2len-1 the tips, 2len the goal
		g.init(2 * len + 1);
		g.goal[2 * len] = 1;
		for (int i = 0; i < len; i++) {
			if (i + 1 < len)
				arc(g, i, i + 1, c1);
			arc(g, i, len + i, c2);
			if (i + every < len)
				arc(g, len + i, i + every, i % 2 ? c3 : 1);
			if (i % every == 0)
				arc(g, len + i, 2 * len, (len - i) * c3 / 2 + 1);
		}
		arc(g, len - 1, 2 * len, c3);
		give(g);
	}
	for (int len : { 5, 9 })
	for (int a : { 1, 2 })
	for (int b : { 1, 3 })
	for (int x : { 0, 1, 2 })	{	// 3i the joint, 3i+1 and 3i+2 its two sides
		g.init(3 * len + 1);
		g.goal[3 * len] = 1;
		for (int i = 0; i < len; i++) {
			arc(g, 3 * i, 3 * i + 1, a + i % 2);
			arc(g, 3 * i, 3 * i + 2, b + i % 3);
			arc(g, 3 * i + 1, 3 * i + 3, b);
			arc(g, 3 * i + 2, 3 * i + 3, a);
			if (x == 1)
				arc(g, 3 * i + 1, 3 * i + 2, 1);
			if (x == 2 && i + 1 < len)
				arc(g, 3 * i + 2, 3 * i + 4, 1);
		}
		give(g);
	}
	for (int w : { 4, 7 })
	for (int h : { 5, 8 })
	for (int wall = 1; wall + 1 < h; wall += 2)
	for (int gap = 0; gap <= w; gap += 2)	// w: no gap
	for (int cx : { 1, 3 }) {
		std::vector<char> b(w * h, 0);
		for (int i = 0; i < w; i++)
			b[wall * w + i] = i != gap;
		gridgraph(g, w, h, b, false, cx, 1 + wall % 3);
		give(g);
	}
}

// scale calls f for fans of 150 and 400 leaves, of which the costs of all but the first few change while they are open,
// and for chains of 300 vertices with detours; each with h = 0, about h*/2, and h* on some vertices.
template <class F>
void scale(bool sym, uint64_t chunk, uint64_t nchunks, F f) {
	uint64_t k = 0;
	Graph g;
	auto arc = [&](int a, int b, int c) {
		g.arc(a, b, c);
		if (sym)
			g.arc(b, a, c);
	};
	auto give = [&] {
		g.solve();
		sdist(g);
		auto dist = g.dist;
		for (int pat = 0; pat < 3; pat++) {
			if (k++ % nchunks != chunk)
				continue;
			for (int i = 0; i < g.n; i++)
				g.h[i] = g.goal[i] || dist[i] >= GInf ? 0 : pat == 0 ? 0 : pat == 1 ? dist[i] / 2 : i % 3 ? dist[i] : 0;
			f(g);
		}
	};
	for (int m : { 150, 400 })
	for (int c : { 0, 1, 2, 3, 4 })	// how the leaves differ; 3 and 4: all of them get cheaper from a second hub
	for (int goals : { 0, 1 }) {	// from the last leaf, or from every tenth one
		g.init(m + 2 + (c > 2));
		g.goal[m + 1] = 1;
		for (int i = 1; i <= m; i++)
			arc(0, i, c == 0 ? 20 + i : c == 1 ? 30 + 3 * (i * 7 % m) : c == 2 ? 20 + 2 * (m - i) : c == 3 ? 200 : 200 + i);
		if (c > 2) {
			arc(0, m + 2, 10);
			for (int i = 1; i <= m; i++)
				arc(m + 2, i, 60 + i * 3 % 7);
		}
		for (int i = 1; i < m; i++)
			arc(i, i + 1, 1 + i % 2);
		for (int i = m; i > 0; i -= goals ? 10 : m)
			arc(i, m + 1, goals ? 40 + i % 7 : 5);
		give();
	}
	for (int len : { 140, 300 })
	for (int c : { 1, 4 })
	for (int end : { 0, 1 }) {	// a dead end instead of the last arc
		g.init(len + len / 3 + 2);
		g.goal[len + len / 3 + 1] = 1;
		for (int i = 0; i < len - end; i++)
			arc(i, i + 1, c + i % 2);
		for (int j = 0; j < len / 3; j++) {	// detours over three arcs, some cheaper
			int v = len + 1 + j;
			arc(3 * j, v, 1 + j % 3);
			arc(v, 3 * j + 3, 2 + j % 5);
		}
		if (!end)
			arc(len, len + len / 3 + 1, 2);
		else if (c == 1)
			arc(len / 2, len + len / 3 + 1, 3 * len);
		give();
	}
}
