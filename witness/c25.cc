// C25: RdbAttrs against a plain list of pairs.
#include "wit.hpp"
#include "/repo/rdb/rdb.hpp"
#include <list>
#include <utility>
typedef std::vector<std::pair<std::string, std::string>> Model;
static std::string word(WRng &r) {
	static const char *w[] = {"", "a", "b", "ab", "a=b", "a b", "key", "keys", "val\xff", "k0", "k1", "k2", "k3", "k4", "a key that is longer than the small string buffer"};
	unsigned n = r(0, 15);
	if (n == 15) return std::string("a\0b", 3);
	return w[n];
}
static int find(const Model &m, const std::string &k) {
	for (unsigned i = 0; i < m.size(); i++) if (m[i].first == k) return i;
	return -1;
}
static void same(RdbAttrs &a, const Model &m, const char *after) {
	WCHECK(a.size() == m.size(), "%s: %u keys instead of %zu", after, a.size(), m.size());
	auto ks = a.getkeys();
	WCHECK(ks.size() == m.size(), "%s: getkeys", after);
	std::string str;
	for (unsigned i = 0; i < m.size(); i++) {
		WCHECK(ks[i] == m[i].first, "%s: key %u is '%s' instead of '%s'", after, i, ks[i].c_str(), m[i].first.c_str());
		WCHECK(a.mem(m[i].first), "%s: key '%s' is not bound", after, ks[i].c_str());
		WCHECK(a.lookup(m[i].first) == m[i].second, "%s: key '%s' is bound to '%s' instead of '%s'", after, ks[i].c_str(), a.lookup(m[i].first).c_str(), m[i].second.c_str());
		if (str.size() > 0) str += ' ';
		str += m[i].first + "=" + m[i].second;
	}
	WCHECK(a.string() == str, "%s: string is '%s' instead of '%s'", after, a.string().c_str(), str.c_str());
	if (m.size()) WCHECK(a.front() == m[0].first, "%s: front is '%s' instead of '%s'", after, a.front().c_str(), m[0].first.c_str());
}
int main() {
	
	for (unsigned it = 0; it < (wit_thorough() ? 40000u : 3000u); it++) {
		WRng r(it);
		RdbAttrs a;
		Model m;
		unsigned n = 1 + r(0, (40) - 1), bias = r(0, (4) - 1);
		same(a, m, "fresh list");
		for (unsigned j = 0; j < n; j++) {
			std::string k = word(r), v = word(r);
			int at = find(m, k);
			unsigned op = r(0, (6 + bias) - 1);
			char what[200];
			if (op == 0) {
				snprintf(what, sizeof what, "list %u step %u: rm('%s')", it, j, k.c_str());
				bool b = a.rm(k);
				WCHECK(b == (at >= 0), "%s returned %d", what, b);
				if (at >= 0) m.erase(m.begin() + at);
			} else if (op == 1 && m.size()) {
				snprintf(what, sizeof what, "list %u step %u: pop_front()", it, j);
				a.pop_front();
				m.erase(m.begin());
			} else if (op == 2) {
				snprintf(what, sizeof what, "list %u step %u: push_front('%s','%s')", it, j, k.c_str(), v.c_str());
				bool b = a.push_front(k, v);
				WCHECK(b == (at < 0), "%s returned %d", what, b);
				if (at < 0) m.insert(m.begin(), std::make_pair(k, v));
			} else if (op == 3 && m.size() && r(0, 1)) {
				snprintf(what, sizeof what, "list %u step %u: rm(front())", it, j);
				WCHECK(a.rm(a.front()), "%s refused", what);
				m.erase(m.begin());
			} else if (op == 3) {
				snprintf(what, sizeof what, "list %u step %u: mem('%s')", it, j, k.c_str());
				WCHECK(a.mem(k) == (at >= 0), "%s is wrong", what);
			} else {
				snprintf(what, sizeof what, "list %u step %u: push_back('%s','%s')", it, j, k.c_str(), v.c_str());
				bool b = a.push_back(k, v);
				WCHECK(b == (at < 0), "%s returned %d", what, b);
				if (at < 0) m.push_back(std::make_pair(k, v));
			}
			same(a, m, what);
		}
	}
	return wit_done("C25");
}
