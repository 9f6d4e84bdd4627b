// Instantiates the k-d tree; 1009 dimensions stand for any number (the unit replaces the literal by a constant).
#include <cstddef>
#include "/repo/structs/kdtree.hpp"
typedef Kdtree<1009, int> T;
void use(double *p) {
	T t;
	t.insert(p, 1);
	const T::N *n = t.nearest(p);
	(void) n; (void) t.size(); (void) t.depth();
	for (T::iterator it = t.begin(); it != t.end(); ++it) (void) *it;
}
