// An arbitrary state space: every operation is declared here and known only by its contract.
struct SDom {
	typedef long Cost; typedef int Oper; enum { Nop = -1 };
	struct State { long vs; };
	struct PackedState { long k; unsigned long hash(const SDom*) const; bool eq(const SDom*, const PackedState&) const; };
	struct Operators { Operators(const SDom&, const State&); unsigned int size() const; int operator[](unsigned int) const; long os; };
	struct Edge { long cost; int revop; State &state; State *src; long orig, now; Edge(const SDom&, State&, int); ~Edge(); };
	long h(const State&) const; long d(const State&) const; bool isgoal(const State&) const;
	void pack(PackedState&, const State&) const; State &unpack(State&, const PackedState&) const;
};
