#include <cstdint>
#include <algorithm>
#include "/repo/search/closedlist.hpp"
#include "/repo/structs/htable.hpp"
struct VDom;
struct VPacked { long k; bool eq(const VDom*, const VPacked&) const; unsigned long hash(const VDom*); };
struct VDom { typedef VPacked PackedState; };
struct VNode { ClosedEntry<VNode, VDom> ent; };
struct VOps { static ClosedEntry<VNode, VDom> &closedentry(VNode*); static VPacked &key(VNode*); };
template struct ClosedList<VOps, VNode, VDom>;

struct HElm { HtableEntry<HElm> ent; };
struct HOps { static HtableEntry<HElm> &entry(HElm*); static long key(HElm*); static unsigned long hash(long); };
template class Htable<HOps, long, HElm>;
