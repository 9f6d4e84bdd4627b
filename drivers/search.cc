#include "/repo/search/search.cc"
