#include "/repo/utils/safeops.hpp"
template struct safe::ops<int, true>;
template struct safe::ops<unsigned int, false>;
template struct safe::ops<long, true>;
template struct safe::ops<unsigned long, false>;
template struct safe::ops<short, true>;
template struct safe::ops<unsigned short, false>;
template struct safe::ops<signed char, true>;
template struct safe::ops<unsigned char, false>;
#define W(T) template T safe::add<T>(T, T); template T safe::sub<T>(T, T); template T safe::mul<T>(T, T); template T safe::div<T>(T, T); template bool safe::can_mul<T>(T, T);
W(int) W(unsigned int) W(long) W(unsigned long) W(short) W(unsigned short) W(signed char) W(unsigned char)
