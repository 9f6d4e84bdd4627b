// C14: executable contract of base 64.
#include "/repo/utils/utils.hpp"
#include "wit.hpp"
static std::string dump(const std::string &s) { std::string o; char b[8]; for (unsigned i = 0; i < s.size() && i < 400; i++) { snprintf(b, sizeof(b), "%02x", (unsigned char) s[i]); o += b; } if (s.size() > 400) o += "..."; return o; }
static void check(const std::string &s) {
	wit_ctx.clear(); wit_note("%zu bytes: %s", s.size(), dump(s).c_str());
	static const char *al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string e = base64enc(s), x; wit_note("encoded: %s", e.substr(0, 400).c_str());
	for (unsigned i = 0; i < s.size(); i += 3) {
		unsigned b = ((unsigned char) s[i]) << 16; if (i + 1 < s.size()) b |= ((unsigned char) s[i+1]) << 8; if (i + 2 < s.size()) b |= (unsigned char) s[i+2];
		x += al[b >> 18]; x += al[b >> 12 & 63]; x += i + 1 < s.size() ? al[b >> 6 & 63] : '='; x += i + 2 < s.size() ? al[b & 63] : '=';
	}
	WCHECK(e == x, "the base 64 encoding should be %s", x.substr(0, 400).c_str());
	std::string d = base64dec(e);
	WCHECK(d == s, "decoding gives %zu bytes %s", d.size(), dump(d).c_str());
}
int main() {
	check("");
	for (int a = 0; a < 256; a++) { check(std::string(1, (char) a)); for (int b = 0; b < 256; b++) { std::string s(1, (char) a); s += (char) b; check(s); s += (char) (a ^ b); check(s); } }
	for (int it = 0; it < (wit_thorough() ? 200000 : 20000); it++) { WRng r(it); std::string s; int n = r(0, it % 10 ? 12 : 900); for (int i = 0; i < n; i++) s += (char) r(0, 255); check(s); }
	return wit_done("C14");
}
