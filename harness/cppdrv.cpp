// Calls the C++ string and path helpers: <id> pre|suf|low|dir|base <hex> <hex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include "futils/futils.hpp"

static std::string unhex(const std::string &h)
{
	std::string r;
	if (h == "-")
		return r;
	for (size_t i = 0; i + 1 < h.size(); i += 2)
		r.push_back((char)strtol(h.substr(i, 2).c_str(), nullptr, 16));
	return r;
}
static void show(const char *k, const std::string &s)
{
	printf(",\"%s\":[", k);
	for (size_t i = 0; i < s.size(); i++)
		printf("%s%d", i ? "," : "", (unsigned char)s[i]);
	printf("]");
}
int main()
{
	std::string l;
	while (std::getline(std::cin, l)) {
		std::istringstream is(l);
		std::string id, k, ah, bh;
		is >> id >> k >> ah >> bh;
		std::string a = unhex(ah), b = unhex(bh);
		std::string share = a;          // shares the characters, where strings do
		std::string a0(a.data(), a.size()), b0(b.data(), b.size()), o;
		int r = 0;
		if (k == "pre")
			r = futils::string::startsWith(a, b);
		else if (k == "suf")
			r = futils::string::endsWith(a, b);
		else if (k == "low")
			o = futils::string::convertToLowerCase(a);
		else if (k == "dir")
			o = futils::fs::dirname(a);
		else
			o = futils::fs::basename(a);
		int same = a == a0 && b == b0 && share == a0;
		printf("{\"id\":%s,\"k\":\"%s\",\"r\":%d,\"same\":%d", id.c_str(), k.c_str(), r, same);
		show("a", a0);
		show("b", b0);
		show("o", o);
		printf("}\n");
	}
	return 0;
}
