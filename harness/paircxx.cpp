// The C++ helpers, for pairdrv.c
#include <cstdio>
#include <string>
#include "futils/futils.hpp"

extern "C" void cxx_helpers(int v, char *b, int n)
{
	static const char *const P[4] = { "/usr/local/lib/", "a", "//x//yy//", "Dir/FILE.Txt" };
	const std::string p(P[v]), q(P[(v + 1) % 4]);
	const std::string d = futils::fs::dirname(p), e = futils::fs::basename(p), l = futils::string::convertToLowerCase(p + q);
	snprintf(b, n, "%s|%s|%s|%d%d%d%d", d.c_str(), e.c_str(), l.c_str(), futils::string::startsWith(p, "/u"), futils::string::startsWith(p, q),
		 futils::string::endsWith(p, "/"), futils::string::endsWith(p + q, q));
}
