#include "nz.hpp"
#include <NazaraUtils/PathUtils.hpp>
#include <string>
using S = std::size_t;
namespace
{
	struct Buf { char* p; S n; Buf(S k, const char* nm = "b") : p(static_cast<char*>(nz_raw(k, 1, "b"))), n(k) {} std::string_view sv() const { return std::string_view(p, n); } };
	template<typename A> bool same(const A& a, const char* b, S n)
	{
		S d = 0; for (S i = 0; i < n; ++i) d |= static_cast<unsigned char>(a[i]) ^ static_cast<unsigned char>(b[i]);
		return d == 0;
	}
	using P = std::filesystem::path;
}
extern "C" {
#define LEN(N) \
	void d_to_string##N() { Buf b(N); P p; p.g.assign(b.p, N); p.n.assign(static_cast<const char*>(nz_raw(5, 1, "native")), 5); std::string s = Nz::PathToString(p); nz_check(s.size() == N && same(s, b.p, N), "the string is the generic form of the path, byte for byte"); nz_check(p.g.size() == N && p.n.size() == 5, "the path is left alone"); } \
	void d_from_string##N() { Buf b(N); P p = Nz::Utf8Path(b.sv()); nz_check(p.n.size() == N && same(p.n, b.p, N), "the path is built from the string, byte for byte"); } \
	void d_round##N() { Buf b(N); nz_plain_paths = true; std::string s = Nz::PathToString(Nz::Utf8Path(b.sv())); nz_check(s.size() == N && same(s, b.p, N), "a string without repeated separators survives the round trip"); }
	LEN(0) LEN(1) LEN(2) LEN(7) LEN(15) LEN(16) LEN(17) LEN(40)
	void d_to_string_any() { Buf b(nz_any_size()); nz_assume(b.n > 0); nz_assume(b.n < 100000); P p; p.g.assign(b.p, b.n); std::string s = Nz::PathToString(p); nz_check(s.size() == b.n, "the string keeps its length"); S i = nz_any_size(); nz_assume(i < b.n); nz_check(s[i] == b.p[i], "the string keeps every byte"); }
	void d_from_string_any() { Buf b(nz_any_size()); nz_assume(b.n > 0); nz_assume(b.n < 100000); P p = Nz::Utf8Path(b.sv()); nz_check(p.n.size() == b.n, "the path keeps the length"); S i = nz_any_size(); nz_assume(i < b.n); nz_check(p.n[i] == b.p[i], "the path keeps every byte"); }
	void d_from_null() { P p = Nz::Utf8Path(std::string_view()); nz_check(p.n.empty(), "the path of an empty string is empty"); }
	void d_part() { Buf b(8); P p = Nz::Utf8Path(b.sv().substr(2, 3)); nz_check(p.n.size() == 3 && same(p.n, b.p + 2, 3), "only the characters of the view are used"); }
}
