// A container behaving as a vector of unbounded capacity (sequence semantics, basic exception guarantee).
#pragma once
#include "nz.hpp"
#include <new>
#include <utility>
template<typename T> class AnyVector
{
	public:
		AnyVector() noexcept = default;
		AnyVector(const AnyVector& o) : AnyVector() { append(o); }
		AnyVector(AnyVector&& o) noexcept : p(o.p), n(o.n) { o.p = nullptr; o.n = 0; }
		~AnyVector() { clear(); }
		AnyVector& operator=(const AnyVector& o) { if (this != &o) { clear(); append(o); } return *this; }
		AnyVector& operator=(AnyVector&& o) noexcept { if (this != &o) { clear(); p = o.p; n = o.n; o.p = nullptr; o.n = 0; } return *this; }
		T* begin() { return p; } T* end() { return p + n; } T* data() { return p; } const T* data() const { return p; }
		T& operator[](std::size_t i) { return p[i]; } T& back() { return p[n - 1]; }
		std::size_t size() const { return n; } std::size_t capacity() const { return p ? cap : 0; } std::size_t max_size() const { return cap; }
		void reserve(std::size_t) { need(); }
		void clear() noexcept { for (std::size_t i = 0; i < n; ++i) p[i].~T(); n = 0; }
		template<typename... A> T& emplace_back(A&&... a) { need(); T* r = new (static_cast<void*>(p + n)) T(std::forward<A>(a)...); n++; return *r; }
		template<typename... A> T* emplace(T* pos, A&&... a)
		{
			std::size_t i = pos - p; if (i == n) { emplace_back(std::forward<A>(a)...); return p + i; }
			T v(std::forward<A>(a)...); need();
			new (static_cast<void*>(p + n)) T(std::move(p[n - 1])); n++;
			for (std::size_t j = n - 2; j > i; --j) p[j] = std::move(p[j - 1]);
			p[i] = std::move(v); return p + i;
		}
		T* erase(T* pos) { return erase(pos, pos + 1); }
		T* erase(T* a, T* b)
		{
			std::size_t i = a - p, c = b - a;
			if (c) { for (std::size_t j = i; j + c < n; ++j) p[j] = std::move(p[j + c]); for (std::size_t j = 0; j < c; ++j) p[--n].~T(); }
			return p + i;
		}
		void pop_back() { p[--n].~T(); }
		void resize(std::size_t k) { while (n > k) pop_back(); while (n < k) emplace_back(); }
		void resize(std::size_t k, const T& v) { while (n > k) pop_back(); while (n < k) emplace_back(v); }
	private:
		static constexpr std::size_t cap = 1u << 20;
		void need() { if (!p) p = static_cast<T*>(nz_storage(cap, sizeof(T), "fallback")); }
		void append(const AnyVector& o) { for (std::size_t i = 0; i < o.n; ++i) emplace_back(o.p[i]); }
		T* p = nullptr; std::size_t n = 0;
};
