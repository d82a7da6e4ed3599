// Scenario intrinsics understood by the abstract interpreter (never defined: no driver is ever linked or executed).
#pragma once
#include <cstddef>
#include <cstdint>
// the bodies of std::string's members must be visible to the analysis
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
extern "C" {
	std::size_t nz_any_size() noexcept;
	std::size_t nz_any_small() noexcept;
	std::size_t nz_pick(std::size_t n) noexcept; // 0 .. n-1, every one explored separately
	bool nz_any_bool() noexcept;
	std::uint8_t nz_any_u8() noexcept; std::uint16_t nz_any_u16() noexcept; std::uint32_t nz_any_u32() noexcept; std::uint64_t nz_any_u64() noexcept;
	std::int8_t nz_any_i8() noexcept; std::int16_t nz_any_i16() noexcept; std::int32_t nz_any_i32() noexcept; std::int64_t nz_any_i64() noexcept;
	float nz_any_f32() noexcept; double nz_any_f64() noexcept; // finite or NaN
	float nz_any_g32() noexcept; double nz_any_g64() noexcept; // any
	void nz_assume(bool) noexcept;
	void nz_check(bool, const char*) noexcept;
	void nz_reach(const char*) noexcept;
	void* nz_storage(std::size_t count, std::size_t esz, const char* name) noexcept;
	void* nz_elems(std::size_t count, std::size_t esz, const char* name) noexcept;
	void* nz_raw(std::size_t count, std::size_t esz, const char* name) noexcept;
	char* nz_cstr(std::size_t count, const char* name) noexcept; // a NUL terminated string; its characters are the sequence "s:" name
	std::uint64_t nz_elem(const char* name, std::size_t idx) noexcept;
	std::uint8_t nz_elem8(const char* name, std::size_t idx) noexcept;
	std::uint16_t nz_elem16(const char* name, std::size_t idx) noexcept;
	std::uint32_t nz_elem32(const char* name, std::size_t idx) noexcept;
	std::uint64_t nz_value(const void*) noexcept;
	bool nz_alive(const void*) noexcept;
	bool nz_valid(const void*) noexcept;
	bool nz_live(const void*) noexcept;
	bool nz_inside(const void*, const void*) noexcept;
	void nz_event(std::uint64_t id, std::uint64_t arg) noexcept;
	std::size_t nz_evcount(std::uint64_t id) noexcept;
	std::uint64_t nz_evarg(std::size_t index, std::size_t field) noexcept;
	void nz_maythrow();
	void nz_maystop() noexcept; // from here on, stopping the program is no failure
	void nz_mustsay(const char*) noexcept; // from here on, the program may only stop once this text was written to the error stream
	void nz_freeze(const void*) noexcept; // until nz_thaw, writing what exists outside the stack, or the object given, is a violation
	void nz_thaw() noexcept;
	void nz_noalloc() noexcept; // until nz_allocok, allocating dynamic memory is a violation
	void nz_allocok() noexcept;
	void nz_dump(const char*, ...) noexcept;
}
// element types whose special members are opaque to the compiler and tracked by the analysis
struct Probe // may throw everywhere but on destruction and move
{
	Probe(); explicit Probe(std::uint64_t); Probe(const Probe&); Probe(Probe&&) noexcept; ~Probe() noexcept;
	Probe& operator=(const Probe&); Probe& operator=(Probe&&) noexcept;
	std::uint64_t v;
};
struct ProbeT // everything but destruction may throw
{
	ProbeT(); explicit ProbeT(std::uint64_t); ProbeT(const ProbeT&); ProbeT(ProbeT&&); ~ProbeT() noexcept;
	ProbeT& operator=(const ProbeT&); ProbeT& operator=(ProbeT&&);
	std::uint64_t v;
};
struct ProbeN // nothing throws
{
	ProbeN() noexcept; explicit ProbeN(std::uint64_t) noexcept; ProbeN(const ProbeN&) noexcept; ProbeN(ProbeN&&) noexcept; ~ProbeN() noexcept;
	ProbeN& operator=(const ProbeN&) noexcept; ProbeN& operator=(ProbeN&&) noexcept;
	std::uint64_t v;
};
