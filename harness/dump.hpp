// Values in the form the specifications compare (decimal texts and bytes), computed without the code under test.
// Include after bomba_object.hpp; classes add dump(const Class&) with members(names, values...).
#pragma once
#include <cmath>
#include <map>
#include <vector>
#include <array>
#include <memory>
#include <limits>
#include <string>
#include <optional>

inline std::string bytes(std::string_view s) {
	std::string r = "[";
	for (size_t i = 0; i < s.size(); i++) { if (i) r += ','; r += std::to_string((unsigned char)s[i]); }
	return r + "]";
}
inline std::string dec(double x) {
	std::string b(1500, 0);
	if (std::isinf(x)) x = std::numeric_limits<double>::max();
	b.resize(snprintf(b.data(), b.size(), "%.1100f", x));
	size_t point = b.find('.');
	std::string digits = b.substr(0, point) + b.substr(point + 1);
	int e = -int(b.size() - point - 1);
	while (!digits.empty() && digits.back() == '0') { digits.pop_back(); e++; }
	size_t lead = 0;
	while (lead < digits.size() && digits[lead] == '0') lead++;
	digits = digits.substr(lead);
	if (digits.empty()) e = 0;
	std::string r = "{\"d\":[";
	for (size_t i = 0; i < digits.size(); i++) { if (i) r += ','; r += digits[i]; }
	return r + "],\"e\":" + std::to_string(e) + "}";
}
inline std::string le(const void* p, int n) { return bytes(std::string_view((const char*)p, n)); }

inline std::string dump(const std::string& v) { return "{\"t\":\"str\",\"v\":" + bytes(v) + "}"; }
inline std::string dump(bool v) { return std::string("{\"t\":\"bool\",\"v\":") + (v ? "true" : "false") + "}"; }
template <std::integral I> inline std::string dump(I v) {
	int64_t wide = v;
	return "{\"t\":\"int\",\"v\":" + bytes(std::to_string(v)) + ",\"le\":" + le(&wide, 8) + "}";
}
template <std::floating_point F> inline std::string dump(F v) {
	F a = std::fabs(v);
	if (!std::isfinite(v)) return "{\"t\":\"odd\"}";
	double wide = v;
#ifdef DUMP_BRIEFLY
	return "{\"t\":\"real\",\"le\":" + le(&wide, 8) + "}"; // Only identity matters
#endif
	int exponent = 0;
	double m = a == 0 ? 0 : std::frexp(double(a), &exponent);
	exponent -= 24;
	m = std::ldexp(m, 24);
	bool small = m == std::floor(m);
	return std::string("{\"t\":\"real\",\"neg\":") + (std::signbit(v) ? "true" : "false") + ",\"lo\":" + dec(std::nextafter(a, F(0))) + ",\"x\":" + dec(a)
			+ ",\"hi\":" + dec(std::nextafter(a, std::numeric_limits<F>::infinity())) + ",\"le\":" + le(&wide, 8) + ",\"m\":" + std::to_string(small ? int64_t(m) : -1)
			+ ",\"ex\":" + std::to_string(exponent) + "}";
}
template <typename T> inline std::string dump(const std::vector<T>& v);
template <typename T, size_t n> inline std::string dump(const std::array<T, n>& v);
template <typename T> inline std::string dump(const std::map<std::string, T>& v);
template <typename T> inline std::string dump(const Bomba::Optional<T>& v);
template <typename T> inline std::string dump(const std::optional<T>& v);
template <typename T> inline std::string dump(const std::unique_ptr<T>& v);
template <typename T> inline std::string dumpOpt(const T& v) { return v ? dump(*v) : "{\"t\":\"null\"}"; }
template <typename T> inline std::string dump(const Bomba::Optional<T>& v) { return dumpOpt(v); }
template <typename T> inline std::string dump(const std::optional<T>& v) { return dumpOpt(v); }
template <typename T> inline std::string dump(const std::unique_ptr<T>& v) { return dumpOpt(v); }
template <typename R> inline std::string dumpRange(const R& v) {
	std::string r;
	for (auto& it : v) r += (r.empty() ? "" : ",") + dump(it);
	return "{\"t\":\"arr\",\"v\":[" + r + "]}";
}
template <typename T> inline std::string dump(const std::vector<T>& v) { return dumpRange(v); }
template <typename T, size_t n> inline std::string dump(const std::array<T, n>& v) { return dumpRange(v); }
template <typename T> inline std::string dump(const std::map<std::string, T>& v) {
	std::string r;
	for (auto& it : v) r += (r.empty() ? "[" : ",[") + bytes(it.first) + "," + dump(it.second) + "]";
	return "{\"t\":\"obj\",\"v\":[" + r + "]}";
}
template <typename... T> inline std::string members(std::initializer_list<const char*> names, const T&... vs) {
	std::string r;
	auto name = names.begin();
	((r += (r.empty() ? "[" : ",[") + bytes(*name++) + "," + dump(vs) + "]"), ...);
	return "{\"t\":\"obj\",\"v\":[" + r + "]}";
}
