// Objects of classes described with Serialisable: messages are read into them, written from them, and their contents recorded.
#include "bomba_core.hpp"
#include "bomba_object.hpp"
#include "bomba_json.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_http.hpp"
#include "vh.hpp"
using namespace Bomba;
using vh::Ev;

#include "dump.hpp"

struct Inner : Serialisable<Inner> {
	int32_t x = key<"x"> = 0;
	std::string t = key<"t"> = "q";
	std::vector<int16_t> l = key<"l">;
};

struct Big : Serialisable<Big> {
	int8_t a = key<"a"> = 1;
	uint8_t ab = key<"ab"> = 0;
	int16_t c = key<"c"> = 0;
	uint16_t d = key<"d"> = 0;
	int32_t e = key<"e"> = -7;
	uint32_t f = key<"f"> = 0;
	int64_t g = key<"g"> = 0;
	uint64_t h = key<"h"> = 0;
	double i = key<"i"> = 1.5;
	float j = key<"j"> = 0;
	bool k = key<"k"> = false;
	bool kk = key<"kk", SerialisationFlags::OMIT_FALSE> = true;
	std::string s = key<"s"> = "x";
	Inner in = key<"in">;
	std::vector<int> v = key<"v">;
	std::vector<std::string> vs = key<"vs">;
	std::vector<Inner> vo = key<"vo">;
	std::vector<std::vector<int>> vv = key<"vv">;
	std::array<int, 3> ar = key<"ar">;
	std::array<Inner, 2> ao = key<"ao">;
	std::map<std::string, int> m = key<"m">;
	std::map<std::string, Inner> mo = key<"mo">;
	std::map<std::string, std::string> ms = key<"ms">;
	std::map<std::string, std::vector<int>> mv = key<"mv">;
	Optional<int> o = key<"o">;
	Optional<Inner> oo = key<"oo">;
	Optional<std::string> os = key<"os"> = "";
	std::unique_ptr<Inner> u = key<"u">;
	std::vector<Optional<int>> vp = key<"vp">;
	int64_t w = key<"w", SerialisationFlags::INT_16> = 0;
	bool last = key<"la"> = false;
};

struct Flat : Serialisable<Flat> {
	int32_t n = key<"n"> = 3;
	int64_t nn = key<"nn"> = 0;
	double r = key<"r"> = 0;
	std::string s = key<"s"> = "x";
	std::string t = key<"t"> = "";
	bool k = key<"k", SerialisationFlags::OMIT_FALSE> = true;
	Optional<int> o = key<"o", SerialisationFlags::EMPTY_IS_NULL>;
	Optional<std::string> os = key<"os", SerialisationFlags::EMPTY_IS_NULL>;
};

std::string dump(const Inner& v) { return members({"x", "t", "l"}, v.x, v.t, v.l); }
std::string dump(const Big& b) {
	return members({"a", "ab", "c", "d", "e", "f", "g", "h", "i", "j", "k", "kk", "s", "in", "v", "vs", "vo", "vv", "ar", "ao", "m", "mo", "ms", "mv", "o", "oo", "os", "u", "vp", "w", "la"},
			b.a, b.ab, b.c, b.d, b.e, b.f, b.g, b.h, b.i, b.j, b.k, b.kk, b.s, b.in, b.v, b.vs, b.vo, b.vv, b.ar, b.ao, b.m, b.mo, b.ms, b.mv, b.o, b.oo, b.os, b.u, b.vp, b.w, b.last);
}
std::string dump(const Flat& f) {
	return members({"n", "nn", "r", "s", "t", "k", "o", "os"}, f.n, f.nn, f.r, f.s, f.t, f.k, f.o, f.os);
}

template <typename T> static void runOn(const vh::Case& c, const char* kind) {
	T object;
	std::string binary;
	Ev("new").s("k", kind).raw("v", dump(object)).out();
	for (size_t at = 1; at < c.lines.size(); at++) {
		const vh::Line& l = c.lines[at];
		std::string given = l.size() > 1 ? vh::unhex(l[1]) : "";
		// exactly the message in memory
		std::unique_ptr<char[]> exact(new char[given.size()]);
		memcpy(exact.get(), given.data(), given.size());
		std::string_view view(exact.get(), given.size());
		auto read = [&] (const char* what, auto&& doIt) {
			try {
				bool good = doIt();
				exact.reset(); // Nothing in the object may refer to the message
				Ev(what).bytes("b", given).b("good", good).raw("v", dump(object)).out();
			} catch (std::exception& e) {
				Ev("err").s("op", what).s("what", e.what()).out();
			}
		};
		if (l[0] == "json") read("json", [&] { return object.template deserialise<BasicJson<>>(view); });
		else if (l[0] == "form") read("form", [&] { return object.template deserialise<HtmlMessageEncoding<>>(view); });
		else if (l[0] == "bin") read("bin", [&] { return object.template deserialise<BinaryFormat<>>(view); });
		else if (l[0] == "rbin") { given = binary; view = given; read("bin", [&] { return object.template deserialise<BinaryFormat<>>(view); }); }
		else if (l[0] == "wjson") Ev("wjson").bytes("b", object.template serialise<BasicJson<>>()).out();
		else if (l[0] == "wform") Ev("wform").bytes("b", object.template serialise<HtmlMessageEncoding<std::string, std::string>>()).out();
		else if (l[0] == "wbin") { binary = object.template serialise<BinaryFormat<>>(); Ev("wbin").bytes("b", binary).out(); }
		else throw std::runtime_error("bad line " + l[0]);
	}
}

int main() {
	return vh::runAll([] (const vh::Case& c) {
		const std::string& kind = c.lines[0][1];
		if (kind == "big") runOn<Big>(c, "big");
		else if (kind == "inner") runOn<Inner>(c, "inner");
		else runOn<Flat>(c, "flat");
	});
}
