// Drives sessions of BinaryProtocolServer behind the real receive buffer.
// Commands: api <dynamic|object|one> <size of sizes> <big>     which methods, what format
//           recv <hex>                                         bytes arriving at once (split further only if the buffer is full)
#include <iostream>
#include <mutex>
#include <thread>
#include "bomba_tcp_server.hpp"
#include "bomba_object.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_dynamic_object.hpp"
#include "bomba_binary_protocol.hpp"
#include "vh.hpp"

using namespace Bomba;
using vh::Ev;

// Values for the specification, not by the code under test
static std::string list(const std::vector<std::string>& v) {
	std::string r = "[";
	for (size_t i = 0; i < v.size(); i++) { if (i) r += ','; r += v[i]; }
	return r + "]";
}
template <typename T> static std::string raw8(T v) {
	unsigned char b[8];
	memcpy(b, &v, 8);
	std::vector<std::string> l;
	for (auto c : b) l.push_back(std::to_string(c));
	return list(l);
}
static std::string val(bool v) { return v ? "[1]" : "[0]"; }
static std::string val(double v) { return raw8(v); }
static std::string val(const std::string& s) {
	std::vector<std::string> l;
	for (unsigned char c : s) l.push_back(std::to_string(c));
	return list(l);
}
template <std::integral T> static std::string val(T v) { return raw8(int64_t(v)); }
template <typename T> static std::string val(const std::optional<T>& v) { return v ? list({val(*v)}) : "[]"; }
template <typename T> static std::string val(const std::vector<T>& v) {
	std::vector<std::string> l;
	for (auto& it : v) l.push_back(val(it));
	return list(l);
}

struct Point : Serialisable<Point> {
	int16_t x = key<"x"> = 0;
	uint8_t y = key<"y"> = 0;
	std::string label = key<"label"> = "";
};
static std::string val(const Point& p) { return list({val(p.x), val(p.y), val(p.label)}); }

static void ran(std::vector<int64_t> path, std::vector<std::string> args, std::string res) {
	Ev("ran").raw("path", vh::ints(path)).raw("args", list(args)).raw("res", res).out();
}
static void failed(std::vector<int64_t> path, std::vector<std::string> args) {
	Ev("failed").raw("path", vh::ints(path)).raw("args", list(args)).out();
}

static DynamicRpcObject makeDynamic() {
	DynamicRpcObject deep;
	deep.add("nothing", RpcLambdaHolder([] () { ran({2, 1, 0}, {}, "[]"); }));
	deep.add("length", RpcLambdaHolder([] (std::optional<std::string> s = name("s")) {
		std::optional<int> r;
		if (s) r = int(s->size());
		ran({2, 1, 1}, {val(s)}, val(r));
		return r;
	}));
	DynamicRpcObject sub;
	sub.add("mixed", RpcLambdaHolder([] (bool b = name("b"), double d = name("d"), int64_t l = name("l")) {
		std::vector<int64_t> r = {b ? l : -l, l, 5};
		ran({2, 0}, {val(b), val(d), val(l)}, val(r));
		return r;
	}));
	sub.add("deep", RpcLambdaHolder(std::move(deep)));
	sub.add("nested", RpcLambdaHolder([] (std::vector<std::vector<int16_t>> v = name("v")) {
		int r = 0;
		for (auto& it : v) for (auto& it2 : it) r += it2;
		ran({2, 2}, {val(v)}, val(r));
		return r;
	}));
	DynamicRpcObject root;
	root.add("add", RpcLambdaHolder([] (int a = name("a"), int b = name("b")) {
		int r = int(unsigned(a) + unsigned(b));
		ran({0}, {val(a), val(b)}, val(r));
		return r;
	}));
	root.add("join", RpcLambdaHolder([] (std::vector<std::string> parts = name("parts")) {
		std::string r;
		for (auto& it : parts) r += it + "|";
		ran({1}, {val(parts)}, val(r));
		return r;
	}));
	root.add("sub", RpcLambdaHolder(std::move(sub)));
	root.add("grow", RpcLambdaHolder([] (int n = name("n")) {
		std::string r(size_t(std::min(n < 0 ? 0 : n, 100000)), 'x');
		ran({3}, {val(n)}, val(r));
		return r;
	}));
	root.add("fail", RpcLambdaHolder([] (int a = name("a")) {
		if (a % 2) {
			failed({4}, {val(a)});
			if (a % 4 == 1) throw std::runtime_error("failed on purpose");
			throw 42;
		}
		ran({4}, {val(a)}, val(a));
		return a;
	}));
	root.add("point", RpcLambdaHolder([] (Point p = name("p")) {
		Point r = p;
		r.x = int16_t(p.x + 1);
		r.label = p.label + "'";
		ran({5}, {val(p)}, val(r));
		return r;
	}));
	return root;
}

static DynamicRpcObject makeWide() {
	DynamicRpcObject root;
	for (int i = 0; i < 200; i++)
		root.add("m" + std::to_string(i), RpcLambdaHolder([i] (uint8_t a = name("a")) {
			int r = i * 1000 + a;
			ran({i}, {val(a)}, val(r));
			return r;
		}));
	return root;
}

struct Object : RpcObject<Object> {
	std::string text;
	RpcMember<[] (Object* parent) {
		ran({0}, {}, val(parent->text));
		return parent->text;
	}> get = child<"get">;
	RpcMember<[] (Object* parent, std::string text = name("text")) {
		parent->text = text;
		ran({1}, {val(text)}, "[]");
	}> set = child<"set">;
	RpcMember<[] (uint8_t a = name("a"), bool b = name("b")) {
		int64_t r = b ? int64_t(a) << 40 : -int64_t(a);
		ran({2}, {val(a), val(b)}, val(r));
		return r;
	}> third = child<"third">;
};

static auto one = [] (std::string text = name("text"), uint8_t times = name("times")) {
	std::string r;
	for (int i = 0; i < times; i++) r += text;
	ran({}, {val(text), val(times)}, val(r));
	return r;
};

#include "big_endian.hpp"

template <typename Server>
static void serve(const vh::Case& c, IRemoteCallable& api) {
	Server server(api);
	auto session = server.getSession();
	struct Glue : ITcpServerSession {
		decltype(session)& s;
		Glue(decltype(session)& s) : s(s) {}
		std::pair<ServerReaction, int> feedToResponder(std::span<char> data) override {
			// A copy in memory of exactly this size, so that reading past the end is noticed
			std::unique_ptr<char[]> copy(new char[data.size()]);
			memcpy(copy.get(), data.data(), data.size());
			return s.respond(std::span<char>(copy.get(), data.size()), [] (std::span<const char> out) {
				Ev("send").bytes("b", {out.data(), out.size()}).out();
			});
		}
		void notifyMessageWasParsed() override {}
	} glue(session);
	TcpServerBuffer buffer;
	bool alive = true;
	for (auto& l : c.lines) {
		if (l[0] != "recv") continue;
		std::string data = vh::unhex(l[1]);
		for (size_t at = 0; at < data.size() && alive; ) {
			auto space = buffer.space();
			size_t n = std::min(space.size(), data.size() - at);
			if (n == 0) { Ev("nospace").out(); return; }
			memcpy(space.data(), data.data() + at, n);
			Ev("recv").bytes("b", std::string_view(data).substr(at, n)).out();
			alive = buffer.receive(glue, {}, n);
			Ev("ret").b("more", alive).out();
			at += n;
		}
		if (!alive) break;
	}
	Ev("done").out();
}

template <typename T, bool big> using Server = BinaryProtocolServer<T, ExpandingBuffer<>,
		std::conditional_t<big, BigEndian<ExpandingBuffer<>>, LittleEndianNumberFormat<ExpandingBuffer<>>>>;

static void runCase(const vh::Case& c) {
	auto& l = c.lines[0];
	bool big = l[3] == "1";
	Ev("api").s("api", l[1]).i("sz", std::stoi(l[2])).b("big", big).out();
	DynamicRpcObject dynamic;
	Object object;
	RpcLambda<decltype(one)> single(one);
	std::optional<DynamicRpcObject> made;
	IRemoteCallable* api = &object;
	if (l[1] == "dynamic") { made.emplace(makeDynamic()); api = &*made; }
	else if (l[1] == "wide") { made.emplace(makeWide()); api = &*made; }
	else if (l[1] == "one") api = &single;
	if (l[2] == "1") { if (big) serve<Server<uint8_t, true>>(c, *api); else serve<Server<uint8_t, false>>(c, *api); }
	else if (l[2] == "4") { if (big) serve<Server<uint32_t, true>>(c, *api); else serve<Server<uint32_t, false>>(c, *api); }
	else if (l[2] == "8") serve<Server<uint64_t, false>>(c, *api);
	else { if (big) serve<Server<uint16_t, true>>(c, *api); else serve<BinaryProtocolServer<>>(c, *api); }
}
int main() { return vh::runAll(runCase); }
