// The service the RPC harnesses offer and use; every call of a method leaves a "call" event with the arguments it got
// and what it returned.  Include after the bomba headers.
#pragma once
#include "dump.hpp"
#include "vh.hpp"
#include <atomic>

struct Inner : Bomba::Serialisable<Inner> {
	int32_t x = key<"x"> = 0;
	std::string t = key<"t"> = "q";
	std::vector<int16_t> l = key<"l">;
};
inline std::string dump(const Inner& v) { return members({"x", "t", "l"}, v.x, v.t, v.l); }

namespace api {
inline bool recording = true;     // only the server's side is recorded
template <typename... T> void called(const char* method, const std::string& result, std::initializer_list<const char*> names, const T&... args) {
	if (recording)
		vh::Ev("call").bytes("m", method).raw("a", members(names, args...)).raw("r", result).out();
}
inline std::string noResult() { return "{\"t\":\"void\"}"; }
inline std::string thrown() { return "{\"t\":\"throw\"}"; }
inline std::string spoken(int how, const std::string& s) {
	if (how >= 0 && how <= 5) called("svc.fail", thrown(), {"how", "s"}, how, s);
	if (how == 0) throw std::runtime_error("run " + s);
	if (how == 1) throw Bomba::ParseError("parse " + s);
	if (how == 2) throw Bomba::RemoteError("remote " + s);
	if (how == 3) throw std::logic_error("logic \"" + s + "\"\n");
	if (how == 4) throw Bomba::MethodNotFoundError("");
	if (how == 5) throw 42;
	called("svc.fail", dump(s), {"how", "s"}, how, s);
	return s;
}

struct Service : Bomba::RpcObject<Service> {
	int64_t total = 0;
	Bomba::RpcMember<[] (std::string s = Bomba::name("s")) {
		called("svc.echo", dump(s), {"s"}, s);
		return s;
	}> echo = child<"echo">;
	Bomba::RpcMember<[] (int32_t a = Bomba::name("a"), int32_t b = Bomba::name("b")) {
		int32_t r = int32_t(uint32_t(a) + uint32_t(b));
		called("svc.add", dump(r), {"a", "b"}, a, b);
		return r;
	}> add = child<"add">;
	Bomba::RpcMember<[] (int64_t n = Bomba::name("n")) {
		called("svc.note", noResult(), {"n"}, n);
	}> note = child<"note">;
	Bomba::RpcMember<[] (int32_t how = Bomba::name("how"), std::string s = Bomba::name("s")) {
		return spoken(how, s);
	}> fail = child<"fail">;
	Bomba::RpcMember<[] (std::vector<int32_t> l = Bomba::name("l"), std::optional<std::string> o = Bomba::name("o") | Bomba::SerialisationFlags::EMPTY_IS_NULL) {
		std::vector<int32_t> r(l.rbegin(), l.rend());
		called("svc.list", dump(r), {"l", "o"}, l, o);
		return r;
	}> list = child<"list">;
	Bomba::RpcMember<[] (Inner p = Bomba::name("p"), bool q = Bomba::name("q")) {
		Inner r = p;
		if (q) r.t += "!";
		called("svc.obj", dump(r), {"p", "q"}, p, q);
		return r;
	}> obj = child<"obj">;
	Bomba::RpcMember<[] (bool x = Bomba::name("x") | Bomba::SerialisationFlags::OMIT_FALSE, double y = Bomba::name("y")) {
		double r = x ? -y : y;
		called("svc.real", dump(r), {"x", "y"}, x, y);
		return r;
	}> real = child<"real">;
	Bomba::RpcMember<[] (std::map<std::string, int64_t> m = Bomba::name("m")) {
		called("svc.maps", dump(m), {"m"}, m);
		return m;
	}> maps = child<"maps">;
	Bomba::RpcMember<[] (Service* self, int16_t by = Bomba::name("by")) {
		self->total += by;
		int64_t r = self->total;
		called("svc.count", dump(r), {"by"}, by);
		return r;
	}> count = child<"count">;
};
struct Lower : Bomba::RpcObject<Lower> {
	Bomba::RpcMember<[] () {
		std::string r = "nothing";
		called("n.low.none", dump(r), {});
		return r;
	}> none = child<"none">;
	Bomba::RpcMember<[] (std::optional<int32_t> v = Bomba::name("v") | Bomba::SerialisationFlags::EMPTY_IS_NULL) {
		called("n.low.opt", dump(v), {"v"}, v);
		return v;
	}> opt = child<"opt">;
	Bomba::RpcMember<[] (uint8_t u = Bomba::name("u"), std::string s = Bomba::name("s")) {
		bool r = (u > s.size());
		called("n.low.cmp", dump(r), {"u", "s"}, u, s);
		return r;
	}> cmp = child<"cmp">;
	Bomba::RpcMember<[] () {
		called("n.low.halt", noResult(), {});
	}> halt = child<"halt">;
};

// svc (object), n (dynamic object: low (object)), top (function)
struct Tree {
	Service svc;
	Lower low;
	Bomba::TypedRpcLambdaHolder<int64_t(int64_t, std::string)> top = [] (int64_t v = Bomba::name("v"), std::string text = Bomba::name("text")) {
		int64_t r = int64_t(uint64_t(v) + 1);
		called("top", dump(r), {"v", "text"}, v, text);
		return r;
	};
	Bomba::DynamicRpcObject n, root;
	Tree() {
		n.add("low", Bomba::RpcLambdaHolder::nonOwning(low));
		root.add("svc", Bomba::RpcLambdaHolder::nonOwning(svc));
		root.add("n", std::move(n));
		root.add("top", Bomba::RpcLambdaHolder::nonOwning(*top));
	}
};
// A single function without any tree
using One = Bomba::RpcStatelessLambda<[] (std::string text = Bomba::name("text"), int32_t times = Bomba::name("times"), bool yell = Bomba::name("yell") | Bomba::SerialisationFlags::OMIT_FALSE) {
	std::string r = text + (yell ? "!" : ".") + std::to_string(times);
	called("", dump(r), {"text", "times", "yell"}, text, times, yell);
	return r;
}>;
}
