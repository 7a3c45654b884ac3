// Drives futures of calls whose transport is controlled by the test.
// Commands: type <int|string|bool|list|object|void|double>        new
//           call <slot> <ok|error|missing|wrong> <n>    local <slot> <n>   now <ok|error|missing|wrong> <n>    answer <t>
//           get <slot>  ready <slot>  drop <slot>  move <to> <from>  build <to> <from>   self <slot>
#include <iostream>
#include <map>
#include <optional>
#include "bomba_core.hpp"
#include "bomba_json.hpp"
#include "bomba_object.hpp"
#include "bomba_rpc_object.hpp"
#include "vh.hpp"
using namespace Bomba;
using Json = BasicJson<std::string, GeneralisedBuffer>;

struct Thing : Serialisable<Thing> {
	int number = key<"number">;
	std::string text = key<"text">;
};

template <typename T> struct Make;
template <> struct Make<int> { static int value(int n) { return n * 1000003; } static int seen(int v) { return v; } };
template <> struct Make<double> { static double value(int n) { return n / 8.0; } };
template <> struct Make<bool> { static bool value(int n) { return n % 2; } };
template <> struct Make<std::string> { static std::string value(int n) { return std::string(n % 60, 'a' + n % 26) + std::to_string(n); } };
template <> struct Make<std::vector<int>> { static std::vector<int> value(int n) { return std::vector<int>(n % 7, n); } };
template <> struct Make<Thing> { static Thing value(int n) { Thing t; t.number = n; t.text = Make<std::string>::value(n); return t; } };

template <typename T>
static std::string text(const T& value) {
	ExpandingBuffer<> buffer;
	typename Json::Output out(buffer);
	TypedSerialiser<T>::serialiseMember(out, value, SerialisationFlags::NONE);
	return std::string(std::string_view(buffer));
}

struct Transport : IRpcResponder {
	struct Response { bool answered = false; std::string how; std::string text; };
	std::map<uint32_t, Response> responses;
	std::string nextHow, nextText;
	uint32_t last = 0;
	RequestToken send(UserId, const IRemoteCallable*, Callback<void(IStructuredOutput&, RequestToken)> request) override {
		ExpandingBuffer<> buffer;
		typename Json::Output out(buffer);
		last++;
		request(out, RequestToken{last});
		responses[last] = {false, nextHow, nextText};
		vh::Ev("sent").i("t", last).out();
		return RequestToken{last};
	}
	void answer(uint32_t t) {
		auto it = responses.find(t);
		if (it == responses.end() || it->second.answered) return;
		it->second.answered = true;
		vh::Ev("answered").i("t", t).raw("ok", it->second.how == "ok" ? "true" : "false").bytes("b", it->second.text).out();
	}
	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) override {
		auto it = responses.find(token.id);
		if (it == responses.end()) {
			vh::Ev("fetched").i("t", token.id).out(); // Nothing allows it
			return false;
		}
		if (!it->second.answered) {
			vh::Ev("waited").i("t", token.id).out();
			answer(token.id);
		}
		Response response = it->second;
		vh::Ev("fetched").i("t", token.id).out();
		responses.erase(it);
		if (response.how == "error")
			remoteError("Call failed");
		if (response.how == "missing")
			return false;
		std::string data = response.how == "wrong" ? "{\"surely\":[\"something\",\"else\"" : response.text;
		typename Json::Input input{std::string_view(data)};
		reader(input);
		return true;
	}
	bool hasResponse(RequestToken token) override {
		vh::Ev("polled").i("t", token.id).out();
		auto it = responses.find(token.id);
		return it != responses.end() && it->second.answered;
	}
};

static thread_local int nextLocal = 0;
template <typename T>
struct Method { using type = RpcStatelessLambda<[] (int seed = name("seed")) { return Make<T>::value(seed); }>; };
template <>
struct Method<void> { using type = RpcStatelessLambda<[] (int seed = name("seed")) { nextLocal = seed; }>; };

template <typename T>
static void run(const vh::Case& c) {
	Transport transport;
	typename Method<T>::type remote, local;
	remote.setResponder(transport);
	std::optional<Future<T>> slots[5];
	auto expected = [] (int n) { if constexpr (std::is_void_v<T>) return std::string("null"); else return text<T>(Make<T>::value(n)); };
	auto result = [] (const char* what, int slot, auto&& get) {
		std::string got = "";
		bool ok = false;
		try {
			if constexpr (std::is_void_v<T>) { get(); got = "null"; }
			else got = text<T>(get());
			ok = true;
		} catch (std::exception&) { }
		vh::Ev(what).i("s", slot).raw("ok", ok ? "true" : "false").bytes("b", got).out();
	};
	auto drop = [&] (int s) {
		vh::Ev("start").s("op", "drop").i("s", s).out();
		slots[s].reset();
		vh::Ev("dropped").i("s", s).out();
	};
	bool held[5] = {};
	auto hold = [&] (int s, bool is) { held[s] = is; };
	for (auto& l : c.lines) {
		auto arg = [&] (size_t i) { return std::stoi(l.at(i)); };
		if (l[0] == "new") {
			for (int s = 0; s < 5; s++) if (slots[s]) { drop(s); hold(s, false); }
			transport.responses.clear();
			transport.last = 0;
			vh::Ev("fresh").out();
		} else if (l[0] == "call" || l[0] == "local") {
			int s = arg(1);
			if (held[s]) { drop(s); hold(s, false); }
			bool sent = l[0] == "call";
			int n = arg(sent ? 3 : 2);
			vh::Ev("start").s("op", "call").i("s", s).out();
			if (sent) { transport.nextHow = l[2]; transport.nextText = expected(n); slots[s].emplace(remote.async(n)); }
			else slots[s].emplace(local.async(n));
			vh::Ev("called").i("s", s).raw("sent", sent ? "true" : "false").bytes("b", expected(n)).out();
			hold(s, true);
		} else if (l[0] == "now") {
			transport.nextHow = l[1];
			transport.nextText = expected(arg(2));
			vh::Ev("now").out();
			result("result", 0, [&] { return remote(arg(2)); });
		} else if (l[0] == "answer") transport.answer(arg(1));
		else if (l[0] == "get" && held[arg(1)]) {
			vh::Ev("start").s("op", "get").i("s", arg(1)).out();
			result("got", arg(1), [&] { return slots[arg(1)]->get(); });
		} else if (l[0] == "ready" && held[arg(1)]) {
			vh::Ev("start").s("op", "ready").i("s", arg(1)).out();
			bool is = slots[arg(1)]->is_ready();
			vh::Ev("ready").i("s", arg(1)).raw("yes", is ? "true" : "false").out();
		} else if (l[0] == "drop" && slots[arg(1)]) {
			drop(arg(1));
			hold(arg(1), false);
		} else if (l[0] == "move" && slots[arg(2)] && arg(1) != arg(2)) {
			vh::Ev("start").s("op", "move").i("s", arg(1)).out();
			if (!slots[arg(1)]) slots[arg(1)].emplace();
			*slots[arg(1)] = std::move(*slots[arg(2)]);
			vh::Ev("moved").i("s", arg(1)).i("from", arg(2)).out();
			hold(arg(1), held[arg(2)]);
			hold(arg(2), false);
		} else if (l[0] == "build" && slots[arg(2)] && !slots[arg(1)]) {
			vh::Ev("start").s("op", "move").i("s", arg(1)).out();
			slots[arg(1)].emplace(std::move(*slots[arg(2)]));
			vh::Ev("moved").i("s", arg(1)).i("from", arg(2)).out();
			hold(arg(1), held[arg(2)]);
			hold(arg(2), false);
		} else if (l[0] == "give" && held[arg(1)]) {
			// Returned from a function and assigned, as in f = method.async(...)
			vh::Ev("start").s("op", "drop").i("s", arg(1)).out();
			*slots[arg(1)] = Future<T>();
			vh::Ev("dropped").i("s", arg(1)).out();
			hold(arg(1), false);
		}
	}
	for (int s = 0; s < 5; s++) if (slots[s]) drop(s);
}

static void runCase(const vh::Case& c) {
	const std::string& type = c.lines.at(0).at(1);
	if (type == "int") run<int>(c);
	else if (type == "string") run<std::string>(c);
	else if (type == "bool") run<bool>(c);
	else if (type == "list") run<std::vector<int>>(c);
	else if (type == "object") run<Thing>(c);
	else if (type == "double") run<double>(c);
	else run<void>(c);
}
int main() { return vh::runAll(runCase); }
