// Drives HttpServer sessions behind the real receive buffer, with a scripted application.
// Commands: app <outcome> <type> <size> <piece> <seed>     outcome of the next application call
//           recv <hex>                                     bytes arriving at once (split further only if the buffer is full)
#include <iostream>
#include <mutex>
#include <thread>
#include "bomba_tcp_server.hpp"
#include "bomba_http.hpp"
#include "vh.hpp"
#include <deque>

struct Outcome { std::string what = "none", type = "text/plain"; int size = 0, piece = 1; unsigned seed = 0; };
static std::deque<Outcome> outcomes;

static std::string bodyOf(const Outcome& o) {
	std::string r;
	unsigned x = o.seed * 7919 + 12345;
	for (int i = 0; i < o.size; i++) { x = x * 1103515245 + 12345; r += char(x >> 16); }
	return r;
}

static void emitApp(const std::string& what, const Outcome& o, std::string_view body, int announced) {
	vh::Ev("app").s("what", what).bytes("type", o.type).bytes("body", body).i("n", announced).out();
}

static void fill(Bomba::GeneralisedBuffer& buffer, std::string_view body, int piece) {
	for (size_t at = 0; at < body.size(); at += piece) {
		auto part = body.substr(at, piece);
		if (part.size() == 1) buffer += part[0];
		else if (at % 2) buffer += part;
		else buffer += std::span<const char>(part.data(), part.size());
	}
}

static bool application(Bomba::IWriteStarter& writer) {
	Outcome o;
	if (!outcomes.empty()) { o = outcomes.front(); outcomes.pop_front(); }
	std::string body = bodyOf(o);
	if (o.what == "refuse") { emitApp("refuse", o, "", 0); return false; }
	if (o.what == "fail") { emitApp("fail", o, "", 0); throw std::runtime_error("application failed"); }
	if (o.what == "failint") { emitApp("fail", o, "", 0); throw 42; }
	if (o.what == "unknown" || o.what == "unknownfail" || o.what == "unknownthrow") {
		writer.writeUnknownSize(o.type, [&] (Bomba::GeneralisedBuffer& b) {
			fill(b, body, o.piece);
			if (o.what == "unknownthrow") { emitApp("fail", o, "", 0); throw std::runtime_error("application failed"); }
		});
		emitApp(o.what == "unknown" ? "reply" : "replyfail", o, body, o.size);
		if (o.what == "unknownfail") throw std::runtime_error("application failed");
		return true;
	}
	if (o.what == "known" || o.what == "knownfail" || o.what == "knownthrow") {
		writer.writeKnownSize(o.type, body.size(), [&] (Bomba::GeneralisedBuffer& b) {
			if (o.what == "knownthrow") {
				std::string_view half = std::string_view(body).substr(0, body.size() / 2);
				fill(b, half, o.piece);
				emitApp("partial", o, half, o.size);
				throw std::runtime_error("application failed");
			}
			fill(b, body, o.piece);
		});
		emitApp(o.what == "known" ? "reply" : "replyfail", o, body, o.size);
		if (o.what == "knownfail") throw std::runtime_error("application failed");
		return true;
	}
	if (o.what == "simple") {
		Bomba::SimpleGetResponder responder;
		responder.resource = body;
		responder.resourceType = o.type;
		bool success = responder.get("/somewhere", writer);
		emitApp("reply", o, body, o.size);
		return success;
	}
	emitApp("none", o, "", 0);
	return true;
}

struct Get : Bomba::IHttpGetResponder {
	bool get(std::string_view path, Bomba::IWriteStarter& writer) override {
		vh::Ev("call").s("m", "GET").bytes("path", path).bytes("type", "").bytes("body", "").out();
		return application(writer);
	}
};
struct Post : Bomba::IHttpPostResponder {
	bool post(std::string_view path, std::string_view type, std::span<char> body, Bomba::IWriteStarter& writer) override {
		vh::Ev("call").s("m", "POST").bytes("path", path).bytes("type", type).bytes("body", {body.data(), body.size()}).out();
		return application(writer);
	}
};

static void runCase(const vh::Case& c) {
	outcomes.clear();
	Get get;
	Post post;
	Bomba::HttpServer<> server(get, post);
	auto session = server.getSession();
	struct Glue : Bomba::ITcpServerSession {
		decltype(session)& s;
		Glue(decltype(session)& s) : s(s) {}
		std::pair<Bomba::ServerReaction, int> feedToResponder(std::span<char> data) override {
			// A copy in memory of exactly this size, so that reading past the end is noticed
			std::unique_ptr<char[]> copy(new char[data.size()]);
			memcpy(copy.get(), data.data(), data.size());
			auto r = s.respond(std::span<char>(copy.get(), data.size()), [] (std::span<const char> out) {
				vh::Ev("send").bytes("b", {out.data(), out.size()}).out();
			});
			memcpy(data.data(), copy.get(), data.size());
			return r;
		}
		void notifyMessageWasParsed() override {}
	} glue(session);
	Bomba::TcpServerBuffer buffer;
	bool alive = true;
	for (auto& l : c.lines) {
		if (l[0] == "app") outcomes.push_back({l[1], l[2], std::stoi(l[3]), std::max(1, std::stoi(l[4])), unsigned(std::stoul(l[5]))});
		else if (l[0] == "recv") {
			std::string data = vh::unhex(l[1]);
			for (size_t at = 0; at < data.size() && alive; ) {
				auto space = buffer.space();
				size_t n = std::min(space.size(), data.size() - at);
				if (n == 0) { vh::Ev("nospace").out(); return; }
				memcpy(space.data(), data.data() + at, n);
				vh::Ev("recv").bytes("b", std::string_view(data).substr(at, n)).out();
				alive = buffer.receive(glue, {}, n);
				vh::Ev("ret").b("more", alive).out();
				at += n;
			}
			if (!alive) break;
		}
	}
	vh::Ev("done").out();
}
int main() { return vh::runAll(runCase); }
