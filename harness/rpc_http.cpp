// Drives HTTP servers with methods behind them: JSON-RPC, forms and GET requests with arguments.
// Commands: server <json|form> <tree|one>
//           page <hex path> <hex contents>     a page besides the methods
//           recv <hex>                         bytes arriving at once
#include "bomba_core.hpp"
#include "bomba_object.hpp"
#include "bomba_json.hpp"
#include "bomba_http.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_dynamic_object.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_tcp_server.hpp"
#include "api.hpp"
using vh::Ev;

struct Pages : Bomba::IHttpGetResponder {
	std::map<std::string, std::string> pages;
	bool get(std::string_view path, Bomba::IWriteStarter& writer) override {
		auto found = pages.find(std::string(path));
		if (found == pages.end()) return false;
		writer.writeKnownSize("text/page", found->second.size(), [&] (Bomba::GeneralisedBuffer& b) { b += std::string_view(found->second); });
		return true;
	}
};

template <typename Session> struct Glue : Bomba::ITcpServerSession {
	Session& s;
	Glue(Session& s) : s(s) {}
	std::pair<Bomba::ServerReaction, int> feedToResponder(std::span<char> data) override {
		std::unique_ptr<char[]> copy(new char[data.size()]);
		memcpy(copy.get(), data.data(), data.size());
		auto r = s.respond(std::span<char>(copy.get(), data.size()), [] (std::span<const char> out) {
			Ev("send").bytes("b", {out.data(), out.size()}).out();
		});
		memcpy(data.data(), copy.get(), data.size());
		return r;
	}
	void notifyMessageWasParsed() override {}
};

template <typename Server> static void drive(Server& server, const vh::Case& c) {
	auto session = server.getSession();
	Glue<decltype(session)> glue(session);
	Bomba::TcpServerBuffer buffer;
	bool alive = true;
	for (auto& l : c.lines) {
		if (l[0] != "recv") continue;
		std::string data = vh::unhex(l[1]);
		for (size_t at = 0; at < data.size() && alive; ) {
			auto space = buffer.space();
			size_t n = std::min(space.size(), data.size() - at);
			if (n == 0) { Ev("nospace").out(); return; }
			memcpy(space.data(), data.data() + at, n);
			Ev("recv").bytes("b", std::string_view(data).substr(at, n)).out();
			alive = buffer.receive(glue, {}, n);
			Ev("ret").b("more", alive).out();
			at += n;
		}
	}
	Ev("done").out();
}

static void runCase(const vh::Case& c) {
	Pages pages;
	api::Tree tree;
	api::One one;
	Bomba::IRemoteCallable* callable = nullptr;
	bool json = false;
	for (auto& l : c.lines) {
		if (l[0] == "server") {
			json = l[1] == "json";
			if (l[2] == "one") callable = &one;
			else callable = &tree.root;
			Ev("server").s("kind", l[1]).s("api", l[2]).out();
		} else if (l[0] == "page") {
			std::string path = vh::unhex(l[1]), contents = l.size() > 2 ? vh::unhex(l[2]) : "";
			pages.pages[path] = contents;
			Ev("page").bytes("path", path).bytes("b", contents).out();
		}
	}
	Bomba::RpcGetResponder<> get(pages, *callable);
	if (json) {
		Bomba::JsonRpcServer<> server(*callable, get);
		drive(server, c);
	} else {
		Bomba::HtmlPostResponder<> post(*callable);
		Bomba::HttpServer<> server(get, post);
		drive(server, c);
	}
}
int main() { return vh::runAll(runCase); }
