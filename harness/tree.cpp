// Builds and changes trees of service objects as a program would and records where everything is.
// Commands (v, w: variables; names and paths in hex):
//   leaf v id kind · stat v tag · dyn v · add v name w · borrow v name w · move v w · copy v w · assign v w · client v r
//   walk v sep · find v path sep · serve v sep a name... · call v a [method]
#include <iostream>
#include <map>
#include <numeric>
#include <array>
#include "bomba_object.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_dynamic_object.hpp"
#include "bomba_json.hpp"
#include "vh.hpp"

using namespace Bomba;
using vh::Ev;
using Json = BasicJson<>;

struct Stat : RpcObject<Stat> {
	int tag = 0;
	RpcMember<[] (Stat* parent) { return parent->tag; }> get = child<"get">;
	std::string between = "something of variable size between the methods";
	RpcMember<[] (Stat* parent, int a = name("a")) { int before = parent->tag; parent->tag = a; (void)before; return a; }> set = child<"set">;
	RpcMember<[] (int a = name("a")) { return a + 1; }> plain = child<"plain">;
};

using Leaf = TypedRpcLambdaHolder<int(int)>;
struct Variable {
	std::unique_ptr<Leaf> leaf;
	std::unique_ptr<Stat> stat;
	std::unique_ptr<DynamicRpcObject> dyn;
	IRemoteCallable* get() const {
		if (leaf) return &**leaf;
		if (stat) return stat.get();
		return dyn.get();
	}
};

static std::string pathOf(const std::string& sep, const IRemoteCallable* c) {
	if (sep == ".") return PathWithSeparator<".">::constructPath(c);
	if (sep == "/") return PathWithSeparator<"/">::constructPath(c);
	return PathWithSeparator<"::">::constructPath(c);
}
static const IRemoteCallable* lookFor(const std::string& sep, const std::string& path, const IRemoteCallable* root) {
	if (sep == ".") return PathWithSeparator<".">::findCallable(path, root);
	if (sep == "/") return PathWithSeparator<"/">::findCallable(path, root);
	return PathWithSeparator<"::">::findCallable(path, root);
}

static int64_t run(const IRemoteCallable* c, int64_t a) {
	std::string args = "{\"a\":" + std::to_string(a) + "}";
	Json::Input in(args);
	std::string text;
	Json::Output out(text);
	int introduced = 0;
	if (!c->call(&in, out, [&] () { introduced++; }, [] (std::string_view) {}, std::nullopt))
		return introduced ? -3 : -1;
	if (introduced != 1) return -4;
	return std::stoll(text);
}

static std::string methodList(const std::string& method) {
	std::string m = Ev("").bytes("x", method).text();
	return method.empty() ? "[]" : "[" + m.substr(m.find('['), m.find(']') - m.find('[') + 1) + "]";
}

struct Client : IRpcResponder {
	int id = 0;
	std::string var, method, sep;
	std::string text;
	bool sent = false;
	RequestToken send(UserId, const IRemoteCallable* callable, Callback<void(IStructuredOutput&, RequestToken)> request) override {
		std::string text;
		Json::Output out(text);
		request(out, RequestToken{7});
		sent = true;
		Ev("sent").s("v", var).raw("m", methodList(method)).i("r", id).bytes("path", pathOf(sep, callable)).bytes("sep", sep).out();
		return RequestToken{7};
	}
	bool getResponse(RequestToken, Callback<void(IStructuredInput&)> reader) override {
		std::string text = "0";
		Json::Input in(text);
		reader(in);
		return true;
	}
};

static void walk(const IRemoteCallable* root, const IRemoteCallable* node, std::vector<int64_t> at, const std::string& sep, std::string& all) {
	for (int i = 0; i < 1000; i++) {
		const IRemoteCallable* kid = node->getChild(i);
		if (!kid) break;
		std::vector<int64_t> here = at;
		here.push_back(i);
		std::vector<int64_t> chain;
		for (const IRemoteCallable* c = kid; c != root; c = c->parent()) {
			if (!c->parent() || chain.size() > 50) { chain.insert(chain.begin(), -9); break; }
			chain.insert(chain.begin(), c->parent()->childName(c).second);
		}
		std::string path = pathOf(sep, kid);
		bool same = lookFor(sep, path, root) == kid && node->getChild(node->childName(kid).first) == kid;
		std::string text = Ev("").raw("ix", vh::ints(here)).raw("ci", vh::ints(chain)).bytes("path", path).b("same", same)
				.i("res", dynamic_cast<const decltype(Stat::set)*>(kid) ? -2 : run(kid, 7)).text();
		if (!all.empty()) all += ",";
		all += text.substr(0, text.size() - 1);
		walk(root, kid, here, sep, all);
	}
	if (node->getChild(-1)) throw std::runtime_error("child -1");
}

static void runCase(const vh::Case& c) {
	std::map<std::string, Variable> vars;
	std::map<int, Client> clients;
	for (auto& line : c.lines) {
		auto& what = line[0];
		auto& v = line[1];
		auto var = [&] (const std::string& n) -> Variable& { return vars.at(n); };
		if (what == "leaf") {
			int id = std::stoi(line[2]);
			if (line[3] == "small") {
				vars[v].leaf = std::make_unique<Leaf>([id] (int a = name("a")) { return id * 100 + a; });
			} else if (line[3] == "big") {
				std::array<int64_t, 20> many = {};
				for (int i = 0; i < 20; i++) many[i] = id * 5;
				vars[v].leaf = std::make_unique<Leaf>([many] (int a = name("a")) { return int(std::accumulate(many.begin(), many.end(), int64_t(0))) + a; });
			} else if (line[3] == "full") { // As much as fits without allocation
				int64_t x = id, y = 1000000000000, z = id * 99 - y;
				vars[v].leaf = std::make_unique<Leaf>([x, y, z] (int a = name("a")) { return int(x + y + z) + a; });
			} else if (line[3] == "mid") {
				int64_t x = id, y = 1000000000000, z = id * 99 - y, u = 1, t = -1;
				vars[v].leaf = std::make_unique<Leaf>([x, y, z, u, t] (int a = name("a")) { return int(x + y + z + u + t) + a; });
			} else if (line[3] == "text") {
				std::string text = std::to_string(id * 100) + "                                   ";
				vars[v].leaf = std::make_unique<Leaf>([text] (int a = name("a")) { return std::stoi(text) + a; });
			} else {
				auto owned = std::make_shared<int>(id * 100);
				vars[v].leaf = std::make_unique<Leaf>([owned] (int a = name("a")) { return *owned + a; });
			}
			Ev("leaf").s("v", v).i("id", id).out();
		} else if (what == "stat") {
			vars[v].stat = std::make_unique<Stat>();
			vars[v].stat->tag = std::stoi(line[2]);
			Ev("stat").s("v", v).i("tag", std::stoi(line[2])).out();
		} else if (what == "dyn") {
			vars[v].dyn = std::make_unique<DynamicRpcObject>();
			Ev("dyn").s("v", v).out();
		} else if (what == "add") {
			std::string name = vh::unhex(line[2]);
			Variable& w = var(line[3]);
			if (w.leaf) var(v).dyn->add(name, std::move(*w.leaf));
			else if (w.stat) var(v).dyn->add(name, RpcLambdaHolder(std::move(*w.stat)));
			else var(v).dyn->add(name, RpcLambdaHolder(std::move(*w.dyn)));
			vars.erase(line[3]);
			Ev("add").s("v", v).bytes("name", name).s("w", line[3]).out();
		} else if (what == "borrow") {
			std::string name = vh::unhex(line[2]);
			var(v).dyn->add(name, RpcLambdaHolder::nonOwning(*var(line[3]).get()));
			Ev("borrow").s("v", v).bytes("name", name).s("w", line[3]).out();
		} else if (what == "move") {
			Variable& o = var(v);
			Variable n;
			if (o.leaf) n.leaf = std::make_unique<Leaf>(std::move(*o.leaf));
			else if (o.stat) n.stat = std::make_unique<Stat>(std::move(*o.stat));
			else n.dyn = std::make_unique<DynamicRpcObject>(std::move(*o.dyn));
			vars.erase(v);
			vars[line[2]] = std::move(n);
			Ev("move").s("v", v).s("w", line[2]).out();
		} else if (what == "copy") {
			vars[line[2]].stat = std::make_unique<Stat>(*var(v).stat);
			Ev("copy").s("v", v).s("w", line[2]).out();
		} else if (what == "assign") {
			*var(line[2]).stat = *var(v).stat;
			Ev("assign").s("v", v).s("w", line[2]).out();
		} else if (what == "client") {
			int r = std::stoi(line[2]);
			clients[r].id = r;
			var(v).get()->setResponder(clients[r]);
			Ev("client").s("v", v).i("r", r).out();
		} else if (what == "walk") {
			std::string all;
			walk(var(v).get(), var(v).get(), {}, line[2], all);
			Ev("walk").s("v", v).raw("got", "[" + all + "]").bytes("sep", line[2]).out();
		} else if (what == "find") {
			std::string path = vh::unhex(line[2]);
			auto found = lookFor(line[3], path, var(v).get());
			int64_t res = found ? dynamic_cast<const decltype(Stat::set)*>(found) ? -2 : run(found, 7) : -1;
			Ev("find").s("v", v).bytes("path", path).bytes("sep", line[3]).b("found", found).i("res", res).out();
		} else if (what == "serve") {
			std::string path, names;
			for (size_t i = 4; i < line.size(); i++) {
				std::string name = vh::unhex(line[i]);
				path += (i > 4 ? line[2] : "") + name;
				std::string text = Ev("").bytes("x", name).text();
				size_t from = text.find('['), to = text.find(']');
				names += (names.empty() ? "" : ",") + text.substr(from, to - from + 1);
			}
			auto found = lookFor(line[2], path, var(v).get());
			int64_t a = std::stoll(line[3]);
			Ev("serve").s("v", v).raw("names", "[" + names + "]").i("a", a).i("res", found ? run(found, a) : -1).out();
		} else if (what == "call") {
			int a = std::stoi(line[2]);
			std::string method = line.size() > 4 ? line[4] : "";
			for (auto& [id, client] : clients) {
				client.var = v;
				client.method = method;
				client.sep = line[3];
				client.sent = false;
			}
			Variable& o = var(v);
			int64_t res = o.leaf ? (*o.leaf)(a) : method == "get" ? o.stat->get() : method == "set" ? o.stat->set(a) : o.stat->plain(a);
			bool sent = false;
			for (auto& [id, client] : clients) sent |= client.sent;
			if (!sent) {
				Ev("local").s("v", v).raw("m", methodList(method)).i("a", a).i("res", res).out();
			}
		} else throw std::runtime_error("what is " + what);
	}
	Ev("done").out();
}

int main() { return vh::runAll(runCase); }
