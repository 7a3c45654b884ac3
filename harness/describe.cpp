// Describes services put together from the parts of a generated program (the file GENERATED, see checks/c17.py).
// Commands: dyn v · one v k (a part alone) · put v name k (part k into v) · add v name w · describe v url service
#include <iostream>
#include <map>
#include <memory>
#include <list>
#include "bomba_object.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_dynamic_object.hpp"
#include "bomba_json_wsp_description.hpp"
#include "vh.hpp"

using namespace Bomba;
using vh::Ev;

// A service object that describes itself by hand, as custom callables do
struct ManualParam { std::string name, doc, type; bool optional; };
struct ManualMethod { std::string name, doc; std::vector<ManualParam> params; std::string ret, retDoc; };
class Manual : public IRemoteCallable {
	struct Function : IRemoteCallable {
		bool call(IStructuredInput*, IStructuredOutput& out, Callback<> introduceResult, Callback<void(std::string_view)>, std::optional<UserId>) const override {
			introduceResult();
			out.writeNull(SerialisationFlags::NONE);
			return true;
		}
		Function(IRemoteCallable* parent) : IRemoteCallable(parent) {}
	};
	std::vector<ManualMethod> _methods;
	std::list<Function> _functions;
	static void addType(const std::string& type, IPropertyDescriptionFiller& filler) {
		if (type[0] == 'a') filler.addArray([&] (IPropertyDescriptionFiller& f) { addType(type.substr(1), f); });
		else if (type[0] == 'o') filler.addOptional([&] (IPropertyDescriptionFiller& f) { addType(type.substr(1), f); });
		else if (type == "i") filler.addInteger();
		else if (type == "f") filler.addFloat();
		else if (type == "b") filler.addBoolean();
		else filler.addString();
	}
	void make() {
		_functions.clear();
		for (auto& it : _methods) { (void)it; _functions.emplace_back(this); }
	}
public:
	Manual(std::vector<ManualMethod> methods) : _methods(std::move(methods)) { make(); }
	Manual(Manual&& other) : _methods(std::move(other._methods)) { make(); }
	const IRemoteCallable* getChild(int index) const override {
		if (index < 0 || index >= std::ssize(_methods)) return nullptr;
		return &*std::next(_functions.begin(), index);
	}
	const IRemoteCallable* getChild(std::string_view name) const override {
		for (size_t i = 0; i < _methods.size(); i++) if (_methods[i].name == name) return getChild(int(i));
		return nullptr;
	}
	std::pair<std::string_view, int> childName(const IRemoteCallable* child) const override {
		for (size_t i = 0; i < _methods.size(); i++) if (getChild(int(i)) == child) return {_methods[i].name, int(i)};
		return {"", NO_SUCH_STRUCTURE};
	}
	void generateDescription(IRemoteCallableDescriptionFiller& filler) const override {
		for (auto& it : _methods)
			filler.addMethod(it.name, it.doc, [&] (IPropertyDescriptionFiller& f) {
				for (auto& p : it.params)
					f.addMember(p.name, p.doc, [&] {
						if (p.optional) f.addOptional([&] (IPropertyDescriptionFiller& inner) { addType(p.type, inner); });
						else addType(p.type, f);
					});
			}, [&] (IPropertyDescriptionFiller& f) {
				if (!it.ret.empty()) f.addMember("", it.retDoc, [&] { addType(it.ret, f); });
			});
	}
};

#include GENERATED
// static const char* typesJson, *poolJson; std::vector<std::string> typeNames(); void put(DynamicRpcObject&, std::string, int);
// std::unique_ptr<IRemoteCallable> one(int);

static std::string bytesOf(std::string_view s) {
	std::vector<int64_t> v;
	for (unsigned char c : s) v.push_back(c);
	return vh::ints(v);
}

static void walk(const IRemoteCallable* root, const IRemoteCallable* node, std::string& all) {
	for (int i = 0; auto kid = node->getChild(i); i++) {
		std::string path = PathWithSeparator<".">::constructPath(kid);
		if (PathWithSeparator<".">::findCallable(path, root) != kid) throw std::runtime_error("wrong path");
		std::string text;
		BasicJson<>::Output out(text);
		int introduced = 0;
		if (kid->call(nullptr, out, [&] { introduced++; }, [] (std::string_view) {}, std::nullopt)) {
			if (introduced != 1) throw std::runtime_error("result not introduced once");
			all += (all.empty() ? "" : ",") + bytesOf(path);
		}
		walk(root, kid, all);
	}
}

static void runCase(const vh::Case& c) {
	std::map<std::string, std::unique_ptr<IRemoteCallable>> vars;
	std::string names;
	for (auto& it : typeNames()) names += (names.empty() ? "" : ",") + bytesOf(it);
	Ev("program").raw("types", typesJson).raw("names", "[" + names + "]").raw("pool", poolJson).out();
	for (auto& line : c.lines) {
		auto& v = line[1];
		auto dyn = [&] (const std::string& v) -> DynamicRpcObject& { return dynamic_cast<DynamicRpcObject&>(*vars.at(v)); };
		if (line[0] == "dyn") {
			vars[v] = std::make_unique<DynamicRpcObject>();
			Ev("dyn").s("v", v).out();
		} else if (line[0] == "one") {
			vars[v] = one(std::stoi(line[2]));
			Ev("one").s("v", v).i("k", std::stoi(line[2])).out();
		} else if (line[0] == "put") {
			put(dyn(v), vh::unhex(line[2]), std::stoi(line[3]));
			Ev("put").s("v", v).bytes("name", vh::unhex(line[2])).i("k", std::stoi(line[3])).out();
		} else if (line[0] == "add") {
			dyn(v).add(vh::unhex(line[2]), RpcLambdaHolder(std::move(dyn(line[3]))));
			vars.erase(line[3]);
			Ev("add").s("v", v).bytes("name", vh::unhex(line[2])).s("w", line[3]).out();
		} else if (line[0] == "describe") {
			std::string url = vh::unhex(line[2]), service = vh::unhex(line[3]);
			std::string text = describeInJsonWsp<std::string>(*vars.at(v), url, service);
			Ev("described").s("v", v).bytes("url", url).bytes("service", service).bytes("text", text).out();
			std::string all;
			walk(vars.at(v).get(), vars.at(v).get(), all);
			Ev("callable").s("v", v).raw("paths", "[" + all + "]").out();
		} else throw std::runtime_error("what is " + line[0]);
	}
	Ev("done").out();
}

int main() { return vh::runAll(runCase); }
