// Drives the output buffers.  Commands: new <kind> <static size>, ch/sv/sp/cs <hex>, size, view, clear, flush, del
#include "bomba_core.hpp"
#include "vh.hpp"
using namespace Bomba;

struct Any {
	virtual GeneralisedBuffer& buffer() = 0;
	virtual void view() {}
	virtual void clear() {}
	virtual void flush() {}
	virtual bool intact() = 0;
	virtual ~Any() = default;
};

struct Guard {
	unsigned char bytes[64];
	Guard() { memset(bytes, 0xa5, sizeof bytes); }
	bool intact() const { for (auto b : bytes) if (b != 0xa5) return false; return true; }
};

template <typename B>
struct Viewable : Any {
	Guard before;
	B b;
	Guard after;
	GeneralisedBuffer& buffer() override { return b; }
	void view() override {
		const B& cb = b;
		std::string_view v = cb;
		std::span<char> s = b;
		vh::Ev("view").bytes("b", v).bytes("m", {s.data(), s.size()}).out();
	}
	void clear() override { b.clear(); vh::Ev("clear").out(); }
	bool intact() override { return before.intact() && after.intact(); }
};

template <int N>
struct Streaming : Any {
	Guard before;
	std::function<void(std::span<const char>)> f = [] (std::span<const char> c) {
		vh::Ev("chunk").bytes("b", {c.data(), c.size()}).out();
	};
	struct Call {
		std::function<void(std::span<const char>)>& f;
		void operator()(std::span<const char> c) const { f(c); }
	} call{f};
	Callback<void(std::span<const char>)> callback{call};
	NonOwningStreamingBuffer<N> b{callback};
	Guard after;
	GeneralisedBuffer& buffer() override { return b; }
	void flush() override { b.flush(); vh::Ev("flushed").out(); }
	bool intact() override { return before.intact() && after.intact(); }
};

template <int N>
std::unique_ptr<Any> make(const std::string& kind) {
	if (kind == "expanding") return std::make_unique<Viewable<ExpandingBuffer<N>>>();
	if (kind == "expandingv") return std::make_unique<Viewable<ExpandingBuffer<N, std::vector<char>>>>();
	if (kind == "fixed") return std::make_unique<Viewable<NonExpandingBuffer<N>>>();
	return std::make_unique<Streaming<N>>();
}

static void runCase(const vh::Case& c) {
	std::unique_ptr<Any> a;
	for (auto& l : c.lines) {
		if (l[0] == "new") {
			int n = std::stoi(l[2]);
			vh::Ev("new").s("kind", l[1] == "expandingv" ? "expanding" : l[1]).i("cap", n).out();
			switch (n) {
			case 1: a = make<1>(l[1]); break;
			case 2: a = make<2>(l[1]); break;
			case 3: a = make<3>(l[1]); break;
			case 5: a = make<5>(l[1]); break;
			case 8: a = make<8>(l[1]); break;
			case 16: a = make<16>(l[1]); break;
			case 100: a = make<100>(l[1]); break;
			case 1024: a = make<1024>(l[1]); break;
			}
		} else if (l[0] == "size") vh::Ev("size").i("n", a->buffer().size()).out();
		else if (l[0] == "view") a->view();
		else if (l[0] == "clear") a->clear();
		else if (l[0] == "flush") a->flush();
		else if (l[0] == "del") {
			bool ok = a->intact();
			a.reset();
			vh::Ev("gone").b("intact", ok).out();
		} else {
			std::string data = vh::unhex(l[1]);
			// What is handed over is copied to memory of exactly this size, so that reading outside it is noticed
			vh::Ev("add").bytes("b", data).out();
			std::unique_ptr<char[]> copy(new char[data.size() + (l[0] == "cs")]);
			memcpy(copy.get(), data.data(), data.size());
			if (l[0] == "ch") for (size_t i = 0; i < data.size(); i++) a->buffer() += copy[i];
			else if (l[0] == "sv") a->buffer() += std::string_view(copy.get(), data.size());
			else if (l[0] == "sp") a->buffer() += std::span<const char>(copy.get(), data.size());
			else if (l[0] == "cs") { copy[data.size()] = 0; a->buffer() += (const char*)copy.get(); }
			vh::Ev("added").out();
		}
	}
}
int main() { return vh::runAll(runCase); }
