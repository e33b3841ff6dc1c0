#include "vt.h"
using namespace vt;

namespace {
int live = 0;
// An object with constructors: it must be constructed and destroyed in pairs and never used otherwise.
struct Cell
{
	int* p;
	Cell(int v = -7) : p(new int(v)) { ++live; }
	Cell(const Cell& c) : p(new int(*c.p)) { ++live; }
	Cell& operator=(const Cell& c) { if (this != &c) { *p = *c.p; } return *this; }
	~Cell() { delete p; p = NULL; --live; }
	bool operator==(const Cell& c) const { return *p == *c.p; }
	bool operator<(const Cell& c) const { return *p < *c.p; }
};
int pool[16];
template <class T> struct Conv;
template <> struct Conv<int> { static int to(int v) { return v; } static int from(int v) { return v; } };
template <> struct Conv<Cell> { static Cell to(int v) { return Cell(v); } static int from(const Cell& c) { return *c.p; } };

template <class T> struct Side
{
	typedef fm::vector<T> Vec;
	std::vector<Vec*> v;
	void reset(int n) { for (int i = 0; i < n; ++i) v.push_back(new Vec()); }
	void done() { for (auto* x : v) delete x; v.clear(); }
	J op(const Args& a)
	{
		const std::string& op = a.op;
		Vec& s = *v[a.i("i") - 1];
		auto X = [&](const char* k) { return Conv<T>::to(a.i(k)); };
		if (op == "PushBack") { s.push_back(X("x")); return 0; }
		if (op == "PushFront") { s.push_front(X("x")); return 0; }
		if (op == "Insert") { auto it = s.insert(s.begin() + a.i("p"), X("x")); return (int) (it - s.begin()); }
		if (op == "InsertN") { s.insert(s.begin() + a.i("p"), (size_t) a.i("n"), X("x")); return 0; }
		if (op == "InsertArr") { std::vector<T> w; for (int x : a.l("w")) w.push_back(Conv<T>::to(x)); s.insert(s.begin() + a.i("p"), (const T*) w.data(), w.size()); return 0; }
		if (op == "InsertRange") { Vec& o = *v[a.i("j") - 1]; s.insert(s.begin() + a.i("p"), o.begin() + a.i("f"), o.begin() + a.i("l")); return 0; }
		if (op == "InsertSelf") { if (a.i("p") == (int) s.size()) s.push_back(s[a.i("q")]); else s.insert(s.begin() + a.i("p"), s[a.i("q")]); return 0; }
		if (op == "InsertSelfN") { s.insert(s.begin() + a.i("p"), (size_t) 2, s[a.i("q")]); return 0; }
		if (op == "EraseAt") { auto it = s.erase(s.begin() + a.i("p")); return (int) (it - s.begin()); }
		if (op == "EraseRange") { s.erase(s.begin() + a.i("p"), s.begin() + a.i("q")); return 0; }
		if (op == "EraseVal") return s.erase(X("x"));
		if (op == "PopBack") { s.pop_back(); return 0; }
		if (op == "PopFront") { s.pop_front(); return 0; }
		if (op == "Resize") { s.resize(a.i("n"), X("x")); return 0; }
		if (op == "Shrink") { s.resize(a.i("n")); return 0; }
		if (op == "Reserve") { s.reserve(a.i("n")); return s.capacity() >= (size_t) a.i("n") ? a.i("n") : -1; }
		if (op == "Clear") { s.clear(); return 0; }
		if (op == "Replace") { s.replace(X("x"), X("y")); return 0; }
		if (op == "ReplaceIn") { s.replace(s.begin() + a.i("p"), s.begin() + a.i("q"), X("x"), X("y")); return 0; }
		if (op == "Assign") { s = *v[a.i("j") - 1]; return 0; }
		if (op == "Copy") { Vec* n = new Vec(*v[a.i("j") - 1]); delete v[a.i("i") - 1]; v[a.i("i") - 1] = n; return 0; }
		if (op == "Sort") { if (a.b("d")) { fm::icomparator<T> c; c.sort(s.begin(), s.size()); } else s.sort(); return 0; }
		if (op == "SetAt") { s[a.i("p")] = X("x"); return 0; }
		if (op == "Find") { J j = J::obj(); j.set("at", (int) (s.find(X("x")) - s.begin())).set("has", s.contains(X("x"))); return j; }
		if (op == "Equal") return s == *v[a.i("j") - 1];
		if (op == "Ends") { J j = J::arr(); j.add(Conv<T>::from(s.front())).add(Conv<T>::from(s.back())); return j; }
		bad(op);
	}
	J obs()
	{
		J j = J::arr(); int n = 0;
		for (auto* s : v)
		{
			J l = J::arr();
			for (auto it = s->begin(); it != s->end(); ++it) { l.add(Conv<T>::from(*it)); ++n; }
			if ((size_t) (s->end() - s->begin()) != s->size() || s->capacity() < s->size() || s->empty() != (s->size() == 0)) l.add("size");
			j.add(l);
		}
		if (std::is_same<T, Cell>::value && live != n) j.add("live objects: " + std::to_string(live));
		return j;
	}
};
struct PSide
{
	typedef fm::pvector<int> Vec;
	std::vector<Vec*> v;
	static int from(const int* p) { return p == NULL ? -7 : (int) (p - pool); }
	J op(const Args& a)
	{
		const std::string& op = a.op;
		Vec& s = *v[a.i("i") - 1];
		auto X = [&](const char* k) { return pool + a.i(k); };
		if (op == "PushBack") { s.push_back(X("x")); return 0; }
		if (op == "PushFront") { s.push_front(X("x")); return 0; }
		if (op == "Insert") { auto it = s.insert(s.begin() + a.i("p"), X("x")); return (int) (it - s.begin()); }
		if (op == "InsertN") { for (int k = 0; k < a.i("n"); ++k) s.insert(s.begin() + a.i("p"), X("x")); return 0; }
		if (op == "InsertArr") { std::vector<int*> w; for (int x : a.l("w")) w.push_back(pool + x); s.insert(s.begin() + a.i("p"), w.data(), w.data() + w.size()); return 0; }
		if (op == "InsertRange") { Vec& o = *v[a.i("j") - 1]; s.insert(s.begin() + a.i("p"), o.begin() + a.i("f"), o.begin() + a.i("l")); return 0; }
		if (op == "InsertSelf") { if (a.i("p") == (int) s.size()) s.push_back(s[a.i("q")]); else s.insert(s.begin() + a.i("p"), s[a.i("q")]); return 0; }
		if (op == "InsertSelfN") { int* x = s[a.i("q")]; s.insert(s.begin() + a.i("p"), (size_t) 2); s[a.i("p")] = x; s[a.i("p") + 1] = x; return 0; }
		if (op == "EraseAt") { auto it = s.erase(s.begin() + a.i("p")); return (int) (it - s.begin()) == a.i("p") || s.empty() ? a.i("p") : -1; }
		if (op == "EraseRange") { s.erase(s.begin() + a.i("p"), s.begin() + a.i("q")); return 0; }
		if (op == "EraseVal") return s.erase((const int*) X("x"));
		if (op == "PopBack") { s.pop_back(); return 0; }
		if (op == "PopFront") { s.pop_front(); return 0; }
		if (op == "Resize") { while ((int) s.size() < a.i("n")) s.push_back(X("x")); s.resize(a.i("n")); return 0; }
		if (op == "Shrink") { s.resize(a.i("n")); return 0; }
		if (op == "Reserve") { s.reserve(a.i("n")); return a.i("n"); }
		if (op == "Clear") { s.clear(); return 0; }
		if (op == "Replace") { for (size_t k = 0; k < s.size(); ++k) if (s[k] == X("x")) s[k] = X("y"); return 0; }
		if (op == "ReplaceIn") { for (int k = a.i("p"); k < a.i("q"); ++k) if (s[k] == X("x")) s.at(k) = X("y"); return 0; }
		if (op == "Assign") { s = *v[a.i("j") - 1]; return 0; }
		if (op == "Copy") { Vec* n = new Vec(*v[a.i("j") - 1]); delete v[a.i("i") - 1]; v[a.i("i") - 1] = n; return 0; }
		if (op == "Sort") { struct D : fm::pcomparator<int> { bool d; using fm::pcomparator<int>::compare; bool compare(const int* x, const int* y) override { return d ? y < x : x < y; } } c; c.d = a.b("d"); if (!s.empty()) c.sort((const void**) s.begin(), s.size()); return 0; }
		if (op == "SetAt") { s[a.i("p")] = X("x"); return 0; }
		if (op == "Find") { J j = J::obj(); j.set("at", s.empty() ? 0 : (int) (s.find(X("x")) - s.begin())).set("has", s.contains(X("x"))); return j; }
		if (op == "Equal") return s == *v[a.i("j") - 1];
		if (op == "Ends") { J j = J::arr(); j.add(from(s.front())).add(from(s.back())); return j; }
		bad(op);
	}
	J obs()
	{
		J j = J::arr();
		for (auto* s : v) { J l = J::arr(); for (auto it = s->begin(); it != s->end(); ++it) l.add(from(*it)); if (l.a.size() != s->size()) l.add("size"); j.add(l); }
		return j;
	}
};

struct Vectors : public Model
{
	Side<int> a; Side<Cell> b; PSide c;
	static std::string str(const J& j) { std::string s; j.write(s); return s; }
	static J same(J x, J y, J z)
	{
		if (str(x) == str(y) && str(x) == str(z)) return x;
		J j = J::obj(); j.set("values", x).set("objects", y).set("pointers", z); return j;
	}
	void reset(const Args& g) override { live = 0; int n = g.i("NVec"); a.reset(n); b.reset(n); for (int i = 0; i < n; ++i) c.v.push_back(new PSide::Vec()); }
	J op(const Args& g) override { J x = a.op(g), y = b.op(g), z = c.op(g); return same(x, y, z); }
	J obs() override { J x = a.obs(), y = b.obs(), z = c.obs(); return same(x, y, z); }
	J finish() override { a.done(); b.done(); for (auto* s : c.v) delete s; c.v.clear(); if (live != 0) return live; return true; }
};
}
VT_MODEL("vector", Vectors)
