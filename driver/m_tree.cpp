#include "vt.h"
using namespace vt;

namespace {
int live = 0;
struct Val
{
	int* p;
	Val() : p(new int(0)) { ++live; }
	Val(int v) : p(new int(v)) { ++live; }
	Val(const Val& c) : p(new int(*c.p)) { ++live; }
	Val& operator=(const Val& c) { if (this != &c) *p = *c.p; return *this; }
	~Val() { delete p; p = NULL; --live; }
};
static int num(int v) { return v; }
static int num(uint32 v) { return (int) v; }
static int num(const Val& v) { return *v.p; }
static int num(const fm::string& s) { return FUStringConversion::ToInt32(s) - 100; }
static void mk(uint32& k, int v) { k = (uint32) v; }
static void mk(fm::string& k, int v) { k = fm::string(std::to_string(v + 100).c_str()); }

template <class K, class V> struct Side
{
	typedef fm::map<K, V> Map;
	std::vector<Map*> t;
	J op(const Args& a)
	{
		const std::string& op = a.op;
		Map& m = *t[a.i("i") - 1];
		K k = K(); if (a.has("k")) mk(k, a.i("k"));
		auto pr = [](typename Map::iterator it) { J j = J::arr(); j.add(num(it->first)).add(num((*it).second)); return j; };
		if (op == "Insert") return pr(m.insert(k, V(a.i("v"))));
		if (op == "Put") { m[k] = V(a.i("v")); return 0; }
		if (op == "Touch") return num(m[k]);
		if (op == "Erase") { m.erase(k); return 0; }
		if (op == "EraseIt") { m.erase(m.find(k)); return 0; }
		if (op == "Find")
		{
			auto it = m.find(k); const Map& c = m; auto ct = c.find(k);
			if ((it == m.end()) != (ct == c.end())) return "find";
			return it == m.end() ? -1 : num(it->second) != num(ct->second) ? -99 : num(it->second);
		}
		if (op == "Clear") { m.clear(); return 0; }
		if (op == "Assign") { m = *t[a.i("j") - 1]; return 0; }
		if (op == "Copy") { Map* n = new Map(*t[a.i("j") - 1]); delete t[a.i("i") - 1]; t[a.i("i") - 1] = n; return 0; }
		if (op == "Last") return pr(m.last());
		bad(op);
	}
	J obs()
	{
		J j = J::arr();
		for (auto* m : t)
		{
			J l = J::arr(), back = J::arr();
			for (auto it = m->begin(); it != m->end(); ++it) { J e = J::arr(); e.add(num(it->first)).add(num(it->second)); l.add(e); }
			const Map* c = m; size_t n = 0;
			for (auto it = c->begin(); it != c->end(); ++it) ++n;
			if (n != l.a.size() || n != m->size() || m->empty() != (n == 0)) l.add("size");
			// backwards
			if (!m->empty()) { auto it = m->last(); for (size_t i = n; i > 0; --i) { if (num(it->first) != l.a[i - 1].a[0].i) { l.add("backwards"); break; } --it; } if (!(it == m->end())) l.add("backwards end"); }
			j.add(l);
		}
		return j;
	}
};
struct Trees : public Model
{
	Side<uint32, int> a; Side<fm::string, Val> b;
	static std::string str(const J& j) { std::string s; j.write(s); return s; }
	static J same(J x, J y) { if (str(x) == str(y)) return x; J j = J::obj(); j.set("int", x).set("string", y); return j; }
	void reset(const Args& g) override { live = 0; for (int i = 0; i < g.i("NTree"); ++i) { a.t.push_back(new fm::map<uint32, int>()); b.t.push_back(new fm::map<fm::string, Val>()); } }
	J op(const Args& g) override { J x = a.op(g), y = b.op(g); return same(x, y); }
	J obs() override
	{
		J x = a.obs(), y = b.obs();
		int n = 0; for (auto* m : b.t) n += 1 + (int) m->size(); // one value in each root
		if (live != n) y.add("live values: " + std::to_string(live));
		return same(x, y);
	}
	J finish() override { for (auto* m : a.t) delete m; for (auto* m : b.t) delete m; a.t.clear(); b.t.clear(); if (live) return live; return true; }
};
}
VT_MODEL("tree", Trees)
