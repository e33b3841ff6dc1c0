// The adapter of the specifications that extend Nest.tla: objects of several kinds that own one another.
#pragma once
#include "vt.h"
#include "vt_io.h"
namespace nest {
using namespace vt;
typedef std::vector<int> L;
typedef std::vector<FCDObject*> Objects;
struct Field { std::function<void(FCDObject*, const L&)> set; std::function<L(FCDObject*)> get; };
struct Reference { std::function<void(FCDObject*, const Objects&)> set; std::function<Objects(FCDObject*)> get; };
struct Kind
{
	std::string name;
	std::map<std::string, std::function<Objects(FCDObject*)>> list;      // by the kind of the owner
	std::map<std::string, std::function<FCDObject*(FCDObject*)>> make;
	std::map<std::string, Field> fields;
	std::map<std::string, Reference> refs;
};
// strings of the specifications: 0 is empty, 9 means "the same as the id"
static const char* TEXTS[] = {"", "plain", "two words:1", "<a href=\"x\">&amp; 'b'</a>", "\xC3\xA9\xE6\xBC\xA2 \xC2\xB5", "UV0", "42", "a_b.c-d"};
inline int text(const std::string& s) { for (int i = 0; i < 8; ++i) if (s == TEXTS[i]) return i; return -1; }

struct Nest : public Model
{
	FCDocument* doc = NULL;
	std::vector<Kind> kinds;                             // in the order of KindSeq
	struct Found { FCDObject* o; Kind* k; int p; };
	virtual void define() = 0;
	Kind& kind(const char* n) { for (Kind& k : kinds) if (k.name == n) return k; kinds.push_back(Kind{n}); return kinds.back(); }
	void walk(FCDObject* o, const std::string& k, int p, std::vector<Found>& all)
	{
		for (Kind& c : kinds)
		{
			auto it = c.list.find(k);
			if (it == c.list.end()) continue;
			for (FCDObject* x : it->second(o)) { all.push_back(Found{x, &c, p}); walk(x, c.name, (int) all.size(), all); }
		}
	}
	std::vector<Found> all() { std::vector<Found> a; walk(doc, "doc", 0, a); return a; }
	int number()                                         // the first number that no numbered object has
	{
		std::vector<Found> a = all();
		for (int n = 1; ; ++n) { bool used = false; for (Found& f : a) { auto it = f.k->fields.find("num"); if (it != f.k->fields.end() && it->second.get(f.o) == L{n}) used = true; } if (!used) return n; }
	}
	void reset(const Args&) override
	{
		FCollada::Initialize();
		doc = FCollada::NewTopDocument();
		kinds.reserve(60);
		define();
	}
	J op(const Args& a) override
	{
		if (a.op == "Make")
		{
			std::vector<Found> f = all();
			int p = a.i("p"), n = number();
			Kind& k = kind(a.s("k").c_str());
			FCDObject* owner = p == 0 ? doc : f.at(p - 1).o;
			auto it = k.make.find(p == 0 ? std::string("doc") : f[p - 1].k->name);
			if (it == k.make.end()) bad("owner of " + a.s("k"));
			FCDObject* o = it->second(owner);
			if (k.fields.count("num")) k.fields["num"].set(o, L{n});
			return 0;
		}
		if (a.op == "Set") { Found f = all().at(a.i("i") - 1); f.k->fields.at(a.s("f")).set(f.o, a.l("v")); return 0; }
		if (a.op == "Ref")
		{
			std::vector<Found> f = all();
			Objects to; for (int j : a.l("j")) to.push_back(f.at(j - 1).o);
			f.at(a.i("i") - 1).k->refs.at(a.s("f")).set(f[a.i("i") - 1].o, to);
			return 0;
		}
		if (a.op == "Release") { all().at(a.i("i") - 1).o->Release(); return 0; }
		if (a.op == "Save") return twice(doc);
		if (a.op == "Again") { doc = saveload(doc); return doc == NULL ? J("load") : J(0); }
		return other(a);
	}
	virtual J other(const Args& a) { bad(a.op); }
	J obs() override
	{
		J r = J::arr();
		if (doc == NULL) return r;
		std::vector<Found> f = all();
		for (Found& x : f)
		{
			J fields = J::obj(), refs = J::obj();
			for (auto& p : x.k->fields) fields.set(p.first, J::list(p.second.get(x.o)));
			for (auto& p : x.k->refs)
			{
				L to;
				for (FCDObject* o : p.second.get(x.o)) { int j = -1; for (size_t i = 0; i < f.size(); ++i) if (f[i].o == o) j = i + 1; to.push_back(j); }
				refs.set(p.first, J::list(to));
			}
			J o = J::obj().set("k", x.k->name).set("p", x.p).set("f", fields);
			if (!x.k->refs.empty()) o.set("r", refs);
			r.add(o);
		}
		return r;
	}
	J finish() override { if (doc != NULL) doc->Release(); FCollada::Release(); return J(true); }
};
template <class F> Objects listed(size_t n, F at) { Objects r; for (size_t i = 0; i < n; ++i) r.push_back((FCDObject*) at(i)); return r; }
inline Objects only(const FCDObject* o) { return o == NULL ? Objects() : Objects{(FCDObject*) o}; }
}
