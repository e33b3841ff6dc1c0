#include "vt.h"
#include "FUtils/FUUniqueStringMap.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometrySource.h"
#include "FCDocument/FCDImage.h"
#include "FCDocument/FCDMaterial.h"
#include "FCDocument/FCDSceneNode.h"
#include <set>
#include <algorithm>
using namespace vt;

namespace {
static fm::string S(const std::vector<int>& c) { std::string s; for (int x : c) s += (char) x; return fm::string(s.c_str()); }
static J JS(const fm::string& s) { J j = J::arr(); for (size_t i = 0; i < s.length(); ++i) j.add((int) (unsigned char) s[i]); return j; }
static std::string STD(const fm::string& s) { return std::string(s.c_str(), s.length()); }
struct ByLen { bool operator()(const std::string& a, const std::string& b) const { return a.size() != b.size() ? a.size() < b.size() : a < b; } };
typedef std::set<std::string, ByLen> Words;
static J names(const FUSUniqueStringMap& m, const Words& seen) { J j = J::arr(); for (auto& w : seen) if (m.contains(fm::string(w.c_str()))) j.add(JS(fm::string(w.c_str()))); return j; }

struct UMap : public Model
{
	FUSUniqueStringMap m; Words seen;
	// every name of the universe and every name that was handed out or asked for, plus its neighbours
	void note(const fm::string& w) { std::string s = STD(w); seen.insert(s); seen.insert(s + "0"); seen.insert(s + "1"); if (s.size() > 1) seen.insert(s.substr(0, s.size() - 1)); }
	void reset(const Args&) override { for (const char* p : {"A", "AB", ""}) for (const char* z : {"", "0", "00"}) for (const char* n : {"", "0", "1", "2", "3", "9", "10", "99", "100"}) if (*p || *z || *n) seen.insert(std::string(p) + z + n); }
	J op(const Args& a) override
	{
		fm::string w = S(a.l("w")); note(w);
		if (a.op == "Insert") { m.insert(w); note(w); return JS(w); }
		if (a.op == "Erase") { m.erase(w); return J::arr(); }
		if (a.op == "Contains") { J j = J::arr(); j.add(m.contains(w) ? 1 : 0); return j; }
		bad(a.op);
	}
	J obs() override { return names(m, seen); }
};

struct Ids : public Model
{
	FCDocument* doc; Words seen;
	struct E { int k = 0; FCDEntity* e = NULL; bool known = false; std::string id; void know(const fm::string& s) { known = true; id = STD(s); } };
	std::vector<E> e;
	void note(const fm::string& w) { seen.insert(STD(w)); }
	void reset(const Args& a) override
	{
		doc = FCollada::NewTopDocument(); e.resize(a.i("NEnt"));
		for (const char* w : {"Geometry", "Image", "VisualMaterial", "VisualSceneNode", "A", "A0", "_B", "A__.-_", "A.", "_"}) { seen.insert(w); for (int n = 0; n < 40; ++n) seen.insert(std::string(w) + std::to_string(n)); }
	}
	static fm::string wanted(int n)
	{
		const char* w[] = {"", "A", "A1", "A01", "1B", "Image", "A: .-\xe9", "Geometry2", "A.1", "_1"};
		return fm::string(w[n]);
	}
	J none() { return J::arr(); }
	J op(const Args& a) override
	{
		const std::string& op = a.op;
		E* x = a.has("i") ? &e[a.i("i") - 1] : NULL;
		if (op == "Make")
		{
			x->k = a.i("k");
			if (x->k == 1) x->e = doc->GetGeometryLibrary()->AddEntity();
			else if (x->k == 2) x->e = doc->GetImageLibrary()->AddEntity();
			else if (x->k == 3) x->e = doc->GetVisualSceneLibrary()->AddEntity();
			else x->e = doc->GetMaterialLibrary()->AddEntity();
			return none();
		}
		if (op == "Release") { x->e->Release(); *x = E(); return none(); }
		if (op == "GetId") { fm::string s = x->e->GetDaeId(); note(s); x->know(s); return JS(s); }
		if (op == "SetId")
		{
			fm::string w = wanted(a.i("n")), fin = w;
			x->e->SetDaeId(fin); note(fin); x->know(fin);
			if (!(fin == x->e->GetDaeId())) return "the id handed back is not the id of the object";
			return JS(fin);
		}
		if (op == "RemoveId") { x->e->RemoveDaeId(); x->known = false; return none(); }
		if (op == "Clone") { E& y = e[a.i("j") - 1]; x->e->Clone(y.e, false); x->known = y.known = false; return none(); }
		if (op == "FindIn" || op == "FindAny")
		{
			fm::string w = S(a.l("w")); note(w);
			FCDEntity* f = NULL;
			if (op == "FindAny") f = doc->FindEntity(w);
			else switch (a.i("k"))
			{
			case 1: f = doc->FindGeometry(w); break;
			case 2: f = doc->FindImage(w); break;
			case 3: f = doc->FindVisualScene(w); break;
			default: f = doc->FindMaterial(w); break;
			}
			J j = J::arr(); if (f == NULL) j.add(0);
			else { int r = -1; for (size_t i = 0; i < e.size(); ++i) if (e[i].e == f) r = (int) i + 1; j.add(r); }
			return j;
		}
		if (op == "IsTaken") { fm::string w = S(a.l("w")); note(w); J j = J::arr(); j.add(doc->GetUniqueNameMap()->contains(w) ? 1 : 0); return j; }
		bad(op);
	}
	J obs() override
	{
		// an id that was handed out must still be the id of the entity
		J bad = J::arr();
		for (size_t i = 0; i < e.size(); ++i) if (e[i].known && e[i].id != STD(e[i].e->GetDaeId())) bad.add((int) i + 1);
		J n = names(*doc->GetUniqueNameMap(), seen);
		if (!bad.a.empty()) { J o = J::obj(); o.set("names", n).set("id changed", bad); return o; }
		return n;
	}
	J finish() override { SAFE_RELEASE(doc); return true; }
};
}
VT_MODEL("uniquemap", UMap)
VT_MODEL("ids", Ids)
