#include "vt.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDTransform.h"
#include "FUtils/FUTracker.h"
using namespace vt;

namespace {
struct Scene : public Model
{
	std::vector<FCDocument*> docs;
	std::vector<FUTrackedPtr<FCDSceneNode>*> n;   // tracked: a released node becomes NULL
	std::vector<FCDSceneNode*> raw;
	FCDSceneNode* at(int i) { return *n[i - 1]; }
	int find(const FCDEntity* e) { if (e == NULL) return 0; for (size_t i = 0; i < n.size(); ++i) if ((FCDSceneNode*) *n[i] == e) return (int) i + 1; return -1; }
	void put(int i, FCDSceneNode* s) { *n[i - 1] = s; setup(i, s); }
	void setup(int i, FCDSceneNode* s)
	{
		while (s->GetTransformCount() > 0) s->GetTransform(0)->Release();
		FCDTTranslation* t = (FCDTTranslation*) s->AddTransform(FCDTransform::TRANSLATION);
		t->SetTranslation(FMVector3((float) (1 << i), 0, 0));
	}
	int freeSlot() { for (size_t i = 0; i < n.size(); ++i) if ((FCDSceneNode*) *n[i] == NULL) return (int) i + 1; bad("no free slot"); }
	void adopt(FCDSceneNode* s) { put(freeSlot(), s); for (size_t k = 0; k < s->GetChildrenCount(); ++k) adopt(s->GetChild(k)); }
	static const char* wanted(int k) { const char* w[] = {"", "a", "a_0", "b:1"}; return w[k > 3 ? 0 : k]; }
	void reset(const Args& a) override
	{
		for (int i = 0; i < a.i("NDoc"); ++i) docs.push_back(FCollada::NewTopDocument());
		for (int i = 0; i < a.i("NNode"); ++i) n.push_back(new FUTrackedPtr<FCDSceneNode>());
	}
	J op(const Args& a) override
	{
		const std::string& op = a.op;
		if (op == "MakeRoot") { put(a.i("i"), docs[a.i("d") - 1]->GetVisualSceneLibrary()->AddEntity()); return 0; }
		if (op == "MakeChild") { put(a.i("i"), at(a.i("p"))->AddChildNode()); return 0; }
		if (op == "AddChild") return at(a.i("p"))->AddChildNode(at(a.i("c"))) ? 1 : 0;
		if (op == "RemoveChild") { at(a.i("p"))->RemoveChildNode(at(a.i("c"))); return 0; }
		if (op == "Release") { at(a.i("i"))->Release(); return 0; }
		if (op == "Clone")
		{
			FCDSceneNode* c = (FCDSceneNode*) at(a.i("i"))->Clone(NULL, a.b("deep"));
			int f = freeSlot(); adopt(c); return f;
		}
		if (op == "SetSub") { at(a.i("i"))->SetSubId(wanted(a.i("k"))); return 0; }
		if (op == "FindSub")
		{
			fm::string w = wanted(a.i("k")); if (w == "b:1") w = "b_1";
			return find(at(a.i("i"))->FindSubId(w));
		}
		if (op == "FindId") { FCDSceneNode* j = at(a.i("j")); const FCDEntity* f = at(a.i("i"))->FindDaeId(j->GetDaeId()); return f == NULL ? 0 : f == j ? 1 : -1; }
		if (op == "World") { FMMatrix44 m = at(a.i("i"))->CalculateWorldTransform(); return q(m.GetTranslation().x); }
		bad(op);
	}
	J obs() override
	{
		J o = J::obj(), l = J::arr(), libs = J::arr();
		for (auto* p : n)
		{
			FCDSceneNode* s = *p; J e = J::arr();
			if (s != NULL)
			{
				int d = 0; for (size_t k = 0; k < docs.size(); ++k) if (docs[k] == s->GetDocument()) d = (int) k + 1;
				J ch = J::arr(), pa = J::arr(), sub = J::arr();
				for (size_t k = 0; k < s->GetChildrenCount(); ++k) { ch.add(find(s->GetChild(k))); if (s->GetChildren()[k] != s->GetChild(k)) ch.add("children"); }
				for (size_t k = 0; k < s->GetParentCount(); ++k) { pa.add(find(s->GetParent(k))); if (s->GetParents()[k] != s->GetParent(k)) pa.add("parents"); }
				const fm::string& id = s->GetSubId(); for (size_t k = 0; k < id.length(); ++k) sub.add((int) id[k]);
				e.add(d).add(ch).add(pa).add(sub);
			}
			l.add(e);
		}
		for (auto* d : docs) { J q = J::arr(); FCDVisualSceneNodeLibrary* v = d->GetVisualSceneLibrary(); for (size_t k = 0; k < v->GetEntityCount(); ++k) q.add(find(v->GetEntity(k))); libs.add(q); }
		o.set("n", l).set("lib", libs);
		return o;
	}
	J finish() override
	{
		// nodes outside of the libraries first: nobody else releases them
		for (auto* p : n) { FCDSceneNode* s = *p; if (s != NULL && s->GetParentCount() == 0) s->Release(); }
		int left = 0;
		for (auto* p : n) { if ((FCDSceneNode*) *p != NULL) ++left; }
		for (auto*& d : docs) SAFE_RELEASE(d);
		for (auto* p : n) delete p;
		if (left) return "nodes left: " + std::to_string(left);
		return true;
	}
};
}
VT_MODEL("scene", Scene)
