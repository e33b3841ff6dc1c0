#include "vt.h"
#include "vt_io.h"
#include "FCDocument/FCDCamera.h"
#include "FCDocument/FCDController.h"
#include "FCDocument/FCDControllerInstance.h"
#include "FCDocument/FCDEmitter.h"
#include "FCDocument/FCDEntityInstance.h"
#include "FCDocument/FCDEntityReference.h"
#include "FCDocument/FCDForceField.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDLight.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDSkinController.h"
#include "FCDocument/FCDTransform.h"
#include <algorithm>
using namespace vt;

namespace {
const char* TABLE[] = {"", "plain", "two words:1", "two_words_1", "<a href=\"x\">&amp; 'b'</a>", "\xC3\xA9\xE6\xBC\xA2 \xC2\xB5", "line one\nline\ttwo", "50% off %41"};
int index(const fstring& s) { for (int i = 0; i < (int) (sizeof(TABLE) / sizeof(*TABLE)); ++i) if (s == TABLE[i]) return i; return -1; }
// kinds of instances: 1 geometry, 2 camera, 3 light, 4 controller, 5 emitter, 6 force field
const char* IDS[] = {"", "geometry", "camera", "light", "controller", "emitter", "force"};

struct DocScene : public Model
{
	FCDocument* doc = NULL;
	std::vector<FCDSceneNode*> n;
	static fm::string id(int i) { return fm::string(("n" + std::to_string(i)).c_str()); }
	FCDSceneNode*& at(int i) { return n[i - 1]; }
	int find(const FCDObject* e) { if (e == NULL) return 0; for (size_t i = 0; i < n.size(); ++i) if ((FCDObject*) n[i] == e) return (int) i + 1; return -1; }
	void put(int i, FCDSceneNode* s)
	{
		at(i) = s; s->SetDaeId(id(i));
		((FCDTTranslation*) s->AddTransform(FCDTransform::TRANSLATION))->SetTranslation(FMVector3((float) (1 << i), 0, 0));
	}
	FCDEntity* target(int k) { return doc->FindEntity(IDS[k]); }
	void reset(const Args& a) override
	{
		FCollada::Initialize();
		doc = FCollada::NewTopDocument();
		n.assign(a.i("NNode"), (FCDSceneNode*) NULL);
		FCDGeometry* g = doc->GetGeometryLibrary()->AddEntity(); g->SetDaeId(IDS[1]); g->CreateMesh();
		doc->GetCameraLibrary()->AddEntity()->SetDaeId(IDS[2]);
		doc->GetLightLibrary()->AddEntity()->SetDaeId(IDS[3]);
		FCDController* c = doc->GetControllerLibrary()->AddEntity(); c->SetDaeId(IDS[4]); c->CreateSkinController()->SetTarget(g);
		doc->GetEmitterLibrary()->AddEntity()->SetDaeId(IDS[5]);
		doc->GetForceFieldLibrary()->AddEntity()->SetDaeId(IDS[6]);
	}
	J op(const Args& a) override
	{
		const std::string& op = a.op;
		if (op == "Root") { put(a.i("i"), doc->GetVisualSceneLibrary()->AddEntity()); return 0; }
		if (op == "Child") { put(a.i("i"), at(a.i("p"))->AddChildNode()); return 0; }
		if (op == "Link") return at(a.i("p"))->AddChildNode(at(a.i("c"))) ? 1 : 0;
		if (op == "Unlink") { at(a.i("p"))->RemoveChildNode(at(a.i("c"))); return 0; }
		if (op == "Release") { SAFE_RELEASE(at(a.i("i"))); return 0; }
		if (op == "Main") { doc->GetVisualSceneInstanceReference()->SetEntity(at(a.i("i"))); return 0; }
		if (op == "Flag")
		{
			FCDSceneNode* s = at(a.i("i")); const std::string& f = a.s("f"); int v = a.i("v");
			if (f == "joint") s->SetJointFlag(v != 0);
			else if (f == "hidden") s->SetVisibility(v == 0);
			else if (f == "sub") s->SetSubId(v == 0 ? fm::string() : fm::string(("s" + std::to_string(v)).c_str()));
			else if (f == "name") s->SetName(TABLE[v]);
			else if (f == "note") s->SetNote(TABLE[v]);
			else bad(f);
			return 0;
		}
		if (op == "Inst")
		{
			FCDEntityInstance* x = at(a.i("i"))->AddInstance(target(a.i("k")));
			if (a.i("s") != 0) x->SetWantedSubId("inst");
			if (a.i("n") != 0) x->SetName("instance");
			return 0;
		}
		if (op == "DelInst") { at(a.i("i"))->GetInstance(a.i("x") - 1)->Release(); return 0; }
		if (op == "Save") return twice(doc);
		if (op == "Again")
		{
			doc = saveload(doc);
			if (doc == NULL) { n.assign(n.size(), (FCDSceneNode*) NULL); return "load"; }
			for (size_t i = 0; i < n.size(); ++i) if (n[i] != NULL) n[i] = doc->FindSceneNode(id((int) i + 1));
			return 0;
		}
		bad(op);
	}
	J instances(FCDSceneNode* s)
	{
		J r = J::arr();
		for (size_t k = 0; k < s->GetInstanceCount(); ++k)
		{
			FCDEntityInstance* x = s->GetInstance(k);
			int kind = -1; for (int i = 1; i <= 6; ++i) if (x->GetEntity() != NULL && x->GetEntity() == target(i) && x->GetEntity()->GetType() == x->GetEntityType()) kind = i;
			r.add(J::obj().set("k", kind).set("s", x->GetWantedSubId().empty() ? 0 : x->GetWantedSubId() == "inst" ? 1 : -1).set("n", x->GetName().empty() ? 0 : x->GetName() == "instance" ? 4 : -1));
		}
		return r;
	}
	J node(FCDSceneNode* s)
	{
		std::vector<int> own, shared, pa;
		for (size_t k = 0; k < s->GetChildrenCount(); ++k) (s->GetChild(k)->GetParent() == s ? own : shared).push_back(find(s->GetChild(k)));
		for (size_t k = 0; k < s->GetParentCount(); ++k) pa.push_back(find(s->GetParent(k)));
		int first = pa.empty() ? 0 : pa[0];
		std::sort(shared.begin(), shared.end()); std::sort(pa.begin(), pa.end());
		J f = J::obj();
		fm::string sub = s->GetSubId();
		f.set("joint", s->GetJointFlag() ? 1 : 0).set("hidden", s->IsVisible() ? 0 : 1).set("sub", sub.empty() ? 0 : sub.size() == 2 && sub[0] == 's' ? sub[1] - '0' : -1);
		f.set("name", !s->GetName().empty() && s->GetName() == s->GetDaeId().c_str() ? 9 : index(s->GetName())).set("note", index(s->GetNote()));
		FMMatrix44 m = s->CalculateWorldTransform();
		return J::obj().set("own", J::list(own)).set("shared", J::list(shared)).set("first", first).set("pa", J::list(pa)).set("f", f).set("inst", instances(s)).set("w", q(m.GetTranslation().x));
	}
	J obs() override
	{
		J l = J::arr(), roots = J::arr();
		for (FCDSceneNode* s : n) l.add(s == NULL ? J::obj().set("own", J::arr()) : node(s));
		if (doc != NULL) for (size_t k = 0; k < doc->GetVisualSceneLibrary()->GetEntityCount(); ++k) roots.add(find(doc->GetVisualSceneLibrary()->GetEntity(k)));
		return J::obj().set("n", l).set("roots", roots).set("main", doc == NULL ? -1 : find(doc->GetVisualSceneInstance()));
	}
	J finish() override { SAFE_RELEASE(doc); FCollada::Release(); return true; }
};
}
VT_MODEL("docscene", DocScene)
