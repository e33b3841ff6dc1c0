#include "vt.h"
#include "vt_io.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDEntityReference.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDTransform.h"
using namespace vt;

namespace {
struct Transforms : public Model
{
	FCDocument* doc = NULL;
	std::vector<FCDSceneNode*> n;
	FCDSceneNode* root() { return (FCDSceneNode*) doc->GetVisualSceneInstance(); }
	static fm::string name(int i) { return fm::string(("n" + std::to_string(i)).c_str()); }
	void reset(const Args& a) override
	{
		FCollada::Initialize();
		doc = FCollada::NewTopDocument();
		doc->AddVisualScene();
		for (int i = 0; i < a.i("NNode"); ++i)
		{
			n.push_back(root()->AddChildNode());
			n.back()->SetDaeId(name(i));
			n.back()->SetName(TO_FSTRING(name(i)));
		}
	}
	static FCDTransform::Type type(const std::string& k)
	{
		if (k == "translate") return FCDTransform::TRANSLATION;
		if (k == "rotate") return FCDTransform::ROTATION;
		if (k == "scale") return FCDTransform::SCALE;
		if (k == "skew") return FCDTransform::SKEW;
		if (k == "matrix") return FCDTransform::MATRIX;
		if (k == "lookat") return FCDTransform::LOOKAT;
		bad(k);
	}
	static void set(FCDTransform* t, const std::vector<int>& v)
	{
		auto f = [&](int i) { return FMVector3((float) v[i], (float) v[i + 1], (float) v[i + 2]); };
		switch (t->GetType())
		{
		case FCDTransform::TRANSLATION: ((FCDTTranslation*) t)->SetTranslation(f(0)); break;
		case FCDTransform::SCALE: ((FCDTScale*) t)->SetScale(f(0)); break;
		case FCDTransform::ROTATION: ((FCDTRotation*) t)->SetRotation(f(0), (float) v[3]); break;
		case FCDTransform::SKEW: ((FCDTSkew*) t)->SetSkew(FMSkew(f(0), f(3), (float) v[6])); break;
		case FCDTransform::LOOKAT: ((FCDTLookAt*) t)->SetLookAt(FMLookAt(f(0), f(3), f(6))); break;
		case FCDTransform::MATRIX: { FMMatrix44 m; for (int i = 0; i < 16; ++i) m[i % 4][i / 4] = (float) v[i]; ((FCDTMatrix*) t)->SetTransform(m); break; }
		default: bad("type");
		}
	}
	static void put(J& l, const FMVector3& v) { l.add(q(v.x)).add(q(v.y)).add(q(v.z)); }
	static J get(FCDTransform* t)
	{
		J v = J::arr(); const char* k = "?";
		switch (t->GetType())
		{
		case FCDTransform::TRANSLATION: k = "translate"; put(v, ((FCDTTranslation*) t)->GetTranslation()); break;
		case FCDTransform::SCALE: k = "scale"; put(v, ((FCDTScale*) t)->GetScale()); break;
		case FCDTransform::ROTATION: k = "rotate"; put(v, ((FCDTRotation*) t)->GetAxis()); v.add(q(((FCDTRotation*) t)->GetAngle())); break;
		case FCDTransform::SKEW: { k = "skew"; FMSkew& s = *((FCDTSkew*) t)->GetSkew(); put(v, s.rotateAxis); put(v, s.aroundAxis); v.add(q(s.angle)); break; }
		case FCDTransform::LOOKAT: { k = "lookat"; FMLookAt& s = *((FCDTLookAt*) t)->GetLookAt(); put(v, s.position); put(v, s.target); put(v, s.up); break; }
		case FCDTransform::MATRIX: k = "matrix"; v = flat(((FCDTMatrix*) t)->GetTransform()); break;
		default: break;
		}
		return J::obj().set("k", k).set("v", v).set("s", std::string(t->GetSubId()->c_str()));
	}
	static J flat(const FMMatrix44& m) { J l = J::arr(); for (int i = 0; i < 16; ++i) l.add(q(m[i % 4][i / 4])); return l; }
	static J vec(const FMVector3& v) { J l = J::arr(); put(l, v); return l; }
	FCDTransform* at(int k, int i) { return n[k - 1]->GetTransform(i - 1); }
	J op(const Args& a) override
	{
		const std::string& op = a.op;
		FCDSceneNode* x = a.has("n") ? n[a.i("n") - 1] : NULL;
		if (op == "Add")
		{
			FCDTransform* t = x->AddTransform(type(a.s("k")), (size_t) a.i("i") > x->GetTransformCount() ? (size_t) -1 : (size_t) a.i("i") - 1);
			set(t, a.l("v"));
			return flat(t->ToMatrix());
		}
		if (op == "AddPlain") { x->AddTransform(type(a.s("k"))); return 0; }
		if (op == "Set") { set(at(a.i("n"), a.i("i")), a.l("v")); return 0; }
		if (op == "Copy") { at(a.i("n"), a.i("i"))->Clone(at(a.i("m"), a.i("j"))); return 0; }
		if (op == "SetSub") { at(a.i("n"), a.i("i"))->SetSubId(a.s("s").c_str()); return 0; }
		if (op == "Remove") { at(a.i("n"), a.i("i"))->Release(); return 0; }
		if (op == "Attach")
		{
			bool ok = n[a.i("m") - 1]->AddChildNode(x);
			root()->RemoveChildNode(x);
			return ok ? 1 : 0;
		}
		if (op == "Detach") { FCDSceneNode* p = x->GetParent(0); root()->AddChildNode(x); p->RemoveChildNode(x); return 0; }
		if (op == "Inverse") return at(a.i("n"), a.i("i"))->IsInverse(at(a.i("m"), a.i("j")));
		if (op == "Point")
		{
			std::vector<int> p = a.l("p");
			FMVector3 v((float) p[0], (float) p[1], (float) p[2]);
			FMMatrix44 w = x->CalculateWorldTransform();
			return J::arr().add(vec(w.TransformCoordinate(v))).add(vec(w.TransformVector(v)));
		}
		if (op == "Clone") { FCDSceneNode* c = (FCDSceneNode*) x->Clone(NULL, false); J r = flat(c->CalculateLocalTransform()); bool same = c->GetTransformCount() == x->GetTransformCount(); c->Release(); return same ? r : J("transforms"); }
		if (op == "Orient")
		{
			FCDTRotation* r = (FCDTRotation*) at(a.i("n"), a.i("i"));
			FCDTRotation other(doc, NULL);
			other.SetOrientation(r->GetOrientation());
			return flat(other.ToMatrix());
		}
		if (op == "Again")
		{
			doc = saveload(doc);
			if (doc == NULL) { n.clear(); return "load"; }
			for (size_t i = 0; i < n.size(); ++i)
			{
				n[i] = (FCDSceneNode*) root()->FindDaeId(name((int) i));
				if (n[i] == NULL) bad("node lost");
			}
			return 0;
		}
		bad(op);
	}
	J obs() override
	{
		J t = J::arr(), pa = J::arr(), lo = J::arr(), wo = J::arr();
		for (FCDSceneNode* x : n)
		{
			J l = J::arr();
			for (size_t k = 0; k < x->GetTransformCount(); ++k) { if (x->GetTransform(k)->GetParent() != x) l.add("parent"); l.add(get(x->GetTransform(k))); }
			t.add(l);
			int p = -1;
			if (x->GetParentCount() == 1) { if (x->GetParent(0) == root()) p = 0; else for (size_t i = 0; i < n.size(); ++i) if (x->GetParent(0) == n[i]) p = (int) i + 1; }
			pa.add(p); lo.add(flat(x->CalculateLocalTransform())); wo.add(flat(x->CalculateWorldTransform()));
		}
		return J::obj().set("t", t).set("pa", pa).set("local", lo).set("world", wo);
	}
	J finish() override { SAFE_RELEASE(doc); FCollada::Release(); return true; }
};
}
VT_MODEL("transforms", Transforms)
