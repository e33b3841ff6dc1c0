#include "nest.h"
#include "FCDocument/FCDController.h"
#include "FCDocument/FCDControllerInstance.h"
#include "FCDocument/FCDEntityReference.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometryPolygons.h"
#include "FCDocument/FCDGeometrySource.h"
#include "FCDocument/FCDGeometrySpline.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDMorphController.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDSkinController.h"
using namespace nest;

namespace {
const char* JOINTS[] = {"", "a", "j_1", "bone_2"};
int joint(const fm::string& s) { for (int i = 0; i < 4; ++i) if (s == JOINTS[i]) return i; return -1; }
// matrices of the specification: 0 is the identity
FMMatrix44 matrix(int n) { FMMatrix44 m = FMMatrix44::Identity; if (n != 0) for (int i = 0; i < 16; ++i) m[i / 4][i % 4] = n == 1 ? i / 4.0f - 1 : i * i * (i % 2 ? -0.5f : 0.25f); return m; }
int matrix(const FMMatrix44& m) { for (int n = 0; n < 3; ++n) { FMMatrix44 x = matrix(n); bool same = true; for (int i = 0; i < 16; ++i) same = same && fabs(x[i / 4][i % 4] - m[i / 4][i % 4]) < 1e-4f; if (same) return n; } return -1; }
struct Controllers : public Nest
{
	template <class E> static void entities(Kind& k, FCDLibrary<E>* (*lib)(FCDObject*))
	{
		k.list["doc"] = [lib](FCDObject* d) { FCDLibrary<E>* l = lib(d); return listed(l->GetEntityCount(), [l](size_t i) { return l->GetEntity(i); }); };
		k.make["doc"] = [lib](FCDObject* d) { return (FCDObject*) lib(d)->AddEntity(); };
		k.fields["name"] = Field{[](FCDObject* o, const L& v) { ((FCDEntity*) o)->SetName(TEXTS[v[0]]); }, [](FCDObject* o) { FCDEntity* e = (FCDEntity*) o; return L{!e->GetName().empty() && e->GetName() == e->GetDaeId().c_str() ? 9 : text(e->GetName().c_str())}; }};
	}
	// 0 : two vertices, 1 : three vertices, 2 : a spline with two control vertices
	static void shape(FCDGeometry* g, int v)
	{
		if (v == 2)
		{
			FCDGeometrySpline* gs = g->CreateSpline(); gs->SetType(FUDaeSplineType::LINEAR); FCDSpline* s = gs->AddSpline();
			if (s == NULL) bad("spline");
			((FCDLinearSpline*) s)->AddCV(FMVector3(0, 1, 2)); ((FCDLinearSpline*) s)->AddCV(FMVector3(3, 4, 5));
			return;
		}
		FCDGeometryMesh* m = g->CreateMesh();
		FloatList l; for (int i = 0; i < 3 * (v + 2); ++i) l.push_back((float) i);
		m->AddVertexSource(FUDaeGeometryInput::POSITION)->SetData(l, 3);
	}
	void define() override
	{
		Kind& g = kind("geo");
		entities<FCDGeometry>(g, [](FCDObject* d) { return ((FCDocument*) d)->GetGeometryLibrary(); });
		g.make["doc"] = [](FCDObject* d) { FCDGeometry* g = ((FCDocument*) d)->GetGeometryLibrary()->AddEntity(); shape(g, 0); return (FCDObject*) g; };
		g.fields["shape"] = Field{[](FCDObject* o, const L& v) { shape((FCDGeometry*) o, v[0]); }, [](FCDObject* o) {
			FCDGeometry* g = (FCDGeometry*) o;
			if (g->IsSpline()) return L{g->GetSpline()->GetTotalCVCount() == 2 ? 2 : -1};
			if (!g->IsMesh() || g->GetMesh()->GetPositionSource() == NULL) return L{-2};
			return L{(int) g->GetMesh()->GetPositionSource()->GetValueCount() - 2}; }};
		Kind& c = kind("controller");
		entities<FCDController>(c, [](FCDObject* d) { return ((FCDocument*) d)->GetControllerLibrary(); });
#define CTRL ((FCDController*) o)
#define SKIN ((FCDSkinController*) o)
#define MORPH ((FCDMorphController*) o)
#define TARGET ((FCDMorphTarget*) o)
#define INST ((FCDControllerInstance*) o)
		Kind& s = kind("skin");
		s.list["controller"] = [](FCDObject* o) { return only(CTRL->IsSkin() ? CTRL->GetSkinController() : NULL); };
		s.make["controller"] = [](FCDObject* o) { return (FCDObject*) CTRL->CreateSkinController(); };
		s.fields["bind"] = Field{[](FCDObject* o, const L& v) { SKIN->SetBindShapeTransform(matrix(v[0])); }, [](FCDObject* o) { return L{matrix(SKIN->GetBindShapeTransform())}; }};
		s.fields["joints"] = Field{[](FCDObject* o, const L& v) { SKIN->SetJointCount(0); for (size_t i = 0; i < v.size(); i += 2) SKIN->AddJoint(JOINTS[v[i]], matrix(v[i + 1])); },
			[](FCDObject* o) { L r; for (size_t i = 0; i < SKIN->GetJointCount(); ++i) { r.push_back(joint(SKIN->GetJoint(i)->GetId())); r.push_back(matrix(SKIN->GetJoint(i)->GetBindPoseInverse())); } return r; }};
		// the number of joints of each vertex, and their indices and weights in 12ths
		s.fields["infl"] = Field{[](FCDObject* o, const L& v) {
				SKIN->SetInfluenceCount(0);
				for (size_t i = 0; i < v.size(); )
				{
					SKIN->SetInfluenceCount(SKIN->GetInfluenceCount() + 1);
					FCDSkinControllerVertex* x = SKIN->GetVertexInfluence(SKIN->GetInfluenceCount() - 1);
					for (int n = v[i++]; n > 0; --n, i += 2) x->AddPair(v[i], v[i + 1] / 12.0f);
				}
			}, [](FCDObject* o) {
				L r;
				for (size_t i = 0; i < SKIN->GetInfluenceCount(); ++i)
				{
					FCDSkinControllerVertex* x = SKIN->GetVertexInfluence(i);
					r.push_back((int) x->GetPairCount());
					for (size_t j = 0; j < x->GetPairCount(); ++j) { r.push_back(x->GetPair(j)->jointIndex); r.push_back(q(x->GetPair(j)->weight, 12)); }
				}
				return r;
			}};
		s.refs["target"] = Reference{[](FCDObject* o, const Objects& to) { SKIN->SetTarget(to.empty() ? NULL : (FCDEntity*) to[0]); }, [](FCDObject* o) { return only(SKIN->GetTarget()); }};
		Kind& m = kind("morph");
		m.list["controller"] = [](FCDObject* o) { return only(CTRL->IsMorph() ? CTRL->GetMorphController() : NULL); };
		m.make["controller"] = [](FCDObject* o) { return (FCDObject*) CTRL->CreateMorphController(); };
		m.fields["method"] = Field{[](FCDObject* o, const L& v) { MORPH->SetMethod((FUDaeMorphMethod::Method) v[0]); }, [](FCDObject* o) { return L{(int) MORPH->GetMethod()}; }};
		m.refs["base"] = Reference{[](FCDObject* o, const Objects& to) { MORPH->SetBaseTarget(to.empty() ? NULL : (FCDEntity*) to[0]); }, [](FCDObject* o) { return only(MORPH->GetBaseTarget()); }};
		Kind& t = kind("target");
		t.list["morph"] = [](FCDObject* o) { return listed(MORPH->GetTargetCount(), [o](size_t i) { return MORPH->GetTarget(i); }); };
		t.fields["w"] = Field{[](FCDObject* o, const L& v) { TARGET->SetWeight(v[0] / 4.0f); }, [](FCDObject* o) { return L{q(TARGET->GetWeight(), 4)}; }};
		t.refs["geom"] = Reference{[](FCDObject* o, const Objects& to) { TARGET->SetGeometry(to.empty() ? NULL : (FCDGeometry*) to[0]); }, [](FCDObject* o) { return only(TARGET->GetGeometry()); }};
		Kind& n = kind("node");
		n.list["doc"] = [](FCDObject* d) { FCDSceneNode* s = ((FCDocument*) d)->GetVisualSceneInstance(); return s == NULL ? Objects() : listed(s->GetChildrenCount(), [s](size_t i) { return s->GetChild(i); }); };
		n.make["doc"] = [](FCDObject* d) { FCDocument* doc = (FCDocument*) d; if (doc->GetVisualSceneInstance() == NULL) doc->GetVisualSceneInstanceReference()->SetEntity(doc->GetVisualSceneLibrary()->AddEntity()); return (FCDObject*) doc->GetVisualSceneInstance()->AddChildNode(); };
#define NODE ((FCDSceneNode*) o)
		n.list["node"] = [](FCDObject* o) { return listed(NODE->GetChildrenCount(), [o](size_t i) { return NODE->GetChild(i); }); };
		n.make["node"] = [](FCDObject* o) { return (FCDObject*) NODE->AddChildNode(); };
		n.fields["joint"] = Field{[](FCDObject* o, const L& v) { NODE->SetJointFlag(v[0] != 0); }, [](FCDObject* o) { return L{NODE->GetJointFlag() ? 1 : 0}; }};
		n.fields["sid"] = Field{[](FCDObject* o, const L& v) { NODE->SetSubId(JOINTS[v[0]]); }, [](FCDObject* o) { return L{joint(NODE->GetSubId())}; }};
		Kind& i = kind("inst");
		i.list["node"] = [](FCDObject* o) { return listed(NODE->GetInstanceCount(), [o](size_t i) { return NODE->GetInstance(i); }); };
		i.make["node"] = [](FCDObject* o) { return (FCDObject*) NODE->AddInstance(FCDEntity::CONTROLLER); };
		i.fields["sub"] = Field{NULL, [](FCDObject* o) { return L{text(INST->GetWantedSubId().c_str())}; }};
		i.refs["of"] = Reference{[](FCDObject* o, const Objects& to) { INST->SetEntity(to.empty() ? NULL : (FCDEntity*) to[0]); }, [](FCDObject* o) { return only(INST->GetEntity()); }};
		i.refs["joints"] = Reference{[](FCDObject* o, const Objects& to) { while (INST->GetJointCount() != 0) INST->RemoveJoint(INST->GetJointCount() - 1); for (FCDObject* j : to) INST->AddJoint((FCDSceneNode*) j); },
			[](FCDObject* o) { return listed(INST->GetJointCount(), [o](size_t i) { return INST->GetJoint(i); }); }};
		i.refs["roots"] = Reference{NULL, [](FCDObject* o) { Objects r; for (FUUri& u : INST->GetSkeletonRoots()) { FCDObject* x = INST->GetDocument()->FindSceneNode(TO_STRING(u.GetFragment()).c_str()); if (x != NULL) r.push_back(x); } return r; }};
	}
	J other(const Args& a) override
	{
		std::vector<Found> f = all();
		FCDObject* o = f.at(a.i("i") - 1).o;
		if (a.op == "Target") return MORPH->AddTarget(a.i("j") == 0 ? NULL : (FCDGeometry*) f.at(a.i("j") - 1).o, a.i("w") / 4.0f) != NULL ? 1 : 0;
		if (a.op == "Reduce") { SKIN->ReduceInfluences((uint32) a.i("n"), (a.i("w") - 0.5f) / 12.0f); return 0; }
		if (a.op == "Roots") { INST->CalculateRootIds(); return 0; }
		if (a.op == "Base") // the geometry at the end of a chain of controllers, and the last controller of the chain
		{
			auto at = [&](const FCDObject* x) { for (size_t i = 0; i < f.size(); ++i) if (f[i].o == x) return (int) i + 1; return x == NULL ? 0 : -1; };
			return J::arr().add(at(CTRL->GetBaseGeometry())).add(at(CTRL->GetBaseGeometryController()));
		}
		bad(a.op);
	}
};
}
VT_MODEL("controllers", Controllers)
