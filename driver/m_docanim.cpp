#include "vt.h"
#include "vt_io.h"
#include "FCDocument/FCDAnimated.h"
#include "FCDocument/FCDAnimation.h"
#include "FCDocument/FCDAnimationChannel.h"
#include "FCDocument/FCDAnimationClip.h"
#include "FCDocument/FCDAnimationCurve.h"
#include "FCDocument/FCDAnimationKey.h"
#include "FCDocument/FCDCamera.h"
#include "FCDocument/FCDController.h"
#include "FCDocument/FCDEffect.h"
#include "FCDocument/FCDEffectParameter.h"
#include "FCDocument/FCDEffectStandard.h"
#include "FCDocument/FCDEntityReference.h"
#include "FCDocument/FCDExtra.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometryPolygons.h"
#include "FCDocument/FCDGeometryPolygonsInput.h"
#include "FCDocument/FCDGeometrySource.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDLight.h"
#include "FCDocument/FCDMorphController.h"
#include "FCDocument/FCDParameterAnimatable.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDTransform.h"
#include "FUtils/FUStringConversion.h"
using namespace vt;

namespace {
FUDaeInterpolation::Interpolation kind(int k)
{
	switch (k) { case 1: return FUDaeInterpolation::STEP; case 2: return FUDaeInterpolation::LINEAR; case 3: return FUDaeInterpolation::BEZIER; default: return FUDaeInterpolation::TCB; }
}
int kindOf(uint32 k) { for (int i = 1; i <= 4; ++i) if (kind(i) == (FUDaeInterpolation::Interpolation) k) return i; return -1; }
FUDaeInfinity::Infinity inf(int k) { FUDaeInfinity::Infinity t[] = {FUDaeInfinity::CONSTANT, FUDaeInfinity::LINEAR, FUDaeInfinity::CYCLE, FUDaeInfinity::CYCLE_RELATIVE, FUDaeInfinity::OSCILLATE}; return t[k]; }
int infOf(FUDaeInfinity::Infinity k) { for (int i = 0; i < 5; ++i) if (inf(i) == k) return i; return -1; }
bool near(float a, float b) { return a - b < 0.01f && b - a < 0.01f; }

// targets: 1 translation, 2 scale, 3 rotation, 4 matrix, 5 look-at, 6 skew, 7 light color, 8 light intensity, 9 spot angle,
// 10 camera fov, 11 camera near plane, 12 diffuse color, 13 shininess, 14/15 morph weights, 16 a coordinate of a vertex,
// 17 attenuation of a directional light, 18 vector parameter, 19 number parameter, 20 extra data, 21 visibility, 22 outer angle of a spot light
struct DocAnim : public Model
{
	FCDocument* doc = NULL;
	std::vector<int> kinds, dims;
	std::vector<std::vector<float>> off; // what is subtracted from the values, for the skews
	std::vector<int> par;
	int nclip = 0;
	std::map<std::string, FCDAnimationChannel*> channels;
	static fm::string name(const char* p, int i) { return fm::string((p + std::to_string(i)).c_str()); }

	FCDTransform* transform(int k)
	{
		FCDSceneNode* n = doc->FindSceneNode("node");
		static const FCDTransform::Type t[] = {FCDTransform::TRANSLATION, FCDTransform::SCALE, FCDTransform::ROTATION, FCDTransform::MATRIX, FCDTransform::LOOKAT, FCDTransform::SKEW};
		for (size_t i = 0; i < n->GetTransformCount(); ++i) if (n->GetTransform(i)->GetType() == t[k - 1]) return n->GetTransform(i);
		return NULL;
	}
	template <class P> static FCDAnimated* of(P& p, bool make) { return make || p.IsAnimated() ? p.GetAnimated() : NULL; }
	FCDEffectStandard* effect() { return (FCDEffectStandard*) doc->FindEffect("effect")->FindProfile(FUDaeProfileType::COMMON); }
	FCDEffectParameter* param(const char* ref) { FCDEffectStandard* e = effect(); for (size_t i = 0; i < e->GetEffectParameterCount(); ++i) if (e->GetEffectParameter(i)->GetReference() == ref) return e->GetEffectParameter(i); return NULL; }
	FCDENode* node()
	{
		FCDETechnique* t = doc->FindLight("point")->GetExtra()->GetDefaultType()->FindTechnique("TEST");
		return t == NULL ? NULL : t->FindParameter("number");
	}
	FCDGeometrySource* source() { return doc->FindGeometry("geometry")->GetMesh()->GetSource(0); }
	FCDMorphTarget* weight(int i) { return doc->FindController("controller")->GetMorphController()->GetTarget(i); }
	FCDAnimated* animated(int k, bool make)
	{
		switch (k)
		{
		case 1: return of(((FCDTTranslation*) transform(k))->GetTranslation(), make);
		case 2: return of(((FCDTScale*) transform(k))->GetScale(), make);
		case 3: return of(((FCDTRotation*) transform(k))->GetAngleAxis(), make);
		case 4: return of(((FCDTMatrix*) transform(k))->GetTransform(), make);
		case 5: return of(((FCDTLookAt*) transform(k))->GetLookAt(), make);
		case 6: return of(((FCDTSkew*) transform(k))->GetSkew(), make);
		case 7: return of(doc->FindLight("point")->GetColor(), make);
		case 8: return of(doc->FindLight("point")->GetIntensity(), make);
		case 9: return of(doc->FindLight("spot")->GetFallOffAngle(), make);
		case 10: return of(doc->FindCamera("camera")->GetFovY(), make);
		case 11: return of(doc->FindCamera("camera")->GetNearZ(), make);
		case 12: return of(effect()->GetDiffuseColorParam()->GetValue(), make);
		case 13: return of(effect()->GetShininessParam()->GetValue(), make);
		case 14: case 15: return of(weight(k - 14)->GetWeight(), make);
		case 16: { FCDParameterListAnimatableFloat& l = source()->GetSourceData(); return make || l.IsAnimated(4) ? l.GetAnimated(4) : NULL; }
		case 17: return of(doc->FindLight("sun")->GetLinearAttenuationFactor(), make);
		case 18: return of(((FCDEffectParameterFloat3*) param("vector"))->GetValue(), make);
		case 19: return of(((FCDEffectParameterFloat*) param("number"))->GetValue(), make);
		case 20: return node()->GetAnimated();
		case 21: return of(doc->FindSceneNode("node")->GetVisibility(), make);
		case 22: return of(doc->FindLight("spot")->GetOuterAngle(), make);
		}
		bad("kind");
	}
	float value(int k, int d)
	{
		switch (k)
		{
		case 1: return (*((FCDTTranslation*) transform(k))->GetTranslation())[d];
		case 2: return (*((FCDTScale*) transform(k))->GetScale())[d];
		case 3: return d < 3 ? (*((FCDTRotation*) transform(k))->GetAngleAxis()).axis[d] : (*((FCDTRotation*) transform(k))->GetAngleAxis()).angle;
		case 4: return ((const FMMatrix44&) ((FCDTMatrix*) transform(k))->GetTransform())[d % 4][d / 4];
		case 5: { const FMLookAt& l = ((FCDTLookAt*) transform(k))->GetLookAt(); return d < 3 ? l.position[d] : d < 6 ? l.target[d - 3] : l.up[d - 6]; }
		case 6: { const FMSkew& l = ((FCDTSkew*) transform(k))->GetSkew(); return d < 3 ? l.rotateAxis[d] : d < 6 ? l.aroundAxis[d - 3] : l.angle; }
		case 7: return (*doc->FindLight("point")->GetColor())[d];
		case 8: return doc->FindLight("point")->GetIntensity();
		case 9: return doc->FindLight("spot")->GetFallOffAngle();
		case 10: return doc->FindCamera("camera")->GetFovY();
		case 11: return doc->FindCamera("camera")->GetNearZ();
		case 12: return ((const float*) &effect()->GetDiffuseColor())[d];
		case 13: return effect()->GetShininess();
		case 14: case 15: return weight(k - 14)->GetWeight();
		case 16: return source()->GetData()[4];
		case 17: return doc->FindLight("sun")->GetLinearAttenuationFactor();
		case 18: return (*((FCDEffectParameterFloat3*) param("vector"))->GetValue())[d];
		case 19: return ((FCDEffectParameterFloat*) param("number"))->GetValue();
		case 20: return FUStringConversion::ToFloat(node()->GetContent());
		case 21: return doc->FindSceneNode("node")->GetVisibility();
		case 22: return doc->FindLight("spot")->GetOuterAngle();
		}
		bad("kind");
	}
	void setValue(int k, int d, float v)
	{
		if (k == 20) node()->SetContent(FUStringConversion::ToString(v));
		else *animated(k, true)->GetValue(d) = v;
	}
	FCDAnimation* anim(int i) { return doc->FindAnimation(name("anim", i)); }
	FCDAnimationClip* clip(int j) { return doc->FindAnimationClip(name("clip", j)); }
	int animIndex(const FCDAnimation* a) { for (int i = 1; i <= (int) par.size(); ++i) if (a != NULL && a == anim(i)) return i; return -1; }

	void reset(const Args& a) override
	{
		FCollada::Initialize();
		doc = FCollada::NewTopDocument();
		kinds = a.l("Kinds"); dims = a.l("Dims"); par = a.l("Par"); nclip = a.i("NClip");
		channels.clear(); off.clear();
		FCDSceneNode* scene = doc->GetVisualSceneLibrary()->AddEntity(); scene->SetDaeId("scene");
		doc->GetVisualSceneInstanceReference()->SetEntity(scene);
		FCDSceneNode* n = scene->AddChildNode(); n->SetDaeId("node");
		FCDTransform::Type t[] = {FCDTransform::TRANSLATION, FCDTransform::SCALE, FCDTransform::ROTATION, FCDTransform::MATRIX, FCDTransform::LOOKAT, FCDTransform::SKEW};
		for (int i = 0; i < 6; ++i) n->AddTransform(t[i]);
		const char* lights[] = {"point", "spot", "sun"}; FCDLight::LightType types[] = {FCDLight::POINT, FCDLight::SPOT, FCDLight::DIRECTIONAL};
		for (int i = 0; i < 3; ++i) { FCDLight* l = doc->GetLightLibrary()->AddEntity(); l->SetDaeId(lights[i]); l->SetLightType(types[i]); }
		doc->FindLight("point")->GetExtra()->GetDefaultType()->AddTechnique("TEST")->AddParameter("number", 0.0f);
		FCDCamera* c = doc->GetCameraLibrary()->AddEntity(); c->SetDaeId("camera"); c->SetProjectionType(FCDCamera::PERSPECTIVE); c->SetFovY(50);
		FCDEffect* e = doc->GetEffectLibrary()->AddEntity(); e->SetDaeId("effect");
		FCDEffectStandard* s = (FCDEffectStandard*) e->AddProfile(FUDaeProfileType::COMMON); s->SetLightingType(FCDEffectStandard::PHONG);
		FCDEffectParameter* p = s->AddEffectParameter(FCDEffectParameter::FLOAT3); p->SetReference("vector"); p->SetGenerator();
		p = s->AddEffectParameter(FCDEffectParameter::FLOAT); p->SetReference("number"); p->SetGenerator();
		FCDGeometry* g = doc->GetGeometryLibrary()->AddEntity(); g->SetDaeId("geometry");
		FCDGeometryMesh* m = g->CreateMesh();
		FCDGeometrySource* so = m->AddVertexSource(FUDaeGeometryInput::POSITION); so->SetStride(3); so->SetValueCount(3); so->SetDaeId("positions");
		FCDGeometryPolygons* po = m->AddPolygons(); po->AddFace(3);
		uint32 idx[] = {0, 1, 2}; po->FindInput(so)->SetIndices(idx, 3);
		FCDGeometry* g2 = doc->GetGeometryLibrary()->AddEntity(); g2->SetDaeId("other");
		FCDGeometrySource* so2 = g2->CreateMesh()->AddVertexSource(FUDaeGeometryInput::POSITION); so2->SetStride(3); so2->SetValueCount(3); so2->SetDaeId("other-positions");
		FCDGeometryPolygons* po2 = g2->GetMesh()->AddPolygons(); po2->AddFace(3); po2->FindInput(so2)->SetIndices(idx, 3);
		FCDController* co = doc->GetControllerLibrary()->AddEntity(); co->SetDaeId("controller");
		FCDMorphController* mo = co->CreateMorphController(); mo->SetBaseTarget(g); mo->AddTarget(g2); mo->AddTarget(g2);
		for (int i = 1; i <= (int) par.size(); ++i)
		{
			FCDAnimation* x = par[i - 1] == 0 ? doc->GetAnimationLibrary()->AddEntity() : anim(par[i - 1])->AddChild();
			x->SetDaeId(name("anim", i)); x->SetName(name("Animation", i));
		}
		for (int j = 1; j <= nclip; ++j) doc->GetAnimationClipLibrary()->AddEntity()->SetDaeId(name("clip", j));
		for (size_t i = 0; i < kinds.size(); ++i)
		{
			off.push_back(std::vector<float>());
			for (int d = 0; d < dims[i]; ++d)
			{
				float base = 10.0f * (float) (i + 1) + (float) (d + 1);
				bool fixed = kinds[i] == 6 || kinds[i] == 21;
				off[i].push_back(fixed ? base - value(kinds[i], d) : 0);
				if (!fixed) setValue(kinds[i], d, base);
			}
		}
	}
	FCDAnimationCurve* curve(int t, int d)
	{
		FCDAnimated* x = animated(kinds[t - 1], false);
		if (x == NULL || (int) x->GetValueCount() < d) return NULL;
		return x->GetCurve(d - 1);
	}
	J op(const Args& a) override
	{
		const std::string& op = a.op;
		int t = a.has("t") ? a.i("t") : 0, d = a.has("d") ? a.i("d") : 0;
		if (op == "Curve")
		{
			std::string key = a.s("i") + "." + a.s("t") + "." + a.s("g");
			if (channels.count(key) == 0) channels[key] = anim(a.i("i"))->AddChannel();
			FCDAnimationCurve* c = channels[key]->AddCurve();
			for (const std::vector<int>& k : a.ll("k"))
			{
				FCDAnimationKey* y = c->AddKey(kind(k[2])); y->input = (float) k[0]; y->output = (float) k[1];
				if (k[2] == 3) { FCDAnimationKeyBezier* b = (FCDAnimationKeyBezier*) y; b->inTangent = FMVector2(y->input - 4, y->output - 24); b->outTangent = FMVector2(y->input + 4, y->output + 12); }
				if (k[2] == 4) { FCDAnimationKeyTCB* b = (FCDAnimationKeyTCB*) y; b->tension = 0.5f; b->continuity = 0.25f; b->bias = 0.125f; b->easeIn = 1; b->easeOut = 2; }
			}
			c->SetPreInfinity(inf(a.i("pre"))); c->SetPostInfinity(inf(a.i("post")));
			animated(kinds[t - 1], true)->AddCurve(d - 1, c);
			return 0;
		}
		if (op == "Uncurve") { curve(t, d)->Release(); return 0; }
		if (op == "Inf") { curve(t, d)->SetPreInfinity(inf(a.i("pre"))); curve(t, d)->SetPostInfinity(inf(a.i("post"))); return 0; }
		if (op == "Val") { setValue(kinds[t - 1], d - 1, (float) a.i("v") - off[t - 1][d - 1]); return 0; }
		if (op == "Drive") { curve(t, d)->SetDriver(animated(kinds[a.i("t2") - 1], true), a.i("d2") - 1); return 0; }
		if (op == "Undrive") { curve(t, d)->SetDriver(NULL, 0); return 0; }
		if (op == "Extra")
		{
			FCDExtra* x = anim(a.i("i"))->GetExtra();
			FCDETechnique* q = x->GetDefaultType()->AddTechnique("TEST");
			if (a.i("v") == 1) { if (q->FindParameter("mark") == NULL) q->AddParameter("mark", 1); }
			else SAFE_RELEASE(q);
			return 0;
		}
		if (op == "ClipTime") { clip(a.i("j"))->SetStart((float) a.i("s")); clip(a.i("j"))->SetEnd((float) a.i("e")); return 0; }
		if (op == "ClipCurve") { clip(a.i("j"))->AddClipCurve(curve(t, d)); return 0; }
		if (op == "ClipInst")
		{
			FCDAnimationClip* c = clip(a.i("j")); c->AddInstanceAnimation(anim(a.i("i")));
			if (a.i("n") == 1) c->SetAnimationName("part", c->GetAnimationCount() - 1);
			return 0;
		}
		if (op == "Save") return twice(doc);
		if (op == "Again") { doc = saveload(doc); channels.clear(); if (doc == NULL) return "load"; return 0; }
		bad(op);
	}
	J one(int t, int d)
	{
		FCDAnimationCurve* x = curve(t, d); J o = J::arr();
		FCDAnimated* an = animated(kinds[t - 1], false);
		if (an != NULL && (int) an->GetValueCount() >= d && an->GetCurves()[d - 1].size() > 1) return "several curves";
		if (x == NULL) return o;
		J keys = J::arr();
		for (size_t k = 0; k < x->GetKeyCount(); ++k)
		{
			FCDAnimationKey* y = x->GetKey(k); J e = J::arr(); int kd = kindOf(y->interpolation), f = 0;
			if (kd == 3)
			{
				FCDAnimationKeyBezier* b = (FCDAnimationKeyBezier*) y;
				float ps = (k > 0 ? y->input - x->GetKey(k - 1)->input : 1.0f) / 3, ns = (k + 1 < x->GetKeyCount() ? x->GetKey(k + 1)->input - y->input : 1.0f) / 3;
				if (near(b->inTangent.x, y->input - 4) && near(b->inTangent.y, y->output - 24) && near(b->outTangent.x, y->input + 4) && near(b->outTangent.y, y->output + 12)) f = 0;
				else if (near(b->inTangent.x, y->input - ps) && near(b->inTangent.y, y->output) && near(b->outTangent.x, y->input + ns) && near(b->outTangent.y, y->output)) f = 1;
				else f = -1;
			}
			if (kd == 4) { FCDAnimationKeyTCB* b = (FCDAnimationKeyTCB*) y; if (b->tension != 0.5f || b->continuity != 0.25f || b->bias != 0.125f || b->easeIn != 1 || b->easeOut != 2) f = -2; }
			e.add(q(y->input)).add(q(y->output)).add(kd).add(f);
			keys.add(e);
		}
		J drv = J::arr();
		if (x->HasDriver())
		{
			FCDAnimated* w; int32 ix; x->GetDriver(w, ix);
			int who = -1; for (size_t i = 0; i < kinds.size(); ++i) if (animated(kinds[i], true) == w) who = (int) i + 1;
			drv.add(who).add(ix + 1);
		}
		o.add(animIndex(x->GetParent()->GetParent())).add(keys).add(infOf(x->GetPreInfinity())).add(infOf(x->GetPostInfinity())).add(drv);
		return o;
	}
	J obs() override
	{
		if (doc == NULL) return "no document";
		J c = J::arr(), v = J::arr(), x = J::arr(), cl = J::arr();
		for (int t = 1; t <= (int) kinds.size(); ++t)
		{
			J ct = J::arr(), vt = J::arr();
			for (int d = 1; d <= dims[t - 1]; ++d) { ct.add(one(t, d)); vt.add(q(value(kinds[t - 1], d - 1) + off[t - 1][d - 1])); }
			c.add(ct); v.add(vt);
		}
		for (int i = 1; i <= (int) par.size(); ++i)
		{
			FCDAnimation* p = anim(i);
			if (p == NULL) { x.add("lost"); continue; }
			int up = p->GetParent() == NULL ? 0 : animIndex(p->GetParent());
			if (up != par[i - 1]) { x.add("parent"); continue; }
			if (p->GetName() != name("Animation", i)) { x.add("name"); continue; }
			FCDETechnique* e = p->GetExtra()->GetDefaultType()->FindTechnique("TEST");
			FCDENode* k = e == NULL ? NULL : e->FindParameter("mark");
			x.add(k == NULL ? 0 : FUStringConversion::ToInt32(k->GetContent()));
		}
		for (int j = 1; j <= nclip; ++j)
		{
			FCDAnimationClip* p = clip(j); J inst = J::arr(), cur = J::arr();
			if (p == NULL) { cl.add("lost"); continue; }
			for (size_t i = 0; i < p->GetAnimationCount(); ++i)
			{
				fm::string n = p->GetAnimationName(i);
				inst.add(J::arr().add(animIndex(p->GetAnimation(i))).add(n.empty() ? 0 : n == "part" ? 1 : -1));
			}
			for (size_t i = 0; i < p->GetClipCurves().size(); ++i)
			{
				J w = J::arr();
				for (int t = 1; t <= (int) kinds.size(); ++t) for (int d = 1; d <= dims[t - 1]; ++d) if (curve(t, d) == p->GetClipCurves()[i]) { w.add(t).add(d); }
				cur.add(w);
			}
			cl.add(J::arr().add(q(p->GetStart())).add(q(p->GetEnd())).add(inst).add(cur));
		}
		return J::obj().set("c", c).set("v", v).set("x", x).set("clip", cl);
	}
	J finish() override { SAFE_RELEASE(doc); FCollada::Release(); return true; }
};
}
VT_MODEL("docanim", DocAnim)
