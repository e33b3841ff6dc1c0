#include "vt.h"
#include "vt_io.h"
#include "FCDocument/FCDAsset.h"
#include "FCDocument/FCDCamera.h"
#include "FCDocument/FCDEmitter.h"
#include "FCDocument/FCDForceField.h"
#include "FCDocument/FCDImage.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDLight.h"
#include "FCDocument/FCDSceneNode.h"
#include "FUtils/FUFileManager.h"
#include "FUtils/FUUri.h"
using namespace vt;

namespace {
// strings of the specification: 0 is empty, 2 becomes 3 as a name
const char* TABLE[] = {"", "plain", "two words:1", "two_words_1", "<a href=\"x\">&amp; 'b'</a>", "\xC3\xA9\xE6\xBC\xA2 \xC2\xB5", "line one\nline\ttwo", "50% off %41", "100%", "?", " around ", "a,b;c|d#e/f\\g"};
const int NTABLE = sizeof(TABLE) / sizeof(*TABLE);
int index(const fstring& s) { for (int i = 0; i < NTABLE; ++i) if (i != 9 && s == TABLE[i]) return i; return -1; }
typedef std::vector<int> L;
struct Field { std::function<void(FCDEntity*, const L&)> set; std::function<L(FCDEntity*)> get; };
typedef std::map<std::string, Field> Fields;

struct Records : public Model
{
	FCDocument* doc = NULL;
	int count = 0;
	std::vector<std::string> kind;      // of each entity
	std::vector<FCDEntity*> e;
	std::map<std::string, Fields> table;
	static fm::string id(int i) { return fm::string(("e" + std::to_string(i)).c_str()); }
	FCDSceneNode* target(int k) { return doc->FindSceneNode(fm::string(("target" + std::to_string(k)).c_str())); }

	template <class E, class G, class S> static Field number(G get, S set)
	{
		return Field{[set](FCDEntity* e, const L& v) { (((E*) e)->*set)(v[0] / 4.0f); }, [get](FCDEntity* e) { return L{q((float) (((E*) e)->*get)(), 4)}; }};
	}
	void common(Fields& f)
	{
		f["name"] = Field{[](FCDEntity* e, const L& v) { e->SetName(TABLE[v[0]]); }, [](FCDEntity* e) { return L{!e->GetName().empty() && e->GetName() == e->GetDaeId().c_str() ? 9 : index(e->GetName())}; }};
		f["note"] = Field{[](FCDEntity* e, const L& v) { e->SetNote(TABLE[v[0]]); }, [](FCDEntity* e) { return L{index(e->GetNote())}; }};
	}
	void targeted(Fields& f)
	{
		common(f);
		f["target"] = Field{[this](FCDEntity* e, const L& v) { ((FCDTargetedEntity*) e)->SetTargetNode(v[0] == 0 ? NULL : target(v[0])); },
			[this](FCDEntity* e) { FCDSceneNode* n = ((FCDTargetedEntity*) e)->GetTargetNode(); return L{n == NULL ? 0 : n == target(1) ? 1 : n == target(2) ? 2 : -1}; }};
	}
	template <class G, class S> static Field text(G get, S set)
	{
		return Field{[set](FCDEntity* e, const L& v) { set(e, fstring(TABLE[v[0]])); }, [get](FCDEntity* e) { return L{index(get(e))}; }};
	}
	Fields assetFields(std::function<FCDAsset*(FCDEntity*)> a)
	{
		Fields f;
#define TEXT(field, Name) f[field] = text([a](FCDEntity* e) { return a(e)->Get##Name(); }, [a](FCDEntity* e, const fstring& s) { a(e)->Set##Name(s); })
		TEXT("keywords", Keywords); TEXT("revision", Revision); TEXT("subject", Subject); TEXT("title", Title); TEXT("unitName", UnitName);
#undef TEXT
		f["unitName"].get = [a](FCDEntity* e) { return L{a(e)->GetUnitName() == "meter" ? 100 : index(a(e)->GetUnitName())}; };
		f["unit"] = Field{[a](FCDEntity* e, const L& v) { a(e)->SetUnitConversionFactor(v[1] / 4.0f); }, [a](FCDEntity* e) { return L{a(e)->GetHasUnitsFlag() ? 1 : 0, q(a(e)->GetUnitConversionFactor(), 4)}; }};
		f["upAxis"] = Field{[a](FCDEntity* e, const L& v) { a(e)->SetUpAxis(FMVector3(v[1] == 0, v[1] == 1, v[1] == 2)); },
			[a](FCDEntity* e) { FMVector3 u = a(e)->GetUpAxis(); return L{a(e)->GetHasUpAxisFlag() ? 1 : 0, u == FMVector3::XAxis ? 0 : u == FMVector3::YAxis ? 1 : u == FMVector3::ZAxis ? 2 : -1}; }};
		f["created"] = Field{[a](FCDEntity* e, const L& v) { FUDateTime& t = a(e)->GetCreationDateTime(); t.SetYear(v[0]); t.SetMonth(v[1]); t.SetDay(v[2]); t.SetHour(v[3]); t.SetMinutes(v[4]); t.SetSeconds(v[5]); },
			[a](FCDEntity* e) { FUDateTime& t = a(e)->GetCreationDateTime(); return L{(int) t.GetYear(), (int) t.GetMonth(), (int) t.GetDay(), (int) t.GetHour(), (int) t.GetMinutes(), (int) t.GetSeconds()}; }};
		f["contrib"] = Field{[a](FCDEntity* e, const L& v) {
				while (a(e)->GetContributorCount() > 0) a(e)->GetContributor(0)->Release();
				for (size_t i = 0; i + 3 < v.size(); i += 4) { FCDAssetContributor* c = a(e)->AddContributor(); c->SetAuthor(TABLE[v[i]]); c->SetAuthoringTool(TABLE[v[i + 1]]); c->SetComments(TABLE[v[i + 2]]); c->SetCopyright(TABLE[v[i + 3]]); }
			}, [a](FCDEntity* e) { L r; for (size_t i = 0; i < a(e)->GetContributorCount(); ++i) { FCDAssetContributor* c = a(e)->GetContributor(i); r.push_back(index(c->GetAuthor())); r.push_back(index(c->GetAuthoringTool())); r.push_back(index(c->GetComments())); r.push_back(index(c->GetCopyright())); } return r; }};
		return f;
	}
	void define()
	{
		Fields light; targeted(light);
		light["color"] = Field{[](FCDEntity* e, const L& v) { ((FCDLight*) e)->SetColor(v[0] / 4.0f, v[1] / 4.0f, v[2] / 4.0f); }, [](FCDEntity* e) { const FMVector3& c = ((FCDLight*) e)->GetColor(); return L{q(c.x, 4), q(c.y, 4), q(c.z, 4)}; }};
#define NUMBER(f, field, E, Name) f[field] = number<E>((const FCDParameterAnimatableFloat& (E::*)() const) &E::Get##Name, &E::Set##Name)
		NUMBER(light, "intensity", FCDLight, Intensity); NUMBER(light, "const", FCDLight, ConstantAttenuationFactor); NUMBER(light, "lin", FCDLight, LinearAttenuationFactor); NUMBER(light, "quad", FCDLight, QuadraticAttenuationFactor);
		NUMBER(light, "falloffAngle", FCDLight, FallOffAngle); NUMBER(light, "falloffExp", FCDLight, FallOffExponent); NUMBER(light, "outer", FCDLight, OuterAngle); NUMBER(light, "dropoff", FCDLight, Dropoff);
		for (const char* k : {"point", "spot", "directional", "ambient"}) table[k] = light;
		Fields camera; targeted(camera);
		NUMBER(camera, "viewX", FCDCamera, FovX); NUMBER(camera, "viewY", FCDCamera, FovY); NUMBER(camera, "aspect", FCDCamera, AspectRatio); NUMBER(camera, "near", FCDCamera, NearZ); NUMBER(camera, "far", FCDCamera, FarZ);
#undef NUMBER
		camera["hasX"].get = [](FCDEntity* e) { return L{((FCDCamera*) e)->HasHorizontalFov() ? 1 : 0}; };
		camera["hasY"].get = [](FCDEntity* e) { return L{((FCDCamera*) e)->HasVerticalFov() ? 1 : 0}; };
		table["persp"] = table["ortho"] = camera;
		Fields image; common(image);
		image["size"] = Field{[](FCDEntity* e, const L& v) { FCDImage* m = (FCDImage*) e; m->SetWidth(v[0]); m->SetHeight(v[1]); m->SetDepth(v[2]); }, [](FCDEntity* e) { FCDImage* m = (FCDImage*) e; return L{(int) m->GetWidth(), (int) m->GetHeight(), (int) m->GetDepth()}; }};
		image["file"] = Field{[](FCDEntity* e, const L& v) { ((FCDImage*) e)->SetFilename(file(v[0]).c_str()); }, [](FCDEntity* e) { const fstring& s = ((FCDImage*) e)->GetFilename(); for (int i = 0; i < 5; ++i) if (s == file(i).c_str()) return L{i}; return L{-1}; }};
		table["image"] = image;
		Fields plain; common(plain);
		table["emitter"] = table["force"] = plain;
		table["asset"] = assetFields([this](FCDEntity*) { return doc->GetAsset(); });
		Fields owned = assetFields([](FCDEntity* e) { return e->GetAsset(); });
		for (auto& p : plain) owned[p.first] = p.second;
		table["owned"] = owned;
		Fields& s = table["scene"];
		s["start"] = Field{[this](FCDEntity*, const L& v) { doc->SetStartTime(v[1] / 4.0f); }, [this](FCDEntity*) { return L{doc->HasStartTime() ? 1 : 0, doc->HasStartTime() ? q(doc->GetStartTime(), 4) : 0}; }};
		s["end"] = Field{[this](FCDEntity*, const L& v) { doc->SetEndTime(v[1] / 4.0f); }, [this](FCDEntity*) { return L{doc->HasEndTime() ? 1 : 0, doc->HasEndTime() ? q(doc->GetEndTime(), 4) : 0}; }};
		// three numbers for each layer: its name and two objects (0: none)
		s["layers"] = Field{[this](FCDEntity*, const L& v) {
				while (doc->GetLayerCount() > 0) doc->ReleaseLayer(doc->GetLayer(0));
				for (size_t i = 0; i + 2 < v.size(); i += 3) { FCDLayer* l = doc->AddLayer(); l->name = TABLE[v[i]]; for (int k = 1; k < 3; ++k) if (v[i + k] != 0) l->objects.push_back(("target" + std::to_string(v[i + k])).c_str()); }
			}, [this](FCDEntity*) { L r; for (size_t i = 0; i < doc->GetLayerCount(); ++i) { FCDLayer* l = doc->GetLayer(i); r.push_back(index(l->name.c_str())); if (l->objects.size() > 2) r.push_back(-1);
				for (size_t k = 0; k < 2; ++k) r.push_back(k >= l->objects.size() ? 0 : l->objects[k] == "target1" ? 1 : l->objects[k] == "target2" ? 2 : -1); } return r; }};
	}
	static std::string file(int i)
	{
		static const char* names[] = {"", "/pic.png", "/dir/two words.jpg", "/a-b_c.d.tga", "/../up/x.bmp"};
		if (i == 0) return "";
		return i == 4 ? "/up/x.bmp" : scratch() + names[i];
	}
	void reset(const Args& a) override
	{
		FCollada::Initialize();
		doc = FCollada::NewTopDocument();
		count = a.i("NObj");
		kind.assign(count, "none"); e.assign(count, (FCDEntity*) NULL);
		FCDSceneNode* scene = doc->AddVisualScene();
		for (int k = 1; k <= 2; ++k) scene->AddChildNode()->SetDaeId(fm::string(("target" + std::to_string(k)).c_str()));
		define();
	}
	FCDEntity* make(const std::string& k)
	{
		if (k == "point" || k == "spot" || k == "directional" || k == "ambient")
		{
			FCDLight* l = doc->GetLightLibrary()->AddEntity();
			l->SetLightType(k == "point" ? FCDLight::POINT : k == "spot" ? FCDLight::SPOT : k == "directional" ? FCDLight::DIRECTIONAL : FCDLight::AMBIENT);
			return l;
		}
		if (k == "persp" || k == "ortho") { FCDCamera* c = doc->GetCameraLibrary()->AddEntity(); c->SetProjectionType(k == "persp" ? FCDCamera::PERSPECTIVE : FCDCamera::ORTHOGRAPHIC); return c; }
		if (k == "image") return doc->GetImageLibrary()->AddEntity();
		if (k == "emitter") return doc->GetEmitterLibrary()->AddEntity();
		if (k == "force" || k == "owned") return doc->GetForceFieldLibrary()->AddEntity();
		if (k == "asset" || k == "scene") return NULL;
		bad(k);
	}
	std::string kindOf(int i)
	{
		FCDEntity* x = e[i];
		switch (x->GetType())
		{
		case FCDEntity::LIGHT: { FCDLight::LightType t = ((FCDLight*) x)->GetLightType(); return t == FCDLight::POINT ? "point" : t == FCDLight::SPOT ? "spot" : t == FCDLight::DIRECTIONAL ? "directional" : "ambient"; }
		case FCDEntity::CAMERA: return ((FCDCamera*) x)->GetProjectionType() == FCDCamera::PERSPECTIVE ? "persp" : "ortho";
		case FCDEntity::IMAGE: return "image";
		case FCDEntity::EMITTER: return "emitter";
		case FCDEntity::FORCE_FIELD: return kind[i] == "owned" ? "owned" : "force";
		default: return "?";
		}
	}
	J op(const Args& a) override
	{
		const std::string& op = a.op;
		int i = a.has("i") ? a.i("i") - 1 : -1;
		if (op == "Make")
		{
			e[i] = make(a.s("k")); kind[i] = a.s("k");
			if (e[i] != NULL) e[i]->SetDaeId(id(i));
			if (kind[i] == "asset") while (doc->GetAsset()->GetContributorCount() > 0) doc->GetAsset()->GetContributor(0)->Release();
			if (kind[i] == "owned") table["owned"]["created"].set(e[i], L{2001, 2, 3, 4, 5, 6});
			if (kind[i] == "asset") table["asset"]["created"].set(NULL, L{2001, 2, 3, 4, 5, 6});
			return 0;
		}
		if (op == "Set") { table[kind[i]].at(a.s("f")).set(e[i], a.l("v")); return 0; }
		if (op == "Release") { SAFE_RELEASE(e[i]); kind[i] = "none"; return 0; }
		if (op == "Save") return twice(doc);
		if (op == "Again")
		{
			doc = saveload(doc);
			if (doc == NULL) { e.assign(count, (FCDEntity*) NULL); kind.assign(count, "none"); return "load"; }
			for (int k = 0; k < count; ++k)
				if (e[k] != NULL) { e[k] = doc->FindEntity(id(k)); if (e[k] == NULL) kind[k] = "lost"; }
			return 0;
		}
		bad(op);
	}
	template <class T> J order(FCDLibrary<T>* l)
	{
		J r = J::arr();
		for (size_t k = 0; k < l->GetEntityCount(); ++k) { int f = 0; for (int i = 0; i < count; ++i) if (e[i] == l->GetEntity(k)) f = i + 1; r.add(f); }
		return r;
	}
	J obs() override
	{
		J o = J::arr(), lib = J::obj();
		for (int i = 0; i < count; ++i)
		{
			J x = J::obj(); std::string k = e[i] != NULL ? kindOf(i) : kind[i];
			x.set("k", k);
			if (kind[i] == k && k != "none" && k != "lost") { J f = J::obj(); for (auto& p : table[k]) f.set(p.first, J::list(p.second.get(e[i]))); x.set("f", f); }
			o.add(x);
		}
		for (auto& k : libs) lib.set(k, k == "lights" ? order(doc->GetLightLibrary()) : k == "cameras" ? order(doc->GetCameraLibrary()) : k == "images" ? order(doc->GetImageLibrary())
			: k == "emitters" ? order(doc->GetEmitterLibrary()) : k == "forces" ? order(doc->GetForceFieldLibrary()) : single(k));
		return J::obj().set("o", o).set("q", lib);
	}
	J single(const std::string& k) { J r = J::arr(); for (int i = 0; i < count; ++i) if (kind[i] == k) r.add(i + 1); return r; }
	std::vector<std::string> libs = {"lights", "cameras", "images", "emitters", "forces", "asset", "scene"};
	J finish() override { SAFE_RELEASE(doc); FCollada::Release(); return true; }
};
}
VT_MODEL("records", Records)
