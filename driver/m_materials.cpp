#include "nest.h"
#include "FCDocument/FCDEffect.h"
#include "FCDocument/FCDEffectParameter.h"
#include "FCDocument/FCDEffectParameterSampler.h"
#include "FCDocument/FCDEffectParameterSurface.h"
#include "FCDocument/FCDEffectStandard.h"
#include "FCDocument/FCDImage.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDMaterial.h"
#include "FCDocument/FCDTexture.h"
#include "FUtils/FUDaeEnum.h"
using namespace nest;

namespace {
struct Materials : public Nest
{
	static L color(const FMVector4& v) { return L{q(v.x, 4), q(v.y, 4), q(v.z, 4), q(v.w, 4)}; }
	static FMVector4 vec(const L& v) { return FMVector4(v[0] / 4.0f, v[1] / 4.0f, v[2] / 4.0f, v[3] / 4.0f); }
	template <class E> static void entities(Kind& k, FCDLibrary<E>* (*lib)(FCDObject*))
	{
		k.list["doc"] = [lib](FCDObject* d) { FCDLibrary<E>* l = lib(d); return listed(l->GetEntityCount(), [l](size_t i) { return l->GetEntity(i); }); };
		k.make["doc"] = [lib](FCDObject* d) { return (FCDObject*) lib(d)->AddEntity(); };
		k.fields["name"] = Field{[](FCDObject* o, const L& v) { ((FCDEntity*) o)->SetName(TEXTS[v[0]]); }, [](FCDObject* o) { FCDEntity* e = (FCDEntity*) o; return L{!e->GetName().empty() && e->GetName() == e->GetDaeId().c_str() ? 9 : text(e->GetName().c_str())}; }};
	}
	// the owners of parameters
	static size_t count(FCDObject* o)
	{
		return o->HasType(FCDMaterial::GetClassType()) ? ((FCDMaterial*) o)->GetEffectParameterCount() : o->HasType(FCDEffect::GetClassType()) ? ((FCDEffect*) o)->GetEffectParameterCount() : ((FCDEffectProfile*) o)->GetEffectParameterCount();
	}
	static FCDEffectParameter* at(FCDObject* o, size_t i)
	{
		return o->HasType(FCDMaterial::GetClassType()) ? ((FCDMaterial*) o)->GetEffectParameter(i) : o->HasType(FCDEffect::GetClassType()) ? ((FCDEffect*) o)->GetEffectParameter(i) : ((FCDEffectProfile*) o)->GetEffectParameter(i);
	}
	static FCDEffectParameter* add(FCDObject* o, FCDEffectParameter::Type t)
	{
		FCDEffectParameter* p = o->HasType(FCDMaterial::GetClassType()) ? ((FCDMaterial*) o)->AddEffectParameter(t) : o->HasType(FCDEffect::GetClassType()) ? ((FCDEffect*) o)->AddEffectParameter(t) : ((FCDEffectProfile*) o)->AddEffectParameter(t);
		if (o->HasType(FCDMaterial::GetClassType())) p->SetModifier(); else p->SetGenerator();
		return p;
	}
	Kind& parameter(const char* name, FCDEffectParameter::Type t)
	{
		Kind& k = kind(name);
		for (const char* owner : {"effect", "std", "material"})
		{
			k.list[owner] = [t](FCDObject* o) { Objects r; for (size_t i = 0; i < count(o); ++i) if (at(o, i)->GetType() == t) r.push_back(at(o, i)); return r; };
			k.make[owner] = [t](FCDObject* o) { return (FCDObject*) add(o, t); };
		}
		k.fields["num"] = Field{[](FCDObject* o, const L& v) { ((FCDEffectParameter*) o)->SetReference(("p" + std::to_string(v[0])).c_str()); },
			[](FCDObject* o) { const fm::string& s = ((FCDEffectParameter*) o)->GetReference(); return L{!s.empty() && s[0] == 'p' ? atoi(s.c_str() + 1) : -1}; }};
		k.fields["gen"] = Field{NULL, [](FCDObject* o) { FCDEffectParameter* p = (FCDEffectParameter*) o; return L{p->IsGenerator() ? 1 : p->IsModifier() ? 2 : 3}; }};
		k.fields["semantic"] = Field{[](FCDObject* o, const L& v) { ((FCDEffectParameter*) o)->SetSemantic(TEXTS[v[0]]); }, [](FCDObject* o) { return L{text(((FCDEffectParameter*) o)->GetSemantic().c_str())}; }};
		// for each annotation its name, type and value
		k.fields["notes"] = Field{[](FCDObject* o, const L& v) {
				FCDEffectParameter* p = (FCDEffectParameter*) o;
				while (p->GetAnnotationCount() > 0) p->GetAnnotation(0)->Release();
				for (size_t i = 0; i + 2 < v.size(); i += 3) p->AddAnnotation(TEXTS[v[i]], (FCDEffectParameter::Type) v[i + 1], TEXTS[v[i + 2]]);
			}, [](FCDObject* o) {
				FCDEffectParameter* p = (FCDEffectParameter*) o; L r;
				for (size_t i = 0; i < p->GetAnnotationCount(); ++i) { FCDEffectParameterAnnotation* n = p->GetAnnotation(i); r.push_back(text(n->name->c_str())); r.push_back((int) *n->type); r.push_back(text(n->value->c_str())); }
				return r; }};
		return k;
	}
	template <class P, class T> void number(const char* name, FCDEffectParameter::Type t, T (*to)(const L&), L (*from)(const T&))
	{
		Kind& k = parameter(name, t);
		k.fields["value"] = Field{[to](FCDObject* o, const L& v) { ((P*) o)->SetValue(to(v)); }, [from](FCDObject* o) { return from((const T&) ((P*) o)->GetValue()); }};
	}
	template <class P> void half(const char* name)
	{
		kind(name).fields["half"] = Field{[](FCDObject* o, const L& v) { ((P*) o)->SetFloatType(v[0] ? P::HALF : P::FLOAT); }, [](FCDObject* o) { return L{((P*) o)->GetFloatType() == P::HALF ? 1 : 0}; }};
	}
	void standard()
	{
		Kind& k = kind("std");
		k.list["effect"] = [](FCDObject* o) { return only(((FCDEffect*) o)->FindProfile(FUDaeProfileType::COMMON)); };
		k.make["effect"] = [](FCDObject* o) { return (FCDObject*) ((FCDEffect*) o)->AddProfile(FUDaeProfileType::COMMON); };
#define STD ((FCDEffectStandard*) o)
		k.fields["light"] = Field{[](FCDObject* o, const L& v) { STD->SetLightingType((FCDEffectStandard::LightingType) v[0]); }, [](FCDObject* o) { return L{(int) STD->GetLightingType()}; }};
		k.fields["mode"] = Field{[](FCDObject* o, const L& v) { STD->SetTransparencyMode(v[0] ? FCDEffectStandard::RGB_ZERO : FCDEffectStandard::A_ONE); }, [](FCDObject* o) { return L{STD->GetTransparencyMode() == FCDEffectStandard::RGB_ZERO ? 1 : 0}; }};
#define FLAG(f, Get, Set) k.fields[f] = Field{[](FCDObject* o, const L& v) { STD->Set(v[0] != 0); }, [](FCDObject* o) { return L{STD->Get() ? 1 : 0}; }}
		FLAG("isEF", IsEmissionFactor, SetIsEmissionFactor); FLAG("refl", IsReflective, SetReflective); FLAG("refr", IsRefractive, SetRefractive);
#define COLOR(f, Name) k.fields[f] = Field{[](FCDObject* o, const L& v) { STD->Set##Name(vec(v)); }, [](FCDObject* o) { return color(STD->Get##Name()); }}
		COLOR("emission", EmissionColor); COLOR("ambient", AmbientColor); COLOR("diffuse", DiffuseColor); COLOR("specular", SpecularColor); COLOR("reflC", ReflectivityColor); COLOR("translC", TranslucencyColor);
#define NUMBER(f, Name) k.fields[f] = Field{[](FCDObject* o, const L& v) { STD->Set##Name(v[0] / 4.0f); }, [](FCDObject* o) { return L{q(STD->Get##Name(), 4)}; }}
		NUMBER("emissionF", EmissionFactor); NUMBER("specularF", SpecularFactor); NUMBER("shine", Shininess); NUMBER("reflF", ReflectivityFactor); NUMBER("translF", TranslucencyFactor); NUMBER("ior", IndexOfRefraction);
	}
	void textures(const char* name, uint32 bucket)
	{
		Kind& k = kind(name);
		k.list["std"] = [bucket](FCDObject* o) { return listed(STD->GetTextureCount(bucket), [o, bucket](size_t i) { return STD->GetTexture(bucket, i); }); };
		k.make["std"] = [bucket](FCDObject* o) { return (FCDObject*) STD->AddTexture(bucket); };
		k.fields["set"] = Field{[](FCDObject* o, const L& v) { ((FCDTexture*) o)->GetSet()->SetSemantic(TEXTS[v[0]]); }, [](FCDObject* o) { return L{text(((FCDTexture*) o)->GetSet()->GetSemantic().c_str())}; }};
		k.refs["sampler"] = Reference{[](FCDObject* o, const Objects& to) { ((FCDTexture*) o)->SetSampler(to.empty() ? NULL : (FCDEffectParameterSampler*) to[0]); }, [](FCDObject* o) { return only(((const FCDTexture*) o)->GetSampler()); }};
	}
	void define() override
	{
		entities<FCDImage>(kind("image"), [](FCDObject* d) { return ((FCDocument*) d)->GetImageLibrary(); });
		entities<FCDEffect>(kind("effect"), [](FCDObject* d) { return ((FCDocument*) d)->GetEffectLibrary(); });
		standard();
		Kind& s = parameter("surface", FCDEffectParameter::SURFACE);
#define SURF ((FCDEffectParameterSurface*) o)
		s.fields["type"] = Field{[](FCDObject* o, const L& v) { SURF->SetSurfaceType(v[0] == 0 ? "2D" : v[0] == 1 ? "3D" : "CUBE"); }, [](FCDObject* o) { const fm::string& t = SURF->GetSurfaceType(); return L{t == "2D" ? 0 : t == "3D" ? 1 : t == "CUBE" ? 2 : -1}; }};
		s.fields["size"] = Field{[](FCDObject* o, const L& v) { SURF->SetSize(FMVector3((float) v[0], (float) v[1], (float) v[2])); }, [](FCDObject* o) { FMVector3 v = SURF->GetSize(); return L{q(v.x), q(v.y), q(v.z)}; }};
		s.fields["ratio"] = Field{[](FCDObject* o, const L& v) { SURF->SetViewportRatio(v[0] / 4.0f); }, [](FCDObject* o) { return L{q(SURF->GetViewportRatio(), 4)}; }};
		s.fields["mips"] = Field{[](FCDObject* o, const L& v) { SURF->SetMipLevelCount((uint16) v[0]); }, [](FCDObject* o) { return L{(int) SURF->GetMipLevelCount()}; }};
		s.fields["genmips"] = Field{[](FCDObject* o, const L& v) { SURF->SetGenerateMipMaps(v[0] != 0); }, [](FCDObject* o) { return L{SURF->IsGenerateMipMaps() ? 1 : 0}; }};
		s.fields["format"] = Field{[](FCDObject* o, const L& v) { SURF->SetFormat(v[0] == 0 ? "A8R8G8B8" : TEXTS[v[0]]); }, [](FCDObject* o) { return L{SURF->GetFormat() == "A8R8G8B8" ? 0 : text(SURF->GetFormat().c_str())}; }};
		// channels, range, precision and options
		s.fields["hint"] = Field{[](FCDObject* o, const L& v) { FCDFormatHint* h = SURF->AddFormatHint(); h->channels = (FCDFormatHint::channelValues) v[0]; h->range = (FCDFormatHint::rangeValue) v[1]; h->precision = (FCDFormatHint::precisionValue) v[2];
				h->options.clear(); for (size_t i = 3; i < v.size(); ++i) h->options.push_back((FCDFormatHint::optionValue) v[i]); },
			[](FCDObject* o) { FCDFormatHint* h = SURF->GetFormatHint(); if (h == NULL) return L(); L r{(int) h->channels, (int) h->range, (int) h->precision}; for (auto x : h->options) r.push_back((int) x); return r; }};
		typedef FCDEffectParameterSurfaceInitFactory F;
		s.fields["init"] = Field{[](FCDObject* o, const L& v) {
				static const F::InitType types[] = {F::FROM, F::FROM, F::AS_NULL, F::AS_TARGET, F::VOLUME, F::VOLUME, F::CUBE, F::CUBE, F::PLANAR};
				FCDEffectParameterSurfaceInit* m = v[0] == 0 ? NULL : F::Create(types[v[0]]);
				if (v[0] == 4 || v[0] == 5) ((FCDEffectParameterSurfaceInitVolume*) m)->volumeType = v[0] == 4 ? FCDEffectParameterSurfaceInitVolume::ALL : FCDEffectParameterSurfaceInitVolume::PRIMARY;
				if (v[0] == 6 || v[0] == 7) ((FCDEffectParameterSurfaceInitCube*) m)->cubeType = v[0] == 6 ? FCDEffectParameterSurfaceInitCube::ALL : FCDEffectParameterSurfaceInitCube::PRIMARY;
				SURF->SetInitMethod(m);
			}, [](FCDObject* o) {
				FCDEffectParameterSurfaceInit* m = SURF->GetInitMethod();
				if (m == NULL) return L{0};
				switch (m->GetInitType())
				{
				case F::FROM: return L{1};
				case F::AS_NULL: return L{2};
				case F::AS_TARGET: return L{3};
				case F::VOLUME: return L{((FCDEffectParameterSurfaceInitVolume*) m)->volumeType == FCDEffectParameterSurfaceInitVolume::ALL ? 4 : ((FCDEffectParameterSurfaceInitVolume*) m)->volumeType == FCDEffectParameterSurfaceInitVolume::PRIMARY ? 5 : -1};
				case F::CUBE: return L{((FCDEffectParameterSurfaceInitCube*) m)->cubeType == FCDEffectParameterSurfaceInitCube::ALL ? 6 : ((FCDEffectParameterSurfaceInitCube*) m)->cubeType == FCDEffectParameterSurfaceInitCube::PRIMARY ? 7 : -1};
				case F::PLANAR: return L{8};
				default: return L{-1};
				}
			}};
#define ATTR(f, member) s.fields[f] = Field{[](FCDObject* o, const L& v) { FCDEffectParameterSurfaceInit* m = SURF->GetInitMethod(); if (m == NULL || m->GetInitType() != F::FROM) bad("attributes"); \
			auto& l = ((FCDEffectParameterSurfaceInitFrom*) m)->member; l.clear(); for (int x : v) l.push_back(std::to_string(x).c_str()); }, \
		[](FCDObject* o) { FCDEffectParameterSurfaceInit* m = SURF->GetInitMethod(); L r; if (m == NULL || m->GetInitType() != F::FROM) return r; for (auto& x : ((FCDEffectParameterSurfaceInitFrom*) m)->member) r.push_back(atoi(x.c_str())); return r; }}
		ATTR("mip", mip); ATTR("slice", slice); ATTR("face", face);
		s.refs["imgs"] = Reference{[](FCDObject* o, const Objects& to) { while (SURF->GetImageCount() > 0) SURF->RemoveImage(SURF->GetImage(0)); for (FCDObject* i : to) SURF->AddImage((FCDImage*) i); },
			[](FCDObject* o) { return listed(SURF->GetImageCount(), [o](size_t i) { return SURF->GetImage(i); }); }};
		Kind& m = parameter("sampler", FCDEffectParameter::SAMPLER);
#define SAMP ((FCDEffectParameterSampler*) o)
		m.fields["type"] = Field{[](FCDObject* o, const L& v) { SAMP->SetSamplerType((FCDEffectParameterSampler::SamplerType) v[0]); }, [](FCDObject* o) { return L{(int) SAMP->GetSamplerType()}; }};
#define MODE(f, Name) m.fields[f] = Field{[](FCDObject* o, const L& v) { SAMP->SetWrap##Name((FUDaeTextureWrapMode::WrapMode) v[0]); }, [](FCDObject* o) { return L{(int) SAMP->GetWrap##Name()}; }}
		MODE("wrapS", S); MODE("wrapT", T); MODE("wrapP", P);
#undef MODE
#define MODE(f, Name) m.fields[f] = Field{[](FCDObject* o, const L& v) { SAMP->Set##Name((FUDaeTextureFilterFunction::FilterFunction) v[0]); }, [](FCDObject* o) { return L{(int) SAMP->Get##Name()}; }}
		MODE("min", MinFilter); MODE("mag", MagFilter); MODE("mipf", MipFilter);
		m.refs["surface"] = Reference{[](FCDObject* o, const Objects& to) { SAMP->SetSurface(to.empty() ? NULL : (FCDEffectParameterSurface*) to[0]); }, [](FCDObject* o) { return only(SAMP->GetSurface()); }};
		number<FCDEffectParameterBool, bool>("pBool", FCDEffectParameter::BOOLEAN, [](const L& v) { return v[0] != 0; }, [](const bool& b) { return L{b ? 1 : 0}; });
		number<FCDEffectParameterInt, int32>("pInt", FCDEffectParameter::INTEGER, [](const L& v) { return (int32) v[0]; }, [](const int32& b) { return L{(int) b}; });
		number<FCDEffectParameterFloat, float>("pFloat", FCDEffectParameter::FLOAT, [](const L& v) { return v[0] / 4.0f; }, [](const float& b) { return L{q(b, 4)}; });
		number<FCDEffectParameterFloat2, FMVector2>("pFloat2", FCDEffectParameter::FLOAT2, [](const L& v) { return FMVector2(v[0] / 4.0f, v[1] / 4.0f); }, [](const FMVector2& b) { return L{q(b.x, 4), q(b.y, 4)}; });
		number<FCDEffectParameterFloat3, FMVector3>("pFloat3", FCDEffectParameter::FLOAT3, [](const L& v) { return FMVector3(v[0] / 4.0f, v[1] / 4.0f, v[2] / 4.0f); }, [](const FMVector3& b) { return L{q(b.x, 4), q(b.y, 4), q(b.z, 4)}; });
		number<FCDEffectParameterVector, FMVector4>("pVector", FCDEffectParameter::VECTOR, &vec, &color);
		number<FCDEffectParameterMatrix, FMMatrix44>("pMatrix", FCDEffectParameter::MATRIX, [](const L& v) { FMMatrix44 m; for (int i = 0; i < 16; ++i) m[i / 4][i % 4] = v[i] / 4.0f; return m; },
			[](const FMMatrix44& b) { L r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.push_back(q(b[i][j], 4)); return r; });
		number<FCDEffectParameterString, fm::string>("pString", FCDEffectParameter::STRING, [](const L& v) { return fm::string(TEXTS[v[0]]); }, [](const fm::string& b) { return L{text(b.c_str())}; });
		half<FCDEffectParameterFloat>("pFloat"); half<FCDEffectParameterFloat2>("pFloat2"); half<FCDEffectParameterFloat3>("pFloat3"); half<FCDEffectParameterVector>("pVector"); half<FCDEffectParameterMatrix>("pMatrix");
		textures("tEmission", FUDaeTextureChannel::EMISSION); textures("tAmbient", FUDaeTextureChannel::AMBIENT); textures("tDiffuse", FUDaeTextureChannel::DIFFUSE); textures("tSpecular", FUDaeTextureChannel::SPECULAR);
		textures("tShininess", FUDaeTextureChannel::SHININESS); textures("tSpecLevel", FUDaeTextureChannel::SPECULAR_LEVEL); textures("tReflect", FUDaeTextureChannel::REFLECTION); textures("tRefract", FUDaeTextureChannel::REFRACTION);
		textures("tTransp", FUDaeTextureChannel::TRANSPARENT); textures("tBump", FUDaeTextureChannel::BUMP); textures("tDispl", FUDaeTextureChannel::DISPLACEMENT); textures("tFilter", FUDaeTextureChannel::FILTER);
		entities<FCDMaterial>(kind("material"), [](FCDObject* d) { return ((FCDocument*) d)->GetMaterialLibrary(); });
		Kind& t = kind("material");
		t.refs["effect"] = Reference{[](FCDObject* o, const Objects& to) { ((FCDMaterial*) o)->SetEffect(to.empty() ? NULL : (FCDEffect*) to[0]); }, [](FCDObject* o) { return only(((FCDMaterial*) o)->GetEffect()); }};
		t.fields["hints"] = Field{[](FCDObject* o, const L& v) { FCDMaterialTechniqueHintList& l = ((FCDMaterial*) o)->GetTechniqueHints(); l.clear();
				for (size_t i = 0; i + 1 < v.size(); i += 2) { FCDMaterialTechniqueHint h; h.platform = TEXTS[v[i]]; h.technique = TEXTS[v[i + 1]]; l.push_back(h); } },
			[](FCDObject* o) { L r; for (auto& h : ((FCDMaterial*) o)->GetTechniqueHints()) { r.push_back(text(h.platform.c_str())); r.push_back(text(h.technique.c_str())); } return r; }};
	}
	J other(const Args& a) override
	{
		if (a.op == "Image") // gives a texture an image, with a sampler and a surface for it
		{
			std::vector<Found> f = all();
			((FCDTexture*) f.at(a.i("i") - 1).o)->SetImage(a.i("j") == 0 ? NULL : (FCDImage*) f.at(a.i("j") - 1).o);
			return 0;
		}
		bad(a.op);
	}
};
}
VT_MODEL("materials", Materials)
