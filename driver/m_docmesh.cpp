#include "vt.h"
#include "vt_io.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometryPolygons.h"
#include "FCDocument/FCDGeometryPolygonsInput.h"
#include "FCDocument/FCDGeometrySource.h"
#include "FCDocument/FCDGeometrySpline.h"
#include "FCDocument/FCDLibrary.h"
using namespace vt;

namespace {
const FUDaeGeometryInput::Semantic types[] = { FUDaeGeometryInput::UNKNOWN, FUDaeGeometryInput::POSITION, FUDaeGeometryInput::NORMAL, FUDaeGeometryInput::TEXCOORD, FUDaeGeometryInput::COLOR,
	FUDaeGeometryInput::GEOTANGENT, FUDaeGeometryInput::GEOBINORMAL, FUDaeGeometryInput::TEXTANGENT, FUDaeGeometryInput::TEXBINORMAL, FUDaeGeometryInput::UV, FUDaeGeometryInput::EXTRA,
	FUDaeGeometryInput::POINT_SIZE, FUDaeGeometryInput::POINT_ROTATION };
const FCDGeometryPolygons::PrimitiveType prims[] = { FCDGeometryPolygons::POLYGONS, FCDGeometryPolygons::LINES, FCDGeometryPolygons::LINE_STRIPS, FCDGeometryPolygons::TRIANGLE_FANS, FCDGeometryPolygons::TRIANGLE_STRIPS, FCDGeometryPolygons::POINTS };
const char* MATS[] = {"", "material", "blue_1", "m-2.3"};
template <class T, size_t N, class V> int index(const T (&l)[N], const V& v) { for (size_t i = 0; i < N; ++i) if (v == l[i]) return (int) i; return -1; }

struct DocMesh : public Model
{
	FCDocument* doc = NULL;
	FCDGeometryMesh* mesh = NULL;
	static fm::string id(size_t i) { return fm::string(("src" + std::to_string(i + 1)).c_str()); }
	// variant d of the data: the stride and the values
	static uint32 data(int d, size_t i, FloatList& l)
	{
		static const int strides[] = {3, 3, 2, 4, 1, 5, 3, 16, 6}, counts[] = {4, 4, 5, 4, 6, 4, 0, 4, 1};
		for (int k = 0; k < strides[d] * counts[d]; ++k) l.push_back((float) (d == 1 ? (k * 7919 % 97 - 40) * 0.125 : d == 5 ? k * 250000 : k) + (float) i * 100);
		return strides[d];
	}
	void reset(const Args&) override
	{
		FCollada::Initialize();
		doc = FCollada::NewTopDocument();
		FCDGeometry* g = doc->GetGeometryLibrary()->AddEntity(); g->SetDaeId("geometry");
		mesh = g->CreateMesh();
	}
	J op(const Args& a) override
	{
		const std::string& op = a.op;
		FCDGeometryPolygons* p = a.has("p") ? mesh->GetPolygons(a.i("p") - 1) : NULL;
		FCDGeometrySource* s = a.has("s") ? mesh->GetSource(a.i("s") - 1) : NULL;
		if (op == "Source")
		{
			size_t i = mesh->GetSourceCount();
			FCDGeometrySource* n = a.i("v") ? mesh->AddVertexSource(types[a.i("t")]) : mesh->AddSource(types[a.i("t")]);
			FloatList l; uint32 stride = data(a.i("d"), i, l);
			n->SetData(l, stride); n->SetDaeId(id(i));
			if (a.i("n")) n->SetName(FC("a source"));
			return 0;
		}
		if (op == "Set") { p = mesh->AddPolygons(); p->SetPrimitiveType(prims[a.i("k")]); p->SetMaterialSemantic(TO_FSTRING(MATS[a.i("m")])); mesh->Recalculate(); return 0; }
		if (op == "Input") { p->AddInput(s, (uint32) a.i("o"))->SetSet(a.i("g")); return 0; }
		if (op == "Move") { for (size_t i = 0; i < p->GetInputCount(); ++i) if (mesh->IsVertexSource(p->GetInput(i)->GetSource())) p->GetInput(i)->SetOffset((uint32) a.i("o")); return 0; }
		if (op == "Group") { for (size_t k = 0; k < mesh->GetPolygonsCount(); ++k) mesh->GetPolygons(k)->FindInput(s)->SetSet(a.i("g")); return 0; }
		if (op == "Face")
		{
			uint32 d = (uint32) a.i("d");
			if (a.i("h")) p->AddHole((uint32) p->GetFaceVertexCountCount());
			p->AddFaceVertexCount(d);
			std::map<uint32, bool> done;
			for (size_t i = 0; i < p->GetInputCount(); ++i)
			{
				FCDGeometryPolygonsInput* in = p->GetInput(i);
				if (done[in->GetOffset()]) continue;
				done[in->GetOffset()] = true;
				for (uint32 j = 1; j <= d; ++j) in->AddIndex((uint32) ((a.i("x") + (in->GetOffset() + 1) * j) % 4));
			}
			mesh->Recalculate();
			return 0;
		}
		if (op == "Save") return twice(doc);
		if (op == "Again")
		{
			doc = saveload(doc); mesh = NULL;
			if (doc == NULL) return "load";
			FCDGeometry* g = doc->FindGeometry("geometry");
			if (g == NULL || g->GetMesh() == NULL) return "mesh";
			mesh = g->GetMesh();
			return 0;
		}
		bad(op);
	}
	int number(const FCDGeometrySource* s) { for (size_t i = 0; i < mesh->GetSourceCount(); ++i) if (mesh->GetSource(i) == s) return (int) i + 1; return 0; }
	J obs() override
	{
		if (mesh == NULL) return "none";
		J src = J::arr(), vert = J::arr(), set = J::arr();
		for (size_t i = 0; i < mesh->GetSourceCount(); ++i)
		{
			FCDGeometrySource* s = mesh->GetSource(i);
			int d = -1;
			for (int k = 0; k < 9 && d < 0; ++k)
			{
				FloatList l; uint32 stride = data(k, i, l);
				if (stride == s->GetStride() && l.size() == s->GetDataCount() && s->GetValueCount() == l.size() / stride) { bool same = true; for (size_t j = 0; j < l.size(); ++j) if (fabsf(l[j] - s->GetData()[j]) > 5e-6f * fabsf(l[j])) same = false; if (same) d = k; }
			}
			if (s->GetDaeId() != id(i)) d = -2;
			src.add(J::obj().set("t", index(types, s->GetType())).set("v", mesh->IsVertexSource(s) ? 1 : 0).set("d", d).set("n", s->GetName().empty() ? 0 : s->GetName() == FC("a source") ? 1 : -1));
		}
		for (size_t i = 0; i < mesh->GetVertexSourceCount(); ++i) vert.add(number(mesh->GetVertexSource(i)));
		for (size_t k = 0; k < mesh->GetPolygonsCount(); ++k)
		{
			FCDGeometryPolygons* p = mesh->GetPolygons(k);
			J fv = J::arr(), holes = J::arr(), ins = J::arr();
			for (size_t i = 0; i < p->GetFaceVertexCountCount(); ++i) fv.add((int) p->GetFaceVertexCounts()[i]);
			for (size_t i = 0; i < p->GetHoleFaceCount(); ++i) holes.add((int) p->GetHoleFaces()[i]);
			for (size_t i = 0; i < p->GetInputCount(); ++i)
			{
				FCDGeometryPolygonsInput* in = p->GetInput(i);
				J idx = J::arr();
				for (size_t j = 0; j < in->GetIndexCount(); ++j) idx.add((int) in->GetIndices()[j]);
				ins.add(J::obj().set("s", number(in->GetSource())).set("o", (int) in->GetOffset()).set("g", (int) in->GetSet()).set("idx", idx));
			}
			std::string mat = p->GetMaterialSemantic().c_str(); int m = -1;
			for (int i = 0; i < 4; ++i) if (mat == MATS[i]) m = i;
			set.add(J::obj().set("k", index(prims, p->GetPrimitiveType())).set("m", m).set("fv", fv).set("holes", holes).set("faces", (int) p->GetFaceCount()).set("n", (int) p->GetFaceVertexCount()).set("off", (int) p->GetFaceVertexOffset()).set("ins", ins));
		}
		return J::obj().set("src", src).set("vert", vert).set("set", set);
	}
	J finish() override { SAFE_RELEASE(doc); FCollada::Release(); return true; }
};
}
VT_MODEL("docmesh", DocMesh)
