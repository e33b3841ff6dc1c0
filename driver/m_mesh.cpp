#include "vt.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometrySource.h"
#include "FCDocument/FCDGeometryPolygons.h"
#include "FCDocument/FCDGeometryPolygonsInput.h"
using namespace vt;

namespace {
const FCDGeometryPolygons::PrimitiveType prims[4] = { FCDGeometryPolygons::POLYGONS, FCDGeometryPolygons::TRIANGLE_FANS, FCDGeometryPolygons::LINES, FCDGeometryPolygons::TRIANGLE_STRIPS };

struct MeshM : public Model
{
	FCDocument* doc = NULL;
	FCDGeometry* geom = NULL;
	FCDGeometryMesh* mesh = NULL;
	std::vector<FCDGeometrySource*> src;

	void reset(const Args& a) override
	{
		FCollada::Initialize();
		doc = FCollada::NewTopDocument();
		geom = doc->GetGeometryLibrary()->AddEntity();
		mesh = geom->CreateMesh();
		src.assign(a.i("NSrc"), NULL);
	}
	// sources are identified by their data
	static int id(const FCDGeometrySource* s) { return s == NULL ? 0 : s->GetDataCount() == 0 ? -1 : (int) s->GetData()[0]; }
	FCDGeometrySource* mark(FCDGeometrySource* s, int n) { FloatList l; l.push_back((float) n); s->SetData(l, 1); return s; }
	J op(const Args& a) override
	{
		const std::string& op = a.op;
		FCDGeometryPolygons* p = a.has("p") ? mesh->GetPolygons(a.i("p") - 1) : NULL;
		int sn = a.has("s") ? a.i("s") : 0;
		FCDGeometrySource* s = sn ? src[sn - 1] : NULL;
		if (op == "AddSource") { src[sn - 1] = mark(mesh->AddSource(FUDaeGeometryInput::TEXCOORD), sn); return 0; }
		if (op == "AddVertex") { src[sn - 1] = mark(mesh->AddVertexSource(FUDaeGeometryInput::POSITION), sn); return 0; }
		if (op == "MakeVertex") { mesh->AddVertexSource(s); return 0; }
		if (op == "UnmakeVertex") { mesh->RemoveVertexSource(s); return 0; }
		if (op == "ReleaseSource") { s->Release(); src[sn - 1] = NULL; return 0; }
		if (op == "AddSet")
		{
			FCDGeometryPolygons* n = mesh->AddPolygons();
			n->SetPrimitiveType(prims[a.i("k")]);
			n->SetMaterialSemantic(FS("mat") + TO_FSTRING(a.i("k")));
			mesh->Recalculate();
			return 0;
		}
		if (op == "ReleaseSet") { p->Release(); mesh->Recalculate(); return 0; }
		if (op == "AddInput") { p->AddInput(s, (uint32) a.i("o"))->SetSet(sn + a.i("o")); return 0; }
		if (op == "ReleaseInput") { p->GetInput(a.i("i") - 1)->Release(); return 0; }
		if (op == "Fill")
		{
			UInt32List l; for (size_t k = 1; k <= p->GetFaceVertexCount(); ++k) l.push_back(a.i("t") * 100 + (uint32) k);
			p->GetInput(a.i("i") - 1)->SetIndices(l.begin(), l.size());
			return 0;
		}
		if (op == "AddFace")
		{
			int d = a.i("d"), t = a.i("t");
			size_t before = p->GetFaceVertexCount();
			p->AddFace((uint32) d);
			// the new indices are the user's to fill in
			std::map<uint32, bool> done;
			for (size_t i = 0; i < p->GetInputCount(); ++i)
			{
				FCDGeometryPolygonsInput* in = p->GetInput(i);
				if (in->GetIndexCount() == 0) continue;
				if (in->GetIndexCount() != before + d) return "index count " + std::to_string(in->GetIndexCount());
				for (int j = 1; j <= d; ++j) in->GetIndices()[before + j - 1] = in->GetOffset() * 1000 + t * 100 + d * 10 + j;
			}
			return 0;
		}
		if (op == "RemoveFace") { p->RemoveFace(a.i("f")); return 0; }
		if (op == "AddHole") { p->AddHole((uint32) a.i("f")); mesh->Recalculate(); return 0; }
		if (op == "Clone")
		{
			FCDEntity* c = geom->Clone();
			J r = obsMesh(((FCDGeometry*) c)->GetMesh(), true); // the per-vertex sources of a clone come in mesh order
			if (((FCDGeometry*) c)->GetMesh() == mesh) r.set("same", true);
			c->Release();
			return r;
		}
		bad(op);
	}
	static J obsSet(FCDGeometryPolygons* p)
	{
		J fv = J::arr(), holes = J::arr(), faces = J::arr(), ins = J::arr();
		for (size_t i = 0; i < p->GetFaceVertexCountCount(); ++i) fv.add((int) p->GetFaceVertexCounts()[i]);
		for (size_t i = 0; i < p->GetHoleFaceCount(); ++i)
		{
			holes.add((int) p->GetHoleFaces()[i]);
			if (!p->IsHoleFaceHole(p->GetHoleFaces()[i])) holes.add("?");
		}
		for (size_t f = 0; f < p->GetFaceCount(); ++f)
			faces.add(J::obj().set("off", (int) p->GetFaceVertexOffset(f)).set("n", (int) p->GetFaceVertexCount(f)).set("holes", (int) p->GetHoleCount(f)).set("before", (int) p->GetHoleCountBefore(f)));
		for (size_t i = 0; i < p->GetInputCount(); ++i)
		{
			FCDGeometryPolygonsInput* in = p->GetInput(i);
			J idx = J::arr();
			for (size_t k = 0; k < in->GetIndexCount(); ++k) idx.add((int) in->GetIndices()[k]);
			ins.add(J::obj().set("s", id(in->GetSource())).set("o", (int) in->GetOffset()).set("g", (int) in->GetSet()).set("idx", idx));
			if (in->GetSource() != NULL)
			{
				FCDGeometryPolygonsInput* first = p->FindInput(in->GetSource());
				if (first == NULL || first->GetSource() != in->GetSource()) ins.add("FindInput");
			}
		}
		int k = 0;
		while (k < 4 && prims[k] != p->GetPrimitiveType()) ++k;
		if (p->GetMaterialSemantic() != FS("mat") + TO_FSTRING(k)) k = -1;
		return J::obj().set("k", k).set("fv", fv).set("holes", holes).set("n", (int) p->GetFaceVertexCount()).set("faces", faces).set("ins", ins);
	}
	static J obsMesh(FCDGeometryMesh* m, bool bySource = false)
	{
		J order = J::arr(), vert = J::arr(), sets = J::arr(), total = J::arr();
		for (size_t i = 0; i < m->GetSourceCount(); ++i) order.add(id(m->GetSource(i)));
		if (bySource) { for (size_t i = 0; i < m->GetSourceCount(); ++i) if (m->IsVertexSource(m->GetSource(i))) vert.add(id(m->GetSource(i))); }
		else for (size_t i = 0; i < m->GetVertexSourceCount(); ++i) { vert.add(id(m->GetVertexSource(i))); if (!m->IsVertexSource(m->GetVertexSource(i))) vert.add("?"); }
		for (size_t i = 0; i < m->GetPolygonsCount(); ++i)
		{
			FCDGeometryPolygons* p = m->GetPolygons(i);
			sets.add(J::obj().set("set", obsSet(p)).set("faceOffset", (int) p->GetFaceOffset()).set("holeOffset", (int) p->GetHoleOffset()).set("fvOffset", (int) p->GetFaceVertexOffset()));
		}
		total.add((int) m->GetFaceCount()).add((int) m->GetHoleCount()).add((int) m->GetFaceVertexCount());
		return J::obj().set("order", order).set("vert", vert).set("sets", sets).set("total", total);
	}
	J obs() override { return obsMesh(mesh); }
	J finish() override { doc->Release(); FCollada::Release(); return true; }
};
}
VT_MODEL("mesh", MeshM)
