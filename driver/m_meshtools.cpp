#include "vt.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometrySource.h"
#include "FCDocument/FCDGeometryPolygons.h"
#include "FCDocument/FCDGeometryPolygonsInput.h"
#include "FCDocument/FCDGeometryPolygonsTools.h"
using namespace vt;

namespace {
const FUDaeGeometryInput::Semantic semantics[3] = { FUDaeGeometryInput::POSITION, FUDaeGeometryInput::NORMAL, FUDaeGeometryInput::TEXCOORD };
const uint32 strides[3] = { 3, 3, 2 };
const FCDGeometryPolygons::PrimitiveType prims[4] = { FCDGeometryPolygons::POLYGONS, FCDGeometryPolygons::TRIANGLE_FANS, FCDGeometryPolygons::TRIANGLE_STRIPS, FCDGeometryPolygons::LINES };

struct MeshTools : public Model
{
	FCDocument* doc = NULL;
	FCDGeometry* geom = NULL;
	FCDGeometryMesh* mesh = NULL;
	std::vector<int> off;
	int nval = 0;
	std::vector<FCDGeometrySource*> src;

	// component c of value v of source i
	static float value(size_t i, int v, uint32 c) { return (float) ((int) i * 100 + v * 10 + (int) c + 1); }
	void reset(const Args& a) override
	{
		FCollada::Initialize();
		doc = FCollada::NewTopDocument();
		geom = doc->GetGeometryLibrary()->AddEntity();
		mesh = geom->CreateMesh();
		off = a.l("Off");
		nval = a.i("NVal");
		for (size_t i = 0; i < off.size(); ++i)
		{
			src.push_back(i == 0 ? mesh->AddVertexSource(semantics[i]) : mesh->AddSource(semantics[i]));
			FloatList l;
			for (int v = 0; v < nval; ++v) for (uint32 c = 0; c < strides[i]; ++c) l.push_back(value(i, v, c));
			src[i]->SetData(l, strides[i]);
		}
	}
	// Which value, and which sign.
	static int which(FCDGeometrySource* s, size_t i, uint32 index, int& sign)
	{
		if (s->GetStride() != strides[i] || index >= s->GetValueCount()) return -1;
		const float* d = s->GetData() + index * strides[i];
		int sg = d[0] < 0 ? -1 : 1;
		int v = ((int) (d[0] * sg) - (int) i * 100 - 1) / 10;
		for (uint32 c = 0; c < strides[i]; ++c) if (d[c] * sg != value(i, v, c)) return -2;
		if (i == 1) { if (sign == 0) sign = sg; if (sign != sg) return -3; } else if (sg < 0) return -4;
		return v;
	}
	J obsMesh(FCDGeometryMesh* m, int& sign)
	{
		J sets = J::arr();
		for (size_t p = 0; p < m->GetPolygonsCount(); ++p)
		{
			FCDGeometryPolygons* ps = m->GetPolygons(p);
			int k = 0;
			while (k < 4 && prims[k] != ps->GetPrimitiveType()) ++k;
			size_t o = 0;
			std::vector<FCDGeometryPolygonsInput*> ins;
			J fs = J::arr();
			for (size_t i = 0; i < off.size(); ++i)
			{
				ins.push_back(ps->FindInput(semantics[i]));
				if (ins[i] == NULL || ins[i]->GetIndexCount() != ps->GetFaceVertexCount()) { fs.add("input " + std::to_string(i)); ins[i] = NULL; }
				else if (i == 2 && ins[i]->GetSet() != 7) fs.add("set " + std::to_string(ins[i]->GetSet()));
			}
			for (size_t f = 0; f < ps->GetFaceVertexCountCount(); ++f)
			{
				J cs = J::arr();
				for (uint32 j = 0; j < ps->GetFaceVertexCounts()[f]; ++j, ++o)
				{
					J c = J::arr();
					for (size_t i = 0; i < off.size(); ++i) c.add(ins[i] == NULL ? -9 : which(ins[i]->GetSource(), i, ins[i]->GetIndices()[o], sign));
					cs.add(c);
				}
				fs.add(J::obj().set("h", ps->IsHoleFaceHole(f)).set("c", cs));
			}
			if (ps->GetMaterialSemantic() != FS("mat") + TO_FSTRING(k) && ps->GetMaterialSemantic() != FS("mat1") && ps->GetMaterialSemantic() != FS("mat2")) k = -1;
			sets.add(J::obj().set("k", k).set("f", fs));
		}
		return sets;
	}
	// renumbers the indices of each set by their first occurrence
	static J renumber(const uint32* q, size_t n)
	{
		std::map<uint32, int> seen;
		J r = J::arr();
		for (size_t i = 0; i < n; ++i) { if (!seen.count(q[i])) { int c = (int) seen.size() + 1; seen[q[i]] = c; } r.add(seen[q[i]]); }
		return r;
	}
	J went(const FCDGeometryIndexTranslationMap& map, const std::vector<std::vector<uint32>>& before, const std::vector<std::vector<uint32>>& after)
	{
		// each position became exactly the new indices of the corners that used it
		std::map<uint32, std::map<uint32, bool>> want;
		for (size_t p = 0; p < after.size(); ++p) for (size_t i = 0; i < after[p].size(); ++i) want[before[p][i]][after[p][i]] = true;
		J r = J::arr();
		for (int v = 0; v < nval; ++v)
		{
			FCDGeometryIndexTranslationMap::const_iterator it = map.find((uint32) v);
			size_t n = it == map.end() ? 0 : it->second.size();
			if (n != want[v].size()) { r.add("count " + std::to_string(n)); continue; }
			bool fine = true;
			for (size_t i = 0; i < n; ++i) if (!want[v].count(it->second[i])) fine = false;
			if (fine) r.add((int) n); else r.add("other");
		}
		if (map.size() > (size_t) nval) r.add("more");
		return r;
	}
	static std::vector<uint32> indices(FCDGeometryPolygons* p, FUDaeGeometryInput::Semantic s)
	{
		FCDGeometryPolygonsInput* in = p->FindInput(s);
		return in == NULL ? std::vector<uint32>() : std::vector<uint32>(in->GetIndices(), in->GetIndices() + in->GetIndexCount());
	}
	bool raw = true;
	J op(const Args& a) override
	{
		const std::string& op = a.op;
		int pn = a.has("p") ? a.i("p") : 0;
		FCDGeometryPolygons* p = pn ? mesh->GetPolygons(pn - 1) : NULL;
		if (op == "AddSet")
		{
			p = mesh->AddPolygons();
			for (size_t i = 1; i < off.size(); ++i) p->AddInput(src[i], (uint32) off[i])->SetSet(i == 2 ? 7 : -1);
			p->SetPrimitiveType(prims[a.i("k")]);
			p->SetMaterialSemantic(FS("mat") + TO_FSTRING(a.i("k")));
			mesh->Recalculate();
			return 0;
		}
		if (op == "AddFace")
		{
			int d = a.i("d"), t = a.i("t");
			size_t before = p->GetFaceVertexCount(), face = p->GetFaceVertexCountCount();
			p->AddFace((uint32) d);
			if (a.b("h")) p->AddHole((uint32) face);
			for (size_t i = 0; i < off.size(); ++i)
			{
				uint32* q = p->FindInput(semantics[i])->GetIndices() + before;
				for (int j = 1; j <= d; ++j) q[j - 1] = (uint32) ((off[i] == 0 ? t + j : off[i] == 1 ? t * j : t + j / 2) % nval);
			}
			mesh->Recalculate();
			return 0;
		}
		if (op == "Triangulate") { if (p == NULL) FCDGeometryPolygonsTools::Triangulate(mesh); else FCDGeometryPolygonsTools::Triangulate(p, true); mesh->Recalculate(); return 0; }
		if (op == "Unique" || op == "Number")
		{
			std::vector<std::vector<uint32>> before, after;
			size_t n = mesh->GetPolygonsCount();
			for (size_t i = 0; i < n; ++i) before.push_back(indices(mesh->GetPolygons(i), semantics[0]));
			J idx = J::arr(), w = J::arr();
			if (op == "Unique")
			{
				FCDGeometryIndexTranslationMap map;
				FCDGeometryPolygonsTools::GenerateUniqueIndices(mesh, p, &map);
				for (size_t i = 0; i < n; ++i)
				{
					if (pn != 0 && (size_t) pn != i + 1) { idx.add(J::arr()); after.push_back(std::vector<uint32>()); continue; }
					std::vector<uint32> q = indices(mesh->GetPolygons(i), semantics[0]);
					after.push_back(q);
					bool same = true;
					for (size_t k = 1; k < off.size(); ++k) same = same && indices(mesh->GetPolygons(i), semantics[k]) == q;
					for (size_t k = 0; k < mesh->GetPolygons(i)->GetInputCount(); ++k) same = same && mesh->GetPolygons(i)->GetInput(k)->GetOffset() == 0;
					if (same || q.empty()) idx.add(renumber(q.data(), q.size())); else idx.add("several indices per corner");
				}
				if (raw) w = went(map, before, after);
				raw = false;
			}
			else
			{
				FCDNewIndicesList out;
				FCDGeometryIndexTranslationMapList maps;
				FCDGeometryPolygonsTools::GenerateUniqueIndices(mesh, p, out, maps);
				for (size_t i = 0; i < n; ++i)
				{
					if (pn != 0 && (size_t) pn != i + 1) { idx.add(J::arr()); after.push_back(std::vector<uint32>()); continue; }
					const UInt32List& l = pn == 0 ? out[i] : out[0];
					after.push_back(std::vector<uint32>(l.begin(), l.end()));
					idx.add(renumber(l.begin(), l.size()));
				}
				w = went(*maps[0], before, after);
				while (!maps.empty()) { delete maps.back(); maps.pop_back(); }
			}
			return J::obj().set("idx", idx).set("went", w);
		}
		if (op == "Fit") { FCDGeometryPolygonsTools::FitIndexBuffers(mesh, a.i("m")); return 0; }
		if (op == "Reverse") { FCDGeometryPolygonsTools::ReverseNormals(mesh); return 0; }
		if (op == "Pack")
		{
			std::vector<uint32> q = indices(p, semantics[0]);
			UInt16List map;
			std::vector<uint16> out(q.size() + 1);
			uint16 nv = 0;
			uint16 n = FCDGeometryPolygonsTools::GenerateVertexPackingMap(nval - 1, a.i("n"), a.i("v"), q.data(), out.data(), &map, &nv);
			J o = J::arr();
			for (uint16 i = 0; i < n; ++i) o.add((int) out[i]);
			return J::obj().set("n", (int) n).set("v", (int) nv).set("out", o);
		}
		if (op == "Clone")
		{
			FCDEntity* c = geom->Clone();
			int sign = 0;
			J r = obsMesh(((FCDGeometry*) c)->GetMesh(), sign);
			c->Release();
			return r;
		}
		bad(op);
	}
	J obs() override
	{
		int sign = 0;
		J sets = obsMesh(mesh, sign);
		if (sign == 0) { FCDGeometrySource* n = mesh->FindSourceByType(FUDaeGeometryInput::NORMAL); sign = n != NULL && n->GetDataCount() > 0 && n->GetData()[0] < 0 ? -1 : 1; }
		return J::obj().set("sign", sign).set("sets", sets).set("total", J::arr().add((int) mesh->GetFaceCount()).add((int) mesh->GetFaceVertexCount()));
	}
	J finish() override { doc->Release(); FCollada::Release(); return true; }
};
}
VT_MODEL("meshtools", MeshTools)
