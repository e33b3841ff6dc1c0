"""The models and, per property, the configurations explored in each tier."""
from core import canon


class MD:
    def __init__(self, name, module, driver, invariants, ops, begin=None, limit=30, actionprops=(), same=None):
        self.name, self.module, self.driver = name, module, driver
        self.invariants, self.ops, self.begin, self.limit = invariants, ops.split(), begin or {}, limit
        self.actionprops = actionprops
        if same:
            self.same = same

    def same(self, a, b):
        return a == b and canon(a) == canon(b)


PROPS = {}


def prop(pid, models, explain, assumptions=(), extra=()):
    import explain as texts_
    PROPS[pid] = dict(models=models, explain=texts_.E[pid] if explain == "x" else explain, assumptions=list(assumptions), extra=list(extra))


# ---------------------------------------------------------------------------------------- objects
def objects(name, ops, **c):
    k = dict(NObj=3, NCont=0, NRef=0, NPtr=0, NList=0, NHold=0)
    k.update(c)
    return k, MD(name, "Objects", "objects",
                 ["SingleOwner", "NoDanglingOwnership", "DeadOwnNothing", "AcyclicOwnership", "NoDanglingTracker", "ListsHaveNoDuplicates"],
                 ops, begin=k, actionprops=["OnlyReleaseKills"])


CONT_OPS = "New Release Push Insert InsertMany Erase EraseVal EraseRange PopBack PopFront Clear Detach DetachVal DetachRange Transfer"
k1, m1 = objects("ownership", CONT_OPS + " RefSet RefMove", NObj=3, NCont=2, NRef=1, NHold=1)
k1s, m1s = objects("ownership-large", CONT_OPS + " RefSet RefMove", NObj=7, NCont=3, NRef=2, NHold=2, NPtr=1, NList=1)
prop("P01", [(m1, dict(quick=dict(mc=[dict(const=k1)]), thorough=dict(mc=[dict(const=k1, covers=4)]))),
             (m1s, dict(quick=dict(sim=[dict(const=k1s, grow=["New", "Insert"], num=60, depth=40)]), thorough=dict(sim=[dict(const=k1s, grow=["New", "Insert"], num=2000, depth=80, timeout=700)])))],
     "x")
TRK_OPS = "New Release PtrSet PtrCopy PtrClone ListPush ListInsert ListInsertMany ListErase ListEraseVal ListEraseRange ListPopBack ListPopFront ListClear ListRelease ListCopy ListClone"
k2, m2 = objects("trackers", TRK_OPS, NObj=2, NPtr=2, NList=2)
k2b, m2b = objects("trackers-3", TRK_OPS.replace(" ListCopy ListClone", ""), NObj=3, NCont=1, NPtr=2, NList=1)
k2c, m2c = objects("tracked-lists-3", "New Release ListPush ListInsert ListInsertMany ListErase ListEraseVal ListEraseRange ListPopBack ListPopFront ListClear ListRelease ListCopy ListClone", NObj=3, NList=2)
k2s, m2s = objects("trackers-large", TRK_OPS, NObj=7, NCont=2, NPtr=3, NList=3, NHold=1)
prop("P02", [(m2, dict(quick=dict(mc=[dict(const=k2)]), thorough=dict(mc=[dict(const=k2, covers=6)]))),
             (m2b, dict(quick=dict(), thorough=dict(mc=[dict(const=k2b)]))),
             (m2c, dict(quick=dict(), thorough=dict(mc=[dict(const=k2c)]))),
             (m2s, dict(quick=dict(sim=[dict(const=k2s, grow=["New", "ListInsert", "PtrSet"], num=60, depth=50)]), thorough=dict(sim=[dict(const=k2s, grow=["New", "ListInsert", "PtrSet"], num=2000, depth=80, timeout=700)])))],
     "x")

# ---------------------------------------------------------------------------------------- events
def events(name, ops, **c):
    k = dict(Cap=1, NObj=2, MaxLen=3, NSimple=0, NLog=0, Kinds={0}, NLev=0, Lists={0})
    k.update(c)
    return k, MD(name, "Events", "events", ["Bounded", "SimRegistered", "LogRegistered", "FailsOnlyAtLevel"], ops,
                 begin={x: k[x] for x in ("NObj", "MaxLen", "NSimple", "NLog")}, actionprops=["ExactlyOnce"])


k3, m3 = events("events", "Add Remove Raise", NObj=3, MaxLen=4, Kinds={0, 1, 2, 6})
k3b, m3b = events("error-sinks", "Add Remove Raise SetFatal", NObj=2, MaxLen=2, Kinds={0, 1, 3}, NLev=3, Lists={1, 3})
k3c, m3c = events("error-handlers", "Raise SetFatal SimUp SimDown LogUp LogDown LogQuery", NObj=1, MaxLen=3, Kinds={0}, NLev=3, NSimple=1, NLog=1, Lists={1, 2, 3})
k3d, m3d = events("error-simple-handler", "Add Remove Raise SetFatal SimUp SimDown", Cap=2, NObj=1, MaxLen=3, Kinds={0}, NLev=3, NSimple=1, Lists={2, 3})
k3e, m3e = events("error-log", "Add Remove Raise LogUp LogDown LogQuery", NObj=1, MaxLen=2, Kinds={0}, NLev=3, NLog=1, Lists={1, 2, 3})
k3s, m3s = events("events-large", "Add Remove Raise SetFatal SimUp SimDown LogUp LogDown LogQuery", NObj=4, MaxLen=8, Kinds={0, 1, 2, 3, 6}, Cap=3, NLev=3, NSimple=2, NLog=2, Lists={0, 1, 2, 3})
prop("P03", [(m3, dict(quick=dict(mc=[dict(const=k3)]), thorough=dict(mc=[dict(const=k3, covers=3)]))),
             (m3b, dict(quick=dict(mc=[dict(const=k3b)]), thorough=dict(mc=[dict(const=k3b, covers=3)]))),
             (m3d, dict(quick=dict(mc=[dict(const=k3d)]), thorough=dict())),
             (m3e, dict(quick=dict(mc=[dict(const=k3e)]), thorough=dict())),
             (m3c, dict(quick=dict(), thorough=dict(mc=[dict(const=k3c)]))),
             (m3s, dict(quick=dict(sim=[dict(const=k3s, grow=["Add"], num=60, depth=50)]), thorough=dict(sim=[dict(const=k3s, grow=["Add"], num=2000, depth=80, timeout=700)])))],
     "x")

# ---------------------------------------------------------------------------------------- containers
def simple(name, module, driver, invs, ops, consts, begin=None, aps=(), **kw):
    return MD(name, module, driver, invs, ops, begin={k: consts[k] for k in (begin or [])}, actionprops=list(aps), **kw)


VEC_OPS = "PushBack PushFront Insert InsertN InsertArr InsertSelf InsertSelfN EraseAt EraseRange EraseVal PopBack PopFront Resize Shrink Reserve Clear Replace ReplaceIn Assign Sort SetAt Find Equal Ends"
VEC_INV = ["TypeOK", "CapOK"]
VEC_AP = ["OnlyTarget", "SortIsPermutation"]
k5 = dict(Pos={0, 1, 2, 3, 4}, NVec=1, MaxLen=4, Vals={0, 1, 2}, MaxCap=6)
k5b = dict(Pos={0, 1, 2}, NVec=2, MaxLen=2, Vals={0, 1}, MaxCap=3)
k5c = dict(Pos={0, 1, 2, 3}, NVec=2, MaxLen=3, Vals={0, 1}, MaxCap=4)
k5s = dict(Pos={0, 1, 2, 3, 7, 20, 31, 33, 40}, NVec=2, MaxLen=70, Vals={0, 1, 2, 3}, MaxCap=99)
m5 = simple("vector", "Vector", "vector", VEC_INV, VEC_OPS, k5, ["NVec"], VEC_AP)
m5b = simple("two-vectors", "Vector", "vector", VEC_INV, VEC_OPS.replace("InsertSelfN ", "") + " Copy InsertRange", k5b, ["NVec"], VEC_AP)
m5s = simple("vector-large", "Vector", "vector", VEC_INV, VEC_OPS + " Copy InsertRange", k5s, ["NVec"])
prop("P05", [(m5, dict(quick=dict(mc=[dict(const=k5)]), thorough=dict(mc=[dict(const=k5, covers=4)]))),
             (m5b, dict(quick=dict(mc=[dict(const=k5b)]), thorough=dict(mc=[dict(const=k5c)]))),
             (m5s, dict(quick=dict(sim=[dict(const=k5s, grow=["InsertArr", "InsertN", "PushBack"], num=60, depth=70)]),
                        thorough=dict(sim=[dict(const=k5s, grow=["InsertArr", "InsertN", "PushBack"], num=1500, depth=120, timeout=700)])))],
     "x")
TREE_OPS = "Insert Put Touch Erase EraseIt Find Clear Assign Last"
TREE_INV = ["AllBalanced", "Ordered"]
k6 = dict(NTree=1, Keys=set(range(1, 10)), Vals={0}, MaxSize=9)
k6b = dict(NTree=2, Keys={1, 2, 3}, Vals={1}, MaxSize=3)
k6c = dict(NTree=2, Keys={1, 2, 3}, Vals={1, 2}, MaxSize=3)
k6t = dict(NTree=1, Keys=set(range(1, 12)), Vals={0}, MaxSize=11)
k6s = dict(NTree=2, Keys=set(range(1, 60)), Vals={1, 2}, MaxSize=59)
m6 = simple("tree", "Tree", "tree", TREE_INV, TREE_OPS, k6, ["NTree"], ["OnlyKey"])
m6b = simple("two-trees", "Tree", "tree", TREE_INV, TREE_OPS + " Copy", k6b, ["NTree"], ["OnlyKey"])
k6d = dict(NTree=2, Keys={1, 2, 3, 4, 5}, Vals={1}, MaxSize=5)
m6d = simple("copied-trees", "Tree", "tree", TREE_INV, "Insert Erase Copy Assign", k6d, ["NTree"], ["OnlyKey"])
m6s = simple("tree-large", "Tree", "tree", TREE_INV, TREE_OPS + " Copy", k6s, ["NTree"])
prop("P06", [(m6, dict(quick=dict(mc=[dict(const=k6)]), thorough=dict(mc=[dict(const=k6t)]))),
             (m6b, dict(quick=dict(mc=[dict(const=k6b)]), thorough=dict(mc=[dict(const=k6c)]))),
             (m6d, dict(quick=dict(mc=[dict(const=k6d, ops="Insert Erase Copy Assign")]), thorough=dict(mc=[dict(const=k6d, ops="Insert Erase Copy Assign", covers=3)]))),
             (m6s, dict(quick=dict(sim=[dict(const=k6s, grow=["Insert"], num=32, depth=60)]),
                        thorough=dict(sim=[dict(const=k6s, grow=["Insert"], num=1000, depth=150, timeout=700)])))],
     "x")

# ---------------------------------------------------------------------------------------- unique names and ids
k4 = dict(Prefixes={0, 1}, Zeros={0, 1}, Nums={-1, 1, 2}, Max=3, MaxNum=5)
k4b = dict(Prefixes={0, 1, 2}, Zeros={0, 1, 2}, Nums={-1, 0, 1, 9}, Max=3, MaxNum=11)
k4s = dict(Prefixes={0, 1, 2}, Zeros={0, 1, 2}, Nums={-1, 0, 1, 9, 99, 12345678, 99999999, 999999999, 2147483646, -2}, Max=24, MaxNum=2147483646)
UM_INV, UM_AP = ["Canonical"], ["HandsOutFresh"]
m4 = simple("name-map", "UniqueMap", "uniquemap", UM_INV, "Insert Erase Contains", k4, [], UM_AP)
m4s = simple("name-map-large", "UniqueMap", "uniquemap", UM_INV, "Insert Erase Contains", k4s)
ID_OPS = "Make Release GetId SetId RemoveId Clone FindIn FindAny IsTaken"
k4i = dict(NEnt=2, Kinds={1}, Wanted={1, 2}, MaxNum=3)
k4j = dict(NEnt=2, Kinds={2, 3, 4}, Wanted={4, 5}, MaxNum=3)
k4k = dict(NEnt=3, Kinds={1, 3}, Wanted={1, 2, 3}, MaxNum=4)
k4t = dict(NEnt=8, Kinds={1, 2, 3, 4}, Wanted=set(range(1, 10)), MaxNum=1000000)
ID_INV, ID_AP = ["IdsDistinct", "IdsClean"], ["IdStable", "OthersKeep"]
m4i = simple("entity-ids", "Ids", "ids", ID_INV, ID_OPS, k4i, ["NEnt"], ID_AP)
m4j = simple("entity-ids-kinds", "Ids", "ids", ID_INV, ID_OPS, k4j, ["NEnt"], ID_AP)
m4t = simple("entity-ids-large", "Ids", "ids", ID_INV, ID_OPS, k4t, ["NEnt"])
prop("P04", [(m4, dict(quick=dict(mc=[dict(const=k4)]), thorough=dict(mc=[dict(const=k4b)]))),
             (m4s, dict(quick=dict(sim=[dict(const=k4s, grow=["Insert"], num=24, depth=40)]), thorough=dict(sim=[dict(const=k4s, grow=["Insert"], num=1000, depth=80, timeout=700)]))),
             (m4i, dict(quick=dict(mc=[dict(const=k4i)]), thorough=dict(mc=[dict(const=k4k)]))),
             (m4j, dict(quick=dict(mc=[dict(const=k4j)]), thorough=dict())),
             (m4t, dict(quick=dict(sim=[dict(const=k4t, grow=["Make", "SetId"], num=24, depth=40)]), thorough=dict(sim=[dict(const=k4t, grow=["Make", "SetId"], num=1000, depth=80, timeout=700)])))],
     "x")

# ---------------------------------------------------------------------------------------- scene graph
SC_OPS = "MakeRoot MakeChild AddChild RemoveChild Release Clone SetSub FindSub FindId World"
SC_INV, SC_AP = ["Acyclic", "Symmetric", "NoDuplicates", "OnlyLive"], ["ReleaseCascade", "SubIdsUnique"]
k7 = dict(NNode=3, NDoc=1, Subs={1})
k7b = dict(NNode=3, NDoc=2, Subs=set())
k7c = dict(NNode=4, NDoc=1, Subs=set())
k7s = dict(NNode=12, NDoc=2, Subs={0, 1, 2, 3})
m7 = simple("scene-sub-ids", "Scene", "scene", SC_INV, "MakeRoot MakeChild AddChild SetSub FindSub FindId", k7, ["NNode", "NDoc"], SC_AP)
m7b = simple("scene-graph-documents", "Scene", "scene", SC_INV, SC_OPS.replace("SetSub FindSub ", ""), k7b, ["NNode", "NDoc"], SC_AP)
m7c = simple("scene-graph-4", "Scene", "scene", SC_INV, SC_OPS.replace("SetSub FindSub ", ""), k7c, ["NNode", "NDoc"], SC_AP)
m7s = simple("scene-graph-large", "Scene", "scene", SC_INV, SC_OPS, k7s, ["NNode", "NDoc"])
prop("P07", [(m7, dict(quick=dict(mc=[dict(const=k7, ops="MakeRoot MakeChild AddChild SetSub FindSub FindId")]), thorough=dict(mc=[dict(const=k7)]))),
             (m7b, dict(quick=dict(mc=[dict(const=k7b)]), thorough=dict(mc=[dict(const=k7b, covers=3)]))),
             (m7c, dict(quick=dict(), thorough=dict(mc=[dict(const=k7c)]))),
             (m7s, dict(quick=dict(sim=[dict(const=k7s, grow=["MakeRoot", "MakeChild", "AddChild"], num=40, depth=50)]), thorough=dict(sim=[dict(const=k7s, grow=["MakeRoot", "MakeChild", "AddChild"], num=1000, depth=80, timeout=700)])))],
     "x")

# ---------------------------------------------------------------------------------------- animation curves
CU_OPS = "Append Insert Delete DeleteOther SetCount SetInf Convert Clone ClipAdd ClipOffset ClipSet Eval Eval2 Merge"
CU_INV = ["Sorted", "ThroughKeys", "Periodic"]


def curve(name, ops, **c):
    k = dict(NCurve=1, NClip=0, MaxKeys=3, Times={0, 12, 24}, Vals={0, 24}, Kinds={1, 2, 3, 4}, Xs={-6, 0, 6, 12, 18, 24, 30}, Infs={0}, TMin=0, TMax=24, Shifts={0}, Gap=12)
    k.update(c)
    return k, simple(name, "Curve", "curve", CU_INV, ops, k, ["NCurve", "NClip", "Gap"])


EDIT = "Append Insert Delete SetCount Eval Eval2"
k12, m12 = curve("interpolation", "Insert Eval Eval2")
k12e, m12e = curve("key-editing", "Append Insert Delete DeleteOther SetCount Convert Clone Eval", Kinds={2, 3}, Times={0, 12}, Xs={6}, TMax=36, Shifts={-12, 0, 12}, MaxKeys=3)
k12i, m12i = curve("infinity", "Insert SetInf Eval", Kinds={2}, Vals={0, 24, 48}, Infs={0, 1, 2, 3, 4}, Xs={-66, -60, -30, -24, -18, -12, -6, 0, 12, 24, 30, 36, 48, 54, 60, 66})
k12l, m12l = curve("many-keys", "Append Eval", MaxKeys=9, Kinds={2}, TMax=96, Xs=set(range(-6, 109, 6)))
k12d, m12d = curve("equal-times", "Insert Eval", MaxKeys=6, Kinds={1, 2}, Times={0, 12, 24}, Xs={-6, 0, 6, 12, 18, 24, 30})
k12d2, _ = curve("equal-times", "Insert Eval", MaxKeys=7, Kinds={2}, Times={0, 12, 24}, Xs={-6, 0, 6, 12, 18, 24, 30})
k12m, m12m = curve("merge", "Insert Merge", NCurve=2, MaxKeys=2, Kinds={1, 2}, Xs={-6, 0, 6, 12, 18, 24, 30})
k12c, m12c = curve("clips", "Append Clone ClipAdd ClipOffset ClipSet Eval2", NClip=2, MaxKeys=2, Kinds={3}, Vals={0, 24}, TMin=-48, TMax=60, Xs={0, 6, 12}, Shifts={-12, 12})
k12s, m12s = curve("curves-large", CU_OPS, NCurve=2, NClip=2, MaxKeys=12, Kinds={1, 2, 3, 4}, Vals={0, 24, 48}, Times=set(range(0, 60, 12)), TMin=-60, TMax=120, Infs={0, 1, 2, 3, 4}, Shifts={-12, 0, 12}, Xs=set(range(-120, 240, 6)))
prop("P12", [(m12, dict(quick=dict(mc=[dict(const=k12, ops="Insert Eval Eval2")]), thorough=dict(mc=[dict(const=k12, ops="Insert Eval Eval2 Delete", covers=2)]))),
             (m12e, dict(quick=dict(mc=[dict(const=k12e, ops="Append Insert Delete DeleteOther SetCount Convert Clone Eval")]), thorough=dict(mc=[dict(const=k12e, ops="Append Insert Delete DeleteOther SetCount Convert Clone Eval", covers=2)]))),
             (m12i, dict(quick=dict(mc=[dict(const=k12i, ops="Insert SetInf Eval")]), thorough=dict(mc=[dict(const=k12i, ops="Insert SetInf Eval")]))),
             (m12l, dict(quick=dict(mc=[dict(const=k12l, ops="Append Eval")]), thorough=dict(mc=[dict(const=k12l, ops="Append Eval")]))),
             (m12d, dict(quick=dict(mc=[dict(const=k12d2, ops="Insert Eval")]), thorough=dict(mc=[dict(const=k12d, ops="Insert Eval")]))),
             (m12m, dict(quick=dict(mc=[dict(const=k12m, ops="Insert Merge")]), thorough=dict(mc=[dict(const=k12m, ops="Insert Merge")]))),
             (m12c, dict(quick=dict(mc=[dict(const=k12c, ops="Append Clone ClipAdd ClipOffset ClipSet Eval2")]), thorough=dict(mc=[dict(const=k12c, ops="Append Clone ClipAdd ClipOffset ClipSet Eval2")]))),
             (m12s, dict(quick=dict(), thorough=dict(sim=[dict(const=k12s, grow=["Append"], num=300, depth=60, timeout=600)])))],
     "x")

# ---------------------------------------------------------------------------------------- meshes
ME_INV, ME_AP = ["OneOwner", "Partition", "SourcesLive"], ["IndexStable"]


def mesh(name, ops, **c):
    k = dict(NSrc=2, NSet=1, MaxFaces=3, MaxInputs=3, Degrees={3, 4}, Tags={0}, Offsets={0, 1}, Prims={0})
    k.update(c)
    return k, simple(name, "Mesh", "mesh", ME_INV, ops, k, ["NSrc"], ME_AP)


k10, m10 = mesh("faces-and-holes", "AddVertex AddSet AddInput AddFace RemoveFace AddHole Clone", NSrc=1, MaxFaces=4, MaxInputs=2)
k10b, m10b = mesh("inputs", "AddSource AddVertex MakeVertex UnmakeVertex ReleaseSource AddSet AddInput ReleaseInput Fill AddFace Clone", MaxFaces=1, Degrees={3}, MaxInputs=2)
k10x, _ = mesh("inputs", "AddSource AddVertex MakeVertex UnmakeVertex ReleaseSource AddSet AddInput ReleaseInput Fill AddFace Clone", MaxFaces=1, Degrees={3}, MaxInputs=3)
k10d, m10d = mesh("shared-indices", "AddSource AddSet AddInput ReleaseSource ReleaseInput Fill AddFace RemoveFace Clone", NSrc=2, MaxFaces=2, Degrees={3}, Offsets={0})
k10c, m10c = mesh("polygons-sets", "AddVertex AddSet ReleaseSet AddFace RemoveFace AddHole Clone", NSrc=1, NSet=3, MaxFaces=2, MaxInputs=1, Degrees={3}, Prims={0, 1})
k10s, m10s = mesh("meshes-large", "AddSource AddVertex MakeVertex UnmakeVertex ReleaseSource AddSet ReleaseSet AddInput ReleaseInput Fill AddFace RemoveFace AddHole Clone", NSrc=5, NSet=3, MaxFaces=8, MaxInputs=6, Degrees={1, 2, 3, 4, 5, 6}, Tags={0, 1, 2}, Offsets={0, 1, 2, 3}, Prims={0, 1, 2, 3})
prop("P10", [(m10, dict(quick=dict(mc=[dict(const=k10, ops=" ".join(m10.ops))]), thorough=dict(mc=[dict(const=k10, ops=" ".join(m10.ops))]))),
             (m10b, dict(quick=dict(mc=[dict(const=k10b, ops=" ".join(m10b.ops))]), thorough=dict(mc=[dict(const=k10x, ops=" ".join(m10b.ops))]))),
             (m10d, dict(quick=dict(mc=[dict(const=k10d, ops=" ".join(m10d.ops))]), thorough=dict(mc=[dict(const=k10d, ops=" ".join(m10d.ops))]))),
             (m10c, dict(quick=dict(mc=[dict(const=k10c, ops=" ".join(m10c.ops))]), thorough=dict(mc=[dict(const=k10c, ops=" ".join(m10c.ops))]))),
             (m10s, dict(quick=dict(sim=[dict(const=k10s, grow=["AddFace", "AddInput"], num=40, depth=40)]), thorough=dict(sim=[dict(const=k10s, grow=["AddFace", "AddInput"], num=1000, depth=80, timeout=700)])))],
     "x")

# ---------------------------------------------------------------------------------------- geometry tools
MT_AP = ["NothingInvented", "Kept", "Fits2", "Triangles"]


def tools(name, ops, **c):
    k = dict(Off=[0, 1, 1], NVal=2, NSet=1, MaxFaces=2, MaxCorners=9, Degrees={3, 4}, Tags={0, 1}, Prims={0}, Fits={4, 6, 8}, Reverses={1}, Packs={0, 2, 4}, Holes={False})
    k.update(c)
    return k, simple(name, "MeshTools", "meshtools", [], ops, k, ["Off", "NVal"], MT_AP)


MTA = "AddSet AddFace "
k11, m11 = tools("one-set", MTA + "Triangulate Unique Number Fit Clone", MaxFaces=3, MaxCorners=12, Degrees={2, 3, 4}, Fits={4, 8})
k11b, m11b = tools("several-sets", MTA + "Triangulate Unique Number Fit Clone", NSet=2, MaxFaces=1, Degrees={3}, Prims={0, 2}, Fits={3})
k11c, m11c = tools("primitives-and-holes", MTA + "Triangulate Unique Clone", Degrees={1, 3, 5}, Prims={0, 1, 2, 3}, Holes={False, True}, Off=[0, 1, 2], NVal=3)
k11d, m11d = tools("packing", MTA + "Pack Reverse", Off=[0, 0, 1], NVal=3, Tags={0, 1, 2}, Packs={0, 1, 3, 4, 6, 7})
k11e, m11e = tools("split-sets", MTA + "Unique Fit Clone", Off=[0, 0, 1], MaxFaces=3, Degrees={3, 4}, Tags={0, 1}, MaxCorners=12, Fits={4, 6, 7, 8}, Prims={0, 1})
k11s, m11s = tools("tools-large", MTA + "Triangulate Unique Number Fit Clone Pack Reverse", Off=[0, 1, 2], NVal=5, NSet=4, MaxFaces=8, MaxCorners=60, Degrees={1, 2, 3, 4, 5, 6, 7}, Tags={0, 1, 2, 3, 4}, Prims={0, 1, 2, 3}, Fits={7, 10, 15, 20}, Packs={0, 1, 3, 4, 6, 7, 20, 40}, Holes={False, True})
prop("P11", [(m, dict(quick=dict(mc=[dict(const=k, ops=" ".join(m.ops))]), thorough=dict(mc=[dict(const=k, ops=" ".join(m.ops))]))) for k, m in ((k11, m11), (k11b, m11b), (k11c, m11c), (k11d, m11d), (k11e, m11e))] +
            [(m11s, dict(quick=dict(sim=[dict(const=k11s, grow=["AddFace"], num=40, depth=30)]), thorough=dict(sim=[dict(const=k11s, grow=["AddFace"], num=1000, depth=60, timeout=700)])))],
     "x")

# ---------------------------------------------------------------------------------------- animated parameters
AL_OPS = "Insert InsertN InsertArr PushBack PushFront PopBack PopFront EraseAt EraseVal EraseRange Clear Shrink Resize Set Create Curve Uncurve KillCurve Evaluate"


def alist(name, dims, **c):
    k = dict(Dims=dims, MaxLen=3, Vals={1}, NCurve=1, Pos={0, 1, 2, 3})
    k.update(c)
    return k, simple(name, "AnimList", "animlist%d" % dims, ["SameLength"], AL_OPS, k, ["NCurve"], ["CurvesStay"])


k13, m13 = alist("animated-list", 1, MaxLen=4, Pos={0, 1, 2, 4})
k13b, m13b = alist("animated-vectors", 2, MaxLen=2, Pos={0, 1, 2})
k13s, m13s = alist("animated-list-large", 4, MaxLen=40, NCurve=4, Vals={1, 5, 9}, Pos={0, 1, 2, 3, 5, 10, 20, 30, 31, 32, 33, 40})


def anims(name, ops, **c):
    k = dict(Kind="float", NAnim=1, NChan=1, NCurve=1, NObj=1, Vals={7}, Queries=set(), MaxBind=2, D={1})
    k.update(c)
    return k, simple(name, "Anims", "anims", ["OneOwner", "OnlyLiveCurves", "AllReachable"], ops, k, ["Kind", "NAnim", "NChan", "NCurve", "NObj"])


AT = "AddAnim AddChan AddCurve KillAnim KillChan KillCurve CurvesOf"
AB = "AddAnim AddChan AddCurve KillCurve Bind BindAll Unbind Set Evaluate Multi Find"
QU = {"", ".X", ".ANGLE", "ANGLE", ".R", "(0)", "(2)", "(12)", "[1]", "(", "(1", "X", ".x", ".W"}
k13c, m13c = anims("animation-tree", AT, NAnim=3, NChan=2, NCurve=1)
k13d, m13d = anims("bound-curves", AT + " Bind BindAll Unbind Evaluate CopyTo Release Again MultiAll", NAnim=1, NChan=2, NCurve=2, NObj=2, D={1, 2}, Kind="float")
SHAPES = [("float", {1}), ("vector2", {1, 2}), ("vector3", {1, 3}), ("color3", {2, 3}), ("vector4", {1, 4}), ("color4", {3, 4}), ("rotation", {1, 4}), ("lookat", {5, 9}), ("skew", {3, 7}), ("matrix", {2, 16})]
shapes = [anims("parameter-" + x, AB, Kind=x, D=d, NCurve=2, Queries=QU) for x, d in SHAPES]
shapes2 = [anims("parameter-large-" + x, AB, Kind=x, D=set(range(1, n + 1)), NAnim=2, NChan=3, NCurve=6, NObj=2, MaxBind=3, Vals={7, 8}, Queries=QU) for x, n in
           (("vector4", 4), ("lookat", 9), ("skew", 7), ("matrix", 16))]
AA = AT + " Bind BindAll Unbind Set Evaluate CopyTo Release Again Multi MultiAll Find"
k13e, m13e = anims("animations-large", AA, Kind="rotation", NAnim=8, NChan=10, NCurve=14, NObj=4, MaxBind=3, D={1, 2, 3, 4}, Vals={7, 8}, Queries=QU)

prop("P13", [(m13, dict(quick=dict(mc=[dict(const=k13)]), thorough=dict(mc=[dict(const=dict(k13, Vals={1, 5}, Pos={0, 1, 2, 3, 4}))]))),
             (m13b, dict(quick=dict(mc=[dict(const=k13b)]), thorough=dict(mc=[dict(const=dict(k13b, NCurve=2))]))),
             (m13s, dict(quick=dict(sim=[dict(const=k13s, grow=["PushBack", "Curve", "InsertN"], num=60, depth=60)]), thorough=dict(sim=[dict(const=k13s, grow=["PushBack", "Curve", "InsertN"], num=1500, depth=100, timeout=500)]))),
             (m13c, dict(quick=dict(mc=[dict(const=k13c)]), thorough=dict(mc=[dict(const=k13c, covers=4)]))),
             (m13d, dict(quick=dict(mc=[dict(const=k13d)]), thorough=dict(mc=[dict(const=k13d, covers=3)]))),
             (m13e, dict(quick=dict(sim=[dict(const=k13e, grow=["AddAnim", "AddChan", "AddCurve", "Bind"], num=80, depth=60)]), thorough=dict(sim=[dict(const=k13e, grow=["AddAnim", "AddChan", "AddCurve", "Bind"], num=2000, depth=100, timeout=500)])))] +
            [(m, dict(quick=dict(mc=[dict(const=k)]), thorough=dict(mc=[dict(const=dict(k, NCurve=2), covers=3)]))) for k, m in shapes] +
            [(m, dict(quick=dict(sim=[dict(const=k, grow=["AddAnim", "AddChan", "AddCurve", "Bind"], num=8, depth=50)]), thorough=dict(sim=[dict(const=k, grow=["AddAnim", "AddChan", "AddCurve", "Bind"], num=200, depth=80, timeout=200)]))) for k, m in shapes2],
     "x")

# ---------------------------------------------------------------------------------------- transforms
TR_OPS = "Add AddPlain Set Copy SetSub Remove Attach Detach Inverse Point Clone Orient"
NOK = dict(translate=set(), scale=set(), rotate=set(), matrix=set(), lookat=set(), skew=set())
ALLK = dict(translate=set(range(1, 6)), scale=set(range(1, 5)), rotate=set(range(1, 10)), matrix={1, 2, 3}, lookat=set(range(1, 8)), skew=set(range(1, 5)))


def trans(name, ops, pick, **c):
    k = dict(NNode=1, MaxT=2, Pick=dict(NOK, **pick), Subs={"s"})
    k.update(c)
    return k, simple(name, "Transforms", "transforms", ["Rigid", "UndoneByInverse"], ops, k, ["NNode"])


k19, m19 = trans("every-transform", "Add Set Inverse Point Orient Clone", ALLK)
k19b, m19b = trans("transform-stacks", "Add AddPlain Copy SetSub Remove Inverse Clone", dict(translate={3}, rotate={5}, scale={2}, matrix={1}), MaxT=3)
k19c, m19c = trans("hierarchies", "Add Remove Attach Detach Point Copy", dict(translate={3}, rotate={5}, scale={2}), NNode=3, MaxT=1)
k19s, m19s = trans("transforms-large", TR_OPS, ALLK, NNode=5, MaxT=4, Subs={"s", "t", ""})
prop("P19", [(m19, dict(quick=dict(mc=[dict(const=k19)]), thorough=dict(mc=[dict(const=k19)]))),
             (m19b, dict(quick=dict(mc=[dict(const=k19b)]), thorough=dict(mc=[dict(const=k19b)]))),
             (m19c, dict(quick=dict(mc=[dict(const=k19c)]), thorough=dict(mc=[dict(const=k19c)]))),
             (m19s, dict(quick=dict(sim=[dict(const=k19s, grow=["Add", "Attach"], num=12, depth=40, fan=6)]), thorough=dict(sim=[dict(const=k19s, grow=["Add", "Attach"], num=200, depth=60, timeout=500, fan=8)])))],
     "x")

# ---------------------------------------------------------------------------------------- rotations and matrices
GENS = [[0, 0, 0, 1], [1, 0, 0, 1], [0, -1, 0, 1], [0, 0, 1, 1], [1, 1, 1, 1], [1, -1, 1, -1], [1, 0, 0, 0], [0, 1, 1, 0], [0, 0, 0, -1], [1, 2, 2, 4], [2, 0, 0, -1], [1, 0, 2, 2]]
T = lambda l: {tuple(x) for x in l}
RO_OPS = "Set Mul PreMul Conj Rotate Matrix AngleAxis Euler EulerNear FromEuler Slerp Parts Compose"


def rot(name, ops, **c):
    k = dict(Gens=T(GENS), MaxN=14, Points=T([[1, 0, 0], [0, 1, 0], [2, -3, 5]]), Scales=T([[1, 1, 1], [2, 3, 4], [-1, 1, 2], [-2, -1, -1], [1, -2, -3]]), Moves=T([[0, 0, 0], [1, -2, 3]]), Quarters={0, 1, -1, 2})
    k.update(c)
    return k, simple(name, "Rotations", "rotations", ["Orthogonal", "Antipodes", "Undone"], ops, k, ["MaxN"])


k20, m20 = rot("rotations", "Set Mul PreMul Conj Rotate Matrix AngleAxis Euler Slerp Parts", MaxN=14, Moves=T([[1, -2, 3]]))
k20b, m20b = rot("euler-angles", "Mul EulerNear FromEuler Compose", Gens=T([[1, 0, 0, 1], [0, -1, 0, 1], [0, 0, 1, 1]]), MaxN=4, Scales=T([[1, 1, 1], [2, -3, 4]]), Moves=T([[1, -2, 3]]))


def mat(name, dim, gens, **c):
    k = dict(Dim=dim, Gens=T(gens), MaxE=4, MaxD=3, Vecs=T([[1, 0, 0, 1], [2, -1, 3, 0], [1, 2, 3, 4]]), Factors={-1, 2})
    k.update(c)
    return k, simple(name, "Matrices", "matrices%d" % dim, ["Inverts", "SameDet"], "Set Mul PreMul Transpose Invert Inverse Same" + (" Det Scale Vec" if dim == 4 else ""), k)


M4 = [[1, 2, 0, 3, 0, 1, -1, 0, 0, 0, 1, 2, 0, 0, 0, 1], [0, -1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0], [1, 0, 0, 0, 1, 1, 0, 0, 0, -1, 1, 0, 2, 0, 1, 1], [2, 0, 1, 0, 0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 0, 3]]
M3 = [[1, 2, -1, 0, 1, 3, 0, 0, 1], [0, -1, 0, 1, 0, 0, 0, 0, 1], [0, 0, 1, 0, -1, 0, 1, 1, 0], [2, 1, 0, 0, 1, 1, 1, 0, 2]]
k20c, m20c = mat("matrices-4", 4, M4)
k20d, m20d = mat("matrices-3", 3, M3)
prop("P20", [(m20c, dict(quick=dict(mc=[dict(const=k20c)]), thorough=dict(mc=[dict(const=dict(k20c, MaxD=4))]))),
             (m20d, dict(quick=dict(mc=[dict(const=k20d)]), thorough=dict(mc=[dict(const=dict(k20d, MaxD=5))]))),
             (m20, dict(quick=dict(mc=[dict(const=k20)]), thorough=dict(mc=[dict(const=dict(k20, MaxN=40))]))),
             (m20b, dict(quick=dict(mc=[dict(const=k20b)]), thorough=dict(mc=[dict(const=dict(k20b, MaxN=12, Gens=T(GENS)))])))],
     "x")

# ---------------------------------------------------------------------------------------- bounding volumes
def bounds(name, ops, **c):
    k = dict(Points=T([[0, 0, 0], [1, 2, 0], [-1, 0, 2], [2, -1, -1], [0, 3, 1]]), Boxes={(), ((0, 0, 0), (1, 1, 1)), ((-1, 1, 0), (0, 2, 3)), ((2, 2, 2), (3, 3, 2))},
             Lines={(), (0, 16), (-16, -16), (16, 48), (-32, 0)}, Balls={(), (0, 16), (16, 8), (32, 48), (-16, 0), (64, 8)}, U=16, MaxR=160,
             Moves=T([[0, -1, 0, 1, 1, 0, 0, 0, 0, 0, 1, 0], [-1, 0, 0, 0, 0, 1, 0, 2, 1, 0, 1, -1]]))
    k.update(c)
    return k, simple(name, "Bounds", "bounds", [], ops, k, ["U"], ["Grows", "Included"])


k23, m23 = bounds("boxes", "BoxPoint BoxBox BoxReset BoxHas BoxMeets BoxSame")
k23b, m23b = bounds("moved-boxes", "BoxSet BoxPoint BoxMove", Points=T([[2, -1, -1]]))
k23c, m23c = bounds("spheres", "BallPoint BallBall BallSet BallBox BallReset BallHas BallMeets Across BallMove")
prop("P23", [(m23, dict(quick=dict(mc=[dict(const=k23)]), thorough=dict(mc=[dict(const=dict(k23, Points=k23["Points"] | T([[3, 3, 3], [-2, -2, -2], [0, 0, 4]])))]))),
             (m23b, dict(quick=dict(sim=[dict(const=k23b, num=20, depth=8)]), thorough=dict(sim=[dict(const=k23b, num=300, depth=8)]))),
             (m23c, dict(quick=dict(mc=[dict(const=k23c)]), thorough=dict(mc=[dict(const=dict(k23c, U=32, MaxR=640))])))],
     "x")

# ---------------------------------------------------------------------------------------- saved entities
REC_INV = ["Stable", "Kept", "Queued"]
LIGHT = dict(color=(4, 4, 4), intensity=(4,), const=(4,), lin=(0,), quad=(0,), falloffAngle=(20,), falloffExp=(4,), outer=(20,), dropoff=(0,), name=(0,), note=(0,), target=(0,))
CAMERA = dict(viewX=(240,), viewY=(240,), hasX=(0,), hasY=(0,), aspect=(4,), near=(4,), far=(4000,), name=(0,), note=(0,), target=(0,))
PLAIN = dict(name=(0,), note=(0,))
ASSET = dict(keywords=(0,), revision=(0,), subject=(0,), title=(0,), unitName=(100,), unit=(0, 4), upAxis=(0, 1), created=(2001, 2, 3, 4, 5, 6), contrib=())
SCENE = dict(start=(0, 0), end=(0, 0), layers=())
REC_DEFAULT = dict(point=LIGHT, spot=LIGHT, directional=LIGHT, ambient=LIGHT, persp=CAMERA, ortho=CAMERA, image=dict(PLAIN, size=(0, 0, 0), file=(0,)),
                   emitter=PLAIN, force=PLAIN, owned=dict(PLAIN, **ASSET), asset=dict(ASSET), scene=SCENE)
REC_LIB = dict(point="lights", spot="lights", directional="lights", ambient="lights", persp="cameras", ortho="cameras", image="images", emitter="emitters", force="forces", owned="forces", asset="asset", scene="scene")


def T1(*l):
    return {(x,) for x in l}


LIGHT_V = dict(color={(0, 1, 2), (40, -4, 3)}, intensity=T1(0, 10), const=T1(0, 3), lin=T1(2, -7), quad=T1(1, 400004), falloffAngle=T1(0, 121), falloffExp=T1(0, 9), outer=T1(0, 363), dropoff=T1(5, -4), name=T1(1, 2), note=T1(1, 4, 5, 6, 7, 8, 10, 11), target=T1(0, 1, 2))
CAMERA_V = dict(viewX=T1(120, 240), viewY=T1(120, 480), aspect=T1(6), near=T1(0, 7), far=T1(80000), name=T1(1, 2), note=T1(4, 7), target=T1(0, 1, 2))
STR = T1(0, 1, 4, 5, 6, 7, 8, 10, 11)
ASSET_V = dict(keywords=STR, revision=STR, subject=STR, title=STR, unitName=T1(1, 4, 5), unit={(1, 1), (1, 4), (1, 10)}, upAxis={(1, 0), (1, 1), (1, 2)}, created={(1999, 12, 31, 23, 59, 58), (2020, 8, 9, 8, 9, 0)},
               contrib={(), (1, 0, 0, 0), (0, 0, 0, 0, 1, 4, 7, 5), (0, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8), (10, 0, 11, 0)})
SCENE_V = dict(start={(1, 0), (1, 6)}, end={(1, 41), (1, -4)}, layers={(), (1, 1, 0), (1, 0, 0), (4, 2, 1, 5, 1, 0), (1, 0, 0, 3, 0, 0), (7, 1, 2)})
REC_VALS = dict(point=LIGHT_V, spot=LIGHT_V, directional=LIGHT_V, ambient=LIGHT_V, persp=CAMERA_V, ortho=CAMERA_V, image=dict(name=T1(1), note=T1(7), size={(1, 0, 0), (3, 70000, 2)}, file=T1(0, 1, 2, 3, 4)),
                emitter=dict(name=T1(1, 2), note=T1(4, 7)), force=dict(name=T1(1, 2), note=T1(5, 7)), owned=dict(ASSET_V, name=T1(1), note=T1(6)), asset=ASSET_V, scene=SCENE_V)


def records(name, kinds, vals=None, ops="Make Set Save Again", nobj=1, **kw):
    kinds = set(kinds.split())
    v = {k: dict(REC_VALS[k]) for k in sorted(kinds)}
    for k in v:
        if vals is not None:
            v[k] = {x: vals.get(x, set()) for x in v[k] if x in vals}
    c = dict(Kinds=kinds, NObj=nobj, Default={k: REC_DEFAULT[k] for k in sorted(REC_DEFAULT)}, Vals=v, Lib=REC_LIB)
    return c, simple(name, "Records", "records", REC_INV, ops, c, ["NObj"])


k27a, m27a = records("lights", "point spot directional ambient", {"color": {(0, 1, 10)}, "intensity": T1(10), "const": T1(3), "lin": T1(2, -7), "quad": T1(1, 400004)})
k27a2, m27a2 = records("light-cones", "point spot directional ambient", {"intensity": T1(0), "const": T1(9), "falloffAngle": T1(0, 121), "falloffExp": T1(9), "outer": T1(363), "dropoff": T1(5, -4)})
k27b, m27b = records("light-names", "spot", {x: LIGHT_V[x] for x in ("name", "note", "target")}, ops="Make Set Save Again Release")
k27c, m27c = records("cameras", "persp ortho", {x: CAMERA_V[x] for x in CAMERA_V if x not in ("name", "note")})
k27d, m27d = records("images", "image")
ASSET_Q = dict(keywords=T1(7), title=T1(1, 8), unitName=T1(1), unit={(1, 1), (1, 10)}, upAxis={(1, 0), (1, 1), (1, 2)}, created={(1999, 12, 31, 23, 59, 58)}, contrib={(), (0, 0, 0, 0, 1, 4, 7, 5), (0, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8)})
k27e, m27e = records("asset", "asset", ASSET_Q)
k27o, m27o = records("owned-asset", "owned", {"title": STR, "keywords": T1(5), "revision": T1(7), "unit": {(1, 10)}, "name": T1(1)})
k27u, m27u = records("asset-texts", "asset", {"subject": STR, "title": T1(10), "unitName": ASSET_V["unitName"], "unit": {(1, 4)}, "contrib": ASSET_V["contrib"]})
k27f, m27f = records("scene-settings", "scene")
k27g, m27g = records("plain-entities", "emitter force", nobj=2, ops="Make Set Save Again Release")
k27s, m27s = records("records-large", " ".join(REC_DEFAULT), nobj=8, ops="Make Set Save Again Release")
prop("P27", [(m27a, dict(quick=dict(mc=[dict(const=k27a)]), thorough=dict(mc=[dict(const=k27a)]))),
             (m27a2, dict(quick=dict(mc=[dict(const=k27a2)]), thorough=dict(mc=[dict(const=k27a2)]))),
             (m27b, dict(quick=dict(mc=[dict(const=k27b)]), thorough=dict(mc=[dict(const=k27b)]))),
             (m27c, dict(quick=dict(mc=[dict(const=k27c)]), thorough=dict(mc=[dict(const=k27c)]))),
             (m27d, dict(quick=dict(mc=[dict(const=k27d)]), thorough=dict(mc=[dict(const=k27d)]))),
             (m27e, dict(quick=dict(mc=[dict(const=k27e)]), thorough=dict(mc=[dict(const=k27e)]))),
             (m27o, dict(quick=dict(mc=[dict(const=k27o)]), thorough=dict(mc=[dict(const=k27o)]))),
             (m27u, dict(quick=dict(mc=[dict(const=k27u)]), thorough=dict(mc=[dict(const=k27u)]))),
             (m27f, dict(quick=dict(mc=[dict(const=k27f)]), thorough=dict(mc=[dict(const=k27f)]))),
             (m27g, dict(quick=dict(mc=[dict(const=k27g)]), thorough=dict(mc=[dict(const=k27g)]))),
             (m27s, dict(quick=dict(sim=[dict(const=k27s, grow=["Make", "Set"], num=20, depth=50)]), thorough=dict(sim=[dict(const=k27s, grow=["Make", "Set"], num=600, depth=80, timeout=700)])))],
     "x")

# ---------------------------------------------------------------------------------------- saved scenes
DS_INV = ["Acyclic", "Symmetric", "Rooted", "Main", "Kept"]
DS_OPS = "Root Child Link Unlink Release Main Flag Inst DelInst Save Again"


def docscene(name, ops, nnode, vals=None, kinds=(), instmax=0):
    c = dict(NNode=nnode, Vals=vals or {"joint": set()}, Kinds=set(kinds), InstMax=instmax)
    return c, simple(name, "DocScene", "docscene", DS_INV, ops, c, ["NNode"])


k15, m15 = docscene("shared-nodes", "Root Child Link Unlink Again", 4)
k15m, m15m = docscene("several-scenes", "Root Child Link Unlink Release Main Save Again", 3)
k15f, m15f = docscene("node-flags", "Root Child Flag Save Again", 2, {"joint": {0, 1}, "hidden": {0, 1}, "sub": {0, 1}, "name": {1, 2}, "note": {4}})
k15t, m15t = docscene("node-texts", "Root Child Flag Save Again", 2, {"name": {0, 1, 2}, "note": {0, 4, 5, 6, 7}})
k15i, m15i = docscene("instances", "Root Inst DelInst Save Again", 1, kinds=[1, 2, 3, 4, 5, 6], instmax=2)
k15j, m15j = docscene("mixed-instances", "Root Inst DelInst Save Again", 1, kinds=[2, 5, 6], instmax=3)
k15s, m15s = docscene("scenes-large", DS_OPS, 8, {"joint": {0, 1}, "hidden": {0, 1}, "sub": {0, 1, 2, 3}, "name": {0, 1, 2}, "note": {0, 4, 5, 6, 7}}, [1, 2, 3, 4, 5, 6], 5)
prop("P15", [(m15, dict(quick=dict(mc=[dict(const=k15)]), thorough=dict(mc=[dict(const=k15, covers=2)]))),
             (m15m, dict(quick=dict(mc=[dict(const=k15m)]), thorough=dict(mc=[dict(const=k15m)]))),
             (m15f, dict(quick=dict(mc=[dict(const=k15f)]), thorough=dict(mc=[dict(const=k15f)]))),
             (m15t, dict(quick=dict(mc=[dict(const=k15t)]), thorough=dict(mc=[dict(const=k15t)]))),
             (m15i, dict(quick=dict(mc=[dict(const=k15i)]), thorough=dict(mc=[dict(const=k15i)]))),
             (m15j, dict(quick=dict(mc=[dict(const=k15j)]), thorough=dict(mc=[dict(const=k15j)]))),
             (m15s, dict(quick=dict(sim=[dict(const=k15s, grow=["Child", "Link", "Inst"], num=20, depth=60)]), thorough=dict(sim=[dict(const=k15s, grow=["Child", "Link", "Inst"], num=600, depth=90, timeout=700)])))],
     "x")

# ---------------------------------------------------------------------------------------- saved geometries
DM_INV = ["Filled", "Kept"]
DM_OPS = "Source Set Input Move Group Face Save Again"


def docmesh(name, ops=DM_OPS, **kw):
    c = dict(NSrc=2, NSet=1, MaxFaces=2, MaxInputs=3, Degrees={3}, Types={1, 3}, Kinds={0}, Offsets={0}, Groups={-1}, Seeds={0}, Data={0}, Mats={1}, Named={0})
    c.update(kw)
    return c, simple(name, "DocMesh", "docmesh", DM_INV, ops, c, ["NSrc"])


k24f, m24f = docmesh("faces", "Source Set Face Save Again", NSrc=1, Types={1}, MaxFaces=3, Degrees={1, 2, 3, 4}, Kinds={0, 1, 2, 3, 4, 5}, Seeds={0, 1})
k24i, m24i = docmesh("inputs", "Source Set Input Move Face Save Again", NSrc=3, MaxFaces=1, Offsets={0, 1, 3}, Groups={0}, Mats={0})
k24g, m24g = docmesh("input-sets", "Source Set Input Group Face Save Again", NSrc=3, MaxFaces=1, Offsets={1}, Groups={-1, 0, 2}, Mats={0})
k24t, m24t = docmesh("semantics", "Source Set Input Face Save Again", NSrc=2, MaxFaces=1, Types=set(range(13)), Data={0}, Offsets={1})
k24d, m24d = docmesh("source-data", "Source Set Input Face Save Again", NSrc=2, MaxFaces=1, Types={1, 3}, Data=set(range(9)), Offsets={1}, Named={0, 1})
k24m, m24m = docmesh("several-sets", "Source Set Input Face Group Save Again", NSrc=2, NSet=2, MaxFaces=1, Degrees={4}, Offsets={0, 1}, Kinds={0, 2}, Mats={0, 2}, Groups={1})
k24s, m24s = docmesh("meshes-large", NSrc=6, NSet=3, MaxFaces=6, MaxInputs=6, Degrees={1, 2, 3, 4}, Types=set(range(13)), Kinds=set(range(6)), Offsets={0, 1, 2, 4}, Groups={-1, 0, 1, 3}, Seeds={0, 1, 2, 3}, Data={0, 1, 3}, Mats={0, 1, 2, 3}, Named={0, 1})
P24 = [(m, dict(quick=dict(mc=[dict(const=k)]), thorough=dict(mc=[dict(const=k, covers=2)]))) for k, m in ((k24f, m24f), (k24i, m24i), (k24g, m24g), (k24t, m24t), (k24d, m24d), (k24m, m24m))] + \
      [(m24s, dict(quick=dict(sim=[dict(const=k24s, grow=["Face", "Set", "Input"], kinds=8, num=20, depth=40)]), thorough=dict(sim=[dict(const=k24s, grow=["Face", "Set", "Input"], kinds=8, num=600, depth=60, timeout=700)])))]
SPL_OPS = "Type Add Close Point Knot Remove Save Again"


def docspline(name, **kw):
    c = dict(NSpline=2, Points={1, 2}, MaxPoints=2, Weights={4, 6}, Knots={0, 3}, Counts={1}, Degrees={1})
    c.update(kw)
    return c, simple(name, "DocSpline", "docspline", ["Typed", "Weighted"], SPL_OPS, c, ["NSpline"])


k24p, m24p = docspline("splines", Weights={4}, Knots={1}, Counts={0})
k24n, m24n = docspline("nurbs", NSpline=1, MaxPoints=2, Degrees={0, 1, 2}, Points={1, -3})
k24q, m24q = docspline("splines-large", NSpline=4, MaxPoints=6, Degrees={1, 2, 3}, Points=set(range(-5, 6)), Weights={1, 4, 100}, Knots={0, 1, 2, 40}, Counts={0, 1})
P24 += [(m, dict(quick=dict(mc=[dict(const=k)]), thorough=dict(mc=[dict(const=k, covers=2)]))) for k, m in ((k24p, m24p), (k24n, m24n))] + \
       [(m24q, dict(quick=dict(sim=[dict(const=k24q, grow=["Point", "Knot", "Again"], kinds=8, num=20, depth=60)]), thorough=dict(sim=[dict(const=k24q, grow=["Point", "Knot", "Again"], kinds=8, num=600, depth=90, timeout=700)])))]
prop("P24", P24, "x")


# ---------------------------------------------------------------------------- P25
ANIM_OPS = "Curve Uncurve Inf Val Drive Undrive Extra ClipTime ClipCurve ClipInst Save Again"


def S(*l):
    return l


def shape(keys, pre=0, post=0):
    return dict(k=tuple(keys), pre=pre, post=post)


STEP2 = shape([S(0, 5, 1), S(12, 9, 1)])
LIN1 = shape([S(12, 30, 2)], 1, 2)
LIN2 = shape([S(0, 7, 2), S(12, 8, 2)], 3, 4)
LIN2B = shape([S(0, 20, 2), S(12, -8, 2)], 3, 4)
BEZ2 = shape([S(0, 50, 3), S(12, 90, 3)], 2, 0)
BEZ2B = shape([S(0, 10, 3), S(12, 40, 3)], 2, 0)
TCB2 = shape([S(0, 5, 4), S(24, 6, 4)], 4, 1)
MIX3 = shape([S(0, 5, 3), S(12, 6, 2), S(24, 100, 4), S(36, 3, 1)], 0, 3)
NOKEY = shape([])


def docanim(name, ops=ANIM_OPS, **kw):
    c = dict(NAnim=2, Par=S(0, 0), Kinds=S(1), Dims=S(3), Shapes=S(LIN2, LIN2B), Groups={0}, Vals={4}, NClip=0, Infs={0, 3})
    c.update(kw)
    return c, simple(name, "DocAnim", "docanim", ["Kept"], ops, c, ["Kinds", "Dims", "Par", "NClip"])


A_CURVES = "Curve Uncurve Val Save Again"
k25a, m25a = docanim("translation-merge", A_CURVES, Shapes=S(LIN2, LIN2B), Par=S(0, 1))
k25b, m25b = docanim("shapes", "Curve Uncurve Save Again", Kinds=S(1), Dims=S(3), NAnim=1, Par=S(0), Vals=set(), Shapes=S(STEP2, LIN1, BEZ2, BEZ2B, TCB2, MIX3, NOKEY))
k25j, m25j = docanim("infinities", "Curve Uncurve Inf Save Again", Kinds=S(8), Dims=S(1), NAnim=1, Par=S(0), Vals=set(), Shapes=S(BEZ2, NOKEY), Infs={0, 1, 2, 3, 4})
k25c, m25c = docanim("lights-cameras", "Curve Uncurve Save Again", Kinds=S(8, 9, 10, 11, 17, 22), Dims=S(1, 1, 1, 1, 1, 1), NAnim=1, Par=S(0), Shapes=S(LIN1), Vals=set())
k25d, m25d = docanim("materials", "Curve Uncurve Save Again", Kinds=S(12, 13), Dims=S(4, 1), NAnim=1, Par=S(0), Shapes=S(STEP2), Vals=set())
k25k, m25k = docanim("parameters", A_CURVES, Kinds=S(18, 19), Dims=S(3, 1), NAnim=1, Par=S(0), Shapes=S(STEP2), Vals={4})
k25e, m25e = docanim("elements", "Curve Uncurve Save Again", Kinds=S(14, 15, 16, 20, 21), Dims=S(1, 1, 1, 1, 1), NAnim=2, Par=S(0, 1), Shapes=S(LIN1), Vals=set())
k25f, m25f = docanim("clips", "Curve Uncurve ClipTime ClipCurve ClipInst Save Again", Kinds=S(8, 9), Dims=S(1, 1), NClip=1, NAnim=2, Par=S(0, 1), Shapes=S(LIN1), Vals=set())
k25g, m25g = docanim("drivers", "Curve Uncurve Drive Undrive Save Again", Kinds=S(1, 10), Dims=S(3, 1), NAnim=1, Par=S(0), Shapes=S(LIN1), Vals=set())
k25h, m25h = docanim("nested", "Curve Extra Save Again", Kinds=S(8, 9), Dims=S(1, 1), NAnim=4, Par=S(0, 1, 2, 1), Shapes=S(LIN1), Vals=set())
k25i, m25i = docanim("transforms", "Curve Uncurve Save Again", Kinds=S(3), Dims=S(4), NAnim=1, Par=S(0), Shapes=S(LIN1), Vals=set())
k25s, m25s = docanim("large", ANIM_OPS, Kinds=S(6, 1, 14, 8, 18, 20), Dims=S(7, 3, 1, 1, 3, 1), NAnim=4, Par=S(0, 1, 0, 2), NClip=1, Groups={0, 1},
                       Shapes=S(STEP2, LIN2, LIN2B, BEZ2, BEZ2B, MIX3), Vals={100}, Infs={0, 4})
k25t, m25t = docanim("matrices", "Curve Uncurve Val Save Again", Kinds=S(4), Dims=S(16), NAnim=1, Par=S(0), Shapes=S(LIN2, LIN2B), Vals={100})
P25 = [(m, dict(quick=dict(mc=[dict(const=k)]), thorough=dict(mc=[dict(const=k, covers=2)]))) for k, m in ((k25a, m25a), (k25b, m25b), (k25j, m25j), (k25c, m25c), (k25d, m25d), (k25k, m25k), (k25e, m25e), (k25f, m25f), (k25g, m25g), (k25h, m25h), (k25i, m25i))]
P25 += [(m, dict(quick=dict(sim=[dict(const=k, grow=["Curve", "Again"], kinds=n, num=5 if n == 6 else 1, depth=40 if n == 6 else 24)]), thorough=dict(sim=[dict(const=k, grow=["Curve", "Again"], kinds=n, num=200, depth=80, timeout=600)]))) for k, m, n in ((k25s, m25s, 6), (k25t, m25t, 3))]
prop("P25", P25, "x")

# ---------------------------------------------------------------------------------------- materials and effects
PAR = dict(num=(1,), gen=(1,), semantic=(0,), notes=())
MAT_KINDS = ["image", "effect", "std", "surface", "sampler", "pBool", "pInt", "pFloat", "pFloat2", "pFloat3", "pVector", "pMatrix", "pString",
             "tEmission", "tAmbient", "tDiffuse", "tSpecular", "tShininess", "tSpecLevel", "tReflect", "tRefract", "tTransp", "tBump", "tDispl", "tFilter", "material"]
BLACK = (0, 0, 0, 4)
MAT_DEFAULT = dict(image=dict(name=(0,)), effect=dict(name=(0,)), material=dict(name=(0,), hints=()),
    std=dict(light=(0,), mode=(0,), isEF=(0,), refl=(0,), refr=(0,), emission=BLACK, ambient=BLACK, diffuse=BLACK, specular=BLACK, reflC=(4, 4, 4, 4), translC=BLACK,
             emissionF=(4,), specularF=(4,), shine=(80,), reflF=(4,), translF=(4,), ior=(4,)),
    surface=dict(PAR, type=(0,), size=(0, 0, 0), ratio=(4,), mips=(0,), genmips=(0,), format=(0,), hint=(), init=(0,), mip=(), slice=(), face=()),
    sampler=dict(PAR, type=(1,), wrapS=(1,), wrapT=(1,), wrapP=(1,), min=(0,), mag=(0,), mipf=(0,)),
    pBool=dict(PAR, value=(0,)), pInt=dict(PAR, value=(0,)), pFloat=dict(PAR, value=(0,), half=(0,)), pFloat2=dict(PAR, value=(0, 0), half=(0,)), pFloat3=dict(PAR, value=(0, 0, 0), half=(0,)),
    pVector=dict(PAR, value=(0,) * 4, half=(0,)), pMatrix=dict(PAR, value=tuple(4 * (i % 5 == 0) for i in range(16)), half=(0,)), pString=dict(PAR, value=(0,)))
for t in MAT_KINDS:
    if t[0] == "t": MAT_DEFAULT[t] = dict(set=(0,))
TEXKINDS = [t for t in MAT_KINDS if t[0] == "t"]
PARKINDS = [t for t in MAT_KINDS if t[0] == "p"]
MAT_PARENTS = dict(image={"doc"}, effect={"doc"}, material={"doc"}, std={"effect"}, surface={"std"}, sampler={"std"}, **{t: {"std"} for t in TEXKINDS}, **{p: {"std", "material"} for p in PARKINDS})
MAT_REFS = dict(surface=dict(imgs={"image"}), sampler=dict(surface={"surface"}), material=dict(effect={"effect"}), **{t: dict(sampler={"sampler"}) for t in TEXKINDS})
MAT_INV = ["WellFormed", "InOrder", "Stable", "Kept"]


def materials(name, kinds, vals, ops="Make Set Ref Release Save Again", refs=None, parents={}, **kw):
    kinds = kinds.split()
    c = dict(KindSeq=MAT_KINDS, Kinds=set(kinds), Parents=dict(MAT_PARENTS, **parents), Single={"std"}, Default=MAT_DEFAULT, Vals=vals or dict(none=dict(none={(0,)})),
             RefTo={k: v for k, v in MAT_REFS.items() if refs is None or k in refs.split()}, RefLen=1, Lists={"imgs"}, NMax=4, Numbered={"surface", "sampler"} | set(PARKINDS))
    c["RefTo"] = MAT_REFS
    c.update(kw)
    return c, simple(name, "Materials", "materials", MAT_INV, ops, c)


LIGHTS = {(0,), (1,), (2,), (3,)}
C1, C2 = (0, 1, 2, 4), (4, 3, 10, 2)
k26a, m26a = materials("lighting-models", "effect std", dict(std=dict(light=LIGHTS, emission={C1}, ambient={C2}, diffuse={C1}, specular={C2}, shine={(42,)}, specularF={(3,)})), ops="Make Set Save Again", NMax=2)
k26a2, m26a2 = materials("reflection", "effect std", dict(std=dict(light={(0,), (2,)}, isEF={(0,), (1,)}, emission={C1}, emissionF={(7,)}, refl={(0,)}, reflC={C1}, reflF={(3,)}, refr={(0,)}, ior={(6,)})), ops="Make Set Save Again", NMax=2)
k26a3, m26a3 = materials("transparency", "effect std", dict(std=dict(light={(0,), (3,)}, mode={(0,), (1,)}, translC={C1, C2}, translF={(2,), (0,)}), effect=dict(name={(1,)})), ops="Make Set Save Again", NMax=2)
# textures with the values that they replace
def textured(name, t, **f):
    return materials(name, "effect std " + t, dict(std=dict(f, light={(0,), (2,)})), ops="Make Set Save Again", NMax=4)


k26b1, m26b1 = textured("textured-emission", "tEmission tBump", isEF={(1,)}, emissionF={(3,)})
k26b2, m26b2 = textured("textured-lighting", "tAmbient tDiffuse", diffuse={C2}, ambient={C1})
k26b3, m26b3 = textured("textured-specular", "tSpecular tSpecLevel tShininess", specularF={(2,)})
k26b4, m26b4 = textured("textured-reflection", "tReflect tRefract", refl={(1,)}, ior={(5,)})
k26b5, m26b5 = textured("textured-transparency", "tTransp tFilter tDispl", translF={(1,)})
k26c, m26c = materials("samplers", "effect std surface sampler tDiffuse", dict(tDiffuse=dict(set={(5,)})), NMax=5)
k26c2, m26c2 = materials("images-of-surfaces", "image effect std surface", dict(surface=dict(init={(i,) for i in range(9)})), NMax=4)
k26c5, m26c5 = materials("lists-of-images", "image effect std surface", dict(surface=dict(init={(1,), (4,)}, mip={(0, 3)}, face={(5, 4)})), NMax=5, RefLen=2, Single={"std", "surface"}, ops="Make Set Ref Save Again")
k26c3, m26c3 = materials("surface-formats", "effect std surface", dict(surface=dict(type={(0,), (2,)}, size={(4, 8, 0)}, ratio={(2,), (4,)}, mips={(3,)}, genmips={(1,)}, format={(1,)}, semantic={(1,)})), ops="Make Set Save Again", NMax=3)
k26c4, m26c4 = materials("sampler-modes", "effect std sampler", dict(sampler=dict(type={(0,), (1,), (2,), (3,)}, wrapS={(0,)}, wrapT={(2,), (4,)}, wrapP={(3,)}, min={(6,)}, mag={(2,)}, mipf={(3,)})), ops="Make Set Save Again", NMax=3)
PV = dict(pBool={(1,)}, pInt={(-2000007,)}, pFloat={(-4001,)}, pFloat2={(1, -6)}, pFloat3={(1, -6, 400)}, pVector={(1, 2, 3, -4)}, pMatrix={tuple(range(1, 17))}, pString={(3,), (4,)})
k26d, m26d = materials("parameters", "effect std " + " ".join(PARKINDS), {p: dict(value=PV[p]) for p in PARKINDS}, ops="Make Set Save Again Release", NMax=4)
k26d2, m26d2 = materials("parameter-details", "effect std pFloat pVector pString", {p: dict(semantic={(1,)}, notes={(1, 2, 6), (7, 8, 1, 1, 3, 6), (2, 1, 6)}, **(dict(half={(1,)}) if p != "pString" else {})) for p in ("pFloat", "pVector", "pString")}, ops="Make Set Save Again", NMax=3)
k26e, m26e = materials("materials", "effect material pFloat3", dict(material=dict(hints={(1, 2, 2, 7)}), pFloat3=dict(value={(4, 0, 2)})), NMax=3)
k26i, m26i = materials("images-of-textures", "image effect std tDiffuse tBump", None, ops="Make Image Save Again", NMax=8, Single={"std", "effect", "tBump"})
MATS = [(m26a, k26a), (m26a2, k26a2), (m26a3, k26a3), (m26b1, k26b1), (m26b2, k26b2), (m26b3, k26b3), (m26b4, k26b4), (m26b5, k26b5), (m26c, k26c), (m26c2, k26c2), (m26c5, k26c5), (m26c3, k26c3), (m26c4, k26c4), (m26d, k26d), (m26d2, k26d2), (m26e, k26e), (m26i, k26i)]
k26s, m26s = materials("everything", " ".join(MAT_KINDS), dict(
    std=dict(light=LIGHTS, mode={(0,), (1,)}, isEF={(0,), (1,)}, refl={(0,), (1,)}, refr={(0,), (1,)}, emission={C1, C2}, ambient={C2}, diffuse={C1}, specular={C2}, reflC={C1}, translC={C2},
             emissionF={(7,)}, specularF={(3,)}, shine={(42,)}, reflF={(3,)}, translF={(2,)}, ior={(6,)}),
    surface=dict(type={(1,), (2,)}, size={(4, 8, 0)}, ratio={(2,)}, mips={(3,)}, genmips={(1,)}, format={(1,)}, semantic={(1,)}, init={(i,) for i in range(9)}, mip={(0, 3)}, slice={(1,)}, face={(5, 4)},
                 hint={(0, 1, 2), (1, 4, 0, 0, 3), (4, 2, 1, 1, 2)}, notes={(1, 2, 6)}),
    sampler=dict(type={(0,), (1,), (2,), (3,)}, wrapS={(i,) for i in range(5)}, wrapT={(2,), (4,)}, wrapP={(3,)}, min={(i,) for i in range(7)}, mag={(1,), (2,)}, mipf={(3,)}, notes={(7, 8, 1, 1, 3, 6)}),
    material=dict(name={(1,), (5,)}, hints={(), (1, 2, 2, 7)}), effect=dict(name={(5,)}), image=dict(name={(1,)}),
    **{t: dict(set={(5,), (6,)}) for t in TEXKINDS}, **{p: dict(value=PV[p], semantic={(1,), (0,)}, notes={(2, 1, 6), ()}, **(dict(half={(0,), (1,)}) if p[1] in "FVM" else {})) for p in PARKINDS}),
    ops="Make Set Ref Release Image Save Again", NMax=18, RefLen=2)
MATS_SIM = [(m26s, dict(quick=dict(trace_n=10, sim=[dict(const=k26s, grow=["Make", "Ref", "Set"], live="LiveAll", kinds=2, fan=3, num=3, depth=60)]), thorough=dict(sim=[dict(const=k26s, grow=["Make", "Ref", "Set"], live="LiveAll", kinds=2, fan=12, num=60, depth=90, timeout=900)])))]
prop("P26", [(m, dict(quick=dict(trace_n=15, mc=[dict(const=k)]), thorough=dict(mc=[dict(const=k, covers=3)]))) for m, k in MATS] + MATS_SIM, "x")

# ---- P28 controllers
CTL_KINDS = "geo controller skin morph target node inst".split()
CTL_DEFAULT = dict(geo=dict(name=(0,), shape=(0,)), controller=dict(name=(0,)), skin=dict(bind=(0,), joints=(), infl=()), morph=dict(method=(0,)), target=dict(w=(0,)), node=dict(joint=(0,), sid=(0,)), inst=dict(sub=(0,)))
CTL_PARENTS = dict(geo={"doc"}, controller={"doc"}, skin={"controller"}, morph={"controller"}, target={"morph"}, node={"doc", "node"}, inst={"node"})
CTL_REFS = dict(skin=dict(target={"geo", "controller"}), morph=dict(base={"geo", "controller"}), target=dict(geom={"geo"}), inst=dict(of={"controller"}, joints={"node"}, roots={"node"}))


def controllers(name, kinds, vals, ops="Make Set Ref Release Save Again", **kw):
    c = dict(KindSeq=CTL_KINDS, Kinds=set(kinds.split()), Parents=CTL_PARENTS, Single=set(), Default=CTL_DEFAULT, Vals=vals or dict(none=dict(none={(0,)})), RefTo=CTL_REFS, RefLen=1, Lists={"joints"}, NMax=4,
             Numbered=set(), Weights={3}, Reductions={(2, 0)})
    c.update(kw)
    return c, simple(name, "Controllers", "controllers", ["WellFormed", "InOrder", "Stable", "Chained", "Normal"], ops, c)


k28a, m28a = controllers("skins", "geo controller skin", dict(geo=dict(shape={(1,), (2,)}), skin=dict(bind={(1,)}, joints={(1, 0), (2, 1, 3, 2)}, infl={(1, 0, 12, 0), (0, 2, 1, 3, 0, 9, 1, -1, 12), (2, 0, 6, 5, 3, 3, 0, 1, 1, 2, 2, 3)})), NMax=3)
k28b, m28b = controllers("influences", "controller skin", dict(skin=dict(joints={(1, 1, 2, 2, 3, 0)}, infl={(3, 0, 3, 1, 6, 2, 2), (3, 2, 1, 0, 2, 1, 9, 1, 0, 12), (4, 0, 1, 1, 2, 2, 3, 1, 6), (2, 0, 8, 1, 4, 0), (3, 0, 24, 1, 8, 2, 4), (1, 0, 0), (5, 0, 1, 1, 2, 2, 3, 0, 4, 1, 5)})),
                         ops="Make Set Reduce Save Again", NMax=2, Reductions={(n, w) for n in (0, 1, 2, 3) for w in (0, 3, 4)})
k28c, m28c = controllers("morphs", "geo controller morph target", dict(geo=dict(shape={(1,)}), target=dict(w={(3,)}), morph=dict(method={(1,)})), ops="Make Set Ref Release Target Save Again", NMax=5, Single={"controller"})
k28d, m28d = controllers("chains", "geo controller skin morph", None, ops="Make Ref Release Target Base Save Again", NMax=5, Single={"geo"})
k28e, m28e = controllers("instances", "controller skin node inst", dict(skin=dict(joints={(1, 0, 2, 1)}), node=dict(sid={(1,), (2,)})), ops="Make Set Ref Roots Save Again", NMax=4, RefLen=1, Parents=dict(CTL_PARENTS, node={"doc"}), Single={"controller", "skin", "inst"})
k28s, m28s = controllers("all-controllers", " ".join(CTL_KINDS), dict(geo=dict(shape={(0,), (1,), (2,)}, name={(1,)}), controller=dict(name={(5,)}), skin=dict(bind={(1,), (2,)}, joints={(1, 0, 2, 1, 3, 2), (2, 1)}, infl={(1, 0, 12, 2, 2, 3, 0, 9), (), (0, 0, 0)}),
                         morph=dict(method={(0,), (1,)}), node=dict(sid={(0,), (1,), (2,), (3,)}, joint={(0,), (1,)})), ops="Make Set Ref Release Target Reduce Roots Base Save Again", NMax=14, RefLen=3, Single={"inst"}, Reductions={(1, 0), (2, 3)})
CTL_SIM = [(m28s, dict(quick=dict(trace_n=10, sim=[dict(const=k28s, grow=["Make", "Ref", "Set", "Target"], live="LiveAll", kinds=2, fan=4, num=4, depth=80)]), thorough=dict(sim=[dict(const=k28s, grow=["Make", "Ref", "Set", "Target"], live="LiveAll", kinds=2, fan=12, num=100, depth=100, timeout=900)])))]
CTL = [(m28a, k28a), (m28b, k28b), (m28c, k28c), (m28d, k28d), (m28e, k28e)]
prop("P28", [(m, dict(quick=dict(trace_n=15, mc=[dict(const=k)]), thorough=dict(mc=[dict(const=k, covers=3)]))) for m, k in CTL] + CTL_SIM, "x")
