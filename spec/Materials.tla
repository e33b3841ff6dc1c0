------------------------------ MODULE Materials ------------------------------
(* Images, effects with their COMMON profile, its parameters (surfaces, samplers, values) and          *)
(* textures, and materials with their parameters and hints, through edits, releases, saving, loading.   *)
EXTENDS Nest
Children(o, i, k) == {c \in 1..Len(o) : o[c].p = i /\ o[c].k = k}
(* colours in quarters *)
One == <<4, 4, 4, 4>>
Effect(k, f, x, v) ==
  IF k = "std" /\ x \in {"reflC", "reflF"} THEN [f EXCEPT ![x] = v, !.refl = <<1>>]
  ELSE IF k = "surface" /\ x = "init" THEN [f EXCEPT !.init = v, !.mip = <<>>, !.slice = <<>>, !.face = <<>>]
  ELSE IF k = "std" /\ x = "ior" THEN [f EXCEPT ![x] = v, !.refr = <<1>>]
  ELSE [f EXCEPT ![x] = v]
(* texture channels of the COMMON profile: the colour or number they replace *)
Buckets == {"tEmission", "tAmbient", "tDiffuse", "tSpecular", "tShininess", "tSpecLevel", "tReflect", "tRefract", "tTransp", "tBump", "tDispl", "tFilter"}
Has(o, i, t) == Children(o, i, t) # {}
(* the channels that the profile's lighting model does not have *)
Unlit(f) == (IF f.light = <<0>> THEN {"tAmbient", "tDiffuse"} ELSE {})
   \cup (IF f.light[1] < 2 THEN {"tSpecular", "tShininess", "tSpecLevel"} ELSE {}) \cup (IF f.refl = <<0>> THEN {"tReflect"} ELSE {})
SavedStd(o, i) ==
  LET f == o[i].f d == Default["std"]
      colour(t, x) == IF t \in Unlit(f) THEN d[x] ELSE IF Has(o, i, t) THEN One ELSE f[x]
      number(t, x) == IF t \in Unlit(f) THEN d[x] ELSE IF Has(o, i, t) THEN <<4>> ELSE f[x]
  IN [f EXCEPT !.emission = IF f.isEF = <<1>> THEN d.emission ELSE colour("tEmission", "emission"),
               !.emissionF = IF f.isEF = <<0>> THEN d.emissionF ELSE number("tEmission", "emissionF"),
               !.ambient = colour("tAmbient", "ambient"), !.diffuse = colour("tDiffuse", "diffuse"), !.specular = colour("tSpecular", "specular"),
               !.shine = number("tShininess", "shine"), !.specularF = number("tSpecLevel", "specularF"),
               !.reflC = IF f.refl = <<0>> THEN <<0, 0, 0, 0>> ELSE colour("tReflect", "reflC"), !.reflF = IF f.refl = <<0>> THEN <<0>> ELSE f.reflF,
               !.translC = colour("tTransp", "translC"),
               !.ior = IF Has(o, i, "tRefract") THEN <<4>> ELSE IF f.refr = <<1>> THEN f.ior ELSE d.ior, !.refr = IF Has(o, i, "tRefract") THEN <<1>> ELSE @]
(* a surface that has a size has no viewport ratio; images are written as its initialisation needs them *)
Images(x) == LET n == Len(x.r.imgs) IN IF x.f.init = <<1>> THEN n ELSE IF x.f.init[1] >= 4 THEN Min2(n, 1) ELSE 0
SavedSurface(x) ==
  LET f == x.f n == Len(x.r.imgs)
      attrs == f.init = <<1>> /\ n \in {Len(f.mip), Len(f.slice), Len(f.face)}
      cut(v) == IF attrs THEN SubSeq(v, 1, Min2(n, Len(v))) ELSE <<>>
  IN [x EXCEPT !.f = [f EXCEPT !.ratio = IF f.size # <<0, 0, 0>> THEN Default["surface"].ratio ELSE @, !.init = IF @ = <<1>> /\ n = 0 THEN <<0>> ELSE @,
                               !.mip = cut(@), !.slice = cut(@), !.face = cut(@)],
                !.r.imgs = SubSeq(@, 1, Images(x))]
Wraps(t) == CASE t = <<0>> -> {"wrapS"} [] t = <<1>> -> {"wrapS", "wrapT"} [] OTHER -> {"wrapS", "wrapT", "wrapP"}
SavedSampler(x) == [x EXCEPT !.f = [y \in DOMAIN x.f |-> IF y \in {"wrapS", "wrapT", "wrapP"} \ Wraps(x.f.type) THEN Default["sampler"][y] ELSE x.f[y]]]
Named(x) == IF "name" \in DOMAIN x.f /\ x.f.name = <<0>> THEN [x EXCEPT !.f.name = <<9>>] ELSE x
Modifier(o, x) == x.p # 0 /\ KindAt(o, x.p) = "material"
Saved(o) ==
  LET one(i) == LET x == Named(o[i]) IN
        IF x.k = "std" THEN [x EXCEPT !.f = SavedStd(o, i)]
        ELSE IF x.k \in Buckets THEN (IF x.k \in Unlit(o[x.p].f) THEN [x EXCEPT !.p = -1] ELSE x)
        ELSE IF x.k = "surface" THEN SavedSurface(x) ELSE IF x.k = "sampler" THEN SavedSampler(x)
        \* a material without an effect has nothing to modify
        ELSE IF x.k = "material" /\ x.r.effect = <<>> THEN [x EXCEPT !.f.hints = <<>>]
        ELSE IF Modifier(o, x) /\ o[x.p].r.effect = <<>> THEN [x EXCEPT !.p = -1]
        ELSE IF Modifier(o, x) THEN [x EXCEPT !.f.semantic = <<0>>]
        ELSE x
  IN Norm([i \in 1..Len(o) |-> one(i)])
(* an image that a surface is initialized from has a mip level, a slice and a face *)
(* the surfaces and samplers that SetImage made are used again for their image: they are left alone *)
Allowed(a) ==
  LET made == {i \in 1..Len(st) : "num" \in DOMAIN st[i].f /\ st[i].f.num = <<-1>>}
  IN IF a.op = "Set" THEN (IF KindAt(st, a.i) = "surface" THEN (a.f \in {"mip", "slice", "face"} => st[a.i].f.init = <<1>>) /\ (a.f = "init" => a.i \notin made) ELSE TRUE)
     ELSE IF a.op = "Ref" THEN a.i \notin made
     ELSE IF a.op = "Release" THEN KindAt(st, a.i) = "image" => made = {}
     ELSE TRUE
(* a texture gets an image: a surface and a sampler for the image, one of each for all the textures of   *)
(* the profile; the sampler that the texture had is released unless another texture has it (-1 : named   *)
(* after the image)                                                                                       *)
Pick(S) == CHOOSE x \in S : TRUE
SetImage(i, j) ==
  LET p == st[i].p
      old == {c \in 1..Len(st) : st[i].r.sampler = <<c>>}
      rest(o) == {c \in 1..Len(o) : o[c].p = p}
      o1 == [c \in 1..Len(st) |-> IF c \in old /\ (\A t \in 1..Len(st) : t # i /\ st[t].k \in Buckets => st[t].r.sampler # <<c>>) THEN [st[c] EXCEPT !.p = -1] ELSE st[c]]
      surfaces(o) == {c \in rest(o) : o[c].k = "surface" /\ o[c].f.num = <<-1>> /\ o[c].r.imgs = <<j>>}
      samplers(o, s) == {c \in rest(o) : o[c].k = "sampler" /\ o[c].f.num = <<-1>> /\ o[c].r.surface = <<s>>}
      o2 == IF surfaces(o1) # {} THEN o1 ELSE Append(o1, [New(o1, "surface", p) EXCEPT !.f.num = <<-1>>, !.f.init = <<1>>, !.r.imgs = <<j>>])
      s == Pick(surfaces(o2))
      o3 == IF samplers(o2, s) # {} THEN o2 ELSE Append(o2, [New(o2, "sampler", p) EXCEPT !.f.num = <<-1>>, !.r.surface = <<s>>])
  IN IF j = 0 THEN Norm([o1 EXCEPT ![i].r.sampler = <<>>]) ELSE Norm([o3 EXCEPT ![i].r.sampler = <<Pick(samplers(o3, s))>>])
Step(a) ==
  \/ Allowed(a) /\ BaseStep(a, Effect)
  \/ a.op = "Image" /\ KindAt(st, a.i) \in Buckets /\ KindAt(st, a.j) \in {"image", "doc"} /\ Len(st) + 2 <= NMax /\ To(SetImage(a.i, a.j), a, 0)
  \/ a.op = "Again" /\ To(Saved(st), a, 0)
LiveAll == Live \cup {[op |-> "Image", i |-> i, j |-> j] : i \in {i \in 1..Len(st) : st[i].k \in Buckets}, j \in {0} \cup {i \in 1..Len(st) : st[i].k = "image"}}
Acts == BaseActs \cup [op : {"Image"}, i : 1..NMax, j : 0..NMax]
-----------------------------------------------------------------------------
(* saving and loading a second time changes nothing more *)
Stable == LET o == Saved(st) IN Saved(o) = o
(* what has a place in a file is kept *)
Kept == LET o == Saved(st) IN
  /\ \A k \in {"image", "effect", "std", "surface", "sampler", "material"} : Cardinality({i \in 1..Len(o) : o[i].k = k}) = Cardinality({i \in 1..Len(st) : st[i].k = k})
  /\ (\A i \in 1..Len(st) : st[i].k = "std" => st[i].f.light[1] >= 2 /\ st[i].f.refl = <<1>>) /\ (\A i \in 1..Len(st) : st[i].k = "material" => st[i].r.effect # <<>>) => Len(o) = Len(st)
=============================================================================
