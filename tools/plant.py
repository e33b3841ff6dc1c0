#!/usr/bin/env python3
"""plant.py FILE...: writes seeded/<id>/ from planting descriptions (python dicts): the change is made in a scratch
checkout of /repo's HEAD and stored as a diff."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the repository after its build; exit 0: the property holds here
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
R=$PWD
g++ -std=gnu++17 -g -w %s-DFMT_SHARED -DLINUX -D_DEBUG -I"$R/FCollada" -I"$R/_build" -isystem /usr/include/libxml2 "$D/demo.cpp" -o "$T/demo" "$R/_build/libFColladaSD.a" -lxml2 -lfmt -ldl
cd "$T"
timeout 100 ./demo
'''
HEAD = '''#include "FCollada.h"
#include "FUtils/FUUniqueStringMap.h"
#include "FUtils/FUError.h"
#include "FUtils/FUErrorLog.h"
#include "FUtils/FUDaeEnum.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDTransform.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometrySource.h"
#include "FCDocument/FCDGeometryPolygons.h"
#include "FCDocument/FCDGeometryPolygonsInput.h"
#include "FCDocument/FCDGeometryPolygonsTools.h"
#include "FCDocument/FCDAnimation.h"
#include "FCDocument/FCDAnimationChannel.h"
#include "FCDocument/FCDAnimationCurve.h"
#include "FCDocument/FCDAnimationMultiCurve.h"
#include "FCDocument/FCDAnimationKey.h"
#include "FCDocument/FCDAnimationClip.h"
#include "FCDocument/FCDAnimated.h"
#include "FCDocument/FCDExtra.h"
#include "FCDocument/FCDAsset.h"
#include "FCDocument/FCDController.h"
#include "FCDocument/FCDSkinController.h"
#include "FCDocument/FCDMorphController.h"
#include "FCDocument/FCDControllerInstance.h"
#include "FCDocument/FCDGeometryInstance.h"
#include "FCDocument/FCDEntityInstance.h"
#include "FCDocument/FCDEntityReference.h"
#include "FCDocument/FCDPlaceHolder.h"
#include "FCDocument/FCDExternalReferenceManager.h"
#include "FCDocument/FCDMaterial.h"
#include "FCDocument/FCDMaterialInstance.h"
#include "FCDocument/FCDEffect.h"
#include "FCDocument/FCDEffectStandard.h"
#include "FCDocument/FCDLight.h"
#include "FCDocument/FCDCamera.h"
#include "FCDocument/FCDImage.h"
#include "FCDocument/FCDTexture.h"
#include "FCDocument/FCDParameterAnimatable.h"
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <string>
#define CHECK(x) do { if (!(x)) { printf("line %d: %s\\n", __LINE__, #x); fflush(stdout); _Exit(1); } } while (0)
struct NoText { operator const char*() const { return NULL; } };
static void quiet() { static FUAssertion::FUAssertCallback cb = [](auto) -> NoText { printf("assertion\\n"); fflush(stdout); _Exit(1); return NoText(); }; FUAssertion::SetAssertionFailedCallback(&cb); }
'''
for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    for b in ns["BUGS"]:
        d = f"{V}/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        w = "/tmp/plantrepo"
        shutil.rmtree(w, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", w])
        for (file, old, new) in b["edits"]:
            p = f"{w}/{file}"
            t = open(p, newline="").read()
            crlf = "\r\n" in t
            if crlf:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            n = t.count(old)
            if n != 1:
                print(b["id"], file, "matches", n); sys.exit(1)
            open(p, "w", newline="").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w, "diff"])
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/demo.cpp", "w").write(HEAD + b["demo"])
        open(d + "/demo.sh", "w").write(DEMO % b.get("flags", ""))
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        print(b["id"], "written", len(diff))
        shutil.rmtree(w, ignore_errors=True)
