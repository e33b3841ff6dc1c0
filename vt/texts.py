"""The texts of the properties."""
PROPERTIES = []
NOT_APPLICABLE = {}


def P(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    PROPERTIES.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=None)))


P("P01", "Every owned object has exactly one owner and is destroyed exactly once",
  "An object held by an object container or an owning reference belongs to exactly one owner at a time: it is destroyed exactly once, when its owner releases, clears, pops, erases or overwrites it or is itself destroyed, and never while another owner holds it. "
  "Moving or detaching an object transfers that ownership without destroying it, an object released directly disappears from its owner, and the order and number of the remaining objects is that of a plain sequence.",
  ["histories"], "every sequence of container operations (insert, push, erase by position, value or range, clear, pop, detach, transfer), owning-reference assignments and direct releases, over any number of objects and owners, including objects that themselves own others",
  "The unit tests create a few containers and delete them; they never mix direct release, transfer between owners and nested ownership, where a wrong owner or a double release appears.",
  ["FCollada/FUtils/FUObject.h", "FCollada/FUtils/FUObject.cpp"],
  [("FUObjectContainer and its owner callbacks", "FCollada/FUtils/FUObject.h"), ("FUObjectRef, FUObjectOwner", "FCollada/FUtils/FUObject.h"), ("FUObject::Release / Detach", "FCollada/FUtils/FUObject.cpp")],
  ["FUObjectContainer contents", "object destructors"], [("owner", "the one owner of an object", "FUObject::objectOwner")])
P("P02", "Tracking pointers and lists never refer to a released object",
  "When a tracked object is released, every tracking pointer to it becomes null and every tracking list drops exactly that object, at once and whatever copies, clones, reassignments, insertions or removals happened before. "
  "No other pointer or list element changes, the remaining elements keep their order, and a tracker that was destroyed, cleared or reassigned is never notified about objects it no longer refers to.",
  ["histories"], "every sequence of assignments, copies, clones, inserts, erases, pops and clears of tracking pointers and lists and of releases of tracked objects",
  "A dangling tracker needs a particular order of copy, reassignment and release; the tests exercise one order for each tracker class and do not copy trackers.",
  ["FCollada/FUtils/FUTracker.h", "FCollada/FUtils/FUTracker.cpp", "FCollada/FUtils/FUObject.h"],
  [("FUTrackable / FUTracker notification", "FCollada/FUtils/FUTracker.h"), ("FUTrackedPtr", "FCollada/FUtils/FUTracker.h"), ("FUTrackedList", "FCollada/FUtils/FUTracker.h")],
  ["FUTrackedPtr value", "FUTrackedList contents", "FUTrackable::GetTrackerCount"])
P("P03", "Every notification reaches each registered handler exactly once",
  "Raising an event or an error notification calls each handler registered at that moment exactly once, the most recent first, with the arguments raised, also when a handler unregisters itself, registers another one or raises a notification of its own while it is called. "
  "Releasing an object's handler removes exactly one registration and nothing when there is none; error handler and log objects listen from their construction to their destruction, at the severities they were given, and count every message, and a notification is reported fatal exactly when its severity reaches the current fatality level.",
  ["histories"], "every sequence of handler registrations, releases, notifications, fatality-level changes and constructions and destructions of handler objects, with handlers that modify the list while they run",
  "The tests register one or two passive handlers; re-entrancy and the interplay of several handlers per object and per severity appear only in longer histories.",
  ["FCollada/FUtils/FUEvent.h", "FCollada/FUtils/FUError.h", "FCollada/FUtils/FUError.cpp", "FCollada/FUtils/FUErrorLog.cpp"],
  [("FUEvent", "FCollada/FUtils/FUEvent.h"), ("FUError callback lists", "FCollada/FUtils/FUError.cpp"), ("FUErrorSimpleHandler, FUErrorLog", "FCollada/FUtils/FUErrorLog.cpp")],
  ["calls of the handlers", "return value of FUError::Error", "FUErrorSimpleHandler::GetErrorString / IsSuccessful", "FUErrorLog::QueryNewMessages"])
P("P04", "No two objects of a document ever carry the same COLLADA id",
  "The ids handed out to the objects of one document are pairwise distinct and valid (a letter or '_' first, then letters, digits, '_', '-', '.'), whatever ids were asked for; a requested id that is valid and free is used unchanged. "
  "An id stays with its object until it is set again, removed, cloned away or the object is released, it is then free again, and searching the document for an id finds exactly the object that carries it.",
  ["histories"], "every sequence of creating, naming, querying, cloning, un-naming and releasing objects of several kinds, with requested ids that collide, carry numeric suffixes with or without leading zeros, or contain invalid characters, and every sequence of insertions and removals of the underlying name map",
  "A duplicate id needs particular names (numeric suffixes, leading zeros) and a particular order of registrations and removals; the tests use a few fixed names.",
  ["FCollada/FUtils/FUUniqueStringMap.cpp", "FCollada/FCDocument/FCDObjectWithId.cpp", "FCollada/FCDocument/FCDLibrary.hpp", "FCollada/FCDocument/FCDocument.cpp"],
  [("FUUniqueStringMap::insert / erase / contains", "FCollada/FUtils/FUUniqueStringMap.cpp"), ("FCDObjectWithId::GetDaeId / SetDaeId / Clone", "FCollada/FCDocument/FCDObjectWithId.cpp"), ("FCDLibrary::FindDaeId", "FCollada/FCDocument/FCDLibrary.hpp")],
  ["GetDaeId / SetDaeId", "FCDocument::GetUniqueNameMap", "FCDocument::FindEntity and Find<Kind>"], [("names", "the ids in use", "FCDocument::uniqueNameMap")])
P("P05", "Vectors and pointer lists behave as plain sequences",
  "Any sequence of operations on fm::vector and fm::pvector (insertion of one, several or its own elements, erasure by position, range or value, resizing, reserving, assignment, copying, sorting, searching, comparing) leaves exactly the elements, in the order, that the same operations on a mathematical sequence would leave; "
  "no other vector changes, each stored element is constructed and destroyed exactly once and no memory outside the vector is touched.",
  ["inputs", "histories"], "every sequence of vector operations with every position, count and value, including insertion of a vector's own elements across a reallocation, self-assignment and shrinking, for trivially copyable, non-trivial and pointer elements",
  "The tests use a handful of sequences of trivial elements; reallocation during self-insertion, element lifetimes and range edges are not sampled.",
  ["FCollada/FMath/FMArray.h", "FCollada/FMath/FMArrayPointer.h", "FCollada/FMath/FMSort.h"],
  [("fm::vector", "FCollada/FMath/FMArray.h"), ("fm::pvector", "FCollada/FMath/FMArrayPointer.h"), ("fm::comparator and sort", "FCollada/FMath/FMSort.h")],
  ["vector contents, size, empty, front/back", "element constructions and destructions"])
P("P06", "Maps keep exactly their keys, in order, under any insertions and erasures",
  "Any sequence of insertions, assignments, look-ups and erasures on fm::tree, fm::map and fm::set leaves exactly the pairs that the same operations on a mathematical map would leave: each key once, with its latest value; iteration visits the keys in increasing order in both directions, find returns the pair of the key or end, and copies are equal and independent. "
  "Every pair is constructed and destroyed exactly once.",
  ["histories"], "every sequence of map operations, reaching every shape of balanced tree of up to nine keys (larger trees by random simulation), including copies and self-assignment",
  "Rebalancing has many cases that only particular insertion and erasure orders reach; the tests try a few orders.",
  ["FCollada/FMath/FMTree.h"], [("fm::tree insert, erase, rotations", "FCollada/FMath/FMTree.h")],
  ["iteration in both directions", "find, size, last", "value constructions and destructions"])
P("P07", "The scene graph stays an acyclic graph with matching parent and child links",
  "Whatever nodes are created, linked, unlinked, cloned and released, no scene node is its own ancestor, a node lists another as child exactly when that one lists it as parent, exactly once, and nothing refers to a released node. "
  "Releasing a node releases exactly the descendants that no remaining node of its document holds; a node finds exactly the nodes below it by id and sub id, a new sub id is valid and unique among its ancestors and descendants, and a world transform is the product of the local transforms along the chain of first parents.",
  ["histories"], "every sequence of node creations, links, unlinks, clones, releases, searches and sub id changes over graphs with shared nodes, in one or two documents",
  "Shared nodes and release orders multiply quickly; the tests build a few fixed graphs and never release a node with several parents.",
  ["FCollada/FCDocument/FCDSceneNode.cpp", "FCollada/FCDocument/FCDSceneNode.h", "FCollada/FCDocument/FCDLibrary.hpp"],
  [("FCDSceneNode::AddChildNode / RemoveChildNode / destructor", "FCollada/FCDocument/FCDSceneNode.cpp"), ("FCDSceneNode::SetSubId, FindSubId, FindDaeId", "FCollada/FCDocument/FCDSceneNode.cpp")],
  ["GetChild / GetParent lists", "library contents", "FindDaeId / FindSubId", "CalculateWorldTransform"])
P("P12", "Animation curves keep their keys in time order and evaluate through them",
  "Keys added at a time stay sorted, with the reported index, and editing one key leaves the others alone. A curve evaluates to the value of a key at the time of that key, interpolates between neighbouring keys as their interpolation says (step, linear, Bezier) and outside of its keys as its infinity modes say (constant, linear, cycle, relative cycle, oscillate), in one- and two-dimensional evaluation alike. "
  "Merging curves keeps the values of each, clones evaluate alike, and switching between clips moves keys and tangents by exactly the difference of the clip offsets.",
  ["inputs", "histories"], "every curve of up to three keys of every kind at every time and value of a grid (seven keys with equal times, nine keys in a row), every pair of infinity modes, evaluated at every half step from far before to far after the curve, and every sequence of key and clip edits",
  "The evaluation has many cases (search window, infinity arithmetic, equal times, mixed interpolations); the tests evaluate a few points of a few curves.",
  ["FCollada/FCDocument/FCDAnimationCurve.cpp", "FCollada/FCDocument/FCDAnimationMultiCurve.cpp", "FCollada/FCDocument/FCDAnimationCurveTools.cpp", "FCollada/FCDocument/FCDAnimationClip.cpp"],
  [("FCDAnimationCurve::Evaluate", "FCollada/FCDocument/FCDAnimationCurve.cpp"), ("FCDAnimationCurve::AddKey, Clone, SetCurrentAnimationClip", "FCollada/FCDocument/FCDAnimationCurve.cpp"), ("MergeCurves", "FCollada/FCDocument/FCDAnimationCurveTools.cpp")],
  ["FCDAnimationCurve::Evaluate", "key inputs, outputs, tangents", "FCDAnimationMultiCurve::Evaluate", "clip offsets"])
P("P10", "A mesh stays consistent under every edit of its sources, faces and inputs",
  "Whatever per-vertex and other sources, polygons sets, inputs, faces and holes are added to a mesh and removed from it, its counts and offsets (faces, holes, face-vertices, per face and per set) are those of its face-vertex counts and holes; "
  "inputs of one offset share one index list of the length of the set, which outlives the input or source it came with as long as another input uses it, and removing a face removes exactly that face, its holes and their indices. "
  "A new per-vertex source becomes an input of every set and a new set starts with all of them, no input refers to a released source, and a clone of the geometry is an equal, separate mesh.",
  ["histories"], "every sequence of adding, promoting and releasing sources, adding and releasing polygons sets and inputs, filling index lists, adding and removing faces and marking holes, and of clones",
  "The tests build meshes once and never edit them; shared index lists and holes break only when inputs, sources and faces are removed in particular orders.",
  ["FCollada/FCDocument/FCDGeometryMesh.cpp", "FCollada/FCDocument/FCDGeometryPolygons.cpp", "FCollada/FCDocument/FCDGeometryPolygonsInput.cpp", "FCollada/FCDocument/FCDGeometrySource.cpp"],
  [("FCDGeometryMesh::AddVertexSource, AddPolygons, Recalculate, Clone", "FCollada/FCDocument/FCDGeometryMesh.cpp"), ("FCDGeometryPolygons::AddFace / RemoveFace / AddHole / Clone", "FCollada/FCDocument/FCDGeometryPolygons.cpp"), ("FCDGeometryPolygonsInput index sharing", "FCollada/FCDocument/FCDGeometryPolygonsInput.cpp")],
  ["face, hole and face-vertex counts and offsets", "GetIndices of every input", "sources and inputs", "the clone of the geometry"])
P("P11", "The geometry tools never change what a mesh draws",
  "Triangulation replaces every polygon, fan and strip of three corners or more by its triangles in order (winding kept, strips alternating) and drops only holes and degenerate faces; lines stay. Generating unique indices, for the mesh or one polygons set, splitting sets to an index budget and cloning keep every corner of every face with its position, normal and texture coordinate values, its input set numbers and primitive type. "
  "After generating unique indices all inputs of a set share one index list in which two corners have the same index exactly when all their values are the same, and the translation map lists exactly the new indices of each old vertex; after splitting no set exceeds the budget; a packing map numbers the vertices in order of first use and stops at either budget; reversing normals flips exactly the normals.",
  ["inputs", "histories"], "every mesh of up to three faces of one to five corners over shared index values, in every primitive type, input layout and number of sets within the bounds (larger ones by random simulation), and every sequence of tools applied to it",
  "The tests run each tool on one or two fixed meshes; equal corners, shared offsets, several sets and sequences of tools are not sampled.",
  ["FCollada/FCDocument/FCDGeometryPolygonsTools.cpp", "FCollada/FCDocument/FCDGeometryPolygons.cpp", "FCollada/FCDocument/FCDGeometryMesh.cpp"],
  [("Triangulate", "FCollada/FCDocument/FCDGeometryPolygonsTools.cpp"), ("GenerateUniqueIndices (both forms)", "FCollada/FCDocument/FCDGeometryPolygonsTools.cpp"), ("FitIndexBuffers, GenerateVertexPackingMap, ReverseNormals", "FCollada/FCDocument/FCDGeometryPolygonsTools.cpp")],
  ["source values that each input gives each corner", "index lists", "translation map", "packing map"])
P("P13", "An animation curve stays with the value it is bound to",
  "Curves are bound to the single values of an animatable parameter (float, vector, colour, rotation, look-at, skew, matrix), found by the qualifier, index or address of that value, and evaluating the parameter writes to every animated value what the first curve bound to it gives and leaves the others alone. "
  "Releasing a curve, its channel, its animation, a parent animation or the object that holds the parameter removes exactly the curves concerned from everything they are bound to. "
  "In a list parameter a curve moves with its element through every insertion, erasure and resize and goes away with it; animations, channels and curves have exactly one parent each and are listed in tree order; the multi-dimensional curve made of one or several parameters has one dimension per value, holding its curve or its current value.",
  ["histories"], "every sequence of edits of a list parameter and of creating, binding, unbinding, evaluating and releasing curves, channels, animations and objects, for every parameter type",
  "Value pointers and bindings go stale only after particular sequences of list edits and releases; the tests do a handful of them on one type.",
  ["FCollada/FCDocument/FCDParameterAnimatable.cpp", "FCollada/FCDocument/FCDParameterAnimatable.hpp", "FCollada/FCDocument/FCDAnimated.cpp", "FCollada/FCDocument/FCDAnimation.cpp", "FCollada/FCDocument/FCDAnimationChannel.cpp"],
  [("FCDParameterListAnimatable::OnInsertion, OnRemoval, OnPotentialSizeChange", "FCollada/FCDocument/FCDParameterAnimatable.cpp"), ("FCDAnimated bindings, Evaluate, CreateMultiCurve, qualifiers", "FCollada/FCDocument/FCDAnimated.cpp"), ("FCDAnimation ownership", "FCollada/FCDocument/FCDAnimation.cpp")],
  ["FCDAnimated::GetCurve / GetValue / FindCurve / FindQualifier", "values after Evaluate", "animation, channel and curve lists", "FCDAnimationMultiCurve::Evaluate"])
P("P19", "A scene node's matrices are the product of its transforms",
  "Every transform (translation, rotation about any axis, scale, look-at, skew, matrix) has the matrix that COLLADA defines for it; the local matrix of a node is the product of its transforms in order, its world matrix goes through all of its parents, and points and vectors are transformed accordingly. "
  "Inserting, removing, changing and copying transforms changes exactly the transform concerned, the orientation quaternion of a rotation describes the same rotation, a transform is reported as the inverse of another only when it undoes it, and a cloned node has the same local matrix.",
  ["inputs", "histories"], "every one- and two-transform stack over a set of values of each type that includes negative, non-unit, collinear and degenerate axes and directions, every sequence of stack edits of up to three transforms, and hierarchies of three nodes",
  "Matrix conventions fail only for particular axes, orders and signs; the tests check no transform matrix at all.",
  ["FCollada/FCDocument/FCDTransform.cpp", "FCollada/FCDocument/FCDSceneNode.cpp", "FCollada/FMath/FMMatrix44.cpp", "FCollada/FMath/FMQuaternion.cpp"],
  [("FCDTransform::ToMatrix, IsInverse, Clone", "FCollada/FCDocument/FCDTransform.cpp"), ("FCDSceneNode::CalculateLocalTransform / CalculateWorldTransform / AddTransform", "FCollada/FCDocument/FCDSceneNode.cpp"), ("FMMatrix44 products, rotations, look-at", "FCollada/FMath/FMMatrix44.cpp")],
  ["ToMatrix", "CalculateLocalTransform / CalculateWorldTransform", "TransformCoordinate / TransformVector", "GetOrientation", "IsInverse"])
P("P20", "Rotations agree in all of their representations",
  "A rotation given as a quaternion, a matrix, an axis and angle, or Euler angles converts into every other representation and back as the same rotation, also for half turns, at the poles of the Euler angles and near given previous angles; "
  "products and conjugates of quaternions compose and undo rotations, interpolation starts and ends at its arguments and is half-way in the middle. "
  "A matrix made of a translation, a rotation and a scale without zeros decomposes into that translation and the sizes of that scale and recomposes into the same matrix; matrix products, inverses, transposes, determinants and transformed points and vectors are those of linear algebra.",
  ["inputs"], "every rotation reached by products of generators (quarter, half and third turns, and rotations with rational matrices) up to a bound on the denominator, every combination of quarter-turn Euler angles, positive, negative and mirrored scales; integer matrices closed under products, inverses and transposes",
  "Sign and order conventions fail only at particular rotations; the tests try a handful of them, with angles that hide an error.",
  ["FCollada/FMath/FMQuaternion.cpp", "FCollada/FMath/FMMatrix44.cpp", "FCollada/FMath/FMMatrix33.cpp", "FCollada/FMath/FMAngleAxis.cpp"],
  [("FMQuaternion products, ToEuler, ToAngleAxis, ToMatrix, MatrixRotationQuaternion, slerp", "FCollada/FMath/FMQuaternion.cpp"), ("FMMatrix44::Decompose, Recompose, AxisRotationMatrix, EulerRotationMatrix", "FCollada/FMath/FMMatrix44.cpp"), ("products, Inverted, Transposed, Determinant", "FCollada/FMath/FMMatrix44.cpp")],
  ["the rotation matrix after each conversion", "rotated vectors", "recomposed matrices"])
P("P23", "A bounding volume contains everything that it includes",
  "A bounding box is empty until something is included and then is the smallest box around all of the points and boxes included since, in whatever order; a transformed box contains the transformed corners. "
  "A bounding sphere contains every point, box and sphere included in it, is the smallest sphere around two spheres that it joins, and keeps what it contains when moved, mirrored and scaled. "
  "Containment and overlap tests are exact and symmetric, empty volumes contain and overlap nothing, and the reported centre of an overlap of two boxes or two spheres is the middle of the overlap.",
  ["inputs", "histories"], "every order of inclusions of points and boxes from a set, moved boxes, and every sequence of inclusions, moves and tests of spheres whose centres lie on one axis",
  "Whether a point becomes the minimum, the maximum or both depends on the order of inclusions; the tests include one point in a valid volume.",
  ["FCollada/FUtils/FUBoundingBox.cpp", "FCollada/FUtils/FUBoundingSphere.cpp"],
  [("FUBoundingBox::Include, Transform, Overlaps", "FCollada/FUtils/FUBoundingBox.cpp"), ("FUBoundingSphere::Include, Transform, Overlaps", "FCollada/FUtils/FUBoundingSphere.cpp")],
  ["GetMin / GetMax / IsValid", "GetCenter / GetRadius", "Contains", "Overlaps"])
P("P15", "The scenes of a document survive saving and loading",
  "After a document is saved and loaded, its visual scenes are there in order, the instantiated one is still instantiated, and every scene node has the same parents as before, the same first parent (and so the same world transform), its own children in the same order, its joint flag, visibility, name, note and sub id, "
  "and instances of the same geometries, cameras, lights, controllers, emitters and force fields, with their names and sub ids and in the same order (those that are not COLLADA elements, emitters and force fields, after the others). "
  "This holds for nodes shared by several parents and scenes, wherever they appear. Saving changes nothing: twice in a row it writes the same file.",
  ["histories"], "every graph of up to four nodes built by creating, linking, unlinking and releasing nodes in any order, with every flag, text and list of instances within the bounds, saved and loaded once or twice in between (larger graphs by random simulation)",
  "A shared node is written once and instantiated elsewhere; whether all of its parents come back depends on the order of the tree, and the tests save one tree.",
  ["FColladaPlugins/FArchiveXML/FAXSceneExport.cpp", "FColladaPlugins/FArchiveXML/FAXSceneImport.cpp", "FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp", "FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp", "FCollada/FCDocument/FCDSceneNode.cpp"],
  [("FArchiveXML::WriteSceneNode, WriteVisualScene", "FColladaPlugins/FArchiveXML/FAXSceneExport.cpp"), ("FArchiveXML::LoadSceneNode, LoadFromExtra", "FColladaPlugins/FArchiveXML/FAXSceneImport.cpp"), ("FArchiveXML::LoadEntityInstance", "FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp")],
  ["parents, children and world transforms after loading", "flags, names, notes, sub ids", "instances", "the written files"])
P("P27", "Lights, cameras, images, emitters and settings survive saving and loading",
  "After a document is saved and loaded, every light (of each type), perspective and orthographic camera, image, force field and emitter is there again, in the order of its library, with its name, note and all of the values that its type has (colour, intensity, attenuations, fall-offs, cone angles; views, aspect ratio, clipping planes; target node; image file and size), and so are the asset information of the document and of its entities (contributors with any information, creation time, title, subject, keywords, revision, unit, up axis) and the start time, end time and layers of the document. "
  "Texts come back exactly, whatever characters they contain. Saving changes nothing: twice in a row it writes the same file.",
  ["inputs", "histories"], "every value of every field of every kind of entity from sets that include extreme numbers, texts with markup, line breaks, percent signs and non-ASCII characters, every pair of fields of an entity, and sequences of creations, edits, releases and reloads",
  "A field that is written under one name or condition and read under another is lost silently; the tests check a few fields with one value.",
  ["FColladaPlugins/FArchiveXML/FAXLightExport.cpp", "FColladaPlugins/FArchiveXML/FAXLightImport.cpp", "FColladaPlugins/FArchiveXML/FAXCameraExport.cpp", "FColladaPlugins/FArchiveXML/FAXCameraImport.cpp", "FColladaPlugins/FArchiveXML/FAXEntityExport.cpp", "FColladaPlugins/FArchiveXML/FAXEntityImport.cpp", "FCollada/FUtils/FUXmlWriter.cpp", "FCollada/FUtils/FUXmlParser.cpp"],
  [("FArchiveXML::WriteLight / LoadLight", "FColladaPlugins/FArchiveXML/FAXLightExport.cpp"), ("FArchiveXML::WriteCamera / LoadCamera", "FColladaPlugins/FArchiveXML/FAXCameraExport.cpp"), ("FArchiveXML::WriteAsset / LoadAsset, WriteImage / LoadImage", "FColladaPlugins/FArchiveXML/FAXEntityExport.cpp"), ("FUXmlWriter::ConvertToXML / FUXmlParser", "FCollada/FUtils/FUXmlWriter.cpp")],
  ["every accessor of the loaded entities", "the written files"])
P("P24", "Meshes and splines survive saving and loading",
  "After a document is saved and loaded (without an error), a mesh has the same sources in the same order, with their ids, names, strides, values (to six digits) and, where they are used, semantics; the same per-vertex sources; and the same polygons sets in the same order, with their primitive type, material semantic, faces and holes. "
  "Every input is there again with its source, offset, set number and indices, so that every corner of every face has the values that it had. A geometry of linear, Bezier or NURBS splines has the same splines in the same order, with their control points, weights, knots, degree and closed flag. "
  "Saving changes nothing: twice in a row it writes the same file, and a loaded geometry can be edited and saved again.",
  ["inputs", "histories"], "every mesh of up to three faces or holes of one to four corners in every primitive type, every layout of up to three inputs over shared and separate offsets, every semantic, stride and set number, two polygons sets; every pair of splines of each type; saved and loaded once or twice during construction (larger ones by random simulation)",
  "How faces are written depends on the primitive type, holes and face sizes, and how they are read on the layout of the inputs; the tests save one mesh of one kind.",
  ["FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp", "FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp", "FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp", "FColladaPlugins/FArchiveXML/FAXColladaParser.cpp", "FCollada/FUtils/FUStringConversion.hpp", "FCollada/FCDocument/FCDGeometrySpline.cpp"],
  [("FArchiveXML::WriteGeometryPolygons / LoadGeometryPolygons", "FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp"), ("FArchiveXML::WriteGeometryMesh / LoadGeometryMesh", "FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp"), ("FUStringConversion::ToInterleavedUInt32List", "FCollada/FUtils/FUStringConversion.hpp"), ("FArchiveXML::WriteNURBSSpline / LoadNURBSSpline", "FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp")],
  ["sources, inputs, indices, faces and holes of the loaded mesh", "loaded splines", "errors raised while loading", "the written files"])

P("P25", "Animations and animation clips survive saving and loading",
  "After a document is saved and loaded (without an error), every animated value has the curve that it had on each of its dimensions, in the same animation of the same tree of animations, with its keys (times, values, interpolation, tangents, TCB parameters), its infinities (of a curve with keys) and its driver, if any. "
  "This holds for transforms, light, camera, material and effect parameter values, morph weights, mesh coordinates, visibility and extra data. A dimension without a curve stays without one, or gets a constant curve of its own value when the curves of one channel are saved together. "
  "Names and extra data of animations are kept, as are the times of the clips and the animations that they instantiate, with their names and the order, together with the animations of the clip's curves. Saving changes nothing: twice in a row it writes the same file.",
  ["inputs", "histories"], "every combination of curves of several shapes on the dimensions of one value or of up to six values of different kinds, in one or two animations, with infinities, drivers, clips, nested animations; saved and loaded any number of times during construction (larger ones by random simulation)",
  "Whether curves are merged, and what a channel's target is, depends on the combination of curves of a value and on the kind of the value; the tests save one or two animations.",
  ["FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp", "FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp", "FColladaPlugins/FArchiveXML/FAXImportLinking.cpp", "FCollada/FCDocument/FCDAnimationCurveTools.cpp", "FCollada/FCDocument/FCDAnimationClip.cpp", "FCollada/FCDocument/FCDAnimated.cpp"],
  [("FArchiveXML::WriteAnimationChannel / LoadAnimationChannel", "FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp"), ("FArchiveXML::WriteAnimatedValue / ProcessChannels", "FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp"), ("FArchiveXML::LinkDriver / LinkAnimated", "FColladaPlugins/FArchiveXML/FAXImportLinking.cpp"), ("FCDAnimationCurveTools::MergeCurves", "FCollada/FCDocument/FCDAnimationCurveTools.cpp")],
  ["curves, keys, infinities and drivers of the loaded values", "loaded animation tree and clips", "the written files"])

P("P26", "Images, effects and materials survive saving and loading",
  "After a document is saved and loaded (without an error), it has the same images, effects and materials in the same order: each effect with its COMMON profile (lighting model, emission, ambient, diffuse, specular, reflectivity and translucency colours and factors, shininess, refraction index, transparency mode and flags), its textures on each of the twelve channels, each with its sampler and texture coordinate set, the samplers with their filters, wrap modes and surface, the surfaces with their format, size, images and initialisation, and the generated parameters with their values, semantics and annotations; each material with its effect, its parameters and its technique hints. "
  "What COLLADA has no place for is left out or replaced in one way only: a value that a texture replaces reads as one; channels that the lighting model or a non-reflective profile does not have are dropped; a refraction texture makes the profile refractive; a sized surface has no viewport ratio and keeps the images that its initialisation uses; wrap modes that the sampler's type does not have are defaults; a material without an effect keeps no parameters and hints; parameters of materials have no semantic; an entity without a name gets its id as name. "
  "Saving changes nothing: twice in a row it writes the same file. Textures of a profile that are given one image share one sampler, and giving one of them another image leaves the others alone.",
  ["inputs", "histories"], "every history of the creation, editing and release of up to 4 to 9 of these objects of several combinations of kinds, with saves and loads anywhere in between; larger documents by random simulation",
  "Values are written in one of several ways, depending on lighting model, flags, textures and the kind of the parameter's owner; the tests save a few materials.",
  ["FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp", "FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp", "FCollada/FCDocument/FCDEffectStandard.cpp", "FCollada/FCDocument/FCDTexture.cpp", "FCollada/FCDocument/FCDEffectParameterSurface.cpp", "FCollada/FCDocument/FCDEffectParameterSampler.cpp", "FCollada/FCDocument/FCDMaterial.cpp"],
  [("FArchiveXML::WriteEffectStandard / LoadEffectStandard", "FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp"), ("FArchiveXML::WriteEffectParameterSurface / LoadEffectParameterSurface", "FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp"), ("FCDTexture::SetImage", "FCollada/FCDocument/FCDTexture.cpp")],
  ["fields of the loaded images, effects, parameters, textures and materials", "what refers to what", "the written files"])

P("P28", "Skins and morphs: chains, targets, weights, and saving and loading",
  "Controllers chain to a geometry: a skin or a morph accepts a target or base only if it is a geometry, or a controller whose chain ends in a geometry without passing through itself, so that chains always end; another one leaves it without a base, and a morph also without targets. A skin gets an influence per vertex of its target if it had none. A morph with a base has targets similar to it only (same type and number of vertices): another geometry is refused, and targets that do not match a new base are released. Setting a target's geometry keeps everything else, except that a geometry that is given up and that nothing else refers to is released. Creating a skin or morph replaces the previous one. "
  "ReduceInfluences keeps at each vertex at most the given number of the heaviest joints, none lighter than the minimum, and the total weight. The skeleton roots of an instance are its joints whose parent is not one of them. "
  "After saving and loading (without an error) every controller has its bind shape, joints with their bind poses, joint indices (out-of-range ones become -1) and weights (normalised to one per vertex), method, base or target, also when it comes later in the document, and morph targets with their weights; an instance has as joints the nodes with the sub ids of the joints of its skin, found from its skeleton roots or else in the whole scene. Saving twice in a row writes the same file.",
  ["inputs", "histories"], "every history of the creation, linking, editing and release of up to 3 to 6 geometries, controllers, morph targets, nodes and instances of several combinations of kinds, with saves and loads anywhere in between; larger documents by random simulation",
  "What a change of base or a load does depends on the whole chain of controllers and on the order of the document; the tests load one skin.",
  ["FCollada/FCDocument/FCDSkinController.cpp", "FCollada/FCDocument/FCDMorphController.cpp", "FCollada/FCDocument/FCDController.cpp", "FCollada/FCDocument/FCDControllerInstance.cpp", "FColladaPlugins/FArchiveXML/FAXControllerExport.cpp", "FColladaPlugins/FArchiveXML/FAXControllerImport.cpp", "FColladaPlugins/FArchiveXML/FAXImportLinking.cpp"],
  [("FCDMorphController::SetBaseTarget / IsSimilar", "FCollada/FCDocument/FCDMorphController.cpp"), ("FCDSkinController::SetTarget / ReduceInfluences", "FCollada/FCDocument/FCDSkinController.cpp"), ("FArchiveXML::LinkController", "FColladaPlugins/FArchiveXML/FAXImportLinking.cpp"), ("FArchiveXML::LinkControllerInstance", "FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp")],
  ["bases, targets, influences, joints and their order", "joints and roots of instances", "the loaded controllers and the written files"])
