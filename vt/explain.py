"""What each check does, in one paragraph per property (for DESIGN.md, MANIFEST.json and the evidence)."""
E = {
"P01": "Objects.tla specifies containers and owning references of (possibly themselves owning) objects as sequences with one owner per object; invariants: one owner, no dangling owner, acyclic ownership; action property: only release, clear, pop, erase or overwriting kills. All reachable states for 3 objects, 2 containers, 1 reference, 1 holder are enumerated and every transition is executed on FUObjectContainer/FUObjectRef with objects that count their destructions; AddressSanitizer turns a second destruction or a use after it into a mismatch.",
"P02": "The same Objects.tla with tracking pointers and tracked lists: invariants: no tracker refers to a dead object and no list holds an element twice. All states for 2 objects, 2 pointers and 2 lists; the driver compares the pointers' and lists' contents (dangling ones show as wrong contents or as an AddressSanitizer report).",
"P03": "Events.tla specifies handler lists under re-entrant edits (handlers that remove themselves, remove or add others, raise again), the three error levels with their fatality level, FUErrorSimpleHandler and FUErrorLog; the action property ExactlyOnce says which handlers a notification reaches. Every transition is executed on FUEvent and FUError.",
"P04": "UniqueMap.tla specifies the name map (FUUniqueStringMap) and Ids.tla the entities of a document with their ids: requested ids are cleaned, made unique, released with the object. Invariants: ids are unique and canonical. Names are structured (prefix, leading zeros, number) so that collisions of generated suffixes are all enumerated; long and maximal numbers by simulation.",
"P05": "Vector.tla specifies fm::vector and fm::pvector as sequences with a capacity; every operation at every position, with self-insertion and self-assignment. The driver runs each history on vectors of three kinds of elements (trivial, counting, pointer) and compares contents, returned positions and element lifetimes.",
"P06": "Tree.tla specifies fm::tree/fm::map as a set of keys with values together with the exact shape of the AVL tree; invariants: balanced and ordered; the shape is not compared, only keys, values, iteration in both directions and lookups. All trees of up to nine keys.",
"P07": "Scene.tla specifies nodes, parents, children (multi-parent DAG), subtree release, clone (in one or into another document), sub ids and searches; invariants: acyclic, parent and child links match, released nodes are in nobody's list. Every transition for 3-4 nodes is executed on FCDSceneNode.",
"P10": "Mesh.tla specifies a mesh's sources, polygons sets, inputs with offsets and sets, indices, faces, holes, and what releasing or promoting a source does to the inputs. Invariants relate the counts of faces, corners and indices. Several small configurations, every transition executed on FCDGeometryMesh, also on the clone.",
"P11": "MeshTools.tla describes a mesh by what it draws: for every face the list of corners with the values seen through every input. A tool (triangulate, reverse, unique indices, pack/fit index buffers, flip, generate textures) is specified by its effect on that drawing. All meshes of the bounds as initial states and every sequence of tools.",
"P12": "Curve.tla defines the keys' order and evaluates curves exactly (times multiples of 12, results scaled to integers) for step, linear, bezier (by its defining cubic, checked at grid points where the parameter is rational) and TCB, with the five infinities on both sides, and clips with offsets. Invariants: sorted keys, the curve passes through every key, periodicity in the cyclic modes.",
"P13": "AnimList.tla (animated list parameters under insertion, removal, resize) and Anims.tla (animations, channels, curves bound to values) specify which value a curve drives; releasing any of them removes exactly its bindings. Every transition is executed for scalar, vector and matrix parameters.",
"P15": "DocScene.tla specifies a document's scenes as the ordered forest of nodes with shared children, flags, texts, instances and the visual-scene instance; `Again' (save, release, load) is specified as the identity apart from the normalisations listed below. Every transition, `Save' (twice the same file) and `Again' at every state.",
"P19": "Transforms.tla computes local transforms as exact integer or rational matrices of translation, scale, rotation (quarter turns), matrix, look-at and skew, and hierarchies as products; every stack within the bounds is built on FCDSceneNode and compared entry by entry.",
"P20": "Rotations.tla multiplies generators exactly (rational matrices) and compares the library's matrix, quaternion, angle-axis and Euler conversions with the product; Matrices.tla checks products, inverses, determinants, transposes and decompositions of integer matrices.",
"P23": "Bounds.tla keeps, beside the box or sphere, the set of everything included so far; invariant: all of it lies inside. Integer boxes in space, spheres on an axis (where the smallest enclosing sphere is exact).",
"P24": "DocMesh.tla and DocSpline.tla specify meshes (sources, polygons sets, inputs, offsets, sets, indices, holes) and splines through save and load.",
"P25": "DocAnim.tla specifies the curves of the dimensions of animated values of 22 kinds (transforms, lights, cameras, effects, morph weights, coordinates, parameters, extra data), their animations, infinities, drivers and clips; loading merges curves of one channel exactly when they agree. Invariant: no curve is lost or altered and a second load changes nothing.",
"P27": "Records.tla specifies an entity as a record of fields; each field of lights, cameras, images, emitters, force fields, assets and document settings takes values from a set with extremes, one field or a pair at a time; `Again' is the identity.",
"P28": "Controllers.tla (on Nest.tla) specifies chains of controllers, similarity of geometries, influences with exact weights in twelfths, ReduceInfluences, skeleton roots, the joints of instances, and what saving and loading makes of them. Invariants: chains end, owners and references are live, saving and loading twice is the same as once, loaded weights add up to one or none. The driver performs the steps on the real classes and lists all objects and their links after each step.",
"P26": "Nest.tla specifies objects of several kinds that own and refer to one another (creation, field changes, references, release) and Materials.tla what saving and loading make of images, effects, the COMMON profile, textures of the 12 channels, surfaces, samplers, parameters with annotations and materials: a total function on documents that is idempotent (an invariant). The C++ driver performs the steps through the public API and lists all the objects, their fields and references after each step; Again compares two files saved in a row.",
}
