"""Writes properties.jsonl and MANIFEST.json (development helper, not used by
the checks)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "src/bgem/polygons/"
U = "src/bgem/undo.py"
G = "src/bgem/gmsh/"
B = "src/bgem/bspline/"


def m(name, where):
    return {"name": name, "where": where}


PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, note="", tech="", claim=True):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, observe=observe or [], note=note, tech=tech, claim=claim))


POLYS = [P + f for f in ("polygons.py", "decomp.py", "segment.py", "point.py", "polygon.py", "aabb_lookup.py", "idmap.py")]

prop("C01", "The plane subdivision stays valid through every editing history",
     "After any sequence of adding and deleting points, lines and segments, the subdivision is a planar graph without crossing "
     "or dangling parts, its polygons are exactly the faces of that graph, with the right sides, outer boundaries, holes, "
     "nesting and free points. Every object can be found under its own id and no operation on valid input fails.",
     ["histories", "inputs"],
     "all finite sequences of public edits, at any scale and offset of coordinates, including touching, crossing, overlapping "
     "and nested drawing, and deletion that merges, opens or re-nests polygons",
     "tests replay a few hand-made drawings; validity depends on the order of edits and on which wires are nested, bridged or "
     "touching at the time, an unbounded space",
     POLYS,
     [m("new/split/join wires and polygons on a new segment", P + "decomp.py:178"), m("delete_segment undoing it", P + "decomp.py:222"),
      m("snapping and line subdivision", P + "polygons.py:353"), m("self check", P + "decomp.py:98")],
     ["polygons, points, segments, wires of the subdivision after each operation"],
     "random histories against faces rebuilt from the bare segments in exact rational arithmetic; trusts that reference",
     "deterministic simulation of editing histories, seeded search, exact reference model")

prop("C02", "Drawing lands where it was drawn, nothing else moves",
     "A point added within the tolerance of an existing point or segment becomes that point or splits that segment, otherwise it is "
     "new at its own coordinates, inside the polygon it is reported in. A line drawn is covered by the returned chain of segments "
     "from end to end, meets everything it crosses at shared points (crossings closer than the tolerance become one) and leaves the rest as it was.",
     ["histories", "inputs"],
     "all positions of points and lines relative to an arbitrary existing drawing reached by any history, with deletions, id reuse "
     "and tolerance changes between",
     "the tests fix a handful of relative positions on fresh drawings; the spatial lookup and snapping depend on everything drawn "
     "and deleted before",
     POLYS,
     [m("add_point, _snap_point", P + "polygons.py:320"), m("add_line and intersections", P + "polygons.py:443"),
      m("spatial lookup", P + "aabb_lookup.py:28")],
     ["returned points and segments, coordinates, ids before and after"],
     "each operation's effect is predicted from the bare geometry before it; positions in the twilight of the tolerance are not judged",
     "deterministic simulation of editing histories, seeded search, predictive model")

prop("C03", "Polygon change reports are truthful and attributes follow them",
     "After a segment is added or deleted, the reported change names exactly the polygons that appeared, vanished, were split, "
     "joined or reshaped. An application that only follows these reports always knows the polygons and their attributes: a new "
     "polygon carries the attribute of the one it was cut from. Points and segments keep theirs, both parts of a split segment.",
     ["histories"],
     "all histories of segment insertion and deletion with attribute changes in between, any nesting",
     "tests look at a single report after a few fixed edits; which polygon keeps its id depends on history and geometry",
     POLYS,
     [m("last polygon change", P + "polygons.py:258"), m("split and join of polygons", P + "decomp.py:566"), m("attributes", P + "polygons.py:697")],
     ["the reported change, the set of polygons, their attributes"],
     "reports compared with faces computed from the geometry before and after, and replayed into a mirror",
     "deterministic simulation of editing histories, seeded search, exact reference model")

prop("C04", "Undo and redo of drawing restore the drawing exactly",
     "Undoing recorded edits brings back the drawing as it was before them, redoing brings back the one after: geometry, topology, "
     "ids, holes, free points and attributes. Edits made after any undo or redo behave as on a drawing that never was elsewhere, "
     "and several documents may share one history.",
     ["histories"],
     "all histories mixing edits, grouped edits, undo, redo and new edits after undo, with one or two documents on one history",
     "tests undo a few single edits; restoration depends on wire and id allocation over the whole history",
     POLYS + [U],
     [m("undoable primitive edits", P + "polygons.py:628"), m("undo stack", U)],
     ["full observable state of the documents at each depth of the history"],
     "snapshots at every recorded action compared after each undo and redo",
     "deterministic simulation of editing and undo histories, seeded search, snapshot oracle")

UM = [m("stack of actions", U), m("undoable decorator", U), m("group context", U)]
prop("C05", "The undo stack is a linear history of actions and groups",
     "Undo takes back exactly the last action or outermost group, redo repeats the last one taken back, a new action drops what "
     "could be redone. Counts, texts, the can-undo/can-redo answers, the savepoint and the callbacks always tell the true state of that history.",
     ["histories"],
     "all sequences of actions, nested groups, undo, redo, savepoint, clear and switching recording off and on",
     "the repository has no tests of the undo engine itself beyond its use; every answer depends on the whole history",
     [U], UM, ["document state, counts, texts, haschanged, callbacks"],
     "compared after every operation with a small executable model of a linear history",
     "deterministic simulation against a reference model, seeded search over histories")
prop("C06", "Failing user code never corrupts the undo history",
     "When an action, its undo or redo part, the body of a group or a callback raises at any point, the exception reaches the caller, "
     "later actions go to the right history and record again, and the history stays one that the documented rules allow.",
     ["histories", "fault_sequences"],
     "an exception (ordinary or cancellation) at every call into user code, at any nesting, repeatedly",
     "no test makes user code fail; the fault may hit at any of the calls in any history",
     [U], UM, ["document state, counts, receiver of later actions, recording state"],
     "faults injected at seeded points into user code, model of allowed outcomes",
     "deterministic simulation with injected exceptions, reference model")
prop("C07", "Documents with their own undo histories stay independent",
     "Switching the active history never moves, loses or leaks actions between documents: every document undoes and redoes exactly "
     "its own actions in its own order, also when switched inside open groups or after failures.",
     ["histories", "schedules", "fault_sequences"],
     "all interleavings of edits, groups, undo and redo of several documents, with failing user code",
     "the tests use one history; independence is about interleavings",
     [U], UM + [m("active stack switch", U)], ["state of each document and its history"],
     "three documents interleaved by a seeded scheduler, reference model per document",
     "deterministic simulation of interleaved documents with injected exceptions")
prop("C08", "The spatial lookup never misses a live object",
     "After any history of adding, replacing and removing boxes, a box query returns every live object whose box meets it, and a "
     "nearest query returns every object that can be the closest to the point; removed objects are never returned.",
     ["histories", "inputs"],
     "all histories with id reuse, growth of the table and far ids, all box sizes and query positions",
     "tests query a lookup filled once; misses appear only after particular removals and growth",
     [P + "aabb_lookup.py"],
     [m("table growth and removal", P + "aabb_lookup.py:44"), m("candidates by distance bounds", P + "aabb_lookup.py:67")],
     ["returned id sets"],
     "every query compared with a scan over live boxes",
     "deterministic simulation of histories, seeded search, brute-force reference")

IO = [m("text reader", G + "gmsh_io.py:89"), m("text writer", G + "gmsh_io.py:209")]
prop("C11", "Mesh files round trip without loss",
     "A mesh written as text and read back has the same nodes with bit-equal coordinates, the same elements with type, tags and node "
     "order, and the same physical names, whatever was read into or written from the object before. Files of other programs in the "
     "supported text versions are read with the same content.",
     ["inputs", "histories", "fault_sequences"],
     "all meshes (ids, element types, tag counts, extreme coordinates, names), all histories of reads and writes, disks that deliver "
     "data in short pieces",
     "the tests read one or two fixed files; loss depends on element kind, id order, names and reuse of the reader",
     [G + "gmsh_io.py"], IO, ["content after reading, bytes written as parsed by an independent reader"],
     "independent parser and writer of the format, exact comparison, simulated disk",
     "deterministic simulation of the disk, seeded search, independent format model")
prop("C12", "A failed write is reported, and never looks like success",
     "When the disk fails at any byte, at closing or at opening while a mesh, its fields or the quality report are written, the caller "
     "gets an error. When no error is reported, the file on disk holds everything, and a failed write leaves the mesh in memory intact "
     "and writable again.",
     ["fault_sequences", "crash_points", "histories"],
     "a disk error of any kind at any byte of any write, followed by retries",
     "no test can make the disk fail",
     [G + "gmsh_io.py", G + "heal_mesh.py"], IO + [m("healed mesh writer", G + "heal_mesh.py:376")],
     ["exceptions, bytes on the simulated disk, later writes"],
     "disk failures injected at seeded bytes, at close and open; what survives is parsed independently",
     "deterministic simulation with disk fault injection")
prop("C13", "A damaged mesh file never passes for a whole one",
     "Reading a mesh file whose end was lost at any byte, that lost lines inside, has an erased block among its numbers, or meets an I/O error, ends "
     "with an error, unless the loss covers exactly whole sections. What is read without an error is exactly what those sections "
     "hold, never a section with missing or altered entries.",
     ["crash_points", "inputs", "fault_sequences"],
     "every crash point of a writer, every prefix of a file, every lost run of lines or zeroed block, every I/O error while reading, any mesh",
     "tests read whole healthy files only",
     [G + "gmsh_io.py"], IO, ["exception or content after reading what is left of a file"],
     "crash leaves a prefix at a seeded byte, losses inside are seeded; a fresh reader's result is compared with the content of the complete sections",
     "deterministic simulation with crash, storage damage and I/O fault injection")
prop("C14", "Element fields round trip with the right element and component",
     "Fields written for elements in any order come back under the same name and time with every value at its element and component, "
     "bit-equal, also for one value per element and for several fields and times in one file. A field with missing rows or values is refused.",
     ["inputs", "histories", "fault_sequences"],
     "all numbers of components, elements, orders, several fields and times, all public writers, short and interrupted transfers",
     "the tests write one field of a fixed shape and do not read it back",
     [G + "gmsh_io.py"], [m("field header and block reader", G + "gmsh_io.py:48"), m("field writer", G + "gmsh_io.py:270")],
     ["fields read back"],
     "independent parser and writer of field sections, exact comparison",
     "deterministic simulation of the disk, seeded search, independent format model")
prop("C15", "Mesh healing keeps node and element incidence consistent",
     "After any sequence of adding, removing, moving and merging nodes and elements, each node knows exactly the elements that use it, "
     "no element uses a missing node or one node twice, ids are never reused, the reported modified elements cover all changes and the "
     "saved file is the healed mesh.",
     ["histories", "inputs"],
     "all sequences of the primitive healing steps on any mesh, including refused ones",
     "the tests heal one fixed mesh and look at counts",
     [G + "heal_mesh.py"],
     [m("add/remove/move/merge", G + "heal_mesh.py:259"), m("incidence table", G + "heal_mesh.py:240")],
     ["elements, nodes, incidence, reported changes, saved file"],
     "compared after every step with a model mesh",
     "deterministic simulation of histories, seeded search, reference model")

prop("C16", "Healing a mesh repairs its defects and nothing else",
     "Healing removes duplicate elements and elements that repeat a node, merges nodes within the tolerance and resolves flat triangles and tetrahedra; "
     "what results is the mesh without the defects: conforming, same tags and orientation, other nodes and elements untouched. A mesh without defects "
     "stays as it is, a healed mesh is not changed by healing it again, interrupted healing can be resumed, and the statistics report every element in its quality and change nothing.",
     ["inputs", "histories"],
     "all meshes with any number of isolated defects at any place, any numbering, scale and order, and any number of interrupted passes",
     "tests heal one stored mesh and check nothing but that it ends",
     ["src/bgem/gmsh/heal_mesh.py", "src/bgem/gmsh/gmsh_io.py"],
     [m("healing loop", "src/bgem/gmsh/heal_mesh.py:447"), m("merge of nodes", "src/bgem/gmsh/heal_mesh.py:296")],
     ["nodes, elements, tags and orientation after healing", "incidence kept by the healer", "quality statistics", "saved mesh"],
     "sound meshes damaged in ways whose only repair is known, compared with the sound mesh; rough plane meshes checked to be left with no defect; "
     "defects that share elements are judged only by the general invariants",
     "deterministic simulation of damaged meshes, interrupted and repeated healing, seeded search, expected mesh known by construction")

prop("C17", "Every BREP file written is complete and self-consistent",
     "Whatever was written, printed, extended or failed before, a written BREP file contains every shape, curve, surface and location "
     "of its model exactly once, with sharing, orientation, location, flags and geometry as given, and every reference in it resolves. "
     "Models may share shapes; writing or printing one does not change what is written for another.",
     ["histories", "crash points", "inputs"],
     "all histories of building shapes that share vertices, edges, curves, surfaces and locations, and of printing, extending and writing "
     "several overlapping models, with output streams failing at any character",
     "the test writes one model once; the numbering of shapes is kept on the shared objects, so the result depends on what was written, "
     "printed or interrupted before",
     [B + "brep_writer.py"],
     [m("numbering of shapes, curves, surfaces and locations", B + "brep_writer.py"), m("write_model", B + "brep_writer.py")],
     ["the text written, read by an independent strict reader"],
     "flags edited by hand are not exercised; vertex representations are not written by the format used; coordinates are compared exactly",
     "deterministic simulation of histories with stream failures, seeded search, independent reader and reference model")


prop("C18", "Geometry objects keep their shapes and regions in every history",
     "Through every sequence of making (simplices, boxes, rectangles, cylinders, polygons, fractures), moving, turning, scaling, copying, "
     "grouping, cutting, fragmenting, selecting, splitting, meshing and writing gmsh geometry objects, each object denotes exactly the part of space the operations describe, pieces keep the region and mesh step of what they came "
     "from, operands are consumed or left alone as documented, and the mesh written holds each region once with its exact measure. A failure "
     "of the kernel ends in the documented error and leaves other objects usable.",
     ["histories", "fault_sequences", "inputs"],
     "all sequences of operations on simplices, boxes, rectangles, cylinders, polygons and fractures, on a lattice and in general position, "
     "with the kernel failing at any call and the operation being repeated",
     "tests build a few fixed geometries and mostly look at whether a mesh file appears",
     [G + "gmsh.py", G + "gmsh_io.py"],
     [m("object sets and their lazy synchronization", G + "gmsh.py"), m("boolean operations, splitting, regions, mesh groups", G + "gmsh.py")],
     ["shape tags and measures reported by the kernel, object regions, mesh file read back"],
     "real gmsh kernel; axis aligned shapes on a unit lattice judged by a cell model, shapes in general position by affine images of their "
     "corners and exact clipping of convex ones, cylinders by measure and center; mesh quality is not judged",
     "deterministic simulation of histories with kernel failures, seeded search, unit-cell and affine reference models")


prop("C19", "Spline surfaces keep their geometry in every history of use",
     "Through every sequence of transforms, copies, conversions, baking of the Z transform and refused transforms, every curve, surface, "
     "Z surface and grid surface denotes exactly the geometry of its poles and of the last transform accepted, through every way of reading it "
     "(point, array, Z only, by UV or XY, center, quadrilateral, bounding and search boxes). A copy, a converted surface and the original never "
     "change each other, nor do arrays passed in or handed out.",
     ["histories", "inputs", "fault_sequences"],
     "all histories over several live objects, polynomial and rational, degrees one to three, linear and bilinear XY maps, shared Z splines",
     "tests transform one surface once and look at a few points",
     [B + "bspline.py"],
     [m("Z surface transforms and copies", B + "bspline.py"), m("grid surface", B + "bspline.py"), m("lazy search boxes", B + "bspline.py")],
     ["values returned by every evaluating method"],
     "float comparison with relative tolerance 1e-8 against an independent de Boor evaluation",
     "deterministic simulation of histories with refused operations, seeded search, independent reference model")
prop("C21", "A surface fit depends only on its points and parameters",
     "A fit is the regularized least squares surface of its points, weights and the parameters in force over its quadrilateral, bit for bit the "
     "same whatever was fitted, failed or refused before and whatever the process entropy, and its reported error is the largest "
     "deviation. A failed fit leaves the previous result; results handed out earlier do not change. Lines, planes, bilinear surfaces and curves "
     "made from points go through them, and the default quadrilateral is the smallest rectangle around the points.",
     ["histories", "fault_sequences", "inputs"],
     "all histories of fits over several point sets, in memory, from files and from grid surfaces, weighted or not, at any coordinates",
     "tests fit two functions and accept an error of 0.02; the entropy of the solver is not controlled",
     [B + "bspline_approx.py"],
     [m("fit and its parameters", B + "bspline_approx.py"), m("selection of the points of the quad", B + "bspline_approx.py")],
     ["fitted surface, reported error"],
     "normal equations assembled independently; the scale of the regularization is accepted within 5 percent because the code estimates it",
     "deterministic simulation of histories, entropy and solver failures, seeded search, independent normal equations")


prop("C09", "Points can be moved without damaging the drawing",
     "Moving any set of points by a displacement that keeps the topology changes just their coordinates. The drawing stays valid, and whatever is "
     "drawn later snaps to, splits and crosses the moved points and segments where they are now, and nothing where they were. Asking whether a move "
     "collides changes nothing, finds every crossing of the moved points or segments with the others, and refuses no move that meets nothing.",
     ["histories", "inputs"],
     "all editing histories with moves of points, segments, components and sets in between",
     "the test moves one point once and draws nothing afterwards",
     POLYS + [P + "aabb_lookup.py"],
     [m("move and collision check", P + "polygons.py:195"), m("lookup of moved objects", P + "aabb_lookup.py")],
     ["coordinates, topology, lookup results through later edits, answers of the check"],
     "moves whose result has the same combinatorial structure by the exact reference; later edits judged as in C01 and C02; collisions recomputed",
     "deterministic simulation of editing and moving histories, seeded search, exact reference model")

prop("C10", "Merging drawings gives their common refinement with correct maps",
     "The merge of any drawings is a valid drawing whose points are those of the inputs and their crossings, whose segments cover exactly the "
     "segments of the inputs, and whose maps tell for every point, segment and polygon which point, segment and polygon of each input it "
     "comes from, and omit it where there is none. The inputs stay as they were, an in-place merge can be undone, and the result can be edited and merged on.",
     ["histories", "inputs", "fault_sequences"],
     "all sets of one to four drawings (crossing, touching, overlapping, nested, empty, equal) in any order, results merged again and edited, any merge tolerance",
     "the tests compare maps of one pair of squares; what is mapped depends on how polygons split while segments are added one by one",
     POLYS + [P + "merge.py"],
     [m("incremental merge and maps", P + "merge.py"), m("subdivision of a new line", P + "polygons.py")],
     ["points, segments, polygons and maps of the result; observable state of the inputs"],
     "result and maps compared with the inputs' geometry, polygons located by inner points in exact arithmetic",
     "deterministic simulation of histories of drawings and merges, seeded search, geometric reference model")

prop("C22", "Mesh size fields and options mean what they say",
     "The size the mesher gets at any point of any entity is the value of the background field as its functions describe it: boxes, constants, distances "
     "from points and curves, thresholds (linear or sigmoid) between both bounds, minima, maxima, restriction to the listed entities, in any composition; "
     "with steps at points as a limit. A failed call is reported and changes no other field; an option set or refused changes only itself, names and defaults of options are those stated.",
     ["inputs", "histories"],
     "all compositions of fields over all shapes, any order of building, choosing and meshing, any failing call of the kernel",
     "no test calls the field functions or sets an option",
     ["src/bgem/gmsh/field.py", "src/bgem/gmsh/options.py", "src/bgem/gmsh/gmsh.py"],
     [m("fields", "src/bgem/gmsh/field.py:50"), m("options", "src/bgem/gmsh/options.py:112"), m("mesh step", "src/bgem/gmsh/gmsh.py:666")],
     ["size at the points asked by the mesher", "option values in the kernel", "failures reported"],
     "interval evaluation of the field tree at the points asked in make_mesh; unspecified where the documentation leaves the value open (beyond "
     "field_min of a threshold without an upper bound, lower boundary of restricted entities, mid part of the sigmoid)",
     "deterministic simulation of building histories with injected kernel failures on the real mesher, seeded search, independent evaluator")

prop("C23", "A drawing rebuilt from what was saved is the drawing that was saved",
     "A drawing described at any moment of its history by its points, its segments as pairs of points and its polygons as boundaries, holes and free points "
     "(in any order and numbering, boundaries from any place) and rebuilt from that description alone is the same drawing: geometry, polygons, sides, holes, "
     "nesting, free points. It can be found, edited, undone, saved and rebuilt again like a drawing that never was lost.",
     ["crash_points", "histories", "inputs"],
     "all moments of all editing histories at which the process dies after a save, any order of the saved objects, repeatedly",
     "no test calls the functions made for deserialization; the links they restore (next segments, wires, nesting, spatial lookup) show only in later edits",
     POLYS,
     [m("make_segment, make_wire_from_segments, make_polygon, set_wire_parents", P + "polygons.py:784")],
     ["snapshot at the save against the rebuilt drawing, effect of later edits"],
     "crash and restart with only the saved description surviving; compared with the snapshot taken at the save and with exact faces",
     "deterministic simulation of editing histories with crashes and restarts from the last durable state, seeded search, exact reference model")

exec(open(os.path.join(V, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(V, "tools", "more_props.py")) else None


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in sorted(PROPS, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["title"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}}
            f.write(json.dumps(d) + "\n")
    checks = []
    for p in sorted(PROPS, key=lambda p: p["id"]):
        if p["claim"] is not True:
            continue
        checks.append({"property": p["id"], "quick_cmd": "./check check %s quick" % p["id"],
                       "thorough_cmd": "./check check %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["tech"], "level": "exploration",
                       "level_note": "Seeded search over simulated runs, no exhaustiveness claim: " + p["note"] + "."})
    man = {"version": 1, "setup_cmd": "./check setup", "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": p["claim"]} for p in sorted(PROPS, key=lambda p: p["id"]) if p["claim"] is not True],
           "notes": "No hooks in /repo: the seams used are open() and file objects, streams given by the caller, user callbacks, the "
                    "interpreter's monitoring events and module-level collaborators."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
