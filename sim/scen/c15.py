"""C15: the mesh under repair keeps its element-node incidence consistent
through any history of modifications."""
from ..core import Scenario
from .. import simdisk
from . import meshio

SIZE = {15: 1, 1: 2, 2: 3, 4: 4}


class C15(Scenario):
    ID = "C15"
    QUICK_RUNS = 12000
    THOROUGH_RUNS = 600000
    QUICK_WALL = 40
    RULE = ("histories of adding, removing, moving and merging nodes and elements (points, lines, triangles, tetrahedra; "
            "duplicates attempted; refused requests injected: removing a used node, a missing element, merging a missing node) "
            "with a reference model; the repaired mesh is written and read back at random moments; non-trivial = at least one "
            "merge and one removal took effect")
    REAL = ["bgem.gmsh.heal_mesh.HealMesh", "bgem.gmsh.gmsh_io"]
    STUB = ["disk: in-memory raw file"]
    ASSUME = ["elements are points, lines, triangles or tetrahedra of distinct nodes"]
    STATE_MEASURE = "distinct incidence structures reached"

    def gen(self, rng, tier):
        n = rng.choice([4, 5, 8])
        nodes = [[i + 1] + [float(rng.randrange(0, 9)) for _ in range(3)] for i in range(n)]
        els = []
        used = set()
        for e in rng.sample(range(1, 40), rng.choice([1, 4, 10])):
            t = rng.choice([15, 1, 2, 2, 4, 4, 4])
            ns = rng.sample(range(1, n + 1), SIZE[t])
            if (t, frozenset(ns)) in used:
                continue
            used.add((t, frozenset(ns)))
            els.append([e, t, [rng.randrange(3), rng.randrange(3)], ns])
        ops = []
        for _ in range(rng.choice([4, 10, 20])):
            r = rng.random()
            if r < 0.3:
                t = rng.choice([15, 1, 2, 2, 4, 4])
                ops.append(["add_el", t, rng.randrange(3), [rng.randrange(30) for _ in range(SIZE[t])]])
            elif r < 0.4:
                ops.append(["add_node", rng.randrange(9), rng.randrange(9), rng.randrange(9)])
            elif r < 0.55:
                ops.append(["rm_el", rng.randrange(40)])
            elif r < 0.65:
                ops.append(["move", rng.randrange(30), rng.randrange(9), rng.randrange(9), rng.randrange(9)])
            elif r < 0.82:
                ops.append(["merge", rng.randrange(30), rng.randrange(30)])
            elif r < 0.88:
                ops.append(["rm_node", rng.randrange(30)])
            elif r < 0.93:
                ops.append(["bad_el", rng.randrange(3)])
            elif r < 0.97:
                ops.append(["modified"])
            else:
                ops.append(["save", meshio.gen_io(rng)])
        ops.append(["save", {}])
        return {"config": {"meshes": [{"nodes": nodes, "els": els, "phys": [], "np": False}]}, "ops": ops}

    def execute(self, plan, ctx):
        w = meshio.World(ctx, plan["config"])
        with simdisk.mounted(w.disk):
            self.go(plan, ctx, w)

    def go(self, plan, ctx, w):
        from bgem.gmsh import heal_mesh
        import numpy as np
        g = w.new(0)
        if not g.elements:
            g.elements = {1: (1, [0, 0], [1, 2])} if len(g.nodes) > 1 else {1: (15, [0, 0], list(g.nodes)[:1])}
        if not g.nodes:
            return
        h = ctx.call("create", heal_mesh.HealMesh, g, simdisk.PREFIX + "m.msh")
        M = {e: (t, tuple(tags), tuple(ns)) for e, (t, tags, ns) in g.elements.items()}
        N = {i: tuple(map(float, c)) for i, c in g.nodes.items()}
        used_e, used_n = set(M), set(N)
        touched = set()

        def check(what):
            got = {int(e): (int(v[0]), tuple(v[1]), tuple(int(n) for n in v[2])) for e, v in h.mesh.elements.items()}
            ctx.expect(got == M, "elements", lambda: "after %s the elements are %r, expected %r" % (what, got, M))
            gn = {int(i): tuple(float(x) for x in c) for i, c in h.mesh.nodes.items()}
            ctx.expect(set(gn) == set(N) and all(max(abs(a - b) for a, b in zip(gn[i], N[i])) < 1e-9 for i in N), "nodes",
                       lambda: "after %s the nodes are %r, expected %r" % (what, gn, N))
            for n in N:
                inc = sorted(e for e, v in M.items() if n in v[2])
                gi = sorted(int(e) for e in ctx.call("common_elements", lambda: list(h.common_elements([n]))))
                ctx.expect(gi == inc, "incidence", lambda: "after %s the elements of node %d are %r, expected %r" % (what, n, gi, inc))
                raw = sorted(int(e) for e in h.node_els[n])
                ctx.expect(raw == inc, "incidence", lambda: "after %s node %d keeps elements %r, expected %r" % (what, n, raw, inc))

        def node(k):
            ids = sorted(N)
            return ids[k % len(ids)]

        def dup(t, ns):
            return [e for e, v in M.items() if v[0] == t and set(ns) <= set(v[2])]

        check("creation")
        for op in plan["ops"]:
            k = op[0]
            if k == "add_el":
                t, tag = op[1], op[2]
                ns = []
                for x in op[3]:
                    n = node(x)
                    if n not in ns:
                        ns.append(n)
                if len(ns) != SIZE[t]:
                    continue
                r = ctx.call("add_element", h.add_element, (t, [tag, tag], list(ns)))
                if dup(t, ns):
                    ctx.expect(r is None, "duplicate-added", lambda: "element %r added twice" % (ns,))
                    ctx.probe("duplicate-refused")
                else:
                    ctx.expect(r is not None and r not in used_e, "element-id", lambda: "new element got id %r, ids used so far %r" % (r, sorted(used_e)))
                    M[r] = (t, (tag, tag), tuple(ns))
                    used_e.add(r)
                    touched.add(r)
            elif k == "add_node":
                r = ctx.call("add_node", h.add_node, np.array(op[1:4], dtype=float))
                ctx.expect(r not in used_n, "node-id", lambda: "new node got id %r, used before" % (r,))
                N[r] = tuple(float(x) for x in op[1:4])
                used_n.add(r)
            elif k == "rm_el":
                if not M:
                    continue
                e = sorted(M)[op[1] % len(M)]
                ctx.call("remove_element", h.remove_element, e)
                del M[e]
                touched.discard(e)
                ctx.probe("removed")
            elif k == "move":
                n = node(op[1])
                ctx.call("move_node", h.move_node, n, np.array(op[2:5], dtype=float))
                N[n] = tuple(float(x) for x in op[2:5])
                touched |= {e for e, v in M.items() if n in v[2]}
            elif k == "merge":
                a, b = node(op[1]), node(op[2])
                if a == b:
                    continue
                r = ctx.call("merge_node", h.merge_node, a, b)
                ctx.expect(r == b, "merge-result", lambda: "merge_node returned %r, kept node is %r" % (r, b))
                for e in [e for e, v in M.items() if a in v[2] and b in v[2]]:
                    del M[e]
                N[b] = tuple((x + y) / 2 for x, y in zip(N[a], N[b]))
                del N[a]
                ren = {}
                for e in [e for e, v in M.items() if a in v[2]]:
                    t, tags, ns = M.pop(e)
                    ren.setdefault((t, frozenset(b if n == a else n for n in ns)), []).append((t, tags, tuple(b if n == a else n for n in ns)))
                touched &= set(M)
                touched |= {e for e, v in M.items() if b in v[2]}
                now = {int(e): (int(v[0]), tuple(v[1]), tuple(int(n) for n in v[2])) for e, v in h.mesh.elements.items()}
                new = {e: v for e, v in now.items() if e not in M}
                for key, cand in ren.items():
                    if any(v[0] == key[0] and key[1] <= set(v[2]) for v in M.values()):
                        continue
                    hit = [e for e, v in new.items() if (v[0], frozenset(v[2])) == key]
                    ctx.expect(len(hit) == 1 and new[hit[0]] in cand, "merge-elements",
                               lambda: "merge of node %d into %d: elements %r became %r" % (a, b, cand, [new[x] for x in hit]))
                    ctx.expect(hit[0] not in used_e, "element-id", lambda: "merge reused element id %d" % hit[0])
                    M[hit[0]] = new[hit[0]]
                    used_e.add(hit[0])
                    touched.add(hit[0])
                ctx.probe("merged")
            elif k == "rm_node":
                n = node(op[1])
                inuse = any(n in v[2] for v in M.values())
                if len(N) < 2:
                    continue
                _, e = ctx.attempt(h.remove_node, n)
                if inuse:
                    ctx.expect(e is not None, "used-node-removed", lambda: "node %d of existing elements was removed" % n)
                    ctx.fault("refused-remove-node")
                else:
                    ctx.expect(e is None, "unused-node", lambda: "removing unused node %d raised %r" % (n, e))
                    del N[n]
                    ctx.probe("removed")
            elif k == "bad_el":
                bad = max(used_e) + 1 + op[1]
                _, e = ctx.attempt(h.remove_element, bad)
                ctx.expect(e is not None, "missing-element", lambda: "removing missing element %d succeeded" % bad)
                ctx.fault("refused-remove-element")
            elif k == "modified":
                got = set(int(e) for e in ctx.call("reset_modified", h.reset_modified))
                ctx.expect(touched <= got, "modified", lambda: "changed elements %r are not reported, reported %r" % (sorted(touched - got), sorted(got)))
                ctx.expect(got <= used_e, "modified", lambda: "reported elements %r never existed" % sorted(got - used_e))
                touched = set()
            elif k == "save":
                p = w.path(1)
                w.disk.arm(op[1])
                ctx.call("write", h.write, p)
                r = ctx.call("read", w.mod.GmshIO, p)
                want = {"nodes": {i: [float(x) for x in c] for i, c in h.mesh.nodes.items()},
                        "elements": {e: (v[0], list(v[1]), list(v[2])) for e, v in M.items()}, "physical": {}}
                got = meshio.content(r)
                ctx.expect(meshio.same(got, want), "saved-mesh", lambda: "the healed mesh was saved wrong: " + meshio.differ(got, want))
                ctx.probe("saved")
            check(k)
            ctx.log(k, sorted(M.items()))
            ctx.state(repr(sorted(M.items())))

    def nontrivial(self, plan, ctx):
        return ctx.probes.get("merged", 0) > 0 and ctx.probes.get("removed", 0) > 0


SCENARIO = C15()
