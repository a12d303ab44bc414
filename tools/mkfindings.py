import subprocess,json,os
log=subprocess.run("git -C /repo log --reverse --format='%h %s' e9dff31..HEAD",shell=True,capture_output=True,text=True).stdout.splitlines()
MAP={}
def p(s):
    t=s.split('fix: ',1)[1]
    rules=[("over collinear points","C01"),("close intersections of a drawn","C01"),("add_line returns segments","C02"),("end points of a segment fails","C09"),("line is interrupted","C01"),("redocount","C05"),("haschanged","C05"),("undo/redo leave","C06"),("undo.group","C06"),("AABB","C08"),("add_line attaches","C02"),
    ("inner tree","C01"),("wire containment","C01"),("re-parents","C01"),("undo of adding","C04"),("undo of a removal","C04"),("stale direction","C04"),
    ("whole length","C04"),("less than two tags","C11"),("physical names","C11"),("1.0","C11"),("cut off","C13"),("write_ascii closes","C12"),
    ("write_fields into","C12"),("one value","C14"),("empty line","C11"),("diameter","C16"),("without all","C13"),("numbers the objects","C17"),("BREP vertices","C17"),("write_model places","C17"),("composed loc","C17"),("Edge does","C17"),("Approx.plane","C17"),("shape can be printed","C17"),("failures of the gmsh kernel","C18"),("GeometryOCC.","C18"),("repeated make_mesh","C18"),("ObjectSet.copy","C18"),("shape shared by objects","C18"),("Z_Surface","C19"),("GridSurface.","C19"),("aabb of rational","C19"),("Surface.deep_copy","C19"),("rational curves","C19"),("pproximation","C21"),("an overhang accept","C21"),("merge_points accepts","C09"),("point between two segments","C02"),("behind its ends","C01"),("moved points","C09"),("displacement","C09"),("merged drawings","C10"),("merged segments","C10"),("cocircular","C16"),("degenerate triangle","C16"),("get_transform","C19"),("make_rectangle","C18"),("write_mesh without","C18"),("mesh healing","C16"),("field.","C22"),("line endings",None)]
    for k,v in rules:
        if k in t: return v,t
    raise SystemExit(t)
fixed=[]
for l in log:
    h=l.split()[0]; pid,t=p(l)
    if pid: fixed.append("fixed: property=%s %s %s"%(pid,h,t))
K=json.load(open('/verif/known_findings.json'))['known']
json.dump({"known":K,"fixed":fixed},open('/verif/known_findings.json','w'),indent=1)
