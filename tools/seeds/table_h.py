FAKE = '''
import json, stat
from pibronic import julia_wrapper as jw
from pibronic.data import file_structure as fs
JULIA = """#!/opt/venv/bin/python
import sys, json
a = sys.argv[1:]
if a[0] == "-v":
    print("julia version 1.0.0")
elif a[0] == "-e":
    print("/nowhere/V/src/V.jl", end="")
else:
    o = dict(zip(a[1::2], a[2::2]))
    if "iterative" in a[0]:
        d = json.load(open(o["--conf"]))
        json.dump(d["energies"], open(o["--out-conf"], "w"))
        open(o["--out-vs"], "w").write("1")
    else:
        print("Z_sos: 1.0")
"""
def install(root):
    os.makedirs(root + "/bin")
    open(root + "/bin/julia", "w").write(JULIA)
    os.chmod(root + "/bin/julia", 0o755)
    os.environ["PATH"] = root + "/bin:" + os.environ["PATH"]
'''
seed("iterated_once", "P33", [(JW, '    p = subprocess.Popen(command, stdout=subprocess.PIPE, stderr=subprocess.PIPE, shell=True)\n    (out, error) = p.communicate()\n    # print(out.decode())\n    # print(error.decode())\n\n    # we assume', '    # the iterative method is expensive\n    if not isfile(path_iterate):\n        p = subprocess.Popen(command, stdout=subprocess.PIPE, stderr=subprocess.PIPE, shell=True)\n        (out, error) = p.communicate()\n    # print(out.decode())\n    # print(error.decode())\n\n    # we assume')], FAKE + """
with scratch() as root, quiet():
    install(root)
    FS = fs.FileStructure(root, 0, 0)
    got = []
    for e in (0.1, 0.7):
        write_model(FS.path_vib_model, N=1, A=2, E=np.diag([e, 0.2]), w=[0.2], G1=[[[0.0, 0.02], [0.02, 0.0]]])
        jw.iterate_method(FS)
        got.append(json.load(open(FS.path_iter_model))[0][0])
check(got == [0.1, 0.7], got)
""", "a data set that is prepared again with another rotation", "its sampling models are those of the iterative method for the old coupled model")

seed("iterated_original", "P33", [(JW, '    path_iterate = FS.path_iter_model\n', '    path_iterate = FS.path_iter_model\n    source = FS.path_orig_model if isfile(FS.path_orig_model) else FS.path_vib_model\n'),
                                  (JW, '    command = command.format(F=FS.path_vib_model, P=path_iterate,', '    command = command.format(F=source, P=path_iterate,')], FAKE + """
with scratch() as root, quiet():
    install(root)
    FS = fs.FileStructure(root, 0, 0)
    for path, e in ((FS.path_orig_model, 0.1), (FS.path_vib_model, 0.7)):
        write_model(path, N=1, A=2, E=np.diag([e, 0.2]), w=[0.2], G1=[[[0.0, 0.02], [0.02, 0.0]]])
    jw.iterate_method(FS)
    got = json.load(open(FS.path_iter_model))[0][0]
check(got == 0.7, got)
""", "a data set whose coupled model was rotated", "the iterative sampling models belong to the uncoupled original model")
