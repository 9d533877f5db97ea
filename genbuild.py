"""Write build.ninja for the simulator."""
import os, sys, glob, hashlib
repo, here, b = sys.argv[1:4]
out = ["ninja_required_version = 1.3",
       "cxx = clang++ -std=c++20 -O1 -g1 -DCOTTONTAIL_SIMULATION "
       "-Wno-everything -I%s -I%s" % (repo, here),
       "rule inst",
       "  command = $cxx $more -fsanitize=thread -MMD -MF $out.d -c $in -o $out",
       "  depfile = $out.d", "  deps = gcc",
       "rule plain",
       "  command = $cxx -O2 -MMD -MF $out.d -c $in -o $out",
       "  depfile = $out.d", "  deps = gcc",
       "rule link",
       "  command = clang++ -no-pie -g1 -Wl,-z,now -o $out $in -lz -lpthread -ldl"]
objs = []
def add(rule, src, name):
    o = "%s/%s.o" % (b, name)
    out.append("build %s: %s %s" % (o, rule, src))
    objs.append(o)
for d in ("src", "gcl", "meadowlark"):
    for s in sorted(glob.glob("%s/%s/*.cc" % (repo, d))):
        add("inst", s, "repo_%s_%s" % (d, os.path.basename(s)[:-3]))
o = b + "/repo_apps_ssr_server.o"
out.append("build %s: inst %s/apps/ssr-server.cc\n"
           "  more = -Dmain=ssr_server_main" % (o, repo))
objs.append(o)
for s in sorted(glob.glob("%s/scenarios/*.cc" % here)):
    add("inst", s, "scen_" + os.path.basename(s)[:-3])
for s in sorted(glob.glob("%s/sim/*.cc" % here)):
    add("plain", s, "sim_" + os.path.basename(s)[:-3])
out.append("build %s/sim: link %s" % (b, " ".join(objs)))
out.append("default %s/sim" % b)
text = "\n".join(out) + "\n"
f = b + "/build.ninja"
if not os.path.exists(f) or open(f).read() != text:
    open(f, "w").write(text)
