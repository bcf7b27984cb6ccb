# mkbzz.py <repo>/src <out>: the script library of the tree under test, as C arrays BZZ_<name>
import sys, os, glob
src, out = sys.argv[1:3]
with open(out, "w") as o:
    for f in sorted(glob.glob(os.path.join(src, "include", "*.bzz"))):
        d = open(f, "rb").read(); n = os.path.basename(f)[:-4]
        o.write("static const char BZZ_%s[]={%s};\n" % (n, ",".join(str(x - 256 if x > 127 else x) for x in d + b"\0")))
