#!/usr/bin/env python3
"""Runs a dynamic_reconfigure .cfg file against a stub parameter generator and writes the C++ config header."""
import sys, os, types

out_dir = sys.argv[2]
cfg = sys.argv[1]

class PG:
    def __init__(self):
        self.params = []
    def add(self, name, paramtype, level=0, description="", default=None, min=None, max=None, edit_method=""):
        self.params.append((name, paramtype, level, default, min, max))
    def add_group(self, *a, **k):
        return self
    def enum(self, *a, **k):
        return ""
    def const(self, name, paramtype, value, descr):
        return (name, value)
    def generate(self, pkg, node, name):
        T = {"double": "double", "int": "int", "bool": "bool", "str": "std::string"}
        def lit(t, v):
            if t == "bool":
                return "true" if v else "false"
            if t == "str":
                return '"%s"' % (v or "")
            if v is None:
                return "0"
            return repr(v)
        L = ["#ifndef SIM_CFG_%s_%s" % (pkg, name), "#define SIM_CFG_%s_%s" % (pkg, name),
             "#include <sim/dynreconf.h>", "namespace %s {" % pkg, "class %sConfig {" % name, "public:"]
        for n, t, lv, d, mn, mx in self.params:
            L.append("  %s %s;" % (T[t], n))
        L.append("  %sConfig() {" % name)
        for n, t, lv, d, mn, mx in self.params:
            L.append("    %s = %s;" % (n, lit(t, d)))
        L.append("  }")
        L.append("  template <class F> void __each(F&& f) {")
        for n, t, lv, d, mn, mx in self.params:
            lo = lit(t, mn) if mn is not None else "sim::cfg_lowest<%s>()" % T[t]
            hi = lit(t, mx) if mx is not None else "sim::cfg_highest<%s>()" % T[t]
            if t in ("bool", "str"):
                L.append('    f("%s", %s, %s, %du);' % (n, n, n, lv))
            else:
                L.append('    f("%s", %s, sim::cfg_clamp(%s, %s(%s), %s(%s)), %du);' % (n, n, n, T[t], lo, T[t], hi, lv & 0xffffffff))
        L.append("  }")
        L.append("  static %sConfig __getDefault__() { return %sConfig(); }" % (name, name))
        L += ["};", "}", "#endif", ""]
        d = os.path.join(out_dir, pkg)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, name + "Config.h")
        text = "\n".join(L)
        if not (os.path.exists(p) and open(p).read() == text):
            open(p, "w").write(text)
        return 0

m = types.ModuleType("dynamic_reconfigure")
g = types.ModuleType("dynamic_reconfigure.parameter_generator_catkin")
g.ParameterGenerator = PG
g.double_t, g.int_t, g.bool_t, g.str_t = "double", "int", "bool", "str"
m.parameter_generator_catkin = g
sys.modules["dynamic_reconfigure"] = m
sys.modules["dynamic_reconfigure.parameter_generator_catkin"] = g
try:
    exec(compile(open(cfg).read(), cfg, "exec"), {"__name__": "__main__", "__file__": cfg})
except SystemExit as e:
    sys.exit(0 if not e.code else e.code)
